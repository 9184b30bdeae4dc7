//! Runtime monitor for ndarray-glm: drives the real library through its public API and judges
//! every execution against independent oracles. See /verif/DESIGN.md.
mod case;
mod ctx;
mod family;
mod linalg;
mod links;
mod props;
mod refm;
mod rng;
mod run;
mod special;
mod stat;

use ctx::Ctx;
use rng::Rng;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

struct Args {
    pid: String,
    tier: String,
    seed: u64,
    dir: String,
    only: Option<u64>,
    count: Option<u64>,
    threads: usize,
    stats: bool,
}

fn parse() -> Args {
    let mut a = Args { pid: String::new(), tier: "quick".into(), seed: 1, dir: "/verif".into(), only: None, count: None, threads: 8, stats: false };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().unwrap_or_else(|| die("missing argument value"));
        match x.as_str() {
            "--tier" => a.tier = val(),
            "--seed" => a.seed = val().parse().unwrap_or_else(|_| die("bad seed")),
            "--dir" => a.dir = val(),
            "--only" => a.only = Some(val().parse().unwrap_or_else(|_| die("bad index"))),
            "--count" => a.count = Some(val().parse().unwrap_or_else(|_| die("bad count"))),
            "--threads" => a.threads = val().parse().unwrap_or_else(|_| die("bad threads")),
            "--stats" => a.stats = true,
            _ => a.pid = x,
        }
    }
    a
}
fn die(m: &str) -> ! {
    println!("ERROR: {m}");
    std::process::exit(2)
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(1469598103934665603u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211))
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_case(p: &props::Prop, ctx: &mut Ctx, seed: u64, idx: u64) {
    ctx.idx = idx;
    ctx.dump.clear();
    ctx.nontrivial = false;
    let mut r = Rng::of(&[hash_str(p.id), seed, idx]);
    let before = run::CALLS.with(|c| *c.borrow());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(ctx, &mut r)));
    if res.is_err() {
        let m = run::last_panic();
        if ctx.harness_errors.len() < 10 {
            ctx.harness_errors.push(format!("case {idx}: {m}"));
        }
    }
    ctx.calls += run::CALLS.with(|c| *c.borrow()) - before;
    if ctx.nontrivial {
        ctx.count("nontrivial-cases");
    }
}

/// A library call did not come back: no result is ever reported, which breaks every property that
/// speaks about results.
fn hang(a: &Args, idx: u64, secs: u64) -> ! {
    let path = format!("{}/replays/{}-hang-{}-{idx}.txt", a.dir, a.pid, a.seed);
    let _ = std::fs::create_dir_all(format!("{}/replays", a.dir));
    let _ = std::fs::write(&path, format!("property={} oracle=hang seed={} case={idx}\nno result after {secs} s\nreplay: cd /verif && ./check.sh {} --seed {} --only {idx}\n", a.pid, a.seed, a.pid, a.seed));
    println!("  [hang] case {idx}: the library has not returned after {secs} s");
    println!("VIOLATION property={} replay={path}", a.pid);
    std::process::exit(1)
}

fn main() {
    let a = parse();
    run::install_panic_hook();
    let props = props::all();
    let Some(p) = props.iter().find(|p| p.id == a.pid) else { die(&format!("unknown property {}", a.pid)) };
    let thorough = a.tier == "thorough";
    let total = a.count.unwrap_or(if thorough { p.thorough } else { p.quick });
    let t0 = Instant::now();
    let (lo, hi) = match a.only {
        Some(i) => (i, i + 1),
        None => (0, total),
    };
    let next = AtomicU64::new(lo);
    let limit_s = if thorough { 780.0 } else { 240.0 };
    let truncated = AtomicBool::new(false);
    let all = Mutex::new(Ctx::default());
    let hang_s: u64 = std::env::var("GLM_HANG").ok().and_then(|v| v.parse().ok()).unwrap_or(150);
    let nthreads = a.threads.min((hi - lo) as usize).max(1);
    // the case every worker is on, and when it started it (ms)
    let on: Vec<(AtomicU64, AtomicU64)> = (0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
    let (on, next, truncated, all, aref) = (&on, &next, &truncated, &all, &a);
    let finished = AtomicU64::new(0);
    let finished = &finished;
    std::thread::scope(|s| {
        s.spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if finished.load(Ordering::SeqCst) == nthreads as u64 {
                break;
            }
            let now = t0.elapsed().as_millis() as u64;
            for (idx, since) in on {
                let st = since.load(Ordering::SeqCst);
                if st != u64::MAX && now.saturating_sub(st) > hang_s * 1000 {
                    hang(aref, idx.load(Ordering::SeqCst), hang_s);
                }
            }
        });
        for w in 0..nthreads {
            s.spawn(move || {
                let mut ctx = Ctx { seed: aref.seed, thorough, verbose: aref.only.is_some(), ..Ctx::default() };
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= hi {
                        break;
                    }
                    if t0.elapsed().as_secs_f64() > limit_s {
                        truncated.store(true, Ordering::Relaxed);
                        break;
                    }
                    on[w].0.store(i, Ordering::SeqCst);
                    on[w].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                    run_case(p, &mut ctx, aref.seed, i);
                    on[w].1.store(u64::MAX, Ordering::SeqCst);
                }
                finished.fetch_add(1, Ordering::SeqCst);
                all.lock().unwrap().merge(ctx);
            });
        }
    });
    let mut c = std::mem::take(&mut *all.lock().unwrap());
    c.violations.sort_by_key(|v| v.idx);
    let wall = t0.elapsed().as_secs_f64();
    let evals: u64 = c.evals.values().sum();
    let done = if truncated.load(Ordering::Relaxed) { next.load(Ordering::Relaxed).min(hi) } else { hi } - lo;

    if a.stats || a.only.is_some() {
        for (k, v) in &c.evals {
            let m = c.margins.get(k);
            println!("  oracle {k:32} evals {v:9}  {}", m.map(|(r, i)| format!("max margin {r:.3e} (case {i})")).unwrap_or_default());
        }
        for (k, v) in &c.skips {
            println!("  skip   {k:32} {v}");
        }
        for (k, v) in &c.counts {
            println!("  count  {k:32} {v}");
        }
        if std::env::var("GLM_ALL").is_ok() {
            for v in &c.violations {
                println!("  ! {} {}: {}", v.oracle, v.idx, v.detail);
            }
        }
        println!("  configs {} distinct {} calls {} evals {evals} wall {wall:.1}s", c.configs.len(), c.distinct.len(), c.calls);
    }
    for (_, k) in &c.known {
        println!("KNOWN-FINDING: property={} {k}", p.id);
    }
    // evidence
    let map = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(",");
    let samples: Vec<String> = c.samples.iter().map(|s| esc(s)).collect();
    let margins = c.margins.iter().map(|(k, (r, i))| format!("{}:{{\"max_error_over_allowance\":{:.4e},\"case\":{i}}}", esc(k), if r.is_finite() { *r } else { 1e300 })).collect::<Vec<_>>().join(",");
    let json = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"wall_s\":{wall:.3},\"violations\":{},\"coverage\":{{\"evaluations\":{done},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"oracle_evaluations\":{{{}}},\"oracle_evaluations_total\":{evals},\"library_calls\":{},\"margins\":{{{margins}}},\"configurations_judged\":{},\"skipped\":{{{}}},\"counters\":{{{}}},\"truncated_by_watchdog\":{}}},\"assumptions\":[\"oracle tolerances are a constant times machine epsilon times the measured magnitude of the summed terms and the condition number of the information matrix\",\"cases too ill-conditioned for a verdict are counted under skipped\"]}}",
        esc(p.id), esc(if thorough { "thorough" } else { "quick" }), a.seed, c.violations.len(), c.distinct.len(), esc(p.rule), samples.join(","), map(&c.evals), c.calls, c.configs.len(), map(&c.skips), map(&c.counts), truncated.load(Ordering::Relaxed)
    );
    if a.only.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", a.dir));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", a.dir, p.id), json) {
            die(&format!("cannot write evidence: {e}"));
        }
    }
    println!("{} {} seed={} cases={done} judged={} oracle-evaluations={evals} library-calls={} wall={wall:.1}s", p.id, a.tier, a.seed, c.distinct.len(), c.calls);
    if !c.violations.is_empty() {
        let mut seen = std::collections::BTreeSet::new();
        for v in &c.violations {
            if !seen.insert(v.oracle.clone()) {
                continue;
            }
            let path = format!("{}/replays/{}-{}-{}-{}.txt", a.dir, p.id, v.oracle.replace(|c: char| !c.is_alphanumeric(), "_"), a.seed, v.idx);
            let _ = std::fs::create_dir_all(format!("{}/replays", a.dir));
            let _ = std::fs::write(
                &path,
                format!(
                    "property={} oracle={} seed={} case={}\n{}\nreplay: cd /verif && ./check.sh {} --seed {} --only {}\n\n{}",
                    p.id, v.oracle, a.seed, v.idx, v.detail, p.id, a.seed, v.idx, v.dump
                ),
            );
            println!("  [{}] case {}: {}", v.oracle, v.idx, v.detail);
            println!("VIOLATION property={} replay={path}", p.id);
        }
        std::process::exit(1);
    }
    if !c.harness_errors.is_empty() {
        for e in &c.harness_errors {
            println!("HARNESS-ERROR {e}");
        }
        std::process::exit(2);
    }
    if a.only.is_none() && a.count.is_none() {
        for o in p.need {
            if c.evals.get(*o).copied().unwrap_or(0) == 0 {
                println!("INCONCLUSIVE: oracle {o} was never evaluated");
                std::process::exit(2);
            }
        }
    }
    std::process::exit(0);
}
