//! C21-C23: malformed input, degenerate problems, purity.
use super::infer::{same_bits, unimodal};
use super::Prop;
use crate::case::*;
use crate::ctx::Ctx;
use crate::family::*;
use crate::linalg::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::run::*;
use crate::stat::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C21", quick: 20000, thorough: 600000, run: c21, rule: "valid problems with one or several malformed ingredients; non-trivial: the outcome of build and fit was compared with the required kind of error", need: &["invalid-y", "length", "init-length", "duplicate", "several", "boundary", "no-panic", "control"] },
        Prop { id: "C22", quick: 6000, thorough: 200000, run: c22, rule: "degenerate or extreme finite data sets of every family; every statistic is queried; non-trivial: the outcome was judged", need: &["no-panic", "finite", "collinear", "constant-ridge", "well-posed"] },
        Prop { id: "C23", quick: 2000, thorough: 60000, run: c23, rule: "one model fitted and queried repeatedly, in different orders and from several threads; non-trivial: two or more complete sets of statistics were compared bit by bit", need: &["refit", "fresh", "order", "threads", "repeat", "options", "data", "inputs"] },
    ]
}

fn show<T>(r: &Result<T, Fail>) -> String {
    r.as_ref().err().map(|e| e.to_string()).unwrap_or("Ok".into())
}
fn r32(c: &Case, v: f64) -> f64 {
    if c.f32 { v as f32 as f64 } else { v }
}

// ---------------------------------------------------------------- malformed input

/// A response outside of the family's domain, if its type can express one.
fn bad_y(r: &mut Rng, c: &mut Case) -> Option<f64> {
    let inf = f64::INFINITY;
    Some(match c.fam.base() {
        Base::Lin => {
            if c.yt == Yt::F32 || c.f32 && r.p(0.3) {
                *r.pick(&[f64::NAN, inf, -inf, 1e300, -1e39])
            } else {
                *r.pick(&[f64::NAN, inf, -inf])
            }
        }
        Base::Bern => {
            if c.yt == Yt::Bool {
                c.yt = Yt::F64;
            }
            let e = if c.yt == Yt::F32 { f32::EPSILON as f64 } else { f64::EPSILON };
            *r.pick(&[f64::NAN, inf, -inf, -1.0, 2.0, 1.0 + e, -1e-30, 1.5, -0.5, 1e30])
        }
        Base::Pois => return None,
        Base::Bin(n) => *r.pick(&[n as f64 + 1.0, n as f64 + 1.0, n as f64 * 2.0, 65535.0]),
        _ => {
            if c.f32 && c.yt != Yt::F32 && r.p(0.3) {
                // not representable in the model's precision
                *r.pick(&[1e300, 1e-300])
            } else {
                *r.pick(&[0.0, -0.0, -1.0, -1e-30, f64::NAN, inf, -inf, -3.5])
            }
        }
    })
}

fn bad_len(r: &mut Rng, n: usize) -> usize {
    *r.pick(&[n + 1, n.saturating_sub(1), 0, 2 * n, n + 7, 1])
}
fn resize(v: &[f64], m: usize, fill: f64) -> Vec<f64> {
    (0..m).map(|i| *v.get(i).unwrap_or(&fill)).collect()
}

fn c21(ctx: &mut Ctx, r: &mut Rng) {
    let mut fams = Fam::KINDS.to_vec();
    fams.extend(Fam::KINDS);
    fams.extend(Fam::USER);
    let pf = Prof { fams, f32: 0.25, nmax: 12, pmax: 3, big: 0.0, ..Prof::default() };
    let c0 = gen(r, &pf);
    let mut c = c0.clone();
    let n = c.n();
    let what = r.int(0, 99);
    // the error kinds that would be right; empty: only panics are wrong
    let mut want: Vec<&'static str> = vec![];
    let mut at_fit = false;
    let mut oracle = "no-panic";
    let mut several = false;
    let k = c.k();
    if what < 25 {
        let Some(v) = bad_y(r, &mut c) else { return ctx.skip("no-invalid-response") };
        let q = r.int(0, n - 1);
        let i = *r.pick(&[0, n - 1, q]);
        c.y[i] = v;
        if r.p(0.2) {
            // even where the row doesn't count
            let mut f = c.fw.clone().unwrap_or(vec![1; n]);
            f[i] = 0;
            c.fw = Some(f);
        }
        want.push("InvalidY");
        oracle = "invalid-y";
    } else if what < 50 {
        let m = bad_len(r, n);
        if m == n {
            return ctx.skip("same-length");
        }
        match r.int(0, 4) {
            0 => {
                let mut x = Mat::zeros(m, c.p());
                for i in 0..m {
                    for j in 0..c.p() {
                        x[(i, j)] = if i < n { c.x[(i, j)] } else { r32(&c, r.normal()) };
                    }
                }
                c.x = x;
            }
            1 => {
                let y0 = c.y[0];
                c.y = resize(&c.y, m, y0)
            }
            2 => c.off = Some(resize(&c.off_v(), m, 0.0)),
            3 => c.vw = Some(resize(&c.vw_v(), m, 1.0)),
            _ => c.fw = Some((0..m).map(|i| c.fw.as_ref().and_then(|f| f.get(i).copied()).unwrap_or(1)).collect()),
        }
        want.push("BadInput");
        oracle = "length";
    } else if what < 60 {
        let m = *r.pick(&[k + 1, k.saturating_sub(1), 0, k + 5, n + 3]);
        if m == k {
            return ctx.skip("same-length");
        }
        c.opts.init = Some((0..m).map(|_| r32(&c, 0.1 * r.normal())).collect());
        if r.p(0.3) {
            c.opts.l1 = 0.5;
        }
        want.push("BadInput");
        at_fit = true;
        oracle = "init-length";
    } else if what < 70 {
        c.dup = r.int(1, 3) as u8;
        match c.dup {
            1 => c.off = Some(c.off_v()),
            2 => c.vw = Some(c.vw_v()),
            _ => c.fw = Some(c.fw.clone().unwrap_or(vec![1; n])),
        }
        want.push("BuildError");
        oracle = "duplicate";
    } else if what < 78 {
        // several at once
        several = true;
        oracle = "several";
        if r.p(0.6) {
            if let Some(v) = bad_y(r, &mut c) {
                let i = r.int(0, n - 1);
                c.y[i] = v;
                want.push("InvalidY");
            }
        }
        if r.p(0.6) {
            c.off = Some(vec![0.0; n + 1]);
            want.push("BadInput");
        }
        if r.p(0.5) {
            c.vw = Some(vec![1.0; n.saturating_sub(1)]);
            want.push("BadInput");
        }
        if r.p(0.4) || want.is_empty() {
            c.dup = r.int(1, 3) as u8;
            match c.dup {
                1 if c.off.is_none() => c.off = Some(vec![0.0; n]),
                2 if c.vw.is_none() => c.vw = Some(vec![1.0; n]),
                3 if c.fw.is_none() => c.fw = Some(vec![1; n]),
                _ => {}
            }
            want.push("BuildError");
        }
    } else if what < 86 {
        // valid values at the boundary of the domain are accepted
        for i in 0..n {
            if r.p(0.5) {
                c.y[i] = match c.fam.base() {
                    Base::Lin => *r.pick(&[0.0, -0.0, 1e-30, -1e30, 1e30]),
                    Base::Bern => *r.pick(&[0.0, 1.0, 1.0, 0.0, 0.5]),
                    Base::Pois => *r.pick(&[0.0, 0.0, 1.0, 4e9]),
                    Base::Bin(m) => *r.pick(&[0.0, m as f64]),
                    _ => *r.pick(&[1e-30, 1e30, 1.0]),
                };
                if c.fam.base() == Base::Pois && c.y[i] > 1e9 && c.fam != Fam::Pois {
                    c.y[i] = 0.0;
                }
            }
        }
        c.yt = y_type(r, c.fam, &c.y, c.f32);
        ctx.dump = c.dump();
        let m = build(&c);
        if !ctx.ok("boundary", m.is_ok(), || format!("{} y={:?}: build gives {}", c.brief(), c.y, show(&m))) {
            return;
        }
        let m = m.unwrap();
        let s = m.data();
        for i in 0..n {
            if !ctx.ok("boundary", s.y[i] == r32(&c, c.y[i]), || format!("{} response {} stored as {}", c.brief(), c.y[i], s.y[i])) {
                return;
            }
        }
        let f = m.fit(&c.opts);
        ctx.ok("no-panic", !matches!(&f, Err(e) if e.is_panic()), || format!("{} fit: {}", c.brief(), show(&f)));
        ctx.config(&c);
        return;
    } else {
        // malformed, but nothing in particular is promised except for the absence of panics
        let inf = f64::INFINITY;
        match r.int(0, 8) {
            0 if c.p() > 0 => {
                let (i, j) = (r.int(0, n - 1), r.int(0, c.p() - 1));
                c.x[(i, j)] = *r.pick(&[f64::NAN, inf, -inf]);
            }
            1 => {
                let i = r.int(0, n - 1);
                let mut o = c.off_v();
                o[i] = *r.pick(&[f64::NAN, inf, -inf]);
                c.off = Some(o);
            }
            2 => {
                let i = r.int(0, n - 1);
                let mut o = c.vw_v();
                o[i] = *r.pick(&[f64::NAN, inf, -1.0, 0.0, -inf]);
                c.vw = Some(o);
            }
            3 => c.fw = Some(vec![0; n]),
            4 => c.vw = Some(vec![*r.pick(&[0.0, -1.0, f64::NAN]); n]),
            5 => {
                let v = *r.pick(&[f64::NAN, inf, -1.0, -1e10]);
                if r.p(0.5) { c.opts.l2 = v } else { c.opts.l1 = v }
            }
            6 => c.opts.tol = Some(*r.pick(&[f64::NAN, inf, -1.0, 0.0])),
            7 => {
                c.opts.init = Some((0..k).map(|_| *r.pick(&[f64::NAN, inf, -inf, 0.0, 1e30])).collect());
            }
            _ => {
                // no observations at all
                c = c.sub_rows(&[]);
                if r.p(0.5) {
                    c.x = Mat::zeros(0, 0);
                }
            }
        }
        c.opts.by_struct = true;
    }
    ctx.dump = c.dump();
    if ctx.verbose {
        println!("{}", ctx.dump);
    }
    ctx.config(&c);
    let m = match build(&c) {
        Ok(m) => m,
        Err(e) => {
            if e.is_panic() {
                return ctx.fail(if oracle == "no-panic" { oracle } else { "no-panic" }, format!("{} [{oracle}] build: {e}", c.brief()));
            }
            ctx.ok(oracle, want.is_empty() || !at_fit && want.contains(&e.kind()), || format!("{} build gives {e}, expected one of {want:?}", c.brief()));
            return;
        }
    };
    if !want.is_empty() && !at_fit {
        return ctx.fail(oracle, format!("{} malformed input was accepted (expected {want:?})", c.brief()));
    }
    let f = m.fit(&c.opts);
    match &f {
        Err(e) if e.is_panic() => return ctx.fail("no-panic", format!("{} [{oracle}] fit: {e}", c.brief())),
        Err(e) => {
            ctx.ok(oracle, want.is_empty() || want.contains(&e.kind()), || format!("{} fit gives {e}, expected {want:?}", c.brief()));
        }
        Ok(_) => {
            ctx.ok(oracle, want.is_empty(), || format!("{} fit accepted malformed input (expected {want:?})", c.brief()));
        }
    }
    // the same problem without the flaw is accepted
    if at_fit && !several && c.fam.dom() == 0 {
        let mut o = c.opts.clone();
        o.init = None;
        let g = m.fit(&o);
        ctx.ok("control", !matches!(&g, Err(e) if e.is_panic() || e.kind() == "BadInput"), || format!("{} control fit: {}", c.brief(), show(&g)));
    }
    let _ = c0;
}

// ---------------------------------------------------------------- degenerate problems

/// Query everything; every value must come back without a panic.
fn query_all(ctx: &mut Ctx, r: &mut Rng, c: &Case, f: &dyn FitDyn) {
    let mut list: Vec<St> = St::ALL.iter().copied().filter(|s| s.applies(c.fam)).collect();
    if c.n() <= 40 {
        list.push(St::LooExact);
    }
    for i in (1..list.len()).rev() {
        let j = r.int(0, i);
        list.swap(i, j);
    }
    for st in list {
        // statrs evaluates the gamma distribution very slowly at enormous shapes
        if st == St::ResidQuant && matches!(c.fam.base(), Base::Gam) {
            let wmax = c.vw_v().iter().fold(1.0f64, |a, b| a.max(*b));
            // nor does it accept products of the rate and the response beyond the double range
            let far = c.y.iter().any(|y| !(1e-25..1e25).contains(y));
            if far || !matches!(f.get(St::Disp), Ok(Val::S(d)) if d / wmax > 1e-10) {
                ctx.count("skip-gamma-quantile");
                continue;
            }
        }
        if ctx.verbose {
            println!("{st:?}");
        }
        let v = f.get(st);
        if !ctx.ok("no-panic", !matches!(&v, Err(e) if e.is_panic()), || format!("{} {st:?}: {}", c.brief(), show(&v))) {
            return;
        }
    }
    let b = f.beta();
    for s in [1.0, 0.0, 1.5] {
        let p: Vec<f64> = b.iter().map(|v| r32(c, v * s)).collect();
        let e = [show(&f.fisher(&p)), show(&f.score(&p)), show(&f.lr_against(&p)), show(&f.wald_against(&p)), show(&f.score_against(&p)), show(&f.predict(&c.x, c.off.as_deref(), c.xlay))];
        if !ctx.ok("no-panic", !e.iter().any(|e| e.starts_with("PANIC")), || format!("{} at alternatives: {e:?}", c.brief())) {
            return;
        }
    }
}

/// Some response of the family without regard to any model.
fn any_y(r: &mut Rng, fam: Fam, mode: usize, big: f64) -> f64 {
    match fam.base() {
        Base::Lin if fam == Fam::LinExp => 1.0 + r.f() * big.min(1e3),
        Base::Lin => match mode {
            0 => 2.0,
            1 => 0.0,
            _ => r.normal() * big,
        },
        Base::Bern => match mode {
            0 => 1.0,
            1 => 0.0,
            2 => r.f(),
            _ => r.p(0.5) as u8 as f64,
        },
        Base::Pois => match mode {
            0 => 3.0,
            1 => 0.0,
            _ => r.int(0, big.clamp(4.0, 250.0) as usize) as f64,
        },
        Base::Bin(n) => match mode {
            0 => n as f64,
            1 => 0.0,
            _ => r.int(0, n as usize) as f64,
        },
        _ => match mode {
            0 => 1.0,
            1 => big,
            _ => big * (r.expo() + 1e-3),
        },
    }
}

fn c22(ctx: &mut Ctx, r: &mut Rng) {
    match r.int(0, 9) {
        0..=4 => wild(ctx, r),
        5 | 6 => collinear(ctx, r),
        7 => constant(ctx, r),
        _ => well(ctx, r),
    }
}

fn wild(ctx: &mut Ctx, r: &mut Rng) {
    let mut fams = Fam::KINDS.to_vec();
    fams.extend(Fam::KINDS);
    fams.extend(Fam::USER);
    let f0 = *r.pick(&fams);
    let fam = resolve(r, f0);
    let f32 = has_f32(fam) && r.p(0.2);
    let p = *r.pick(&[0, 0, 1, 1, 2, 3, 5, 8]);
    let n = *r.pick(&[1, 1, 2, 3, p.max(1), p + 1, p + 2, 12, 30]);
    let intercept = r.p(0.7);
    // magnitude of columns and responses
    let mag = |r: &mut Rng| if f32 { *r.pick(&[1.0, 1.0, 1e-6, 1e6, 1e-15, 1e15]) } else { *r.pick(&[1.0, 1.0, 1.0, 1e-10, 1e10, 1e-80, 1e80, 1e-150, 1e150]) };
    let ym = if r.p(0.7) { 1.0 } else if f32 { *r.pick(&[1e-6, 1e6, 1e12]) } else { *r.pick(&[1e-8, 1e8, 1e-100, 1e100]) };
    let ymode = r.int(0, 5);
    let mut x = Mat::zeros(n, p);
    let extreme = r.p(0.35);
    for j in 0..p {
        let m = if extreme { mag(r) } else { 1.0 };
        let kind = r.int(0, 6);
        for i in 0..n {
            x[(i, j)] = match kind {
                0 => m,
                1 => 0.0,
                2 if j > 0 => x[(i, j - 1)],
                3 => (i == 0) as u8 as f64 * m,
                4 => m * (i >= n / 2) as u8 as f64,
                _ => m * r.normal(),
            };
        }
    }
    let mut y: Vec<f64> = (0..n).map(|_| any_y(r, fam, ymode, ym)).collect();
    if p > 0 && r.p(0.2) && fam.base() == Base::Bern {
        // separable
        (0..n).for_each(|i| y[i] = (x[(i, 0)] > 0.0) as u8 as f64);
    }
    let o = |v: f64| if f32 { v as f32 as f64 } else { v };
    x.a.iter_mut().for_each(|v| *v = o(*v));
    y.iter_mut().for_each(|v| *v = o(*v));
    let off = r.p(0.25).then(|| { let m = *r.pick(&[1.0, 10.0, 1e3]); (0..n).map(|_| o(m * r.normal())).collect() });
    let vw = r.p(0.25).then(|| { let m = if f32 { *r.pick(&[1.0, 1e-6, 1e6]) } else { *r.pick(&[1.0, 1e-100, 1e100, 1e-6]) }; (0..n).map(|_| o(m * (0.1 + r.f()))).collect() });
    let fw = r.p(0.25).then(|| { let z = r.p(0.2); (0..n).map(|_| if z { 0 } else { *r.pick(&[0, 1, 1, 2, 1000000]) }).collect() });
    let mut opts = Opts { by_struct: r.p(0.5), ..Opts::default() };
    if r.p(0.35) {
        opts.l2 = o(*r.pick(&[1e-8, 1e-3, 1.0, 1e6, 1e20]));
    }
    if r.p(0.15) {
        opts.l1 = o(*r.pick(&[1e-3, 1.0, 1e6]));
        // ADMM may need all of its iterations
        opts.max_iter = Some(40);
    }
    if r.p(0.1) {
        opts.max_iter = Some(r.int(0, 3));
    }
    let yt = y_type(r, fam, &y, f32);
    let c = Case { fam, f32, x, y, off, vw, fw, intercept, std: r.p(0.6), opts, xlay: *r.pick(&LAYOUTS), ylay: *r.pick(&LAYOUTS), yt, order: r.int(0, 1) as u8, dup: 0 };
    ctx.dump = c.dump();
    if ctx.verbose {
        println!("{}", ctx.dump);
    }
    ctx.config(&c);
    let m = match build(&c) {
        Ok(m) => m,
        Err(e) => {
            ctx.ok("no-panic", !e.is_panic(), || format!("{} build: {e}", c.brief()));
            ctx.skip(&format!("build-{}", e.kind()));
            return;
        }
    };
    let f = m.fit(&c.opts);
    let f = match f {
        Ok(f) => f,
        Err(e) => {
            ctx.ok("no-panic", !e.is_panic(), || format!("{} fit: {e}", c.brief()));
            ctx.count(&format!("fit-{}", e.kind()));
            return;
        }
    };
    finite(ctx, &c, &*f);
    query_all(ctx, r, &c, &*f);
}

/// A successful fit has finite coefficients, likelihood and fitted means.
fn finite(ctx: &mut Ctx, c: &Case, f: &dyn FitDyn) -> bool {
    let b = f.beta();
    let l = f.like();
    let mut good = ctx.ok("finite", b.iter().all(|v| v.is_finite()) && l.is_finite(), || format!("{} coefficients {b:?} likelihood {l}", c.brief()));
    if let Ok(Val::V(e)) = f.get(St::ResidResp) {
        let fw = c.fw_v();
        for i in 0..c.n() {
            if fw[i] > 0.0 && good {
                good &= ctx.ok("finite", e[i].is_finite(), || format!("{} fitted mean of row {i}: residual {}", c.brief(), e[i]));
            }
        }
    }
    good
}

/// Columns in exact linear relations.
fn collinear(ctx: &mut Ctx, r: &mut Rng) {
    let mut fams = vec![Fam::Lin, Fam::Lin, Fam::Logit, Fam::Pois, Fam::Bin(0), Fam::ExpLog, Fam::GamLog, Fam::Cloglog];
    fams.push(Fam::Lin);
    let pf = Prof { fams, f32: 0.15, pmin: 1, pmax: 4, l2: 0.0, slack: 3, big: 0.0, ..Prof::default() };
    let base = gen(r, &pf);
    let n = base.n();
    let p = base.p();
    let add = r.int(1, 2);
    let mut cols: Vec<Vec<f64>> = (0..p).map(|j| base.x.col(j)).collect();
    for _ in 0..add {
        let a = r.int(0, cols.len() - 1);
        let b = r.int(0, cols.len() - 1);
        let col: Vec<f64> = match r.int(0, 5) {
            0 => cols[a].clone(),
            1 => cols[a].iter().map(|v| -v).collect(),
            2 => cols[a].iter().map(|v| v * 4.0).collect(),
            3 => cols[a].iter().zip(&cols[b]).map(|(u, v)| r32(&base, u + v)).collect(),
            4 if base.intercept => vec![*r.pick(&[1.0, 0.0, 7.5]); n],
            4 => vec![0.0; n],
            _ => cols[a].iter().map(|v| r32(&base, v * 3.0 + if base.intercept { 1.0 } else { 0.0 })).collect(),
        };
        let at = r.int(0, cols.len());
        cols.insert(at, col);
    }
    let mut c = base.clone();
    c.x = Mat::zeros(n, cols.len());
    for j in 0..cols.len() {
        for i in 0..n {
            c.x[(i, j)] = cols[j][i];
        }
    }
    ctx.dump = c.dump();
    ctx.config(&c);
    let (Ok(m0), mm) = (build(&base), build(&c)) else { return ctx.skip("base-build") };
    let m = match mm {
        Ok(m) => m,
        Err(e) => return ctx.fail("collinear", format!("{} build: {e}", c.brief())),
    };
    let f = match m.fit(&c.opts) {
        Ok(f) => f,
        Err(e) => {
            ctx.ok("collinear", matches!(e.kind(), "LinalgError" | "MaxIter"), || format!("{} fit: {e}", c.brief()));
            ctx.count(&format!("collinear-{}", e.kind()));
            return;
        }
    };
    if !finite(ctx, &c, &*f) {
        return;
    }
    ctx.count("collinear-Ok");
    if let Ok(g) = m0.fit(&base.opts) {
        let b = g.beta();
        if b.iter().all(|v| v.is_finite()) {
            if let Some(rf) = Ref::at(&base, &b) {
                if let Ok(t) = Tol::new(&base, &rf, conv(&base, &rf)) {
                    // likelihood at the reported coefficients and as reported
                    let al = t.tol(St::ModelLike)[0] + t.del * t.del;
                    let (l0, l1) = (rf.like(), f.like());
                    let at = Ref::at(&c, &f.beta()).map(|q| (q.like(), KP * q.ll_err)).unwrap_or((f64::NAN, 0.0));
                    let lim = al + at.1 + 1e3 * base.eps() * (base.n() as f64 + l0.abs());
                    ctx.close("collinear", at.0, l0, lim, || format!("{} likelihood at the reported coefficients {:?} vs that of an independent set of columns", c.brief(), f.beta()));
                    ctx.close("collinear", l1, at.0, lim, || format!("{} reported likelihood vs likelihood at the reported coefficients {:?}", c.brief(), f.beta()));
                }
            }
        }
    }
    query_all(ctx, r, &c, &*f);
}

/// Constant columns next to an intercept, with a ridge penalty.
fn constant(ctx: &mut Ctx, r: &mut Rng) {
    let pf = Prof { pmax: 3, l2: 1.0, noint: 0.0, big: 0.0, slack: 4, ..Prof::default() };
    let base = gen(r, &pf);
    let n = base.n();
    let v = r32(&base, *r.pick(&[1.0, 0.0, -3.0, 0.1, 1e3, 1e-3]));
    let at = r.int(0, base.p());
    let mut c = base.clone();
    c.x = Mat::zeros(n, base.p() + 1);
    for i in 0..n {
        for j in 0..=base.p() {
            c.x[(i, j)] = if j == at { v } else { base.x[(i, j - (j > at) as usize)] };
        }
    }
    ctx.dump = c.dump();
    let (Ok(m0), Ok(m)) = (build(&base), build(&c)) else { return ctx.skip("build") };
    let (Ok(g), Ok(f)) = (m0.fit(&base.opts), m.fit(&c.opts)) else { return ctx.skip("fit") };
    let b0 = g.beta();
    if b0.iter().any(|v| !v.is_finite()) {
        return ctx.skip("non-finite");
    }
    let Some(rf) = Ref::at(&base, &b0) else { return ctx.skip("domain") };
    let t = match Tol::new(&base, &rf, conv(&base, &rf)) {
        Ok(t) => t,
        Err(e) => return ctx.skip(e),
    };
    ctx.config(&c);
    let b = f.beta();
    if !unimodal(c.fam) && b0[0] != b[0] {
        // possibly another stationary point
        let mut q = b.clone();
        q.remove(at + 1);
        if let Some(d) = Ref::at(&base, &q).and_then(|q| q.decrement()) {
            if 2.0 * d <= t.del * t.del {
                return ctx.skip("other-optimum");
            }
        }
    }
    // pulling the intercept into the column is limited by its penalty
    let tr = t.tol(St::Result);
    let lim = tr[0] * v.abs().max(1.0) + t.del * (1.0 / base.opts.l2).sqrt() + 1e3 * base.eps() * b0.iter().map(|v| v.abs()).fold(1.0, f64::max);
    ctx.close("constant-ridge", b[at + 1], 0.0, lim, || format!("{} coefficient of the constant column {v}", c.brief()));
    let k = b0.len();
    let extra = if base.std { 1.0 } else { 1.0 + v.abs() };
    for j in 0..k {
        let q = j + (j > at) as usize;
        if !ctx.close("constant-ridge", b[q], b0[j], (2.0 * tr[j] + if j == 0 { lim * v.abs() } else { 0.0 }) * extra, || format!("{} coefficient {q} changes when a constant column is added", c.brief())) {
            return;
        }
    }
}

/// Well-conditioned problems with an interior optimum succeed.
fn well(ctx: &mut Ctx, r: &mut Rng) {
    let pf = Prof { fams: vec![Fam::Lin, Fam::Logit, Fam::Cloglog, Fam::Pois, Fam::Bin(0), Fam::ExpLog, Fam::GamLog, Fam::PoisULog, Fam::Logit2], f32: 0.2, slack: 6, ..Prof::default() };
    let c = gen(r, &pf);
    ctx.dump = c.dump();
    let m = match build(&c) {
        Ok(m) => m,
        Err(e) => return ctx.fail("well-posed", format!("{} build: {e}", c.brief())),
    };
    let f = m.fit(&c.opts);
    match &f {
        Ok(f) => {
            ctx.config(&c);
            ctx.ok("well-posed", true, String::new);
            finite(ctx, &c, &**f);
        }
        Err(e) => {
            // was there an interior optimum?
            let start = match null_of(&c) {
                Some(n) => n.par,
                None => return ctx.skip("no-null"),
            };
            let Some(rf) = improve(&c, &start, 100) else { return ctx.skip("reference-failed") };
            let (mx, dec) = (rf.eta.iter().fold(0.0f64, |a, b| a.max(b.abs())), rf.decrement().unwrap_or(f64::INFINITY));
            let good = dec < 1e-12 * (1.0 + rf.like().abs()) && rf.cond() < if c.f32 { 1e2 } else { 1e5 } && (c.fam == Fam::Lin || mx < 12.0) && unimodal(c.fam);
            if good && contraction(r, &c, &rf) > 0.6 {
                ctx.skip("slow-scoring");
            } else if good {
                ctx.fail("well-posed", format!("{} fit: {e}, although {:?} is an interior optimum (condition number {:.1e})", c.brief(), rf.beta, rf.cond()));
            } else {
                ctx.skip("not-interior");
            }
        }
    }
}

/// The rate at which Fisher scoring contracts towards the optimum. It vanishes for canonical links, but
/// outliers can make it approach 1 for others.
fn contraction(r: &mut Rng, c: &Case, at: &Ref) -> f64 {
    let k = at.beta.len();
    let mut worst = 0.0f64;
    for _ in 0..3 {
        let mut d: Vec<f64> = (0..k).map(|_| r.normal()).collect();
        let norm = |d: &[f64]| dot(d, &at.freg.mulv(d)).sqrt();
        let mut rate = 0.0;
        for _ in 0..12 {
            let h = 1e-4 * (1.0 + at.like().abs()).sqrt() / norm(&d);
            let a: Vec<f64> = at.beta.iter().zip(&d).map(|(b, d)| b + h * d).collect();
            let Some(q) = Ref::at(c, &a) else { return 1.0 };
            let Some((inv, _)) = &q.inv else { return 1.0 };
            let s = inv.mulv(&q.score());
            let e: Vec<f64> = (0..k).map(|j| (a[j] + s[j] - at.beta[j]) / h).collect();
            rate = norm(&e) / norm(&d);
            if !(norm(&e) > 0.0) {
                break;
            }
            d = e;
        }
        worst = worst.max(rate);
    }
    worst
}

// ---------------------------------------------------------------- purity

type Snap = (Vec<(St, Result<Val, String>)>, Vec<(Vec<f64>, f64)>);

fn snapshot(f: &dyn FitDyn, order: &[St]) -> Snap {
    let mut v: Vec<(St, Result<Val, String>)> = order.iter().map(|s| (*s, f.get(*s).map_err(|e| e.kind().to_string()))).collect();
    v.sort_by_key(|e| e.0 as usize);
    (v, f.history())
}
/// the first statistic that differs in any bit
fn differs(a: &Snap, b: &Snap) -> Option<String> {
    for ((s, x), (_, y)) in a.0.iter().zip(&b.0) {
        let same = match (x, y) {
            (Ok(x), Ok(y)) => same_bits(&x.flat(), &y.flat()),
            (Err(x), Err(y)) => x == y,
            _ => false,
        };
        if !same {
            return Some(format!("{s:?}: {x:?} vs {y:?}").chars().take(400).collect());
        }
    }
    if a.1.len() != b.1.len() || a.1.iter().zip(&b.1).any(|(p, q)| !same_bits(&p.0, &q.0) || !same_bits(&[p.1], &[q.1])) {
        return Some("history".into());
    }
    None
}
fn shuffled(r: &mut Rng, l: &[St]) -> Vec<St> {
    let mut l = l.to_vec();
    for i in (1..l.len()).rev() {
        let j = r.int(0, i);
        l.swap(i, j);
    }
    l
}

fn c23(ctx: &mut Ctx, r: &mut Rng) {
    let mut fams = Fam::KINDS.to_vec();
    fams.extend(Fam::KINDS);
    fams.extend(Fam::USER);
    let mut pf = Prof { fams, f32: 0.15, nmax: 25, pmax: 4, big: 0.02, ..Prof::default() };
    if r.p(0.12) {
        pf.l1 = 1.0;
    }
    let mut c = gen(r, &pf);
    if r.p(0.3) {
        c.opts.tol = Some(r32(&c, *r.pick(&[1e-6, 1e-4, 1e-10])));
    }
    if r.p(0.3) {
        c.opts.max_iter = Some(*r.pick(&[50, 200, 129]));
    }
    ctx.dump = c.dump();
    let Ok(m) = build(&c) else { return ctx.skip("build") };
    let d0 = m.data();
    // what was handed over is what is stored
    let ok = d0.y.iter().zip(&c.y).all(|(a, b)| *a == r32(&c, *b))
        && d0.off == c.off
        && d0.w == c.vw
        && d0.f == c.fw.as_ref().map(|f| f.iter().map(|v| *v as f64).collect())
        && (d0.x.r, d0.x.c) == (c.n(), c.k());
    ctx.ok("inputs", ok, || format!("{} the data set differs from the input", c.brief()));
    // earlier fits with other settings leave no trace in the model
    let warm = r.p(0.4);
    if warm {
        for _ in 0..r.int(1, 2) {
            let mut o = c.opts.clone();
            match r.int(0, 4) {
                0 => o.init = Some((0..c.k()).map(|_| r32(&c, 0.05 * r.normal())).collect()),
                1 => o.l2 = r32(&c, r.logu(1e-2, 1e2)),
                2 => o.tol = Some(r32(&c, 1e-3)),
                3 => o.max_iter = Some(1),
                _ => o.l1 = r32(&c, r.logu(1e-2, 10.0)),
            }
            let _ = m.fit(&o).map(|h| (h.get(St::Cov), h.get(St::NullLike), h.get(St::Hat)));
        }
    }
    let f = m.fit(&c.opts);
    if warm {
        let Ok(m2) = build(&c) else { return ctx.fail("fresh", format!("{} building a second model fails", c.brief())) };
        let (same, d) = match (&f, &m2.fit(&c.opts)) {
            (Ok(f), Ok(g)) => (same_bits(&f.beta(), &g.beta()) && same_bits(&[f.like()], &[g.like()]) && f.n_iter() == g.n_iter(), format!("{:?} in {} vs {:?} in {}", f.beta(), f.n_iter(), g.beta(), g.n_iter())),
            (Err(e), Err(g)) => (e.kind() == g.kind(), format!("{e} vs {g}")),
            (f, g) => (false, format!("{:?} vs {:?}", f.as_ref().err(), g.as_ref().err())),
        };
        ctx.ok("fresh", same, || format!("{} after other fits of the model vs a new model: {d}", c.brief()));
    }
    let all: Vec<St> = {
        let mut l: Vec<St> = St::ALL.iter().copied().filter(|s| s.applies(c.fam)).collect();
        if c.n() <= 15 {
            l.push(St::LooExact);
        }
        l
    };
    let f = match f {
        Ok(f) => f,
        Err(e) => {
            // failures repeat as well
            let g = m.fit(&c.opts).err();
            ctx.ok("refit", g.as_ref() == Some(&e) || matches!((&g, &e), (Some(Fail::MaxIter { n_iter: a, hist: p }), Fail::MaxIter { n_iter: b, hist: q }) if a == b && p.len() == q.len()), || format!("{} {e} then {:?}", c.brief(), g.map(|g| g.to_string())));
            return;
        }
    };
    ctx.config(&c);
    // options
    let o = f.options();
    let want = Opts { l1: c.opts.l1, l2: c.opts.l2, tol: Some(c.opts.tol.unwrap_or(c.eps())), max_iter: Some(c.opts.max_iter.unwrap_or(128)), init: c.opts.init.clone(), by_struct: true };
    ctx.ok("options", o == want, || format!("{} options {o:?}, given {want:?}", c.brief()));
    let s0 = snapshot(&*f, &all);
    // the same statistics again
    let again = snapshot(&*f, &shuffled(r, &all));
    ctx.ok("repeat", differs(&s0, &again).is_none(), || format!("{} asking twice: {}", c.brief(), differs(&s0, &again).unwrap()));
    // a fresh fit, asked in another order and mixed with questions about other parameters
    let g = match m.fit(&c.opts) {
        Ok(g) => g,
        Err(e) => return ctx.fail("refit", format!("{} the second fit gives {e}", c.brief())),
    };
    ctx.ok("refit", same_bits(&f.beta(), &g.beta()) && same_bits(&[f.like()], &[g.like()]) && f.n_iter() == g.n_iter(), || format!("{} the second fit differs: {:?} vs {:?}", c.brief(), f.beta(), g.beta()));
    let order = shuffled(r, &all);
    let mut v: Vec<(St, Result<Val, String>)> = vec![];
    for (q, s) in order.iter().enumerate() {
        if q % 3 == 0 {
            let p: Vec<f64> = f.beta().iter().map(|b| r32(&c, b * r.range(0.5, 1.5))).collect();
            match r.int(0, 6) {
                0 => { let _ = g.fisher(&p); }
                1 => { let _ = g.score(&p); }
                2 => { let _ = g.lr_against(&p); }
                3 => { let _ = g.wald_against(&p); }
                4 => { let _ = g.score_against(&p); }
                5 => { let _ = g.predict(&c.x, None, c.xlay); }
                _ => {
                    // and to another fit of the same model
                    let mut o = c.opts.clone();
                    o.l2 = r32(&c, o.l2 * 2.0 + 0.1);
                    let _ = m.fit(&o).map(|h| (h.get(St::Cov), h.get(St::Hat), h.get(St::NullLike)));
                }
            }
        }
        v.push((*s, g.get(*s).map_err(|e| e.kind().to_string())));
    }
    v.sort_by_key(|e| e.0 as usize);
    let s1 = (v, g.history());
    ctx.ok("order", differs(&s0, &s1).is_none(), || format!("{} asked in the order {order:?}: {}", c.brief(), differs(&s0, &s1).unwrap()));
    // threads sharing the model, others with models of their own
    #[cfg(feature = "shared")]
    if r.p(0.4) {
        let other = gen(r, &pf);
        let orders: Vec<Vec<St>> = (0..4).map(|_| shuffled(r, &all)).collect();
        let mref = &*m;
        let copts = &c.opts;
        let res: Vec<Option<Snap>> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .map(|o| {
                    s.spawn(move || mref.fit(copts).ok().map(|h| snapshot(&*h, o)))
                })
                .collect();
            let h2 = s.spawn(|| {
                if let Ok(m2) = build(&other) {
                    for _ in 0..3 {
                        let _ = m2.fit(&other.opts).map(|h| St::ALL.iter().filter(|s| s.applies(other.fam)).map(|s| h.get(*s).is_ok()).count());
                    }
                }
            });
            let out = hs.into_iter().map(|h| h.join().unwrap_or(None)).collect();
            let _ = h2.join();
            out
        });
        for (i, s) in res.iter().enumerate() {
            let d = s.as_ref().map(|s| differs(&s0, s)).unwrap_or(Some("failed".into()));
            if !ctx.ok("threads", d.is_none(), || format!("{} thread {i}: {}", c.brief(), d.unwrap())) {
                break;
            }
        }
        ctx.count("threads-run");
    }
    // an independent build
    if r.p(0.3) {
        if let Ok(h) = build(&c) {
            if let Ok(h) = h.fit(&c.opts) {
                let s2 = snapshot(&*h, &shuffled(r, &all));
                ctx.ok("refit", differs(&s0, &s2).is_none(), || format!("{} rebuilt: {}", c.brief(), differs(&s0, &s2).unwrap()));
            }
        }
    }
    let d1 = m.data();
    let same = same_bits(&d0.y, &d1.y) && same_bits(&d0.x.a, &d1.x.a) && d0.off == d1.off && d0.w == d1.w && d0.f == d1.f && d0.n_obs == d1.n_obs;
    ctx.ok("data", same, || format!("{} the data set changed", c.brief()));
}
