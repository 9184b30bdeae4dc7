//! C02-C04: penalised optima and the iteration record.
use super::c01::optimum;
use super::formula::draw;
use super::Prop;
use crate::case::*;
use crate::ctx::Ctx;
use crate::family::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::run::*;
use crate::stat::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            quick: 9000,
            thorough: 250000,
            run: c02,
            rule: "random ridge problems (over- and under-determined) over every family/link; non-trivial: the fit returned Ok and its penalised optimality was judged",
            need: &["stationary", "model_like", "intercept-balance", "norm-monotone", "lambda-zero", "underdetermined"],
        },
        Prop {
            id: "C03",
            quick: 5000,
            thorough: 130000,
            run: c03,
            rule: "random lasso and elastic-net problems over every family with a concave likelihood, penalties drawn around the critical one; non-trivial: the fit returned Ok and its optimality gap was judged",
            need: &["objective-gap", "model_like", "active-kkt", "inactive-kkt", "inactive-zero", "intercept-kkt", "critical-null", "elastic-limit"],
        },
        Prop {
            id: "C04",
            quick: 7000,
            thorough: 200000,
            run: c04,
            rule: "random fits with and without penalties, initial guesses, tolerances and iteration limits; non-trivial: the iteration history of a fit was judged",
            need: &["length", "entry-likelihood", "result-is-best", "strictly-increasing", "not-below-start", "maxiter-error", "maxiter-prefix", "maxiter-enough", "restart"],
        },
    ]
}

pub fn f32r(c: &Case, v: f64) -> f64 {
    if c.f32 { v as f32 as f64 } else { v }
}

pub fn show(ctx: &Ctx, f: &dyn FitDyn) {
    if ctx.verbose {
        for (i, (b, l)) in f.history().iter().enumerate() {
            println!("  hist[{i}] like={l:.12e} {b:?}");
        }
        println!("  result like={:.12e} {:?}", f.like(), f.beta());
    }
}

/// Sum of squared coefficients on the penalised scale.
fn pen_norm(c: &Case, b: &[f64]) -> f64 {
    b.iter().zip(c.pen_scale()).map(|(b, s)| (b * s).powi(2)).sum()
}

fn c02(ctx: &mut Ctx, r: &mut Rng) {
    let mut fams = Fam::KINDS.to_vec();
    fams.extend(Fam::KINDS);
    fams.extend(Fam::USER);
    let mut pf = Prof { fams, l2: 1.0, ..Prof::default() };
    if r.p(0.2) {
        pf.slack = 1;
        pf.nmax = 12;
    }
    let mut c = gen(r, &pf);
    if r.p(0.3) {
        c.opts.l2 = f32r(&c, if c.f32 { r.logu(1e-3, 1e3) } else { r.logu(1e-8, 1e7) });
    }
    let under = c.p() >= 2 && r.p(0.15);
    if under {
        // fewer observations than coefficients
        let m = r.int(1, c.k().saturating_sub(1).max(1));
        c = c.sub_rows(&(0..m).collect::<Vec<_>>());
        c.fw = None;
        c.opts.l2 = f32r(&c, r.logu(1e-2, 1e2));
    }
    if r.p(0.15) {
        c.opts.tol = Some(r.logu(if c.f32 { 1e-6 } else { 1e-12 }, 1e-4));
    }
    ctx.dump = c.dump();
    let Ok(m) = build(&c) else { return ctx.skip("build") };
    let f = match m.fit(&c.opts) {
        Ok(f) => f,
        Err(e) => return ctx.skip(&format!("{}-{}", e.kind(), c.fam.name())),
    };
    ctx.config(&c);
    show(ctx, &*f);
    let b = f.beta();
    optimum(ctx, r, &c, &b, f.like());
    let Some(rf) = Ref::at(&c, &b) else { return };
    if !rf.like().is_finite() || rf.cond() * rf.rt > 1e-3 {
        return;
    }
    if under {
        ctx.ok("underdetermined", b.iter().all(|v| v.is_finite()), || format!("{} underdetermined ridge fit {b:?}", c.brief()));
    }
    let allow = 100.0 * rf.ll_err + 4.0 * c.tol() * c.n() as f64;
    let boundary = c.fam.user() && (rf.eta.iter().any(|e| e.abs() > 40.0) || c.fam == Fam::PoisSqrt);
    if c.intercept && !boundary {
        // the intercept is not penalised: the weighted residuals are balanced
        let g0: f64 = (0..rf.n).filter(|i| rf.tw[*i] > 0.0).map(|i| rf.tw[i] * (rf.y[i] - rf.pts[i].mu) * rf.pts[i].ep).sum();
        let f00 = rf.fdata[(0, 0)];
        let t = (2.0 * allow * f00).sqrt() + KP * rf.score_err()[0];
        let concave_enough = c.fam.concave() || allow < 1e-6;
        if concave_enough && rf.rt < 1e-8 {
            ctx.below("intercept-balance", g0.abs(), t, || format!("{} weighted residuals sum to", c.brief()));
        }
    }
    if !c.fam.concave() || boundary {
        return;
    }
    // a larger penalty never increases the norm
    let lam = c.opts.l2;
    let mut d = c.clone();
    d.opts.l2 = f32r(&c, lam * r.logu(1.1, 30.0));
    if r.p(0.5) {
        let Ok(g) = m.fit(&d.opts) else { return };
        let bb = g.beta();
        let Some(rg) = Ref::at(&d, &bb) else { return };
        let alb = 100.0 * rg.ll_err + 4.0 * d.tol() * d.n() as f64;
        let (pa, pb) = (pen_norm(&c, &b), pen_norm(&d, &bb));
        ctx.below("norm-monotone", pb - pa, 2.0 * (allow + alb) / (d.opts.l2 - lam) + 1e-12 * pa, || format!("{} norm {pb:.6e} at lambda {:.3e} vs {pa:.6e} at {lam:.3e}: increase", c.brief(), d.opts.l2));
    }
    // towards no penalty at all
    if r.p(0.4) {
        let mut z = c.clone();
        z.opts.l2 = 0.0;
        let Ok(h) = m.fit(&z.opts) else { return };
        let b0 = h.beta();
        let Some(r0) = Ref::at(&z, &b0) else { return };
        if r0.cond() * r0.rt > 1e-3 || !r0.like().is_finite() {
            return;
        }
        let mut s = c.clone();
        s.opts.l2 = f32r(&c, if c.f32 { r.logu(1e-4, 1e-1) } else { r.logu(1e-10, 1e-2) });
        let Ok(g) = m.fit(&s.opts) else { return };
        let Some(rg) = Ref::at(&z, &g.beta()) else { return };
        let al = 100.0 * (rg.ll_err + r0.ll_err) + 8.0 * c.tol() * c.n() as f64;
        ctx.below("lambda-zero", r0.like() - rg.like(), 0.5 * s.opts.l2 * pen_norm(&c, &b0) * (1.0 + 1e-6) + al, || format!("{} unpenalised likelihood lost at lambda {:.3e}", c.brief(), s.opts.l2));
        ctx.below("lambda-zero", rg.like() - r0.like(), al, || format!("{} ridge fit beats the unpenalised one by", c.brief()));
    }
}

/// Maximise the L1/L2-penalised likelihood from `start` by proximal Newton steps with coordinate
/// descent in centred and scaled coordinates.
pub fn prox_newton(c: &Case, start: &[f64], iters: usize) -> Option<Ref> {
    let mut cur = Ref::at(c, start)?;
    let (ms, sd) = c.col_stats();
    let off = c.intercept as usize;
    let k = cur.k;
    let scale: Vec<f64> = (0..k).map(|j| if j < off { 1.0 } else { sd[j - off] }).collect();
    // penalty scale in these coordinates
    let ps: Vec<f64> = (0..k).map(|j| cur.sg[j] / scale[j]).collect();
    for _ in 0..iters {
        // gradient and information in the scaled coordinates
        let g0 = cur.score_data();
        let mut row = vec![1.0; k];
        let mut h = crate::linalg::Mat::zeros(k, k);
        for i in 0..cur.n {
            if cur.tw[i] == 0.0 {
                continue;
            }
            for j in off..k {
                let m = if c.intercept { ms[j - off] } else { 0.0 };
                row[j] = (cur.xd[(i, j)] - m) / scale[j];
            }
            let w = cur.tw[i] * cur.pts[i].wt;
            for a in 0..k {
                for b in 0..k {
                    h[(a, b)] += w * row[a] * row[b];
                }
            }
        }
        let g: Vec<f64> = (0..k).map(|j| if j < off { g0[0] } else { (g0[j] - if c.intercept { ms[j - off] * g0[0] } else { 0.0 }) / scale[j] }).collect();
        let mut gam: Vec<f64> = (0..k).map(|j| cur.beta[j] * scale[j]).collect();
        if c.intercept {
            gam[0] = cur.beta[0] + (off..k).map(|j| ms[j - off] * cur.beta[j]).sum::<f64>();
        }
        let start = gam.clone();
        // minimise -g.d + d'Hd/2 + pen(start + d)
        let mut hd = vec![0.0; k];
        for _ in 0..3000 {
            let mut moved: f64 = 0.0;
            for j in 0..k {
                let hjj = h[(j, j)];
                let l2 = c.opts.l2 * ps[j] * ps[j];
                let l1 = c.opts.l1 * ps[j];
                if !(hjj + l2 > 0.0) {
                    continue;
                }
                // gradient at the current point without the penalty
                let u = g[j] - hd[j] + hjj * gam[j];
                let new = if u > l1 { (u - l1) / (hjj + l2) } else if u < -l1 { (u + l1) / (hjj + l2) } else { 0.0 };
                let d = new - gam[j];
                if d != 0.0 {
                    for a in 0..k {
                        hd[a] += h[(a, j)] * d;
                    }
                    gam[j] = new;
                    moved = moved.max(d * d * (hjj + l2));
                }
            }
            if moved < 1e-26 * (1.0 + cur.ll.abs()) {
                break;
            }
        }
        let ext = |gm: &[f64]| -> Vec<f64> {
            let mut b: Vec<f64> = (0..k).map(|j| gm[j] / scale[j]).collect();
            if c.intercept {
                b[0] = gm[0] - (off..k).map(|j| ms[j - off] * b[j]).sum::<f64>();
            }
            b
        };
        let mut step = 1.0;
        let mut moved = false;
        for _ in 0..40 {
            let gm: Vec<f64> = start.iter().zip(&gam).map(|(s, g)| s + step * (g - s)).collect();
            if let Some(nx) = Ref::at(c, &ext(&gm)) {
                if nx.like() > cur.like() {
                    cur = nx;
                    moved = true;
                    break;
                }
            }
            step *= 0.5;
        }
        if !moved {
            break;
        }
    }
    Some(cur)
}

/// Objective shortfall tolerated for an ADMM solution.
pub fn l1_allow(c: &Case, rf: &Ref) -> f64 {
    let k = rf.k as f64;
    // primal residuals are stopped at |r|^2 < sqrt(k) tol
    let res = (k.sqrt() * c.tol()).sqrt();
    100.0 * rf.ll_err + 4.0 * c.tol() * c.n() as f64 + 4.0 * k * res * (c.opts.l1 + res * (1.0 + rf.freg[(0, 0)].abs().min(1e6)))
}

/// Critical L1 penalty: the largest scaled score at the null model.
fn critical(c: &Case) -> Option<(f64, Null)> {
    let nl = null_of(c)?;
    let full = nl.full.as_ref()?;
    let g = full.score_data();
    let l = (0..full.k).filter(|j| full.sg[*j] > 0.0).map(|j| g[j].abs() / full.sg[j]).fold(0.0, f64::max);
    Some((l, nl))
}

fn c03(ctx: &mut Ctx, r: &mut Rng) {
    let fams: Vec<Fam> = Fam::KINDS.iter().cloned().filter(|f| f.concave()).chain([Fam::Cloglog, Fam::ExpLog, Fam::GamLog, Fam::Logit2]).collect();
    let pf = Prof { fams, l2: 0.4, l1: 1.0, pmin: 1, f32: 0.04, ..Prof::default() };
    let mut c = gen(r, &pf);
    // Cloglog, ExpLog and GamLog have concave likelihoods although their links are not canonical
    let crit = critical(&c);
    if let Some((l, _)) = &crit {
        if *l > 0.0 && l.is_finite() && r.p(0.8) {
            c.opts.l1 = f32r(&c, l * *r.pick(&[0.003, 0.03, 0.1, 0.3, 0.6, 0.9, 1.02, 1.3, 3.0]));
        }
    }
    c.opts.max_iter = Some(if r.p(0.8) { 5000 } else { 128 });
    if r.p(0.3) {
        c.opts.tol = Some(r.logu(if c.f32 { 1e-6 } else { 1e-12 }, 1e-5));
    }
    ctx.dump = c.dump();
    let Ok(m) = build(&c) else { return ctx.skip("build") };
    let f = match m.fit(&c.opts) {
        Ok(f) => f,
        Err(e) => return ctx.skip(&format!("{}-{}", e.kind(), c.fam.name())),
    };
    show(ctx, &*f);
    let b = f.beta();
    let Some(rf) = Ref::at(&c, &b) else {
        if !super::c01::near_boundary(&c, &b) {
            ctx.fail("domain", format!("{}: fitted predictor outside the domain of the link", c.brief()));
        }
        return;
    };
    ctx.config(&c);
    ctx.close("model_like", f.like(), rf.like(), 50.0 * rf.ll_err, || format!("{} model_like", c.brief()));
    if rf.cond() * rf.rt > 1e-3 {
        return ctx.skip("ill-conditioned");
    }
    let mut best = prox_newton(&c, &b, 8);
    if let Some((_, nl)) = &crit {
        if r.p(0.3) {
            if let (Some(o), Some(bb)) = (prox_newton(&c, &nl.par, 40), best.as_ref()) {
                if o.like() > bb.like() {
                    best = Some(o);
                }
            }
        }
    }
    let Some(best) = best else { return };
    let allow = l1_allow(&c, &rf);
    let gap = best.like() - rf.like();
    if !ctx.below("objective-gap", gap, allow, || format!("{} penalised objective short of the optimum (iters {})", c.brief(), f.n_iter())) {
        return;
    }
    // optimality conditions per coefficient, on the penalised scale
    let (ms, sd) = c.col_stats();
    let off = c.intercept as usize;
    let g = rf.score_data();
    let gs = best.score_data();
    let se = rf.score_err();
    let last = f.history().last().is_some_and(|(v, _)| *v == b);
    let res = ((rf.k as f64).sqrt() * c.tol()).sqrt();
    for j in 0..rf.k {
        let s = rf.sg[j];
        if s == 0.0 {
            let h = rf.fdata[(0, 0)];
            ctx.below("intercept-kkt", g[0].abs(), (2.0 * h * allow).sqrt() + KP * se[0], || format!("{} unbalanced intercept score", c.brief()));
            continue;
        }
        let m = if c.intercept { ms[j - off] } else { 0.0 };
        // curvature along the centred column
        let xj = |i: usize| (rf.xd[(i, j)] - m) / s;
        let h: f64 = (0..rf.n).filter(|i| rf.tw[*i] > 0.0).map(|i| rf.tw[i] * rf.pts[i].wt * xj(i) * xj(i)).sum::<f64>() + c.opts.l2;
        let sc = (g[j] - m * g[0] * off as f64) / s;
        let scs = (gs[j] - m * gs[0] * off as f64) / s;
        let t = (2.0 * h * allow).sqrt() + KP * (se[j] + m.abs() * se[0]) / s;
        let gam = rf.beta[j] * s;
        let star = best.beta[j] * s;
        if star.abs() * h.sqrt() > 10.0 * (2.0 * allow).sqrt() && gam.signum() == star.signum() {
            let want = c.opts.l1 * gam.signum() + c.opts.l2 * gam;
            let off_by = (sc - want).abs();
            if last && star.abs() > 1e3 * res {
                // the iteration ended here, with primal and dual residuals within the tolerance
                let t = 10.0 * (2.0 * h * rf.ll_err).sqrt() + 10.0 * res * (1.0 + h) + KP * (se[j] + m.abs() * se[0]) / s;
                ctx.below("final-kkt", off_by, t, || format!("{} coefficient {j} = {gam:.4e} after the last of {} iterations: score {sc:.6e} vs {want:.6e}, off by", c.brief(), f.n_iter()));
            }
            ctx.below("active-kkt", off_by, t, || format!("{} coefficient {j} = {gam:.4e}: score {sc:.6e} vs {want:.6e}, off by", c.brief()));
        } else if star == 0.0 {
            ctx.below("inactive-kkt", sc.abs() - c.opts.l1, t, || format!("{} inactive coefficient {j}: score {sc:.6e} beyond {:.6e} by", c.brief(), c.opts.l1));
            let slack = c.opts.l1 - scs.abs();
            if slack > 0.02 * c.opts.l1 {
                ctx.below("inactive-zero", gam.abs(), allow / slack, || format!("{} inactive coefficient {j} (score {scs:.4e})", c.brief()));
            }
        }
    }
    let _ = sd;
    // above the critical penalty
    if let Some((l, nl)) = &crit {
        if c.opts.l1 > 1.01 * l && (c.intercept || c.fam.dom() == 0) && nl.full.is_some() {
            let gm = (0..rf.k).filter(|j| rf.sg[*j] > 0.0).map(|j| (rf.beta[j] * rf.sg[j]).abs()).fold(0.0, f64::max);
            ctx.below("critical-null", gm, allow / (c.opts.l1 - l) + 1e-15, || format!("{} coefficient above the critical penalty {l:.4e}", c.brief()));
            ctx.below("critical-null", (rf.ll - nl.like).abs(), allow + nl.like_err + gm * l * rf.k as f64, || format!("{} likelihood {:.10e} vs null {:.10e}: differs by", c.brief(), rf.ll, nl.like));
        }
    }
    // one penalty tending to zero
    if r.p(0.25) {
        let mut d = c.clone();
        let mut e = c.clone();
        let tiny = if c.f32 { 1e-5 } else { r.logu(1e-9, 1e-5) };
        let to_ridge = r.p(0.5);
        if to_ridge {
            let l2 = if c.opts.l2 > 0.0 { c.opts.l2 } else { f32r(&c, r.logu(0.01, 10.0)) };
            d.opts.l2 = l2;
            e.opts.l2 = l2;
            d.opts.l1 = 0.0;
            e.opts.l1 = f32r(&c, tiny);
        } else {
            d.opts.l2 = 0.0;
            e.opts.l2 = f32r(&c, tiny);
        }
        let (Ok(fd), Ok(fe)) = (m.fit(&d.opts), m.fit(&e.opts)) else { return ctx.skip("limit-fit") };
        let (Some(rd), Some(re)) = (Ref::at(&d, &fd.beta()), Ref::at(&d, &fe.beta())) else { return };
        if rd.cond() * rd.rt > 1e-3 {
            return;
        }
        let sg = c.pen_scale();
        let bd = fd.beta();
        let extra = if to_ridge { e.opts.l1 * bd.iter().zip(&sg).map(|(b, s)| (b * s).abs()).sum::<f64>() } else { 0.5 * e.opts.l2 * pen_norm(&c, &bd) };
        let al = l1_allow(&d, &rd) + l1_allow(&e, &re);
        ctx.below("elastic-limit", (rd.like() - re.like()).abs(), extra * (1.0 + 1e-6) + al, || format!("{} limit of the elastic net (to_ridge={to_ridge}): objectives {:.10e} vs {:.10e} differ by", d.brief(), rd.like(), re.like()));
    }
}

fn same(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= tol * (x.abs() + y.abs()))
}

/// Likelihood of every entry is the penalised likelihood of its coefficients.
fn entries(ctx: &mut Ctx, c: &Case, hist: &[(Vec<f64>, f64)]) -> bool {
    let mut good = true;
    for (i, (b, l)) in hist.iter().enumerate() {
        if b.len() != c.k() {
            ctx.fail("entry-likelihood", format!("{} entry {i} has {} coefficients", c.brief(), b.len()));
            return false;
        }
        if b.iter().any(|v| !v.is_finite()) {
            ctx.skip("entry-non-finite");
            continue;
        }
        let Some(rf) = Ref::at(c, b) else {
            ctx.skip("entry-domain");
            continue;
        };
        if !rf.like().is_finite() || !rf.ll_err.is_finite() || rf.rt > 1e-3 || (c.f32 && rf.ll_mag > 1e30) || extreme(c, &rf) {
            ctx.skip("entry-extreme");
            continue;
        }
        good &= ctx.close("entry-likelihood", *l, rf.like(), 50.0 * rf.ll_err, || format!("{} likelihood of entry {i} of {}", c.brief(), hist.len()));
        if !good {
            break;
        }
    }
    good
}

/// Saturated rows whose likelihood is only defined by the library's clamping of probabilities.
fn extreme(c: &Case, rf: &Ref) -> bool {
    let lim: f64 = if c.f32 { 15.0 } else { 34.0 };
    match c.fam {
        Fam::Cloglog | Fam::Cauchit => (0..rf.n).any(|i| rf.tw[i] > 0.0 && (rf.eta[i] > if c.fam == Fam::Cloglog { lim.ln() } else { 1e6 } || rf.eta[i] < -lim)),
        // subnormal natural parameters
        Fam::ExpLog | Fam::GamLog => (0..rf.n).any(|i| rf.tw[i] > 0.0 && rf.eta[i].abs() > if c.f32 { 80.0 } else { 700.0 }),
        _ => false,
    }
}

fn c04(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = draw(r);
    if r.p(0.3) {
        c.opts.l1 = f32r(&c, r.logu(1e-2, 20.0));
    }
    if r.p(0.3) {
        c.opts.tol = Some(r.logu(if c.f32 { 1e-6 } else { 1e-12 }, 1e-2));
    } else if r.p(0.04) {
        c.opts.tol = Some(0.0);
    }
    if c.opts.l1 > 0.0 {
        c.opts.max_iter = Some(r.int(200, 3000));
    }
    if r.p(0.4) {
        // an initial guess, in the domain of the link
        let start = null_of(&c).map(|n| n.par).unwrap_or_else(|| vec![0.0; c.k()]);
        let base = improve(&c, &start, 3).map(|o| (o.se1(), o.beta));
        if let Some((se, b)) = base {
            let se = se.unwrap_or_else(|| vec![0.1; c.k()]);
            let h = *r.pick(&[0.0, 0.01, 0.3, 1.0, 5.0, 20.0]);
            for _ in 0..5 {
                let g: Vec<f64> = b.iter().zip(&se).map(|(b, s)| f32r(&c, b + h * s * r.normal())).collect();
                if Ref::at(&c, &g).is_some_and(|o| o.like().is_finite()) {
                    c.opts.init = Some(g);
                    break;
                }
            }
        }
    }
    if c.opts.init.is_none() && r.p(0.03) {
        // no parameters at all
        c.x = crate::linalg::Mat::zeros(c.n(), 0);
        c.intercept = false;
        if c.fam.dom() != 0 {
            c.off = Some(vec![f32r(&c, 0.7) * c.fam.dom() as f64; c.n()]);
        }
    }
    ctx.dump = c.dump();
    let Ok(m) = build(&c) else { return ctx.skip("build") };
    let lim = c.opts.max_iter.unwrap_or(128);
    let f = match m.fit(&c.opts) {
        Ok(f) => f,
        Err(Fail::MaxIter { n_iter, hist }) => {
            ctx.config(&c);
            ctx.ok("maxiter-error", n_iter == lim && (hist.len() == lim || hist.len() == lim + 1), || format!("{} error after {n_iter} iterations with {} entries, limit {lim}", c.brief(), hist.len()));
            entries(ctx, &c, &hist);
            return;
        }
        Err(e) => return ctx.skip(&format!("{}-{}", e.kind(), c.fam.name())),
    };
    ctx.config(&c);
    let h = f.history();
    let (b, like, n) = (f.beta(), f.like(), f.n_iter());
    ctx.ok("length", h.len() == n && n <= lim, || format!("{} {} entries, {n} iterations, limit {lim}", c.brief(), h.len()));
    if !entries(ctx, &c, &h) {
        return;
    }
    let e4 = 8.0 * c.eps();
    if h.is_empty() {
        entries(ctx, &c, &[(b.clone(), like)]);
    } else {
        let mx = h.iter().map(|e| e.1).fold(f64::NEG_INFINITY, f64::max);
        ctx.ok("result-is-best", like == mx, || format!("{} model_like {like:.17e}, best entry {mx:.17e}", c.brief()));
        ctx.ok("result-is-best", h.iter().any(|e| e.1 == mx && same(&e.0, &b, e4)), || format!("{} result {b:?} is not the best entry", c.brief()));
    }
    let l1 = c.opts.l1 > 0.0;
    if !l1 {
        for i in 1..h.len() {
            if !ctx.ok("strictly-increasing", h[i].1 > h[i - 1].1, || format!("{} likelihood {:.17e} of entry {i} after {:.17e}", c.brief(), h[i].1, h[i - 1].1)) {
                return;
            }
        }
    }
    if let Some(g) = &c.opts.init {
        let Some(ri) = Ref::at(&c, g) else { return };
        if extreme(&c, &ri) || ri.rt > 1e-3 {
            return ctx.skip("start-extreme");
        }
        if !l1 || h.is_empty() {
            let first = h.first().map(|e| e.1).unwrap_or(like);
            ctx.below("not-below-start", ri.like() - first, 50.0 * ri.ll_err, || format!("{} first likelihood {first:.15e} below that of the start {:.15e} by", c.brief(), ri.like()));
            ctx.below("not-below-start", ri.like() - like, 50.0 * ri.ll_err, || format!("{} result below the start by", c.brief()));
        }
        if h.is_empty() {
            let (ms, _) = c.col_stats();
            let t = |j: usize| 100.0 * c.eps() * (g[j].abs() + if j == 0 && c.intercept { (0..c.p()).map(|l| (ms[l] * g[l + 1]).abs()).sum::<f64>() } else { 0.0 });
            ctx.vclose("start-is-result", &b, g, t, &format!("{} result without iterations", c.brief()));
        }
    }
    // iteration limits
    if n > 0 || c.k() == 0 {
        let ms: Vec<usize> = if n == 0 { vec![0, 1] } else { vec![r.int(0, n - 1), n, n + r.int(0, 5)] };
        for mi in ms {
            let mut o = c.opts.clone();
            o.max_iter = Some(mi);
            match m.fit(&o) {
                Ok(g) => {
                    if ctx.ok("maxiter-enough", mi >= n, || format!("{} {n} iterations are needed but {mi} were enough", c.brief())) {
                        ctx.ok("maxiter-enough", same(&g.beta(), &b, 1e-7) && g.n_iter() == n && g.history().len() == n, || format!("{} limit {mi}: {:?} after {} iterations, {b:?} after {n} without the limit", c.brief(), g.beta(), g.n_iter()));
                    }
                }
                Err(Fail::MaxIter { n_iter, hist }) => {
                    ctx.ok("maxiter-error", mi < n && n_iter == mi && (hist.len() == mi || hist.len() == mi + 1), || format!("{} limit {mi} (needs {n}): error after {n_iter} iterations with {} entries", c.brief(), hist.len()));
                    if let Some(i) = (0..hist.len().min(n)).find(|i| !same(&hist[*i].0, &h[*i].0, 1e-7) || !same(&[hist[*i].1], &[h[*i].1], 1e-7)) {
                        ctx.fail("maxiter-prefix", format!("{} limit {mi}: entry {i} is {:?} but {:?} without the limit", c.brief(), hist[i], h[i]));
                    } else {
                        ctx.ok("maxiter-prefix", hist.len() <= n, || format!("{} limit {mi}: {} entries", c.brief(), hist.len()));
                    }
                }
                Err(e) => ctx.fail("maxiter-error", format!("{} limit {mi} (needs {n}): {e}", c.brief())),
            }
        }
    }
    // restarting at the optimum
    if !l1 && c.k() > 0 && r.p(0.5) {
        let Some(rf) = Ref::at(&c, &b) else { return };
        if rf.cond() * rf.rt > 1e-3 || extreme(&c, &rf) {
            return;
        }
        let mut o = c.opts.clone();
        o.init = Some(b.clone());
        match m.fit(&o) {
            Ok(g) => {
                ctx.below("restart", like - g.like(), 50.0 * rf.ll_err, || format!("{} likelihood lost on restarting at the optimum", c.brief()));
            }
            Err(e) => ctx.fail("restart", format!("{} restarting at the optimum: {e}", c.brief())),
        }
    }
}
