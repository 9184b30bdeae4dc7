//! C10, C17-C20: predictions, exact leave-one-out, nested-model tests, p-values and quantile
//! residuals, each against independent evaluation or actual refits.
use super::formula::*;
use super::optim::l1_allow;
use super::Prop;
use crate::case::*;
use crate::ctx::Ctx;
use crate::family::*;
use crate::linalg::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::run::*;
use crate::special::*;
use crate::stat::*;

pub fn props() -> Vec<Prop> {
    let rule = "random data sets over every family/link, weights, offsets, penalties and flags; non-trivial: the fit returned Ok and the statistics were compared with their definitions or with actual refits";
    vec![
        Prop { id: "C10", quick: 10000, thorough: 300000, run: c10, rule, need: &["predict", "predict-train", "range", "row-wise"] },
        Prop { id: "C17", quick: 4000, thorough: 120000, run: c17, rule, need: &["loo", "loo-l1", "loo-undisturbed", "loo-shape"] },
        Prop { id: "C18", quick: 8000, thorough: 240000, run: c18, rule, need: &["null_like", "lr_test", "score_test", "wald_test", "lr_test_against", "wald_test_against", "score_test_against", "nested", "lr-nonnegative", "linear-agree", "self"] },
        Prop { id: "C19", quick: 5000, thorough: 150000, run: c19, rule, need: &["pvalue_lr_test", "pvalue_wald", "pvalue_exact", "linear-agree", "range"] },
        Prop { id: "C20", quick: 10000, thorough: 300000, run: c20, rule, need: &["resid_quantile", "monotone", "sign", "linear"] },
    ]
}

fn tolr<'a>(ctx: &mut Ctx, c: &'a Case, rf: &'a Ref) -> Option<Tol<'a>> {
    match Tol::new(c, rf, 0.0) {
        Ok(t) => {
            ctx.config(c);
            Some(t)
        }
        Err(e) => {
            ctx.skip(e);
            None
        }
    }
}

fn r32(c: &Case, v: f64) -> f64 {
    if c.f32 { v as f32 as f64 } else { v }
}

/// The likelihood has a single maximum.
pub fn unimodal(f: Fam) -> bool {
    f.concave() || matches!(f, Fam::Cloglog | Fam::ExpLog | Fam::GamLog | Fam::PoisSqrt)
}

// ---------------------------------------------------------------- predictions

fn c10(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = draw(r);
    if r.p(0.1) {
        c.opts.l1 = r32(&c, r.logu(1e-2, 5.0));
    }
    with_fit(ctx, &c, |ctx, _, f, rf| {
        ctx.config(&c);
        let (eps, p, k) = (rf.eps, c.p(), c.k());
        let s0 = c.intercept as usize;
        let mc = *r.pick(&[0usize, 1, 1, 2, 3, 7, 20]);
        let wide = *r.pick(&[0.0, 0.0, 1.0, 10.0, 1e3]);
        let mut x = Mat::zeros(mc, p);
        for i in 0..mc {
            // near a training row, or far off
            let q = r.int(0, c.n() - 1);
            for j in 0..p {
                let v = if r.p(0.1) { 0.0 } else { c.x[(q, j)] * (1.0 + wide * r.normal()) };
                x[(i, j)] = r32(&c, v);
            }
        }
        let off: Option<Vec<f64>> = match r.int(0, 3) {
            0 => None,
            1 => Some(vec![0.0; mc]),
            _ => Some((0..mc).map(|_| r32(&c, r.normal() * *r.pick(&[0.1, 1.0, 20.0]))).collect()),
        };
        ctx.dump = format!("{}predict offset={off:?}\n{}", c.dump(), (0..mc).map(|i| format!("predict x[{i}]={:?}\n", x.row(i))).collect::<String>());
        let lay = *r.pick(&LAYOUTS);
        let got = match f.predict(&x, off.as_deref(), lay) {
            Ok(g) => g,
            Err(e) => return ctx.fail("predict", format!("{} predict: {e}", c.brief())),
        };
        if !ctx.ok("predict-length", got.len() == mc, || format!("{} predict: {} values for {mc} rows", c.brief(), got.len())) {
            return;
        }
        // value and allowance at a row
        let at = |xr: &[f64], o: f64| -> Option<(f64, f64)> {
            let mut eta = o;
            let mut amp = o.abs();
            for j in 0..k {
                let t = rf.beta[j] * if c.intercept && j == 0 { 1.0 } else { xr[j - s0] };
                eta += t;
                amp += t.abs();
            }
            let d = 4.0 * eps * (1.0 + k as f64) * amp;
            if !c.fam.in_dom(eta - d) || !c.fam.in_dom(eta + d) || !eta.is_finite() {
                return None;
            }
            let mu = mean(c.fam, eta);
            let (a, b) = (mean(c.fam, eta - d), mean(c.fam, eta + d));
            let tiny = if c.f32 { 1e-37 } else { 1e-300 };
            Some((mu, (a - mu).abs() + (b - mu).abs() + 32.0 * eps * mu.abs() + 8.0 * eps * if link_at_one(c.fam) { cap(c.fam) * mu.min(1.0) } else { 0.0 } + tiny))
        };
        let big = if c.f32 { 1e37 } else { 1e300 };
        for i in 0..mc {
            let o = off.as_ref().map(|o| o[i]).unwrap_or(0.0);
            let Some((w, t)) = at(x.row(i), o) else {
                ctx.skip("predict-outside-domain");
                continue;
            };
            let g = got[i];
            let lo_ok = g >= 0.0 || c.fam.link() == Lk::Id;
            ctx.ok("range", lo_ok && g <= cap(c.fam) && !g.is_nan(), || format!("{} predict[{i}] = {g} (want {w})", c.brief()));
            if w.abs() > big || !t.is_finite() {
                ctx.skip("predict-overflow");
                continue;
            }
            if !ctx.close("predict", g, w, t, || format!("{} predict[{i}] layout {lay:?}", c.brief())) {
                break;
            }
        }
        // row by row, in another layout
        if mc > 1 {
            let i = r.int(0, mc - 1);
            let xi = x.rows(&[i]);
            let o = off.as_ref().map(|o| vec![o[i]]);
            let lay2 = *r.pick(&LAYOUTS);
            match f.predict(&xi, o.as_deref(), lay2) {
                Ok(g) if g.len() == 1 => {
                    if let Some((w, t)) = at(xi.row(0), o.as_ref().map(|o| o[0]).unwrap_or(0.0)) {
                        if w.abs() < big && t.is_finite() {
                            ctx.close("row-wise", g[0], got[i], 2.0 * t, || format!("{} predict of row {i} alone, layout {lay2:?}", c.brief()));
                        }
                    }
                }
                Ok(g) => ctx.fail("row-wise", format!("{} {} values for one row", c.brief(), g.len())),
                Err(e) => ctx.fail("row-wise", format!("{} predict: {e}", c.brief())),
            }
        }
        // training data
        let (Ok(g), Ok(Val::V(e))) = (f.predict(&c.x, c.off.as_deref(), lay), f.get(St::ResidResp)) else {
            return ctx.fail("predict-train", format!("{} predict of the training data failed", c.brief()));
        };
        if !ctx.ok("predict-length", g.len() == c.n() && e.len() == c.n(), || format!("{} {} {}", c.brief(), g.len(), e.len())) {
            return;
        }
        for i in 0..c.n() {
            if !c.fam.in_dom(rf.eta[i]) || !rf.pts[i].mu.is_finite() {
                continue;
            }
            let d = 16.0 * eps * (1.0 + k as f64) * rf.amp[i];
            if !c.fam.in_dom(rf.eta[i] - d) || !c.fam.in_dom(rf.eta[i] + d) {
                continue;
            }
            let mu = rf.pts[i].mu;
            let t = (mean(c.fam, rf.eta[i] - d) - mu).abs() + (mean(c.fam, rf.eta[i] + d) - mu).abs() + 64.0 * eps * (mu.abs() + c.y[i].abs()) + if c.f32 { 1e-36 } else { 1e-300 };
            if t.is_finite() && !ctx.close("predict-train", c.y[i] - g[i], e[i], t, || format!("{} y - predict vs response residual {i}", c.brief())) {
                break;
            }
        }
    });
}

pub fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a == b || a.is_nan() && b.is_nan())
}

fn link_at_one(f: Fam) -> bool {
    matches!(f.base(), Base::Bern | Base::Bin(_))
}
/// largest mean of the family
fn cap(f: Fam) -> f64 {
    match f.base() {
        Base::Bern => 1.0,
        Base::Bin(n) => n as f64,
        _ => f64::INFINITY,
    }
}

// ---------------------------------------------------------------- leave one out

fn c17(ctx: &mut Ctx, r: &mut Rng) {
    let mut fams = Fam::KINDS.to_vec();
    fams.extend([Fam::Logit2, Fam::PoisSqrt, Fam::PoisULog, Fam::GamInv, Fam::Lin]);
    let mut pf = Prof { fams, pmax: 4, nmax: 18, big: 0.0, slack: 3, f32: 0.05, ..Prof::default() };
    let l1 = r.p(0.12);
    if l1 {
        pf.l1 = 1.0;
    }
    let mut c = gen(r, &pf);
    if l1 && !unimodal(c.fam) {
        c.opts.l1 = 0.0;
    }
    if r.p(0.1) {
        // a column that is constant except for one row
        if c.p() > 0 && c.intercept {
            let (j, i) = (r.int(0, c.p() - 1), r.int(0, c.n() - 1));
            let v = c.x[(0, j)];
            (0..c.n()).for_each(|l| if l != i { c.x[(l, j)] = v });
        }
    }
    with_fit(ctx, &c, |ctx, m, f, rf| {
        let before = f.beta();
        let cov0 = f.get(St::Cov);
        let loo = f.get(St::LooExact);
        ctx.ok("loo-undisturbed", f.beta() == before && m.data().y.iter().zip(&c.y).all(|(a, b)| *a == r32(&c, *b)), || format!("{} loo_exact changed the fit", c.brief()));
        if let (Ok(a), Ok(b)) = (&cov0, f.get(St::Cov)) {
            ctx.ok("loo-undisturbed", same_bits(&a.flat(), &b.flat()), || format!("{} loo_exact changed the covariance", c.brief()));
        }
        let n = c.n();
        let lm = match &loo {
            Ok(v) => Some(v.m().clone()),
            Err(e) if e.is_panic() => return ctx.fail("loo", format!("{} loo_exact: {e}", c.brief())),
            Err(_) => None,
        };
        if let Some(l) = &lm {
            if !ctx.ok("loo-shape", l.r == n && l.c == c.k(), || format!("{} loo_exact is {}x{}", c.brief(), l.r, l.c)) {
                return;
            }
        }
        ctx.config(&c);
        let mut all_well = Tol::new(&c, rf, 0.0).is_ok_and(|t| t.r2 < 1e-4 && (0..n).all(|i| t.he[i] < 0.1 && t.h[i] < 0.99));
        for i in 0..n {
            let idx: Vec<usize> = (0..n).filter(|j| *j != i).collect();
            let d = c.sub_rows(&idx);
            let fresh = match build(&d) {
                Ok(m) => m,
                Err(_) => {
                    all_well = false;
                    continue;
                }
            };
            let g = match fresh.fit(&d.opts) {
                Ok(g) => g,
                Err(_) => {
                    all_well = false;
                    ctx.skip("fresh-fit-failed");
                    continue;
                }
            };
            let b = g.beta();
            // scoring that is slow to converge may exceed the limit from another starting point
            all_well &= g.n_iter() < 40;
            let (Some(rd), true) = (Ref::at(&d, &b), b.iter().all(|v| v.is_finite())) else {
                all_well = false;
                continue;
            };
            let t = match Tol::new(&d, &rd, conv(&d, &rd)) {
                Ok(t) if t.r2 < 1e-3 => t,
                Ok(_) => {
                    all_well = false;
                    ctx.skip("sensitive");
                    continue;
                }
                Err(e) => {
                    all_well = false;
                    ctx.skip(e);
                    continue;
                }
            };
            let Some(l) = &lm else { continue };
            let row = l.row(i);
            let Some(rl) = row.iter().all(|v| v.is_finite()).then(|| Ref::at(&d, row)).flatten() else {
                ctx.fail("loo", format!("{} loo_exact row {i}: {row:?}, a fresh fit gives {b:?}", c.brief()));
                return;
            };
            // compare the objectives first: at most as bad as a fresh fit
            if c.opts.l1 > 0.0 {
                let (a1, a2) = (l1_allow(&d, &rl), l1_allow(&d, &rd));
                let gap = rd.like() - rl.like();
                ctx.below("loo-l1", gap.abs(), a1.max(a2) * 2.0, || format!("{} loo_exact row {i}: penalised likelihood {} vs {} of a fresh fit", c.brief(), rl.like(), rd.like()));
                continue;
            }
            if !unimodal(c.fam) {
                let far = (0..c.k()).any(|j| (row[j] - b[j]).abs() > 2.0 * t.tol(St::Result)[j]);
                if far {
                    // possibly another stationary point; it must at least be one
                    if let (Some(dc), Ok(tl)) = (rl.decrement(), Tol::new(&d, &rl, conv(&d, &rl))) {
                        ctx.below("loo-stationary", 2.0 * dc, tl.del * tl.del, || format!("{} loo_exact row {i} is not a stationary point", c.brief()));
                    }
                    continue;
                }
            }
            let tr = t.tol(St::Result);
            if !ctx.vclose("loo", row, &b, |j| 2.0 * tr[j], &format!("{} loo_exact row {i} vs fresh fit", c.brief())) {
                return;
            }
        }
        if let (None, true) = (&lm, all_well && unimodal(c.fam) && c.fam.dom() == 0 && c.opts.l1 == 0.0) {
            ctx.fail("loo", format!("{} loo_exact: {} although every reduced problem can be fitted", c.brief(), loo.err().unwrap()));
        }
    });
}

// ---------------------------------------------------------------- tests

fn c18(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = draw(r);
    if r.p(0.25) {
        let pf = Prof { fams: vec![Fam::Lin], l2: 0.1, ..Prof::default() };
        c = gen(r, &pf);
    }
    if r.p(0.08) {
        c.opts.l1 = r32(&c, r.logu(1e-2, 5.0));
    }
    let half = c.fam.user() && c.fam.dom() != 0 && c.off.is_some();
    let lr = with_fit(ctx, &c, |ctx, _, f, rf| {
        let t = tolr(ctx, &c, rf)?;
        let (k, eps) = (rf.k, rf.eps);
        if !half {
            check(ctx, "null_like", f, &t, St::NullLike);
            check(ctx, "lr_test", f, &t, St::Lr);
        }
        if c.opts.l1 == 0.0 && k > 0 && !half {
            check(ctx, "score_test", f, &t, St::ScoreTest);
            check(ctx, "wald_test", f, &t, St::WaldTest);
        }
        // at alternatives
        let se = t.se1.clone();
        let h = *r.pick(&[0.0, 0.1, 1.0, 3.0]);
        let mut a: Vec<f64> = rf.beta.iter().zip(&se).map(|(b, s)| r32(&c, b + h * s * r.normal())).collect();
        if r.p(0.15) && c.fam.dom() == 0 {
            (0..k).for_each(|j| a[j] *= r.p(0.5) as u8 as f64);
        }
        match Ref::at(&c, &a) {
            Some(ra) if ra.rt < 1e-3 && ra.like().is_finite() && ra.freg.finite() && !(0..ra.n).any(|i| ra.tw[i] > 0.0 && !ra.srel[i].is_finite() && !link_at_one(c.fam)) => at_alt(ctx, &c, f, rf, &ra, &a),
            _ => ctx.skip("sensitive-alternative"),
        }
        // against itself
        let b = f.beta();
        let del2 = conv(&c, rf).powi(2);
        if let Ok(v) = f.lr_against(&b) {
            ctx.close("self", v, 0.0, 4.0 * KP * rf.ll_err, || format!("{} lr_test_against the fit itself", c.brief()));
        }
        if c.opts.l1 == 0.0 {
            if let Ok(v) = f.wald_against(&b) {
                let rd: f64 = (0..k).map(|j| KP * eps * (b[j].abs() + if c.intercept && j == 0 { (0..c.p()).map(|l| (t.ms[l] * b[l + 1]).abs()).sum::<f64>() } else { 0.0 }) * rf.freg[(j, j)].sqrt()).sum();
                ctx.close("self", v, 0.0, rd * rd + 1e-300, || format!("{} wald_test_against the fit itself", c.brief()));
            }
            match f.score_against(&b) {
                // the score statistic need not vanish where the likelihood flattens out
                Ok(_) if !unimodal(c.fam) => {}
                Ok(v) => {
                    let se = rf.score_err();
                    let ue: f64 = (0..k).map(|j| KP * (se[j] + te_mix(&c, rf, j)) * t.inv[(j, j)].sqrt()).sum::<f64>() * rf.cond().sqrt();
                    let lim = 4.0 * (del2.sqrt() + ue).powi(2);
                    ctx.close("self", v, 0.0, lim, || format!("{} score_test_against the fit itself", c.brief()));
                }
                Err(e) if k > 0 => ctx.fail("self", format!("{} score_test_against: {e}", c.brief())),
                _ => {}
            }
        }
        let v = f.get(St::Lr).ok()?.s();
        let tl = t.null()?;
        let allow = 2.0 * (KP * rf.ll_err + tl.like_err) + 2.0 * del2;
        if c.opts.l1 == 0.0 && c.opts.l2 == 0.0 && !half && unimodal(c.fam) {
            ctx.ok("lr-nonnegative", v >= -allow, || format!("{} lr_test = {v} (allowed {allow:.2e})", c.brief()));
        }
        // the three tests agree for ordinary least squares
        if c.fam == Fam::Lin && c.opts.l1 == 0.0 && c.opts.l2 == 0.0 && k > 0 {
            let (tw, ts) = (t.tol(St::WaldTest)[0], t.tol(St::ScoreTest)[0]);
            let tlr = t.tol(St::Lr)[0];
            // distance of the fit from the exact solution
            let cv = 4.0 * (v.abs().sqrt() * del2.sqrt() + del2);
            if let (Ok(w), Ok(s)) = (f.get(St::WaldTest), f.get(St::ScoreTest)) {
                if tw.is_finite() {
                    ctx.close("linear-agree", w.s(), v, tw + tlr + cv, || format!("{} Wald vs LR statistic", c.brief()));
                }
                if ts.is_finite() {
                    ctx.close("linear-agree", s.s(), v, ts + tlr + cv, || format!("{} score vs LR statistic", c.brief()));
                }
            }
        }
        Some((v, allow))
    })
    .flatten();
    // fewer columns
    if let Some((v, allow)) = lr {
        if c.p() > 0 && unimodal(c.fam) && c.opts.l1 == 0.0 && c.opts.l2 == 0.0 && r.p(0.6) {
            let keep = r.int(0, c.p() - 1);
            let mut d = c.clone();
            d.x = Mat::zeros(c.n(), keep);
            for i in 0..c.n() {
                for j in 0..keep {
                    d.x[(i, j)] = c.x[(i, j)];
                }
            }
            if d.k() == 0 {
                return;
            }
            d.opts.init = None;
            with_fit(ctx, &d, |ctx, _, g, rg| {
                if let Ok(Val::S(w)) = g.get(St::Lr) {
                    let al = allow + 2.0 * KP * rg.ll_err + conv(&d, rg).powi(2);
                    ctx.ok("nested", w <= v + al, || format!("{} lr_test falls from {w} to {v} on adding {} columns (allowed {al:.2e})", c.brief(), c.p() - keep));
                }
            });
        }
    }
}

fn at_alt(ctx: &mut Ctx, c: &Case, f: &dyn FitDyn, rf: &Ref, ra: &Ref, a: &[f64]) {
    let k = ra.k;
    match f.lr_against(a) {
        Ok(v) => {
            let w = 2.0 * (rf.like() - ra.like());
            ctx.close("lr_test_against", v, w, 2.0 * KP * (rf.ll_err + ra.ll_err), || format!("{} lr_test_against", c.brief()));
        }
        Err(e) => ctx.fail("lr_test_against", format!("{} lr_test_against: {e}", c.brief())),
    }
    if c.opts.l1 > 0.0 {
        return;
    }
    let fs = sat_noise(c, ra);
    let fe = |i: usize, j: usize| KP * ra.rt * (ra.freg[(i, i)] * ra.freg[(j, j)]).sqrt() * mix2(c, ra, i, j) + fs[(i, j)];
    match f.wald_against(a) {
        Ok(v) => {
            let d: Vec<f64> = (0..k).map(|j| rf.beta[j] - a[j]).collect();
            let w = dot(&d, &ra.freg.mulv(&d));
            let ms = c.col_stats().0;
            let rd: Vec<f64> = (0..k)
                .map(|j| {
                    let mut m = rf.beta[j].abs() + a[j].abs();
                    if c.intercept && j == 0 {
                        m += (0..c.p()).map(|l| ms[l].abs() * (rf.beta[l + 1].abs() + a[l + 1].abs())).sum::<f64>();
                    }
                    KP * rf.eps * m
                })
                .collect();
            let n: f64 = (0..k).map(|j| rd[j] * ra.freg[(j, j)].sqrt()).sum();
            let mut t = 2.0 * w.max(0.0).sqrt() * n + n * n;
            for i in 0..k {
                for j in 0..k {
                    t += (d[i] * d[j]).abs() * fe(i, j);
                }
            }
            if t < 0.1 * w || (w < 1e-6 && t < 1e-3) {
                ctx.close("wald_test_against", v, w, t + 1e-300, || format!("{} wald_test_against", c.brief()));
            }
        }
        Err(e) => ctx.fail("wald_test_against", format!("{} wald_test_against: {e}", c.brief())),
    }
    let Some((inv, cond)) = ra.inv.as_ref() else { return ctx.skip("singular-alternative") };
    let g = ra.score();
    let stat = dot(&g, &inv.mulv(&g));
    let se = ra.score_err();
    let ue: f64 = (0..k).map(|j| KP * (se[j] + te_mix(c, ra, j)) * inv[(j, j)].max(0.0).sqrt()).sum::<f64>() * cond.sqrt();
    let mut rel = KP * ra.rt * cond + KP * ra.eps * ra.grade;
    for i in 0..k {
        rel += fe(i, i) / ra.freg[(i, i)] * cond;
    }
    if !(rel < 0.05) || k == 0 {
        return ctx.skip("sensitive-alternative");
    }
    match f.score_against(a) {
        Ok(v) => {
            let t = 2.0 * stat.sqrt() * ue + ue * ue + 2.0 * stat * rel;
            ctx.close("score_test_against", v, stat, t + 1e-300, || format!("{} score_test_against", c.brief()));
        }
        Err(e) => ctx.fail("score_test_against", format!("{} score_test_against: {e}", c.brief())),
    }
}

// ---------------------------------------------------------------- p-values

/// Deviance and its uncertainty of the model without column `j` of the full design.
fn reduced_dev(c: &Case, j: usize, easy: &mut bool) -> Result<(f64, f64), &'static str> {
    let mut d = c.clone();
    d.opts.init = None;
    if c.intercept && j == 0 {
        d.intercept = false;
    } else {
        let q = j - c.intercept as usize;
        let keep: Vec<usize> = (0..c.p()).filter(|l| *l != q).collect();
        d.x = Mat::zeros(c.n(), keep.len());
        for i in 0..c.n() {
            for (l, &k) in keep.iter().enumerate() {
                d.x[(i, l)] = c.x[(i, k)];
            }
        }
    }
    let beta = if d.k() == 0 {
        vec![]
    } else {
        let m = build(&d).map_err(|_| "reduced-build")?;
        let f = m.fit(&d.opts).map_err(|_| "reduced-fit")?;
        // scoring that is slow to converge may exceed the limit from another starting point
        *easy &= f.n_iter() < 40;
        f.beta()
    };
    if beta.iter().any(|v| !v.is_finite()) {
        return Err("reduced-fit");
    }
    // polish by the reference
    let rf = improve(&d, &beta, 5).ok_or("reduced-domain")?;
    if d.k() == 0 {
        return Ok((rf.deviance(), KP * rf.dev_err()));
    }
    let t = Tol::new(&d, &rf, conv(&d, &rf))?;
    if t.r2 > 1e-3 {
        return Err("reduced-sensitive");
    }
    Ok((t.dev, t.tdev))
}

fn c19(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = draw(r);
    if r.p(0.25) {
        let pf = Prof { fams: vec![Fam::Lin], l2: 0.1, ..Prof::default() };
        c = gen(r, &pf);
    }
    let half = c.fam.user() && c.fam.dom() != 0 && c.off.is_some();
    with_fit(ctx, &c, |ctx, _, f, rf| {
        let Some(t) = tolr(ctx, &c, rf) else { return };
        let k = rf.k;
        if !half {
            check(ctx, "pvalue_lr_test", f, &t, St::PLr);
        }
        if k > 0 {
            check(ctx, "pvalue_wald", f, &t, St::PWald);
        }
        let unit = |ctx: &mut Ctx, n: &str, v: &[f64]| {
            for (j, p) in v.iter().enumerate() {
                // undefined when the dispersion can't be estimated
                if p.is_nan() && (rf.fam.dispersed() && !(t.phi > 0.0 && t.rphi < 0.1 && rf.ndf() > 0.0) || half || t.null().is_none()) {
                    continue;
                }
                if !ctx.ok("range", *p >= 0.0 && *p <= 1.0, || format!("{} {n}[{j}] = {p}", c.brief())) {
                    break;
                }
            }
        };
        if let Ok(p) = f.get(St::PLr) {
            unit(ctx, "pvalue_lr_test", &p.flat());
        }
        if let Ok(p) = f.get(St::PWald) {
            // z is 0/0 for a column without any information
            let tw = t.tol(St::PWald);
            let v: Vec<f64> = p.flat().iter().enumerate().filter(|(j, p)| !p.is_nan() || tw.get(*j).is_some_and(|t| t.is_finite())).map(|(_, p)| *p).collect();
            unit(ctx, "pvalue_wald", &v);
        }
        if !unimodal(c.fam) {
            return;
        }
        let ex = f.get(St::PExact);
        if let Ok(p) = &ex {
            unit(ctx, "pvalue_exact", &p.flat());
            if !ctx.ok("exact-length", p.flat().len() == k, || format!("{} pvalue_exact has {} entries", c.brief(), p.flat().len())) {
                return;
            }
        }
        if rf.fam.dispersed() && !(t.rphi < 0.1 && t.phi > 0.0 && rf.ndf() > 0.0) {
            return ctx.skip("no-dispersion");
        }
        let del2 = conv(&c, rf).powi(2);
        let mut every = true;
        for j in 0..k {
            if c.intercept && j == 0 && c.opts.l2 > 0.0 && c.std {
                // the scale of the penalty without an intercept isn't specified
                continue;
            }
            let (dr, td) = match reduced_dev(&c, j, &mut every) {
                Ok(v) => v,
                Err(e) => {
                    every = false;
                    ctx.skip(&format!("exact-{e}"));
                    continue;
                }
            };
            let p = match &ex {
                Ok(p) => p.v()[j],
                Err(_) => continue,
            };
            let dfree = rf.fam.dispersed();
            let x = (dr - t.dev) / t.phi;
            let tx = (td + t.tdev + KP * (2.0 * rf.ll_err) + del2) / t.phi + x.abs() * (t.rphi + KP * rf.eps);
            let nd = rf.ndf();
            let sf = |x: f64| if x <= 0.0 { 1.0 } else if dfree { f1_sf(x, nd) } else { chi2_sf(x, 1.0) };
            let w = sf(x);
            ctx.close("pvalue_exact", p, w, spread(x, tx, f64::NEG_INFINITY, &sf) + 1e-9 * w * (1.0 - w.max(1e-300).ln()) + if c.f32 { 2e-6 * w + 1e-44 } else { 0.0 }, || format!("{} pvalue_exact[{j}] (deviance {dr} without it, {} with)", c.brief(), t.dev));
        }
        if let Err(e) = &ex {
            if e.is_panic() || every && c.fam.dom() == 0 && k > 0 && c.opts.l2 == 0.0 {
                ctx.fail("pvalue_exact", format!("{} pvalue_exact: {e} although every reduced model can be fitted", c.brief()));
            }
            return;
        }
        // identical tests for ordinary least squares
        if c.fam == Fam::Lin && c.opts.l2 == 0.0 {
            if let (Ok(w), Ok(e)) = (f.get(St::PWald), &ex) {
                let z = t.expect(St::WaldZ).unwrap();
                let mut tz = t.tol(St::WaldZ);
                for j in 0..k {
                    // distance of both fits from the exact solution
                    tz[j] += 4.0 * (del2 / t.phi).sqrt();
                    let s = spread(z.v()[j].abs(), tz[j], 0.0, &|z| t.p_wald(z));
                    if s.is_finite() && !ctx.close("linear-agree", e.v()[j], w.v()[j], 2.0 * s + 1e-9 * w.v()[j] * (1.0 - w.v()[j].max(1e-300).ln()) + if c.f32 { 4e-6 * w.v()[j] + 1e-44 } else { 0.0 }, || format!("{} pvalue_exact[{j}] vs pvalue_wald", c.brief())) {
                        break;
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- quantile residuals

fn c20(ctx: &mut Ctx, r: &mut Rng) {
    let fams = vec![Fam::Lin, Fam::Lin, Fam::ExpNR, Fam::ExpLog, Fam::GamNR, Fam::GamLog, Fam::LinExp, Fam::ExpSqrt, Fam::GamInv];
    let pf = Prof { fams, slack: *r.pick(&[1, 2, 2, 4]), ..Prof::default() };
    let mut c = gen(r, &pf);
    if r.p(0.5) && c.n() >= 4 {
        // several responses at the same point of the design
        let g = r.int(1, 4);
        for i in 0..c.n() {
            let s = i - i % (g + 1);
            for j in 0..c.p() {
                c.x[(i, j)] = c.x[(s, j)];
            }
            if let Some(o) = c.off.as_mut() {
                o[i] = o[s];
            }
            if let Some(w) = c.vw.as_mut() {
                w[i] = w[s];
            }
        }
    }
    if r.p(0.15) {
        let i = r.int(0, c.n() - 1);
        c.y[i] = r32(&c, c.y[i] * *r.pick(&[1e-3, 1e-2, 30.0, 100.0]));
    }
    with_fit(ctx, &c, |ctx, _, f, rf| {
        let Some(t) = tolr(ctx, &c, rf) else { return };
        if !check(ctx, "resid_quantile", f, &t, St::ResidQuant) {
            return;
        }
        let Ok(Val::V(q)) = f.get(St::ResidQuant) else { return };
        let tq = t.tol(St::ResidQuant);
        let n = rf.n;
        let ok: Vec<usize> = (0..n).filter(|i| tq[*i].is_finite()).collect();
        for (u, &i) in ok.iter().enumerate() {
            for &j in ok.iter().skip(u + 1).take(6) {
                if rf.eta[i] == rf.eta[j] && rf.vw[i] == rf.vw[j] && c.y[i] != c.y[j] {
                    let (a, b) = if c.y[i] < c.y[j] { (i, j) } else { (j, i) };
                    let slack = 1e-9 * (1.0 + q[a].abs());
                    if !ctx.ok("monotone", q[a] <= q[b] + slack, || format!("{} rows {a},{b}: y {} < {} but quantile residuals {} > {}", c.brief(), c.y[a], c.y[b], q[a], q[b])) {
                        return;
                    }
                }
            }
        }
        for &i in &ok {
            let mu = rf.pts[i].mu;
            // the median of the gamma distribution lies between mean*(1 - 1/(3a)*1.2) and mean
            let (lo, hi) = match rf.fam.base() {
                Base::Lin => (mu, mu),
                Base::Expo => (mu * std::f64::consts::LN_2, mu * std::f64::consts::LN_2),
                _ => {
                    let a = rf.vw[i] / t.phi;
                    // median/scale lies in (a - 1/3, a) for a >= 1
                    if a >= 1.0 { (mu * (a - 1.0 / 3.0) / a, mu) } else { (0.0, mu) }
                }
            };
            let e = t.tmu[i] * 2.0 + KP * rf.eps * c.y[i].abs() + if rf.fam.base() == Base::Gam { mu * (t.rphi + KP * rf.eps) } else { 0.0 };
            let good = !(c.y[i] > hi + e && q[i] < 0.0) && !(c.y[i] < lo - e && q[i] > 0.0);
            if !ctx.ok("sign", good, || format!("{} row {i}: y {} median in [{lo},{hi}] quantile residual {}", c.brief(), c.y[i], q[i])) {
                return;
            }
        }
        if rf.fam.base() == Base::Lin {
            let (Ok(Val::V(e)), Ok(Val::S(phi))) = (f.get(St::ResidResp), f.get(St::Disp)) else { return };
            for &i in &ok {
                let w = e[i] / (phi / rf.vw[i]).sqrt();
                let tt = if c.f32 { 1e-5 * (1.0 + w.abs()) } else { 1e-9 * (1.0 + w.abs()) } + KP * rf.eps * (c.y[i].abs() + rf.pts[i].mu.abs()) / (phi / rf.vw[i]).sqrt();
                if !ctx.close("linear", q[i], w, tt, || format!("{} quantile residual {i} vs scaled residual", c.brief())) {
                    return;
                }
            }
        }
    });
}
