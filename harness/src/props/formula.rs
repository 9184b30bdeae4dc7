//! C11-C16: every reported statistic equals its documented definition, evaluated independently at
//! the reported coefficients.
use super::Prop;
use crate::case::*;
use crate::ctx::Ctx;
use crate::family::*;
use crate::linalg::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::run::*;
use crate::stat::*;

pub fn props() -> Vec<Prop> {
    let rule = "random data sets over every family/link, weights, offsets, ridge penalties and flags; non-trivial: the fit returned Ok and the statistics were compared with their independent definitions";
    vec![
        Prop { id: "C11", quick: 12000, thorough: 400000, run: c11, rule, need: &["deviance", "dispersion", "resid_dev", "nonnegative", "dev=2(sat-like)", "saturated-zero"] },
        Prop { id: "C12", quick: 12000, thorough: 400000, run: c12, rule, need: &["aic", "bic", "ndf", "test_ndf", "rss", "r_sq", "r_sq-range", "r_sq-affine"] },
        Prop { id: "C13", quick: 10000, thorough: 350000, run: c13, rule, need: &["score", "fisher", "score-derivative", "fisher-derivative", "fisher-psd"] },
        Prop { id: "C14", quick: 12000, thorough: 400000, run: c14, rule, need: &["covariance", "wald_z", "cov-psd"] },
        Prop { id: "C15", quick: 10000, thorough: 300000, run: c15, rule, need: &["hat", "leverage", "infl", "cooks", "lev-sum", "idempotent", "infl-exact", "lev-range"] },
        Prop { id: "C16", quick: 10000, thorough: 300000, run: c16, rule, need: &["resid_resp", "resid_pear", "resid_dev", "resid_work", "resid_part", "resid_pear_std", "resid_dev_std", "resid_student", "student-exact"] },
    ]
}

/// The mixture of problems used by the formula checks.
pub fn draw(r: &mut Rng) -> Case {
    let mut fams = Fam::KINDS.to_vec();
    fams.extend(Fam::KINDS);
    fams.extend(Fam::USER);
    let mut pf = Prof { fams, ..Prof::default() };
    match r.int(0, 9) {
        0 | 1 => {
            pf.slack = 1;
            pf.nmax = 10;
        }
        2 => pf.big = 0.3,
        3 => {
            pf.vw = 0.9;
            pf.fw = 0.7;
        }
        _ => {}
    }
    gen(r, &pf)
}

/// Build, fit and evaluate the reference at the reported coefficients; `None` is recorded as a skip.
pub fn with_fit<T>(ctx: &mut Ctx, c: &Case, k: impl FnOnce(&mut Ctx, &dyn ModelDyn, &dyn FitDyn, &Ref) -> T) -> Option<T> {
    ctx.dump = c.dump();
    let m = match build(c) {
        Ok(m) => m,
        Err(e) => {
            ctx.skip(&format!("build-{}", e.kind()));
            return None;
        }
    };
    let f = match m.fit(&c.opts) {
        Ok(f) => f,
        Err(e) => {
            ctx.skip(&format!("fit-{}", e.kind()));
            return None;
        }
    };
    let b = f.beta();
    if b.iter().any(|v| !v.is_finite()) {
        ctx.skip("non-finite");
        return None;
    }
    let Some(rf) = Ref::at(c, &b) else {
        ctx.skip("domain");
        return None;
    };
    Some(k(ctx, &*m, &*f, &rf))
}

/// Compare one reported statistic with its reference; library errors are violations here because
/// the information matrix is known to be well conditioned.
pub fn check(ctx: &mut Ctx, oracle: &str, f: &dyn FitDyn, t: &Tol, st: St) -> bool {
    let Some(want) = t.expect(st) else {
        ctx.skip(&format!("{oracle}-noref"));
        return true;
    };
    match f.get(st) {
        Ok(got) => judge(ctx, oracle, &got, &want, &t.tol(st), &format!("{} {oracle}", t.c.brief())),
        Err(e) => {
            ctx.fail(oracle, format!("{} {oracle}: {e}", t.c.brief()));
            false
        }
    }
}

fn tol<'a>(ctx: &mut Ctx, c: &'a Case, rf: &'a Ref) -> Option<Tol<'a>> {
    match Tol::new(c, rf, 0.0) {
        Ok(t) => {
            ctx.config(c);
            Some(t)
        }
        Err(e) => {
            ctx.skip(e);
            None
        }
    }
}

/// Responses at the edge of the family's domain.
fn boundary(r: &mut Rng, c: &mut Case) {
    let n = c.n();
    match c.fam.base() {
        Base::Pois => (0..n).for_each(|i| if r.p(0.3) { c.y[i] = 0.0 }),
        Base::Bern => (0..n).for_each(|i| if r.p(0.5) { c.y[i] = c.y[i].round() }),
        Base::Bin(m) => (0..n).for_each(|i| if r.p(0.3) { c.y[i] = if r.p(0.5) { 0.0 } else { m as f64 } }),
        _ => {}
    }
    c.yt = y_type(r, c.fam, &c.y, c.f32);
}

fn c11(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = draw(r);
    if r.p(0.3) {
        boundary(r, &mut c);
    }
    if r.p(0.06) {
        return c11_saturated(ctx, r, c);
    }
    with_fit(ctx, &c, |ctx, _, f, rf| {
        let Some(t) = tol(ctx, &c, rf) else { return };
        check(ctx, "deviance", f, &t, St::Dev);
        check(ctx, "dispersion", f, &t, St::Disp);
        check(ctx, "resid_dev", f, &t, St::ResidDev);
        let (Ok(d), Ok(rd)) = (f.get(St::Dev), f.get(St::ResidDev)) else { return };
        let d = d.s();
        ctx.ok("nonnegative", d >= 0.0, || format!("{} deviance {d}", c.brief()));
        // sums over the library's own values
        let (tw, fw) = (&rf.tw, &rf.fw);
        let s: f64 = (0..rf.n).filter(|i| fw[*i] > 0.0).map(|i| fw[i] * rd.v()[i].powi(2)).sum();
        ctx.close("sum-of-squares", s, d, KP * rf.eps * (d + s), || format!("{} sum of squared deviance residuals", c.brief()));
        let sat: f64 = (0..rf.n).filter(|i| tw[*i] > 0.0).map(|i| tw[i] * sat(c.fam, c.y[i])).sum();
        ctx.close("dev=2(sat-like)", d, 2.0 * (sat - f.like() - rf.pen), 2.0 * KP * rf.ll_err, || format!("{} deviance vs likelihood gap", c.brief()));
    });
}

/// As many coefficients as groups: the means equal the group responses and the deviance vanishes.
fn c11_saturated(ctx: &mut Ctx, r: &mut Rng, mut c: Case) {
    if c.fam.user() || c.f32 {
        return ctx.skip("saturated-not-applicable");
    }
    let g = r.int(1, 4);
    let n = c.n();
    let bin = if let Base::Bin(m) = c.fam.base() { m as f64 } else { 1.0 };
    let vals: Vec<f64> = (0..g)
        .map(|_| match c.fam.base() {
            Base::Bern => r.range(0.1, 0.9),
            Base::Bin(m) => if m < 2 { 0.5 } else { r.int(1, m as usize - 1) as f64 },
            Base::Pois => r.int(1, 40) as f64,
            _ => r.range(0.3, 3.0),
        })
        .collect();
    if bin == 1.0 && matches!(c.fam.base(), Base::Bin(_)) {
        return ctx.skip("saturated-not-applicable");
    }
    c.intercept = false;
    c.x = Mat::zeros(n, g);
    for i in 0..n {
        c.x[(i, i % g)] = 1.0;
        c.y[i] = vals[i % g];
    }
    c.off = None;
    c.opts = Opts::default();
    if n < g {
        return;
    }
    c.yt = y_type(r, c.fam, &c.y, false);
    with_fit(ctx, &c, |ctx, _, f, rf| {
        ctx.config(&c);
        let d = f.get(St::Dev).map(|v| v.s()).unwrap_or(f64::NAN);
        ctx.ok("saturated-zero", d >= 0.0 && d <= 200.0 * rf.ll_err + 4.0 * c.tol() * n as f64, || format!("{} deviance of a saturated fit {d:.3e} (ll_err {:.3e})", c.brief(), rf.ll_err));
    });
}

fn c12(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = draw(r);
    if r.p(0.35) {
        let pf = Prof { fams: vec![Fam::Lin], ..Prof::default() };
        c = gen(r, &pf);
    }
    let out = with_fit(ctx, &c, |ctx, _, f, rf| {
        let t = tol(ctx, &c, rf)?;
        check(ctx, "aic", f, &t, St::Aic);
        check(ctx, "bic", f, &t, St::Bic);
        check(ctx, "ndf", f, &t, St::Ndf);
        check(ctx, "test_ndf", f, &t, St::TestNdf);
        if c.fam != Fam::Lin {
            return None;
        }
        check(ctx, "rss", f, &t, St::Rss);
        check(ctx, "r_sq", f, &t, St::RSq);
        let v = f.get(St::RSq).ok()?.s();
        let tt = t.tol(St::RSq)[0];
        if c.intercept && c.opts.l2 == 0.0 && tt.is_finite() {
            ctx.ok("r_sq-range", v >= -tt && v <= 1.0 + tt, || format!("{} R^2 = {v}", c.brief()));
        }
        Some((v, tt))
    })
    .flatten();
    // affine changes of the response
    if let Some((v, tt)) = out {
        if c.intercept && c.opts.l2 == 0.0 && c.off.is_none() && !c.f32 && tt < 1e-6 && r.p(0.4) {
            let mut d = c.clone();
            let (a, b) = (r.logu(0.1, 10.0) * if r.p(0.5) { -1.0 } else { 1.0 }, r.normal() * 3.0);
            d.y.iter_mut().for_each(|y| *y = a * *y + b);
            d.yt = Yt::F64;
            with_fit(ctx, &d, |ctx, _, g, rg| {
                let Ok(t) = Tol::new(&d, rg, 0.0) else { return };
                let t2 = t.tol(St::RSq)[0];
                if t2 < 1e-6 {
                    let w = g.get(St::RSq).map(|v| v.s()).unwrap_or(f64::NAN);
                    ctx.close("r_sq-affine", w, v, 4.0 * (tt + t2) + 1e-9, || format!("{} R^2 after y -> {a}*y+{b}", c.brief()));
                }
            });
        }
    }
}

fn c13(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = draw(r);
    if r.p(0.15) {
        // the likelihood is exposed for L1 fits too; the Fisher matrix is not checked there
        c.opts.l1 = r.logu(1e-2, 5.0);
        if c.f32 {
            c.opts.l1 = c.opts.l1 as f32 as f64;
        }
    }
    with_fit(ctx, &c, |ctx, _, f, rf| {
        let se = rf.se1().unwrap_or_else(|| vec![1e-3; rf.k]);
        let h = *r.pick(&[0.0, 0.1, 1.0, 3.0]);
        let mut a: Vec<f64> = rf.beta.iter().zip(&se).map(|(b, s)| if *b == 0.0 && r.p(0.5) { 0.0 } else { b + h * s * r.normal() }).collect();
        if c.f32 {
            a.iter_mut().for_each(|v| *v = *v as f32 as f64);
        }
        if r.p(0.1) && c.fam.dom() == 0 {
            a.iter_mut().for_each(|v| *v = 0.0);
        }
        let Some(ra) = Ref::at(&c, &a) else { return ctx.skip("alternative-outside-domain") };
        if !(ra.rt < 1e-3) || !ra.like().is_finite() || !ra.freg.finite() {
            return ctx.skip("sensitive-alternative");
        }
        if (0..ra.n).any(|i| ra.tw[i] > 0.0 && !ra.srel[i].is_finite() && !matches!(c.fam.base(), Base::Bern | Base::Bin(_))) {
            return ctx.skip("extreme-range");
        }
        ctx.config(&c);
        // score
        match f.score(&a) {
            Ok(g) => {
                let w = ra.score();
                let mut te = ra.score_err();
                // at a zero coefficient with an L1 penalty any subgradient will do
                for j in 0..ra.k {
                    if a[j] == 0.0 && c.opts.l1 > 0.0 {
                        te[j] += c.opts.l1 * ra.sg[j] / KP;
                    }
                    // the transform back from centred columns mixes the intercept row in
                    te[j] += te_mix(&c, &ra, j) + if c.f32 { 1e-32 } else { 1e-250 };
                }
                if ctx.vclose("score", &g, &w, |j| KP * te[j], &format!("{} score", c.brief())) && !c.f32 && r.p(0.3) {
                    // directly from the exposed likelihood: d(lr_test_against) / dparam = -2 score
                    let j = r.int(0, ra.k.max(1) - 1);
                    if ra.k > 0 && !(c.opts.l1 > 0.0 && a[j] == 0.0) {
                        let fj = ra.freg[(j, j)].sqrt();
                        let s = sens_max(&ra);
                        let qm = 1.0f64.max(s);
                        let step = 1e-4 / fj / qm;
                        if c.opts.l1 > 0.0 && a[j].abs() <= 2.0 * step || !(fj > 1e-60) {
                            return;
                        }
                        let at = |d: f64| {
                            let mut b = a.clone();
                            b[j] += d;
                            f.lr_against(&b).map(|v| -0.5 * v).unwrap_or(f64::NAN)
                        };
                        let (p1, m1, p2, m2) = (at(step), at(-step), at(2.0 * step), at(-2.0 * step));
                        let fd = (8.0 * (p1 - m1) - (p2 - m2)) / (12.0 * step);
                        let t = KP * (ra.ll_err + rf.ll_err) / step + 1e-6 * fj * (1.0 + (w[j] / fj).abs());
                        ctx.close("score-derivative", g[j], fd, t, || format!("{} score[{j}] vs difference quotient of the likelihood", c.brief()));
                    }
                }
            }
            Err(e) => ctx.fail("score", format!("{} score: {e}", c.brief())),
        }
        if c.opts.l1 > 0.0 {
            return;
        }
        match f.fisher(&a) {
            Ok(m) => {
                let rel = KP * ra.rt;
                let sc = |i: usize, j: usize| ra.freg[(i, i)].sqrt() * ra.freg[(j, j)].sqrt();
                let fs = sat_noise(&c, &ra);
                if (0..ra.k).any(|i| !(ra.freg[(i, i)] > if c.f32 { 1e-28 } else { 1e-200 })) {
                    return ctx.skip("information-below-rounding");
                }
                let mut good = m.r == ra.k && m.c == ra.k;
                if !good {
                    return ctx.fail("fisher", format!("{} fisher shape {}x{}", c.brief(), m.r, m.c));
                }
                for i in 0..ra.k {
                    for j in 0..ra.k {
                        good = good && ctx.close("fisher", m[(i, j)], ra.freg[(i, j)], rel * sc(i, j) * mix2(&c, &ra, i, j) + fs[(i, j)], || format!("{} fisher[{i},{j}]", c.brief()));
                        good = good && ctx.close("fisher-symmetric", m[(i, j)], m[(j, i)], rel * sc(i, j) * mix2(&c, &ra, i, j) + fs[(i, j)], || format!("{} fisher[{i},{j}] asymmetric", c.brief()));
                    }
                }
                let noisy = (0..ra.k).any(|i| !(fs[(i, i)] < 1e-6 * sc(i, i)));
                if noisy {
                    return ctx.skip("information-below-rounding");
                }
                if good && ra.k > 0 && ra.k <= 6 {
                    let mut s = m.clone();
                    for i in 0..ra.k {
                        for j in 0..ra.k {
                            s[(i, j)] = if sc(i, j) > 0.0 { 0.5 * (m[(i, j)] + m[(j, i)]) / sc(i, j) } else { 0.0 };
                        }
                    }
                    let mn = sym_eig(&s).0.iter().cloned().fold(f64::INFINITY, f64::min);
                    let low = 10.0 * rel * ra.k as f64 * (0..ra.k).map(|i| mix2(&c, &ra, i, i)).fold(1.0, f64::max);
                    if !(low < 0.01) {
                        return ctx.skip("psd-below-rounding");
                    }
                    ctx.ok("fisher-psd", mn > -low, || format!("{} smallest eigenvalue of the scaled Fisher matrix {mn:.3e}", c.brief()));
                }
                // canonical: Fisher = -d score / d params
                if good && c.fam.concave() && !c.f32 && r.p(0.3) && ra.k > 0 {
                    let j = r.int(0, ra.k - 1);
                    let fj = ra.freg[(j, j)].sqrt();
                    let step = 1e-4 / fj / sens_max(&ra).max(1.0);
                    let at = |d: f64| {
                        let mut b = a.clone();
                        b[j] += d;
                        f.score(&b)
                    };
                    if let (Ok(p1), Ok(m1), Ok(p2), Ok(m2)) = (at(step), at(-step), at(2.0 * step), at(-2.0 * step)) {
                        let se = ra.score_err();
                        for i in 0..ra.k {
                            let fd = -(8.0 * (p1[i] - m1[i]) - (p2[i] - m2[i])) / (12.0 * step);
                            let t = KP * (se[i] + te_mix(&c, &ra, i)) / step + 1e-5 * sc(i, j);
                            if !ctx.close("fisher-derivative", m[(i, j)], fd, t, || format!("{} fisher[{i},{j}] vs difference quotient of the score", c.brief())) {
                                break;
                            }
                        }
                    }
                }
            }
            Err(e) => ctx.fail("fisher", format!("{} fisher: {e}", c.brief())),
        }
    });
}

/// Error of the Fisher matrix where the variance is computed from a mean next to its upper limit.
pub fn sat_noise(c: &Case, ra: &Ref) -> Mat {
    let mut m = Mat::zeros(ra.k, ra.k);
    if !matches!(c.fam.base(), Base::Bern | Base::Bin(_)) {
        return m;
    }
    let ms = c.col_stats().0;
    let ax = |i: usize, j: usize| ra.xd[(i, j)].abs() + if c.intercept && c.std && j > 0 { ms[j - 1].abs() } else { 0.0 };
    for i in 0..ra.n {
        if ra.tw[i] > 0.0 {
            let w = KP * ra.eps * ra.tw[i] * ra.pts[i].mu * ra.pts[i].ep.powi(2);
            for a in 0..ra.k {
                for b in 0..ra.k {
                    m[(a, b)] += w * ax(i, a) * ax(i, b);
                }
            }
        }
    }
    m
}

/// Rounding brought in by the transform between centred and raw columns.
pub fn te_mix(c: &Case, ra: &Ref, j: usize) -> f64 {
    if !c.intercept || j == 0 || !c.std {
        return 0.0;
    }
    ra.score_err()[0] * c.col_stats().0[j - 1].abs()
}
pub fn mix2(c: &Case, ra: &Ref, i: usize, j: usize) -> f64 {
    if !c.std || !c.intercept {
        return 1.0;
    }
    let ms = c.col_stats().0;
    let g = |j: usize| if j == 0 { 1.0 } else { 1.0 + ms[j - 1].abs() * (ra.freg[(0, 0)] / ra.freg[(j, j)]).sqrt() };
    g(i) * g(j)
}
fn sens_max(ra: &Ref) -> f64 {
    // change of the predictor of any row for a unit step in F-norm
    let mut s: f64 = 0.0;
    for i in 0..ra.n {
        if ra.tw[i] > 0.0 {
            for j in 0..ra.k {
                let f = ra.freg[(j, j)].sqrt();
                if f > 0.0 {
                    s = s.max(sens(ra.fam, ra.eta[i]) * ra.xd[(i, j)].abs() / f);
                }
            }
        }
    }
    s
}

fn c14(ctx: &mut Ctx, r: &mut Rng) {
    let c = draw(r);
    with_fit(ctx, &c, |ctx, _, f, rf| {
        let Some(t) = tol(ctx, &c, rf) else { return };
        if !check(ctx, "covariance", f, &t, St::Cov) {
            return;
        }
        check(ctx, "wald_z", f, &t, St::WaldZ);
        let Ok(Val::M(m)) = f.get(St::Cov) else { return };
        // on the scale of the reported dispersion, which is rounding noise for an exact fit
        let phi = f.get(St::Disp).map(|v| v.s()).unwrap_or(f64::NAN);
        if !(phi > 0.0 && phi.is_finite()) || rf.k == 0 {
            return;
        }
        // definiteness on the library's own matrix
        let mut s = m.clone();
        let mut asym: f64 = 0.0;
        for i in 0..rf.k {
            for j in 0..rf.k {
                let d = phi * t.se1[i] * t.se1[j];
                asym = asym.max((m[(i, j)] - m[(j, i)]).abs() / d);
                s[(i, j)] = 0.5 * (m[(i, j)] + m[(j, i)]) / d;
            }
        }
        ctx.below("cov-symmetric", asym, 50.0 * t.rm, || format!("{} covariance asymmetry", c.brief()));
        let mn = sym_eig(&s).0.iter().cloned().fold(f64::INFINITY, f64::min);
        ctx.ok("cov-psd", mn > -10.0 * t.r2, || format!("{} smallest eigenvalue of the scaled covariance {mn:.3e}", c.brief()));
        // z against the library's own covariance
        if let (Ok(z), true) = (f.get(St::WaldZ), t.rphi < 0.1) {
            for j in 0..rf.k {
                let w = rf.beta[j] / m[(j, j)].sqrt();
                ctx.close("wald_z-self", z.v()[j], w, KP * rf.eps * w.abs(), || format!("{} wald_z[{j}] vs own covariance", c.brief()));
            }
        }
    });
}

fn c15(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = draw(r);
    if r.p(0.2) {
        let pf = Prof { fams: vec![Fam::Lin], l2: 0.1, f32: 0.0, ..Prof::default() };
        c = gen(r, &pf);
    }
    if c.n() > 120 {
        let keep: Vec<usize> = (0..120).collect();
        c = c.sub_rows(&keep);
    }
    with_fit(ctx, &c, |ctx, _, f, rf| {
        let Some(t) = tol(ctx, &c, rf) else { return };
        let good = check(ctx, "hat", f, &t, St::Hat);
        let good = check(ctx, "leverage", f, &t, St::Lev) && good;
        check(ctx, "infl", f, &t, St::Infl);
        check(ctx, "cooks", f, &t, St::Cooks);
        if !good {
            return;
        }
        let (Ok(Val::M(h)), Ok(Val::V(l))) = (f.get(St::Hat), f.get(St::Lev)) else { return };
        let small = t.r2 * rf.k as f64;
        for i in 0..rf.n {
            ctx.close("lev=diag(hat)", l[i], h[(i, i)], 1e-12 + 10.0 * rf.eps, || format!("{} leverage[{i}]", c.brief()));
            if !rf.pts[i].mu.is_finite() {
                continue;
            }
            ctx.ok("lev-range", l[i] >= -small && l[i] <= 1.0 + small, || format!("{} leverage[{i}] = {}", c.brief(), l[i]));
        }
        if c.opts.l2 == 0.0 && c.opts.l1 == 0.0 {
            // a row without weight may lie outside the domain of the link
            let s: f64 = (0..rf.n).filter(|i| rf.tw[*i] > 0.0).map(|i| l[i]).sum();
            ctx.close("lev-sum", s, rf.k as f64, 1e-12 + 4.0 * small, || format!("{} sum of leverages", c.brief()));
            if rf.n <= 40 && rf.pts.iter().all(|p| p.mu.is_finite()) {
                // error of each entry relative to its natural scale
                let h2 = h.mul(&h);
                let mut worst = (0.0, 0, 0);
                for i in 0..rf.n {
                    for j in 0..rf.n {
                        let sc = (rf.pts[i].dmu * rf.tw[j] * rf.pts[j].ep).abs() * t.q[i] * t.q[j];
                        if !(sc > 1e-200) || !t.rw[i].is_finite() || !t.rw[j].is_finite() {
                            continue;
                        }
                        let e = (h2[(i, j)] - h[(i, j)]).abs() / sc;
                        if e > worst.0 {
                            worst = (e, i, j);
                        }
                    }
                }
                ctx.below("idempotent", worst.0, 10.0 * small.max(t.r2), || format!("{} hat*hat-hat at [{},{}]", c.brief(), worst.1, worst.2));
            }
        }
        // exact for unpenalised linear models: change of the coefficients on leaving the row out
        if c.fam == Fam::Lin && c.opts.l2 == 0.0 && !c.f32 {
            let i = r.int(0, rf.n - 1);
            if rf.tw[i] > 0.0 && t.h[i] < 0.95 {
                if let (Some(b), Ok(Val::M(inf))) = (loo_linear(&c, i), f.get(St::Infl)) {
                    let tt = t.tol(St::Infl);
                    for j in 0..rf.k {
                        let want = rf.beta[j] - b[j];
                        let tj = 1e-7 * t.se1[j] * (t.rf.tw[i]).sqrt() * t.e(i).abs().max(1e-3 * rf.y[i].abs()) / (1.0 - t.h[i]) + 10.0 * tt[i * rf.k + j] + 10.0 * t.rm * (rf.beta[j].abs() + t.ms.iter().enumerate().map(|(l, m)| (m * rf.beta.get(l + 1).unwrap_or(&0.0)).abs()).sum::<f64>());
                        if !ctx.close("infl-exact", inf[(i, j)], want, tj, || format!("{} influence of row {i} on coefficient {j} vs refit", c.brief())) {
                            break;
                        }
                    }
                }
            }
        }
    });
}

/// Weighted least squares without row i, by the reference.
fn loo_linear(c: &Case, i: usize) -> Option<Vec<f64>> {
    let idx: Vec<usize> = (0..c.n()).filter(|j| *j != i).collect();
    let d = c.sub_rows(&idx);
    let rf = Ref::at(&d, &vec![0.0; d.k()])?;
    let (inv, cond) = rf.inv.as_ref()?;
    if *cond > 1e8 {
        return None;
    }
    let mut b = inv.mulv(&rf.score_data());
    // one round of iterative refinement
    for _ in 0..2 {
        let rr = Ref::at(&d, &b)?;
        let st = inv.mulv(&rr.score_data());
        b.iter_mut().zip(st).for_each(|(b, s)| *b += s);
    }
    Some(b)
}

fn c16(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = draw(r);
    if r.p(0.2) {
        let pf = Prof { fams: vec![Fam::Lin], l2: 0.1, f32: 0.0, ..Prof::default() };
        c = gen(r, &pf);
    }
    if r.p(0.2) {
        boundary(r, &mut c);
    }
    with_fit(ctx, &c, |ctx, _, f, rf| {
        let Some(t) = tol(ctx, &c, rf) else { return };
        for (n, s) in [
            ("resid_resp", St::ResidResp),
            ("resid_pear", St::ResidPear),
            ("resid_dev", St::ResidDev),
            ("resid_work", St::ResidWork),
            ("resid_part", St::ResidPart),
            ("resid_pear_std", St::ResidPearStd),
            ("resid_dev_std", St::ResidDevStd),
            ("resid_student", St::ResidStudent),
        ] {
            check(ctx, n, f, &t, s);
        }
        // externally studentised residuals of linear models are exact
        if c.fam == Fam::Lin && c.opts.l2 == 0.0 && !c.f32 {
            let i = r.int(0, rf.n - 1);
            let (_, ts) = (0.0, t.tol(St::ResidStudent)[i]);
            if rf.fw[i] == 1.0 && t.h[i] < 0.9 && ts < 1e-3 && c.vw.is_none() {
                if let (Some(b), Ok(Val::V(s))) = (loo_linear(&c, i), f.get(St::ResidStudent)) {
                    let idx: Vec<usize> = (0..c.n()).filter(|j| *j != i).collect();
                    let d = c.sub_rows(&idx);
                    if let Some(rd) = Ref::at(&d, &b) {
                        let phi = rd.deviance() / rd.ndf();
                        let x = rf.xd.row(i);
                        let pe = c.y[i] - dot(x, &b) - rf.off[i];
                        let want = pe / phi.sqrt();
                        let rel = 10.0 * ts + 1e-7 * (1.0 + want.abs()) + want.abs() * KP * rd.dev_err() / rd.deviance();
                        ctx.close("student-exact", s[i], want, rel, || format!("{} studentised residual {i} vs refit without the row", c.brief()));
                    }
                }
            }
        }
    });
}
