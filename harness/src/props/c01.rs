//! C01: unregularised fits maximise the documented log-likelihood.
use super::Prop;
use crate::case::*;
use crate::ctx::Ctx;
use crate::family::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::run::*;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        quick: 12000,
        thorough: 400000,
        run,
        rule: "random well-posed and stressed data sets over every family/link; non-trivial: the fit returned Ok and its optimality and likelihood were judged",
        need: &["stationary", "model_like", "no-better-point"],
    }
}

fn run(ctx: &mut Ctx, r: &mut Rng) {
    let mut fams = Fam::KINDS.to_vec();
    fams.extend(Fam::USER);
    let mut pf = Prof { fams, l2: 0.0, l1: 0.0, ..Prof::default() };
    if r.p(0.25) {
        pf.slack = 0;
        pf.nmax = 12;
    }
    let mut c = gen(r, &pf);
    let loose = r.p(0.25);
    if loose {
        c.opts.tol = Some(r.logu(if c.f32 { 1e-6 } else { 1e-12 }, 1e-3));
    }
    if !loose && r.p(0.25) {
        start(r, &mut c);
    }
    judge(ctx, r, &c);
}

/// Draw an initial guess in the domain of the link, from close to the null model to far away.
pub fn start(r: &mut Rng, c: &mut Case) {
    let Some(null) = crate::stat::null_of(c) else { return };
    let (ms, sd) = c.col_stats();
    let off = c.intercept as usize;
    let h = *r.pick(&[0.0, 0.1, 1.0, 3.0, 30.0]);
    for _ in 0..6 {
        let mut g = null.par.clone();
        for j in 0..c.p() {
            let b = h * r.normal() / sd[j] * if c.fam.dom() != 0 { 0.1 } else { 1.0 };
            g[j + off] += b;
            if c.intercept {
                g[0] -= b * ms[j];
            }
        }
        if c.intercept {
            g[0] += h * r.normal() * if c.fam.dom() != 0 { 0.1 } else { 1.0 };
        }
        if c.f32 {
            g.iter_mut().for_each(|v| *v = *v as f32 as f64);
        }
        if Ref::at(c, &g).is_some_and(|o| o.like().is_finite()) {
            c.opts.init = Some(g);
            return;
        }
    }
}

pub fn judge(ctx: &mut Ctx, r: &mut Rng, c: &Case) {
    ctx.dump = c.dump();
    let m = match build(c) {
        Ok(m) => m,
        Err(e) => return ctx.skip(&format!("build-{}", e.kind())),
    };
    let f = match m.fit(&c.opts) {
        Ok(f) => f,
        Err(e) => return ctx.skip(&format!("{}-{}", e.kind(), c.fam.name())),
    };
    ctx.config(c);
    if ctx.verbose {
        for (i, (b, l)) in f.history().iter().enumerate() {
            println!("  hist[{i}] like={l:.12e} {b:?}");
        }
        println!("  result like={:.12e} {:?}", f.like(), f.beta());
    }
    optimum(ctx, r, c, &f.beta(), f.like());
}

pub fn optimum(ctx: &mut Ctx, r: &mut Rng, c: &Case, b: &[f64], like: f64) {
    if b.iter().any(|v| !v.is_finite()) {
        ctx.fail("finite", format!("{}: Ok with coefficients {b:?}", c.brief()));
        return;
    }
    let Some(rf) = Ref::at(c, b) else {
        // a user-written link may extend beyond the branch that the reference considers
        if c.fam.user() {
            return ctx.skip("user-link-domain");
        }
        if near_boundary(c, b) {
            return ctx.skip("domain-within-rounding");
        }
        ctx.fail("domain", format!("{}: fitted predictor outside the domain of the link", c.brief()));
        return;
    };
    // reported likelihood
    let lt = 50.0 * rf.ll_err;
    ctx.close("model_like", like, rf.like(), lt, || format!("{} model_like", c.brief()));
    // the optimum of a user link may lie on the boundary of its domain
    if c.fam == Fam::PoisSqrt && (0..c.n()).any(|i| c.y[i] == 0.0 && rf.tw[i] > 0.0 && rf.eta[i].abs() < 0.05) {
        return ctx.skip("boundary-optimum");
    }
    // divergence to an optimum at infinity along a user link is resolved only coarsely
    if c.fam.user() && (0..c.n()).any(|i| rf.tw[i] > 0.0 && rf.eta[i].abs() > 40.0) {
        return ctx.skip("diverging-user-link");
    }
    // a remote start may end where variances are not representable
    if c.opts.init.is_some() && (0..c.n()).any(|i| rf.tw[i] > 0.0 && !rf.srel[i].is_finite()) {
        return ctx.skip("remote-start-beyond-range");
    }
    // stationarity
    let slack = 4.0 * c.tol() * c.n() as f64;
    let allow = 100.0 * rf.ll_err + slack;
    let Some(dec) = rf.decrement() else {
        return ctx.skip("singular-information");
    };
    if rf.cond() * rf.rt > 1e-3 {
        return ctx.skip("ill-conditioned");
    }
    // Where the information all but vanishes the predicted gain is not attainable, so that a large
    // prediction is confirmed by an actual ascent.
    let gain = if dec > allow { improve(c, b, 3).map(|o| o.like() - rf.like()).unwrap_or(0.0) } else { dec };
    ctx.below("stationary", gain, allow, || format!("{} likelihood gain by scoring (predicted {dec:.2e}, cond {:.2e})", c.brief(), rf.cond()));
    // no better point: reference ascent from here, and random probes
    if r.p(0.3) {
        if let Some(best) = improve(c, b, 3) {
            ctx.below("no-better-point", best.like() - rf.like(), allow, || format!("{} reference ascent", c.brief()));
        }
    }
    if r.p(0.3) {
        if let Some(se) = rf.se1() {
            for _ in 0..4 {
                let h = r.logu(1e-3, 3.0);
                let p: Vec<f64> = b.iter().zip(&se).map(|(b, s)| b + h * s * r.normal()).collect();
                if c.fam.concave() || h < 0.05 {
                    if let Some(o) = Ref::at(c, &p).filter(|o| o.like().is_finite()) {
                        ctx.below("no-better-point", o.like() - rf.like(), allow, || format!("{} random probe", c.brief()));
                    }
                }
            }
        }
    }
}

/// All rows outside the domain of the link are outside by no more than rounding.
pub fn near_boundary(c: &Case, b: &[f64]) -> bool {
    let (xd, off, tw) = (c.xd(), c.off_v(), c.tw());
    let (ms, _) = c.col_stats();
    (0..c.n()).filter(|i| tw[*i] > 0.0).all(|i| {
        let mut e = off[i];
        let mut a = off[i].abs();
        for j in 0..c.k() {
            let m = if c.intercept && j > 0 { ms[j - 1].abs() } else { 0.0 };
            e += xd[(i, j)] * b[j];
            a += (xd[(i, j)].abs() + m) * b[j].abs();
        }
        c.fam.in_dom(e) || e.abs() <= 1e3 * c.eps() * a && a > 0.0
    })
}
