//! C24, C25: internal consistency of families and links; agreement between precisions.
use super::meta::*;
use super::Prop;
use crate::case::*;
use crate::ctx::Ctx;
use crate::family::*;
use crate::linalg::*;
use crate::links::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::run::*;
use crate::stat::*;
use ndarray::Array1;
use ndarray_glm::link::{Link, Transform};
use ndarray_glm::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            quick: 40000,
            thorough: 1500000,
            run: c24,
            rule: "random predictors over the whole range of a link; random one-observation likelihoods; grouped designs; pairs of equivalent models. Non-trivial: a link value, likelihood, group mean or pair of fits was judged",
            need: &["link:mean", "link:round-trip", "link:nat_param", "link:d_nat_param", "link:monotone", "like:value", "like:monotone", "like:score", "like:fisher", "group:mean", "copy:Result", "half:Result", "sign:Result", "binomial-1:Result", "exp-gamma:Result", "grouped:Result"],
        },
        Prop {
            id: "C25",
            quick: 30000,
            thorough: 1000000,
            run: c25,
            rule: "pairs of fits of the same single-precision data in f32 and f64; non-trivial: both returned Ok and their statistics were compared",
            need: &["precision:Result", "precision:Cov", "precision:ResidDev", "precision:PWald", "precision:PExact", "precision:LooExact", "precision:ResidQuant", "f32-fits", "f32-finite", "far-precision:Result"],
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// links

struct LinkFns {
    func: fn(f64) -> f64,
    inv: fn(f64) -> f64,
    nat: fn(&[f64]) -> Vec<f64>,
    dnat: fn(&[f64]) -> Vec<f64>,
    /// errors and variances as transformed for the score and the information
    adj: fn(&[f64], &[f64], &[f64]) -> [Vec<f64>; 4],
}

fn arr<F: Fl>(w: &[f64]) -> Array1<F> {
    w.iter().map(|w| F::n(*w)).collect()
}
fn out<F: Fl>(a: Array1<F>) -> Vec<f64> {
    a.iter().map(|v| v.w()).collect()
}

macro_rules! fns {
    ($M:ty, $L:ty, $F:ty) => {
        LinkFns {
            func: |y| <$L as Link<$M>>::func(<$F as Fl>::n(y)).w(),
            inv: |w| <$L as Link<$M>>::func_inv(<$F as Fl>::n(w)).w(),
            nat: |w| out(<$L as Transform>::nat_param(arr::<$F>(w))),
            dnat: |w| out(<$L as Transform>::d_nat_param(&arr::<$F>(w))),
            adj: |e, v, w| {
                let (e, v, w) = (arr::<$F>(e), arr::<$F>(v), arr::<$F>(w));
                let (a, b) = <$L as Transform>::adjust_errors_variance(e.clone(), v.clone(), &w);
                [out(<$L as Transform>::adjust_errors(e, &w)), out(<$L as Transform>::adjust_variance(v, &w)), out(a), out(b)]
            },
        }
    };
}
macro_rules! both {
    ($f32:expr, $M:ty, $L:ty) => {
        if $f32 { fns!($M, $L, f32) } else { fns!($M, $L, f64) }
    };
}

/// Families whose link type can be named.
const NAMED: [Fam; 15] = [
    Fam::Logit, Fam::Cloglog, Fam::ExpNR, Fam::ExpLog, Fam::GamNR, Fam::GamLog, Fam::IgNR, Fam::IgLog,
    Fam::Logit2, Fam::PoisULog, Fam::LinExp, Fam::GamInv, Fam::PoisSqrt, Fam::IgInv, Fam::Logit1,
];

fn link_fns(f: Fam, s: bool) -> LinkFns {
    match f {
        Fam::Logit => both!(s, Logistic, logistic_link::Logit),
        Fam::Cloglog => both!(s, Logistic<logistic_link::Cloglog>, logistic_link::Cloglog),
        Fam::ExpNR => both!(s, Exponential, exp_link::NegRec),
        Fam::ExpLog => both!(s, Exponential<exp_link::Log>, exp_link::Log),
        Fam::GamNR => both!(s, Gamma, gamma_link::NegRec),
        Fam::GamLog => both!(s, Gamma<gamma_link::Log>, gamma_link::Log),
        Fam::IgNR => both!(s, InvGaussian, inv_gauss_link::NegRecSq),
        Fam::IgLog => both!(s, InvGaussian<inv_gauss_link::Log>, inv_gauss_link::Log),
        // user links exercise the provided methods of the trait
        Fam::Logit1 => both!(s, Logistic<ULogit1>, ULogit1),
        Fam::Logit2 => both!(s, Logistic<ULogit2>, ULogit2),
        Fam::PoisULog => both!(s, Poisson<ULog>, ULog),
        Fam::LinExp => both!(s, Linear<UExp>, UExp),
        Fam::GamInv => both!(s, Gamma<UInv>, UInv),
        Fam::PoisSqrt => both!(s, Poisson<USqrt>, USqrt),
        Fam::IgInv => both!(s, InvGaussian<UIgInv>, UIgInv),
        f => panic!("harness: no link of {f:?}"),
    }
}

struct Fp {
    eps: f64,
    /// smallest normal and largest finite number
    min: f64,
    max: f64,
}
fn fp(s: bool) -> Fp {
    if s { Fp { eps: f32::EPSILON as f64, min: f32::MIN_POSITIVE as f64, max: f32::MAX as f64 } } else { Fp { eps: f64::EPSILON, min: f64::MIN_POSITIVE, max: f64::MAX } }
}

/// A predictor anywhere in the domain of the link.
fn any_w(r: &mut Rng, fam: Fam, s: bool) -> f64 {
    let top = if s { 30.0 } else { 280.0 };
    let m = match r.int(0, 5) {
        0 => 10f64.powf(r.range(-top, top)),
        1 => 10f64.powf(r.range(-8.0, 8.0)),
        2 => r.range(0.0, if s { 90.0 } else { 750.0 }),
        3 => r.range(0.0, 40.0),
        _ => r.range(0.0, 4.0),
    };
    let sg = match fam.dom() {
        0 => if r.p(0.5) { 1.0 } else { -1.0 },
        s => s as f64,
    };
    let w = if r.p(0.02) && fam.dom() == 0 { 0.0 } else { sg * m };
    if s { w as f32 as f64 } else { w }
}

/// Largest factor by which a relative perturbation of the predictor changes the mean.
fn amp(fam: Fam, w: f64) -> f64 {
    match fam.link() {
        Lk::Log | Lk::Logit(_) | Lk::Cloglog => 1.0 + 2.0 * w.abs(),
        _ => 3.0,
    }
}

/// |a - b| up to a relative error, under- and overflow of the format.
fn near(a: f64, b: f64, rel: f64, abs: f64, f: &Fp) -> bool {
    if a.is_nan() {
        return false;
    }
    if b.abs() >= f.max * 0.99 {
        return a.signum() == b.signum() && a.abs() >= f.max * 0.9 || b.is_nan();
    }
    // an intermediate result may overflow
    if b.abs() > 0.2 * f.max && a.is_infinite() && a.signum() == b.signum() {
        return true;
    }
    (a - b).abs() <= rel * b.abs() + abs + 4.0 * f.min
}

fn c24_link(ctx: &mut Ctx, r: &mut Rng) {
    let fam = *r.pick(&NAMED);
    let s = !fam.user() && r.p(0.3);
    let (l, f) = (link_fns(fam, s), fp(s));
    let nm = format!("{}{}", fam.name(), if s { "/f32" } else { "" });
    let e = 16.0 * f.eps;
    let ws: Vec<f64> = (0..24).map(|_| any_w(r, fam, s)).collect();
    ctx.dump = format!("link of {nm}\npredictors {ws:?}\n");
    let ms: Vec<f64> = ws.iter().map(|w| (l.inv)(*w)).collect();
    let (nat, dn) = ((l.nat)(&ws), (l.dnat)(&ws));
    if !ctx.ok("link:length", nat.len() == ws.len() && dn.len() == ws.len(), || format!("{nm} transformed lengths {} {}", nat.len(), dn.len())) {
        return;
    }
    for i in 0..ws.len() {
        let (w, m) = (ws[i], ms[i]);
        let p = point(fam, 0.5, w);
        ctx.count(&format!("decade-{}", if w == 0.0 { -999 } else { (w.abs().log10() / 20.0).floor() as i32 * 20 }));
        // the mean and its range
        ctx.ok("link:mean", near(m, p.mu, e * amp(fam, w), 0.0, &f), || format!("{nm} mean at {w:e}: {m:e}, expected {:e}", p.mu));
        let inside = match fam.base() {
            Base::Bern => (0.0..=1.0).contains(&m),
            Base::Lin if fam == Fam::Lin => true,
            _ => m >= 0.0,
        };
        ctx.ok("link:range", inside, || format!("{nm} mean at {w:e}: {m:e} out of range"));
        // link(mean(w)) = w, to the extent the rounded mean determines the predictor
        let dw = e * p.mu.abs() * amp(fam, w) / p.dmu.abs();
        let normal = m > 4.0 * f.min && m < 0.25 * f.max && p.dmu.abs() > f.min && (fam.base() != Base::Bern || m < 1.0);
        let normal = normal && (fam.base() != Base::Bern || dw < 0.1);
        let normal = normal && !matches!(fam.link(), Lk::NegRecSq) || normal && m * m > 4.0 * f.min && m * m < 0.2 * f.max;
        if normal {
            let b = (l.func)(m);
            ctx.ok("link:round-trip", (b - w).abs() <= dw + e * (w.abs() + 1.0 * (fam.base() == Base::Bern) as u8 as f64), || format!("{nm} link(mean({w:e})) = {b:e}"));
        }
        // natural parameter: what the canonical link makes of the mean
        let eta = match (fam.base(), fam.link()) {
            (_, _) if fam.canonical() => w,
            (Base::Bern, Lk::Logit(k)) => k as f64 * w,
            (Base::Bern, Lk::Cloglog) => {
                let x = w.exp();
                if x < 1e-8 { w + 0.5 * x } else if x < 30.0 { x.exp_m1().ln() } else { x }
            }
            (Base::Lin, Lk::Log) => w.exp(),
            (Base::Pois, Lk::Sqrt) => 2.0 * w.ln(),
            (Base::Expo | Base::Gam, Lk::Log) => -(-w).exp(),
            (Base::Gam, Lk::Inv) => -w,
            (Base::Ig, Lk::Log) => -0.5 * (-2.0 * w).exp(),
            (Base::Ig, Lk::Inv) => -0.5 * w * w,
            _ => unreachable!(),
        };
        let abs = match fam.link() {
            Lk::Cloglog => e * (1.0 + w.exp().min(4.0)),
            Lk::Sqrt => e,
            _ => 0.0,
        };
        ctx.ok("link:nat_param", near(nat[i], eta, e * amp(fam, w), abs, &f), || format!("{nm} natural parameter at {w:e}: {:e}, expected {eta:e}", nat[i]));
        // and its derivative 1 / (g' V)
        let d = match (fam.base(), fam.link()) {
            (_, _) if fam.canonical() => 1.0,
            (Base::Bern, Lk::Logit(k)) => k as f64,
            (Base::Bern, Lk::Cloglog) => {
                let x = w.exp();
                if x < 1e-300 { 1.0 } else if x > 700.0 { x } else { x / -(-x).exp_m1() }
            }
            (Base::Lin, Lk::Log) => w.exp(),
            (Base::Pois, Lk::Sqrt) => 2.0 / w,
            (Base::Expo | Base::Gam, Lk::Log) => (-w).exp(),
            (Base::Gam, Lk::Inv) => -1.0,
            (Base::Ig, Lk::Log) => (-2.0 * w).exp(),
            (Base::Ig, Lk::Inv) => -w,
            _ => unreachable!(),
        };
        ctx.ok("link:d_nat_param", near(dn[i], d, e * amp(fam, w), 0.0, &f), || format!("{nm} derivative of the natural parameter at {w:e}: {:e}, expected {d:e}", dn[i]));
    }
    // order
    let mut o: Vec<usize> = (0..ws.len()).collect();
    o.sort_by(|a, b| ws[*a].total_cmp(&ws[*b]));
    let up = !matches!(fam.link(), Lk::Inv);
    for q in o.windows(2) {
        let (a, b) = if up { (ms[q[0]], ms[q[1]]) } else { (ms[q[1]], ms[q[0]]) };
        ctx.ok("link:monotone", a <= b * (1.0 + 4.0 * f.eps) + 2.0 * f.min, || format!("{nm} means {} and {} at predictors {:e} and {:e}", ms[q[0]], ms[q[1]], ws[q[0]], ws[q[1]]));
        let (a, b) = if up { (nat[q[0]], nat[q[1]]) } else { (nat[q[1]], nat[q[0]]) };
        let t = if fam.link() == Lk::Cloglog { 16.0 * f.eps } else { 0.0 };
        ctx.ok("link:monotone", a <= b || a <= b + 4.0 * f.eps * b.abs() + t + 2.0 * f.min, || format!("{nm} natural parameters {} and {} at predictors {:e} and {:e}", nat[q[0]], nat[q[1]], ws[q[0]], ws[q[1]]));
    }
    // mean(link(mu)) = mu
    for _ in 0..8 {
        let mu = match fam.base() {
            Base::Bern => match r.int(0, 2) {
                0 => r.f(),
                1 => 10f64.powf(r.range(if s { -30.0 } else { -250.0 }, 0.0)),
                _ => 1.0 - 10f64.powf(r.range(if s { -6.0 } else { -14.0 }, 0.0)),
            },
            Base::Ig => 10f64.powf(if s { r.range(-15.0, 15.0) } else { r.range(-120.0, 120.0) }),
            _ => 10f64.powf(if s { r.range(-30.0, 30.0) } else { r.range(-250.0, 250.0) }),
        };
        let mu = if s { mu as f32 as f64 } else { mu };
        if fam.base() == Base::Bern && !(mu > 0.0 && mu < 1.0) {
            continue;
        }
        let w = (l.func)(mu);
        ctx.ok("link:func", (w - link_of(fam, mu)).abs() <= e * (link_of(fam, mu).abs() + 1.0 * !matches!(fam.link(), Lk::Inv | Lk::NegRec | Lk::NegRecSq | Lk::Sqrt) as u8 as f64), || format!("{nm} link at {mu:e}: {w:e}, expected {:e}", link_of(fam, mu)));
        let b = (l.inv)(w);
        let t = e * mu * amp(fam, w);
        ctx.ok("link:round-trip", (b - mu).abs() <= t, || format!("{nm} mean(link({mu:e})) = {b:e}"));
    }
    // the transformation of errors and variances is by the derivative and its square
    let n = r.int(1, 6);
    let w: Vec<f64> = (0..n).map(|_| if fam.dom() == 0 { r.range(-3.0, 3.0) } else { fam.dom() as f64 * r.logu(0.1, 10.0) }).collect();
    let err: Vec<f64> = (0..n).map(|_| r.normal()).collect();
    let var: Vec<f64> = (0..n).map(|_| r.logu(0.01, 100.0)).collect();
    let d = (l.dnat)(&w);
    let a = (l.adj)(&err, &var, &w);
    for i in 0..n {
        let (x, v) = (d[i] * err[i], d[i] * d[i] * var[i]);
        let ok = a.iter().all(|q| q.len() == n) && [a[0][i], a[2][i]].iter().all(|g| (g - x).abs() <= e * x.abs()) && [a[1][i], a[3][i]].iter().all(|g| (g - v).abs() <= e * v.abs());
        ctx.ok("link:adjust", ok, || format!("{nm} adjusted error {x} and variance {v}: got {:?}", (a[0][i], a[2][i], a[1][i], a[3][i])));
    }
    ctx.count(&format!("link-{nm}"));
}

// ---------------------------------------------------------------------------------------------
// likelihood of one observation

fn blank(fam: Fam, s: bool, x: Mat, y: Vec<f64>) -> Case {
    Case {
        fam, f32: s, x, y, off: None, vw: None, fw: None, intercept: false, std: false,
        opts: Opts::default(), xlay: Layout::C, ylay: Layout::C,
        yt: match fam.base() { Base::Pois => Yt::U32, Base::Bin(_) => Yt::U16, _ => Yt::F64 },
        order: 0, dup: 0,
    }
}

/// A response anywhere in the domain of the family.
fn any_y(r: &mut Rng, fam: Fam, s: bool) -> f64 {
    let y = match fam.base() {
        Base::Lin => if r.p(0.1) { 0.0 } else { r.normal() * r.logu(1e-3, 1e3) },
        Base::Bern => match r.int(0, 3) {
            0 => 0.0,
            1 => 1.0,
            2 => r.f(),
            _ => r.range(0.3, 0.7),
        },
        Base::Pois => match r.int(0, 3) {
            0 => 0.0,
            1 => 1.0,
            2 => r.int(2, 30) as f64,
            _ => r.int(31, 1_000_000) as f64,
        },
        Base::Bin(n) => match r.int(0, 3) {
            0 => 0.0,
            1 => n as f64,
            _ => r.int(0, n as usize) as f64,
        },
        _ => r.logu(1e-3, 1e3),
    };
    let y = if fam == Fam::LinExp { y.abs() + 0.1 } else { y };
    if s { y as f32 as f64 } else { y }
}

fn c24_like(ctx: &mut Ctx, r: &mut Rng) {
    let mut fams = Fam::KINDS.to_vec();
    fams.extend([Fam::Logit2, Fam::PoisULog, Fam::GamInv, Fam::PoisSqrt]);
    let f0 = *r.pick(&fams);
    let fam = resolve(r, f0);
    let s = has_f32(fam) && r.p(0.25);
    let y = any_y(r, fam, s);
    let f = fp(s);
    // a weak ridge keeps the fit of a boundary response finite
    let edge = matches!(fam.base(), Base::Bern | Base::Bin(_) | Base::Pois);
    let mut c = blank(fam, s, Mat { r: 1, c: 1, a: vec![1.0] }, vec![y]);
    c.opts.max_iter = Some(400);
    if edge {
        c.opts.l2 = if s { 0.03125 } else { 2f64.powi(-10) };
    }
    if r.p(0.3) {
        c.vw = Some(vec![*r.pick(&[0.25, 0.5, 2.0, 8.0])]);
    }
    if r.p(0.3) {
        c.fw = Some(vec![r.int(1, 5)]);
    }
    ctx.dump = c.dump();
    let m = match build(&c) {
        Ok(m) => m,
        Err(e) => return ctx.fail("like:build", format!("{}: {e}", c.brief())),
    };
    let fit = match m.fit(&c.opts) {
        Ok(m) => m,
        Err(e) if e.is_panic() => return ctx.fail("like:fit", format!("{}: {e}", c.brief())),
        Err(e) => return ctx.skip(&format!("like-fit-{}", e.kind())),
    };
    let w0 = fit.beta()[0];
    let lam = c.opts.l2;
    let like0 = fit.like();
    let tw = c.tw()[0];
    let mut pts: Vec<(f64, f64)> = vec![];
    let lim = match fam.link() {
        _ if fam.canonical() && matches!(fam.base(), Base::Bern | Base::Bin(_) | Base::Lin) => if s { 1e15 } else { 1e100 },
        Lk::Cloglog => 1e3,
        Lk::Log => if s { 40.0 } else { 330.0 },
        Lk::Logit(_) => if s { 1e15 } else { 1e100 },
        _ => if s { 1e8 } else { 1e60 },
    };
    for _ in 0..10 {
        let near = r.p(0.4);
        let w = if near { w0 + r.normal() * *r.pick(&[0.1, 1.0, 5.0]) * if fam.dom() != 0 { 0.2 * w0.abs() } else { 1.0 } } else { any_w(r, fam, s) };
        let w = if s { w as f32 as f64 } else { w };
        let lo = if fam.dom() != 0 { 1.0 / lim } else { 0.0 };
        if !fam.in_dom(w) || w.abs() > lim || w.abs() < lo {
            continue;
        }
        if fam.link() == Lk::Cloglog && y < 1.0 && w > if s { 80.0 } else { 700.0 } {
            // e^w overflows
            continue;
        }
        let Ok(lr) = fit.lr_against(&[w]) else { return ctx.fail("like:value", format!("{} lr_test_against panicked", c.brief())) };
        let p = point(fam, y, w);
        let pen = 0.5 * lam * w * w;
        let got = like0 - 0.5 * lr + pen;
        let want = tw * p.ll;
        // the terms that cancel in y * eta - A(eta), and those of the difference itself
        let mag = tw * p.mag + 3.0 * like0.abs() + 3.0 * pen + 2.0 * want.abs();
        if !(mag < 1e-6 * f.max) {
            continue;
        }
        let tol = 64.0 * f.eps * (mag + tw * (p.ep * (y - p.mu) * w).abs()) + f.min;
        let what = format!("{} y={y:e} predictor {w:e}", c.brief());
        ctx.ok("like:value", got.is_finite() && (got - want).abs() <= tol, || format!("{what}: log-likelihood {got:e}, expected {want:e} (allowed {tol:e})"));
        pts.push((w, got));
        // score and information of the observation
        let e = 64.0 * f.eps * (3.0 + amp(fam, w));
        let srel = sat_rel(fam, s, &p);
        let (Ok(sc), Ok(fi)) = (fit.score(&[w]), fit.fisher(&[w])) else { return ctx.fail("like:score", format!("{what}: panic")) };
        let ws = tw * p.ep * (y - p.mu) - lam * w;
        let ts = e * tw * p.ep.abs() * (y.abs() + p.mu.abs()) + e * lam * w.abs() + f.min;
        if ws.abs() < 0.01 * f.max && p.ep.abs() * (y.abs() + p.mu.abs()) < 0.01 * f.max && srel.is_finite() | (fam.base() == Base::Bern) | matches!(fam.base(), Base::Bin(_)) {
            ctx.ok("like:score", sc.len() == 1 && (sc[0] - ws).abs() <= ts, || format!("{what}: score {sc:?}, expected {ws:e} (allowed {ts:e})"));
        }
        let wf = tw * p.wt + lam;
        if srel.is_finite() && e * srel < 0.1 {
            ctx.ok("like:fisher", (fi[(0, 0)] - wf).abs() <= e * (tw * p.wt * srel + lam) + f.min, || format!("{what}: information {:e}, expected {wf:e}", fi[(0, 0)]));
        } else if edge {
            // a nearly certain outcome carries information within the rounding of 1 - p
            let hi = wf + e * tw * p.mu.abs() * p.ep * p.ep + f.min;
            ctx.ok("like:fisher", fi[(0, 0)] >= 0.0 && fi[(0, 0)] <= hi * (1.0 + e), || format!("{what}: information {:e}, expected {wf:e}", fi[(0, 0)]));
        }
    }
    // the likelihood falls on either side of mean = response; the ridge-free part is compared
    let sat_w = match fam.base() {
        Base::Bern => if y <= 0.0 { f64::NEG_INFINITY } else if y >= 1.0 { f64::INFINITY } else { link_of(fam, y) },
        Base::Bin(n) => if y == 0.0 { f64::NEG_INFINITY } else if y == n as f64 { f64::INFINITY } else { link_of(fam, y) },
        Base::Pois if y == 0.0 => if fam == Fam::PoisSqrt { 0.0 } else { f64::NEG_INFINITY },
        _ => link_of(fam, y),
    };
    pts.sort_by(|a, b| a.0.total_cmp(&b.0));
    for q in pts.windows(2) {
        let mg = |w: f64| { let p = point(fam, y, w); tw * p.mag + 0.5 * lam * w * w + tw * (p.ep * (y - p.mu) * w).abs() };
        let t = 256.0 * f.eps * (mg(q[0].0) + mg(q[1].0) + like0.abs()) + f.min;
        let good = if q[1].0 <= sat_w { q[0].1 <= q[1].1 + t } else if q[0].0 >= sat_w { q[1].1 <= q[0].1 + t } else { continue };
        ctx.ok("like:monotone", good, || format!("{} y={y:e}: likelihood {:e} at {:e} and {:e} at {:e}, maximum at {sat_w:e}", c.brief(), q[0].1, q[0].0, q[1].1, q[1].0));
    }
    // means of arbitrary predictors, including extremes, via an offset
    let ws: Vec<f64> = (0..10).map(|_| any_w(r, fam, s)).collect();
    if let Ok(v) = fit.predict(&Mat::zeros(10, 1), Some(&ws), Layout::C) {
        for i in 0..10 {
            let mu = mean(fam, ws[i]);
            ctx.ok("like:mean", v.len() == 10 && near(v[i], mu, 16.0 * f.eps * amp(fam, ws[i]), 0.0, &f), || format!("{} mean at {:e}: {:e}, expected {mu:e}", c.brief(), ws[i], v[i]));
        }
    } else {
        ctx.fail("like:mean", format!("{} prediction failed", c.brief()));
    }
}

// ---------------------------------------------------------------------------------------------
// grouped designs

fn c24_group(ctx: &mut Ctx, r: &mut Rng) {
    let mut fams = Fam::KINDS.to_vec();
    fams.extend(Fam::USER);
    let f0 = *r.pick(&fams);
    let fam = resolve(r, f0);
    let s = has_f32(fam) && r.p(0.15);
    let g = r.int(1, 5);
    let n = g * r.int(2, 8) + r.int(0, 3);
    let grp: Vec<usize> = (0..n).map(|i| if i < 2 * g { i % g } else { r.int(0, g - 1) }).collect();
    let mus: Vec<f64> = (0..g)
        .map(|_| match fam.base() {
            Base::Bern => r.range(0.2, 0.8),
            Base::Bin(m) => m as f64 * r.range(0.1, 0.9),
            Base::Lin if fam == Fam::Lin => r.normal() * r.logu(0.1, 100.0),
            Base::Lin => r.range(1.0, 3.0),
            Base::Pois => r.logu(0.5, 100.0),
            _ => r.logu(0.2, 5.0),
        })
        .collect();
    let mut y: Vec<f64> = grp.iter().map(|q| draw_y(r, fam, mus[*q], 0.2)).collect();
    if s {
        y.iter_mut().for_each(|v| *v = *v as f32 as f64);
    }
    let icpt = r.p(0.5);
    let first = icpt as usize;
    let cols = g - first;
    let mut x = Mat::zeros(n, cols);
    for i in 0..n {
        if grp[i] >= first {
            x[(i, grp[i] - first)] = *r.pick(&[1.0]);
        }
    }
    // an invertible recoding of the groups leaves the fitted means alone
    if r.p(0.4) && icpt {
        for j in 0..cols {
            let (a, b) = (*r.pick(&[1.0, -2.0, 0.5, 8.0]), *r.pick(&[0.0, 1.0, -3.0]));
            for i in 0..n {
                x[(i, j)] = a * x[(i, j)] + b;
            }
        }
    }
    let mut c = blank(fam, s, x, y);
    c.intercept = icpt;
    c.std = r.p(0.5);
    if c.k() == 0 {
        return ctx.skip("no-columns");
    }
    if r.p(0.5) {
        c.vw = Some((0..n).map(|_| *r.pick(&[0.25, 0.5, 1.0, 1.5, 4.0])).collect());
    }
    if r.p(0.5) {
        c.fw = Some((0..n).map(|i| if i < 2 * g { r.int(1, 3) } else { r.int(0, 3) }).collect());
    }
    if r.p(0.4) && fam.dom() == 0 {
        let o: Vec<f64> = (0..g).map(|_| *r.pick(&[0.0, 0.25, -0.5, 1.0])).collect();
        c.off = Some(grp.iter().map(|q| o[*q]).collect());
    }
    if s {
        c.opts.max_iter = Some(200);
    }
    let tw = c.tw();
    let mut bar = vec![0.0; g];
    for q in 0..g {
        let idx: Vec<usize> = (0..n).filter(|i| grp[*i] == q).collect();
        let sw: f64 = idx.iter().map(|i| tw[*i]).sum();
        bar[q] = idx.iter().map(|i| tw[*i] * c.y[*i]).sum::<f64>() / sw;
        let inside = match fam.base() {
            Base::Bern => bar[q] > 0.02 && bar[q] < 0.98,
            Base::Bin(m) => bar[q] > 0.0 && bar[q] < m as f64,
            Base::Lin => fam == Fam::Lin || bar[q] > 0.3,
            _ => bar[q] > 0.0,
        };
        if !inside {
            return ctx.skip("boundary-group");
        }
    }
    super::formula::with_fit(ctx, &c, |ctx, _m, fit, rf| {
        let t = match Tol::new(&c, rf, conv(&c, rf)) {
            Ok(t) => t,
            Err(e) => return ctx.skip(e),
        };
        let Ok(v) = fit.predict(&c.x, c.off.as_deref(), Layout::C) else { return ctx.fail("group:mean", "prediction failed") };
        ctx.config(&c);
        if !fam.concave() {
            // scoring may stop at another stationary point of a likelihood that isn't unimodal
            if fam == Fam::LinExp {
                ctx.count("group-nonconcave");
            }
        }
        for i in 0..n {
            if tw[i] > 0.0 {
                let b = bar[grp[i]];
                ctx.close("group:mean", v[i], b, t.tmu[i] + 100.0 * t.rf.eps * (b.abs() + c.y[i].abs()), || format!("{} fitted mean of group {} of {g}", c.brief(), grp[i]));
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// equivalent models

fn c24_equiv(ctx: &mut Ctx, r: &mut Rng) {
    let of = |r: &mut Rng, f: Fam| {
        let mut pf = Prof { fams: vec![f], f32: 0.0, ..Prof::default() };
        if r.p(0.2) {
            pf.nmax = 12;
            pf.slack = 1;
        }
        let mut c = gen(r, &pf);
        if c.n() > 60 {
            c = c.sub_rows(&(0..60).collect::<Vec<_>>());
        }
        c.yt = match c.fam.base() { Base::Pois => Yt::U32, Base::Bin(_) => Yt::U16, _ => Yt::F64 };
        c
    };
    let run = |ctx: &mut Ctx, r: &mut Rng, name: &str, c: &Case, b: &Case, m: Map, list: &[St], at: bool, loo: bool| {
        pair(ctx, name, c, b, |ctx, a, b| {
            if compare(ctx, name, a, b, &m, list) {
                if at {
                    let se = a.rf.se1().unwrap();
                    let h = *r.pick(&[0.0, 0.3, 2.0]);
                    let p: Vec<f64> = a.rf.beta.iter().zip(&se).map(|(b, s)| b + h * s * r.normal()).collect();
                    compare_at(ctx, name, a, b, &m, &p);
                }
                if loo && a.c.n() <= 12 {
                    super::equiv::loo(ctx, name, a, b, &m);
                }
            }
        });
    };
    let lin_map = |c: &Case, f: f64| {
        let k = c.k();
        let mut m = Map::id(c);
        m.t = eye(k).scale(f);
        m.ti = eye(k).scale(1.0 / f);
        m
    };
    match r.int(0, 8) {
        0 | 1 => {
            // the same function under another name
            let c = of(r, Fam::Pois);
            let mut b = c.clone();
            b.fam = Fam::PoisULog;
            let m = Map::id(&c);
            run(ctx, r, "copy", &c, &b, m, &St::ALL, true, true);
        }
        2 | 3 => {
            // half the predictor
            let c = of(r, Fam::Logit);
            let mut b = c.clone();
            b.fam = Fam::Logit2;
            b.off = c.off.as_ref().map(|o| o.iter().map(|v| 0.5 * v).collect());
            b.opts.l2 *= 4.0;
            let mut m = lin_map(&c, 0.5);
            m.scale = Box::new(|s| match s {
                St::NIter => None,
                St::ResidWork | St::ResidPart => Some(0.5),
                _ => Some(1.0),
            });
            run(ctx, r, "half", &c, &b, m, &St::ALL, true, true);
        }
        4 => {
            // the sign of the predictor
            let c = of(r, Fam::GamNR);
            let mut b = c.clone();
            b.fam = Fam::GamInv;
            b.off = c.off.as_ref().map(|o| o.iter().map(|v| -v).collect());
            let mut m = lin_map(&c, -1.0);
            m.scale = Box::new(|s| match s {
                St::NIter => None,
                St::ResidWork | St::ResidPart => Some(-1.0),
                _ => Some(1.0),
            });
            run(ctx, r, "sign", &c, &b, m, &St::ALL, true, true);
        }
        5 => {
            let mut c = of(r, Fam::Logit);
            if c.y.iter().any(|y| *y != 0.0 && *y != 1.0) {
                c.y.iter_mut().for_each(|y| *y = y.round());
            }
            let mut b = c.clone();
            b.fam = Fam::Bin(1);
            b.yt = Yt::U16;
            let m = Map::id(&c);
            run(ctx, r, "binomial-1", &c, &b, m, &St::ALL, true, true);
        }
        6 => {
            // gamma regression only adds a dispersion to exponential regression
            let log = r.p(0.5);
            let c = of(r, if log { Fam::GamLog } else { Fam::GamNR });
            let mut b = c.clone();
            b.fam = if log { Fam::ExpLog } else { Fam::ExpNR };
            let mut m = Map::id(&c);
            m.scale = Box::new(|s| match s {
                St::NIter | St::Disp | St::Cov | St::WaldZ | St::PWald | St::PExact | St::Cooks | St::ResidDevStd | St::ResidPearStd | St::ResidStudent | St::ResidQuant => None,
                _ => Some(1.0),
            });
            run(ctx, r, "exp-gamma", &c, &b, m, &St::ALL, true, true);
        }
        7 => {
            // successes out of N against the single trials
            let n0 = *r.pick(&[2u16, 12]);
            let c = of(r, Fam::Bin(n0));
            let n = c.n();
            let idx: Vec<usize> = (0..2 * n).map(|i| i / 2).collect();
            let mut b = c.sub_rows(&idx);
            b.fam = Fam::Logit;
            b.yt = Yt::F64;
            let fw = c.fw.clone().unwrap_or(vec![1; n]);
            b.fw = Some((0..2 * n).map(|i| fw[i / 2] * if i % 2 == 0 { c.y[i / 2] as usize } else { n0 as usize - c.y[i / 2] as usize }).collect());
            b.y = (0..2 * n).map(|i| if i % 2 == 0 { 1.0 } else { 0.0 }).collect();
            // the moments of the columns weigh a row by its trials, and so does the number of observations
            b.std = c.std;
            if c.opts.l2 > 0.0 {
                b.std = false;
            }
            let mut c = c;
            if c.opts.l2 > 0.0 {
                c.std = false;
            }
            let m = Map::id(&c);
            run(ctx, r, "grouped", &c, &b, m, &[St::Result, St::ModelLike, St::Cov, St::Fisher, St::Lr, St::NullLike, St::Score, St::ScoreTest, St::WaldTest, St::WaldZ, St::PLr, St::PWald, St::PExact, St::TestNdf], true, false);
        }
        _ => {
            // a canonical link also works as a user's link through the general transformation
            let c = of(r, Fam::Logit);
            let mut b = c.clone();
            b.fam = Fam::Logit1;
            let m = Map::id(&c);
            run(ctx, r, "copy", &c, &b, m, &St::ALL, true, true);
        }
    }
}

fn c24(ctx: &mut Ctx, r: &mut Rng) {
    match r.int(0, 9) {
        0 | 1 => c24_link(ctx, r),
        2..=4 => c24_like(ctx, r),
        5 | 6 => c24_group(ctx, r),
        _ => c24_equiv(ctx, r),
    }
}

// ---------------------------------------------------------------------------------------------
// precision

fn c25(ctx: &mut Ctx, r: &mut Rng) {
    with_kp(8.0, || c25_in(ctx, r))
}

fn c25_in(ctx: &mut Ctx, r: &mut Rng) {
    if r.p(0.08) {
        return super::equiv::far(ctx, r, true, true);
    }
    let mut fams = Fam::KINDS.to_vec();
    fams.retain(|f| *f != Fam::Bin(0));
    fams.push(Fam::Bin(12));
    let pf = Prof { fams, f32: 1.0, nmax: if r.p(0.4) { 12 } else { 40 }, big: 0.03, wild: 0.1, ..Prof::default() };
    let mut b = gen(r, &pf);
    if b.n() > 120 {
        b = b.sub_rows(&(0..120).collect::<Vec<_>>());
    }
    if r.p(0.15) {
        b.opts.l1 = r.logu(1e-2, 5.0) as f32 as f64;
    }
    b.opts.l2 = b.opts.l2 as f32 as f64;
    b.opts.tol = None;
    b.opts.init = None;
    b.opts.max_iter = None;
    let mut a = b.clone();
    a.f32 = false;
    if matches!(a.yt, Yt::F32) && r.p(0.5) {
        a.yt = Yt::F64;
    }
    if b.opts.l1 > 0.0 {
        let m = Map::id(&a);
        a.opts.max_iter = Some(5000);
        b.opts.max_iter = Some(5000);
        ctx.dump = format!("--- double\n{}--- single\n{}", a.dump(), b.dump());
        return super::equiv::l1_pair(ctx, "precision-l1", &a, &b, &m);
    }
    ctx.dump = format!("--- double\n{}--- single\n{}", a.dump(), b.dump());
    let (ma, mb) = match (build(&a), build(&b)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(_), Err(_)) => return ctx.skip("build"),
        (x, y) => return ctx.fail("f32-build", format!("{}: build {} vs {}", b.brief(), x.is_ok(), y.is_ok())),
    };
    let Ok(fa) = ma.fit(&a.opts) else { return ctx.skip("f64-fit") };
    let ba = fa.beta();
    if ba.iter().any(|v| !v.is_finite()) {
        return ctx.skip("non-finite");
    }
    // what the problem looks like at single precision, at the double-precision optimum
    let Some(rb) = Ref::at(&b, &ba) else { return ctx.skip("domain") };
    let t = Tol::new(&b, &rb, conv(&b, &rb)).ok().filter(|t| t.r2 < 0.03);
    let what = format!("{} (f64 took {})", b.brief(), fa.n_iter());
    let fb = match mb.fit(&b.opts) {
        Ok(f) => f,
        Err(e) => {
            // neither the information nor the predictor may be lost in the rounding of single precision
            // (nor without the penalty, where the iteration begins)
            let mut bare = b.clone();
            bare.opts.l2 = 0.0;
            let bare = Ref::at(&bare, &ba).map_or(f64::INFINITY, |q| q.cond());
            let noise = rb.rt * rb.cond().max(bare);
            let sat = (0..rb.n).any(|i| rb.tw[i] > 0.0 && !(rb.srel[i] < 1e3));
            if noise < 0.01 && (t.is_some() || !sat && rb.grade < 1e3) {
                ctx.fail("f32-fits", format!("{what}: {e} (noise {noise:.1e})"));
            } else {
                ctx.skip(&format!("f32-fit-{}", e.kind()));
            }
            return;
        }
    };
    ctx.ok("f32-fits", true, String::new);
    let bb = fb.beta();
    if !ctx.ok("f32-finite", bb.iter().all(|v| v.is_finite()) && fb.like().is_finite(), || format!("{what}: {bb:?} {}", fb.like())) {
        return;
    }
    let Some(t) = t else { return ctx.skip("not-comparable") };
    for st in St::ALL {
        if !st.applies(b.fam) {
            continue;
        }
        if let (Ok(u), Ok(v)) = (fa.get(st), fb.get(st)) {
            let (u, v) = (u.flat(), v.flat());
            let tol = t.tol(st);
            for i in 0..u.len().min(v.len()) {
                if u[i].is_finite() && u[i].abs() < 1e30 && tol.get(i).is_some_and(|t| t.is_finite()) {
                    ctx.ok("f32-finite", v[i].is_finite(), || format!("{what} {st:?}[{i}]: {} vs {}", v[i], u[i]));
                }
            }
        }
    }
    pair(ctx, "precision", &a, &b, |ctx, x, y| {
        let m = Map::id(x.c);
        if compare(ctx, "precision", x, y, &m, &St::ALL) {
            let se = x.rf.se1().unwrap();
            let h = *r.pick(&[0.0, 0.3, 2.0]);
            let p: Vec<f64> = x.rf.beta.iter().zip(&se).map(|(b, s)| (b + h * s * r.normal()) as f32 as f64).collect();
            compare_at(ctx, "precision", x, y, &m, &p);
            if x.c.n() <= 12 {
                super::equiv::loo(ctx, "precision", x, y, &m);
            }
        }
    });
}
