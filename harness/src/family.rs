//! Independent definitions of the families and links, written from the textbook formulas.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Base {
    Lin,
    Bern,
    Pois,
    Bin(u16),
    Expo,
    Gam,
    Ig,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Lk {
    Id,
    Log,
    Inv,
    Sqrt,
    NegRec,
    NegRecSq,
    /// logit with the predictor multiplied by 1 or 2
    Logit(u8),
    Cloglog,
    Cauchit,
}

/// A family together with a link as the library offers it (or as a user of it would define it).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fam {
    Lin,
    Logit,
    Cloglog,
    Pois,
    Bin(u16),
    ExpNR,
    ExpLog,
    GamNR,
    GamLog,
    IgNR,
    IgLog,
    // user-defined links
    LinExp,
    Cauchit,
    Logit2,
    Logit1,
    PoisSqrt,
    PoisULog,
    ExpSqrt,
    GamInv,
    IgInv,
}

pub const BINS: [u16; 4] = [1, 2, 12, 1000];

impl Fam {
    pub const BUILTIN: [Fam; 14] = [
        Fam::Lin, Fam::Logit, Fam::Cloglog, Fam::Pois,
        Fam::Bin(1), Fam::Bin(2), Fam::Bin(12), Fam::Bin(1000),
        Fam::ExpNR, Fam::ExpLog, Fam::GamNR, Fam::GamLog, Fam::IgNR, Fam::IgLog,
    ];
    /// One per family and link, for uniform weighting of draws.
    pub const KINDS: [Fam; 11] = [
        Fam::Lin, Fam::Logit, Fam::Cloglog, Fam::Pois, Fam::Bin(0), Fam::ExpNR, Fam::ExpLog,
        Fam::GamNR, Fam::GamLog, Fam::IgNR, Fam::IgLog,
    ];
    pub const USER: [Fam; 9] = [
        Fam::LinExp, Fam::Cauchit, Fam::Logit2, Fam::Logit1, Fam::PoisSqrt, Fam::PoisULog, Fam::ExpSqrt,
        Fam::GamInv, Fam::IgInv,
    ];
    pub fn base(self) -> Base {
        use Fam::*;
        match self {
            Lin | LinExp => Base::Lin,
            Logit | Cloglog | Cauchit | Logit2 | Logit1 => Base::Bern,
            Pois | PoisSqrt | PoisULog => Base::Pois,
            Bin(n) => Base::Bin(n),
            ExpNR | ExpLog | ExpSqrt => Base::Expo,
            GamNR | GamLog | GamInv => Base::Gam,
            IgNR | IgLog | IgInv => Base::Ig,
        }
    }
    pub fn link(self) -> Lk {
        use Fam::*;
        match self {
            Lin => Lk::Id,
            LinExp | Pois | PoisULog | ExpLog | GamLog | IgLog => Lk::Log,
            Logit | Logit1 | Bin(_) => Lk::Logit(1),
            Logit2 => Lk::Logit(2),
            Cloglog => Lk::Cloglog,
            Cauchit => Lk::Cauchit,
            PoisSqrt | ExpSqrt => Lk::Sqrt,
            ExpNR | GamNR => Lk::NegRec,
            IgNR => Lk::NegRecSq,
            GamInv | IgInv => Lk::Inv,
        }
    }
    pub fn canonical(self) -> bool {
        use Fam::*;
        matches!(self, Lin | Logit | Logit1 | Pois | PoisULog | Bin(_) | ExpNR | GamNR | IgNR)
    }
    /// eta is linear in the predictor, so that the likelihood is concave and the expected and
    /// observed information coincide.
    pub fn concave(self) -> bool {
        use Fam::*;
        self.canonical() || matches!(self, Logit2 | GamInv)
    }
    pub fn dispersed(self) -> bool {
        matches!(self.base(), Base::Lin | Base::Gam | Base::Ig)
    }
    pub fn user(self) -> bool {
        Fam::USER.contains(&self)
    }
    /// Sign of the half-line the predictor is confined to (0: whole line).
    pub fn dom(self) -> i32 {
        match self.link() {
            Lk::NegRec | Lk::NegRecSq => -1,
            Lk::Inv | Lk::Sqrt => 1,
            _ => 0,
        }
    }
    pub fn in_dom(self, w: f64) -> bool {
        match self.dom() {
            0 => true,
            s => w * s as f64 > 0.0,
        }
    }
    pub fn continuous(self) -> bool {
        matches!(self.base(), Base::Lin | Base::Gam | Base::Expo)
    }
    pub fn name(self) -> String {
        format!("{self:?}")
    }
}

/// All quantities of one observation at predictor `w`.
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub mu: f64,
    pub dmu: f64,
    /// variance function
    pub v: f64,
    /// d natural parameter / d predictor = dmu / v
    pub ep: f64,
    /// information weight dmu^2 / v
    pub wt: f64,
    /// natural log-likelihood y*eta - A(eta)
    pub ll: f64,
    /// saturated natural log-likelihood
    pub sat: f64,
    /// unit deviance
    pub dev: f64,
    /// magnitude of the terms that cancel in the library's likelihood and deviance
    pub mag: f64,
}

pub fn xlogx(x: f64) -> f64 {
    if x == 0.0 { 0.0 } else { x * x.ln() }
}

/// ln(1+e^x) without overflow.
pub fn softplus(x: f64) -> f64 {
    x.max(0.0) + (-x.abs()).exp().ln_1p()
}

pub fn mean(fam: Fam, w: f64) -> f64 {
    let n = match fam.base() {
        Base::Bin(n) => n as f64,
        _ => 1.0,
    };
    match fam.link() {
        Lk::Id => w,
        Lk::Log => w.exp(),
        Lk::Inv => 1.0 / w,
        Lk::Sqrt => w * w,
        Lk::NegRec => -1.0 / w,
        Lk::NegRecSq => (-2.0 * w).sqrt().recip(),
        Lk::Logit(k) => n / (1.0 + (-(k as f64) * w).exp()),
        Lk::Cloglog => -(-w.exp()).exp_m1(),
        Lk::Cauchit => 1f64.atan2(-w) / std::f64::consts::PI,
    }
}

/// Link function (inverse of `mean`).
pub fn link_of(fam: Fam, mu: f64) -> f64 {
    let n = match fam.base() {
        Base::Bin(n) => n as f64,
        _ => 1.0,
    };
    match fam.link() {
        Lk::Id => mu,
        Lk::Log => mu.ln(),
        Lk::Inv => 1.0 / mu,
        Lk::Sqrt => mu.sqrt(),
        Lk::NegRec => -1.0 / mu,
        Lk::NegRecSq => -0.5 / (mu * mu),
        Lk::Logit(k) => (mu / (n - mu)).ln() / k as f64,
        Lk::Cloglog => (-(-mu).ln_1p()).ln(),
        Lk::Cauchit => -1.0 / (std::f64::consts::PI * mu).tan(),
    }
}

/// Saturated natural log-likelihood.
pub fn sat(fam: Fam, y: f64) -> f64 {
    match fam.base() {
        Base::Lin => 0.5 * y * y,
        Base::Bern => xlogx(y) + xlogx(1.0 - y),
        Base::Pois => xlogx(y) - y,
        Base::Bin(n) => xlogx(y) + xlogx(n as f64 - y) - xlogx(n as f64),
        Base::Expo | Base::Gam => -1.0 - y.ln(),
        Base::Ig => 0.5 / y,
    }
}

pub fn variance(fam: Fam, mu: f64) -> f64 {
    match fam.base() {
        Base::Lin => 1.0,
        Base::Bern => mu * (1.0 - mu),
        Base::Pois => mu,
        Base::Bin(n) => mu * (n as f64 - mu) / n as f64,
        Base::Expo | Base::Gam => mu * mu,
        Base::Ig => mu * mu * mu,
    }
}

/// Unit deviance from the textbook form.
pub fn unit_dev(fam: Fam, y: f64, mu: f64) -> f64 {
    match fam.base() {
        Base::Lin => (y - mu) * (y - mu),
        Base::Bern => 2.0 * (ylog(y, mu) + ylog(1.0 - y, 1.0 - mu)),
        Base::Pois => 2.0 * (ylog(y, mu) - (y - mu)),
        Base::Bin(n) => 2.0 * (ylog(y, mu) + ylog(n as f64 - y, n as f64 - mu)),
        Base::Expo | Base::Gam => 2.0 * ((y - mu) / mu - (y / mu).ln()),
        Base::Ig => (y - mu) * (y - mu) / (mu * mu * y),
    }
}

fn ylog(y: f64, mu: f64) -> f64 {
    if y == 0.0 { 0.0 } else { y * (y / mu).ln() }
}

pub fn point(fam: Fam, y: f64, w: f64) -> Pt {
    let pi = std::f64::consts::PI;
    let mu = mean(fam, w);
    let sat = sat(fam, y);
    match fam.base() {
        Base::Bern | Base::Bin(_) => {
            let n = if let Base::Bin(n) = fam.base() { n as f64 } else { 1.0 };
            // probabilities of success and failure, both with small relative error
            let (p, q, lp, lq, dp) = match fam.link() {
                Lk::Logit(k) => {
                    let k = k as f64;
                    let (p, q) = (1.0 / (1.0 + (-k * w).exp()), 1.0 / (1.0 + (k * w).exp()));
                    (p, q, -softplus(-k * w), -softplus(k * w), k * p * q)
                }
                Lk::Cloglog => {
                    let e = w.min(700.0).exp();
                    let p = -(-e).exp_m1();
                    let q = (-e).exp();
                    let lp = if e < 1e-8 { w - 0.5 * e } else if q < 0.5 { (-q).ln_1p() } else { p.ln() };
                    (p, q, lp, -e, e * q)
                }
                Lk::Cauchit => {
                    let p = 1f64.atan2(-w) / pi;
                    let q = 1f64.atan2(w) / pi;
                    (p, q, p.ln(), q.ln(), 1.0 / (pi * (1.0 + w * w)))
                }
                _ => unreachable!(),
            };
            let term = |y: f64, l: f64| if y == 0.0 { 0.0 } else { y * l };
            let ll = term(y, lp) + term(n - y, lq);
            let dev = 2.0 * (sat - if n == 1.0 { 0.0 } else { 0.0 } - ll);
            let dev = if matches!(fam.base(), Base::Bin(_)) { 2.0 * (sat - ll) } else { dev };
            let v = n * p * q;
            let dmu = n * dp;
            let ep = match fam.link() {
                Lk::Logit(k) => k as f64,
                Lk::Cloglog => if p > 0.0 { w.min(700.0).exp() / p } else { 1.0 },
                _ => dmu / v,
            };
            let mag = sat.abs() + ll.abs() + if matches!(fam.base(), Base::Bin(_)) { y * (lp - lq).abs() + n * lq.abs() + 2.0 * xlogx(n) } else { 0.0 };
            Pt { mu, dmu, v, ep, wt: dmu * ep, ll, sat, dev: dev.max(0.0), mag }
        }
        base => {
            let v = variance(fam, mu);
            let dmu = match fam.link() {
                Lk::Id => 1.0,
                Lk::Log => mu,
                Lk::Inv => -mu * mu,
                Lk::Sqrt => 2.0 * w,
                Lk::NegRec => mu * mu,
                Lk::NegRecSq => mu * mu * mu,
                _ => unreachable!(),
            };
            let (ll, mag) = match base {
                Base::Lin => (y * mu - 0.5 * mu * mu, (y * mu).abs() + 0.5 * mu * mu + 0.5 * y * y),
                Base::Pois => {
                    let l = if y == 0.0 { 0.0 } else { y * if fam.link() == Lk::Log { w } else { mu.ln() } };
                    (l - mu, l.abs() + mu + sat.abs() + y)
                }
                Base::Expo | Base::Gam => (-y / mu - mu.ln(), y / mu + mu.ln().abs() + sat.abs() + 2.0),
                Base::Ig => (-0.5 * y / (mu * mu) + 1.0 / mu, 0.5 * y / (mu * mu) + 1.0 / mu + sat),
                _ => unreachable!(),
            };
            let ep = if fam.canonical() { 1.0 } else { dmu / v };
            Pt { mu, dmu, v, ep, wt: dmu * ep, ll, sat, dev: unit_dev(fam, y, mu).max(0.0), mag }
        }
    }
}
