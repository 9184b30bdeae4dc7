//! Expected value and error allowance of every reported statistic, from the reference evaluation
//! at the reported coefficients. `del` is the uncertainty of the coefficients themselves (in units
//! of their standard error at unit dispersion): zero when the library's own coefficients are used,
//! the convergence uncertainty when two fits are compared.
use crate::case::Case;
use crate::linalg::*;
use crate::refm::*;
use crate::run::{Opts, St, Val};
use crate::special::*;
use std::cell::OnceCell;

pub struct Null {
    pub like: f64,
    pub like_err: f64,
    pub sat: f64,
    /// null coefficients in the full parameter space
    pub par: Vec<f64>,
    /// full model evaluated there
    pub full: Option<Ref>,
}

pub struct Tol<'a> {
    pub c: &'a Case,
    pub rf: &'a Ref,
    pub rp: f64,
    pub rm: f64,
    pub del: f64,
    pub r2: f64,
    pub q: Vec<f64>,
    pub h: Vec<f64>,
    pub deta: Vec<f64>,
    pub tmu: Vec<f64>,
    pub rw: Vec<f64>,
    pub he: Vec<f64>,
    pub inv: Mat,
    pub se1: Vec<f64>,
    pub cov1: Mat,
    pub dev: f64,
    pub tdev: f64,
    pub phi: f64,
    pub rphi: f64,
    pub ms: Vec<f64>,
    null: OnceCell<Option<Null>>,
}

pub const KP: f64 = 100.0;
thread_local! {
    static FACTOR: std::cell::Cell<f64> = const { std::cell::Cell::new(KP) };
}
/// Rounding errors allowed per elementary operation of the reference error analysis.
pub fn kp() -> f64 {
    FACTOR.get()
}
/// Run with a smaller factor: the default is too generous to compare anything in single precision.
pub fn with_kp<T>(k: f64, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FACTOR.set(KP);
        }
    }
    let _r = Reset;
    FACTOR.set(k);
    f()
}

/// Convergence uncertainty of a fit, matching the allowance of the optimality check of C01.
pub fn conv(c: &Case, rf: &Ref) -> f64 {
    // one step solves a linear model, whatever the tolerance
    let tol = if c.fam == crate::family::Fam::Lin && c.opts.l1 == 0.0 { 0.0 } else { c.tol() };
    (2.0 * (kp() * rf.ll_err + 4.0 * tol * c.n() as f64)).sqrt()
}

impl<'a> Tol<'a> {
    pub fn new(c: &'a Case, rf: &'a Ref, del: f64) -> Result<Tol<'a>, &'static str> {
        let Some((inv, cond)) = rf.inv.clone() else { return Err("singular-information") };
        let eps = rf.eps;
        let rp = kp() * eps * rf.amp_sens();
        let n = rf.n;
        // error of the information matrix due to saturated rows, relative to the matrix itself
        let he: Vec<f64> = (0..n)
            .map(|i| {
                if !(rf.tw[i] > 0.0) {
                    return 0.0;
                }
                let x = rf.xd.row(i);
                let h = rf.tw[i] * rf.pts[i].wt * dot(x, &inv.mulv(x)).max(0.0);
                let mut e = (kp() * eps * rf.srel[i]).min(1.0) * h;
                if matches!(rf.fam.base(), crate::family::Base::Bern | crate::family::Base::Bin(_)) {
                    // absolute rounding of 1 - p
                    e = e.max(kp() * eps * rf.tw[i] * rf.pts[i].mu * rf.pts[i].ep.powi(2) * dot(x, &inv.mulv(x)).max(0.0));
                } else if !rf.srel[i].is_finite() {
                    e = f64::INFINITY;
                }
                e
            })
            .collect();
        let rsat: f64 = he.iter().sum();
        let rm = kp() * rf.rt * cond + rp + rsat + kp() * eps * if rf.k > 1 { rf.grade } else { 1.0 };
        if !(rm < 1e-3) {
            return Err("ill-conditioned");
        }
        let (mut q, mut h, mut deta, mut tmu, mut rw) = (vec![0.0; n], vec![0.0; n], vec![0.0; n], vec![0.0; n], vec![0.0; n]);
        let mut worst: f64 = 0.0;
        for i in 0..n {
            let x = rf.xd.row(i);
            q[i] = dot(x, &inv.mulv(x)).max(0.0).sqrt();
            let p = &rf.pts[i];
            h[i] = rf.tw[i] * p.wt * q[i] * q[i];
            let s = if rf.fam.in_dom(rf.eta[i]) { sens(rf.fam, rf.eta[i]) } else { f64::INFINITY };
            deta[i] = kp() * eps * (rf.amp[i] + rf.eta[i].abs()) + del * q[i];
            rw[i] = kp() * eps + 4.0 * s * deta[i];
            tmu[i] = p.dmu.abs() * deta[i] + kp() * eps * p.mu.abs();
            if rf.tw[i] > 0.0 {
                worst = worst.max(rw[i]);
            }
            let e = kp() * eps * rf.srel[i];
            rw[i] = if e < 0.1 && rf.pts[i].mu.is_finite() { rw[i] + e } else { f64::INFINITY };
        }
        if !(worst < 0.1) {
            return Err("sensitive-to-convergence");
        }
        let r2 = rm + worst;
        let cov1 = rf.cov1().unwrap();
        let se1: Vec<f64> = (0..rf.k).map(|j| inv[(j, j)].max(0.0).sqrt()).collect();
        let dev = rf.deviance();
        let sd = rf.score_data();
        let gd = 2.0 * dot(&sd, &inv.mulv(&sd)).max(0.0).sqrt();
        let tdev = kp() * rf.dev_err() + del * gd + del * del;
        let phi = rf.dispersion();
        let rphi = if rf.fam.dispersed() { tdev / dev + kp() * eps * rf.n_eff / (rf.n_eff - rf.k as f64).abs() } else { 0.0 };
        Ok(Tol { c, rf, rp, rm, del, r2, q, h, deta, tmu, rw, he, inv, se1, cov1, dev, tdev, phi, rphi, ms: c.col_stats().0, null: OnceCell::new() })
    }
    pub fn e(&self, i: usize) -> f64 {
        self.rf.y[i] - self.rf.pts[i].mu
    }
    fn te(&self, i: usize) -> f64 {
        self.tmu[i] + kp() * self.rf.eps * self.rf.y[i].abs()
    }
    fn pear(&self, i: usize) -> f64 {
        (self.rf.vw[i] / self.rf.pts[i].v).sqrt() * self.e(i)
    }
    fn tpear(&self, i: usize) -> f64 {
        (self.rf.vw[i] / self.rf.pts[i].v).sqrt() * self.te(i) + self.rw[i] * self.pear(i).abs()
    }
    /// deviance term with variance weight
    fn d2(&self, i: usize) -> f64 {
        self.rf.vw[i] * self.rf.pts[i].dev
    }
    fn bern(&self) -> bool {
        matches!(self.rf.fam.base(), crate::family::Base::Bern | crate::family::Base::Bin(_))
    }
    fn td2(&self, i: usize) -> f64 {
        let p = &self.rf.pts[i];
        if !self.bern() && !self.rf.srel[i].is_finite() {
            return f64::INFINITY;
        }
        self.rf.vw[i] * (2.0 * kp() * self.rf.eps * (p.mag + 1.0) + 2.0 * (self.e(i) * p.ep).abs() * self.deta[i] + 2.0 * p.wt * self.deta[i] * self.deta[i])
    }
    /// allowance of a signed root of `d2` with allowance `t`
    fn troot(d2: f64, t: f64) -> f64 {
        if d2 > t { d2.sqrt() - (d2 - t).sqrt() } else { (d2 + t).sqrt() + d2.sqrt() }
    }
    fn om(&self, i: usize) -> f64 {
        1.0 - self.h[i]
    }
    /// relative error of 1 - h
    fn rom(&self, i: usize) -> f64 {
        let r = (self.r2 * self.h[i].max(0.0) + self.he[i]) / self.om(i).abs() + kp() * self.rf.eps / self.om(i).abs();
        if r > 0.3 || self.om(i) <= 0.0 { f64::INFINITY } else { r }
    }
    fn hrat(&self, i: usize) -> f64 {
        self.h[i] / self.om(i)
    }
    pub fn sum_log_w(&self) -> f64 {
        (0..self.rf.n).filter(|i| self.rf.fw[*i] > 0.0).map(|i| self.rf.fw[i] * self.rf.vw[i].ln()).sum()
    }
    fn abs_log_w(&self) -> f64 {
        (0..self.rf.n).filter(|i| self.rf.fw[*i] > 0.0).map(|i| self.rf.fw[i] * self.rf.vw[i].ln().abs()).sum()
    }
    fn tlike(&self) -> f64 {
        kp() * self.rf.ll_err + self.del * self.del
    }
    fn sat(&self) -> f64 {
        (0..self.rf.n).filter(|i| self.rf.tw[*i] > 0.0).map(|i| self.rf.tw[i] * self.rf.pts[i].sat).sum()
    }
    pub fn null(&self) -> Option<&Null> {
        self.null.get_or_init(|| null_of(self.c)).as_ref()
    }
    fn disp_loo(&self, i: usize) -> (f64, f64) {
        let rf = self.rf;
        let p2 = self.pear(i).powi(2);
        let hr = self.hrat(i);
        let num = self.dev - rf.fw[i] * (self.d2(i) + hr * p2);
        let tp2 = 2.0 * self.pear(i).abs() * self.tpear(i) + self.tpear(i).powi(2);
        let tnum = self.tdev + rf.fw[i] * (self.td2(i) + hr * tp2 + hr * (self.r2 + self.rom(i)) * p2) + kp() * rf.eps * self.dev;
        let den = if self.c.vw.is_none() {
            if self.c.fw.is_none() { rf.n_obs - rf.k as f64 - 1.0 } else { rf.n_obs - rf.k as f64 - rf.fw[i] }
        } else {
            let (mut a, mut b) = (0.0, 0.0);
            for j in 0..rf.n {
                let f = if j == i { 0.0 } else { rf.fw[j] };
                a += f * rf.vw[j];
                b += f * rf.vw[j] * rf.vw[j];
            }
            a - b / a * rf.k as f64
        };
        let tden = kp() * rf.eps * rf.sum_w * (1.0 + rf.k as f64);
        if den <= 0.0 || tden > 0.1 * den || tnum > 0.3 * num {
            return (num / den, f64::INFINITY);
        }
        (num / den, (tnum + num * tden / den) / den)
    }
    fn dev_loo(&self, i: usize) -> (f64, f64) {
        let p2 = self.pear(i).powi(2);
        let hr = self.hrat(i);
        let tp2 = 2.0 * self.pear(i).abs() * self.tpear(i) + self.tpear(i).powi(2);
        let g = hr * (hr + 2.0);
        (self.d2(i) + g * p2, self.td2(i) + g * tp2 + 4.0 * g * (self.r2 + self.rom(i)) * (1.0 + hr) * p2)
    }
    fn student(&self, i: usize) -> (f64, f64) {
        let (d, td) = self.dev_loo(i);
        let s = self.e(i).signum();
        let root = Self::troot(d, td);
        if !self.rf.fam.dispersed() {
            return (s * d.sqrt(), root);
        }
        let (f, tf) = self.disp_loo(i);
        if !(f > 0.0) {
            return (f64::NAN, f64::INFINITY);
        }
        let v = (d / f).sqrt();
        (s * v, root / f.sqrt() + v * tf / f)
    }
    /// quantile residual of row i at the given mean and dispersion
    fn quant_at(&self, i: usize, mu: f64, phi: f64, rel: f64) -> f64 {
        let rf = self.rf;
        let (y, w) = (rf.y[i], rf.vw[i]);
        let (c, s) = match rf.fam.base() {
            crate::family::Base::Lin => return (y - mu) / (phi / w).sqrt(),
            crate::family::Base::Expo => ((-(-y / mu).exp_m1()), (-y / mu).exp()),
            _ => gamma_pq(w / phi, w / phi * y / mu),
        };
        if c < s {
            return normal_quantile(c * (1.0 + rel), s);
        }
        // the survival function of the gamma distribution is formed as one minus the CDF here
        let (a, x) = (w / phi, w / phi * y / mu);
        let gam = rf.fam.base() == crate::family::Base::Gam && rel != 0.0 && x <= a.max(1.0) + 1.0;
        let lost = if gam { 5e-15 * (2.0 + a.ln().abs()) * rel.signum() } else { 0.0 };
        normal_quantile(c, s * (1.0 - rel) - lost)
    }
    fn quant(&self, i: usize) -> (f64, f64) {
        let rf = self.rf;
        let bad = (f64::NAN, f64::INFINITY);
        let p = &rf.pts[i];
        let (mu, tm) = (p.mu, self.tmu[i]);
        if !(rf.vw[i] > 0.0) || rf.fam.dispersed() && !(self.rphi < 0.1 && self.phi > 0.0) || !(tm.is_finite()) {
            return bad;
        }
        let q = self.quant_at(i, mu, self.phi, 0.0);
        if rf.fam.base() == crate::family::Base::Lin {
            let s = (self.phi / rf.vw[i]).sqrt();
            // beyond this the tail probability is not representable
            if q.abs() > 37.0 {
                return bad;
            }
            return (q, self.te(i) / s + q.abs() * self.rphi + 1e-9 * (1.0 + q.abs()) + kp() * rf.eps * q.abs());
        }
        if !(tm < 0.1 * mu) || !(mu > 0.0) {
            return bad;
        }
        let a = rf.vw[i] / self.phi;
        // tails and logarithms of the gamma function in double precision
        let rel = 1e-12 + 3e-14 * a * (2.0 + a.ln().abs()) + 1e-14 * (rf.y[i] / mu).ln().abs() * a;
        // statrs forms the exponential CDF as 1 - exp(-y/mu)
        let rel = if rf.fam.base() == crate::family::Base::Expo { rel + 4e-16 * (1.0 + mu / rf.y[i]) } else { rel };
        // statrs takes the CDF to be zero for tiny arguments
        let tiny = rf.fam.base() == crate::family::Base::Gam && (a < 1e-13 || a * rf.y[i] / mu < 1e-13);
        if !(rel < 0.01) || a > 1e8 || tiny {
            return bad;
        }
        let mut t: f64 = 0.0;
        let tphi = self.phi * (self.rphi + kp() * rf.eps);
        for (m, f, e) in [(mu + tm, self.phi, 0.0), (mu - tm, self.phi, 0.0), (mu, self.phi + tphi, 0.0), (mu, self.phi - tphi, 0.0), (mu, self.phi, rel), (mu, self.phi, -rel)] {
            t += (self.quant_at(i, m, f, e) - q).abs();
        }
        let ty = (1e-9 + kp() * rf.eps) * (1.0 + q.abs());
        if q.is_nan() || t.is_nan() || t > 0.5 { bad } else { (q, t + ty) }
    }
    /// expected value; None when the statistic has no reference here
    pub fn expect(&self, st: St) -> Option<Val> {
        let rf = self.rf;
        let (n, k) = (rf.n, rf.k);
        let rows = |f: &dyn Fn(usize) -> f64| Val::V((0..n).map(f).collect());
        let matf = |r: usize, c: usize, f: &dyn Fn(usize, usize) -> f64| {
            let mut m = Mat::zeros(r, c);
            for i in 0..r {
                for j in 0..c {
                    m[(i, j)] = f(i, j);
                }
            }
            Val::M(m)
        };
        Some(match st {
            St::Result => Val::V(rf.beta.clone()),
            St::ModelLike => Val::S(rf.like()),
            St::Aic => Val::S(self.dev + 2.0 * k as f64 - 2.0 * self.sum_log_w()),
            St::Bic => Val::S(k as f64 * rf.n_obs.ln() - 2.0 * rf.like() - 2.0 * self.sum_log_w()),
            St::Dev => Val::S(self.dev),
            St::Disp => Val::S(self.phi),
            St::Ndf => Val::S(rf.n_obs - k as f64),
            St::TestNdf => Val::S(self.c.p() as f64),
            St::Cov => Val::M(self.cov1.scale(self.phi)),
            St::Fisher => Val::M(rf.freg.clone()),
            St::Score => Val::V(rf.score()),
            St::WaldZ => Val::V((0..k).map(|j| rf.beta[j] / (self.phi * self.cov1[(j, j)]).sqrt()).collect()),
            St::PWald => {
                let z = self.expect(St::WaldZ)?;
                Val::V(z.v().iter().map(|z| self.p_wald(z.abs())).collect())
            }
            St::Hat => matf(n, n, &|i, j| rf.pts[i].dmu * dot(rf.xd.row(i), &self.inv.mulv(rf.xd.row(j))) * rf.tw[j] * rf.pts[j].ep),
            St::Lev => Val::V(self.h.clone()),
            St::Infl => matf(n, k, &|i, j| self.inv.mulv(rf.xd.row(i))[j] * rf.tw[i] * rf.pts[i].ep * self.e(i) / self.om(i)),
            St::Cooks => rows(&|i| self.pear(i).powi(2) * self.h[i] / (k as f64 * self.phi * self.om(i).powi(2))),
            St::ResidResp => rows(&|i| self.e(i)),
            St::ResidPear => rows(&|i| self.pear(i)),
            St::ResidDev => rows(&|i| self.e(i).signum() * self.d2(i).sqrt()),
            St::ResidPearStd => rows(&|i| self.pear(i) / (self.phi * self.om(i)).sqrt()),
            St::ResidDevStd => rows(&|i| self.e(i).signum() * (self.d2(i) / (self.phi * self.om(i))).sqrt()),
            St::ResidWork => rows(&|i| self.e(i) / rf.pts[i].dmu),
            St::ResidStudent => rows(&|i| self.student(i).0),
            St::ResidPart => {
                let s = self.c.intercept as usize;
                matf(n, self.c.p(), &|i, j| {
                    let m = if self.c.intercept { self.ms[j] } else { 0.0 };
                    self.e(i) / rf.pts[i].dmu + (self.c.x[(i, j)] - m) * rf.beta[j + s]
                })
            }
            St::Rss => Val::S((0..n).filter(|i| rf.tw[*i] > 0.0).map(|i| rf.tw[i] * self.e(i).powi(2)).sum()),
            St::NullLike => Val::S(self.null()?.like),
            St::Lr => Val::S(2.0 * (rf.like() - self.null()?.like)),
            St::RSq => Val::S(1.0 - self.dev / (2.0 * (self.sat() - self.null()?.like))),
            St::PLr => Val::S(self.p_lr(2.0 * (rf.like() - self.null()?.like))),
            St::ScoreTest => {
                let f = self.null()?.full.as_ref()?;
                let g = f.score();
                Val::S(dot(&g, &f.inv.as_ref()?.0.mulv(&g)))
            }
            St::WaldTest => {
                let nl = self.null()?;
                let f = nl.full.as_ref()?;
                let d: Vec<f64> = rf.beta.iter().zip(&nl.par).map(|(a, b)| a - b).collect();
                Val::S(dot(&d, &f.freg.mulv(&d)))
            }
            St::ResidQuant => rows(&|i| self.quant(i).0),
            St::NIter | St::LooExact | St::PExact => return None,
        })
    }
    pub fn p_lr(&self, stat: f64) -> f64 {
        if self.c.p() == 0 { 1.0 } else { chi2_sf(stat, self.c.p() as f64) }
    }
    pub fn p_wald(&self, z: f64) -> f64 {
        if self.rf.fam.dispersed() {
            let d = self.rf.ndf();
            if d > 0.0 { t_two_sided(z, d) } else { f64::NAN }
        } else {
            2.0 * normal_cs(z).1
        }
    }
    /// element-wise allowance, flattened like the value; infinite where no verdict is possible
    pub fn tol(&self, st: St) -> Vec<f64> {
        let rf = self.rf;
        let (n, k) = (rf.n, rf.k);
        let eps = rf.eps;
        let rows = |f: &dyn Fn(usize) -> f64| (0..n).map(f).map(|t: f64| if t.is_nan() { f64::INFINITY } else { t }).collect::<Vec<f64>>();
        let matf = |r: usize, c: usize, f: &dyn Fn(usize, usize) -> f64| {
            let mut v = vec![];
            for i in 0..r {
                for j in 0..c {
                    let t = f(i, j);
                    v.push(if t.is_nan() { f64::INFINITY } else { t });
                }
            }
            v
        };
        let inf = f64::INFINITY;
        let phi_ok = |t: f64| if !rf.fam.dispersed() || (self.rphi < 0.1 && self.phi > 0.0) { t } else { inf };
        let s0 = self.c.intercept as usize;
        let bmag = |j: usize| {
            let mut m = rf.beta[j].abs();
            if self.c.intercept && j == 0 {
                m += (0..self.c.p()).map(|l| (self.ms[l] * rf.beta[l + 1]).abs()).sum::<f64>();
            }
            m
        };
        match st {
            St::Result => (0..k).map(|j| self.del * self.se1[j] * (1.0 + self.r2) + kp() * eps * bmag(j)).collect(),
            St::ModelLike => vec![self.tlike()],
            St::Aic => vec![self.tdev + 3.0 * kp() * eps * (self.abs_log_w() + k as f64)],
            St::Bic => vec![2.0 * self.tlike() + 3.0 * kp() * eps * (self.abs_log_w() + k as f64 * (1.0 + rf.n_obs.ln()))],
            St::Dev => vec![self.tdev],
            St::Disp => vec![if rf.fam.dispersed() { if rf.n_eff - rf.k as f64 > 1e-6 * rf.n_eff { self.tdev / rf.disp_den() + self.phi * kp() * eps * rf.n_eff / (rf.n_eff - k as f64) } else { inf } } else { 0.0 }],
            St::Ndf | St::TestNdf | St::NIter => vec![1e-9 * (1.0 + rf.n_obs)],
            St::Cov => matf(k, k, &|i, j| phi_ok(self.phi * self.se1[i] * self.se1[j] * (6.0 * self.r2 + self.rphi))),
            St::Fisher => matf(k, k, &|i, j| (self.r2 - self.rm + self.rp + kp() * eps * rf.rt / rf.eps) * (rf.freg[(i, i)] * rf.freg[(j, j)]).sqrt()),
            St::Score => {
                let se = rf.score_err();
                (0..k).map(|j| kp() * (se[j] + crate::props::formula::te_mix(self.c, rf, j)) + self.del * rf.freg[(j, j)].sqrt()).collect()
            }
            St::WaldZ => (0..k)
                .map(|j| {
                    let s = (self.phi * self.cov1[(j, j)]).sqrt();
                    let a = self.se1[j].powi(2) / self.cov1[(j, j)];
                    if !(a * self.r2 < 0.1) {
                        return inf;
                    }
                    phi_ok((self.del * self.se1[j] + kp() * eps * bmag(j)) / s + (rf.beta[j] / s).abs() * (self.r2 * 2.0 * a + self.rphi))
                })
                .map(|t| if t.is_nan() { inf } else { t })
                .collect(),
            St::PWald => {
                let z = self.expect(St::WaldZ).unwrap();
                let t = self.tol(St::WaldZ);
                // tail probabilities of the library are accurate to about 1e-10
                (0..k).map(|j| spread(z.v()[j].abs(), t[j], 0.0, &|z| self.p_wald(z)) + (2e-9 + 2.0 * eps) * self.p_wald(z.v()[j].abs()) + if eps > 1e-10 { 1e-44 } else { 0.0 }).map(|t| if t.is_nan() { inf } else { t }).collect()
            }
            St::Hat => matf(n, n, &|i, j| 2.0 * (self.r2 + self.rw[i] + self.rw[j]) * (rf.pts[i].dmu * rf.tw[j] * rf.pts[j].ep).abs() * self.q[i] * self.q[j]),
            St::Lev => rows(&|i| if rf.pts[i].mu.is_finite() && (rf.srel[i].is_finite() || self.bern() && rf.eta[i].abs() < if rf.eps > 1e-10 { 20.0 } else { 100.0 }) { 2.0 * (self.r2 + self.rw[i].min(0.1)) * self.h[i] + self.he[i] } else { inf }),
            St::Infl => matf(n, k, &|i, j| {
                let u = self.se1[j] * self.q[i] * rf.tw[i] * rf.pts[i].ep.abs() / self.om(i);
                u * (self.te(i) + self.e(i).abs() * (8.0 * self.r2 + 2.0 * self.rw[i] + 4.0 * self.rom(i)))
            }),
            St::Cooks => rows(&|i| {
                let p = self.pear(i).abs();
                let f = self.h[i] / (k as f64 * self.phi * self.om(i).powi(2));
                phi_ok(f * (2.0 * p * self.tpear(i) + self.tpear(i).powi(2) + p * p * (2.0 * self.r2 + self.rw[i] + 2.0 * self.rom(i) + self.rphi)))
            }),
            St::ResidResp => rows(&|i| self.te(i)),
            St::ResidPear => rows(&|i| self.tpear(i)),
            St::ResidDev => rows(&|i| Self::troot(self.d2(i), self.td2(i))),
            St::ResidPearStd => rows(&|i| phi_ok((self.tpear(i) + self.pear(i).abs() * (self.rom(i) + self.rphi)) / (self.phi * self.om(i)).sqrt())),
            St::ResidDevStd => rows(&|i| phi_ok((Self::troot(self.d2(i), self.td2(i)) + self.d2(i).sqrt() * (self.rom(i) + self.rphi)) / (self.phi * self.om(i)).sqrt())),
            St::ResidWork => rows(&|i| (self.te(i) + self.e(i).abs() * self.rw[i]) / rf.pts[i].dmu.abs()),
            St::ResidStudent => rows(&|i| self.student(i).1),
            St::ResidPart => {
                let w = self.tol(St::ResidWork);
                matf(n, self.c.p(), &|i, j| {
                    let m = if self.c.intercept { self.ms[j] } else { 0.0 };
                    let b = j + s0;
                    w[i] + kp() * eps * (self.c.x[(i, j)].abs() + m.abs()) * rf.beta[b].abs() + self.del * self.se1[b] * (self.c.x[(i, j)] - m).abs()
                })
            }
            St::Rss => vec![(0..n).filter(|i| rf.tw[*i] > 0.0).map(|i| rf.tw[i] * (2.0 * self.e(i).abs() * (kp() * eps * (rf.y[i].abs() + rf.pts[i].mu.abs() + rf.amp[i]) ) + (kp() * eps * (rf.y[i].abs() + rf.amp[i])).powi(2))).sum::<f64>() + self.tdev],
            St::NullLike => vec![self.null().map(|m| m.like_err).unwrap_or(inf)],
            St::Lr => vec![self.null().map(|m| 2.0 * (m.like_err + self.tlike())).unwrap_or(inf)],
            St::RSq => vec![self
                .null()
                .map(|m| {
                    let d0 = 2.0 * (self.sat() - m.like);
                    let t0 = 2.0 * m.like_err + self.tdev;
                    if t0 > 0.1 * d0 { inf } else { self.tdev / d0 + self.dev / d0 * 2.0 * t0 / d0 }
                })
                .unwrap_or(inf)],
            St::PLr => vec![self
                .null()
                .map(|m| spread(2.0 * (rf.like() - m.like), 2.0 * (m.like_err + self.tlike()), f64::NEG_INFINITY, &|s| self.p_lr(s)) + 2.0 * eps * self.p_lr(2.0 * (rf.like() - m.like)) + if eps > 1e-10 { 1e-44 } else { 0.0 })
                .unwrap_or(inf)],
            St::ScoreTest => {
                let f = || {
                    let nl = self.null()?;
                    let fr = nl.full.as_ref()?;
                    let (inv, cond) = fr.inv.as_ref()?;
                    let stat = self.expect(St::ScoreTest)?.s();
                    let se = fr.score_err();
                    let ue: f64 = (0..k).map(|j| kp() * se[j] * inv[(j, j)].sqrt()).sum::<f64>() * cond.sqrt();
                    let sh = self.null_shift(fr);
                    let rel = kp() * fr.rt * cond + sh.1;
                    if !(rel < 0.05) {
                        return None;
                    }
                    let t = ue + sh.0;
                    Some(2.0 * stat.sqrt() * t + t * t + stat * 2.0 * rel)
                };
                vec![f().unwrap_or(inf)]
            }
            St::WaldTest => {
                let f = || {
                    let nl = self.null()?;
                    let fr = nl.full.as_ref()?;
                    let stat = self.expect(St::WaldTest)?.s();
                    let tr: f64 = (0..k).map(|i| (0..k).map(|j| fr.freg[(i, j)] * self.inv[(j, i)]).sum::<f64>()).sum::<f64>().max(0.0);
                    let sh = self.null_shift(fr);
                    let round: f64 = (0..k).map(|j| kp() * eps * (bmag(j) + nl.par[j].abs()) * fr.freg[(j, j)].sqrt()).sum();
                    let t = self.del * tr.sqrt() + sh.0 + round;
                    let rel = kp() * fr.rt + sh.1;
                    // rounding of the information when transformed between scales
                    let fs = crate::props::formula::sat_noise(self.c, fr);
                    let d: Vec<f64> = rf.beta.iter().zip(&nl.par).map(|(a, b)| (a - b).abs()).collect();
                    let mut mix = 0.0;
                    for i in 0..k {
                        for j in 0..k {
                            mix += d[i] * d[j] * (kp() * fr.rt * (fr.freg[(i, i)] * fr.freg[(j, j)]).sqrt() * crate::props::formula::mix2(self.c, fr, i, j) + fs[(i, j)]);
                        }
                    }
                    Some(2.0 * stat.sqrt() * t + t * t + stat * 2.0 * rel + mix)
                };
                vec![f().unwrap_or(inf)]
            }
            St::ResidQuant => rows(&|i| self.quant(i).1),
            St::LooExact | St::PExact => vec![],
        }
    }
    /// (shift in F-norm, relative change of F) caused by the uncertainty of the null intercept.
    fn null_shift(&self, fr: &Ref) -> (f64, f64) {
        let Some(nl) = self.null() else { return (0.0, 0.0) };
        if !self.c.intercept {
            return (0.0, 0.0);
        }
        let exact = self.c.off.is_none();
        let f00 = fr.fdata[(0, 0)];
        let dl = if exact { kp() * self.rf.eps * (1.0 + nl.par[0].abs()) * f00.sqrt() } else { (2.0 * nl.like_err + 8.0 * self.rf.eps * self.rf.n as f64).sqrt() };
        let de = dl / f00.sqrt();
        let s = (0..fr.n).filter(|i| fr.tw[*i] > 0.0).map(|i| sens(fr.fam, fr.eta[i])).fold(0.0, f64::max);
        (dl, 4.0 * s * de)
    }
}

/// How much a decreasing tail function changes when its argument moves by `t`.
pub fn spread(x: f64, t: f64, lo: f64, f: &dyn Fn(f64) -> f64) -> f64 {
    if !t.is_finite() {
        return f64::INFINITY;
    }
    let (a, b) = (f((x - t).max(lo)), f(x + t));
    let d = (a - b).abs();
    if d.is_nan() { f64::INFINITY } else { d + 1e-11 * a + 1e-300 }
}

impl Ref {
    pub fn amp_sens(&self) -> f64 {
        self.rt / self.eps
    }
}

/// The intercept-only model (no coefficients without an intercept), solved by the reference.
pub fn null_of(c: &Case) -> Option<Null> {
    let mut z = c.clone();
    z.x = Mat::zeros(c.n(), 0);
    z.opts = Opts::default();
    let start = if c.intercept {
        let tw = c.tw();
        let sw: f64 = tw.iter().sum();
        let yb = (0..c.n()).filter(|i| tw[*i] > 0.0).map(|i| tw[i] * c.y[i]).sum::<f64>() / sw;
        let mut b = crate::family::link_of(c.fam, yb);
        if let Some(o) = &c.off {
            b -= (0..c.n()).filter(|i| tw[*i] > 0.0).map(|i| tw[i] * o[i]).sum::<f64>() / sw;
        }
        vec![b]
    } else {
        vec![]
    };
    if start.iter().any(|b| !b.is_finite()) {
        return None;
    }
    let mut rf = Ref::at(&z, &start)?;
    if c.intercept && c.off.is_some() {
        rf = improve(&z, &start, 60)?;
    }
    if !rf.like().is_finite() {
        return None;
    }
    let mut par = vec![0.0; c.k()];
    if c.intercept {
        par[0] = rf.beta[0];
    }
    let sat = (0..rf.n).filter(|i| rf.tw[*i] > 0.0).map(|i| rf.tw[i] * rf.pts[i].sat).sum();
    let full = Ref::at(c, &par);
    Some(Null { like: rf.like(), like_err: kp() * rf.ll_err + 4.0 * c.eps() * c.n() as f64, sat, par, full })
}

/// Compare a reported statistic with its expectation.
pub fn judge(ctx: &mut crate::ctx::Ctx, oracle: &str, got: &Val, want: &Val, tol: &[f64], what: &str) -> bool {
    let (g, w) = (got.flat(), want.flat());
    if g.len() != w.len() {
        ctx.fail(oracle, format!("{what}: {} values, expected {}", g.len(), w.len()));
        return false;
    }
    if tol.len() != w.len() {
        panic!("harness: allowance length for {oracle}: {} vs {}", tol.len(), w.len());
    }
    for i in 0..w.len() {
        // beyond the range of single precision
        let beyond = w[i].abs() > 1e38 && g[i].is_infinite() && g[i].signum() == w[i].signum();
        if !tol[i].is_finite() || !w[i].is_finite() || beyond {
            ctx.skip(&format!("{oracle}-element"));
            continue;
        }
        if !ctx.close(oracle, g[i], w[i], tol[i], || format!("{what} [{i}]")) {
            return false;
        }
    }
    true
}
