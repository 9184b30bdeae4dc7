//! Reference evaluation of a model at given coefficients, written from the documented formulas
//! and independent of the library's code.
use crate::case::Case;
use crate::family::*;
use crate::linalg::*;

#[derive(Clone, Debug)]
pub struct Ref {
    pub fam: Fam,
    pub n: usize,
    pub k: usize,
    pub xd: Mat,
    pub y: Vec<f64>,
    pub off: Vec<f64>,
    pub tw: Vec<f64>,
    pub fw: Vec<f64>,
    pub vw: Vec<f64>,
    pub beta: Vec<f64>,
    pub eta: Vec<f64>,
    pub pts: Vec<Pt>,
    /// penalty scales (0 for the intercept)
    pub sg: Vec<f64>,
    pub l1: f64,
    pub l2: f64,
    pub eps: f64,
    /// magnitude of the terms summed into the predictor of each row
    pub amp: Vec<f64>,
    /// eps * (1 + largest relative sensitivity of any per-row quantity to predictor rounding)
    pub rt: f64,
    /// allowance for rounding in the data log-likelihood
    pub ll_err: f64,
    pub ll: f64,
    /// magnitude of the terms of the log-likelihood
    pub ll_mag: f64,
    pub pen: f64,
    pub pen_mag: f64,
    pub fdata: Mat,
    pub freg: Mat,
    /// inverse of freg and condition number of the equilibrated freg
    pub inv: Option<(Mat, f64)>,
    pub sum_w: f64,
    pub n_obs: f64,
    pub n_eff: f64,
    pub intercept: bool,
    /// square root of the ratio of the extreme diagonal entries of the matrix the library inverts
    pub grade: f64,
    /// relative error, in units of eps, of the variance of each row as computed from its mean
    pub srel: Vec<f64>,
}

impl Ref {
    /// None when the coefficients put a row with positive weight outside the domain of the link.
    pub fn at(c: &Case, beta: &[f64]) -> Option<Ref> {
        let xd = c.xd();
        let (n, k) = (c.n(), c.k());
        assert_eq!(beta.len(), k, "harness: coefficient vector length");
        let off = c.off_v();
        let tw = c.tw();
        let eps = c.eps();
        let (ms, _) = c.col_stats();
        let mut eta = xd.mulv(beta);
        let mut amp = vec![0.0; n];
        let mut pts = Vec::with_capacity(n);
        let (mut ll, mut ll_mag, mut ll_err) = (0.0, 0.0, 0.0);
        let mut rel: f64 = 0.0;
        // the likelihood of linear models is a pure square
        let one = if c.fam == Fam::Lin { 0.0 } else { 1.0 };
        for i in 0..n {
            eta[i] += off[i];
            let mut a = off[i].abs();
            for j in 0..k {
                let m = if c.intercept && j > 0 { ms[j - 1].abs() } else { 0.0 };
                a += (xd[(i, j)].abs() + m) * beta[j].abs();
            }
            amp[i] = a;
            let p = if tw[i] > 0.0 {
                if !c.fam.in_dom(eta[i]) || !eta[i].is_finite() {
                    return None;
                }
                point(c.fam, c.y[i], eta[i])
            } else if c.fam.in_dom(eta[i]) {
                point(c.fam, c.y[i], eta[i])
            } else {
                Pt { mu: f64::NAN, dmu: 0.0, v: 1.0, ep: 0.0, wt: 0.0, ll: 0.0, sat: 0.0, dev: 0.0, mag: 0.0 }
            };
            if tw[i] > 0.0 {
                ll += tw[i] * p.ll;
                ll_mag += tw[i] * p.mag;
                ll_err += tw[i] * (one + p.mag + ((c.y[i] - p.mu) * p.ep).abs() * a);
                rel = rel.max(a * sens(c.fam, eta[i]));
            }
            pts.push(p);
        }
        let srel: Vec<f64> = (0..n).map(|i| sat_rel(c.fam, c.f32, &pts[i])).collect();
        let sg = c.pen_scale();
        let mut pen = 0.0;
        for j in 0..k {
            let b = beta[j] * sg[j];
            pen += c.opts.l1 * b.abs() + 0.5 * c.opts.l2 * b * b;
        }
        let mut fdata = Mat::zeros(k, k);
        for i in 0..n {
            if tw[i] == 0.0 {
                continue;
            }
            let w = tw[i] * pts[i].wt;
            for a in 0..k {
                let v = w * xd[(i, a)];
                for b in 0..=a {
                    fdata[(a, b)] += v * xd[(i, b)];
                }
            }
        }
        for a in 0..k {
            for b in 0..a {
                fdata[(b, a)] = fdata[(a, b)];
            }
        }
        let mut freg = fdata.clone();
        for j in 0..k {
            freg[(j, j)] += c.opts.l2 * sg[j] * sg[j];
        }
        let mut inv = if freg.finite() { spd_inv(&freg) } else { None };
        let mut diag: Vec<f64> = (0..k).map(|j| freg[(j, j)]).collect();
        if c.std {
            let sd = c.col_stats().1;
            (0..c.p()).for_each(|j| diag[j + c.intercept as usize] /= sd[j] * sd[j]);
        }
        // Conditioning as seen by a solver working with standardised columns.
        if let (Some(v), true, true) = (inv.as_mut(), c.std, c.intercept && k > 1) {
            let (mm, sd) = c.col_stats();
            let mut fs = Mat::zeros(k, k);
            let mut row = vec![1.0; k];
            for i in 0..n {
                if tw[i] == 0.0 {
                    continue;
                }
                for j in 1..k {
                    row[j] = (xd[(i, j)] - mm[j - 1]) / sd[j - 1];
                }
                let w = tw[i] * pts[i].wt;
                for a in 0..k {
                    for b in 0..=a {
                        fs[(a, b)] += w * row[a] * row[b];
                    }
                }
            }
            for a in 0..k {
                for b in 0..a {
                    fs[(b, a)] = fs[(a, b)];
                }
                if a > 0 {
                    fs[(a, a)] += c.opts.l2;
                }
            }
            (0..k).for_each(|j| diag[j] = fs[(j, j)]);
            match spd_inv(&fs) {
                Some((_, cs)) => v.1 = v.1.max(cs),
                None => inv = None,
            }
        }
        let grade = (diag.iter().cloned().fold(0.0, f64::max) / diag.iter().cloned().fold(f64::INFINITY, f64::min)).sqrt();
        Some(Ref {
            fam: c.fam,
            n,
            k,
            xd,
            y: c.y.clone(),
            off,
            fw: c.fw_v(),
            vw: c.vw_v(),
            beta: beta.to_vec(),
            eta,
            pts,
            sg,
            l1: c.opts.l1,
            l2: c.opts.l2,
            eps,
            amp,
            rt: eps * (1.0 + rel),
            ll_err: eps * (ll_err + pen),
            ll,
            ll_mag,
            pen,
            pen_mag: pen,
            fdata,
            freg,
            inv,
            sum_w: tw.iter().sum(),
            tw,
            n_obs: c.n_obs(),
            n_eff: c.n_eff(),
            intercept: c.intercept,
            srel,
            grade,
        })
    }
    pub fn cond(&self) -> f64 {
        self.inv.as_ref().map(|v| v.1).unwrap_or(f64::INFINITY)
    }
    pub fn mu(&self) -> Vec<f64> {
        self.pts.iter().map(|p| p.mu).collect()
    }
    pub fn like(&self) -> f64 {
        self.ll - self.pen
    }
    /// Gradient of the data log-likelihood.
    pub fn score_data(&self) -> Vec<f64> {
        let mut g = vec![0.0; self.k];
        for i in 0..self.n {
            if self.tw[i] == 0.0 {
                continue;
            }
            let e = self.tw[i] * (self.y[i] - self.pts[i].mu) * self.pts[i].ep;
            for j in 0..self.k {
                g[j] += e * self.xd[(i, j)];
            }
        }
        g
    }
    /// Gradient of the penalised log-likelihood (sign convention sign(0)=0 for L1).
    pub fn score(&self) -> Vec<f64> {
        let mut g = self.score_data();
        for j in 0..self.k {
            let s = self.sg[j];
            g[j] -= self.l2 * s * s * self.beta[j];
            if self.beta[j] != 0.0 {
                g[j] -= self.l1 * s * self.beta[j].signum();
            }
        }
        g
    }
    /// Allowance (without constant) for rounding in each component of the score.
    pub fn score_err(&self) -> Vec<f64> {
        let mut g = vec![0.0; self.k];
        for i in 0..self.n {
            if self.tw[i] == 0.0 {
                continue;
            }
            let p = &self.pts[i];
            let e = self.tw[i] * ((self.y[i].abs() + p.mu.abs()) * p.ep.abs() * (1.0 + sens(self.fam, self.eta[i]) * self.amp[i]) + p.wt * self.amp[i]);
            for j in 0..self.k {
                g[j] += e * (self.xd[(i, j)].abs() + if j > 0 || !self.intercept { 0.0 } else { 0.0 });
            }
        }
        for j in 0..self.k {
            g[j] += (self.l2 * self.sg[j] * self.beta[j].abs() + self.l1) * self.sg[j];
            g[j] *= self.eps;
        }
        g
    }
    /// g^T F_reg^-1 g / 2: predicted likelihood gain of a scoring step.
    pub fn decrement(&self) -> Option<f64> {
        let (inv, _) = self.inv.as_ref()?;
        let g = self.score();
        Some(0.5 * dot(&g, &inv.mulv(&g)))
    }
    pub fn deviance(&self) -> f64 {
        (0..self.n).filter(|i| self.tw[*i] > 0.0).map(|i| self.tw[i] * self.pts[i].dev).sum()
    }
    /// allowance (no constant) for rounding in the deviance
    pub fn dev_err(&self) -> f64 {
        2.0 * self.ll_err
    }
    pub fn ndf(&self) -> f64 {
        self.n_obs - self.k as f64
    }
    pub fn dispersion(&self) -> f64 {
        if !self.fam.dispersed() {
            return 1.0;
        }
        self.deviance() / self.disp_den()
    }
    pub fn disp_den(&self) -> f64 {
        (1.0 - self.k as f64 / self.n_eff) * self.sum_w
    }
    /// Standard-error scale of each coefficient with unit dispersion: sqrt(F_reg^-1_jj).
    pub fn se1(&self) -> Option<Vec<f64>> {
        let (inv, _) = self.inv.as_ref()?;
        Some((0..self.k).map(|j| inv[(j, j)].max(0.0).sqrt()).collect())
    }
    /// F_reg^-1 F_data F_reg^-1
    pub fn cov1(&self) -> Option<Mat> {
        let (inv, _) = self.inv.as_ref()?;
        Some(if self.l2 == 0.0 { inv.clone() } else { inv.mul(&self.fdata).mul(inv) })
    }
    /// Leverage of every row: information weight times x^T F_reg^-1 x.
    pub fn leverage(&self) -> Option<Vec<f64>> {
        let (inv, _) = self.inv.as_ref()?;
        Some(
            (0..self.n)
                .map(|i| {
                    let x = self.xd.row(i);
                    self.vw[i] * self.fw[i] * self.pts[i].wt * dot(x, &inv.mulv(x))
                })
                .collect(),
        )
    }
}

/// Largest relative sensitivity of mean, variance and derivative to a change of the predictor.
pub fn sens(fam: Fam, w: f64) -> f64 {
    match fam.link() {
        Lk::Id => 1.0,
        Lk::Log => 1.0,
        Lk::Logit(k) => k as f64,
        Lk::Cloglog => 1.0 + w.exp(),
        Lk::Cauchit => 2.0,
        Lk::Inv | Lk::NegRec | Lk::Sqrt | Lk::NegRecSq => 3.0 / w.abs(),
    }
}

/// Relative error (in units of eps) of the variance when it is computed from a rounded mean: the
/// probability of failure is only known as 1 - p. Infinite where the range of the floating-point
/// type makes the products of variances and derivatives unrepresentable.
pub fn sat_rel(fam: Fam, f32: bool, p: &Pt) -> f64 {
    match fam.base() {
        Base::Bern | Base::Bin(_) => {
            let n = if let Base::Bin(n) = fam.base() { n as f64 } else { 1.0 };
            // mu * (n - mu) / n = v
            let q = p.v / p.mu;
            if p.mu == 0.0 || !(p.v > 0.0) { f64::INFINITY } else { (1.0 / q).max(if p.mu < (if f32 { 1e-28 } else { 1e-90 }) * n { f64::INFINITY } else { 1.0 }) }
        }
        _ => {
            let m = if f32 { 1e28 } else { 1e90 };
            let ok = |v: f64| v.abs() > 1.0 / m && v.abs() < m;
            if ok(p.v) && ok(p.dmu) && ok(p.wt) { 1.0 } else { f64::INFINITY }
        }
    }
}

/// Newton/scoring maximisation of the smooth penalised likelihood from `start`, by the reference
/// formulas. Returns the best point found.
pub fn improve(c: &Case, start: &[f64], iters: usize) -> Option<Ref> {
    let mut cur = Ref::at(c, start)?;
    for _ in 0..iters {
        let Some((inv, _)) = cur.inv.as_ref() else { return Some(cur) };
        let g = cur.score();
        let d = inv.mulv(&g);
        let mut step = 1.0;
        let mut moved = false;
        for _ in 0..40 {
            let b: Vec<f64> = cur.beta.iter().zip(&d).map(|(b, d)| b + step * d).collect();
            if let Some(nx) = Ref::at(c, &b) {
                if nx.like() > cur.like() {
                    cur = nx;
                    moved = true;
                    break;
                }
            }
            step *= 0.5;
        }
        if !moved {
            break;
        }
    }
    Some(cur)
}
