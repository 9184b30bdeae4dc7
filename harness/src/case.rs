//! A regression problem as handed to the library, and the generators of such problems.
use crate::family::{mean, Base, Fam, BINS};
use crate::linalg::Mat;
use crate::rng::Rng;
use crate::run::{has_f32, Opts, Yt};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Layout {
    C,
    Fo,
    Strided,
    Rev,
    FStrided,
}
pub const LAYOUTS: [Layout; 5] = [Layout::C, Layout::Fo, Layout::Strided, Layout::Rev, Layout::FStrided];

#[derive(Clone, Debug)]
pub struct Case {
    pub fam: Fam,
    pub f32: bool,
    /// raw design without intercept column
    pub x: Mat,
    pub y: Vec<f64>,
    pub off: Option<Vec<f64>>,
    pub vw: Option<Vec<f64>>,
    pub fw: Option<Vec<usize>>,
    pub intercept: bool,
    pub std: bool,
    pub opts: Opts,
    pub xlay: Layout,
    pub ylay: Layout,
    pub yt: Yt,
    pub order: u8,
    pub dup: u8,
}

impl Case {
    pub fn n(&self) -> usize {
        self.y.len()
    }
    pub fn p(&self) -> usize {
        self.x.c
    }
    pub fn k(&self) -> usize {
        self.x.c + self.intercept as usize
    }
    /// Design with the intercept column.
    pub fn xd(&self) -> Mat {
        if self.intercept { self.x.with_ones() } else { self.x.clone() }
    }
    pub fn off_v(&self) -> Vec<f64> {
        self.off.clone().unwrap_or_else(|| vec![0.0; self.n()])
    }
    pub fn vw_v(&self) -> Vec<f64> {
        self.vw.clone().unwrap_or_else(|| vec![1.0; self.n()])
    }
    pub fn fw_v(&self) -> Vec<f64> {
        match &self.fw {
            Some(f) => f.iter().map(|v| *v as f64).collect(),
            None => vec![1.0; self.n()],
        }
    }
    pub fn tw(&self) -> Vec<f64> {
        self.fw_v().iter().zip(self.vw_v()).map(|(a, b)| a * b).collect()
    }
    pub fn n_obs(&self) -> f64 {
        self.fw_v().iter().sum()
    }
    pub fn sum_w(&self) -> f64 {
        self.tw().iter().sum()
    }
    pub fn n_eff(&self) -> f64 {
        let (f, w) = (self.fw_v(), self.vw_v());
        let v1: f64 = f.iter().zip(&w).map(|(f, w)| f * w).sum();
        let v2: f64 = f.iter().zip(&w).map(|(f, w)| f * w * w).sum();
        if self.vw.is_none() { self.n_obs() } else { v1 * v1 / v2 }
    }
    /// Weighted column means and standard deviations as documented for standardisation.
    pub fn col_stats(&self) -> (Vec<f64>, Vec<f64>) {
        let tw = self.tw();
        let sw: f64 = tw.iter().sum();
        let ne = self.n_eff();
        let mut ms = vec![];
        let mut sds = vec![];
        for j in 0..self.p() {
            let c = self.x.col(j);
            let live: Vec<f64> = c.iter().zip(&tw).filter(|(_, w)| **w != 0.0).map(|(x, _)| *x).collect();
            let m: f64 = c.iter().zip(&tw).filter(|(_, w)| **w != 0.0).map(|(x, w)| x * w).sum::<f64>() / sw;
            let v: f64 = c.iter().zip(&tw).filter(|(_, w)| **w != 0.0).map(|(x, w)| (x - m) * (x - m) * w).sum::<f64>() / sw;
            let constant = live.windows(2).all(|w| w[0] == w[1]);
            let sd = if constant || !(ne > 1.0) { 1.0 } else { (v * ne / (ne - 1.0)).sqrt() };
            ms.push(m);
            sds.push(if sd > 0.0 { sd } else { 1.0 });
        }
        (ms, sds)
    }
    /// Penalty scale per coefficient of the full vector (0 for the intercept).
    pub fn pen_scale(&self) -> Vec<f64> {
        let mut v = if self.intercept { vec![0.0] } else { vec![] };
        if self.std {
            v.extend(self.col_stats().1);
        } else {
            v.extend(vec![1.0; self.p()]);
        }
        v
    }
    pub fn eps(&self) -> f64 {
        if self.f32 { f32::EPSILON as f64 } else { f64::EPSILON }
    }
    pub fn tol(&self) -> f64 {
        self.opts.tol.unwrap_or(self.eps())
    }
    pub fn sub_rows(&self, idx: &[usize]) -> Case {
        let mut c = self.clone();
        c.x = self.x.rows(idx);
        c.y = idx.iter().map(|i| self.y[*i]).collect();
        c.off = self.off.as_ref().map(|o| idx.iter().map(|i| o[*i]).collect());
        c.vw = self.vw.as_ref().map(|o| idx.iter().map(|i| o[*i]).collect());
        c.fw = self.fw.as_ref().map(|o| idx.iter().map(|i| o[*i]).collect());
        c
    }
    /// Full textual dump for replay files.
    pub fn dump(&self) -> String {
        let mut s = String::new();
        s += &format!(
            "family={} f32={} n={} p={} intercept={} standardize={} opts={:?} xlay={:?} ylay={:?} ytype={:?} order={} dup={}\n",
            self.fam.name(), self.f32, self.n(), self.p(), self.intercept, self.std, self.opts, self.xlay, self.ylay, self.yt, self.order, self.dup
        );
        s += &format!("y={:?}\n", self.y);
        s += &format!("offset={:?}\nvar_weights={:?}\nfreq_weights={:?}\n", self.off, self.vw, self.fw);
        for i in 0..self.x.r {
            s += &format!("x[{i}]={:?}\n", self.x.row(i));
        }
        s
    }
    pub fn brief(&self) -> String {
        format!(
            "{}{} n={} p={} {}{}{}{}{} l1={:.3e} l2={:.3e}",
            self.fam.name(),
            if self.f32 { "/f32" } else { "" },
            self.n(),
            self.p(),
            if self.intercept { "int " } else { "noint " },
            if self.std { "std" } else { "raw" },
            if self.off.is_some() { " off" } else { "" },
            if self.vw.is_some() { " vw" } else { "" },
            if self.fw.is_some() { " fw" } else { "" },
            self.opts.l1,
            self.opts.l2
        )
    }
}

/// What a generator may draw.
#[derive(Clone, Debug)]
pub struct Prof {
    pub fams: Vec<Fam>,
    pub f32: f64,
    pub pmin: usize,
    pub pmax: usize,
    pub nmax: usize,
    pub offset: f64,
    pub vw: f64,
    pub fw: f64,
    pub noint: f64,
    pub nostd: f64,
    pub l2: f64,
    pub l1: f64,
    /// allow shifted / badly scaled columns
    pub wild: f64,
    /// smallest number of rows beyond the number of coefficients
    pub slack: usize,
    pub big: f64,
    /// chance of responses measured in far larger or smaller units
    pub units: f64,
}
impl Default for Prof {
    fn default() -> Self {
        Prof {
            fams: Fam::KINDS.to_vec(),
            f32: 0.1,
            pmin: 0,
            pmax: 6,
            nmax: 50,
            offset: 0.4,
            vw: 0.4,
            fw: 0.35,
            noint: 0.25,
            nostd: 0.35,
            l2: 0.3,
            l1: 0.0,
            wild: 0.4,
            slack: 2,
            big: 0.04,
            units: 0.08,
        }
    }
}

pub fn resolve(r: &mut Rng, f: Fam) -> Fam {
    if let Fam::Bin(0) = f { Fam::Bin(*r.pick(&BINS)) } else { f }
}

/// A response drawn from the family with the given mean.
pub fn draw_y(r: &mut Rng, fam: Fam, mu: f64, disp: f64) -> f64 {
    let y = match fam.base() {
        Base::Lin => mu + disp.sqrt() * r.normal(),
        Base::Bern => r.p(mu) as u8 as f64,
        Base::Pois => r.poisson(mu),
        Base::Bin(n) => r.binom(n as usize, mu / n as f64),
        Base::Expo => mu * r.expo().max(1e-6),
        Base::Gam => mu * (r.gamma(1.0 / disp) * disp).max(1e-6),
        Base::Ig => r.invgauss(mu, mu / disp).clamp(mu * 0.02, mu * 50.0),
    };
    y
}

/// One column of features.
fn gen_col(r: &mut Rng, n: usize, positive: bool, prev: Option<&Vec<f64>>) -> (Vec<f64>, &'static str) {
    if positive {
        return match r.int(0, 2) {
            0 => ((0..n).map(|_| r.range(0.5, 2.0)).collect(), "pos"),
            1 => ((0..n).map(|_| 0.2 + 0.5 * r.expo().min(4.0)).collect(), "posexp"),
            _ => ((0..n).map(|_| r.int(1, 4) as f64).collect(), "posint"),
        };
    }
    match r.int(0, 7) {
        0 | 1 => ((0..n).map(|_| r.normal()).collect(), "normal"),
        2 => ((0..n).map(|_| r.range(-1.0, 1.0)).collect(), "unif"),
        3 => ((0..n).map(|_| r.p(0.5) as u8 as f64).collect(), "binary"),
        4 => ((0..n).map(|_| r.int(0, 4) as f64).collect(), "int"),
        5 => match prev {
            Some(q) => {
                let rho = r.range(0.5, 0.95);
                (q.iter().map(|v| rho * v + (1.0 - rho * rho).sqrt() * r.normal()).collect(), "corr")
            }
            None => ((0..n).map(|_| r.normal()).collect(), "normal"),
        },
        6 => ((0..n).map(|i| i as f64 / n as f64 - 0.5 + 0.05 * r.normal()).collect(), "trend"),
        _ => ((0..n).map(|_| if r.p(0.3) { r.normal() * 2.0 } else { 0.0 }).collect(), "sparse"),
    }
}

/// A well-posed problem drawn from the profile: responses follow the model, the design has full
/// rank with high probability, the predictor stays well inside the domain of the link.
pub fn gen(r: &mut Rng, pf: &Prof) -> Case {
    let fam0 = *r.pick(&pf.fams);
    let fam = resolve(r, fam0);
    let f32 = has_f32(fam) && r.p(pf.f32);
    let mut intercept = !r.p(pf.noint);
    let mut p = r.int(pf.pmin, pf.pmax);
    if p == 0 && !intercept {
        if r.p(0.5) {
            intercept = true
        } else {
            p = 1
        }
    }
    let k = p + intercept as usize;
    let big = r.p(pf.big);
    let nlo = k + pf.slack + if fam.base() == Base::Bern { 2 * k + 6 } else { 0 };
    let n = if big { r.int(nlo + 60, nlo + 400) } else { r.int(nlo, nlo.max(pf.nmax)) };
    let s = fam.dom();
    // columns
    let half = s != 0;
    let mut cols: Vec<Vec<f64>> = vec![];
    for _ in 0..p {
        let prev = cols.last().cloned();
        let (c, _) = gen_col(r, n, half && !intercept, prev.as_ref());
        cols.push(c);
    }
    // centred linear predictor of unit spread
    let mut eta = vec![0.0; n];
    let mut beta: Vec<f64> = (0..p).map(|_| if r.p(0.2) { 0.0 } else { r.normal() }).collect();
    if half && !intercept {
        beta = beta.iter().map(|b| (b.abs() + 0.2) * s as f64).collect();
    }
    for j in 0..p {
        for i in 0..n {
            eta[i] += beta[j] * cols[j][i];
        }
    }
    let scale_y = match fam.base() {
        Base::Lin => r.logu(0.1, 10.0),
        Base::Expo | Base::Gam | Base::Ig if !f32 => r.logu(0.2, 5.0),
        _ => 1.0,
    };
    // (the L1 solver converges to a tolerance in the units of the coefficients)
    let units = r.p(pf.units) && !f32 && pf.l1 == 0.0;
    let scale_y = match fam.base() {
        Base::Lin if fam == Fam::Lin && units => {
            let far = r.p(0.3);
            scale_y
                * match (r.p(0.6), far) {
                    (true, true) => r.logu(1e-25, 1e-5),
                    (true, false) => r.logu(1e-11, 1e-5),
                    (false, true) => r.logu(1e3, 1e20),
                    (false, false) => r.logu(1e3, 1e9),
                }
        }

        Base::Expo | Base::Gam | Base::Ig if units => scale_y * r.logu(1e-6, 1e6),
        _ => scale_y,
    };
    let spread = match fam.base() {
        Base::Lin if fam == Fam::Lin => r.range(0.2, 3.0) * scale_y,
        Base::Ig => r.range(0.1, 0.5),
        _ => r.range(0.2, 0.9),
    };
    let m = if intercept { eta.iter().sum::<f64>() / n as f64 } else { 0.0 };
    let sd = (eta.iter().map(|e| (e - m) * (e - m)).sum::<f64>() / n as f64).sqrt().max(1e-9);
    let off: Option<Vec<f64>> = if r.p(pf.offset) {
        let mut o: Vec<f64> = match r.int(0, 4) {
            0 => vec![0.0; n],
            1 => vec![r.range(-0.3, 0.3); n],
            2 => (0..n).map(|_| *r.pick(&[-0.3, 0.0, 0.0, 0.3])).collect(),
            _ => (0..n).map(|_| 0.3 * r.normal()).collect(),
        };
        if r.p(0.15) {
            // equal ends
            o[n - 1] = o[0];
        }
        Some(o)
    } else {
        None
    };
    // place the predictor
    let mut off = off;
    if fam == Fam::Lin && units {
        if let Some(o) = off.as_mut() {
            o.iter_mut().for_each(|v| *v *= scale_y);
        }
    }
    match s {
        0 => {
            let c = match fam.base() {
                _ if !intercept => 0.0,
                Base::Lin if fam == Fam::Lin => r.normal() * scale_y,
                Base::Bern => r.range(-0.8, 0.8),
                Base::Bin(_) => r.range(-1.5, 1.5),
                // counts beyond single precision
                Base::Pois if fam == Fam::Pois && units => r.range(5.0, 19.0),
                Base::Pois => r.range(-0.5, 3.0),
                _ => scale_y.ln(),
            };
            for e in eta.iter_mut() {
                *e = (*e - m) * spread / sd + c;
            }
        }
        s => {
            let sg = s as f64;
            // size of the predictor for mean ~ scale_y
            let c = crate::family::link_of(fam, scale_y * if fam.base() == Base::Pois { 4.0 } else { 1.0 }).abs();
            if intercept {
                let mx = eta.iter().map(|e| (e - m).abs()).fold(1e-9, f64::max);
                let a = r.range(0.1, 0.6);
                for e in eta.iter_mut() {
                    *e = sg * c + (*e - m) / mx * a * c;
                }
            } else {
                let mx = eta.iter().map(|e| e.abs()).sum::<f64>() / n as f64;
                for e in eta.iter_mut() {
                    *e *= c / mx;
                }
            }
            if let Some(o) = off.as_mut() {
                let mx = o.iter().map(|e| e.abs()).fold(1e-9, f64::max);
                let zero = o.iter().all(|e| *e == 0.0);
                if !zero {
                    for e in o.iter_mut() {
                        *e = if intercept { *e / mx * 0.2 * c } else { sg * (e.abs() / mx) * 0.3 * c };
                    }
                }
            }
        }
    }
    if let Some(o) = &off {
        for i in 0..n {
            eta[i] += o[i];
        }
    }
    let disp = match fam.base() {
        Base::Lin if fam == Fam::Lin => r.logu(0.05, 2.0) * scale_y * scale_y,
        Base::Lin => r.logu(0.01, 0.2),
        Base::Gam => r.logu(0.05, 1.0),
        Base::Ig => r.logu(0.03, 0.3),
        _ => 1.0,
    };
    let frac = fam.base() == Base::Bern && r.p(0.15);
    let mut y: Vec<f64> = (0..n)
        .map(|i| {
            let mu = mean(fam, eta[i]);
            let v = draw_y(r, fam, mu, disp);
            if frac { (0.5 * v + 0.5 * r.f()).clamp(0.0, 1.0) } else { v }
        })
        .collect();
    if f32 {
        y.iter_mut().for_each(|v| *v = *v as f32 as f64);
    }
    let vw = if r.p(pf.vw) {
        Some(match r.int(0, 5) {
            0 => vec![1.0; n],
            1 => vec![r.logu(0.1, 10.0); n],
            2 if !f32 && pf.l1 == 0.0 && r.p(0.3) => {
                let a = r.logu(1e-6, 1e6);
                (0..n).map(|_| a * r.logu(0.02, 50.0)).collect()
            }
            2 => (0..n).map(|_| r.logu(0.02, 50.0)).collect(),
            3 => (0..n).map(|_| r.int(1, 4) as f64).collect(),
            _ => (0..n).map(|_| r.range(0.3, 3.0)).collect(),
        })
    } else {
        None
    };
    let fw = if r.p(pf.fw) {
        Some(match r.int(0, 4) {
            0 => vec![1; n],
            1 => (0..n).map(|_| r.int(1, 3)).collect::<Vec<usize>>(),
            2 => (0..n).map(|_| if r.p(0.1) { r.int(10, 60) } else { r.int(1, 3) }).collect(),
            _ => (0..n).map(|_| if r.p(0.12) { 0 } else { r.int(1, 4) }).collect(),
        })
    } else {
        None
    };
    // affine distortion of the columns (kept in the span when there is an intercept)
    let wild = r.p(pf.wild);
    if wild {
        for c in cols.iter_mut() {
            let sc = if f32 { r.logu(0.1, 10.0) } else { r.logu(1e-3, 1e3) };
            let sh = if intercept { sc * if f32 { r.range(-3.0, 3.0) } else { r.range(-30.0, 30.0) } } else { 0.0 };
            let sg = if half && !intercept { 1.0 } else if r.p(0.5) { -1.0 } else { 1.0 };
            c.iter_mut().for_each(|v| *v = sg * sc * *v + sh);
        }
    }
    let mut x = Mat::zeros(n, p);
    for j in 0..p {
        for i in 0..n {
            x[(i, j)] = if f32 { cols[j][i] as f32 as f64 } else { cols[j][i] };
        }
    }
    let to32 = |v: Vec<f64>| -> Vec<f64> { if f32 { v.iter().map(|x| *x as f32 as f64).collect() } else { v } };
    let mut opts = Opts::default();
    if r.p(pf.l2) {
        opts.l2 = r.logu(1e-4, 1e2);
    }
    if r.p(pf.l1) {
        opts.l1 = r.logu(1e-2, 20.0);
    }
    if f32 {
        opts.l1 = opts.l1 as f32 as f64;
        opts.l2 = opts.l2 as f32 as f64;
    }
    opts.by_struct = r.p(0.3);
    let yt = y_type(r, fam, &y, f32);
    Case {
        fam,
        f32,
        x,
        y,
        off: off.map(to32),
        vw: vw.map(to32),
        fw,
        intercept,
        std: !r.p(pf.nostd),
        opts,
        xlay: *r.pick(&LAYOUTS),
        ylay: *r.pick(&LAYOUTS),
        yt,
        order: r.int(0, 1) as u8,
        dup: 0,
    }
}

/// A response element type able to hold all the values exactly.
pub fn y_type(r: &mut Rng, fam: Fam, y: &[f64], f32: bool) -> Yt {
    let mx = y.iter().cloned().fold(0.0, f64::max);
    let f32ok = y.iter().all(|v| *v as f32 as f64 == *v);
    let mut c = vec![];
    match fam.base() {
        Base::Lin | Base::Expo | Base::Gam | Base::Ig => {
            c.push(Yt::F64);
            if f32ok {
                c.push(Yt::F32);
            }
        }
        Base::Bern => {
            c.push(Yt::F64);
            if f32ok {
                c.push(Yt::F32);
            }
            if y.iter().all(|v| *v == 0.0 || *v == 1.0) {
                c.extend([Yt::Bool, Yt::Bool]);
            }
        }
        Base::Pois => {
            c.extend([Yt::U64, Yt::Usize]);
            if mx < 4e9 {
                c.push(Yt::U32);
            }
            if mx < 256.0 {
                c.push(Yt::U8);
            }
            if mx < 65536.0 {
                c.push(Yt::U16);
            }
        }
        Base::Bin(_) => c.push(Yt::U16),
    }
    let _ = f32;
    *r.pick(&c)
}
