//! Binding to the library under test: everything goes through its public API, every call is
//! guarded against panics, and everything that comes back is converted to f64.
use crate::case::{Case, Layout};
use crate::family::Fam;
use crate::linalg::Mat;
use crate::links::*;
use ndarray::{s, Array1, Array2, ArrayView1, ArrayView2};
use ndarray_glm::error::RegressionError;
use ndarray_glm::num::Float;
use ndarray_glm::*;
use ndarray_glm::{exp_link, gamma_link, inv_gauss_link, logistic_link};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    BadInput,
    InvalidY,
    Build,
    Linalg,
    MaxIter { n_iter: usize, hist: Vec<(Vec<f64>, f64)> },
    Panic(String),
}
impl Fail {
    pub fn kind(&self) -> &'static str {
        match self {
            Fail::BadInput => "BadInput",
            Fail::InvalidY => "InvalidY",
            Fail::Build => "BuildError",
            Fail::Linalg => "LinalgError",
            Fail::MaxIter { .. } => "MaxIter",
            Fail::Panic(_) => "PANIC",
        }
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Fail::Panic(_))
    }
}
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Fail::Panic(m) => write!(f, "PANIC({m})"),
            o => write!(f, "{}", o.kind()),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static CALLS: RefCell<u64> = const { RefCell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run a library call, turning a panic into `Fail::Panic`.
pub fn guard<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    CALLS.with(|c| *c.borrow_mut() += 1);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(Fail::Panic(last_panic())),
    }
}

pub trait Fl: Float {
    fn w(self) -> f64;
    fn n(x: f64) -> Self;
}
impl Fl for f64 {
    fn w(self) -> f64 {
        self
    }
    fn n(x: f64) -> f64 {
        x
    }
}
impl Fl for f32 {
    fn w(self) -> f64 {
        self as f64
    }
    fn n(x: f64) -> f32 {
        x as f32
    }
}

fn cv_err<F: Fl>(e: RegressionError<F>) -> Fail {
    match e {
        RegressionError::BadInput(_) => Fail::BadInput,
        RegressionError::InvalidY(_) => Fail::InvalidY,
        RegressionError::BuildError(_) => Fail::Build,
        RegressionError::LinalgError { .. } => Fail::Linalg,
        RegressionError::MaxIter { n_iter, history } => {
            Fail::MaxIter { n_iter, hist: history.iter().map(|s| (vec(&s.guess), s.like.w())).collect() }
        }
        #[allow(unreachable_patterns)]
        _ => Fail::Linalg,
    }
}
fn vec<F: Fl>(a: &Array1<F>) -> Vec<f64> {
    a.iter().map(|v| v.w()).collect()
}
fn mat<F: Fl>(a: &Array2<F>) -> Mat {
    Mat { r: a.nrows(), c: a.ncols(), a: a.iter().map(|v| v.w()).collect() }
}
fn arr<F: Fl>(v: &[f64]) -> Array1<F> {
    v.iter().map(|x| F::n(*x)).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    S(f64),
    V(Vec<f64>),
    M(Mat),
}
impl Val {
    pub fn s(&self) -> f64 {
        match self {
            Val::S(x) => *x,
            _ => panic!("harness: not a scalar"),
        }
    }
    pub fn v(&self) -> &Vec<f64> {
        match self {
            Val::V(x) => x,
            _ => panic!("harness: not a vector"),
        }
    }
    pub fn m(&self) -> &Mat {
        match self {
            Val::M(x) => x,
            _ => panic!("harness: not a matrix"),
        }
    }
    pub fn flat(&self) -> Vec<f64> {
        match self {
            Val::S(x) => vec![*x],
            Val::V(x) => x.clone(),
            Val::M(m) => m.a.clone(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Result,
    ModelLike,
    NIter,
    Aic,
    Bic,
    Cooks,
    Cov,
    Dev,
    Disp,
    Fisher,
    Hat,
    Infl,
    Lev,
    LooExact,
    Lr,
    Ndf,
    NullLike,
    TestNdf,
    ResidDev,
    ResidDevStd,
    ResidPart,
    ResidPear,
    ResidPearStd,
    ResidResp,
    ResidStudent,
    ResidWork,
    Score,
    ScoreTest,
    WaldTest,
    WaldZ,
    RSq,
    Rss,
    PLr,
    PWald,
    PExact,
    ResidQuant,
}
impl St {
    /// All statistics except `LooExact` (expensive) in declaration order.
    pub const ALL: [St; 35] = [
        St::Result, St::ModelLike, St::NIter, St::Aic, St::Bic, St::Cooks, St::Cov, St::Dev, St::Disp,
        St::Fisher, St::Hat, St::Infl, St::Lev, St::Lr, St::Ndf, St::NullLike, St::TestNdf,
        St::ResidDev, St::ResidDevStd, St::ResidPart, St::ResidPear, St::ResidPearStd, St::ResidResp,
        St::ResidStudent, St::ResidWork, St::Score, St::ScoreTest, St::WaldTest, St::WaldZ, St::RSq,
        St::Rss, St::PLr, St::PWald, St::PExact, St::ResidQuant,
    ];
    pub fn applies(self, f: Fam) -> bool {
        match self {
            St::RSq | St::Rss => f == Fam::Lin,
            St::ResidQuant => f.continuous(),
            _ => true,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Opts {
    pub l1: f64,
    pub l2: f64,
    pub tol: Option<f64>,
    pub max_iter: Option<usize>,
    pub init: Option<Vec<f64>>,
    /// set options through `with_options` rather than the builder methods
    pub by_struct: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DataSnap {
    pub y: Vec<f64>,
    pub x: Mat,
    pub off: Option<Vec<f64>>,
    pub w: Option<Vec<f64>>,
    pub f: Option<Vec<f64>>,
    pub n_obs: f64,
    pub n_eff: f64,
}

#[cfg(feature = "shared")]
pub trait Shared: Sync + Send {}
#[cfg(feature = "shared")]
impl<T: Sync + Send> Shared for T {}
#[cfg(not(feature = "shared"))]
pub trait Shared {}
#[cfg(not(feature = "shared"))]
impl<T> Shared for T {}

pub trait ModelDyn: Shared {
    fn fit(&self, o: &Opts) -> Result<Box<dyn FitDyn + '_>, Fail>;
    fn data(&self) -> DataSnap;
}

pub trait FitDyn {
    fn get(&self, s: St) -> Result<Val, Fail>;
    fn fisher(&self, p: &[f64]) -> Result<Mat, Fail>;
    fn score(&self, p: &[f64]) -> Result<Vec<f64>, Fail>;
    fn lr_against(&self, p: &[f64]) -> Result<f64, Fail>;
    fn wald_against(&self, p: &[f64]) -> Result<f64, Fail>;
    fn score_against(&self, p: &[f64]) -> Result<f64, Fail>;
    fn predict(&self, x: &Mat, off: Option<&[f64]>, lay: Layout) -> Result<Vec<f64>, Fail>;
    fn history(&self) -> Vec<(Vec<f64>, f64)>;
    fn options(&self) -> Opts;
    // shorthands
    fn beta(&self) -> Vec<f64> {
        self.get(St::Result).unwrap().v().clone()
    }
    fn like(&self) -> f64 {
        self.get(St::ModelLike).unwrap().s()
    }
    fn n_iter(&self) -> usize {
        self.get(St::NIter).unwrap().s() as usize
    }
}

/// Lay the matrix out in memory as requested and hand a view of it to `k`.
pub fn with_x<F: Fl, T>(x: &Mat, lay: Layout, k: impl FnOnce(ArrayView2<F>) -> T) -> T {
    let buf = xbuf::<F>(x, lay);
    k(xview(&buf, x.r, x.c, lay))
}
#[inline(never)]
fn xbuf<F: Fl>(x: &Mat, lay: Layout) -> Array2<F> {
    let (n, p) = (x.r, x.c);
    let junk = F::n(f64::NAN);
    let (r, c, at): (usize, usize, fn(usize, usize, usize, usize) -> (usize, usize)) = match lay {
        Layout::C => (n, p, |i, j, _, _| (i, j)),
        Layout::Fo => (p, n, |i, j, _, _| (j, i)),
        Layout::Strided => (2 * n + 1, 3 * p + 2, |i, j, _, _| (2 * i + 1, 3 * j + 1)),
        Layout::Rev => (n, p, |i, j, n, p| (n - 1 - i, p - 1 - j)),
        Layout::FStrided => (2 * p + 1, n + 3, |i, j, _, _| (2 * j, i + 2)),
    };
    let mut a = Array2::from_elem((r, c), junk);
    for i in 0..n {
        for j in 0..p {
            let (u, v) = at(i, j, n, p);
            a[[u, v]] = F::n(x[(i, j)]);
        }
    }
    a
}
#[inline(never)]
fn xview<F: Fl>(a: &Array2<F>, n: usize, p: usize, lay: Layout) -> ArrayView2<'_, F> {
    match lay {
        Layout::C => a.view(),
        Layout::Fo => a.t(),
        Layout::Strided => a.slice(s![1..2 * n + 1;2, 1..3 * p + 1;3]),
        Layout::Rev => a.slice(s![..;-1, ..;-1]),
        Layout::FStrided => a.slice_move_t(n, p),
    }
}
trait SliceT<F> {
    fn slice_move_t(&self, n: usize, p: usize) -> ArrayView2<'_, F>;
}
impl<F: Fl> SliceT<F> for Array2<F> {
    fn slice_move_t(&self, n: usize, p: usize) -> ArrayView2<'_, F> {
        self.slice(s![..2 * p;2, 2..n + 2]).reversed_axes()
    }
}
pub fn with_y<Y: Copy, T>(y: Vec<Y>, lay: Layout, k: impl FnOnce(ArrayView1<Y>) -> T) -> T {
    let buf = ybuf(y, lay);
    k(yview(&buf, lay))
}
#[inline(never)]
fn ybuf<Y: Copy>(y: Vec<Y>, lay: Layout) -> Array1<Y> {
    let n = y.len();
    match lay {
        Layout::C | Layout::Fo => Array1::from(y),
        Layout::Rev => y.into_iter().rev().collect(),
        Layout::Strided | Layout::FStrided => y.iter().flat_map(|e| [y[0], *e, y[n - 1]]).collect(),
    }
}
#[inline(never)]
fn yview<Y: Copy>(a: &Array1<Y>, lay: Layout) -> ArrayView1<'_, Y> {
    match lay {
        Layout::C | Layout::Fo => a.view(),
        Layout::Rev => a.slice(s![..;-1]),
        Layout::Strided | Layout::FStrided => if a.is_empty() { a.view() } else { a.slice(s![1..;3]) },
    }
}

macro_rules! bind_model {
    ($M:ty, $F:ty, [$($lin:tt)*], [$($cont:tt)*]) => {
        impl ModelDyn for ndarray_glm::model::Model<$M, $F> {
            fn fit(&self, o: &Opts) -> Result<Box<dyn FitDyn + '_>, Fail> {
                guard(|| {
                    let r = if o.by_struct || o.init.is_some() {
                        let d = FitOptions::<$F>::default();
                        self.with_options(FitOptions {
                            max_iter: o.max_iter.unwrap_or(d.max_iter),
                            tol: o.tol.map(<$F as Fl>::n).unwrap_or(d.tol),
                            l2: <$F as Fl>::n(o.l2),
                            l1: <$F as Fl>::n(o.l1),
                            init_guess: o.init.as_ref().map(|v| arr::<$F>(v)),
                        })
                        .fit()
                    } else if *o == Opts::default() {
                        self.fit()
                    } else {
                        let mut c = self.fit_options();
                        if o.l1 != 0.0 { c = c.l1_reg(<$F as Fl>::n(o.l1)); }
                        if let Some(m) = o.max_iter { c = c.max_iter(m); }
                        if o.l2 != 0.0 { c = c.l2_reg(<$F as Fl>::n(o.l2)); }
                        if let Some(t) = o.tol { c = c.tol(<$F as Fl>::n(t)); }
                        c.fit()
                    };
                    match r {
                        Ok(f) => Ok(Box::new(f) as Box<dyn FitDyn + '_>),
                        Err(e) => Err(cv_err(e)),
                    }
                })
            }
            fn data(&self) -> DataSnap {
                let d = &self.data;
                DataSnap {
                    y: vec(&d.y),
                    x: mat(&d.x),
                    off: d.linear_offset.as_ref().map(vec),
                    w: d.weights.as_ref().map(vec),
                    f: d.freqs.as_ref().map(vec),
                    n_obs: d.n_obs().w(),
                    n_eff: d.n_eff().w(),
                }
            }
        }
        impl<'a> FitDyn for Fit<'a, $M, $F> {
            fn get(&self, st: St) -> Result<Val, Fail> {
                let e = cv_err::<$F>;
                guard(|| Ok(match st {
                    St::Result => Val::V(vec(&self.result)),
                    St::ModelLike => Val::S(self.model_like.w()),
                    St::NIter => Val::S(self.n_iter as f64),
                    St::Aic => Val::S(self.aic().w()),
                    St::Bic => Val::S(self.bic().w()),
                    St::Cooks => Val::V(vec(&self.cooks().map_err(e)?)),
                    St::Cov => Val::M(mat(self.covariance().map_err(e)?)),
                    St::Dev => Val::S(self.deviance().w()),
                    St::Disp => Val::S(self.dispersion().w()),
                    St::Fisher => Val::M(mat(&self.fisher(&self.result))),
                    St::Hat => Val::M(mat(self.hat().map_err(e)?)),
                    St::Infl => Val::M(mat(&self.infl_coef().map_err(e)?)),
                    St::Lev => Val::V(vec(&self.leverage().map_err(e)?)),
                    St::LooExact => Val::M(mat(&self.loo_exact().map_err(e)?)),
                    St::Lr => Val::S(self.lr_test().w()),
                    St::Ndf => Val::S(self.ndf().w()),
                    St::NullLike => Val::S(self.null_like().w()),
                    St::TestNdf => Val::S(self.test_ndf() as f64),
                    St::ResidDev => Val::V(vec(&self.resid_dev())),
                    St::ResidDevStd => Val::V(vec(&self.resid_dev_std().map_err(e)?)),
                    St::ResidPart => Val::M(mat(&self.resid_part())),
                    St::ResidPear => Val::V(vec(self.resid_pear())),
                    St::ResidPearStd => Val::V(vec(&self.resid_pear_std().map_err(e)?)),
                    St::ResidResp => Val::V(vec(&self.resid_resp())),
                    St::ResidStudent => Val::V(vec(&self.resid_student().map_err(e)?)),
                    St::ResidWork => Val::V(vec(&self.resid_work())),
                    St::Score => Val::V(vec(&self.score(self.result.clone()))),
                    St::ScoreTest => Val::S(self.score_test().map_err(e)?.w()),
                    St::WaldTest => Val::S(self.wald_test().w()),
                    St::WaldZ => Val::V(vec(&self.wald_z().map_err(e)?)),
                    St::RSq => bind_model!(@lin self, r_sq, $($lin)*),
                    St::Rss => bind_model!(@lin self, rss, $($lin)*),
                    St::PLr => Val::S(self.pvalue_lr_test().w()),
                    St::PWald => Val::V(vec(&self.pvalue_wald().map_err(e)?)),
                    St::PExact => Val::V(vec(&self.pvalue_exact().map_err(e)?)),
                    St::ResidQuant => bind_model!(@cont self, $($cont)*),
                }))
            }
            fn fisher(&self, p: &[f64]) -> Result<Mat, Fail> {
                guard(|| Ok(mat(&Fit::fisher(self, &arr::<$F>(p)))))
            }
            fn score(&self, p: &[f64]) -> Result<Vec<f64>, Fail> {
                guard(|| Ok(vec(&Fit::score(self, arr::<$F>(p)))))
            }
            fn lr_against(&self, p: &[f64]) -> Result<f64, Fail> {
                guard(|| Ok(self.lr_test_against(&arr::<$F>(p)).w()))
            }
            fn wald_against(&self, p: &[f64]) -> Result<f64, Fail> {
                guard(|| Ok(self.wald_test_against(&arr::<$F>(p)).w()))
            }
            fn score_against(&self, p: &[f64]) -> Result<f64, Fail> {
                guard(|| Ok(self.score_test_against(arr::<$F>(p)).map_err(cv_err::<$F>)?.w()))
            }
            fn predict(&self, x: &Mat, off: Option<&[f64]>, lay: Layout) -> Result<Vec<f64>, Fail> {
                guard(|| {
                    let o: Option<Array1<$F>> = off.map(arr::<$F>);
                    Ok(with_x::<$F, _>(x, lay, |xv| vec(&Fit::predict(self, &xv, o.as_ref()))))
                })
            }
            fn history(&self) -> Vec<(Vec<f64>, f64)> {
                self.history.iter().map(|s| (vec(&s.guess), s.like.w())).collect()
            }
            fn options(&self) -> Opts {
                Opts {
                    l1: self.options.l1.w(),
                    l2: self.options.l2.w(),
                    tol: Some(self.options.tol.w()),
                    max_iter: Some(self.options.max_iter),
                    init: self.options.init_guess.as_ref().map(vec),
                    by_struct: true,
                }
            }
        }
    };
    (@lin $s:ident, $m:ident, yes) => { Val::S($s.$m().w()) };
    (@lin $s:ident, $m:ident, no) => { panic!("harness: linear-only statistic") };
    (@cont $s:ident, yes) => { Val::V(vec(&$s.resid_quantile())) };
    (@cont $s:ident, no) => { panic!("harness: continuous-only statistic") };
}

macro_rules! bind_both {
    ($M:ty, $lin:tt, $cont:tt) => {
        bind_model!($M, f64, $lin, $cont);
        bind_model!($M, f32, $lin, $cont);
    };
}
bind_both!(Linear, [yes], [yes]);
bind_both!(Logistic, [no], [no]);
bind_both!(Logistic<logistic_link::Cloglog>, [no], [no]);
bind_both!(Poisson, [no], [no]);
bind_model!(Binomial<1>, f64, [no], [no]);
bind_model!(Binomial<2>, f64, [no], [no]);
bind_both!(Binomial<12>, [no], [no]);
bind_model!(Binomial<1000>, f64, [no], [no]);
bind_both!(Exponential, [no], [yes]);
bind_both!(Exponential<exp_link::Log>, [no], [yes]);
bind_both!(Gamma, [no], [yes]);
bind_both!(Gamma<gamma_link::Log>, [no], [yes]);
bind_both!(InvGaussian, [no], [no]);
bind_both!(InvGaussian<inv_gauss_link::Log>, [no], [no]);
bind_model!(Linear<UExp>, f64, [no], [yes]);
bind_model!(Logistic<UCauchit>, f64, [no], [no]);
bind_model!(Logistic<ULogit2>, f64, [no], [no]);
bind_model!(Logistic<ULogit1>, f64, [no], [no]);
bind_model!(Poisson<USqrt>, f64, [no], [no]);
bind_model!(Poisson<ULog>, f64, [no], [no]);
bind_model!(Exponential<UESqrt>, f64, [no], [yes]);
bind_model!(Gamma<UInv>, f64, [no], [yes]);
bind_model!(InvGaussian<UIgInv>, f64, [no], [no]);

/// Response element type handed to the builder.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Yt {
    F64,
    F32,
    Bool,
    U8,
    U16,
    U32,
    U64,
    Usize,
}

/// Families for which an f32 model is instantiated.
pub fn has_f32(f: Fam) -> bool {
    !f.user() && !matches!(f, Fam::Bin(1) | Fam::Bin(2) | Fam::Bin(1000))
}

macro_rules! mk {
    ($c:expr, $M:ty, $F:ty, $Y:ty, $conv:expr) => {{
        let c: &Case = $c;
        let yv: Vec<$Y> = c.y.iter().map($conv).collect();
        with_y(yv, c.ylay, |y| {
            with_x::<$F, _>(&c.x, c.xlay, |x| {
                guard(|| {
                    let mut b = ModelBuilder::<$M>::data(&y, &x);
                    // setter order must not matter; vary it
                    if c.order & 1 == 0 {
                        if let Some(o) = &c.off { b = b.linear_offset(arr::<$F>(o)); }
                        if !c.intercept { b = b.no_constant(); }
                        if let Some(w) = &c.vw { b = b.var_weights(arr::<$F>(w)); }
                        if !c.std { b = b.no_standardize(); }
                        if let Some(f) = &c.fw { b = b.freq_weights(Array1::from(f.clone())); }
                    } else {
                        if !c.std { b = b.no_standardize(); }
                        if let Some(f) = &c.fw { b = b.freq_weights(Array1::from(f.clone())); }
                        if let Some(w) = &c.vw { b = b.var_weights(arr::<$F>(w)); }
                        if let Some(o) = &c.off { b = b.linear_offset(arr::<$F>(o)); }
                        if !c.intercept { b = b.no_constant(); }
                    }
                    match c.dup {
                        1 => b = b.linear_offset(arr::<$F>(c.off.as_deref().unwrap_or(&[]))),
                        2 => b = b.var_weights(arr::<$F>(c.vw.as_deref().unwrap_or(&[]))),
                        3 => b = b.freq_weights(Array1::from(c.fw.clone().unwrap_or_default())),
                        _ => {}
                    }
                    match b.build() {
                        Ok(m) => Ok(Box::new(m) as Box<dyn ModelDyn>),
                        Err(e) => Err(cv_err(e)),
                    }
                })
            })
        })
    }};
}
macro_rules! mk_float {
    ($c:expr, $M:ty, $F:ty) => {
        match $c.yt {
            Yt::F32 => mk!($c, $M, $F, f32, |v| *v as f32),
            _ => mk!($c, $M, $F, f64, |v| *v),
        }
    };
}
macro_rules! mk_bool {
    ($c:expr, $M:ty, $F:ty) => {
        match $c.yt {
            Yt::F32 => mk!($c, $M, $F, f32, |v| *v as f32),
            Yt::Bool => mk!($c, $M, $F, bool, |v| *v != 0.0),
            _ => mk!($c, $M, $F, f64, |v| *v),
        }
    };
}
macro_rules! mk_uint {
    ($c:expr, $M:ty, $F:ty) => {
        match $c.yt {
            Yt::U8 => mk!($c, $M, $F, u8, |v| *v as u8),
            Yt::U16 => mk!($c, $M, $F, u16, |v| *v as u16),
            Yt::U64 => mk!($c, $M, $F, u64, |v| *v as u64),
            Yt::Usize => mk!($c, $M, $F, usize, |v| *v as usize),
            _ => mk!($c, $M, $F, u32, |v| *v as u32),
        }
    };
}
macro_rules! mk_f64 {
    ($c:expr, $M:ty, $F:ty) => {
        mk!($c, $M, $F, f64, |v| *v)
    };
}
macro_rules! mk_u32 {
    ($c:expr, $M:ty, $F:ty) => {
        mk!($c, $M, $F, u32, |v| *v as u32)
    };
}
macro_rules! mk_bin {
    ($c:expr, $M:ty, $F:ty) => {
        mk!($c, $M, $F, u16, |v| *v as u16)
    };
}

pub fn build(c: &Case) -> Result<Box<dyn ModelDyn>, Fail> {
    use Fam::*;
    if c.f32 {
        match c.fam {
            Lin => mk_float!(c, Linear, f32),
            Logit => mk_bool!(c, Logistic, f32),
            Cloglog => mk_bool!(c, Logistic<logistic_link::Cloglog>, f32),
            Pois => mk_u32!(c, Poisson, f32),
            Bin(12) => mk_bin!(c, Binomial<12>, f32),
            ExpNR => mk_float!(c, Exponential, f32),
            ExpLog => mk_float!(c, Exponential<exp_link::Log>, f32),
            GamNR => mk_float!(c, Gamma, f32),
            GamLog => mk_float!(c, Gamma<gamma_link::Log>, f32),
            IgNR => mk_float!(c, InvGaussian, f32),
            IgLog => mk_float!(c, InvGaussian<inv_gauss_link::Log>, f32),
            f => panic!("harness: no f32 instance of {f:?}"),
        }
    } else {
        match c.fam {
            Lin => mk_float!(c, Linear, f64),
            Logit => mk_bool!(c, Logistic, f64),
            Cloglog => mk_bool!(c, Logistic<logistic_link::Cloglog>, f64),
            Pois => mk_uint!(c, Poisson, f64),
            Bin(1) => mk_bin!(c, Binomial<1>, f64),
            Bin(2) => mk_bin!(c, Binomial<2>, f64),
            Bin(12) => mk_bin!(c, Binomial<12>, f64),
            Bin(1000) => mk_bin!(c, Binomial<1000>, f64),
            Bin(n) => panic!("harness: no Binomial<{n}>"),
            ExpNR => mk_float!(c, Exponential, f64),
            ExpLog => mk_float!(c, Exponential<exp_link::Log>, f64),
            GamNR => mk_float!(c, Gamma, f64),
            GamLog => mk_float!(c, Gamma<gamma_link::Log>, f64),
            IgNR => mk_float!(c, InvGaussian, f64),
            IgLog => mk_float!(c, InvGaussian<inv_gauss_link::Log>, f64),
            LinExp => mk_f64!(c, Linear<UExp>, f64),
            Cauchit => mk_f64!(c, Logistic<UCauchit>, f64),
            Logit1 => mk_f64!(c, Logistic<ULogit1>, f64),
            Logit2 => mk_f64!(c, Logistic<ULogit2>, f64),
            PoisSqrt => mk_u32!(c, Poisson<USqrt>, f64),
            PoisULog => mk_u32!(c, Poisson<ULog>, f64),
            ExpSqrt => mk_f64!(c, Exponential<UESqrt>, f64),
            GamInv => mk_f64!(c, Gamma<UInv>, f64),
            IgInv => mk_f64!(c, InvGaussian<UIgInv>, f64),
        }
    }
}
