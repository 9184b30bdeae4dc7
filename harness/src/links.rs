//! User-defined links, written as a user of the library would write them.
use ndarray::Array1;
use ndarray_glm::link::{Canonical, Link, Transform};
use ndarray_glm::num::Float;
use ndarray_glm::{Exponential, Gamma, InvGaussian, Linear, Logistic, Poisson};
use num_traits::Float as NF;

/// mean = exp(w) for a linear family
pub struct UExp;
impl Link<Linear<UExp>> for UExp {
    fn func<F: Float>(y: F) -> F {
        NF::ln(y)
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::exp(w)
    }
}
impl Transform for UExp {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv_into(NF::exp)
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(NF::exp)
    }
}

pub struct UCauchit;
impl Link<Logistic<UCauchit>> for UCauchit {
    fn func<F: Float>(mu: F) -> F {
        let pi = F::from(std::f64::consts::PI).unwrap();
        -NF::recip(NF::tan(pi * mu))
    }
    fn func_inv<F: Float>(w: F) -> F {
        let pi = F::from(std::f64::consts::PI).unwrap();
        NF::atan2(F::one(), -w) / pi
    }
}
impl Transform for UCauchit {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv_into(|w| NF::ln(NF::atan2(F::one(), -w)) - NF::ln(NF::atan2(F::one(), w)))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        let pi = F::from(std::f64::consts::PI).unwrap();
        w.mapv(|w| pi / ((F::one() + w * w) * NF::atan2(F::one(), -w) * NF::atan2(F::one(), w)))
    }
}

/// logit with a predictor on half the scale: a pure reparameterisation of the canonical model
pub struct ULogit2;
impl Link<Logistic<ULogit2>> for ULogit2 {
    fn func<F: Float>(mu: F) -> F {
        NF::ln(mu / (F::one() - mu)) * F::half()
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::recip(F::one() + NF::exp(-w - w))
    }
}
impl Transform for ULogit2 {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w * F::two()
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        Array1::from_elem(w.len(), F::two())
    }
}

/// the canonical logit by way of the general transformation
pub struct ULogit1;
impl Link<Logistic<ULogit1>> for ULogit1 {
    fn func<F: Float>(mu: F) -> F {
        NF::ln(mu / (F::one() - mu))
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::recip(F::one() + NF::exp(-w))
    }
}
impl Transform for ULogit1 {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        Array1::ones(w.len())
    }
}

pub struct USqrt;
impl Link<Poisson<USqrt>> for USqrt {
    fn func<F: Float>(mu: F) -> F {
        NF::sqrt(mu)
    }
    fn func_inv<F: Float>(w: F) -> F {
        w * w
    }
}
impl Transform for USqrt {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv_into(|w| F::two() * NF::ln(w))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|w| F::two() / w)
    }
}

/// A user's own copy of the canonical log link
pub struct ULog;
impl Canonical for ULog {}
impl Link<Poisson<ULog>> for ULog {
    fn func<F: Float>(mu: F) -> F {
        NF::ln(mu)
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::exp(w)
    }
}

pub struct UESqrt;
impl Link<Exponential<UESqrt>> for UESqrt {
    fn func<F: Float>(mu: F) -> F {
        NF::sqrt(mu)
    }
    fn func_inv<F: Float>(w: F) -> F {
        w * w
    }
}
impl Transform for UESqrt {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv_into(|w| -NF::recip(w * w))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|w| F::two() / (w * w * w))
    }
}

/// mean = 1/w: the canonical gamma link with the sign flipped
pub struct UInv;
impl Link<Gamma<UInv>> for UInv {
    fn func<F: Float>(mu: F) -> F {
        NF::recip(mu)
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::recip(w)
    }
}
impl Transform for UInv {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        -w
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        Array1::from_elem(w.len(), -F::one())
    }
}

pub struct UIgInv;
impl Link<InvGaussian<UIgInv>> for UIgInv {
    fn func<F: Float>(mu: F) -> F {
        NF::recip(mu)
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::recip(w)
    }
}
impl Transform for UIgInv {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv_into(|w| -F::half() * w * w)
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|w| -w)
    }
}
