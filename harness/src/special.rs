//! Special functions, written from scratch so that p-value and quantile oracles do not share
//! code with the library's own distribution dependency.

pub fn lgamma(x: f64) -> f64 {
    // shift to x >= 12 then Stirling
    let mut x = x;
    let mut s = 0.0;
    while x < 12.0 {
        s -= x.ln();
        x += 1.0;
    }
    let i = 1.0 / x;
    let i2 = i * i;
    let c = i * (1.0 / 12.0 - i2 * (1.0 / 360.0 - i2 * (1.0 / 1260.0 - i2 * (1.0 / 1680.0 - i2 * (1.0 / 1188.0 - i2 * 691.0 / 360360.0)))));
    s + (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + c
}

/// Regularised incomplete gamma functions (P, Q).
pub fn gamma_pq(a: f64, x: f64) -> (f64, f64) {
    if x <= 0.0 {
        return (0.0, 1.0);
    }
    if x.is_infinite() {
        return (1.0, 0.0);
    }
    let pre = (a * x.ln() - x - lgamma(a)).exp();
    if x < a + 1.0 {
        let mut term = 1.0 / a;
        let mut sum = term;
        let mut n = a;
        for _ in 0..200_000 {
            n += 1.0;
            term *= x / n;
            sum += term;
            if term.abs() < sum.abs() * 1e-17 {
                break;
            }
        }
        let p = pre * sum;
        (p, 1.0 - p)
    } else {
        let tiny = 1e-300;
        let mut b = x + 1.0 - a;
        let mut c = 1.0 / tiny;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..200_000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < tiny {
                d = tiny;
            }
            c = b + an / c;
            if c.abs() < tiny {
                c = tiny;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            if (del - 1.0).abs() < 1e-16 {
                break;
            }
        }
        let q = pre * h;
        (1.0 - q, q)
    }
}

/// (cdf, sf) of the standard normal.
pub fn normal_cs(z: f64) -> (f64, f64) {
    let (_, q) = gamma_pq(0.5, 0.5 * z * z);
    let t = 0.5 * q;
    if z >= 0.0 { (1.0 - t, t) } else { (t, 1.0 - t) }
}

pub fn chi2_sf(x: f64, k: f64) -> f64 {
    gamma_pq(0.5 * k, 0.5 * x).1
}

fn betacf(a: f64, b: f64, x: f64) -> f64 {
    let tiny = 1e-300;
    let qab = a + b;
    let qap = a + 1.0;
    let qam = a - 1.0;
    let mut c = 1.0;
    let mut d = 1.0 - qab * x / qap;
    if d.abs() < tiny {
        d = tiny;
    }
    d = 1.0 / d;
    let mut h = d;
    for m in 1..100_000 {
        let m = m as f64;
        let m2 = 2.0 * m;
        let aa = m * (b - m) * x / ((qam + m2) * (a + m2));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        h *= d * c;
        let aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-16 {
            break;
        }
    }
    h
}

/// Regularised incomplete beta I_x(a,b), with `y = 1 - x` supplied for accuracy.
pub fn betai(a: f64, b: f64, x: f64, y: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if y <= 0.0 {
        return 1.0;
    }
    let bt = (lgamma(a + b) - lgamma(a) - lgamma(b) + a * x.ln() + b * y.ln()).exp();
    if x < (a + 1.0) / (a + b + 2.0) {
        bt * betacf(a, b, x) / a
    } else {
        1.0 - bt * betacf(b, a, y) / b
    }
}

/// Two-sided Student-t tail P(|T| > t).
pub fn t_two_sided(t: f64, df: f64) -> f64 {
    let t2 = t * t;
    if t2.is_infinite() {
        return 0.0;
    }
    let s = df + t2;
    betai(0.5 * df, 0.5, df / s, t2 / s)
}

/// Upper tail of F(1, df2).
pub fn f1_sf(f: f64, df2: f64) -> f64 {
    if f <= 0.0 {
        return 1.0;
    }
    if f.is_infinite() {
        return 0.0;
    }
    let s = df2 + f;
    betai(0.5 * df2, 0.5, df2 / s, f / s)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn known() {
        assert!((lgamma(5.0) - 24f64.ln()).abs() < 1e-13);
        assert!((lgamma(0.5) - std::f64::consts::PI.sqrt().ln()).abs() < 1e-13);
        assert!((normal_cs(1.96).1 - 0.024997895148220435).abs() < 1e-14);
        assert!((normal_cs(10.0).1 / 7.61985302416052e-24 - 1.0).abs() < 1e-11);
        assert!((chi2_sf(3.841458820694124, 1.0) - 0.05).abs() < 1e-12);
        assert!((t_two_sided(2.228138851964939, 10.0) - 0.05).abs() < 1e-11);
        assert!((f1_sf(4.964602743730711, 10.0) - 0.05).abs() < 1e-11);
        assert!((gamma_pq(3.0, 2.0).0 - 0.3233235838169366).abs() < 1e-13);
    }
}

/// Standard normal quantile given both tails (the smaller one decides).
pub fn normal_quantile(c: f64, s: f64) -> f64 {
    let p = c.min(s);
    if !(p > 1e-300) {
        return f64::NAN;
    }
    let (mut lo, mut hi) = (0.0f64, 38.0f64);
    for _ in 0..90 {
        let m = 0.5 * (lo + hi);
        if normal_cs(m).1 > p { lo = m } else { hi = m }
    }
    let z = 0.5 * (lo + hi);
    if c < s { -z } else { z }
}
