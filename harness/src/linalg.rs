//! Small dense linear algebra for the reference computations (no BLAS).
#[derive(Clone, Debug, PartialEq)]
pub struct Mat {
    pub r: usize,
    pub c: usize,
    pub a: Vec<f64>,
}

impl std::ops::Index<(usize, usize)> for Mat {
    type Output = f64;
    fn index(&self, (i, j): (usize, usize)) -> &f64 {
        &self.a[i * self.c + j]
    }
}
impl std::ops::IndexMut<(usize, usize)> for Mat {
    fn index_mut(&mut self, (i, j): (usize, usize)) -> &mut f64 {
        &mut self.a[i * self.c + j]
    }
}

impl Mat {
    pub fn zeros(r: usize, c: usize) -> Mat {
        Mat { r, c, a: vec![0.0; r * c] }
    }
    pub fn row(&self, i: usize) -> &[f64] {
        &self.a[i * self.c..(i + 1) * self.c]
    }
    pub fn col(&self, j: usize) -> Vec<f64> {
        (0..self.r).map(|i| self[(i, j)]).collect()
    }
    pub fn t(&self) -> Mat {
        let mut m = Mat::zeros(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m[(j, i)] = self[(i, j)];
            }
        }
        m
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        assert_eq!(self.c, o.r);
        let mut m = Mat::zeros(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let v = self[(i, k)];
                for j in 0..o.c {
                    m.a[i * o.c + j] += v * o.a[k * o.c + j];
                }
            }
        }
        m
    }
    pub fn mulv(&self, v: &[f64]) -> Vec<f64> {
        assert_eq!(self.c, v.len());
        (0..self.r).map(|i| dot(self.row(i), v)).collect()
    }
    pub fn scale(&self, s: f64) -> Mat {
        Mat { r: self.r, c: self.c, a: self.a.iter().map(|v| v * s).collect() }
    }
    pub fn add(&self, o: &Mat) -> Mat {
        Mat { r: self.r, c: self.c, a: self.a.iter().zip(&o.a).map(|(a, b)| a + b).collect() }
    }
    /// Keep the listed rows.
    pub fn rows(&self, idx: &[usize]) -> Mat {
        let mut a = Vec::with_capacity(idx.len() * self.c);
        for &i in idx {
            a.extend_from_slice(self.row(i));
        }
        Mat { r: idx.len(), c: self.c, a }
    }
    pub fn cols(&self, idx: &[usize]) -> Mat {
        let mut m = Mat::zeros(self.r, idx.len());
        for i in 0..self.r {
            for (k, &j) in idx.iter().enumerate() {
                m[(i, k)] = self[(i, j)];
            }
        }
        m
    }
    pub fn with_ones(&self) -> Mat {
        let mut m = Mat::zeros(self.r, self.c + 1);
        for i in 0..self.r {
            m[(i, 0)] = 1.0;
            for j in 0..self.c {
                m[(i, j + 1)] = self[(i, j)];
            }
        }
        m
    }
    pub fn finite(&self) -> bool {
        self.a.iter().all(|v| v.is_finite())
    }
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// Symmetric positive definite inverse after diagonal equilibration; returns (inverse, condition
/// number of the equilibrated matrix). None if not numerically positive definite.
pub fn spd_inv(m: &Mat) -> Option<(Mat, f64)> {
    let n = m.r;
    let d: Vec<f64> = (0..n).map(|i| m[(i, i)].sqrt()).collect();
    if d.iter().any(|v| !(v.is_finite() && *v > 0.0)) {
        return None;
    }
    let mut s = m.clone();
    for i in 0..n {
        for j in 0..n {
            s[(i, j)] = 0.5 * (m[(i, j)] + m[(j, i)]) / (d[i] * d[j]);
        }
    }
    let (w, v) = sym_eig(&s);
    let mx = w.iter().cloned().fold(0.0, f64::max);
    let mn = w.iter().cloned().fold(f64::INFINITY, f64::min);
    if n > 0 && !(mn > mx * 1e-15) {
        return None;
    }
    let mut inv = Mat::zeros(n, n);
    for i in 0..n {
        for j in 0..n {
            let mut t = 0.0;
            for k in 0..n {
                t += v[(i, k)] * v[(j, k)] / w[k];
            }
            inv[(i, j)] = t / (d[i] * d[j]);
        }
    }
    Some((inv, if n == 0 { 1.0 } else { mx / mn }))
}

/// Jacobi eigen-decomposition of a symmetric matrix: (values, vectors in columns).
pub fn sym_eig(m: &Mat) -> (Vec<f64>, Mat) {
    let n = m.r;
    let mut a = m.clone();
    let mut v = Mat::zeros(n, n);
    for i in 0..n {
        v[(i, i)] = 1.0;
    }
    for _ in 0..100 {
        let mut off = 0.0;
        let mut dg = 0.0;
        for i in 0..n {
            dg += a[(i, i)] * a[(i, i)];
            for j in 0..i {
                off += a[(i, j)] * a[(i, j)];
            }
        }
        if off <= 1e-34 * dg || off == 0.0 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[(p, q)] == 0.0 {
                    continue;
                }
                let th = (a[(q, q)] - a[(p, p)]) / (2.0 * a[(p, q)]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[(k, p)], a[(k, q)]);
                    a[(k, p)] = c * x - s * y;
                    a[(k, q)] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[(p, k)], a[(q, k)]);
                    a[(p, k)] = c * x - s * y;
                    a[(q, k)] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[(k, p)], v[(k, q)]);
                    v[(k, p)] = c * x - s * y;
                    v[(k, q)] = s * x + c * y;
                }
            }
        }
    }
    ((0..n).map(|i| a[(i, i)]).collect(), v)
}
