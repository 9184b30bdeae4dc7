//! Deterministic generator (xoshiro256++), so that (property, seed, index) replays a case.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    spare: Option<f64>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)], spare: None }
    }
    pub fn of(parts: &[u64]) -> Self {
        let mut h = 0xD1B5_4A32_D192_ED03u64;
        for p in parts {
            let mut t = h ^ p.wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h = splitmix(&mut t);
        }
        Rng::new(h)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in [0,1).
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn logu(&mut self, a: f64, b: f64) -> f64 {
        self.range(a.ln(), b.ln()).exp()
    }
    /// Uniform integer in a..=b.
    pub fn int(&mut self, a: usize, b: usize) -> usize {
        a + (self.u64() % ((b - a + 1) as u64)) as usize
    }
    pub fn p(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.int(0, v.len() - 1);
        &v[i]
    }
    pub fn normal(&mut self) -> f64 {
        if let Some(z) = self.spare.take() {
            return z;
        }
        loop {
            let a = 2.0 * self.f() - 1.0;
            let b = 2.0 * self.f() - 1.0;
            let r = a * a + b * b;
            if r > 0.0 && r < 1.0 {
                let m = (-2.0 * r.ln() / r).sqrt();
                self.spare = Some(b * m);
                return a * m;
            }
        }
    }
    pub fn expo(&mut self) -> f64 {
        -(1.0 - self.f()).ln()
    }
    /// Gamma(shape a, scale 1).
    pub fn gamma(&mut self, a: f64) -> f64 {
        if a < 1.0 {
            let u = self.f().max(1e-300);
            return self.gamma(a + 1.0) * u.powf(1.0 / a);
        }
        let d = a - 1.0 / 3.0;
        let c = 1.0 / (9.0 * d).sqrt();
        loop {
            let x = self.normal();
            let v = (1.0 + c * x).powi(3);
            if v <= 0.0 {
                continue;
            }
            let u = self.f().max(1e-300);
            if u.ln() < 0.5 * x * x + d - d * v + d * v.ln() {
                return d * v;
            }
        }
    }
    pub fn poisson(&mut self, mu: f64) -> f64 {
        if mu <= 0.0 {
            return 0.0;
        }
        if mu > 30.0 {
            let z = self.normal();
            return (mu + mu.sqrt() * z).round().max(0.0);
        }
        let l = (-mu).exp();
        let mut k = 0.0;
        let mut p = self.f();
        while p > l && k < 500.0 {
            p *= self.f();
            k += 1.0;
        }
        k
    }
    pub fn binom(&mut self, n: usize, p: f64) -> f64 {
        if n > 200 {
            let m = n as f64 * p;
            let z = self.normal();
            return (m + (m * (1.0 - p)).max(0.0).sqrt() * z).round().clamp(0.0, n as f64);
        }
        (0..n).filter(|_| self.f() < p).count() as f64
    }
    /// Inverse Gaussian with mean mu and shape lam.
    pub fn invgauss(&mut self, mu: f64, lam: f64) -> f64 {
        let z = self.normal();
        let y = z * z;
        let x = mu + mu * mu * y / (2.0 * lam)
            - mu / (2.0 * lam) * (4.0 * mu * lam * y + mu * mu * y * y).sqrt();
        let x = x.max(mu * 1e-9);
        if self.f() <= mu / (mu + x) { x } else { mu * mu / x }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = self.int(0, i);
            v.swap(i, j);
        }
        v
    }
}
