//! Verdict bookkeeping: violations, margins, coverage, skips.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Violation {
    pub idx: u64,
    pub oracle: String,
    pub detail: String,
    pub dump: String,
}

#[derive(Default)]
pub struct Ctx {
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub violations: Vec<Violation>,
    /// largest observed error / allowance per oracle
    pub margins: BTreeMap<String, (f64, u64)>,
    /// number of oracle evaluations per oracle
    pub evals: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub skips: BTreeMap<String, u64>,
    pub distinct: BTreeSet<u64>,
    pub configs: BTreeSet<String>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    pub calls: u64,
    pub dump: String,
    pub nontrivial: bool,
    pub harness_errors: Vec<String>,
}

impl Ctx {
    /// Register the configuration of a case that was judged (coverage).
    pub fn config(&mut self, c: &crate::case::Case) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        use std::hash::{Hash, Hasher};
        c.dump().hash(&mut h);
        self.distinct.insert(h.finish());
        self.configs.insert(format!(
            "{}{}|{}{}{}{}{}{}{}",
            c.fam.name(),
            if c.f32 { "/f32" } else { "" },
            if c.intercept { "i" } else { "-" },
            if c.std { "s" } else { "-" },
            if c.off.is_some() { "o" } else { "-" },
            if c.vw.is_some() { "v" } else { "-" },
            if c.fw.is_some() { "f" } else { "-" },
            if c.opts.l1 > 0.0 { "1" } else { "-" },
            if c.opts.l2 > 0.0 { "2" } else { "-" },
        ));
        if self.samples.len() < 2 {
            self.samples.push(c.brief());
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    pub fn skip(&mut self, k: &str) {
        *self.skips.entry(k.to_string()).or_default() += 1;
    }
    pub fn fail(&mut self, oracle: &str, detail: impl Into<String>) {
        *self.evals.entry(oracle.to_string()).or_default() += 1;
        self.nontrivial = true;
        let detail = detail.into();
        if self.violations.iter().filter(|v| v.oracle == oracle).count() < 40 {
            self.violations.push(Violation { idx: self.idx, oracle: oracle.into(), detail, dump: self.dump.clone() });
        } else {
            *self.counts.entry(format!("more-violations:{oracle}")).or_default() += 1;
        }
    }
    /// A boolean oracle.
    pub fn ok(&mut self, oracle: &str, cond: bool, detail: impl FnOnce() -> String) -> bool {
        if cond {
            *self.evals.entry(oracle.to_string()).or_default() += 1;
            self.nontrivial = true;
        } else {
            self.fail(oracle, detail());
        }
        cond
    }
    /// |a - b| <= tol, recording the margin. NaN never satisfies it.
    pub fn close(&mut self, oracle: &str, a: f64, b: f64, tol: f64, detail: impl FnOnce() -> String) -> bool {
        let same = a == b || (a.is_nan() && b.is_nan());
        let ratio = if same { 0.0 } else { (a - b).abs() / tol };
        let r = if ratio.is_nan() { f64::INFINITY } else { ratio };
        let e = self.margins.entry(oracle.to_string()).or_insert((0.0, self.idx));
        if r > e.0 {
            *e = (r, self.idx);
        }
        if r > 1.0 {
            let d = detail();
            self.fail(oracle, format!("{d}: got {a:.17e} want {b:.17e} (|diff|={:.3e}, allowed {tol:.3e})", (a - b).abs()));
            false
        } else {
            *self.evals.entry(oracle.to_string()).or_default() += 1;
            self.nontrivial = true;
            true
        }
    }
    /// a <= b + 0, i.e. record a / b as the margin.
    pub fn below(&mut self, oracle: &str, a: f64, bound: f64, detail: impl FnOnce() -> String) -> bool {
        let r = if a <= 0.0 { 0.0 } else { a / bound };
        let r = if r.is_nan() { f64::INFINITY } else { r };
        let e = self.margins.entry(oracle.to_string()).or_insert((0.0, self.idx));
        if r > e.0 {
            *e = (r, self.idx);
        }
        if r > 1.0 {
            let d = detail();
            self.fail(oracle, format!("{d}: {a:.6e} exceeds {bound:.6e}"));
            false
        } else {
            *self.evals.entry(oracle.to_string()).or_default() += 1;
            self.nontrivial = true;
            true
        }
    }
    pub fn vclose(&mut self, oracle: &str, a: &[f64], b: &[f64], tol: impl Fn(usize) -> f64, what: &str) -> bool {
        if a.len() != b.len() {
            self.fail(oracle, format!("{what}: length {} want {}", a.len(), b.len()));
            return false;
        }
        let mut good = true;
        for i in 0..a.len() {
            good &= self.close(oracle, a[i], b[i], tol(i), || format!("{what}[{i}]"));
            if !good {
                break;
            }
        }
        good
    }
    pub fn merge(&mut self, o: Ctx) {
        self.violations.extend(o.violations);
        for (k, (r, i)) in o.margins {
            let e = self.margins.entry(k).or_insert((0.0, i));
            if r > e.0 {
                *e = (r, i);
            }
        }
        for (k, v) in o.evals {
            *self.evals.entry(k).or_default() += v;
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.skips {
            *self.skips.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.configs.extend(o.configs);
        if self.samples.len() < 6 {
            self.samples.extend(o.samples);
            self.samples.truncate(6);
        }
        self.known.extend(o.known);
        self.calls += o.calls;
        self.harness_errors.extend(o.harness_errors);
    }
}
