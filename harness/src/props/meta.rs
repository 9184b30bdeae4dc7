//! Comparison of two fits related by a known transformation of the problem.
use super::formula::{mix2, sat_noise, te_mix};
use crate::case::*;
use crate::ctx::Ctx;
use crate::linalg::*;
use crate::refm::*;
use crate::run::*;
use crate::special::*;
use crate::stat::*;

pub struct Side<'a> {
    pub c: &'a Case,
    pub m: &'a dyn ModelDyn,
    pub f: &'a dyn FitDyn,
    pub rf: &'a Ref,
    pub t: Tol<'a>,
}

/// How the statistics of problem `b` follow from those of problem `a`.
pub struct Map {
    /// coefficients of b = t * coefficients of a + t0
    pub t: Mat,
    pub ti: Mat,
    pub t0: Vec<f64>,
    /// row of a behind each row of b
    pub rows: Vec<usize>,
    /// feature column of a behind each feature column of b
    pub cols: Vec<usize>,
    /// factor from a to b; None: the statistic is not comparable
    pub scale: Box<dyn Fn(St) -> Option<f64>>,
    /// additional factor for row i of b
    pub rowf: Box<dyn Fn(St, usize) -> f64>,
}

pub fn eye(k: usize) -> Mat {
    let mut m = Mat::zeros(k, k);
    (0..k).for_each(|i| m[(i, i)] = 1.0);
    m
}

impl Map {
    pub fn id(c: &Case) -> Map {
        Map {
            t: eye(c.k()),
            ti: eye(c.k()),
            t0: vec![0.0; c.k()],
            rows: (0..c.n()).collect(),
            cols: (0..c.p()).collect(),
            scale: Box::new(|s| if s == St::NIter { None } else { Some(1.0) }),
            rowf: Box::new(|_, _| 1.0),
        }
    }
    /// expected value and allowance of `st` in b from value and allowance in a
    fn apply(&self, st: St, v: &Val, tol: &[f64], a: &Side, b: &Side) -> Option<(Val, Vec<f64>)> {
        let s = (self.scale)(st)?;
        let k = self.t.r;
        let abs = |m: &Mat| Mat { r: m.r, c: m.c, a: m.a.iter().map(|x| x.abs()).collect() };
        // infinite allowances times structural zeros
        let mulz = |m: &Mat, v: &[f64]| -> Vec<f64> {
            (0..m.r).map(|i| (0..m.c).filter(|j| m[(i, *j)] != 0.0).map(|j| m[(i, j)].abs() * v[j]).sum()).collect()
        };
        let mulzm = |m: &Mat, t: &Mat| -> Mat {
            let mut o = Mat::zeros(m.r, t.c);
            for i in 0..m.r {
                for l in 0..t.c {
                    o[(i, l)] = (0..m.c).filter(|j| m[(i, *j)] != 0.0).map(|j| m[(i, j)].abs() * t[(j, l)]).sum();
                }
            }
            o
        };
        let fail = |n: usize| Some((Val::V(vec![f64::NAN; n]), vec![0.0; n]));
        Some(match st {
            St::Result => {
                let w = v.v();
                if w.len() != k {
                    return fail(k);
                }
                let mut o = self.t.mulv(w);
                let e = mulz(&self.t, tol);
                (0..k).for_each(|j| o[j] += self.t0[j]);
                let e = (0..k).map(|j| e[j] + kp() * a.rf.eps * (self.t0[j].abs() + (0..k).map(|l| (self.t[(j, l)] * w[l]).abs()).sum::<f64>())).collect();
                (Val::V(o.iter().map(|x| x * s).collect()), e)
            }
            St::WaldZ | St::PWald | St::PExact => {
                let w = v.v();
                if w.len() != k {
                    return fail(k);
                }
                let (mut o, mut e) = (vec![f64::NAN; k], vec![f64::INFINITY; k]);
                for i in 0..k {
                    let nz: Vec<usize> = (0..k).filter(|j| self.t[(i, *j)] != 0.0).collect();
                    if nz.len() == 1 && self.t0[i] == 0.0 {
                        let sg = if st == St::WaldZ { self.t[(i, nz[0])].signum() * s } else { s };
                        o[i] = w[nz[0]] * sg;
                        e[i] = tol[nz[0]] * s.abs();
                    }
                }
                (Val::V(o), e)
            }
            St::Cov | St::Fisher => {
                let m = v.m();
                if (m.r, m.c) != (k, k) {
                    return fail(k * k);
                }
                let l = if st == St::Cov { self.t.clone() } else { self.ti.t() };
                let o = l.mul(m).mul(&l.t()).scale(s);
                let tm = Mat { r: k, c: k, a: tol.to_vec() };
                let e1 = mulzm(&l, &tm);
                let e2 = mulzm(&l, &e1.t()).t().scale(s.abs());
                let round = abs(&l).mul(&abs(m)).mul(&abs(&l).t()).scale(kp() * a.rf.eps * s.abs());
                (Val::M(o), e2.add(&round).a)
            }
            St::Score => {
                let w = v.v();
                if w.len() != k {
                    return fail(k);
                }
                let l = self.ti.t();
                (Val::V(l.mulv(w).iter().map(|x| x * s).collect()), mulz(&l, tol).iter().map(|x| x * s.abs()).collect())
            }
            St::Infl | St::LooExact => {
                let m = v.m();
                if m.c != k || m.r != a.c.n() {
                    return fail(k * self.rows.len());
                }
                let (mut o, mut e) = (Mat::zeros(self.rows.len(), k), vec![]);
                for (i, &r) in self.rows.iter().enumerate() {
                    let rf = (self.rowf)(st, i) * s;
                    let q = self.t.mulv(m.row(r));
                    let te = mulz(&self.t, &tol[r * k..(r + 1) * k]);
                    for j in 0..k {
                        o[(i, j)] = if st == St::LooExact { q[j] + self.t0[j] } else { q[j] * rf };
                        e.push(te[j] * rf.abs() + kp() * a.rf.eps * (self.t0[j].abs() * (st == St::LooExact) as u8 as f64 + (0..k).map(|l| (self.t[(j, l)] * m[(r, l)]).abs()).sum::<f64>()));
                    }
                }
                (Val::M(o), e)
            }
            St::Hat => {
                let m = v.m();
                let n = a.c.n();
                if (m.r, m.c) != (n, n) {
                    return fail(self.rows.len().pow(2));
                }
                let (mut o, mut e) = (Mat::zeros(self.rows.len(), self.rows.len()), vec![]);
                for (i, &r) in self.rows.iter().enumerate() {
                    for (j, &q) in self.rows.iter().enumerate() {
                        let f = s * (self.rowf)(st, j);
                        o[(i, j)] = m[(r, q)] * f;
                        e.push(tol[r * n + q] * f.abs());
                    }
                }
                (Val::M(o), e)
            }
            St::ResidPart => {
                let m = v.m();
                let p = a.c.p();
                if (m.r, m.c) != (a.c.n(), p) {
                    return fail(self.rows.len() * p);
                }
                let s0 = a.c.intercept as usize;
                let (mut o, mut e) = (Mat::zeros(self.rows.len(), p), vec![]);
                for (i, &r) in self.rows.iter().enumerate() {
                    for (j, &q) in self.cols.iter().enumerate() {
                        let cen = if b.c.intercept { b.t.ms[j] } else { 0.0 };
                        let add = (b.c.x[(i, j)] - cen) * self.t0[j + s0];
                        o[(i, j)] = m[(r, q)] * s + add;
                        e.push(tol[r * p + q] * s.abs() + kp() * a.rf.eps * (b.c.x[(i, j)].abs() + cen.abs()) * self.t0[j + s0].abs());
                    }
                }
                (Val::M(o), e)
            }
            St::Cooks | St::Lev | St::ResidDev | St::ResidDevStd | St::ResidPear | St::ResidPearStd | St::ResidResp | St::ResidStudent | St::ResidWork | St::ResidQuant => {
                let w = v.v();
                if w.len() != a.c.n() {
                    return fail(self.rows.len());
                }
                let f = |i: usize| s * (self.rowf)(st, i);
                (Val::V(self.rows.iter().enumerate().map(|(i, r)| w[*r] * f(i)).collect()), self.rows.iter().enumerate().map(|(i, r)| tol[*r] * f(i).abs()).collect())
            }
            _ => (Val::S(v.s() * s), vec![tol[0] * s.abs()]),
        })
    }
}

/// Allowance for the p-values of the drop-one-coefficient test: the reduced fits have the same
/// convergence uncertainty as the full one.
fn tol_exact(s: &Side, p: &Val) -> Vec<f64> {
    let rf = s.rf;
    p.v().iter()
        .map(|p| {
            if s.c.opts.l2 > 0.0 || s.c.opts.l1 > 0.0 || !(*p > 0.0 && *p <= 1.0) || rf.fam.dispersed() && !(s.t.rphi < 0.1 && rf.ndf() > 0.0) {
                return f64::INFINITY;
            }
            let d = if rf.fam.dispersed() { rf.ndf() } else { 0.0 };
            let sf = |x: f64| if x <= 0.0 { 1.0 } else if d > 0.0 { f1_sf(x, d) } else { chi2_sf(x, 1.0) };
            let (mut lo, mut hi) = (0.0f64, 1.0f64);
            while sf(hi) > *p && hi < 1e12 {
                hi *= 2.0;
            }
            for _ in 0..80 {
                let m = 0.5 * (lo + hi);
                if sf(m) > *p { lo = m } else { hi = m }
            }
            let x = 0.5 * (lo + hi);
            let del2 = 2.0 * (kp() * rf.ll_err + 4.0 * s.c.tol() * s.c.n() as f64) + kp() * rf.eps * x * s.t.phi;
            let t = 8.0 * (s.t.tdev + del2) / s.t.phi + x * (s.t.rphi + kp() * rf.eps);
            spread(x, t, f64::NEG_INFINITY, &sf) + 1e-9 * p * (1.0 - p.max(1e-300).ln()) + if s.c.f32 { 1e-44 } else { 0.0 }
        })
        .collect()
}

pub fn tolerance(s: &Side, st: St, v: &Val) -> Vec<f64> {
    match st {
        St::PExact => tol_exact(s, v),
        _ => s.t.tol(st),
    }
}

/// A likelihood that is not concave may have several stationary points.
fn other_optimum(a: &Side, b: &Side, map: &Map) -> bool {
    if a.c.fam.concave() && b.c.fam.concave() {
        return false;
    }
    let still = |s: &Side| s.rf.decrement().is_some_and(|d| 2.0 * d <= s.t.del * s.t.del);
    let ta = a.t.tol(St::Result);
    let Some((w, e)) = map.apply(St::Result, &Val::V(a.rf.beta.clone()), &ta, a, b) else { return false };
    let tb = b.t.tol(St::Result);
    let far = (0..b.rf.k).any(|j| (w.v()[j] - b.rf.beta[j]).abs() > e[j] + tb[j]);
    far && still(a) && still(b)
}

/// Compare every listed statistic. Returns false after a violation.
pub fn compare(ctx: &mut Ctx, name: &str, a: &Side, b: &Side, map: &Map, list: &[St]) -> bool {
    if other_optimum(a, b, map) {
        ctx.skip("other-optimum");
        return true;
    }
    let mut good = true;
    for &st in list {
        if !st.applies(a.c.fam) || !st.applies(b.c.fam) || (map.scale)(st).is_none() {
            continue;
        }
        if a.c.k() == 0 && matches!(st, St::PWald | St::PExact | St::Cooks | St::WaldTest | St::ScoreTest) {
            continue;
        }
        // links written by a user extend beyond the branch considered by the reference
        let half = a.c.fam.user() && a.c.fam.dom() != 0;
        let null = matches!(st, St::NullLike | St::Lr | St::PLr | St::WaldTest | St::ScoreTest | St::RSq);
        if st == St::PExact && !a.c.fam.concave() || half && null && a.c.off.is_some() {
            continue;
        }
        let oracle = format!("{name}:{st:?}");
        let what = format!("{} {name} {st:?}", b.c.brief());
        match (a.f.get(st), b.f.get(st)) {
            (Ok(va), Ok(vb)) => {
                let ta = tolerance(a, st, &va);
                let Some((want, mut tol)) = map.apply(st, &va, &ta, a, b) else { continue };
                let tb = tolerance(b, st, &vb);
                if tb.len() != tol.len() || vb.flat().len() != tol.len() {
                    ctx.fail(&oracle, format!("{what}: {} values, expected {}", vb.flat().len(), tol.len()));
                    good = false;
                    continue;
                }
                tol.iter_mut().zip(&tb).for_each(|(t, b)| *t += b);
                // a statistic may be undefined on both sides
                let w = want.flat();
                for (i, g) in vb.flat().iter().enumerate() {
                    if w[i].is_finite() != g.is_finite() && tol[i].is_finite() {
                        ctx.fail(&oracle, format!("{what}[{i}]: got {g} want {}", w[i]));
                        good = false;
                        break;
                    }
                }
                good = good && judge(ctx, &oracle, &vb, &want, &tol, &what);
            }
            (Err(e), Err(g)) => {
                // the information is well conditioned, so there is no reason to fail; only panics matter here
                if e.is_panic() || g.is_panic() {
                    ctx.fail(&oracle, format!("{what}: {e} / {g}"));
                }
                ctx.skip(&format!("{name}-both-err-{st:?}-{e}-{}", a.c.fam.name()));
            }
            (x, y) => {
                // the maximum of the null likelihood may be at infinity
                let nul = |s: &Side| s.f.get(St::NullLike).is_ok_and(|v| v.flat().iter().all(|v| v.is_finite()));
                if null && !(nul(a) && nul(b)) {
                    ctx.skip("null-undefined");
                    continue;
                }
                let slow = [&x, &y].iter().any(|r| matches!(r, Err(Fail::MaxIter { .. })));
                if st == St::PExact && (a.c.fam.dom() != 0 || !a.c.fam.concave() || slow) {
                    // a reduced fit may run into the boundary of the domain or converge slowly
                    ctx.skip("exact-one-sided");
                    continue;
                }
                let d = |r: &Result<Val, Fail>| r.as_ref().err().map(|e| e.to_string()).unwrap_or("Ok".into());
                ctx.fail(&oracle, format!("{what}: {} vs {}", d(&x), d(&y)));
                good = false;
            }
        }
        if !good && st == St::Result {
            return false;
        }
    }
    good
}

/// Likelihood, score and information at given parameters of a (mapped to b).
pub fn compare_at(ctx: &mut Ctx, name: &str, a: &Side, b: &Side, map: &Map, pa: &[f64]) -> bool {
    if other_optimum(a, b, map) {
        ctx.skip("other-optimum");
        return true;
    }
    let k = pa.len();
    let mut pb = map.t.mulv(pa);
    (0..k).for_each(|j| pb[j] += map.t0[j]);
    let (Some(ra), Some(rb)) = (Ref::at(a.c, pa), Ref::at(b.c, &pb)) else { return true };
    let bad = |r: &Ref, c: &Case| {
        !(r.rt < 1e-3) || !r.like().is_finite() || !r.freg.finite() || (0..r.n).any(|i| r.tw[i] > 0.0 && !r.srel[i].is_finite() && !matches!(c.fam.base(), crate::family::Base::Bern | crate::family::Base::Bin(_)))
    };
    if bad(&ra, a.c) || bad(&rb, b.c) {
        ctx.skip("sensitive-alternative");
        return true;
    }
    // rounding of the mapped parameters themselves
    let dp: Vec<f64> = (0..k).map(|i| 4.0 * ra.eps * (map.t0[i].abs() + (0..k).map(|j| (map.t[(i, j)] * pa[j]).abs()).sum::<f64>())).collect();
    let shift = (0..k).map(|j| dp[j] * rb.freg[(j, j)].max(0.0).sqrt()).sum::<f64>();
    let what = format!("{} {name}", b.c.brief());
    let mut good = true;
    if let (Some(sl), Ok(u), Ok(v)) = ((map.scale)(St::Lr), a.f.lr_against(pa), b.f.lr_against(&pb)) {
        let l = |s: &Side, r: &Ref| 2.0 * (kp() * (r.ll_err + s.rf.ll_err) + s.t.del * s.t.del);
        let g = rb.score();
        let lin = 2.0 * (0..k).map(|j| dp[j] * g[j].abs()).sum::<f64>() + shift * shift;
        good &= ctx.close(&format!("{name}:lr_test_against"), v, u * sl, l(a, &ra) * sl.abs() + l(b, &rb) + lin, || format!("{what} lr_test_against"));
    }
    if let (Some(ss), Ok(u), Ok(v)) = ((map.scale)(St::Score), a.f.score(pa), b.f.score(&pb)) {
        if u.len() != k || v.len() != k {
            ctx.fail(&format!("{name}:score(p)"), format!("{what} lengths {} {}", u.len(), v.len()));
            return false;
        }
        let te = |s: &Side, r: &Ref| -> Vec<f64> {
            let se = r.score_err();
            (0..k).map(|j| kp() * (se[j] + te_mix(s.c, r, j)) + if s.c.f32 { 1e-32 } else { 1e-100 }).collect()
        };
        let (ta, tb) = (te(a, &ra), te(b, &rb));
        let l = map.ti.t();
        let w = l.mulv(&u);
        for i in 0..k {
            let t: f64 = (0..k).map(|j| l[(i, j)].abs() * (ta[j] + kp() * ra.eps * u[j].abs())).sum();
            good &= ctx.close(&format!("{name}:score(p)"), v[i], w[i] * ss, t * ss.abs() + tb[i] + 4.0 * shift * rb.freg[(i, i)].max(0.0).sqrt(), || format!("{what} score(p)[{i}]"));
        }
    }
    if let (Some(sf), Ok(u), Ok(v)) = ((map.scale)(St::Fisher), a.f.fisher(pa), b.f.fisher(&pb)) {
        let te = |s: &Side, r: &Ref| -> Mat {
            let n = sat_noise(s.c, r);
            let mut m = Mat::zeros(k, k);
            for i in 0..k {
                for j in 0..k {
                    m[(i, j)] = 20.0 * kp() * r.rt * (r.freg[(i, i)] * r.freg[(j, j)]).sqrt() * mix2(s.c, r, i, j) + n[(i, j)];
                }
            }
            m
        };
        if a.c.opts.l1 == 0.0 {
            let l = map.ti.t();
            let w = l.mul(&u).mul(&l.t()).scale(sf);
            let la = Mat { r: k, c: k, a: l.a.iter().map(|x| x.abs()).collect() };
            let ta = la.mul(&te(a, &ra)).mul(&la.t()).scale(sf.abs());
            let tb = te(b, &rb);
            // effect of the rounding of the mapped parameters
            let dr = (0..rb.n).filter(|i| rb.tw[*i] > 0.0).map(|i| (0..k).map(|j| rb.xd[(i, j)].abs() * dp[j]).sum::<f64>() * (1.0 + sens(b.c.fam, rb.eta[i]))).fold(0.0, f64::max);
            for i in 0..k {
                for j in 0..k {
                    if good {
                        good &= ctx.close(&format!("{name}:fisher(p)"), v[(i, j)], w[(i, j)], ta[(i, j)] + tb[(i, j)] + 4.0 * dr * (rb.freg[(i, i)] * rb.freg[(j, j)]).sqrt() + if a.c.f32 { 1e-28 } else { 1e-100 }, || format!("{what} fisher(p)[{i},{j}]"));
                    }
                }
            }
        }
    }
    good
}

/// Build and fit both problems and hand them over when both are fit for comparison.
pub fn pair(ctx: &mut Ctx, name: &str, ca: &Case, cb: &Case, k: impl FnOnce(&mut Ctx, &Side, &Side)) {
    ctx.dump = format!("--- {name}: first problem\n{}--- second problem\n{}", ca.dump(), cb.dump());
    let oracle = format!("{name}:both-fit");
    let (ma, mb) = match (build(ca), build(cb)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) if a.kind() == b.kind() && !a.is_panic() => return ctx.skip(&format!("build-{}", a.kind())),
        (a, b) => return ctx.fail(&oracle, format!("{}: build {} vs {}", cb.brief(), a.err().map(|e| e.to_string()).unwrap_or("Ok".into()), b.err().map(|e| e.to_string()).unwrap_or("Ok".into()))),
    };
    let (fa, fb) = match (ma.fit(&ca.opts), mb.fit(&cb.opts)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) => return ctx.skip(&format!("fit-{}-{}", a.kind(), b.kind())),
        (a, b) => {
            let (ok, c) = if let Ok(a) = &a { (a, ca) } else { (b.as_ref().ok().unwrap(), cb) };
            let beta = ok.beta();
            let e = a.as_ref().err().or(b.as_ref().err()).unwrap().to_string();
            let settled = beta.iter().all(|v| v.is_finite()) && c.fam.concave() && c.fam.dom() == 0 && ok.n_iter() < 40;
            let well = settled && Ref::at(c, &beta).is_some_and(|r| Tol::new(c, &r, conv(c, &r)).is_ok_and(|t| t.r2 < 1e-5) && r.inv.as_ref().is_some_and(|i| i.1 < 1e4));
            if well {
                return ctx.fail(&oracle, format!("{}: one problem fits in {} iterations, the equivalent one gives {e}", cb.brief(), ok.n_iter()));
            }
            return ctx.skip(&format!("one-sided-{}", e.chars().take(5).collect::<String>()));
        }
    };
    let (ba, bb) = (fa.beta(), fb.beta());
    if ba.iter().chain(&bb).any(|v| !v.is_finite()) {
        return ctx.skip("non-finite");
    }
    let (Some(ra), Some(rb)) = (Ref::at(ca, &ba), Ref::at(cb, &bb)) else { return ctx.skip("domain") };
    let (ta, tb) = match (Tol::new(ca, &ra, conv(ca, &ra)), Tol::new(cb, &rb, conv(cb, &rb))) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return ctx.skip(a.err().or(b.err()).unwrap()),
    };
    ctx.config(ca);
    let a = Side { c: ca, m: &*ma, f: &*fa, rf: &ra, t: ta };
    let b = Side { c: cb, m: &*mb, f: &*fb, rf: &rb, t: tb };
    k(ctx, &a, &b);
}
