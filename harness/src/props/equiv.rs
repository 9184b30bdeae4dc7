//! C05-C09: problems that are equivalent by definition give equivalent fits.
use super::formula::draw;
use super::meta::*;
use super::Prop;
use crate::case::*;
use crate::ctx::Ctx;
use crate::family::*;
use crate::linalg::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::run::*;
use crate::stat::{conv, with_kp};

pub fn props() -> Vec<Prop> {
    let rule = "pairs of random problems related by the transformation; non-trivial: both fits returned Ok and their statistics were compared";
    vec![
        Prop { id: "C05", quick: 3000, thorough: 90000, run: c05, rule, need: &["replicate:Result", "replicate:PExact", "split:Result", "zero:Result", "zero:LooExact", "ones:Result"] },
        Prop { id: "C06", quick: 3000, thorough: 90000, run: c06, rule, need: &["unit:Result", "scale:Result", "scale:Fisher", "integer:Result", "integer:Dev", "n_eff"] },
        Prop { id: "C07", quick: 3000, thorough: 90000, run: c07, rule, need: &["shift:Result", "constant:Result", "zero-offset:Result", "null-offset:NullLike"] },
        Prop { id: "C08", quick: 3000, thorough: 90000, run: c08, rule, need: &["std:Result", "std:PExact", "std:score(p)", "std:fisher(p)", "affine:Result", "affine-pen:Result", "far:Result", "far:Leverage"] },
        Prop { id: "C09", quick: 3000, thorough: 90000, run: c09, rule, need: &["rows:Result", "columns:Result", "layout:Result", "inputs"] },
    ]
}

const LOO: [St; 1] = [St::LooExact];

/// Alternatives spread around the fit.
fn alt(r: &mut Rng, a: &Side) -> Vec<f64> {
    let se = a.rf.se1().unwrap();
    let h = *r.pick(&[0.0, 0.3, 2.0]);
    a.rf.beta.iter().zip(&se).map(|(b, s)| b + h * s * r.normal()).collect()
}

fn trim(c: Case, m: usize) -> Case {
    if c.n() > m { c.sub_rows(&(0..m).collect::<Vec<_>>()) } else { c }
}

fn c05(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = trim(draw(r), 70);
    let n = c.n();
    let mode = r.int(0, 9);
    if mode <= 3 {
        // every row repeated
        if c.fw.is_none() || r.p(0.3) {
            c.fw = Some((0..n).map(|_| *r.pick(&[1, 1, 1, 2, 2, 3, 5])).collect());
        }
        let fw = c.fw.clone().unwrap();
        let mut idx = vec![];
        for i in 0..n {
            for _ in 0..fw[i].min(12) {
                idx.push(i);
            }
        }
        c.fw = Some(fw.iter().map(|f| *f.min(&12)).collect());
        let fw = c.fw.clone().unwrap();
        let mut b = c.sub_rows(&idx);
        b.fw = None;
        if r.p(0.3) {
            let pm = r.perm(idx.len());
            b = b.sub_rows(&pm);
            idx = pm.iter().map(|i| idx[*i]).collect();
        }
        pair(ctx, "replicate", &c, &b, |ctx, a, b| {
            let mut m = Map::id(a.c);
            m.rows = idx.clone();
            split_map(&mut m, idx.iter().map(|i| 1.0 / fw[*i] as f64).collect());
            compare(ctx, "replicate", a, b, &m, &St::ALL);
            let p = alt(r, a);
            compare_at(ctx, "replicate", a, b, &m, &p);
            let (da, db) = (a.m.data(), b.m.data());
            ctx.close("replicate:n_obs", da.n_obs, db.n_obs, 1e-6, || format!("{} n_obs", a.c.brief()));
            ctx.close("replicate:n_eff", da.n_eff, db.n_eff, 1e-4 * if a.c.f32 { 1.0 } else { 1e-6 } * db.n_eff, || format!("{} n_eff", a.c.brief()));
        });
    } else if mode <= 5 {
        // every row split into parts with frequencies of their own
        let fw: Vec<usize> = c.fw.clone().unwrap_or(vec![1; n]).iter().map(|f| if *f == 0 { 0 } else { f + r.int(0, 2) }).collect();
        let (mut idx, mut fb) = (vec![], vec![]);
        for i in 0..n {
            let mut left = fw[i];
            if left == 0 && r.p(0.5) {
                idx.push(i);
                fb.push(0);
            }
            while left > 0 {
                let g = r.int(1, left);
                idx.push(i);
                fb.push(g);
                left -= g;
                if r.p(0.1) {
                    idx.push(i);
                    fb.push(0);
                }
            }
        }
        c.fw = Some(fw.clone());
        let mut b = c.sub_rows(&idx);
        b.fw = Some(fb.clone());
        pair(ctx, "split", &c, &b, |ctx, a, b| {
            let mut m = Map::id(a.c);
            m.rows = idx.clone();
            split_map(&mut m, (0..idx.len()).map(|i| if fw[idx[i]] == 0 { 1.0 } else { fb[i] as f64 / fw[idx[i]] as f64 }).collect());
            compare(ctx, "split", a, b, &m, &St::ALL);
        });
    } else if mode <= 8 {
        // rows of frequency zero: present with arbitrary content, or absent
        let mut fw = c.fw.clone().unwrap_or_else(|| (0..n).map(|_| r.int(1, 2)).collect());
        if n < c.k() + 4 {
            return ctx.skip("too-small");
        }
        for _ in 0..r.int(1, 2) {
            fw[r.int(0, n - 1)] = 0;
        }
        c.fw = Some(fw.clone());
        let idx: Vec<usize> = (0..n).filter(|i| fw[*i] > 0).collect();
        let b = c.sub_rows(&idx);
        let s = c.fam.dom() as f64;
        let mut junk = false;
        for i in 0..n {
            if fw[i] == 0 && r.p(0.8) {
                junk = true;
                let h = if c.f32 { 10.0 } else { *r.pick(&[1.0, 10.0, 1e4, 1e12, 1e150]) };
                for j in 0..c.p() {
                    if r.p(0.7) {
                        c.x[(i, j)] = h * r.normal();
                    }
                }
                if let Some(o) = c.off.as_mut() {
                    o[i] = h.min(1e6) * r.normal();
                }
                if let Some(w) = c.vw.as_mut() {
                    w[i] = r.logu(1e-6, 1e6);
                }
                if r.p(0.7) {
                    c.y[i] = match c.fam.base() {
                        Base::Lin => h * r.normal(),
                        Base::Bern => r.p(0.5) as u8 as f64,
                        Base::Pois => r.int(0, 200) as f64,
                        Base::Bin(m) => r.int(0, m as usize) as f64,
                        _ => r.logu(1e-6, 1e6),
                    };
                }
                if c.f32 {
                    for j in 0..c.p() {
                        c.x[(i, j)] = c.x[(i, j)] as f32 as f64;
                    }
                    if let Some(o) = c.off.as_mut() {
                        o[i] = o[i] as f32 as f64;
                    }
                    if let Some(w) = c.vw.as_mut() {
                        w[i] = w[i] as f32 as f64;
                    }
                    c.y[i] = c.y[i] as f32 as f64;
                }
            }
        }
        let _ = s;
        c.yt = y_type(r, c.fam, &c.y, c.f32);
        let mut b = b;
        b.yt = y_type(r, b.fam, &b.y, b.f32);
        if junk {
            ctx.count("junk-rows");
        }
        pair(ctx, "zero", &c, &b, |ctx, a, b| {
            let mut m = Map::id(a.c);
            m.rows = idx.clone();
            if !compare(ctx, "zero", a, b, &m, &St::ALL) {
                return;
            }
            let p = alt(r, a);
            compare_at(ctx, "zero", a, b, &m, &p);
            if a.c.n() <= 25 {
                loo(ctx, "zero", a, b, &m);
            }
        });
    } else {
        c.fw = None;
        let mut b = c.clone();
        b.fw = Some(vec![1; n]);
        pair(ctx, "ones", &c, &b, |ctx, a, b| {
            let m = Map::id(a.c);
            if compare(ctx, "ones", a, b, &m, &St::ALL) && n <= 15 {
                loo(ctx, "ones", a, b, &m);
            }
        });
    }
}

/// Exact leave-one-out coefficients, with an allowance from the uncertainty of the reduced fits.
pub fn loo(ctx: &mut Ctx, name: &str, a: &Side, b: &Side, m: &Map) {
    if a.c.fam.dom() != 0 || !a.c.fam.concave() || a.c.opts.l1 > 0.0 {
        return;
    }
    let (x, y) = (a.f.get(St::LooExact), b.f.get(St::LooExact));
    let (va, vb) = match (x, y) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return ctx.skip("loo-both-err"),
        // one of the reduced problems may be separable or singular
        _ => return ctx.skip("loo-one-sided"),
    };
    // each row of the result as a fit of the reduced problem
    let tol = |s: &Side, v: &Val| -> Vec<f64> {
        let mm = v.m();
        let mut o = vec![];
        for i in 0..mm.r {
            let idx: Vec<usize> = (0..s.c.n()).filter(|j| *j != i).collect();
            let d = s.c.sub_rows(&idx);
            let row = mm.row(i);
            let mut t = vec![f64::INFINITY; mm.c];
            if row.iter().all(|v| v.is_finite()) && mm.c == s.c.k() {
                if let Some(rd) = Ref::at(&d, row) {
                    if let Ok(td) = crate::stat::Tol::new(&d, &rd, crate::stat::conv(&d, &rd)) {
                        if td.r2 < if crate::stat::kp() < crate::stat::KP { 0.03 } else { 1e-4 } {
                            t = td.tol(St::Result);
                        }
                    }
                }
            }
            o.extend(t);
        }
        o
    };
    let (ta, tb) = (tol(a, &va), tol(b, &vb));
    let (ma, mb) = (va.m(), vb.m());
    if mb.r != m.rows.len() || mb.c != b.c.k() || ma.c != mb.c {
        return ctx.fail(&format!("{name}:LooExact"), format!("{} shape {}x{}", b.c.brief(), mb.r, mb.c));
    }
    for (i, &q) in m.rows.iter().enumerate() {
        if a.rf.tw[q] == 0.0 {
            continue;
        }
        let w = m.t.mulv(ma.row(q));
        for j in 0..mb.c {
            let t = (0..mb.c).filter(|l| m.t[(j, *l)] != 0.0).map(|l| m.t[(j, l)].abs() * ta[q * mb.c + l]).sum::<f64>() + tb[i * mb.c + j];
            if t.is_finite() && !ctx.close(&format!("{name}:LooExact"), mb[(i, j)], w[j] + m.t0[j], t, || format!("{} {name} loo_exact[{i},{j}]", b.c.brief())) {
                return;
            }
        }
    }
    let _ = LOO;
}

/// Row i of b carries the share `g[i]` of the frequency of its row in a.
fn split_map(m: &mut Map, g: Vec<f64>) {
    m.scale = Box::new(|s| match s {
        St::NIter | St::Cooks | St::ResidPearStd | St::ResidDevStd | St::ResidStudent | St::Infl => None,
        _ => Some(1.0),
    });
    m.rowf = Box::new(move |s, i| match s {
        St::Lev | St::Hat => g[i],
        _ => 1.0,
    });
}

fn c06(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = trim(draw(r), 70);
    let n = c.n();
    // the effective sample size
    {
        if let Ok(m) = build(&c) {
            let d = m.data();
            let tol = 100.0 * c.eps() * c.n_eff();
            ctx.close("n_eff", d.n_eff, c.n_eff(), tol, || format!("{} n_eff", c.brief()));
            ctx.close("n_obs", d.n_obs, c.n_obs(), 100.0 * c.eps() * c.n_obs(), || format!("{} n_obs", c.brief()));
        }
    }
    match r.int(0, 9) {
        0 | 1 => {
            c.vw = None;
            let mut b = c.clone();
            b.vw = Some(vec![1.0; n]);
            pair(ctx, "unit", &c, &b, |ctx, a, b| {
                let m = Map::id(a.c);
                if compare(ctx, "unit", a, b, &m, &St::ALL) && n <= 15 {
                    loo(ctx, "unit", a, b, &m);
                }
            });
        }
        2..=6 => {
            let f = if c.f32 { *r.pick(&[0.25, 0.5, 2.0, 8.0]) } else { *r.pick(&[1e-6, 0.01, 0.3, 0.5, 2.0, 3.0, 17.3, 1e3, 1e6]) };
            let mut b = c.clone();
            b.vw = Some(c.vw_v().iter().map(|w| w * f).collect());
            b.opts.l2 *= f;
            pair(ctx, "scale", &c, &b, |ctx, a, b| {
                let mut m = Map::id(a.c);
                m.scale = Box::new(move |s| match s {
                    St::Result | St::NullLike | St::Hat | St::Lev | St::Infl | St::Ndf | St::TestNdf | St::RSq | St::ResidResp | St::ResidWork | St::ResidPart | St::LooExact | St::Disp => Some(if s == St::NullLike { f } else { 1.0 }),
                    St::ModelLike | St::Dev | St::Score | St::Fisher | St::Lr | St::WaldTest | St::ScoreTest | St::Rss => Some(f),
                    St::Cov => Some(1.0 / f),
                    St::Cooks => Some(f),
                    St::WaldZ | St::ResidPear | St::ResidDev | St::ResidPearStd | St::ResidDevStd => Some(f.sqrt()),
                    // the leave-one-out dispersion is as invariant as the dispersion
                    St::ResidStudent => Some(f.sqrt()),
                    _ => None,
                });
                if compare(ctx, "scale", a, b, &m, &St::ALL) {
                    let p = alt(r, a);
                    compare_at(ctx, "scale", a, b, &m, &p);
                    if n <= 12 {
                        loo(ctx, "scale", a, b, &m);
                    }
                }
                let (da, db) = (a.m.data(), b.m.data());
                ctx.close("scale:n_eff", db.n_eff, da.n_eff, 100.0 * a.rf.eps * da.n_eff, || format!("{} n_eff", a.c.brief()));
            });
        }
        _ => {
            // integer weights as replication
            let w: Vec<usize> = (0..n).map(|_| *r.pick(&[1, 1, 2, 3, 7])).collect();
            c.vw = Some(w.iter().map(|v| *v as f64).collect());
            c.std = c.std && c.opts.l2 == 0.0;
            let mut b = c.clone();
            b.vw = None;
            let mut idx: Vec<usize> = (0..n).collect();
            if r.p(0.5) {
                // through frequencies
                let f = c.fw.clone().unwrap_or(vec![1; n]);
                b.fw = Some((0..n).map(|i| f[i] * w[i]).collect());
            } else {
                idx = (0..n).flat_map(|i| vec![i; w[i]]).collect();
                b = b.sub_rows(&idx);
            }
            let rep = idx.len() != n;
            let ws: Vec<f64> = idx.iter().map(|i| w[*i] as f64).collect();
            pair(ctx, "integer", &c, &b, |ctx, a, b| {
                let mut m = Map::id(a.c);
                m.rows = idx.clone();
                let disp = a.c.fam.dispersed();
                m.scale = Box::new(move |s| match s {
                    St::Result | St::ModelLike | St::Dev | St::NullLike | St::Lr | St::Score | St::Fisher | St::WaldTest | St::ScoreTest | St::PLr | St::RSq | St::Rss | St::TestNdf => Some(1.0),
                    St::ResidResp | St::ResidWork | St::ResidPear | St::ResidDev | St::Lev | St::Hat => Some(1.0),
                    St::Cov | St::WaldZ | St::PWald | St::PExact | St::Disp if !disp => Some(1.0),
                    _ => None,
                });
                m.rowf = Box::new(move |s, i| match s {
                    St::ResidPear | St::ResidDev => 1.0 / ws[i].sqrt(),
                    St::Lev | St::Hat if rep => 1.0 / ws[i],
                    _ => 1.0,
                });
                compare(ctx, "integer", a, b, &m, &St::ALL);
                let p = alt(r, a);
                compare_at(ctx, "integer", a, b, &m, &p);
            });
        }
    }
}

/// The scale of the linear predictor: that of the response with the identity link, one otherwise.
fn y_units(c: &Case) -> f64 {
    if c.fam != Fam::Lin {
        return 1.0;
    }
    let m = c.y.iter().sum::<f64>() / c.n() as f64;
    let v = c.y.iter().map(|y| (y - m).powi(2)).sum::<f64>() / c.n() as f64;
    let s = v.sqrt();
    // a change of the units, not of the data
    if s > 1e-3 && s < 1e3 || !(s > 0.0) { 1.0 } else { s }
}

fn c07(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = trim(draw(r), 70);
    let n = c.n();
    let half = c.fam.dom() != 0;
    match r.int(0, 9) {
        0 => {
            c.off = None;
            let mut b = c.clone();
            b.off = Some(vec![0.0; n]);
            pair(ctx, "zero-offset", &c, &b, |ctx, a, b| {
                let m = Map::id(a.c);
                if compare(ctx, "zero-offset", a, b, &m, &St::ALL) && n <= 15 {
                    loo(ctx, "zero-offset", a, b, &m);
                }
            });
        }
        1..=3 => {
            if !c.intercept {
                return ctx.skip("no-intercept");
            }
            // a constant only moves the intercept, with any penalty
            if c.opts.l2 == 0.0 && r.p(0.5) && !c.f32 {
                c.opts.l2 = r.logu(1e-3, 10.0);
            }
            let h = if half { 0.2 } else { *r.pick(&[0.1, 1.0, 5.0]) } * y_units(&c);
            let d = r.normal() * h;
            let d = if c.f32 { d as f32 as f64 } else { d };
            let mut b = c.clone();
            b.off = Some(c.off_v().iter().map(|o| o + d).collect());
            if c.f32 {
                let o: Vec<f64> = b.off.as_ref().unwrap().iter().map(|o| *o as f32 as f64).collect();
                b.off = Some(o);
            }
            pair(ctx, "constant", &c, &b, |ctx, a, b| {
                let mut m = Map::id(a.c);
                m.t0[0] = -d;
                m.scale = Box::new(|s| match s {
                    St::NIter => None,
                    // the intercept is tested against zero
                    St::PExact => Some(1.0),
                    _ => Some(1.0),
                });
                if compare(ctx, "constant", a, b, &m, &St::ALL) {
                    let p = alt(r, a);
                    compare_at(ctx, "constant", a, b, &m, &p);
                    if n <= 15 {
                        loo(ctx, "constant", a, b, &m);
                    }
                }
            });
        }
        _ => {
            c.opts.l2 = 0.0;
            let (ms, sd) = c.col_stats();
            let s0 = c.intercept as usize;
            let h = if half { 0.05 } else { *r.pick(&[0.2, 1.0]) } * y_units(&c);
            let mut bv: Vec<f64> = vec![0.0; c.k()];
            for j in 0..c.p() {
                if r.p(0.7) {
                    bv[j + s0] = r.normal() * h / sd[j] * if c.intercept { 1.0 } else { (sd[j] / (sd[j] + ms[j].abs())).min(1.0) };
                    if c.intercept {
                        bv[0] -= bv[j + s0] * ms[j];
                    }
                }
            }
            if c.intercept && r.p(0.5) {
                bv[0] += r.normal() * h;
            }
            let xd = c.xd();
            let mut b = c.clone();
            let lin = xd.mulv(&bv);
            b.off = Some(c.off_v().iter().zip(&lin).map(|(o, l)| o + l).collect());
            if c.f32 {
                // the sum has to be representable
                return ctx.skip("f32-shift");
            }
            pair(ctx, "shift", &c, &b, |ctx, a, b| {
                // rounding of the shifted offsets
                let mag = (0..n).map(|i| (0..c.k()).map(|j| (xd[(i, j)] * bv[j]).abs()).sum::<f64>()).fold(0.0, f64::max);
                if mag > 1e4 * y_units(a.c) {
                    return ctx.skip("large-shift");
                }
                let mut m = Map::id(a.c);
                m.t0 = bv.iter().map(|v| -v).collect();
                m.scale = Box::new(|s| match s {
                    // the null model sees a different offset
                    St::NIter | St::NullLike | St::Lr | St::PLr | St::WaldTest | St::ScoreTest | St::RSq => None,
                    _ => Some(1.0),
                });
                if compare(ctx, "shift", a, b, &m, &St::ALL) {
                    let p = alt(r, a);
                    compare_at(ctx, "shift", a, b, &m, &p);
                }
            });
        }
    }
    // the null model keeps the offset
    if c.off.is_some() && c.opts.l1 == 0.0 {
        if let (Ok(m), Some(nl)) = (build(&c), crate::stat::null_of(&c)) {
            if let Ok(f) = m.fit(&c.opts) {
                if let Ok(v) = f.get(St::NullLike) {
                    ctx.dump = c.dump();
                    ctx.close("null-offset:NullLike", v.s(), nl.like, nl.like_err, || format!("{} null likelihood with offset", c.brief()));
                }
            }
        }
    }
}

/// Columns whose mean is large compared with their spread, as calendar years or prices are: the
/// shift is exact, so that the slopes and the leverage are those of the problem without it, up to
/// the rounding of the columns as they are centred. With `cross` the other side is the same shifted
/// problem in double precision instead.
pub fn far(ctx: &mut Ctx, r: &mut Rng, f32: bool, cross: bool) {
    let name = if cross { "far-precision" } else { "far" };
    let fams = vec![Fam::Lin, Fam::Lin, Fam::Logit, Fam::Pois, Fam::Bin(12)];
    let pf = Prof { fams, l2: 0.7, f32: f32 as u8 as f64, noint: 0.0, nostd: 0.2, pmin: 1, pmax: 4, wild: 0.0, slack: 4, big: 0.02, units: 0.0, ..Prof::default() };
    let mut a = gen(r, &pf);
    a.f32 = f32;
    let q = if f32 { 64.0 } else { 1048576.0 };
    a.x.a.iter_mut().for_each(|v| *v = (*v * q).round() / q);
    let mut b = a.clone();
    let mut shifts = vec![];
    for j in 0..a.p() {
        let e = if f32 { r.int(3, 11) } else { r.int(8, 26) } as i32;
        let s = 2f64.powi(e) * if r.p(0.5) { -1.0 } else { 1.0 } * if r.p(0.3) { 0.0 } else { 1.0 };
        shifts.push(s);
        for i in 0..b.n() {
            b.x[(i, j)] += s;
        }
    }
    // without standardisation the information matrix holds the raw columns
    if !a.std && (a.opts.l2 > 0.0 || f32) {
        a.std = true;
        b.std = true;
    }
    let base = a.clone();
    a = if cross { b.clone() } else { a };
    a.f32 = false;
    if matches!(a.yt, Yt::F32) {
        a.yt = Yt::F64;
    }
    ctx.dump = format!("--- first problem\n{}--- second problem\n{}", a.dump(), b.dump());
    let (Ok(ma), Ok(mb)) = (build(&a), build(&b)) else { return ctx.skip("build") };
    let (fa, fb) = match (ma.fit(&a.opts), mb.fit(&b.opts)) {
        (Ok(fa), Ok(fb)) => (fa, fb),
        _ => return ctx.skip("far-fit"),
    };
    let k = a.k();
    // the reference doesn't see the shift
    let mut beta = fa.beta();
    if cross {
        beta[0] += (0..a.p()).map(|j| shifts[j] * beta[j + 1]).sum::<f64>();
    }
    let mut rc = base.clone();
    rc.f32 = f32;
    let Some(rf) = Ref::at(&rc, &beta) else { return ctx.skip("domain") };
    let Some((inv, cond)) = rf.inv.clone() else { return ctx.skip("singular-information") };
    let (_, sd) = base.col_stats();
    let rel = (0..a.p()).map(|j| (shifts[j].abs() + 8.0) / sd[j]).fold(1.0, f64::max);
    let raw = if b.std { 1.0 } else { rel };
    let delta = rf.eps * rel * raw;
    if !(cond < 1e4) || !(delta * cond < 0.02) || !(rf.rt * cond < 1e-3) {
        return ctx.skip("ill-conditioned");
    }
    ctx.config(&b);
    let del = 2.0 * with_kp(4.0, || conv(&rc, &rf));
    let st = |j: usize| if j == 0 { 1.0 } else { sd[j - 1] };
    let bs: f64 = (1..k).map(|j| (beta[j] * st(j)).abs()).sum();
    let tot: f64 = (0..rf.n).map(|i| rf.tw[i] * rf.pts[i].wt).sum();
    // the information weighs the change of the columns, the errors the change of the gradient
    let s1 = (tot.sqrt() * (bs + rf.amp.iter().cloned().fold(0.0, f64::max))).max(0.0);
    let s2: f64 = (0..rf.n).map(|i| rf.tw[i] * ((rf.y[i] - rf.pts[i].mu) * rf.pts[i].ep).abs()).sum();
    let bb = fb.beta();
    let ba = fa.beta();
    for j in 1..k {
        let t = inv[(j, j)].sqrt() * s1 + (0..k).map(|l| inv[(j, l)].abs() * st(l)).sum::<f64>() * s2 + ba[j].abs();
        let t = 64.0 * delta * t + 64.0 * f64::EPSILON.max(rf.eps) * inv[(j, j)].sqrt() * s1 + del * inv[(j, j)].sqrt();
        if !ctx.close(&format!("{name}:Result"), bb[j], ba[j], t, || format!("{} shifts {shifts:?}: slope {j}", b.brief())) {
            return;
        }
    }
    let worst = (0..rf.n)
        .filter(|i| rf.tw[*i] > 0.0)
        .map(|i| dot(rf.xd.row(i), &inv.mulv(rf.xd.row(i))).max(0.0).sqrt() * sens(rf.fam, rf.eta[i]))
        .fold(0.0, f64::max);
    let (Ok(Val::V(la)), Ok(Val::V(lb))) = (fa.get(St::Lev), fb.get(St::Lev)) else { return };
    for i in 0..rf.n {
        // the leverage moves with the predictor of its row
        let q = (la[i].abs() / (rf.tw[i] * rf.pts[i].wt).max(1e-300)).sqrt();
        let t = 64.0 * delta * cond.sqrt() * (1.0 + la[i].abs()) + 4.0 * del * (q * sens(rf.fam, rf.eta[i])).min(1.0) * la[i].abs() + 4.0 * del * worst * la[i].abs();
        if !ctx.close(&format!("{name}:Leverage"), lb[i], la[i], t, || format!("{} shifts {shifts:?}: leverage {i}", b.brief())) {
            return;
        }
    }
}

fn c08(ctx: &mut Ctx, r: &mut Rng) {
    if r.p(0.12) {
        let f32 = r.p(0.4);
        return far(ctx, r, f32, false);
    }
    let mut c = trim(draw(r), 70);
    match r.int(0, 9) {
        0..=4 => {
            c.opts.l2 = 0.0;
            c.std = r.p(0.5);
            let mut b = c.clone();
            b.std = !c.std;
            let n = c.n();
            pair(ctx, "std", &c, &b, |ctx, a, b| {
                let m = Map::id(a.c);
                if compare(ctx, "std", a, b, &m, &St::ALL) {
                    let p = alt(r, a);
                    compare_at(ctx, "std", a, b, &m, &p);
                    if n <= 15 {
                        loo(ctx, "std", a, b, &m);
                    }
                }
            });
        }
        q => {
            let pen = q >= 7;
            if pen {
                c.std = true;
                if c.opts.l2 == 0.0 || r.p(0.3) {
                    c.opts.l2 = r.logu(1e-3, 10.0);
                }
                if c.f32 {
                    c.opts.l2 = c.opts.l2 as f32 as f64;
                }
            } else {
                c.opts.l2 = 0.0;
            }
            if pen && r.p(0.3) && !c.f32 && c.fam.concave() && c.fam.dom() == 0 {
                return c08_l1(ctx, r, c);
            }
            let Some((b, m0)) = affine(r, &c) else { return ctx.skip("no-columns") };
            // leaving one row out must not leave a column without spread either
            let varied = (0..c.p()).all(|j| {
                let mut v: Vec<f64> = c.x.col(j);
                v.sort_by(|a, b| a.total_cmp(b));
                v.len() > 3 && v[1] != v[v.len() - 2]
            });
            let n = if pen && (!varied || c.fw.is_some()) { 99 } else { c.n() };
            let name = if pen { "affine-pen" } else { "affine" };
            pair(ctx, name, &c, &b, |ctx, a, b| {
                if compare(ctx, name, a, b, &m0, &St::ALL) {
                    if a.c.opts.l2 == 0.0 {
                        let p = alt(r, a);
                        compare_at(ctx, name, a, b, &m0, &p);
                    }
                    if n <= 15 {
                        loo(ctx, name, a, b, &m0);
                    }
                }
            });
        }
    }
}

/// Columns replaced by x' = a x + s (s = 0 without an intercept).
fn affine(r: &mut Rng, c: &Case) -> Option<(Case, Map)> {
    let p = c.p();
    if p == 0 {
        return None;
    }
    let s0 = c.intercept as usize;
    let mut b = c.clone();
    let mut m = Map::id(c);
    let (ms, sd) = c.col_stats();
    let f32c = c.f32;
    let pen = c.opts.l2 > 0.0 || c.opts.l1 > 0.0;
    let tw = c.tw();
    for j in 0..p {
        // the scale of a column without spread is one by definition, so it doesn't follow the column
        let col = c.x.col(j);
        let flat = pen && col.iter().zip(&tw).filter(|(_, w)| **w > 0.0).map(|(x, _)| x).collect::<Vec<_>>().windows(2).all(|w| w[0] == w[1]);
        if r.p(0.3) || flat {
            continue;
        }
        // exactly representable changes for single precision
        let wide = c.std && r.p(0.2);
        let a = if f32c {
            *r.pick(&[0.25, 0.5, 2.0, 4.0, -2.0])
        } else {
            let mag = if wide { r.logu(1e-12, 1e12) } else { r.logu(1e-4, 1e4) };
            mag * if r.p(0.4) { -1.0 } else { 1.0 }
        };
        let s = if !c.intercept || f32c || r.p(0.4) { 0.0 } else { a * (sd[j] * r.range(-10.0, 10.0) + ms[j] * r.range(-2.0, 2.0)) };
        for i in 0..c.n() {
            b.x[(i, j)] = a * c.x[(i, j)] + s;
        }
        m.t[(j + s0, j + s0)] = 1.0 / a;
        m.ti[(j + s0, j + s0)] = a;
        if c.intercept {
            m.t[(0, j + s0)] = -s / a;
            // inverse: beta0 = beta0' + sum s_j beta'_j
            m.ti[(0, j + s0)] = s;
        }
    }
    if c.opts.l2 > 0.0 || c.opts.l1 > 0.0 {
        // the score test of a penalised fit and the exact test of its intercept use the scale of the columns
        m.scale = Box::new(|s| match s {
            St::NIter | St::PExact => None,
            _ => Some(1.0),
        });
    }
    Some((b, m))
}

/// The same under an L1 penalty, where the coefficients are only determined to the tolerance of
/// the splitting method: compare penalised likelihoods and coefficients.
fn c08_l1(ctx: &mut Ctx, r: &mut Rng, mut c: Case) {
    c.opts.l1 = r.logu(1e-2, 5.0);
    c.opts.max_iter = Some(5000);
    if r.p(0.5) {
        c.opts.l2 = 0.0;
    }
    let Some((b, m)) = affine(r, &c) else { return ctx.skip("no-columns") };
    ctx.dump = format!("--- first problem\n{}--- second problem\n{}", c.dump(), b.dump());
    l1_pair(ctx, "affine-l1", &c, &b, &m);
}

/// Coefficients and penalised likelihood of two equivalent L1 problems.
pub fn l1_pair(ctx: &mut Ctx, name: &str, c: &Case, b: &Case, m: &Map) {
    let (Ok(ma), Ok(mb)) = (build(c), build(b)) else { return ctx.skip("build") };
    let (Ok(fa), Ok(fb)) = (ma.fit(&c.opts), mb.fit(&b.opts)) else { return ctx.skip("l1-fit") };
    let (ba, bb) = (fa.beta(), fb.beta());
    let (Some(ra), Some(rb)) = (Ref::at(c, &ba), Ref::at(b, &bb)) else { return ctx.skip("domain") };
    let Some((inv, cond)) = rb.inv.as_ref() else { return ctx.skip("singular-information") };
    if !(*cond < 1e8) || !(ra.rt < 1e-6) || !(rb.rt < 1e-6) {
        return ctx.skip("ill-conditioned");
    }
    ctx.config(c);
    // likelihood gap allowed by the optimality check of C03, for each fit
    let gap = super::optim::l1_allow(c, &ra) + super::optim::l1_allow(b, &rb);
    ctx.close(&format!("{name}:ModelLike"), fb.like(), fa.like(), gap, || format!("{} {name} penalised likelihood", b.brief()));
    let mut w = m.t.mulv(&ba);
    for j in 0..w.len() {
        w[j] += m.t0[j];
        let rel = 100.0 * rb.eps * (bb[j].abs() + (0..w.len()).map(|l| (m.t[(j, l)] * ba[l]).abs()).sum::<f64>());
        let t = (8.0 * gap * inv[(j, j)]).sqrt() + rel;
        if !ctx.close(&format!("{name}:Result"), bb[j], w[j], t, || format!("{} {name} coefficient {j}", b.brief())) {
            return;
        }
    }
}

fn c09(ctx: &mut Ctx, r: &mut Rng) {
    let mut c = trim(draw(r), 70);
    let n = c.n();
    match r.int(0, 8) {
        0..=2 => {
            let pm = r.perm(n);
            let mut b = c.sub_rows(&pm);
            if r.p(0.2) {
                // reversal and sorting are the likeliest special orders
                let mut o: Vec<usize> = (0..n).collect();
                if c.p() > 0 && r.p(0.5) {
                    o.sort_by(|a, b| c.x[(*a, 0)].total_cmp(&c.x[(*b, 0)]));
                } else {
                    o.reverse();
                }
                b = c.sub_rows(&o);
                return rows(ctx, r, &c, &b, o);
            }
            rows(ctx, r, &c, &b, pm);
        }
        3..=5 => {
            if c.p() < 2 {
                return ctx.skip("one-column");
            }
            let p = c.p();
            let pm = r.perm(p);
            let l1 = r.p(0.25) && !c.f32 && c.fam.concave() && c.fam.dom() == 0;
            if l1 {
                c.opts.l1 = r.logu(1e-2, 5.0);
                c.opts.max_iter = Some(5000);
            }
            let mut b = c.clone();
            b.x = c.x.cols(&pm);
            let s0 = c.intercept as usize;
            let mut m = Map::id(&c);
            m.cols = pm.clone();
            let k = c.k();
            m.t = Mat::zeros(k, k);
            if c.intercept {
                m.t[(0, 0)] = 1.0;
            }
            for (j, q) in pm.iter().enumerate() {
                m.t[(j + s0, q + s0)] = 1.0;
            }
            m.ti = m.t.t();
            if l1 {
                ctx.dump = format!("--- first problem\n{}--- second problem\n{}", c.dump(), b.dump());
                return l1_pair(ctx, "columns-l1", &c, &b, &m);
            }
            pair(ctx, "columns", &c, &b, |ctx, a, b| {
                if compare(ctx, "columns", a, b, &m, &St::ALL) {
                    let p = alt(r, a);
                    compare_at(ctx, "columns", a, b, &m, &p);
                    if n <= 15 {
                        loo(ctx, "columns", a, b, &m);
                    }
                }
            });
        }
        _ => {
            if r.p(0.2) {
                c.opts.l1 = r.logu(1e-2, 5.0);
            }
            if r.p(0.3) && matches!(c.fam.base(), Base::Lin | Base::Gam | Base::Expo | Base::Ig) && !c.fam.user() {
                c.y.iter_mut().for_each(|v| *v = *v as f32 as f64);
            }
            layout(ctx, r, &c);
        }
    }
}

fn rows(ctx: &mut Ctx, r: &mut Rng, c: &Case, b: &Case, pm: Vec<usize>) {
    let n = c.n();
    pair(ctx, "rows", c, b, |ctx, a, b| {
        let mut m = Map::id(a.c);
        m.rows = pm;
        if compare(ctx, "rows", a, b, &m, &St::ALL) {
            let p = alt(r, a);
            compare_at(ctx, "rows", a, b, &m, &p);
            if n <= 15 {
                loo(ctx, "rows", a, b, &m);
            }
        }
    });
}

/// Memory layout, response type and setter order: the same numbers go in, so the same come out
/// (up to the summation order chosen for a layout).
fn layout(ctx: &mut Ctx, r: &mut Rng, c: &Case) {
    let mut a = c.clone();
    a.xlay = Layout::C;
    a.ylay = Layout::C;
    a.order = 0;
    a.yt = match c.fam.base() {
        Base::Pois => Yt::U32,
        Base::Bin(_) => Yt::U16,
        _ => Yt::F64,
    };
    let mut b = a.clone();
    b.xlay = *r.pick(&LAYOUTS);
    b.ylay = *r.pick(&LAYOUTS);
    b.order = r.int(0, 1) as u8;
    b.yt = y_type(r, c.fam, &c.y, c.f32);
    ctx.dump = format!("--- reference layout\n{}--- second layout {:?} {:?} {:?}\n", a.dump(), b.xlay, b.ylay, b.yt);
    if a.opts.l1 > 0.0 {
        a.opts.max_iter = Some(2000);
        b.opts.max_iter = Some(2000);
        let m = Map::id(&a);
        return l1_pair(ctx, "layout-l1", &a, &b, &m);
    }
    ctx.count(&format!("layout-{:?}/{:?}/{:?}", b.xlay, b.ylay, b.yt));
    pair(ctx, "layout", &a, &b, |ctx, a, b| {
        let m = Map::id(a.c);
        let (da, db) = (a.m.data(), b.m.data());
        ctx.ok("inputs", same_snap(&da, &db), || format!("{} stored data differ between layouts", b.c.brief()));
        ctx.ok("inputs", da.y == a.c.y || a.c.f32, || format!("{} stored responses differ from the given ones", b.c.brief()));
        if compare(ctx, "layout", a, b, &m, &St::ALL) && a.c.n() <= 15 {
            loo(ctx, "layout", a, b, &m);
        }
    });
}

fn same_snap(a: &DataSnap, b: &DataSnap) -> bool {
    let close = |x: &[f64], y: &[f64]| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x == y || (x - y).abs() <= 1e-12 * (x.abs() + y.abs()) || x.is_nan() && y.is_nan());
    let o = |x: &Option<Vec<f64>>, y: &Option<Vec<f64>>| match (x, y) {
        (Some(x), Some(y)) => close(x, y),
        (None, None) => true,
        _ => false,
    };
    a.y == b.y && a.x.r == b.x.r && a.x.c == b.x.c && o(&a.off, &b.off) && o(&a.w, &b.w) && o(&a.f, &b.f) && a.n_obs == b.n_obs
}
