//! C21: learning fits realizable data.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use crate::opts::*;
use lfa::basis::*;
use lfa::{Features, ScalarLFA, VectorLFA, LFA};
use ndarray::Array1;

pub fn property() -> Property {
    Property {
        id: "C21",
        rule: "a case is a basis, optimiser, target and training history of an approximator, followed update by update (residual \
               factor, distance to the target's weights) or to its end (fit on fresh inputs against the features' closed form); \
               non-trivial when the target is not already met, distinct by configuration, samples and target",
        required: &[
            "SGD contraction", "ISGD contraction", "vector contraction", "repeated to the target", "fejer SGD", "fejer ISGD", "fejer vector",
            "recovered SGD", "recovered ISGD", "recovered momentum", "fitted SGDMomentum", "fitted NAG", "fitted Adagrad", "fitted Adam",
            "fitted AdaMax", "fourier", "polynomial", "chebyshev", "uniform-grid", "tile-coding", "kernel-basis", "norm-l2", "stack", "dense", "sparse", "many features",
        ],
        scenarios: vec![
            scn!("contraction", 20_000, 300_000, 5, contraction),
            scn!("fejer", 6000, 80_000, 2, fejer),
            scn!("recovery", 1500, 20_000, 1, recovery),
            scn!("fitting", 3500, 50_000, 1, fitting),
        ],
    }
}

fn features(b: &DynB, x: &[f64]) -> Option<(Features, Vec<f64>)> {
    let f = b.project(x).ok()?;
    let v = raw(&f);
    if v.len() == b.n() && v.iter().all(|x| x.is_finite() && x.abs() < 1e6) {
        Some((f, v))
    } else {
        None
    }
}

fn note(m: &mut M, sp: &Spec, f: &Features) {
    let mut ks = vec![];
    sp.kinds(&mut ks);
    for k in ks {
        m.ev(k);
    }
    m.ev(if f.is_dense() { "dense" } else { "sparse" });
}

/// Each update on the residual of a target scales the residual.
fn contraction(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let sp = if !m.small && m.rng.chance(0.01) {
        super::c16::wide_spec(m, d)
    } else {
        spec(&mut m.rng, d, &Opt::new().depth(2).max_dim(if m.small { 6 } else { 60 }))
    };
    let b = sp.build();
    let n = b.n();
    let x = input(&mut m.rng, d);
    let (f, v) = match features(&b, &x) {
        Some(p) => p,
        None => return Ok(m.skip()),
    };
    note(m, &sp, &f);
    let q: f64 = v.iter().map(|a| a * a).sum();
    let implicit = m.rng.chance(0.5);
    let h = if implicit { logu(&mut m.rng, -2.0, 3.0) } else { m.rng.uniform(0.01, 2.0) };
    let a = if q > 1e-6 { h / q } else { 0.1 };
    let os = if implicit { OptSpec::Isgd(a) } else { OptSpec::Sgd(a) };
    let factor = if implicit { 1.0 / (1.0 + a * q) } else { 1.0 - a * q };
    m.ev(if implicit { "ISGD contraction" } else { "SGD contraction" });
    let k = if m.rng.chance(0.4) {
        m.ev("vector contraction");
        m.rng.range(1, 5)
    } else {
        0
    };
    let w0 = vals_of(&mut m.rng, n * k.max(1), Cls::Uniform);
    let ts: Vec<f64> = (0..k.max(1)).map(|_| m.rng.uniform(-20.0, 20.0)).collect();
    m.fp(format!("{sp:?} {os:?} {k}"));
    m.fpf(&x);
    m.fpf(&w0);
    m.fpf(&ts);
    m.sample(|| format!("{os:?} towards {ts:?} at {x:?} over {sp:?}"));
    let ctx = || format!("{os:?} (a|f|^2 = {}) towards {ts:?} at {x:?} over {sp:?}", a * q);
    let fmag: f64 = v.iter().map(|a| a.abs()).sum();
    let mut sca: ScalarLFA<DynB, AnyOpt> = LFA::new(b.clone(), layout1(&mut m.rng, &w0[..n]), os.build(n));
    let mut vec: VectorLFA<DynB, AnyOpt> = LFA::new(b.clone(), layout2(&mut m.rng, n, k, |i, j| w0[i * k + j]), os.build(n));
    let val = |s: &ScalarLFA<DynB, AnyOpt>, t: &VectorLFA<DynB, AnyOpt>| {
        if k > 0 {
            t.evaluate(&x[..]).unwrap().to_vec()
        } else {
            vec![s.evaluate(&x[..]).unwrap()]
        }
    };
    let mut y = val(&sca, &vec);
    let y0 = y.clone();
    let steps = m.rng.range(1, 12);
    for _ in 0..steps {
        if k > 0 {
            let t = Array1::from(ts.clone());
            vec.update_with(&x[..], |_, y| &t - &y).unwrap();
        } else {
            sca.update_with(&x[..], |_, y| ts[0] - y).unwrap();
        }
        let z = val(&sca, &vec);
        let top = if k > 0 { vec.weights.iter().fold(1.0f64, |a, w| a.max(w.abs())) } else { sca.weights.iter().fold(1.0f64, |a, w| a.max(w.abs())) };
        m.ok(z.len() == y.len(), "C21/contraction", || format!("{} values instead of {}: {}", z.len(), y.len(), ctx()))?;
        for j in 0..y.len() {
            let (r, want) = (ts[j] - z[j], factor * (ts[j] - y[j]));
            let tol = 1e-11 * (ts[j].abs() + y[j].abs() + z[j].abs()) * (1.0 + a * q) + 1e-11 * (n + 1) as f64 * top * fmag;
            m.close(r, want, tol, "C21/contraction", || format!("output {j}: value {} became {}: {}", y[j], z[j], ctx()))?;
            if a * q > 1e-9 && ts[j] != y[j] {
                m.nontrivial();
            }
        }
        y = z;
    }
    // repetition arrives
    if q > 1e-6 && factor.abs() < 0.7 {
        m.ev("repeated to the target");
        for _ in 0..90 {
            if k > 0 {
                let t = Array1::from(ts.clone());
                vec.update_with(&x[..], |_, y| &t - &y).unwrap();
            } else {
                sca.update_with(&x[..], |_, y| ts[0] - y).unwrap();
            }
        }
        let z = val(&sca, &vec);
        let top = if k > 0 { vec.weights.iter().fold(1.0f64, |a, w| a.max(w.abs())) } else { sca.weights.iter().fold(1.0f64, |a, w| a.max(w.abs())) };
        for j in 0..z.len() {
            let tol = 1e-8 * (1.0 + ts[j].abs() + y0[j].abs()) + 1e-10 * (n + 1) as f64 * top * fmag;
            m.close(z[j], ts[j], tol, "C21/arrival", || format!("output {j} from {}: {}", y0[j], ctx()))?;
        }
    }
    Ok(())
}

/// Noise-free samples never move the weights away from the target's.
fn fejer(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let sp = if !m.small && m.rng.chance(0.01) {
        super::c16::wide_spec(m, d)
    } else {
        spec(&mut m.rng, d, &Opt::new().depth(1).max_dim(if m.small { 5 } else { 40 }))
    };
    let b = sp.build();
    let n = b.n();
    if n == 0 {
        return Ok(m.skip());
    }
    let k = m.rng.range(1, 3);
    let star = vals_of(&mut m.rng, n * k, Cls::Uniform);
    let samples: Vec<Vec<f64>> = (0..m.rng.range(1, 12)).map(|_| input(&mut m.rng, d)).collect();
    let mut fs = vec![];
    for x in &samples {
        match features(&b, x) {
            Some(p) => fs.push(p),
            None => return Ok(m.skip()),
        }
    }
    let qmax = fs.iter().map(|f| f.1.iter().map(|a| a * a).sum::<f64>()).fold(0.0, f64::max);
    if qmax < 1e-9 {
        return Ok(m.skip());
    }
    note(m, &sp, &fs[0].0);
    let implicit = m.rng.chance(0.5);
    let os = if implicit {
        m.ev("fejer ISGD");
        OptSpec::Isgd(logu(&mut m.rng, -2.0, 3.0) / qmax)
    } else {
        m.ev("fejer SGD");
        OptSpec::Sgd(m.rng.uniform(0.02, 2.0) / qmax)
    };
    if k > 1 {
        m.ev("fejer vector");
    }
    m.nontrivial();
    m.fp(format!("{sp:?} {os:?} {k} {samples:?}"));
    m.fpf(&star);
    m.sample(|| format!("{os:?}, {k} outputs, {} samples over {sp:?}", samples.len()));
    let ctx = || format!("{os:?}, {k} outputs, samples {samples:?} over {sp:?}");
    let mut fa: VectorLFA<DynB, AnyOpt> = LFA::vector(b.clone(), os.build(n), k);
    let dist = |fa: &VectorLFA<DynB, AnyOpt>, j: usize| (0..n).map(|i| (fa.weights[(i, j)] - star[i * k + j]).powi(2)).sum::<f64>().sqrt();
    let mut before: Vec<f64> = (0..k).map(|j| dist(&fa, j)).collect();
    let scale: Vec<f64> = (0..k).map(|j| (0..n).map(|i| star[i * k + j].powi(2)).sum::<f64>().sqrt()).collect();
    let cond: f64 = fs.iter().flat_map(|f| f.1.iter()).fold(0.0f64, |a, x| a.max(x.abs())) / qmax.sqrt() + 1.0;
    for step in 0..m.rng.range(5, 80) {
        let s = m.rng.below(samples.len());
        let (x, v) = (&samples[s], &fs[s].1);
        let ts: Vec<f64> = (0..k).map(|j| (0..n).map(|i| star[i * k + j] * v[i]).sum()).collect();
        match m.rng.below(3) {
            0 => {
                let j = m.rng.below(k);
                let y = fa.evaluate_index(&x[..], j).unwrap();
                fa.update_index(&x[..], j, ts[j] - y).unwrap();
            }
            1 => {
                let y = fa.evaluate(&x[..]).unwrap();
                fa.update(&x[..], (0..k).map(|j| ts[j] - y[j])).unwrap();
            }
            _ => {
                let t = Array1::from(ts.clone());
                fa.update_with(&x[..], |_, y| &t - &y).unwrap();
            }
        }
        for j in 0..k {
            let now = dist(&fa, j);
            m.ok(now <= before[j] * (1.0 + 1e-9) + 1e-9 * scale[j] * cond + 1e-12, "C21/fejer", || {
                format!("update {step} moved output {j} from {} to {now} away from the target's weights: {}", before[j], ctx())
            })?;
            before[j] = now;
        }
    }
    Ok(())
}

/// Closed-form features of a basis (not the library's).
fn formula(sp: &Spec, x: &[f64]) -> Option<Vec<f64>> {
    match sp.want(x) {
        Want::Vals { v, .. } if v.iter().all(|x| x.is_finite()) => Some(v),
        _ => None,
    }
}

/// Cycling over samples that determine the weights recovers the target.
fn recovery(m: &mut M) -> R {
    let (sp, lim): (Spec, Vec<(f64, f64)>) = match m.rng.below(5) {
        0 => {
            let l = limits(&mut m.rng, 1);
            (Spec::Fourier { order: m.rng.range(1, 4) as u8, limits: l.clone(), from_space: m.rng.chance(0.5) }, l)
        }
        1 => {
            let l = limits(&mut m.rng, 1);
            (Spec::Cheby { order: m.rng.range(1, 4) as u8, limits: l.clone(), zeroth: m.rng.chance(0.5), from_space: m.rng.chance(0.5) }, l)
        }
        2 => (Spec::Poly { dim: 1, order: m.rng.range(1, 2) as u8, zeroth: m.rng.chance(0.6) }, vec![(-1.0, 1.0)]),
        3 => {
            let l = limits(&mut m.rng, 2);
            let g = l.iter().map(|a| (a.0, a.1, m.rng.range(1, 4))).collect();
            (Spec::Grid(g), l)
        }
        _ => {
            let l = limits(&mut m.rng, 2);
            (Spec::Fourier { order: 1, limits: l.clone(), from_space: false }, l)
        }
    };
    let sp = if m.rng.chance(0.3) && !matches!(sp, Spec::Poly { zeroth: true, .. } | Spec::Cheby { zeroth: true, .. } | Spec::Grid(_)) {
        Spec::Stack(Box::new(sp), Box::new(Spec::Bias(1.0)), 1)
    } else {
        sp
    };
    let d = lim.len();
    let n = sp.dim();
    let b = sp.build();
    let at = |m: &mut M| -> Vec<f64> { lim.iter().map(|l| l.0 + (l.1 - l.0) * m.rng.unit()).collect() };
    let count = if m.small { n + 2 } else { 4 * n + 6 };
    let xs: Vec<Vec<f64>> = (0..count).map(|_| at(m)).collect();
    let star = vals_of(&mut m.rng, n, Cls::Uniform);
    let mut fs = vec![];
    for x in &xs {
        match formula(&sp, x) {
            Some(v) => fs.push(v),
            None => return Ok(m.skip()),
        }
    }
    let qmax = fs.iter().map(|f| dot(f, f)).fold(0.0, f64::max);
    let os = match m.rng.below(4) {
        0 | 1 => OptSpec::Sgd(m.rng.uniform(0.7, 1.5) / qmax),
        2 => OptSpec::Isgd(m.rng.uniform(1.0, 20.0) / qmax),
        _ => {
            let mu = m.rng.uniform(0.1, 0.6);
            if m.rng.chance(0.5) {
                OptSpec::Mom(mu, 0.3 * (1.0 - mu) / qmax)
            } else {
                OptSpec::Nag(mu, 0.3 * (1.0 - mu) / qmax)
            }
        }
    };
    let epochs = if m.small { 2 } else { m.rng.range(60, 400) };
    m.fp(format!("{sp:?} {os:?} {xs:?}"));
    m.fpf(&star);
    m.nontrivial();
    m.sample(|| format!("{os:?} over {sp:?}, {epochs} passes over {count} samples"));
    let ctx = || format!("{os:?} over {sp:?}, {epochs} passes over {count} samples of weights {star:?}");
    let mut fa: ScalarLFA<DynB, AnyOpt> = LFA::scalar(b.clone(), os.build(n));
    note(m, &sp, &b.project(&xs[0][..]).unwrap());
    // the same training on the closed forms
    let mut sw = SW::new(&vec![0.0; n]);
    let mut sh = os.shadow(n);
    let all = vec![true; n];
    for _ in 0..epochs {
        for (x, v) in xs.iter().zip(&fs) {
            let t = dot(v, &star);
            fa.update_with(&x[..], |_, y| t - y).unwrap();
            let e = t - dot(v, &sw.w);
            sh.step(&mut sw, v, &all, e);
        }
    }
    let top = star.iter().fold(1.0f64, |a, x| a.max(x.abs()));
    let mut worst: f64 = 0.0;
    let mut pairs = vec![];
    let fresh: Vec<Vec<f64>> = (0..10).map(|_| at(m)).collect();
    for x in xs.iter().chain(&fresh) {
        let v = match formula(&sp, x) {
            Some(v) => v,
            None => continue,
        };
        // cells no sample fell into stay undetermined
        if (0..n).any(|i| v[i] != 0.0 && fs.iter().all(|f| f[i] == 0.0)) {
            continue;
        }
        let t = dot(&v, &star);
        worst = worst.max((dot(&v, &sw.w) - t).abs() / top);
        pairs.push((x.clone(), t));
    }
    if !(worst < 1e-3) {
        // too slow a configuration to have arrived
        return Ok(m.skip());
    }
    m.ev(&format!("recovered {}", if os.stateful() { "momentum" } else { os.name() }));
    for (x, t) in pairs {
        let y = fa.evaluate(&x[..]).unwrap();
        m.ok((y - t).abs() <= 2e-3 * top, "C21/recovery", || format!("target {t}, value {y} at {x:?} (d = {d}): {}", ctx()))?;
    }
    Ok(())
}

/// The remaining optimisers drive the residual of repeated samples down.
fn fitting(m: &mut M) -> R {
    let d = m.rng.range(1, 2);
    let sp = spec(&mut m.rng, d, &Opt::new().depth(1).max_dim(if m.small { 4 } else { 25 }));
    let b = sp.build();
    let n = b.n();
    let x = input(&mut m.rng, d);
    let (f, v) = match features(&b, &x) {
        Some(p) => p,
        None => return Ok(m.skip()),
    };
    let q = dot(&v, &v);
    if !(q > 1e-4 && q < 1e6) {
        return Ok(m.skip());
    }
    note(m, &sp, &f);
    let t = m.rng.uniform(0.5, 10.0) * sign(&mut m.rng);
    let l1: f64 = v.iter().map(|x| x.abs()).sum();
    let step = t.abs() / l1;
    let os = match m.rng.below(5) {
        0 => {
            let mu = m.rng.uniform(0.0, 0.8);
            OptSpec::Mom(mu, m.rng.uniform(0.1, 0.9) * (1.0 - mu) / q)
        }
        1 => {
            let mu = m.rng.uniform(0.0, 0.8);
            OptSpec::Nag(mu, m.rng.uniform(0.1, 0.6) * (1.0 - mu) / q)
        }
        2 => OptSpec::Adagrad(step * m.rng.uniform(0.2, 0.8)),
        3 => OptSpec::Adam(step * m.rng.uniform(0.02, 0.1), m.rng.uniform(0.0, 0.9), m.rng.uniform(0.9, 0.999)),
        _ => OptSpec::AdaMax(step * m.rng.uniform(0.02, 0.1), m.rng.uniform(0.0, 0.9), m.rng.uniform(0.9, 0.999)),
    };
    let count = if m.small { 20 } else { m.rng.range(150, 500) };
    m.fp(format!("{sp:?} {os:?} {x:?} {t}"));
    m.nontrivial();
    m.sample(|| format!("{os:?} towards {t} at {x:?} over {sp:?}, {count} updates"));
    let ctx = || format!("{os:?} towards {t} at {x:?} over {sp:?}, {count} updates");
    let mut fa: ScalarLFA<DynB, AnyOpt> = LFA::scalar(b.clone(), os.build(n));
    let mut sw = SW::new(&vec![0.0; n]);
    let mut sh = os.shadow(n);
    let act = active(&f);
    // Adam and AdaMax take steps of a fixed size however small the residual is,
    // so bursts come and go at times rounding decides; the others settle.
    let bursts = matches!(os, OptSpec::Adam(..) | OptSpec::AdaMax(..));
    let last = if bursts { 100 } else { 10 };
    let (mut tail, mut model) = (if bursts { f64::INFINITY } else { 0.0 }, 0.0f64);
    for k in 0..count {
        fa.update_with(&x[..], |_, y| t - y).unwrap();
        let e = t - dot(&v, &sw.w);
        sh.step(&mut sw, &v, &act, e);
        if k + last >= count {
            let r = (t - fa.evaluate(&x[..]).unwrap()).abs();
            tail = if bursts { tail.min(r) } else { tail.max(r) };
            model = model.max((t - dot(&v, &sw.w)).abs());
        }
    }
    if !(model < 0.05 * t.abs()) {
        // these hyper-parameters have not settled yet
        return Ok(m.skip());
    }
    m.ev(&format!("fitted {}", os.name()));
    m.ok(tail < 0.2 * t.abs(), "C21/fitting", || format!("residual still {tail} after {count} updates: {}", ctx()))
}
