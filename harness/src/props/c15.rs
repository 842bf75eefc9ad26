//! C15: reset forgets everything; plain step is the unscaled step; clones are independent.
use super::scn;
use crate::engine::*;
use crate::gen::*;
use crate::opts::*;
use lfa::optim::*;
use lfa::Features;
use ndarray::{Array1, ArrayViewMut1};

pub fn property() -> Property {
    Property {
        id: "C15",
        rule: "a case is an optimiser with an arbitrary prior history, then run in lock-step with a fresh, cloned or differently \
               driven twin; non-trivial when both the prior and the later history contain a non-zero step, distinct by \
               hyper-parameters and histories",
        required: &["reset SGD", "reset ISGD", "reset SGDMomentum", "reset NAG", "reset Adagrad", "reset Adam", "reset AdaMax", "plain step", "clone", "default step", "second reset", "overflowing history", "tiny history", "long history", "wide reset", "undefined history"],
        scenarios: vec![
            scn!("reset", 20_000, 300_000, 10, reset),
            scn!("long_reset", 300, 5000, 0, long_reset),
            scn!("wide_reset", 60, 800, 0, wide_reset),
            scn!("plain", 12_000, 200_000, 8, plain),
            scn!("clones", 12_000, 200_000, 8, clones),
            scn!("defaults", 2000, 30_000, 4, defaults),
        ],
    }
}

fn size(m: &mut M) -> usize {
    if m.small {
        m.rng.range(1, 4)
    } else {
        *m.rng.pick(&[1, 2, 3, 5, 8, 9, 17])
    }
}

fn one(m: &mut M, n: usize) -> (Features, f64) {
    let v = mild(&mut m.rng, n);
    let f = feats(&mut m.rng, &v);
    let e = error(&mut m.rng);
    m.fpf(&v);
    m.fpf(&[e]);
    (f, e)
}

fn scaled(v: &[f64], k: f64) -> Vec<f64> {
    v.iter().map(|x| x * k).collect()
}

/// Weights agree up to rounding (sparse iteration order is not defined).
fn same(m: &mut M, a: &Array1<f64>, b: &Array1<f64>, sig: &str, ctx: impl Fn() -> String) -> R {
    same_at(m, a, b, 1.0, sig, ctx)
}

fn same_at(m: &mut M, a: &Array1<f64>, b: &Array1<f64>, scale: f64, sig: &str, ctx: impl Fn() -> String) -> R {
    for i in 0..a.len() {
        let both = !a[i].is_finite() && !b[i].is_finite();
        if both {
            continue;
        }
        let tol = 1e-10 * (a[i].abs() + b[i].abs()) + 1e-12 * scale;
        m.close(a[i], b[i], tol, sig, || format!("weight {i}: {}", ctx()))?;
    }
    Ok(())
}

fn step(m: &mut M, o: &mut AnyOpt, w: &mut Array1<f64>, f: &Features, e: f64) -> R {
    let r = o.step_scaled(&mut w.view_mut(), f, e);
    m.ok(r.is_ok(), "C15/refused", || format!("{r:?}"))
}

fn reset(m: &mut M) -> R {
    let n = size(m);
    let spec = OptSpec::gen(&mut m.rng);
    let mut o = spec.build(n);
    m.fp(format!("{spec:?}"));
    m.nontrivial();
    let mut w = Array1::from(vals_of(&mut m.rng, n, Cls::Uniform));
    let rounds = m.rng.range(1, 3);
    m.sample(|| format!("{spec:?} on {n} weights, {rounds} resets"));
    for k in 0..rounds {
        // a prior history, possibly empty, wild, or so wild that it overflows
        let before = m.rng.below(12);
        // a life among tiny errors, nothing of which is left either
        let tiny = if m.rng.chance(0.15) { logu(&mut m.rng, -60.0, -6.0) } else { 1.0 };
        if tiny < 1.0 {
            m.ev("tiny history");
        }
        let wild = if tiny < 1.0 { tiny } else { *m.rng.pick(&[1.0, 1.0, 1.0, 1.0, 1e6, 1e6, 1e150, 1e300, f64::MAX]) };
        let poison = m.rng.chance(0.06);
        for _ in 0..before {
            let (mut f, e) = one(m, n);
            if wild > 1e100 {
                let v = scaled(&raw(&f), 1e200);
                f = feats(&mut m.rng, &v);
                m.ev("overflowing history");
            }
            let e = e * wild;
            let f = if poison { poisoned(m, n) } else { f };
            step(m, &mut o, &mut w, &f, e)?;
        }
        let held = w.clone();
        Optimiser::<Features>::reset(&mut o);
        m.ev(&format!("reset {}", spec.name()));
        if k > 0 {
            m.ev("second reset");
        }
        m.ok(w.iter().zip(&held).all(|(a, b)| a.to_bits() == b.to_bits()), "C15/weights", || format!("{spec:?}: weights changed by a reset"))?;
        if m.rng.chance(0.2) {
            // resetting twice in a row changes nothing
            Optimiser::<Features>::reset(&mut o);
        }
        let mut fresh = spec.build(n);
        w = Array1::from(vals_of(&mut m.rng, n, Cls::Uniform));
        if tiny < 1.0 {
            w.fill(0.0);
        }
        let mut top = if tiny < 1.0 { 0.0f64 } else { 1.0 };
        let mut wf = w.clone();
        let after = m.rng.range(1, 8);
        for t in 0..after {
            let (f, e) = one(m, n);
            let e = e * tiny;
            let plain = tiny == 1.0 && m.rng.chance(0.15);
            for (o, w) in [(&mut o, &mut w), (&mut fresh, &mut wf)] {
                let r = if plain {
                    o.step(&mut w.view_mut(), &f)
                } else {
                    o.step_scaled(&mut w.view_mut(), &f, e)
                };
                m.ok(r.is_ok(), "C15/refused", || format!("{r:?}"))?;
            }
            top = wf.iter().fold(top, |a, x| a.max(x.abs()));
            same_at(m, &w, &wf, top, &format!("C15/reset-{}", spec.name()), || {
                format!("step {} after reset {} following {before} steps: {spec:?}, error {e}, {}", t + 1, k + 1, repr(&f))
            })?;
        }
    }
    Ok(())
}

/// A few undefined or infinite features among zeros.
fn poisoned(m: &mut M, n: usize) -> Features {
    m.ev("undefined history");
    let mut v = vec![0.0; n];
    for x in v.iter_mut() {
        if m.rng.chance(0.3) {
            *x = *m.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX]);
        }
    }
    feats(&mut m.rng, &v)
}

/// Resets of thousands of weights.
fn wide_reset(m: &mut M) -> R {
    m.ev("wide reset");
    let n = if m.small { 20 } else { *m.rng.pick(&[100, 257, 1025, 4097, 5000, 9000]) };
    let spec = OptSpec::gen_stateful(&mut m.rng);
    let mut o = spec.build(n);
    m.fp(format!("{spec:?} {n}"));
    m.nontrivial();
    m.sample(|| format!("{spec:?} on {n} weights"));
    let mut w = Array1::zeros(n);
    let before = m.rng.range(1, 4);
    let poison = m.rng.chance(0.2);
    for _ in 0..before {
        let (f, e) = one(m, n);
        let f = if poison { poisoned(m, n) } else { f };
        step(m, &mut o, &mut w, &f, e)?;
    }
    Optimiser::<Features>::reset(&mut o);
    let mut fresh = spec.build(n);
    w.fill(0.5);
    let mut wf = w.clone();
    for t in 0..m.rng.range(1, 3) {
        let (f, e) = one(m, n);
        step(m, &mut o, &mut w, &f, e)?;
        step(m, &mut fresh, &mut wf, &f, e)?;
        same(m, &w, &wf, &format!("C15/reset-{}", spec.name()), || {
            format!("step {} after a reset following {before} steps on {n} weights: {spec:?}, error {e}", t + 1)
        })?;
    }
    Ok(())
}

/// Resets after hundreds or thousands of steps, when bias corrections have
/// saturated and accumulators have grown.
fn long_reset(m: &mut M) -> R {
    let n = m.rng.range(1, 3);
    let spec = OptSpec::gen_stateful(&mut m.rng);
    let mut o = spec.build(n);
    m.fp(format!("{spec:?}"));
    m.nontrivial();
    m.ev("long history");
    let mut w = Array1::from(vals_of(&mut m.rng, n, Cls::Uniform));
    let before = if m.rng.chance(0.2) { m.rng.range(1000, 6000) } else { m.rng.range(60, 1000) };
    m.sample(|| format!("{spec:?} on {n} weights, reset after {before} steps"));
    for _ in 0..before {
        let (f, e) = one(m, n);
        step(m, &mut o, &mut w, &f, e)?;
    }
    Optimiser::<Features>::reset(&mut o);
    let mut fresh = spec.build(n);
    w = Array1::from(vals_of(&mut m.rng, n, Cls::Uniform));
    let mut wf = w.clone();
    let after = if m.rng.chance(0.5) { m.rng.range(1, 8) } else { m.rng.range(20, 300) };
    for t in 0..after {
        let (f, e) = one(m, n);
        step(m, &mut o, &mut w, &f, e)?;
        step(m, &mut fresh, &mut wf, &f, e)?;
        same(m, &w, &wf, &format!("C15/reset-{}", spec.name()), || {
            format!("step {} after a reset following {before} steps: {spec:?}, error {e}, {}", t + 1, repr(&f))
        })?;
    }
    Ok(())
}

fn plain(m: &mut M) -> R {
    let n = size(m);
    let spec = OptSpec::gen(&mut m.rng);
    let (mut a, mut b) = (spec.build(n), spec.build(n));
    let mut wa = Array1::from(vals_of(&mut m.rng, n, Cls::Uniform));
    let mut wb = wa.clone();
    m.fp(format!("{spec:?}"));
    m.nontrivial();
    m.sample(|| format!("{spec:?} on {n} weights"));
    for t in 0..m.rng.range(1, 10) {
        let (f, e) = one(m, n);
        if m.rng.chance(0.7) {
            m.ev("plain step");
            let r = a.step(&mut wa.view_mut(), &f);
            m.ok(r.is_ok(), "C15/refused", || format!("{r:?}"))?;
            step(m, &mut b, &mut wb, &f, 1.0)?;
        } else {
            step(m, &mut a, &mut wa, &f, e)?;
            step(m, &mut b, &mut wb, &f, e)?;
        }
        same(m, &wa, &wb, &format!("C15/plain-{}", spec.name()), || format!("step {}: {spec:?}, {}", t + 1, repr(&f)))?;
    }
    Ok(())
}

fn clones(m: &mut M) -> R {
    let n = size(m);
    let spec = OptSpec::gen(&mut m.rng);
    let mut o = spec.build(n);
    let mut w = Array1::from(vals_of(&mut m.rng, n, Cls::Uniform));
    m.fp(format!("{spec:?}"));
    m.nontrivial();
    m.sample(|| format!("{spec:?} on {n} weights"));
    for _ in 0..m.rng.below(8) {
        let (f, e) = one(m, n);
        step(m, &mut o, &mut w, &f, e)?;
    }
    // `script` is what the original will do; the clone is driven elsewhere in between
    let script: Vec<(Features, f64)> = (0..m.rng.range(1, 8)).map(|_| one(m, n)).collect();
    let reset_at = m.rng.below(12);
    let (mut twin, mut wt) = (o.clone(), w.clone());
    let (mut quiet, mut wq) = (o.clone(), w.clone());
    m.ev("clone");
    m.ok(o == twin, "C15/clone-equal", || format!("{o:?} cloned to {twin:?}"))?;
    for (t, (f, e)) in script.iter().enumerate() {
        step(m, &mut o, &mut w, f, *e)?;
        // the twin wanders off: other features, other errors, resets
        let (g, h) = one(m, n);
        step(m, &mut twin, &mut wt, &g, h * 3.0)?;
        if t == reset_at {
            Optimiser::<Features>::reset(&mut twin);
        }
    }
    drop(twin);
    for (f, e) in &script {
        step(m, &mut quiet, &mut wq, f, *e)?;
    }
    same(m, &w, &wq, &format!("C15/clone-{}", spec.name()), || format!("{spec:?}, {} steps", script.len()))
}

/// A user optimiser implementing only the required method.
struct Minimal {
    log: Vec<(Vec<f64>, f64)>,
}
impl Optimiser<Features> for Minimal {
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, e: f64) -> lfa::Result<()> {
        f.scaled_addto(e, w);
        self.log.push((raw(f), e));
        Ok(())
    }
}

fn defaults(m: &mut M) -> R {
    let n = size(m);
    let mut o = Minimal { log: vec![] };
    let mut w = Array1::zeros(n);
    m.nontrivial();
    m.sample(|| format!("user optimiser on {n} weights"));
    for k in 0..m.rng.range(1, 4) {
        let (f, _) = one(m, n);
        m.ev("default step");
        let r = o.step(&mut w.view_mut(), &f);
        m.ok(r.is_ok(), "C15/refused", || format!("{r:?}"))?;
        m.ok(o.log.len() == k + 1 && o.log[k] == (raw(&f), 1.0), "C15/default-step", || {
            format!("default step called step_scaled with {:?} for {}", o.log, repr(&f))
        })?;
        Optimiser::<Features>::reset(&mut o);
    }
    Ok(())
}
