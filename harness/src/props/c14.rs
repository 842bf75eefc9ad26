//! C14: stateful optimisers follow their recurrences over any history.
use super::scn;
use crate::engine::*;
use crate::gen::*;
use crate::opts::*;
use lfa::optim::*;

pub fn property() -> Property {
    Property {
        id: "C14",
        rule: "a case is an optimiser with hyper-parameters and a history of steps and resets (features in mixed storage, errors \
               of both signs and many magnitudes), the weights after every step compared with a shadow recurrence; \
               non-trivial with at least two non-zero steps, distinct by the whole history",
        required: &[
            "SGDMomentum dense", "SGDMomentum sparse", "NAG dense", "NAG sparse", "Adagrad dense", "Adagrad sparse", "Adam dense",
            "Adam sparse", "AdaMax dense", "AdaMax sparse", "reset", "storage switch", "zero error", "long history", "plain step",
            "inactive weight", "many weights", "unusual momentum", "negative rate"],
        scenarios: vec![
            scn!("history", 15_000, 300_000, 10, history),
            scn!("long", 400, 6000, 0, long),
            scn!("wide", 250, 4000, 0, wide),
            scn!("extreme", 4000, 60_000, 4, extreme),
        ],
    }
}

fn sparse_or_dense(m: &mut M, v: &[f64]) -> lfa::Features {
    if m.rng.chance(0.5) {
        dense_of(&mut m.rng, v)
    } else {
        sparse_of(&mut m.rng, v, false)
    }
}

fn run(m: &mut M, n: usize, steps: usize, spec: OptSpec, values: &dyn Fn(&mut Rng, usize) -> Vec<f64>, errors: &dyn Fn(&mut Rng) -> f64) -> R {
    let name = spec.name();
    let mut o = spec.build(n);
    let mut s = spec.shadow(n);
    let w0 = if m.rng.chance(0.4) { vec![0.0; n] } else { vals_of(&mut m.rng, n, Cls::Uniform) };
    let win = View::gen(&mut m.rng, n);
    let mut buf = win.with(&w0);
    let mut sw = SW::new(&w0);
    m.fp((format!("{spec:?}"), n, steps));
    m.sample(|| format!("{spec:?} on {n} weights, {steps} steps, window {win:?}"));
    let p_reset = if m.rng.chance(0.4) { 0.15 } else { 0.0 };
    let mut last: Option<bool> = None;
    let mut nonzero = 0;
    let mut log: Vec<String> = Vec::new();
    for t in 0..steps {
        if m.rng.chance(p_reset) {
            m.ev("reset");
            Optimiser::<lfa::Features>::reset(&mut o);
            s.reset();
            log.push("reset".into());
            let got = win.view(&buf).to_vec();
            m.ok(got == sw.w, "C14/reset-weights", || format!("{name}: reset changed the weights"))?;
        }
        let v = values(&mut m.rng, n);
        let f = sparse_or_dense(m, &v);
        m.ev(&format!("{name} {}", if f.is_dense() { "dense" } else { "sparse" }));
        if last == Some(!f.is_dense()) {
            m.ev("storage switch");
        }
        last = Some(f.is_dense());
        let plain = m.rng.chance(0.1);
        let e = if plain { 1.0 } else { errors(&mut m.rng) };
        if e == 0.0 {
            m.ev("zero error");
        }
        m.fpf(&v[..v.len().min(8)]);
        m.fpf(&[e]);
        if e != 0.0 && v.iter().any(|x| *x != 0.0) {
            nonzero += 1;
        }
        let act = active(&f);
        if act.iter().any(|a| !*a) {
            m.ev("inactive weight");
        }
        if log.len() < 12 {
            log.push(format!("error {e} on {}", repr(&f)));
        }
        let before = sw.w.clone();
        s.step(&mut sw, &v, &act, e);
        let r = if plain {
            m.ev("plain step");
            o.step(&mut win.view_mut(&mut buf), &f)
        } else {
            o.step_scaled(&mut win.view_mut(&mut buf), &f, e)
        };
        let ctx = || format!("{spec:?} after {} steps (t={} since reset): {}", t + 1, s.t, log.join("; "));
        m.ok(r.is_ok(), "C14/refused", || format!("{r:?}: {}", ctx()))?;
        if !sw.sane() {
            m.skip();
            return Ok(());
        }
        let got = win.view(&buf).to_vec();
        for i in 0..n {
            m.close(got[i], sw.w[i], sw.e[i], &format!("C14/{name}"), || {
                format!("weight {i} (was {}): {}", before[i], ctx())
            })?;
        }
        if let Some(at) = win.spill(&buf) {
            return m.fail("C14/spill", format!("cell {at:?} outside the weights changed: {}", ctx()));
        }
        // judge the next step from the weights actually held
        sw.resync(&got);
    }
    if nonzero >= 2 {
        m.nontrivial();
    }
    Ok(())
}

/// A rule, at times with a momentum or a rate out of the ordinary.
fn rule(m: &mut M) -> OptSpec {
    let mut spec = OptSpec::gen_stateful(&mut m.rng);
    if let OptSpec::Mom(b, _) | OptSpec::Nag(b, _) = &mut spec {
        if m.rng.chance(0.1) {
            m.ev("unusual momentum");
            *b = *m.rng.pick(&[1.0, 1.05, 1.5, -0.5, 1e-9]);
        }
    }
    if m.rng.chance(0.04) {
        m.ev("negative rate");
        spec = spec.negated();
    }
    spec
}

fn history(m: &mut M) -> R {
    let n = if m.small { m.rng.range(1, 4) } else { *m.rng.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 16, 33, 70]) };
    let steps = if m.small { m.rng.range(2, 6) } else { m.rng.range(2, 30) };
    let spec = rule(m);
    run(m, n, steps, spec, &|r, n| mild(r, n), &error)
}

fn long(m: &mut M) -> R {
    m.ev("long history");
    // a few histories outlast 16-bit step counts
    let huge = m.rng.chance(0.004);
    let very = huge || m.rng.chance(0.04);
    let n = if very { 1 } else { *m.rng.pick(&[1, 3, 6]) };
    let steps = match (m.thorough, very) {
        _ if huge => m.rng.range(66_000, 140_000),
        (true, true) => m.rng.range(4000, 150_000),
        (true, false) => m.rng.range(500, 4000),
        (false, true) => m.rng.range(1200, 20_000),
        _ => m.rng.range(300, 1200),
    };
    let spec = rule(m);
    run(m, n, steps, spec, &|r, n| mild(r, n), &error)
}

/// Thousands of weights.
fn wide(m: &mut M) -> R {
    m.ev("many weights");
    let n = match m.rng.below(3) {
        0 => m.rng.range(100, 600),
        1 => m.rng.range(600, 5000),
        _ => *m.rng.pick(&[127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097]),
    };
    let steps = m.rng.range(2, 6);
    let spec = rule(m);
    run(m, n, steps, spec, &|r, n| mild(r, n), &error)
}

fn extreme(m: &mut M) -> R {
    let n = m.rng.range(1, 6);
    let steps = m.rng.range(2, 15);
    let spec = rule(m);
    run(
        m,
        n,
        steps,
        spec,
        &|r, n| {
            let c = *r.pick(&[Cls::Log, Cls::Mid]);
            vals_of(r, n, c)
        },
        &|r| if r.chance(0.2) { 0.0 } else { sign(r) * logu(r, -8.0, 8.0) },
    )
}
