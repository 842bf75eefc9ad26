//! C13: SGD and implicit SGD move predictions by the exact amount.
use super::scn;
use crate::engine::*;
use crate::gen::*;
use crate::opts::{active, AnyOpt};
use lfa::optim::*;
use lfa::Features;
use ndarray::Array1;

pub fn property() -> Property {
    Property {
        id: "C13",
        rule: "a case is an optimiser, rate, feature vector (storage, layout, values), error and weight window; the weights after \
               the step are compared cell by cell with the closed form, or a training history is followed against w*; \
               non-trivial when the features and the error are non-zero, distinct by all of these",
        required: &["SGD dense", "SGD sparse", "ISGD dense", "ISGD sparse", "zero error", "plain step", "window", "training step", "negative weight", "overlapping features", "extreme rate", "tiny features"],
        scenarios: vec![
            scn!("steps", 60_000, 1_500_000, 15, steps),
            scn!("storage", 20_000, 400_000, 6, storage),
            scn!("training", 4000, 80_000, 3, training),
        ],
    }
}

fn build(implicit: bool, a: f64) -> AnyOpt {
    if implicit {
        AnyOpt::Isgd(ISGD(a))
    } else {
        AnyOpt::Sgd(SGD(a))
    }
}

/// Errors of every magnitude.
fn error(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => sign(r) * logu(r, -14.0, 14.0),
        1 if r.chance(0.3) => sign(r) * logu(r, -120.0, 120.0),
        _ => crate::opts::error(r),
    }
}

fn rate(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => 1.0,
        1 => 0.5,
        2 => 2.0,
        3 => logu(r, -6.0, -2.0),
        4 => logu(r, 0.0, 3.0),
        _ => r.uniform(0.01, 1.5),
    }
}

/// Coefficient of the step: w += k * e * f.
fn coef(implicit: bool, a: f64, v: &[f64]) -> f64 {
    if implicit {
        let q: f64 = v.iter().map(|x| x * x).sum();
        a / (1.0 + a * q)
    } else {
        a
    }
}

fn steps(m: &mut M) -> R {
    let n = len_pos(&mut m.rng, m.small);
    let v = if m.rng.chance(0.7) { mild(&mut m.rng, n) } else { vals(&mut m.rng, n) };
    let f = if m.rng.chance(0.5) {
        dense_of(&mut m.rng, &v)
    } else {
        let ex = m.rng.chance(0.2);
        sparse_of(&mut m.rng, &v, ex)
    };
    let implicit = m.rng.chance(0.5);
    let name = if implicit { "ISGD" } else { "SGD" };
    let a = if m.rng.chance(0.08) {
        m.ev("extreme rate");
        if m.rng.chance(0.6) { logu(&mut m.rng, 3.0, 15.0) } else { logu(&mut m.rng, -15.0, -6.0) }
    } else {
        rate(&mut m.rng)
    };
    let tiny = m.rng.chance(0.1);
    let v: Vec<f64> = if tiny {
        m.ev("tiny features");
        let k = *m.rng.pick(&[1e-3, 1e-5, 1e-8, 1e-12]);
        v.iter().map(|x| k * x).collect()
    } else {
        v
    };
    let f = match &f {
        f if !tiny => f.clone(),
        f if f.is_dense() => dense_of(&mut m.rng, &v),
        _ => sparse_of(&mut m.rng, &v, false),
    };
    let w0: Vec<f64> = if m.rng.chance(0.3) { vec![0.0; n] } else { vals_of(&mut m.rng, n, Cls::Uniform) };
    let win = View::gen(&mut m.rng, n);
    let mut buf = win.with(&w0);
    let mut o = build(implicit, a);
    m.ev("window");
    m.ev(&format!("{name} {}", if f.is_dense() { "dense" } else { "sparse" }));
    if w0.iter().any(|w| *w < 0.0) {
        m.ev("negative weight");
    }
    m.fp((name, f.is_dense(), a.to_bits()));
    m.fpf(&v);
    m.fpf(&w0);
    m.sample(|| format!("{name}({a}) on {} from {}", repr(&f), show(&w0)));
    let mut w = w0;
    for _ in 0..m.rng.range(1, 3) {
        let plain = m.rng.chance(0.3);
        let e = if plain { 1.0 } else { error(&mut m.rng) };
        m.fpf(&[e]);
        if e != 0.0 && v.iter().any(|x| *x != 0.0) {
            m.nontrivial();
        }
        let res = {
            let mut view = win.view_mut(&mut buf);
            if plain {
                m.ev("plain step");
                o.step(&mut view, &f)
            } else {
                o.step_scaled(&mut view, &f, e)
            }
        };
        let ctx = || format!("{name}({a}), error {e}, features {}, window {win:?}", repr(&f));
        m.ok(res.is_ok(), "C13/refused", || format!("{res:?}: {}", ctx()))?;
        let got = win.view(&buf).to_vec();
        let k = coef(implicit, a, &v);
        for i in 0..n {
            let d = k * e * v[i];
            let tol = if d == 0.0 {
                0.0
            } else {
                let s = if implicit { (n as f64 + 16.0) * 4.0 * EPS } else { 4.0 * EPS };
                d.abs() * s + 2.0 * EPS * (w[i].abs() + d.abs())
            };
            m.close(got[i], w[i] + d, tol, if implicit { "C13/isgd-step" } else { "C13/sgd-step" }, || {
                format!("weight {i} of {} before {}: {}", n, w[i], ctx())
            })?;
        }
        if e == 0.0 {
            m.ev("zero error");
        }
        if let Some(at) = win.spill(&buf) {
            return m.fail("C13/spill", format!("cell {at:?} outside the weights changed: {}", ctx()));
        }
        // the prediction moves by the stated amount
        let q: f64 = v.iter().map(|x| x * x).sum();
        let (p0, p1) = (dot(&v, &w), f.dot(&win.view(&buf)));
        let mv = k * e * q;
        let tol = gamma(n, dot_mag(&v, &w) + dot_mag(&v, &got)) + mv.abs() * (n as f64 + 16.0) * 8.0 * EPS;
        m.close(p1 - p0, mv, tol, "C13/prediction", ctx)?;
        if implicit {
            m.ok((p1 - p0).abs() <= e.abs() + tol && (p1 - p0) * e >= -tol * e.abs(), "C13/overshoot", || {
                format!("prediction moved by {:e} on error {e}: {}", p1 - p0, ctx())
            })?;
        }
        w = got;
    }
    // the features are not touched and the optimiser remembers nothing
    m.ok(o == build(implicit, a), "C13/optimiser", || format!("{o:?} was {name}({a})"))?;
    let r = raw(&f);
    m.ok(r.len() == n && r.iter().zip(&v).all(|(x, y)| x == y), "C13/features", || repr(&f))
}

/// Dense and sparse steps agree.
fn storage(m: &mut M) -> R {
    let n = len_pos(&mut m.rng, m.small);
    let v = mild(&mut m.rng, n);
    let (fd, fs) = (dense_of(&mut m.rng, &v), sparse_of(&mut m.rng, &v, true));
    let implicit = m.rng.chance(0.5);
    let a = rate(&mut m.rng);
    let e = error(&mut m.rng);
    let w0 = vals_of(&mut m.rng, n, Cls::Uniform);
    let (mut wd, mut ws) = (layout1(&mut m.rng, &w0), layout1(&mut m.rng, &w0));
    m.fp((implicit, a.to_bits()));
    m.fpf(&v);
    m.fpf(&[e]);
    if e != 0.0 && v.iter().any(|x| *x != 0.0) {
        m.nontrivial();
    }
    m.sample(|| format!("implicit: {implicit}, rate {a}, error {e}: {} and {}", repr(&fd), repr(&fs)));
    let ok = build(implicit, a).step_scaled(&mut wd.view_mut(), &fd, e).is_ok()
        && build(implicit, a).step_scaled(&mut ws.view_mut(), &fs, e).is_ok();
    m.ok(ok, "C13/refused", || repr(&fs))?;
    let k = coef(implicit, a, &v);
    for i in 0..n {
        let d = (k * e * v[i]).abs();
        m.close(ws[i], wd[i], d * (n as f64 + 16.0) * 8.0 * EPS + 4.0 * EPS * w0[i].abs(), "C13/storage", || {
            format!("weight {i}: implicit {implicit}, rate {a}, error {e}, {}", repr(&fd))
        })?;
    }
    Ok(())
}

/// Realisable targets: the distance to w* never grows.
fn training(m: &mut M) -> R {
    let n = if m.small { m.rng.range(1, 5) } else { *m.rng.pick(&[1, 2, 3, 5, 8, 9, 17, 40]) };
    let implicit = m.rng.chance(0.5);
    let ws = vals_of(&mut m.rng, n, Cls::Uniform);
    let mut w = Array1::from(if m.rng.chance(0.4) { vec![0.0; n] } else { vals_of(&mut m.rng, n, Cls::Uniform) });
    let a = if implicit { rate(&mut m.rng) } else { m.rng.uniform(0.01, 1.0) };
    let mut o = build(implicit, a);
    let rounds = if m.small { 6 } else { m.rng.range(10, 80) };
    let pool: Vec<Features> = (0..m.rng.range(1, 6))
        .map(|_| {
            let mut v = mild(&mut m.rng, n);
            // keep a |f|^2 <= 2 for the explicit rule
            let q: f64 = v.iter().map(|x| x * x).sum();
            if !implicit && a * q > 2.0 {
                let s = (1.999 / (a * q)).sqrt();
                v.iter_mut().for_each(|x| *x *= s);
            }
            feats(&mut m.rng, &v)
        })
        .collect();
    m.fp((implicit, a.to_bits(), rounds));
    m.fpf(&ws);
    m.sample(|| format!("implicit: {implicit}, rate {a}, {rounds} steps towards {}", show(&ws)));
    if pool.iter().filter(|f| active(f).iter().any(|b| *b)).count() > 1 {
        m.ev("overlapping features");
    }
    for _ in 0..rounds {
        let f = &pool[m.rng.below(pool.len())];
        let v = raw(f);
        if v.iter().any(|x| *x != 0.0) {
            m.nontrivial();
        }
        m.fpf(&v[..v.len().min(3)]);
        let wv = w.to_vec();
        let e = dot(&v, &ws) - f.dot(&w.view());
        let d0: f64 = wv.iter().zip(&ws).map(|(a, b)| (a - b).powi(2)).sum();
        m.ok(o.step_scaled(&mut w.view_mut(), f, e).is_ok(), "C13/refused", || repr(f))?;
        let d1: f64 = w.iter().zip(&ws).map(|(a, b)| (a - b).powi(2)).sum();
        m.ev("training step");
        let size: f64 = wv.iter().chain(&ws).map(|x| x * x).sum();
        m.ok(d1 <= d0 + 1e-9 * d0 + 1e-11 * (size + 1e-3), "C13/diverges", || {
            format!("distance^2 to w* went from {d0:e} to {d1:e}: implicit {implicit}, rate {a}, {}", repr(f))
        })?;
        if implicit {
            let left = dot(&v, &ws) - dot(&v, w.as_slice().unwrap());
            m.ok(left * e >= -1e-9 * (e * e + size * 1e-3), "C13/overshoot", || {
                format!("error went from {e:e} to {left:e}: rate {a}, {}", repr(f))
            })?;
        }
    }
    Ok(())
}
