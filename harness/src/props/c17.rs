//! C17: a vector approximator is a bank of independent scalar ones.
use super::c16::{an_input, failure, same_features, wide_spec, Recorder};
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use crate::opts::*;
use lfa::basis::*;
use lfa::optim::*;
use lfa::{Features, VectorLFA, LFA};
use ndarray::{Array1, Array2};
use std::cell::RefCell;

pub fn property() -> Property {
    Property {
        id: "C17",
        rule: "a case is a basis composition, optimiser, weight matrix (layout, outputs) and a history of every read and update \
               operation, all outputs and the whole matrix compared with a bank of scalar shadows after each; non-trivial \
               with at least two outputs and a non-zero update, distinct by configuration and history",
        required: &[
            "evaluate", "evaluate_index", "iter", "try_iter", "update", "update short", "update endless", "update_index", "update_with",
            "failing read", "failing update", "failing iter panics", "no outputs", "one output", "many outputs", "strided errors",
            "matrix SGD", "matrix ISGD", "matrix Adam", "sparse projection", "dense projection", "iterator consumed", "bank", "long history",
            "many features", "dozens of outputs", "recorded steps", "refused step", "panicking callback", "over 256 outputs",
            "edit weights", "no such output", "iterator adaptors",
        ],
        scenarios: vec![
            scn!("history", 15_000, 300_000, 8, history),
            scn!("long", 120, 2500, 0, long),
            scn!("wide", 120, 2500, 0, wide),
            scn!("bank", 4000, 80_000, 4, bank),
            scn!("recorder", 6000, 100_000, 6, recorder),
        ],
    }
}

type V = VectorLFA<DynB, AnyOpt>;

/// Shadow state: every output on its own, or all outputs through one memory.
struct Shadows {
    spec: OptSpec,
    n: usize,
    own: Vec<Shadow>,
    shared: Shadow,
    /// the library has been seen to use one memory for all outputs
    decided_shared: bool,
}

impl Shadows {
    fn new(spec: OptSpec, n: usize, k: usize) -> Shadows {
        Shadows { spec, n, own: (0..k).map(|_| spec.shadow(n)).collect(), shared: spec.shadow(n), decided_shared: false }
    }
    fn reset(&mut self) {
        self.own.iter_mut().for_each(|s| s.reset());
        self.shared.reset();
    }
    /// Outputs `which` stepped in this order; compare the matrix with both models.
    fn check(&mut self, m: &mut M, before: &Array2<f64>, now: &Array2<f64>, v: &[f64], act: &[bool], which: &[(usize, f64)], ctx: &dyn Fn() -> String) -> R<bool> {
        let k = before.ncols();
        let mut bad: Option<(usize, usize, f64, f64)> = None;
        let mut bad2: Option<(usize, usize, f64, f64)> = None;
        for j in 0..k {
            let col = before.column(j).to_vec();
            let es: Vec<f64> = which.iter().filter(|w| w.0 == j).map(|w| w.1).collect();
            if es.is_empty() {
                for i in 0..self.n {
                    m.ok(now[(i, j)].to_bits() == before[(i, j)].to_bits(), "C17/other-output", || {
                        format!("weight ({i},{j}) of an output without an error went from {} to {}: {}", before[(i, j)], now[(i, j)], ctx())
                    })?;
                }
                continue;
            }
            let mut a = SW::new(&col);
            let mut b = SW::new(&col);
            for e in es {
                self.own[j].step(&mut a, v, act, e);
                self.shared.step(&mut b, v, act, e);
            }
            if !a.sane() || !b.sane() {
                return Ok(false);
            }
            for i in 0..self.n {
                let g = now[(i, j)];
                let near = |s: &SW| g == s.w[i] || (g - s.w[i]).abs() <= s.e[i];
                if near(&b) && b.e[i] > 0.0 {
                    m.dev("C17/step", (g - b.w[i]).abs() / b.e[i]);
                }
                if !near(&a) && bad.is_none() {
                    bad = Some((i, j, g, a.w[i]));
                }
                if !near(&b) && bad2.is_none() {
                    bad2 = Some((i, j, g, b.w[i]));
                }
            }
        }
        let text = |(i, j, g, w): (usize, usize, f64, f64)| format!("weight ({i},{j}) became {g:e}, expected {w:e}");
        if self.decided_shared {
            // from the first influence on, only the one-memory model explains the history
            return m
                .ok(bad2.is_none(), "C17/step", || format!("{}: {}", text(bad2.unwrap()), ctx()))
                .map(|_| true);
        }
        if let Some(b) = bad {
            if bad2.is_none() && self.spec.stateful() {
                self.decided_shared = true;
                m.ok(false, &format!("C17/shared-state/{}", self.spec.name()), || {
                    format!("one output's history changed another's step: {}: {}", text(b), ctx())
                })?;
                return Ok(true);
            }
            m.ok(false, "C17/step", || format!("{}: {}", text(b), ctx()))?;
        }
        m.ok(true, "C17/step", || String::new())?;
        Ok(true)
    }
}

/// An error array whose logical contents are `e`.
fn errors_of(m: &mut M, e: &[f64]) -> Array1<f64> {
    let a = layout1(&mut m.rng, e);
    if a.len() > 1 && a.strides()[0] != 1 {
        m.ev("strided errors");
    }
    a
}

fn history(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let fallible = m.rng.chance(0.5);
    let depth = m.rng.below(3);
    let sp = spec(&mut m.rng, d, &Opt::new().fallible(fallible).depth(depth).max_dim(if m.small { 5 } else { 40 }));
    let k = *m.rng.pick(&[0, 1, 1, 2, 2, 3, 4, 5, 9]);
    let steps = if m.small { 4 } else { m.rng.range(3, 20) };
    run(m, d, sp, fallible, k, steps)
}

/// Hundreds of operations on one model, over a handful of inputs seen again and again.
fn long(m: &mut M) -> R {
    m.ev("long history");
    let d = m.rng.range(1, 2);
    let fallible = m.rng.chance(0.3);
    let sp = spec(&mut m.rng, d, &Opt::new().fallible(fallible).depth(1).max_dim(6));
    let (k, steps) = (m.rng.range(1, 4), m.rng.range(100, 600));
    run(m, d, sp, fallible, k, steps)
}

/// Thousands of features, or dozens of outputs.
fn wide(m: &mut M) -> R {
    let d = m.rng.range(1, 2);
    let steps = m.rng.range(3, 8);
    if m.rng.chance(0.5) {
        let sp = wide_spec(m, d);
        let k = m.rng.range(1, 3);
        run(m, d, sp, false, k, steps)
    } else {
        m.ev("dozens of outputs");
        let sp = spec(&mut m.rng, d, &Opt::new().depth(1).max_dim(12));
        let k = *m.rng.pick(&[16, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300, 513, 1025, 1500]);
        if k > 256 {
            m.ev("over 256 outputs");
        }
        run(m, d, sp, false, k, steps)
    }
}

fn run(m: &mut M, d: usize, sp: Spec, fallible: bool, k: usize, steps: usize) -> R {
    let n = sp.dim();
    let b = sp.build();
    let pool: Vec<Vec<f64>> = if steps > 50 { (0..6).map(|_| an_input(m, d, fallible)).collect() } else { vec![] };
    m.ev(match k {
        0 => "no outputs",
        1 => "one output",
        _ => "many outputs",
    });
    // mostly memoryless rules, where independence is exact
    let os = if m.rng.chance(0.6) {
        let i = m.rng.below(2);
        OptSpec::of(&mut m.rng, i)
    } else {
        OptSpec::gen_stateful(&mut m.rng)
    };
    m.ev(&format!("matrix {}", os.name()));
    let w0: Vec<f64> = vals_of(&mut m.rng, n * k, Cls::Uniform);
    let mut lfa: V = if m.rng.chance(0.3) {
        LFA::vector(b.clone(), os.build(n), k)
    } else {
        LFA::new(b.clone(), layout2(&mut m.rng, n, k, |i, j| w0[i * k + j]), os.build(n))
    };
    m.fp(format!("{sp:?} {os:?} {k}"));
    m.sample(|| format!("{k} outputs, {os:?} over {sp:?}, weight strides {:?}", lfa.weights.strides()));
    m.ok(lfa.weights.dim() == (n, k) && lfa.n_outputs() == k, "C17/shape", || {
        format!("weights {:?}, {} outputs instead of ({n}, {k}): {sp:?}", lfa.weights.dim(), lfa.n_outputs())
    })?;
    let mut sh = Shadows::new(os, n, k);
    let mut log: Vec<String> = vec![];
    let mut again: Option<Vec<f64>> = None;
    for _ in 0..steps {
        let x = if again.is_some() && m.rng.chance(0.7) {
            // the same input as before an edit
            again.take().unwrap()
        } else if !pool.is_empty() && m.rng.chance(0.8) { m.rng.pick(&pool).clone() } else { an_input(m, d, fallible) };
        m.fpf(&x);
        let p = b.project(&x[..]);
        let want = sp.want(&x);
        let v = p.as_ref().map(raw).unwrap_or_default();
        if p.is_ok() && !(v.len() == n && v.iter().all(|x| x.is_finite() && x.abs() < 1e30)) {
            m.skip();
            continue;
        }
        let act = p.as_ref().map(active).unwrap_or_default();
        if let Ok(f) = &p {
            m.ev(if f.is_dense() { "dense projection" } else { "sparse projection" });
        }
        let before = lfa.weights.clone();
        let obefore = lfa.optimiser.clone();
        let col = |j: usize| before.column(j).to_vec();
        let vals: Vec<f64> = (0..k).map(|j| dot(&v, &col(j))).collect();
        let tol: Vec<f64> = (0..k).map(|j| gamma(n, dot_mag(&v, &col(j))) + 1e-11 * dot_mag(&v, &col(j))).collect();
        let op = m.rng.below(12);
        const OPS: [&str; 12] = ["evaluate", "evaluate_index", "iter", "try_iter", "update", "update", "update_index", "update_index", "update_with", "update_with", "reset", "edit"];
        if log.len() < 14 {
            log.push(format!("{} at {x:?}", OPS[op]));
        }
        let text = log.join("; ");
        let ctx = || format!("{k} outputs, {os:?} over {sp:?}; {text}");
        let mut which: Vec<(usize, f64)> = vec![];
        match op {
            0 => match (&p, lfa.evaluate(&x[..])) {
                (Ok(_), Ok(y)) => {
                    m.ev("evaluate");
                    m.close_vec(&y.to_vec(), &vals, |j| tol[j], "C17/evaluate", ctx)?;
                }
                (Err(_), Err(e)) => {
                    m.ev("failing read");
                    failure(m, &want, &e, ctx)?;
                }
                (_, r) => return m.fail("C17/evaluate", format!("returned {r:?}: {}", ctx())),
            },
            1 => {
                for j in 0..k {
                    match (&p, lfa.evaluate_index(&x[..], j)) {
                        (Ok(_), Ok(y)) => {
                            m.ev("evaluate_index");
                            m.close(y, vals[j], tol[j], "C17/evaluate_index", || format!("output {j}: {}", ctx()))?;
                        }
                        (Err(_), Err(e)) => {
                            m.ev("failing read");
                            failure(m, &want, &e, ctx)?;
                        }
                        (_, r) => return m.fail("C17/evaluate_index", format!("output {j} returned {r:?}: {}", ctx())),
                    }
                }
            }
            2 | 3 => {
                if m.rng.chance(0.3) {
                    // there is no such output
                    m.ev("no such output");
                    let j = k + *m.rng.pick(&[0, 0, 1, 2, 100]);
                    let r = m.caught(|| lfa.evaluate_index(&x[..], j));
                    m.ok(!matches!(r, Ok(Ok(_))), "C17/no-such-output", || {
                        format!("output {j} of {k} has a value {:?}: {}", r.as_ref().ok(), ctx())
                    })?;
                    let r = m.caught(|| lfa.update_index(&x[..], j, 0.5));
                    m.ok(!matches!(r, Ok(Ok(_))) && lfa.weights == before, "C17/no-such-output", || {
                        format!("update of output {j} of {k} gave {:?}: {}", r.as_ref().ok(), ctx())
                    })?;
                }
                let it = if op == 2 {
                    match (&p, m.caught(|| lfa.iter(&x[..]))) {
                        (Ok(_), Ok(it)) => {
                            m.ev("iter");
                            Some(it)
                        }
                        (Err(_), Err(_)) => {
                            m.ev("failing iter panics");
                            None
                        }
                        (_, r) => return m.fail("C17/iter", format!("panicked: {}: {}", r.is_err(), ctx())),
                    }
                } else {
                    match (&p, lfa.try_iter(&x[..])) {
                        (Ok(_), Ok(it)) => {
                            m.ev("try_iter");
                            Some(it)
                        }
                        (Err(_), Err(e)) => {
                            m.ev("failing read");
                            failure(m, &want, &e, ctx)?;
                            None
                        }
                        (_, r) => return m.fail("C17/try_iter", format!("refused: {}: {}", r.is_err(), ctx())),
                    }
                };
                if let Some(mut it) = it {
                    for j in 0..k {
                        m.ok(it.len() == k - j && it.size_hint() == (k - j, Some(k - j)), "C17/iter-length", || {
                            format!("length {} hint {:?} with {} outputs left: {}", it.len(), it.size_hint(), k - j, ctx())
                        })?;
                        match it.next() {
                            Some(y) => m.close(y, vals[j], tol[j], "C17/iter", || format!("output {j}: {}", ctx()))?,
                            None => return m.fail("C17/iter", format!("ended before output {j}: {}", ctx())),
                        }
                    }
                    m.ok(it.len() == 0 && it.next().is_none(), "C17/iter-length", || format!("did not end after {k}: {}", ctx()))?;
                    m.ev("iterator consumed");
                    // adaptors see the same sequence
                    if k > 0 && m.rng.chance(0.3) {
                        let j = m.rng.below(k);
                        let y = lfa.try_iter(&x[..]).unwrap().nth(j);
                        m.close(y.unwrap_or(f64::NAN), vals[j], tol[j], "C17/iter", || format!("nth({j}): {}", ctx()))?;
                        let c = lfa.try_iter(&x[..]).unwrap().count();
                        m.ok(c == k, "C17/iter-length", || format!("counted {c}: {}", ctx()))?;
                    }
                    if m.rng.chance(0.3) {
                        m.ev("iterator adaptors");
                        let cut = m.rng.below(k + 1);
                        let step = m.rng.range(1, 3);
                        let how = m.rng.below(8);
                        let mut it = lfa.try_iter(&x[..]).unwrap();
                        for _ in 0..cut {
                            it.next();
                        }
                        let left: Vec<usize> = (cut..k).collect();
                        let (which, ys): (Vec<usize>, Vec<f64>) = match how {
                            0 => (left.last().copied().into_iter().collect(), it.last().into_iter().collect()),
                            1 => (left, it.collect()),
                            2 => (left, it.fold(vec![], |mut a, y| { a.push(y); a })),
                            3 => (left.into_iter().step_by(step).collect(), it.step_by(step).collect()),
                            4 => (left.into_iter().skip(step).collect(), it.skip(step).collect()),
                            5 => (left.into_iter().take(step).collect(), it.by_ref().take(step).collect()),
                            6 => {
                                // nth leaves off where it should
                                let y = it.nth(step);
                                m.ok(y.is_some() == (cut + step < k) && it.len() == k.saturating_sub(cut + step + 1), "C17/iter-length", || {
                                    format!("nth({step}) after {cut} of {k}: {y:?} and {} left: {}", it.len(), ctx())
                                })?;
                                (left.into_iter().skip(step).collect(), y.into_iter().chain(it).collect())
                            }
                            _ => {
                                let mut ys = vec![];
                                it.for_each(|y| ys.push(y));
                                (left, ys)
                            }
                        };
                        m.ok(ys.len() == which.len(), "C17/iter-length", || format!("{} outputs instead of {which:?} (way {how}, {cut} read before): {}", ys.len(), ctx()))?;
                        for (j, y) in which.iter().zip(&ys) {
                            m.close(*y, vals[*j], tol[*j], "C17/iter", || format!("output {j} (way {how}, {cut} read before): {}", ctx()))?;
                        }
                    }
                }
            }
            4 | 5 => {
                let es: Vec<f64> = (0..k).map(|_| error(&mut m.rng)).collect();
                m.fpf(&es);
                let (r, used) = match m.rng.below(4) {
                    0 => {
                        let c = m.rng.below(k + 1);
                        m.ev("update short");
                        (lfa.update(&x[..], es[..c].to_vec()), c)
                    }
                    1 => {
                        m.ev("update endless");
                        let tail = 0.75;
                        (lfa.update(&x[..], es.iter().copied().chain(std::iter::repeat(tail))), k)
                    }
                    2 => {
                        let a = errors_of(m, &es);
                        (lfa.update(&x[..], a.iter().copied()), k)
                    }
                    _ => (lfa.update(&x[..], es.clone()), k),
                };
                match (&p, r) {
                    (Ok(_), Ok(())) => {
                        m.ev("update");
                        which = (0..used).map(|j| (j, es[j])).collect();
                    }
                    (Err(_), Err(e)) => {
                        m.ev("failing update");
                        failure(m, &want, &e, ctx)?;
                    }
                    (_, r) => return m.fail("C17/update", format!("returned {r:?}: {}", ctx())),
                }
            }
            6 | 7 => {
                if k == 0 {
                    continue;
                }
                let j = m.rng.below(k);
                let e = error(&mut m.rng);
                m.fpf(&[j as f64, e]);
                match (&p, lfa.update_index(&x[..], j, e)) {
                    (Ok(_), Ok(())) => {
                        m.ev("update_index");
                        which.push((j, e));
                    }
                    (Err(_), Err(e)) => {
                        m.ev("failing update");
                        failure(m, &want, &e, ctx)?;
                    }
                    (_, r) => return m.fail("C17/update_index", format!("returned {r:?}: {}", ctx())),
                }
            }
            8 | 9 => {
                let es: Vec<f64> = (0..k).map(|_| error(&mut m.rng)).collect();
                m.fpf(&es);
                let short = if m.rng.chance(0.2) { m.rng.below(k + 1) } else { k };
                let ret = errors_of(m, &es[..short]);
                let calls: RefCell<Vec<(Features, Vec<f64>)>> = RefCell::new(vec![]);
                let r = lfa.update_with(&x[..], |phi, y| {
                    calls.borrow_mut().push((phi.clone(), y.to_vec()));
                    ret.clone()
                });
                let calls = calls.into_inner();
                match (&p, r) {
                    (Ok(f), Ok(())) => {
                        m.ev("update_with");
                        m.ok(calls.len() == 1, "C17/callback-count", || format!("callback ran {} times: {}", calls.len(), ctx()))?;
                        m.ok(same_features(&calls[0].0, f), "C17/callback-features", || {
                            format!("callback saw {} instead of {}: {}", repr(&calls[0].0), repr(f), ctx())
                        })?;
                        m.close_vec(&calls[0].1, &vals, |j| tol[j], "C17/callback-values", ctx)?;
                        which = (0..short).map(|j| (j, es[j])).collect();
                    }
                    (Err(_), Err(e)) => {
                        m.ev("failing update");
                        m.ok(calls.is_empty(), "C17/callback-count", || format!("callback ran although the basis failed: {}", ctx()))?;
                        failure(m, &want, &e, ctx)?;
                    }
                    (_, r) => return m.fail("C17/update_with", format!("returned {r:?}: {}", ctx())),
                }
            }
            11 => {
                m.ev("edit weights");
                if n * k > 0 {
                    let (i, j) = ((m.rng.below(n), m.rng.below(k)), (m.rng.below(n), m.rng.below(k)));
                    match m.rng.below(5) {
                        0 => lfa.weights.swap(i, j),
                        1 => lfa.weights.mapv_inplace(|x| -x),
                        2 => {
                            let mut v: Vec<f64> = lfa.weights.iter().copied().collect();
                            m.rng.shuffle(&mut v);
                            lfa.weights.iter_mut().zip(v).for_each(|(w, x)| *w = x);
                        }
                        3 => {
                            // whole outputs trade places
                            let (a, b) = (lfa.weights.column(i.1).to_owned(), lfa.weights.column(j.1).to_owned());
                            lfa.weights.column_mut(i.1).assign(&b);
                            lfa.weights.column_mut(j.1).assign(&a);
                        }
                        _ => lfa.weights[i] = m.rng.uniform(-1.0, 1.0),
                    }
                }
                again = Some(x);
                continue;
            }
            _ => {
                Optimiser::<Features>::reset(&mut lfa.optimiser);
                sh.reset();
                m.ok(lfa.weights == before, "C17/reset", ctx)?;
                continue;
            }
        }
        m.ok(lfa.weights.dim() == (n, k), "C17/shape", ctx)?;
        if which.is_empty() {
            m.ok(
                lfa.weights.iter().zip(before.iter()).all(|(a, b)| a.to_bits() == b.to_bits()),
                "C17/unchanged",
                || format!("weights moved without an error: {}", ctx()),
            )?;
            m.ok(lfa.optimiser == obefore, "C17/optimiser-unchanged", || {
                format!("optimiser went from {obefore:?} to {:?}: {}", lfa.optimiser, ctx())
            })?;
        } else {
            if k > 1 && which.iter().any(|w| w.1 != 0.0) && v.iter().any(|x| *x != 0.0) {
                m.nontrivial();
            }
            let now = lfa.weights.clone();
            let full = || format!("errors {which:?}, features {}: {}", p.as_ref().map(repr).unwrap_or_default(), ctx());
            if !sh.check(m, &before, &now, &v, &act, &which, &full)? {
                m.skip();
                return Ok(());
            }
        }
    }
    Ok(())
}

/// Literal comparison with a bank of the library's own scalar approximators
/// (memoryless rules; the others are judged in `history`).
fn bank(m: &mut M) -> R {
    m.ev("bank");
    let d = idim(&mut m.rng);
    let sp = spec(&mut m.rng, d, &Opt::new().depth(1).max_dim(if m.small { 5 } else { 40 }));
    let n = sp.dim();
    let b = sp.build();
    let k = m.rng.range(2, 6);
    let i = m.rng.below(2);
    let os = OptSpec::of(&mut m.rng, i);
    let w0: Vec<f64> = vals_of(&mut m.rng, n * k, Cls::Uniform);
    let mut vec: V = LFA::new(b.clone(), layout2(&mut m.rng, n, k, |i, j| w0[i * k + j]), os.build(n));
    let mut sca: Vec<lfa::ScalarLFA<DynB, AnyOpt>> = (0..k)
        .map(|j| LFA::new(b.clone(), (0..n).map(|i| w0[i * k + j]).collect(), os.build(n)))
        .collect();
    m.fp(format!("{sp:?} {os:?} {k}"));
    m.fpf(&w0);
    m.sample(|| format!("{k} outputs, {os:?} over {sp:?}"));
    for _ in 0..m.rng.range(2, 10) {
        let x = input(&mut m.rng, d);
        let f = b.project(&x[..]).unwrap();
        if !raw(&f).iter().all(|x| x.is_finite() && x.abs() < 1e30) {
            m.skip();
            continue;
        }
        let ts: Vec<f64> = (0..k).map(|_| m.rng.uniform(-2.0, 2.0)).collect();
        let big = vec.weights.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        if m.rng.chance(0.5) {
            let t2 = Array1::from(ts.clone());
            vec.update_with(&x[..], |_, y| &t2 - &y).unwrap();
            for j in 0..k {
                sca[j].update_with(&x[..], |_, y| ts[j] - y).unwrap();
            }
        } else {
            vec.update(&x[..], ts.clone()).unwrap();
            for j in 0..k {
                sca[j].update(&x[..], ts[j]).unwrap();
            }
        }
        if raw(&f).iter().any(|x| *x != 0.0) {
            m.nontrivial();
        }
        // rounding of the value a callback sees comes back through the step,
        // amplified by rate * |features|^2; the banks are synchronised after
        // every step so that it never accumulates
        let big = big.max(vec.weights.iter().fold(0.0f64, |a, x| a.max(x.abs())));
        if !(big < 1e12) {
            m.skip();
            return Ok(());
        }
        let mag: f64 = raw(&f).iter().map(|x| x.abs()).sum();
        let top = raw(&f).iter().fold(0.0f64, |a, x| a.max(x.abs()));
        let rate = match os {
            OptSpec::Sgd(a) | OptSpec::Isgd(a) => a,
            _ => 1.0,
        };
        let tol = 1e-12 * (1.0 + big) * (1.0 + rate * mag * top);
        for j in 0..k {
            for i in 0..n {
                let (g, w) = (vec.weights[(i, j)], sca[j].weights[i]);
                m.close(g, w, tol, "C17/bank", || format!("weight ({i},{j}), {os:?} over {sp:?} at {x:?}"))?;
            }
            sca[j].weights.assign(&vec.weights.column(j));
            let (g, w) = (vec.evaluate_index(&x[..], j).unwrap(), sca[j].evaluate(&x[..]).unwrap());
            m.close(g, w, 1e-12 * (1.0 + big) * (1.0 + mag), "C17/bank", || format!("output {j}, {os:?} over {sp:?} at {x:?}"))?;
        }
    }
    Ok(())
}

/// A user optimiser sees exactly one step per given error, on that output's
/// column, with the projection; its failure is returned.
fn recorder(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let depth = m.rng.below(3);
    let fallible = m.rng.chance(0.3);
    let sp = spec(&mut m.rng, d, &Opt::new().fallible(fallible).depth(depth).max_dim(if m.small { 5 } else { 30 }));
    let n = sp.dim();
    let b = sp.build();
    let k = *m.rng.pick(&[1, 2, 3, 5, 8]);
    let code = m.rng.below(1000);
    let rec = Recorder::new(0.25, code);
    let (log, refuse) = (rec.log.clone(), rec.refuse.clone());
    let w0: Vec<f64> = vals_of(&mut m.rng, n * k, Cls::Uniform);
    let mut lfa = LFA::new(b.clone(), layout2(&mut m.rng, n, k, |i, j| w0[i * k + j]), rec);
    m.fp(format!("{sp:?} {k}"));
    m.fpf(&w0);
    m.nontrivial();
    m.sample(|| format!("recording optimiser, {k} outputs, over {sp:?}"));
    for _ in 0..m.rng.range(2, 10) {
        let x = an_input(m, d, fallible);
        let p = b.project(&x[..]);
        if let Ok(f) = &p {
            if !raw(f).iter().all(|x| x.is_finite()) {
                m.skip();
                continue;
            }
        }
        let before = lfa.weights.clone();
        log.borrow_mut().clear();
        // distinct errors name their outputs
        let base = m.rng.uniform(-4.0, 4.0);
        let mag = if m.rng.chance(0.2) { *m.rng.pick(&[1e6, 1e12, 1e100, 1e300, 1e-9, 1e-100]) } else { 1.0 };
        let es: Vec<f64> = (0..k).map(|j| (base + (j * j + j) as f64 * 0.37) * mag).collect();
        let op = m.rng.below(4);
        if m.rng.chance(0.1) && p.is_ok() {
            m.ev("panicking callback");
            let r = m.caught(|| lfa.update_with(&x[..], |_, _| -> Array1<f64> { panic!("callback") }));
            m.ok(r.is_err(), "C17/panic-lost", || format!("{r:?}: {sp:?}"))?;
            m.ok(lfa.weights == before, "C17/unchanged", || format!("after a panicking callback at {x:?}: {sp:?}"))?;
            m.ok(log.borrow().is_empty(), "C17/step-count", || format!("a step after a panicking callback: {sp:?}"))?;
        }
        let used = if op < 2 && m.rng.chance(0.3) { m.rng.below(k + 1) } else { k };
        let one = m.rng.below(k);
        let bad = if m.rng.chance(0.3) { Some(if op == 2 { one } else { m.rng.below(k) }) } else { None };
        *refuse.borrow_mut() = bad.map(|j| es[j]);
        let given: Vec<usize> = match op {
            _ if p.is_err() => vec![],
            0 | 1 => (0..used).collect(),
            2 => vec![one],
            _ => vec![],
        };
        let asked = std::cell::Cell::new(0);
        let r = match op {
            0 => lfa.update(&x[..], es[..used].to_vec()),
            1 => {
                let e = errors_of(m, &es[..used]);
                lfa.update_with(&x[..], |_, _| {
                    asked.set(asked.get() + 1);
                    e.clone()
                })
            }
            2 => lfa.update_index(&x[..], one, es[one]),
            _ => lfa.evaluate(&x[..]).map(|_| ()),
        };
        let ctx = || format!("operation {op}, errors {es:?}, {used} used, output {one}, refusing {bad:?}, at {x:?}: {sp:?}");
        let due = (op == 1 && p.is_ok()) as usize;
        m.ok(asked.get() == due, "C17/callback-count", || format!("{} calls instead of {due}: {}", asked.get(), ctx()))?;
        let seen = log.borrow();
        let refused = bad.map_or(false, |j| given.contains(&j));
        if refused {
            m.ev("refused step");
            m.ok(r == Err(foreign(code)), "C17/refused", || format!("the optimiser failed, the result is {r:?}: {}", ctx()))?;
        } else {
            m.ok(r.is_ok() == p.is_ok(), "C17/result", || format!("{r:?}: {}", ctx()))?;
        }
        let mut calls = vec![0; k];
        for (kind, w, f, e) in seen.iter() {
            m.ok(kind != "reset", "C17/step-count", || format!("the optimiser was reset: {}", ctx()))?;
            let j = es.iter().position(|x| x == e);
            let j = match j {
                Some(j) if given.contains(&j) => j,
                _ => return m.fail("C17/step-error", format!("a step with error {e}: {}", ctx())),
            };
            calls[j] += 1;
            m.ok(*w == before.column(j).to_vec(), "C17/step-weights", || format!("the step of output {j} saw weights {}: {}", show(w), ctx()))?;
            m.ok(same_features(f, p.as_ref().unwrap()), "C17/step-features", || format!("output {j} saw {}: {}", repr(f), ctx()))?;
        }
        for j in 0..k {
            let want = given.contains(&j) as usize;
            // what happens to the other outputs when one fails is left open
            m.ok(calls[j] == want || (refused && Some(j) != bad && calls[j] <= 1), "C17/step-count", || {
                format!("output {j} stepped {} times instead of {want}: {}", calls[j], ctx())
            })?;
            if calls[j] == 0 || Some(j) == bad {
                m.ok(lfa.weights.column(j) == before.column(j), "C17/unchanged", || format!("output {j}: {}", ctx()))?;
            }
        }
        if !given.is_empty() && !refused {
            m.ev("recorded steps");
        }
    }
    Ok(())
}
