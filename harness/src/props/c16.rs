//! C16: a scalar approximator evaluates and learns through its parts.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use crate::opts::*;
use lfa::basis::*;
use lfa::optim::*;
use lfa::{Error, Features, ScalarLFA, LFA};
use ndarray::ArrayViewMut1;
use std::cell::RefCell;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C16",
        rule: "a case is a basis composition, optimiser, initial weights and a history of evaluations, updates, callback updates, \
               failing inputs and direct edits, the whole model compared with a shadow after each operation; non-trivial when \
               a non-zero update happened, distinct by configuration and history",
        required: &[
            "evaluate", "update", "update_with", "failing evaluate", "failing update", "failing update_with", "user weights",
            "edit weights", "reset through field", "zero initial", "recorded step", "refused step", "extraordinary error", "panicking callback", "SGD", "ISGD", "SGDMomentum", "NAG", "Adagrad",
            "Adam", "AdaMax", "sparse projection", "dense projection", "typed", "long history", "many features", "over 10000 features",
            "infinite or undefined value",
        ],
        scenarios: vec![
            scn!("history", 12_000, 250_000, 8, history),
            scn!("long", 150, 2500, 0, long),
            scn!("wide", 150, 2500, 0, wide),
            scn!("recorder", 8000, 120_000, 8, recorder),
            scn!("nonfinite", 2000, 30_000, 3, nonfinite),
            scn!("typed", 3000, 50_000, 4, typed),
        ],
    }
}

pub type A = ScalarLFA<DynB, AnyOpt>;

/// Projections agree up to rounding.
pub fn same_features(a: &Features, b: &Features) -> bool {
    let (x, y) = (raw(a), raw(b));
    a.is_dense() == b.is_dense()
        && x.len() == y.len()
        && active(a) == active(b)
        && x.iter().zip(&y).all(|(x, y)| x == y || (x - y).abs() <= 1e-11 * (x.abs() + y.abs()) + 1e-290)
}

/// Inputs for one model: good ones, and (for fallible bases) failing ones.
pub fn an_input(m: &mut M, d: usize, fallible: bool) -> Vec<f64> {
    if fallible && m.rng.chance(0.2) {
        failing_input(&mut m.rng, d)
    } else {
        input(&mut m.rng, d)
    }
}

fn history(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let fallible = m.rng.chance(0.5);
    let depth = m.rng.below(3);
    let sp = spec(&mut m.rng, d, &Opt::new().fallible(fallible).depth(depth).max_dim(if m.small { 6 } else { 60 }));
    let steps = if m.small { 4 } else { m.rng.range(3, 25) };
    run(m, d, sp, fallible, steps)
}

/// Hundreds of operations on one model, over a handful of inputs seen again and again.
fn long(m: &mut M) -> R {
    m.ev("long history");
    let d = m.rng.range(1, 2);
    let fallible = m.rng.chance(0.3);
    let sp = spec(&mut m.rng, d, &Opt::new().fallible(fallible).depth(1).max_dim(8));
    let steps = m.rng.range(100, 900);
    run(m, d, sp, fallible, steps)
}

/// Models with thousands of features.
pub fn wide_spec(m: &mut M, d: usize) -> Spec {
    m.ev("many features");
    let big = |m: &mut M| match m.rng.below(6) {
        5 => {
            // past round numbers somebody may have thought of
            m.ev("over 10000 features");
            let n = *m.rng.pick(&[10_001usize, 16_385, 20_000, 32_769, 50_001, 65_537, 100_001, 131_073]);
            let k = m.rng.range(1, 6);
            match m.rng.below(3) {
                0 => Spec::FixedSparse(n, (0..k).map(|_| m.rng.below(n)).collect()),
                1 => Spec::Tile { tilings: k, mem: n, salt: m.rng.u64() },
                _ => Spec::Closure(CSpec { n, sparse: m.rng.chance(0.5), salt: m.rng.u64(), fallible: false }),
            }
        }
        0 => Spec::Tile { tilings: m.rng.range(1, 40), mem: m.rng.range(1000, 20_000), salt: m.rng.u64() },
        1 => {
            let k = if d == 1 { 5000 } else { (4000f64.powf(1.0 / d as f64)) as usize };
            Spec::Grid(limits(&mut m.rng, d).into_iter().map(|l| (l.0, l.1, m.rng.range(k / 2 + 1, k))).collect())
        }
        2 => {
            let o = if d == 1 { 255 } else { (2000f64.powf(1.0 / d as f64)) as usize - 1 };
            Spec::Fourier { order: o as u8, limits: limits(&mut m.rng, d), from_space: false }
        }
        3 => Spec::Closure(CSpec { n: m.rng.range(500, 6000), sparse: m.rng.chance(0.5), salt: m.rng.u64(), fallible: false }),
        _ => {
            let n = m.rng.range(300, 3000);
            Spec::FixedDense(vals_of(&mut m.rng, n, Cls::Uniform))
        }
    };
    let a = big(m);
    if m.rng.chance(0.3) {
        let b = big(m);
        Spec::Stack(Box::new(a), Box::new(b), m.rng.below(2) as u8)
    } else if m.rng.chance(0.2) {
        Spec::Norm(*m.rng.pick(&[1, 2, 9]), Box::new(a), 1)
    } else {
        a
    }
}

fn wide(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let sp = wide_spec(m, d);
    let steps = m.rng.range(3, 8);
    run(m, d, sp, false, steps)
}

fn run(m: &mut M, d: usize, sp: Spec, fallible: bool, steps: usize) -> R {
    let n = sp.dim();
    let b = sp.build();
    let os = OptSpec::gen(&mut m.rng);
    m.ev(os.name());
    // long histories return to the same few inputs
    let pool: Vec<Vec<f64>> = if steps > 50 { (0..6).map(|_| an_input(m, d, fallible)).collect() } else { vec![] };
    let mut lfa: A = if m.rng.chance(0.4) {
        m.ev("zero initial");
        let l = LFA::scalar(b.clone(), os.build(n));
        let k = l.weights.iter().position(|w| w.to_bits() != 0);
        m.ok(k.is_none(), "C16/zero-weights", || format!("initial weight {k:?} of {n} is not zero: {sp:?}"))?;
        l
    } else {
        m.ev("user weights");
        let w = vals_of(&mut m.rng, n, Cls::Uniform);
        LFA::new(b.clone(), layout1(&mut m.rng, &w), os.build(n))
    };
    m.fp(format!("{sp:?} {os:?}"));
    m.sample(|| format!("{os:?} over {sp:?}"));
    m.ok(lfa.weights.len() == n, "C16/weights", || format!("{} weights for {n} features: {sp:?}", lfa.weights.len()))?;
    let mut sw = SW::new(&lfa.weights.to_vec());
    let mut sh = os.shadow(n);
    let mut log: Vec<String> = vec![];
    let mut again: Option<Vec<f64>> = None;
    for _ in 0..steps {
        let x = if again.is_some() && m.rng.chance(0.7) {
            // the same input as before an edit
            again.take().unwrap()
        } else if !pool.is_empty() && m.rng.chance(0.8) { m.rng.pick(&pool).clone() } else { an_input(m, d, fallible) };
        m.fpf(&x);
        let p = b.project(&x[..]);
        let want = sp.want(&x);
        let before = lfa.weights.to_vec();
        let obefore = lfa.optimiser.clone();
        let (f, v) = match &p {
            Ok(f) => (Some(f.clone()), raw(f)),
            Err(_) => (None, vec![]),
        };
        if f.is_some() && !(v.len() == n && v.iter().all(|x| x.is_finite() && x.abs() < 1e30)) {
            // a normaliser over a zero vector
            m.skip();
            continue;
        }
        let act = f.as_ref().map(active).unwrap_or_default();
        if let Some(f) = &f {
            m.ev(if f.is_dense() { "dense projection" } else { "sparse projection" });
        }
        let value = dot(&v, &before);
        let vtol = gamma(n, dot_mag(&v, &before)) + 1e-11 * dot_mag(&v, &before);
        let op = m.rng.below(8);
        let ctx = |log: &Vec<String>| format!("{os:?} over {sp:?}; {}", log.join("; "));
        if log.len() < 14 {
            log.push(format!("{} at {x:?}", ["evaluate", "evaluate", "update", "update", "update_with", "update_with", "edit", "reset"][op]));
        }
        // Some(e): one step with error e must have happened
        let mut stepped: Option<f64> = None;
        match op {
            0 | 1 => {
                m.ev("evaluate");
                let r = lfa.evaluate(&x[..]);
                match (&f, r) {
                    (Some(_), Ok(got)) => {
                        m.close(got, value, vtol, "C16/value", || ctx(&log))?;
                    }
                    (None, Err(e)) => {
                        m.ev("failing evaluate");
                        failure(m, &want, &e, || ctx(&log))?;
                    }
                    (_, r) => return m.fail("C16/evaluate", format!("returned {r:?}: {}", ctx(&log))),
                }
            }
            2 | 3 => {
                let e = error(&mut m.rng);
                m.fpf(&[e]);
                let r = lfa.update(&x[..], e);
                match (&f, r) {
                    (Some(_), Ok(())) => {
                        m.ev("update");
                        stepped = Some(e);
                    }
                    (None, Err(e)) => {
                        m.ev("failing update");
                        failure(m, &want, &e, || ctx(&log))?;
                    }
                    (_, r) => return m.fail("C16/update", format!("returned {r:?}: {}", ctx(&log))),
                }
            }
            4 | 5 => {
                let target = m.rng.uniform(-3.0, 3.0);
                let fixed = m.rng.chance(0.3);
                m.fpf(&[target]);
                let calls: RefCell<Vec<(Features, f64, f64)>> = RefCell::new(vec![]);
                let r = lfa.update_with(&x[..], |phi, y| {
                    let e = if fixed { target } else { target - y };
                    calls.borrow_mut().push((phi.clone(), y, e));
                    e
                });
                let calls = calls.into_inner();
                match (&f, r) {
                    (Some(f), Ok(())) => {
                        m.ev("update_with");
                        m.ok(calls.len() == 1, "C16/callback-count", || format!("callback ran {} times: {}", calls.len(), ctx(&log)))?;
                        let (phi, y, e) = &calls[0];
                        m.ok(same_features(phi, f), "C16/callback-features", || {
                            format!("callback saw {} instead of {}: {}", repr(phi), repr(f), ctx(&log))
                        })?;
                        m.close(*y, value, vtol, "C16/callback-value", || ctx(&log))?;
                        stepped = Some(*e);
                    }
                    (None, Err(e)) => {
                        m.ev("failing update_with");
                        m.ok(calls.is_empty(), "C16/callback-count", || format!("callback ran although the basis failed: {}", ctx(&log)))?;
                        failure(m, &want, &e, || ctx(&log))?;
                    }
                    (_, r) => return m.fail("C16/update_with", format!("returned {r:?}: {}", ctx(&log))),
                }
            }
            6 => {
                m.ev("edit weights");
                if n > 0 {
                    edit(m, &mut lfa.weights);
                }
                sw.resync(&lfa.weights.to_vec());
                again = Some(x);
                continue;
            }
            _ => {
                m.ev("reset through field");
                Optimiser::<Features>::reset(&mut lfa.optimiser);
                sh.reset();
                let now = lfa.weights.to_vec();
                m.ok(now == before, "C16/reset", || ctx(&log))?;
                continue;
            }
        }
        m.ok(lfa.weights.len() == n, "C16/weights", || ctx(&log))?;
        let got = lfa.weights.to_vec();
        match stepped {
            None => {
                m.ok(got.iter().zip(&before).all(|(a, b)| a.to_bits() == b.to_bits()), "C16/unchanged", || {
                    format!("weights moved without an update: {}", ctx(&log))
                })?;
                m.ok(lfa.optimiser == obefore, "C16/optimiser-unchanged", || {
                    format!("optimiser went from {obefore:?} to {:?}: {}", lfa.optimiser, ctx(&log))
                })?;
            }
            Some(e) => {
                sh.step(&mut sw, &v, &act, e);
                if !sw.sane() {
                    m.skip();
                    return Ok(());
                }
                if e != 0.0 && v.iter().any(|x| *x != 0.0) {
                    m.nontrivial();
                }
                for i in 0..n {
                    m.close(got[i], sw.w[i], sw.e[i], "C16/step", || {
                        format!("weight {i} (was {}), error {e}, features {:?}: {}", before[i], f.as_ref().map(repr), ctx(&log))
                    })?;
                }
                sw.resync(&got);
            }
        }
    }
    Ok(())
}

/// Weights changed in place by their owner: one of them, or all, or so that
/// their sum or their magnitudes stay what they were.
pub fn edit(m: &mut M, w: &mut ndarray::Array1<f64>) {
    let n = w.len();
    let (i, j) = (m.rng.below(n), m.rng.below(n));
    match m.rng.below(6) {
        0 => w.swap(i, j),
        1 => w.mapv_inplace(|x| -x),
        2 => {
            let mut v = w.to_vec();
            m.rng.shuffle(&mut v);
            w.assign(&ndarray::Array1::from(v));
        }
        3 if i != j => {
            let t = *m.rng.pick(&[0.5, 1.0, -0.25]);
            w[i] += t;
            w[j] -= t;
        }
        _ => w[i] = m.rng.uniform(-1.0, 1.0),
    }
}

/// Values overflow and lose their meaning the way a sum of products does.
fn nonfinite(m: &mut M) -> R {
    let n = m.rng.range(1, 8);
    let v: Vec<f64> = (0..n).map(|_| m.rng.uniform(0.5, 2.0) * sign(&mut m.rng)).collect();
    let mut w: Vec<f64> = (0..n).map(|_| m.rng.uniform(-2.0, 2.0)).collect();
    for _ in 0..m.rng.range(1, 2) {
        let i = m.rng.below(n);
        w[i] = *m.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, -1e200]);
    }
    m.fpf(&v);
    m.fpf(&w);
    m.nontrivial();
    m.ev("infinite or undefined value");
    let terms: Vec<f64> = v.iter().zip(&w).map(|(a, b)| a * b).collect();
    // two huge terms may or may not overflow on their way
    if terms.iter().filter(|t| t.is_finite() && t.abs() > 1e300).count() > 1 {
        m.skip();
        return Ok(());
    }
    let s: f64 = terms.iter().sum();
    let ctx = || format!("features {v:?}, weights {w:?}: {terms:?}");
    m.sample(ctx);
    let good = |y: f64| {
        if s.is_nan() {
            y.is_nan()
        } else if s.is_infinite() {
            y == s
        } else {
            (y - s).abs() <= 1e-9 * (1.0 + s.abs())
        }
    };
    let sparse = m.rng.chance(0.5);
    let f = if sparse { sparse_of(&mut m.rng, &v, false) } else { dense_of(&mut m.rng, &v) };
    let basis = Closure::new(n, move |_: f64| Ok(f.clone()));
    let a = LFA::new(basis, layout1(&mut m.rng, &w), SGD(0.5));
    let y = a.evaluate(0.5).unwrap();
    m.ok(good(y), "C16/value", || format!("{y:e} instead of {s:e}: {}", ctx()))?;
    // what the callback is told, and what a step of no error leaves
    let mut a = a;
    let told = std::cell::Cell::new(0.0);
    a.update_with(0.5, |_, y| {
        told.set(y);
        0.0
    })
    .unwrap();
    m.ok(good(told.get()), "C16/callback-value", || format!("{:e} instead of {s:e}: {}", told.get(), ctx()))?;
    let same = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
    m.ok(a.weights.iter().zip(&w).all(|(x, y)| same(*x, *y)), "C16/unchanged", || format!("{:?}: {}", a.weights, ctx()))
}

/// The error must be one the basis raises.
pub fn failure(m: &mut M, want: &Want, e: &Error, ctx: impl FnOnce() -> String) -> R {
    match want {
        Want::Err(es) => m.ok(es.contains(e), "failure", || format!("{e:?} is not one of {es:?}: {}", ctx())),
        Want::Skip => Ok(()),
        Want::Vals { .. } => m.fail("failure", format!("failed with {e:?} on an input the basis accepts: {}", ctx())),
    }
}

/// A user optimiser that records what it is asked to do.
#[derive(Clone)]
pub struct Recorder {
    pub log: Rc<RefCell<Vec<(String, Vec<f64>, Features, f64)>>>,
    pub rate: f64,
    pub code: usize,
    /// refuse (without touching the weights) steps with this error
    pub refuse: Rc<RefCell<Option<f64>>>,
}
impl Recorder {
    pub fn new(rate: f64, code: usize) -> Recorder {
        Recorder { log: Default::default(), rate, code, refuse: Default::default() }
    }
    fn refuses(&self, e: f64) -> lfa::Result<()> {
        if *self.refuse.borrow() == Some(e) {
            Err(foreign(self.code))
        } else {
            Ok(())
        }
    }
}
impl Optimiser<Features> for Recorder {
    fn step(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features) -> lfa::Result<()> {
        self.log.borrow_mut().push(("step".into(), w.to_vec(), f.clone(), 1.0));
        self.refuses(1.0)?;
        f.scaled_addto(self.rate, w);
        Ok(())
    }
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, e: f64) -> lfa::Result<()> {
        self.log.borrow_mut().push(("step_scaled".into(), w.to_vec(), f.clone(), e));
        self.refuses(e)?;
        // extraordinary errors are only recorded
        if e.abs() < 1e6 {
            f.scaled_addto(self.rate * e, w);
        }
        Ok(())
    }
    fn reset(&mut self) {
        self.log.borrow_mut().push(("reset".into(), vec![], Features::dense(vec![]), 0.0));
    }
}

/// Errors of every magnitude, and those a diverging user computes.
pub fn any_error(m: &mut M) -> f64 {
    if m.rng.chance(0.85) {
        return error(&mut m.rng);
    }
    m.ev("extraordinary error");
    *m.rng.pick(&[
        1e7, -1e9, 1e15, -1e100, f64::MAX, f64::MIN, 1e-20, -1e-200, f64::MIN_POSITIVE, 5e-324, -0.0,
        f64::INFINITY, f64::NEG_INFINITY, f64::NAN,
    ])
}

fn recorder(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let depth = m.rng.below(3);
    let fallible = m.rng.chance(0.4);
    let sp = spec(&mut m.rng, d, &Opt::new().fallible(fallible).depth(depth).max_dim(if m.small { 6 } else { 50 }));
    let n = sp.dim();
    let b = sp.build();
    let code = m.rng.below(1000);
    let rec = Recorder::new(0.25, code);
    let (log, refuse) = (rec.log.clone(), rec.refuse.clone());
    let w0 = vals_of(&mut m.rng, n, Cls::Uniform);
    let mut lfa = LFA::new(b.clone(), layout1(&mut m.rng, &w0), rec);
    m.fp(format!("{sp:?}"));
    m.fpf(&w0);
    m.nontrivial();
    m.sample(|| format!("recording optimiser over {sp:?}"));
    for _ in 0..m.rng.range(2, 12) {
        let x = an_input(m, d, fallible);
        let p = b.project(&x[..]);
        if let Ok(f) = &p {
            if !raw(f).iter().all(|x| x.is_finite()) {
                m.skip();
                continue;
            }
        }
        let before = lfa.weights.to_vec();
        log.borrow_mut().clear();
        let e = any_error(m);
        let op = m.rng.below(3);
        let refused = m.rng.chance(0.25) && !e.is_nan();
        if m.rng.chance(0.1) && p.is_ok() {
            // the callback gives up: nothing is learnt, and nothing is lost
            m.ev("panicking callback");
            let r = m.caught(|| lfa.update_with(&x[..], |_, _| -> f64 { panic!("callback") }));
            m.ok(r.is_err(), "C16/panic-lost", || format!("{r:?}: {sp:?}"))?;
            m.ok(lfa.weights.to_vec() == before, "C16/unchanged", || format!("after a panicking callback at {x:?}: {sp:?}"))?;
            m.ok(log.borrow().is_empty(), "C16/step-count", || format!("a step after a panicking callback: {sp:?}"))?;
        }
        *refuse.borrow_mut() = if refused { Some(e) } else { None };
        let asked = std::cell::Cell::new(0);
        let r = match op {
            0 => lfa.evaluate(&x[..]).map(|_| ()),
            1 => lfa.update(&x[..], e),
            _ => lfa.update_with(&x[..], |_, _| {
                asked.set(asked.get() + 1);
                e
            }),
        };
        let ctx = || format!("operation {op}, error {e}, at {x:?}: {sp:?}");
        let due = (op == 2 && p.is_ok()) as usize;
        m.ok(asked.get() == due, "C16/callback-count", || format!("{} calls instead of {due}: {}", asked.get(), ctx()))?;
        if op > 0 && p.is_ok() && refused {
            m.ev("refused step");
            m.ok(r == Err(foreign(code)), "C16/refused", || format!("the optimiser failed, the result is {r:?}: {}", ctx()))?;
            m.ok(lfa.weights.to_vec() == before, "C16/unchanged", ctx)?;
        } else {
            m.ok(r.is_ok() == p.is_ok(), "C16/result", || format!("{r:?}: {}", ctx()))?;
        }
        let seen = log.borrow();
        let expected = (op > 0 && p.is_ok()) as usize;
        m.ok(seen.len() == expected, "C16/step-count", || {
            format!("{} optimiser calls ({:?}) instead of {expected}: {}", seen.len(), seen.iter().map(|s| &s.0).collect::<Vec<_>>(), ctx())
        })?;
        if expected == 1 {
            m.ev("recorded step");
            let (kind, w, f, got) = &seen[0];
            let good = (kind == "step_scaled" && (*got == e || (got.is_nan() && e.is_nan()))) || (kind == "step" && e == 1.0);
            m.ok(good, "C16/step-error", || format!("{kind} with error {got}: {}", ctx()))?;
            m.ok(*w == before, "C16/step-weights", || format!("step saw weights {}: {}", show(w), ctx()))?;
            m.ok(same_features(f, p.as_ref().unwrap()), "C16/step-features", || format!("step saw {}: {}", repr(f), ctx()))?;
        } else {
            m.ok(lfa.weights.to_vec() == before, "C16/unchanged", ctx)?;
        }
    }
    Ok(())
}

/// Statically typed bases and inputs.
fn typed(m: &mut M) -> R {
    m.ev("typed");
    m.nontrivial();
    let l = limits(&mut m.rng, 2);
    let order = m.rng.range(1, 3) as u8;
    let x = input(&mut m.rng, 2);
    let e = error(&mut m.rng);
    let a = m.rng.uniform(0.01, 0.5);
    m.fpf(&x);
    m.fpf(&[e, a]);
    m.sample(|| format!("order {order} limits {l:?} at {x:?} error {e}"));
    macro_rules! go {
        ($basis:expr, $input:expr, $want:expr) => {{
            let want: (Vec<f64>, Vec<f64>) = $want;
            let n = want.0.len();
            let mut fa = LFA::scalar($basis, SGD(a));
            m.ok(fa.weights.len() == n && fa.weights.iter().all(|w| *w == 0.0), "C16/zero-weights", || {
                format!("{} initial weights for {n} features", fa.weights.len())
            })?;
            let v0 = fa.evaluate($input).unwrap();
            m.ok(v0 == 0.0, "C16/value", || format!("untrained value {v0}"))?;
            fa.update($input, e).unwrap();
            for i in 0..n {
                m.close(fa.weights[i], a * e * want.0[i], (a * e).abs() * (want.1[i] + 8.0 * EPS * want.0[i].abs()), "C16/step", || {
                    format!("weight {i} of {} at {x:?}", stringify!($basis))
                })?;
            }
            let q = dot(&want.0, fa.weights.as_slice().unwrap());
            let mag: f64 = want.0.iter().map(|x| x.abs()).sum::<f64>() * want.1.iter().fold(0.0f64, |m, x| m.max(*x));
            let tol = gamma(n, dot_mag(&want.0, fa.weights.as_slice().unwrap())) + 4.0 * (a * e).abs() * mag + 1e-12 * q.abs();
            let v1 = fa.evaluate($input).unwrap();
            m.close(v1, q, tol, "C16/value", || format!("{} at {x:?}", stringify!($basis)))?;
        }};
    }
    let o = order as usize;
    go!(Fourier::new(order, l.clone()), &x, fourier_want(o, &l, &x));
    go!(Polynomial::new(2, order), &x, poly_want(2, o, false, &x));
    go!(Polynomial::new(2, order).with_zeroth(), [x[0], x[1]].as_ref(), poly_want(2, o, true, &x));
    go!(Chebyshev::new(order, l.clone()), x.clone(), cheby_want(o, &l, false, &x));
    let t = x[0];
    go!(Closure::new(2, move |s: f64| Ok(Features::from(vec![s, 2.0]))), t, (vec![t, 2.0], vec![0.0, 0.0]));
    Ok(())
}
