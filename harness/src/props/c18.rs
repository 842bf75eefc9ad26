//! C18: serialised and cloned models continue identically.
use super::c19::tweak;
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use crate::opts::*;
use lfa::basis::*;
use lfa::optim::*;
use lfa::{Error, Features, Result, SparseActivations, LFA};
use ndarray::{Array1, Array2};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use spaces::{Card, Dim, Equipartition, ProductSpace, Space};
use std::collections::HashSet;

pub fn property() -> Property {
    Property {
        id: "C18",
        rule: "a case is an object (feature vector, kernel, basis composition, optimiser, approximator), a history, a snapshot \
               point and a format; original and restored or cloned copy are then driven in lock-step; non-trivial when the \
               object has at least one feature or weight, distinct by object, history and snapshot point",
        required: &[
            "json text", "json value", "json reader", "bincode", "features dense", "features sparse", "kernel", "error", "basis",
            "optimiser", "scalar approximator", "vector approximator", "clone", "bias", "fixed-dense", "fixed-sparse", "fourier",
            "polynomial", "chebyshev", "kernel-basis", "kernel-basis-mixed", "uniform-grid", "tile-coding", "stack", "norm-l0",
            "norm-l1", "norm-l2", "norm-linf", "chebyshev zeroth", "SGD", "ISGD", "SGDMomentum", "NAG", "Adagrad", "Adam", "AdaMax",
            "snapshot mid-history", "long history", "second generation", "clone_from", "extreme parameters", "edited terms",
        ],
        scenarios: vec![
            scn!("features", 6000, 100_000, 6, features),
            scn!("bases", 8000, 150_000, 6, bases),
            scn!("optimisers", 8000, 150_000, 6, optimisers),
            scn!("scalar", 6000, 100_000, 4, scalar),
            scn!("vector", 4000, 60_000, 4, vector),
            scn!("clones", 5000, 80_000, 4, clones),
            scn!("clone_from", 4000, 60_000, 3, clone_from),
            scn!("extremes", 5000, 80_000, 4, extremes),
            scn!("terms", 3000, 50_000, 3, terms),
            scn!("aliasing", 4000, 60_000, 4, aliasing),
        ],
    }
}

/// Round trip through one of four formats.
fn trip<T: Serialize + DeserializeOwned>(m: &mut M, x: &T) -> R<T> {
    let k = m.rng.below(4);
    let (name, r): (&str, std::result::Result<T, String>) = match k {
        0 => ("json text", serde_json::to_string(x).and_then(|s| serde_json::from_str(&s)).map_err(|e| e.to_string())),
        1 => ("json value", serde_json::to_value(x).and_then(serde_json::from_value).map_err(|e| e.to_string())),
        2 => ("json reader", serde_json::to_vec_pretty(x).and_then(|s| serde_json::from_reader(&s[..])).map_err(|e| e.to_string())),
        _ => ("bincode", bincode::serialize(x).and_then(|s| bincode::deserialize(&s)).map_err(|e| e.to_string())),
    };
    m.ev(name);
    match r {
        Ok(y) => Ok(y),
        Err(e) => {
            let text = serde_json::to_string(x).unwrap_or_default();
            m.fail("C18/refused", format!("{name}: {e}: {}", &text[..text.len().min(400)]))
        }
    }
}

/// Every serialisable basis behind one serialisable type.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SerB {
    Bias(Bias),
    FixedDense(Fixed<Vec<f64>>),
    FixedSparse(Fixed<(usize, HashSet<usize>)>),
    Fourier(Fourier),
    Poly(Polynomial),
    Cheby(Chebyshev),
    Kernel(KernelBasis<Vec<f64>, AnyK>),
    Grid(UniformGrid),
    Tile(TileCoding<Fold>),
    Stack(Box<Stack<SerB, SerB>>),
    L0(Box<L0Normaliser<SerB>>),
    L1(Box<L1Normaliser<SerB>>),
    L2(Box<L2Normaliser<SerB>>),
    Linf(Box<LinfNormaliser<SerB>>),
}

macro_rules! each {
    ($s:expr, $b:ident => $e:expr) => {
        match $s {
            SerB::Bias($b) => $e,
            SerB::FixedDense($b) => $e,
            SerB::FixedSparse($b) => $e,
            SerB::Fourier($b) => $e,
            SerB::Poly($b) => $e,
            SerB::Cheby($b) => $e,
            SerB::Kernel($b) => $e,
            SerB::Grid($b) => $e,
            SerB::Tile($b) => $e,
            SerB::Stack($b) => {
                let $b = &**$b;
                $e
            }
            SerB::L0($b) => {
                let $b = &**$b;
                $e
            }
            SerB::L1($b) => {
                let $b = &**$b;
                $e
            }
            SerB::L2($b) => {
                let $b = &**$b;
                $e
            }
            SerB::Linf($b) => {
                let $b = &**$b;
                $e
            }
        }
    };
}

impl Space for SerB {
    type Value = Features;
    fn dim(&self) -> Dim {
        each!(self, b => Space::dim(b))
    }
    fn card(&self) -> Card {
        Card::Infinite
    }
}
impl<'a> Basis<&'a [f64]> for SerB {
    fn project(&self, x: &'a [f64]) -> Result<Features> {
        each!(self, b => Basis::<&'a [f64]>::project(b, x))
    }
}
impl<'a> EnumerableBasis<&'a [f64]> for SerB {
    fn ith(&self, x: &'a [f64], i: usize) -> Result<f64> {
        each!(self, b => EnumerableBasis::<&'a [f64]>::ith(b, x, i))
    }
}
impl Combinators for SerB {}

pub fn ser(sp: &Spec) -> SerB {
    match sp {
        Spec::Bias(b) => SerB::Bias(Bias(*b)),
        Spec::FixedDense(v) => SerB::FixedDense(Fixed::dense(v.clone())),
        Spec::FixedSparse(n, ix) => SerB::FixedSparse(Fixed::sparse(*n, ix.clone())),
        Spec::Fourier { order, limits, .. } => SerB::Fourier(Fourier::new(*order, limits.clone())),
        Spec::Poly { dim, order, zeroth } => {
            let p = Polynomial::new(*dim, *order);
            SerB::Poly(if *zeroth { p.with_zeroth() } else { p })
        }
        Spec::Cheby { order, limits, zeroth, .. } => {
            let p = Chebyshev::new(*order, limits.clone());
            SerB::Cheby(if *zeroth { p.with_zeroth() } else { p })
        }
        Spec::Table { fourier: true, .. } => SerB::Fourier(sp.fourier_table().unwrap()),
        Spec::Table { .. } => SerB::Poly(sp.poly_table().unwrap()),
        Spec::Kernel { k, centroids } => SerB::Kernel(KernelBasis::homogeneous(centroids.clone(), k.build())),
        Spec::Kernels(ps) => SerB::Kernel(KernelBasis::new(
            ps.iter().map(|(k, c)| Prototype { centroid: c.clone(), kernel: k.build() }).collect(),
        )),
        Spec::Grid(parts) => SerB::Grid(UniformGrid::new(ProductSpace::new(
            parts.iter().map(|&(a, b, k)| Equipartition::new(a, b, k)).collect(),
        ))),
        Spec::Tile { tilings, mem, salt } => SerB::Tile(TileCoding::new(Fold { salt: *salt }, *tilings, *mem)),
        // a closure cannot be serialised; its values stand in for it
        Spec::Closure(c) => SerB::FixedDense(Fixed::dense(c.values(&[0.25]))),
        Spec::Stack(a, b, _) => SerB::Stack(Box::new(Stack::new(ser(a), ser(b)))),
        Spec::Norm(0, a, _) => SerB::L0(Box::new(L0Normaliser::new(ser(a)))),
        Spec::Norm(1, a, _) => SerB::L1(Box::new(L1Normaliser::new(ser(a)))),
        Spec::Norm(2, a, _) => SerB::L2(Box::new(L2Normaliser::new(ser(a)))),
        Spec::Norm(_, a, _) => SerB::Linf(Box::new(LinfNormaliser::new(ser(a)))),
    }
}

fn note(m: &mut M, sp: &Spec) {
    let mut ks = vec![];
    sp.kinds(&mut ks);
    for k in ks {
        m.ev(k);
    }
    fn zeroth(sp: &Spec) -> bool {
        match sp {
            Spec::Cheby { zeroth, .. } => *zeroth,
            Spec::Stack(a, b, _) => zeroth(a) || zeroth(b),
            Spec::Norm(_, a, _) => zeroth(a),
            _ => false,
        }
    }
    if zeroth(sp) {
        m.ev("chebyshev zeroth");
    }
}

fn near(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-11 * (a.abs() + b.abs()) + 1e-290
}

fn same_basis(m: &mut M, a: &SerB, b: &SerB, d: usize, sp: &Spec, sig: &str) -> R {
    let (da, db): (usize, usize) = (a.dim().into(), b.dim().into());
    m.ok(da == db, sig, || format!("{da} features became {db}: {sp:?}"))?;
    for _ in 0..3 {
        let x = input(&mut m.rng, d);
        let (f, g) = (a.project(&x[..]), b.project(&x[..]));
        let good = match (&f, &g) {
            (Ok(f), Ok(g)) => {
                let (r, s) = (raw(f), raw(g));
                f.is_dense() == g.is_dense() && r.len() == s.len() && r.iter().zip(&s).all(|(x, y)| near(*x, *y))
            }
            (Err(e), Err(h)) => e == h,
            _ => false,
        };
        m.ok(good, sig, || format!("{f:?} became {g:?} at {x:?}: {sp:?}"))?;
        if da > 0 && !matches!(sp, Spec::Closure(_)) {
            let i = m.rng.below(da);
            let (p, q) = (a.ith(&x[..], i), b.ith(&x[..], i));
            let good = match (&p, &q) {
                (Ok(p), Ok(q)) => near(*p, *q),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            m.ok(good, sig, || format!("ith({i}) {p:?} became {q:?} at {x:?}: {sp:?}"))?;
        }
    }
    Ok(())
}

fn features(m: &mut M) -> R {
    let n = len(&mut m.rng, m.small);
    let v = vals(&mut m.rng, n);
    let f = if m.rng.chance(0.5) {
        m.ev("features dense");
        dense_of(&mut m.rng, &v)
    } else {
        m.ev("features sparse");
        sparse_of(&mut m.rng, &v, true)
    };
    m.fp(f.is_dense());
    m.fpf(&v);
    if n > 0 {
        m.nontrivial();
    }
    m.sample(|| repr(&f));
    let g = trip(m, &f)?;
    m.ok(f.is_dense() == g.is_dense() && f.n_features() == g.n_features(), "C18/features", || {
        format!("{} became {}", repr(&f), repr(&g))
    })?;
    let (a, b) = (raw(&f), raw(&g));
    for i in 0..n {
        m.ok(a[i].to_bits() == b[i].to_bits() && f[i].to_bits() == g[i].to_bits(), "C18/features", || {
            format!("entry {i}: {} became {}", repr(&f), repr(&g))
        })?;
    }
    m.ok(f.n_active() == g.n_active() && active(&f) == active(&g), "C18/features", || format!("{} became {}", repr(&f), repr(&g)))?;
    if n > 0 {
        m.ok(f == g, "C18/features", || format!("{} became {}", repr(&f), repr(&g)))?;
    }
    if let Features::Sparse(s) = &f {
        let t: SparseActivations = trip(m, s)?;
        m.ok(t.dim == s.dim && t.activations == s.activations, "C18/features", || format!("{s:?} became {t:?}"))?;
    }
    // kernels
    let d = m.rng.range(1, 4);
    let ks = KSpec::gen(&mut m.rng, d);
    let k = ks.build();
    m.ev("kernel");
    let k2 = trip(m, &k)?;
    m.ok(k == k2, "C18/kernel", || format!("{k:?} became {k2:?}"))?;
    let (x, y) = (input(&mut m.rng, d), input(&mut m.rng, d));
    m.ok(k.vecs(&x, &y) == k2.vecs(&x, &y), "C18/kernel", || format!("{ks:?} at {x:?} {y:?}"))?;
    // errors
    let e = match m.rng.chance(0.5) {
        true => foreign(m.rng.below(100)),
        false => Error::index_error(m.rng.below(100), m.rng.below(100)),
    };
    m.ev("error");
    let e2 = trip(m, &e)?;
    m.ok(e == e2 && e.to_string() == e2.to_string(), "C18/error", || format!("{e:?} became {e2:?}"))
}

fn gen_spec(m: &mut M, d: usize) -> Spec {
    let depth = m.rng.below(3);
    spec(&mut m.rng, d, &Opt::new().depth(depth).max_dim(if m.small { 6 } else { 60 }))
}

fn bases(m: &mut M) -> R {
    m.ev("basis");
    let d = idim(&mut m.rng);
    let sp = gen_spec(m, d);
    note(m, &sp);
    m.fp(format!("{sp:?}"));
    if sp.dim() > 0 {
        m.nontrivial();
    }
    m.sample(|| format!("{sp:?}"));
    let a = ser(&sp);
    let b = trip(m, &a)?;
    same_basis(m, &a, &b, d, &sp, "C18/basis")?;
    if m.rng.chance(0.5) {
        m.ev("second generation");
        let c = trip(m, &b)?;
        same_basis(m, &a, &c, d, &sp, "C18/basis")?;
    }
    // combined after restoring
    let s = Stack::new(b.clone(), Bias::unit());
    let x = input(&mut m.rng, d);
    if let (Ok(f), Ok(g)) = (a.project(&x[..]), s.project(&x[..])) {
        let (r, s) = (raw(&f), raw(&g));
        m.ok(s.len() == r.len() + 1 && r.iter().zip(&s).all(|(x, y)| near(*x, *y)), "C18/basis", || format!("stacked: {sp:?}"))?;
    }
    Ok(())
}

fn one(m: &mut M, n: usize) -> (Features, f64) {
    let v = mild(&mut m.rng, n);
    let e = error(&mut m.rng);
    m.fpf(&v);
    m.fpf(&[e]);
    (feats(&mut m.rng, &v), e)
}

fn same_weights<'a>(m: &mut M, a: impl Iterator<Item = &'a f64>, b: impl Iterator<Item = &'a f64>, sig: &str, ctx: impl Fn() -> String) -> R<bool> {
    let (a, b): (Vec<f64>, Vec<f64>) = (a.copied().collect(), b.copied().collect());
    m.ok(a.len() == b.len(), sig, || format!("{} weights became {}: {}", a.len(), b.len(), ctx()))?;
    let big = a.iter().fold(0.0f64, |s, x| s.max(x.abs()));
    if !(big < 1e6) {
        return Ok(false);
    }
    for i in 0..a.len() {
        m.close(b[i], a[i], 1e-9 * (1.0 + big), sig, || format!("weight {i}: {}", ctx()))?;
    }
    Ok(true)
}

/// How much happens before a snapshot: usually little, sometimes a lot.
fn history_length(m: &mut M, short: usize) -> usize {
    if !m.small && m.rng.chance(0.02) {
        m.ev("long history");
        m.rng.range(100, 1500)
    } else {
        m.rng.below(short)
    }
}

fn optimisers(m: &mut M) -> R {
    m.ev("optimiser");
    let n = if m.small { m.rng.range(1, 4) } else { *m.rng.pick(&[1, 2, 3, 5, 9, 17]) };
    let os = OptSpec::gen(&mut m.rng);
    m.ev(os.name());
    let mut o = os.build(n);
    let mut w = Array1::from(vals_of(&mut m.rng, n, Cls::Uniform));
    m.fp(format!("{os:?}"));
    m.nontrivial();
    let before = history_length(m, 10);
    m.sample(|| format!("{os:?} on {n} weights after {before} steps"));
    if before > 0 {
        m.ev("snapshot mid-history");
    }
    for _ in 0..before {
        let (f, e) = one(m, n);
        o.step_scaled(&mut w.view_mut(), &f, e).unwrap();
    }
    if !w.iter().all(|x| x.abs() < 1e6) || format!("{o:?}").contains("NaN") || format!("{o:?}").contains("inf") {
        m.skip();
        return Ok(());
    }
    let mut o2 = trip(m, &o)?;
    m.ok(o == o2, "C18/optimiser", || format!("{o:?} became {o2:?}"))?;
    let mut w2: Array1<f64> = trip(m, &w)?;
    for t in 0..m.rng.range(1, 8) {
        let (f, e) = one(m, n);
        if m.rng.chance(0.1) {
            Optimiser::<Features>::reset(&mut o);
            Optimiser::<Features>::reset(&mut o2);
        }
        o.step_scaled(&mut w.view_mut(), &f, e).unwrap();
        o2.step_scaled(&mut w2.view_mut(), &f, e).unwrap();
        if !same_weights(m, w.iter(), w2.iter(), "C18/optimiser", || format!("{os:?}, step {} after a snapshot at {before}", t + 1))? {
            m.skip();
            return Ok(());
        }
    }
    Ok(())
}

type S1 = LFA<SerB, Array1<f64>, AnyOpt>;
type S2 = LFA<SerB, Array2<f64>, AnyOpt>;

fn finite(o: &AnyOpt) -> bool {
    let s = format!("{o:?}");
    !s.contains("NaN") && !s.contains("inf")
}

fn usable(b: &SerB, x: &[f64]) -> bool {
    match b.project(x) {
        Ok(f) => raw(&f).iter().all(|v| v.is_finite() && v.abs() < 1e12),
        Err(_) => true,
    }
}

fn drive1(m: &mut M, d: usize, models: &mut [&mut S1], steps: usize, sig: &str, ctx: &dyn Fn() -> String) -> R<bool> {
    for t in 0..steps {
        let x = input(&mut m.rng, d);
        if !usable(&models[0].basis, &x) {
            m.skip();
            continue;
        }
        m.fpf(&x);
        let e = error(&mut m.rng);
        let op = m.rng.below(3);
        let mut ys = vec![];
        for l in models.iter_mut() {
            let r = match op {
                0 => l.update(&x[..], e),
                1 => l.update_with(&x[..], |_, y| (e - y).max(-1e3).min(1e3)),
                _ => Ok(()),
            };
            ys.push((r, l.evaluate(&x[..])));
        }
        if !models[0].weights.iter().all(|w| w.abs() < 1e6) {
            m.skip();
            return Ok(false);
        }
        for k in 1..ys.len() {
            m.ok(ys[k].0 == ys[0].0, sig, || format!("step {t} returned {:?} instead of {:?}: {}", ys[k].0, ys[0].0, ctx()))?;
            let scale: f64 = models[0].basis.project(&x[..]).map(|f| raw(&f).iter().map(|v| v.abs()).sum()).unwrap_or(0.0);
            let big = models[0].weights.iter().fold(0.0f64, |s, w| s.max(w.abs()));
            match (&ys[0].1, &ys[k].1) {
                (Ok(a), Ok(b)) => m.close(*b, *a, 1e-8 * (1.0 + big) * (1.0 + scale), sig, || format!("value at step {t}: {}", ctx()))?,
                (a, b) => m.ok(a == b, sig, || format!("{a:?} became {b:?}: {}", ctx()))?,
            }
            let w0 = models[0].weights.clone();
            let wk = models[k].weights.clone();
            if !same_weights(m, w0.iter(), wk.iter(), sig, || format!("step {t}: {}", ctx()))? {
                m.skip();
                return Ok(false);
            }
        }
    }
    Ok(true)
}

fn model1(m: &mut M) -> (S1, usize, Spec, OptSpec) {
    let d = idim(&mut m.rng);
    let sp = gen_spec(m, d);
    let os = OptSpec::gen(&mut m.rng);
    let b = ser(&sp);
    let n = sp.dim();
    let w = vals_of(&mut m.rng, n, Cls::Uniform);
    m.fp(format!("{sp:?} {os:?}"));
    m.fpf(&w);
    if n > 0 {
        m.nontrivial();
    }
    m.sample(|| format!("{os:?} over {sp:?}"));
    (LFA::new(b, layout1(&mut m.rng, &w), os.build(n)), d, sp, os)
}

fn scalar(m: &mut M) -> R {
    m.ev("scalar approximator");
    let (mut a, d, sp, os) = model1(m);
    let before = if a.weights.len() < 10 { history_length(m, 8) } else { m.rng.below(8) };
    if before > 0 {
        m.ev("snapshot mid-history");
    }
    let ctx = || format!("snapshot after {before} steps of {os:?} over {sp:?}");
    if !drive1(m, d, &mut [&mut a], before, "C18/scalar", &ctx)? || !finite(&a.optimiser) {
        return Ok(());
    }
    let mut b: S1 = trip(m, &a)?;
    let mut c: S1 = trip(m, &b)?;
    m.ev("second generation");
    m.ok(a.weights == b.weights && a.optimiser == b.optimiser, "C18/scalar", &ctx)?;
    let steps = m.rng.range(1, 8);
    drive1(m, d, &mut [&mut a, &mut b, &mut c], steps, "C18/scalar", &ctx)?;
    Ok(())
}

fn vector(m: &mut M) -> R {
    m.ev("vector approximator");
    let d = idim(&mut m.rng);
    let sp = gen_spec(m, d);
    let os = OptSpec::gen(&mut m.rng);
    let (n, k) = (sp.dim(), *m.rng.pick(&[1, 2, 3, 5]));
    let w = vals_of(&mut m.rng, n * k, Cls::Uniform);
    m.fp(format!("{sp:?} {os:?} {k}"));
    m.fpf(&w);
    if n > 0 {
        m.nontrivial();
    }
    m.sample(|| format!("{k} outputs, {os:?} over {sp:?}"));
    let mut a: S2 = LFA::new(ser(&sp), layout2(&mut m.rng, n, k, |i, j| w[i * k + j]), os.build(n));
    let ctx = || format!("{k} outputs, {os:?} over {sp:?}");
    let total = m.rng.range(1, 12);
    let at = m.rng.below(total);
    let mut b: Option<S2> = None;
    for t in 0..total {
        if t == at {
            if !finite(&a.optimiser) {
                m.skip();
                return Ok(());
            }
            if t > 0 {
                m.ev("snapshot mid-history");
            }
            let r: S2 = trip(m, &a)?;
            m.ok(r.weights == a.weights && r.optimiser == a.optimiser && r.n_outputs() == k, "C18/vector", ctx)?;
            b = Some(r);
        }
        let x = input(&mut m.rng, d);
        if !usable(&a.basis, &x) {
            m.skip();
            continue;
        }
        let es: Vec<f64> = (0..k).map(|_| error(&mut m.rng)).collect();
        let (op, j) = (m.rng.below(3), m.rng.below(k));
        let go = |l: &mut S2| match op {
            0 => l.update(&x[..], es.clone()),
            1 => l.update_index(&x[..], j, es[j]),
            _ => l.update_with(&x[..], |_, _| Array1::from(es.clone())),
        };
        let r = go(&mut a);
        if let Some(b) = b.as_mut() {
            let s = go(b);
            m.ok(r == s, "C18/vector", || format!("{r:?} became {s:?}: {}", ctx()))?;
            let (wa, wb) = (a.weights.clone(), b.weights.clone());
            if !same_weights(m, wa.iter(), wb.iter(), "C18/vector", || format!("step {t}, snapshot at {at}: {}", ctx()))? {
                m.skip();
                return Ok(());
            }
            let (ya, yb) = (a.evaluate(&x[..]), b.evaluate(&x[..]));
            let big = wa.iter().fold(0.0f64, |s, w| s.max(w.abs()));
            let scale: f64 = a.basis.project(&x[..]).map(|f| raw(&f).iter().map(|v| v.abs()).sum()).unwrap_or(0.0);
            if let (Ok(ya), Ok(yb)) = (&ya, &yb) {
                m.close_vec(&yb.to_vec(), &ya.to_vec(), |_| 1e-8 * (1.0 + big) * (1.0 + scale), "C18/vector", ctx)?;
            } else {
                m.ok(ya == yb, "C18/vector", || format!("{ya:?} became {yb:?}: {}", ctx()))?;
            }
        } else if !a.weights.iter().all(|w| w.abs() < 1e6) {
            m.skip();
            return Ok(());
        }
    }
    Ok(())
}

/// The clone, driven later and alone, repeats what the original did.
fn clones(m: &mut M) -> R {
    m.ev("clone");
    let (mut a, d, sp, os) = model1(m);
    let ctx = || format!("clone of {os:?} over {sp:?}");
    let before = m.rng.below(6);
    if !drive1(m, d, &mut [&mut a], before, "C18/clone", &ctx)? || !finite(&a.optimiser) {
        return Ok(());
    }
    let mut b = a.clone();
    let basis0 = a.basis.clone();
    let script: Vec<(Vec<f64>, f64)> = (0..m.rng.range(1, 8)).map(|_| (input(&mut m.rng, d), error(&mut m.rng))).collect();
    for (x, e) in &script {
        if usable(&a.basis, x) {
            let _ = a.update(&x[..], *e);
        }
    }
    let wa = a.weights.clone();
    // wreck the original, then replay on the clone
    a.weights.fill(f64::NAN);
    Optimiser::<Features>::reset(&mut a.optimiser);
    drop(a);
    same_basis(m, &basis0, &b.basis, d, &sp, "C18/clone")?;
    for (x, e) in &script {
        if usable(&b.basis, x) {
            let _ = b.update(&x[..], *e);
        }
    }
    if wa.iter().all(|w| w.abs() < 1e6) {
        same_weights(m, wa.iter(), b.weights.iter(), "C18/clone", ctx)?;
    } else {
        m.skip();
    }
    Ok(())
}

impl SerB {
    /// `clone_from` of the basis itself.
    fn copy_from(&mut self, from: &SerB) {
        match (self, from) {
            (SerB::Bias(a), SerB::Bias(b)) => a.clone_from(b),
            (SerB::FixedDense(a), SerB::FixedDense(b)) => a.clone_from(b),
            (SerB::FixedSparse(a), SerB::FixedSparse(b)) => a.clone_from(b),
            (SerB::Fourier(a), SerB::Fourier(b)) => a.clone_from(b),
            (SerB::Poly(a), SerB::Poly(b)) => a.clone_from(b),
            (SerB::Cheby(a), SerB::Cheby(b)) => a.clone_from(b),
            (SerB::Kernel(a), SerB::Kernel(b)) => a.clone_from(b),
            (SerB::Grid(a), SerB::Grid(b)) => a.clone_from(b),
            (SerB::Tile(a), SerB::Tile(b)) => a.clone_from(b),
            (SerB::Stack(a), SerB::Stack(b)) => (**a).clone_from(b),
            (SerB::L0(a), SerB::L0(b)) => (**a).clone_from(b),
            (SerB::L1(a), SerB::L1(b)) => (**a).clone_from(b),
            (SerB::L2(a), SerB::L2(b)) => (**a).clone_from(b),
            (SerB::Linf(a), SerB::Linf(b)) => (**a).clone_from(b),
            (a, b) => *a = b.clone(),
        }
    }
}

/// Copies made over an object that already has a history of its own.
fn clone_from(m: &mut M) -> R {
    m.ev("clone_from");
    let (mut a, d, sp, os) = model1(m);
    let ctx = || format!("clone_from, {os:?} over {sp:?}");
    let before = m.rng.below(6);
    if !drive1(m, d, &mut [&mut a], before, "C18/clone", &ctx)? || !finite(&a.optimiser) {
        return Ok(());
    }
    // the target: other parameters, another history, sometimes another size
    let twin = if m.rng.chance(0.8) { tweak(m, &sp) } else { gen_spec(m, d) };
    let n2 = if m.rng.chance(0.7) { sp.dim() } else { m.rng.below(9) };
    let mut ob = if m.rng.chance(0.8) {
        let other = loop {
            let o = OptSpec::gen(&mut m.rng);
            if o.name() == os.name() {
                break o;
            }
        };
        other.build(n2)
    } else {
        OptSpec::gen(&mut m.rng).build(n2)
    };
    let mut scratch = Array1::zeros(n2);
    for _ in 0..m.rng.below(4) {
        let (f, e) = one(m, n2);
        ob.step_scaled(&mut scratch.view_mut(), &f, e).unwrap();
    }
    let mut bb = ser(&twin);
    bb.copy_from(&a.basis);
    ob.copy_from(&a.optimiser);
    m.ok(ob == a.optimiser, "C18/clone", || format!("{:?} was copied to {ob:?}: {}", a.optimiser, ctx()))?;
    let mut wb = scratch;
    wb.clone_from(&a.weights);
    same_basis(m, &a.basis, &bb, d, &sp, "C18/clone")?;
    let mut b: S1 = if m.rng.chance(0.5) {
        LFA::new(bb, wb, ob)
    } else {
        let mut b = LFA::new(ser(&twin), Array1::zeros(n2), OptSpec::gen(&mut m.rng).build(n2));
        b.clone_from(&a);
        b
    };
    let steps = m.rng.range(1, 8);
    drive1(m, d, &mut [&mut a, &mut b], steps, "C18/clone", &ctx)?;
    // feature vectors, kernels and errors
    let v = vals_of(&mut m.rng, d + 3, Cls::Mid);
    let n = m.rng.below(6);
    let u = vals_of(&mut m.rng, n, Cls::Mid);
    let (f, mut g) = (feats(&mut m.rng, &v), feats(&mut m.rng, &u));
    let was = repr(&g);
    g.clone_from(&f);
    m.ok(same_features(&f, &g), "C18/clone-features", || format!("{} copied over {was} is {}", repr(&f), repr(&g)))?;
    if let (Features::Sparse(s), Features::Sparse(t)) = (&f, feats(&mut m.rng, &u)) {
        let mut t = t;
        t.clone_from(s);
        m.ok(t.dim == s.dim && t.activations == s.activations, "C18/clone-features", || format!("{s:?} copied to {t:?}"))?;
    }
    let k = KSpec::gen(&mut m.rng, d);
    let mut c = KSpec { kind: k.kind, ..KSpec::gen(&mut m.rng, d) }.build();
    c.copy_from(&k.build());
    m.ok(c == k.build(), "C18/clone", || format!("{k:?} was copied to {c:?}"))?;
    let (e, mut e2) = (foreign(m.rng.below(50)), foreign(m.rng.below(50)));
    e2.clone_from(&e);
    m.ok(e == e2, "C18/clone", || format!("{e:?} was copied to {e2:?}"))
}

fn same_features(f: &Features, g: &Features) -> bool {
    f.is_dense() == g.is_dense() && f.n_features() == g.n_features() && raw(f) == raw(g) && f.n_active() == g.n_active()
}

/// Parameters at the ends of their types, compared as they print.
fn extremes(m: &mut M) -> R {
    m.ev("extreme parameters");
    let reals = [
        0.0, -0.0, 1e-300, -5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 0.1, 1.0 / 3.0, 1e17, -123456789.12345678, 1e22, 1e-7,
        2f64.powi(53) + 2.0,
    ];
    let real = |m: &mut M| if m.rng.chance(0.7) { *m.rng.pick(&reals) } else { f64::from_bits(m.rng.u64() & !(1 << 62)) };
    let size = |m: &mut M| (1usize << m.rng.range(1, 61)) + m.rng.below(4);
    let b = match m.rng.below(9) {
        0 => SerB::Bias(Bias(real(m))),
        1 => SerB::FixedDense(Fixed::dense((0..m.rng.below(5)).map(|_| real(m)).collect::<Vec<f64>>())),
        2 => {
            let n = size(m);
            // one index, so that sets print alike
            let i = (m.rng.u64() % n as u64) as usize;
            SerB::FixedSparse(Fixed::sparse(n, vec![i]))
        }
        3 => SerB::Fourier(Fourier::new(*m.rng.pick(&[0, 1, 127, 128, 254, 255]), vec![(real(m), real(m))])),
        4 => {
            let p = Polynomial::new(1, *m.rng.pick(&[0, 1, 127, 128, 254, 255]));
            SerB::Poly(if m.rng.chance(0.5) { p.with_zeroth() } else { p })
        }
        5 => SerB::Kernel(KernelBasis::new(
            (0..m.rng.range(1, 3))
                .map(|_| {
                    let mut k = KSpec::gen(&mut m.rng, 1).build();
                    k.set(real(m), vec![real(m); 2]);
                    Prototype { centroid: vec![real(m)], kernel: k }
                })
                .collect(),
        )),
        6 => SerB::Grid(UniformGrid::new(ProductSpace::new(vec![
            Equipartition::new(-1.0, 0.1 + 0.2, 1 << m.rng.range(1, 30)),
            Equipartition::new(1e-9, 1e9, 1 << m.rng.range(1, 30)),
        ]))),
        7 => SerB::Tile(TileCoding::new(Fold { salt: m.rng.u64() }, size(m), size(m))),
        _ => SerB::Stack(Box::new(Stack::new(
            SerB::Tile(TileCoding::new(Fold { salt: u64::MAX }, 1, size(m))),
            SerB::L0(Box::new(L0Normaliser::new(SerB::FixedSparse(Fixed::sparse(size(m), vec![1]))))),
        ))),
    };
    let (rate, c, d) = (real(m), real(m), real(m));
    let n = m.rng.below(4);
    let o = match m.rng.below(7) {
        0 => AnyOpt::Sgd(SGD(rate)),
        1 => AnyOpt::Isgd(ISGD(rate)),
        2 => AnyOpt::Mom(SGDMomentum::new(n, c, rate)),
        3 => AnyOpt::Nag(NAG::new(n, c, rate)),
        4 => AnyOpt::Adagrad(Adagrad::new(n, rate)),
        5 => AnyOpt::Adam(Adam::new(n, rate, c, d)),
        _ => AnyOpt::AdaMax(AdaMax::new(n, rate, c, d)),
    };
    let f = {
        let n = size(m);
        let i = (m.rng.u64() % n as u64) as usize;
        Features::sparse(n, vec![(i, real(m))])
    };
    m.fp(format!("{b:?} {o:?} {f:?}"));
    m.nontrivial();
    m.sample(|| format!("{o:?} {f:?}"));
    macro_rules! printed {
        ($x:expr, $sig:expr) => {{
            let (x, y) = (&$x, trip(m, &$x)?);
            let (p, q) = (format!("{x:?}"), format!("{y:?}"));
            m.ok(p == q, $sig, || format!("{} became {}", &p[..p.len().min(300)], &q[..q.len().min(300)]))?;
            y
        }};
    }
    let b2 = printed!(b, "C18/basis");
    let (da, db): (usize, usize) = (b.dim().into(), b2.dim().into());
    m.ok(da == db, "C18/basis", || format!("{da} features became {db}: {b:?}"))?;
    printed!(o, "C18/optimiser");
    printed!(f, "C18/features");
    let fa = LFA::new(b, Array1::from((0..n).map(|_| real(m)).collect::<Vec<_>>()), o);
    printed!(fa, "C18/scalar");
    Ok(())
}

/// Editing a cloned feature vector never affects the original.
fn aliasing(m: &mut M) -> R {
    m.ev("clone");
    let n = len_pos(&mut m.rng, m.small);
    let v = vals(&mut m.rng, n);
    let f = feats(&mut m.rng, &v);
    m.fp(f.is_dense());
    m.fpf(&v);
    m.nontrivial();
    m.sample(|| repr(&f));
    let mut g = f.clone();
    let same = |f: &Features, v: &[f64]| raw(f).iter().zip(v).all(|(a, b)| a == b) && f.n_features() == v.len();
    m.ok(same(&g, &v), "C18/clone-features", || format!("{} cloned to {}", repr(&f), repr(&g)))?;
    let mut want = v.clone();
    for _ in 0..m.rng.range(1, 5) {
        match m.rng.below(3) {
            0 => {
                let i = m.rng.below(n);
                g.remove(i);
                want[i] = 0.0;
            }
            1 => {
                g.map_inplace(|x| 2.0 * x);
                want.iter_mut().for_each(|x| *x *= 2.0);
            }
            _ => {
                g.merge_inplace(&f, |x, y| x + y);
                want.iter_mut().zip(&v).for_each(|(x, y)| *x += y);
            }
        }
        m.ok(same(&f, &v), "C18/clone-features", || format!("original became {} when the clone was edited", repr(&f)))?;
        m.ok(same(&g, &want), "C18/clone-features", || format!("edited clone is {} not {}", repr(&g), show(&want)))?;
    }
    Ok(())
}

/// Bases with terms added any number of times, or with public tables edited.
fn terms(m: &mut M) -> R {
    m.ev("edited terms");
    let d = m.rng.range(1, 3);
    let order = m.rng.below(4) as u8;
    let l = limits(&mut m.rng, d);
    let times = m.rng.below(5);
    let b = match m.rng.below(3) {
        0 => {
            let mut p = Chebyshev::new(order, l.clone());
            for _ in 0..times {
                p = p.with_zeroth();
            }
            SerB::Cheby(p)
        }
        1 => {
            let mut p = Polynomial::new(d, order);
            for _ in 0..times {
                p = p.with_zeroth();
            }
            if m.rng.chance(0.5) {
                let keep = m.rng.below(p.exponents.len() + 1);
                p.exponents.truncate(keep);
                p.exponents.push((0..d).map(|_| m.rng.below(9) as u8).collect());
            }
            SerB::Poly(p)
        }
        _ => {
            let mut p = Fourier::new(order, l.clone());
            for _ in 0..times {
                p.coefficients.push((0..d).map(|_| m.rng.uniform(-6.0, 6.0)).collect());
            }
            if m.rng.chance(0.3) {
                p.coefficients.reverse();
            }
            SerB::Fourier(p)
        }
    };
    m.fp(format!("{b:?}"));
    m.nontrivial();
    m.sample(|| format!("{b:?}").chars().take(300).collect());
    let copies = [trip(m, &b)?, b.clone()];
    let n: usize = b.dim().into();
    for c in &copies {
        let k: usize = c.dim().into();
        m.ok(k == n, "C18/basis", || format!("{n} features became {k}: {b:?}"))?;
        for _ in 0..2 {
            let x = input(&mut m.rng, d);
            let (f, g) = (b.project(&x[..]), c.project(&x[..]));
            let same = match (&f, &g) {
                (Ok(f), Ok(g)) => {
                    let (f, g) = (raw(f), raw(g));
                    f.len() == g.len() && f.iter().zip(&g).all(|(a, b)| near(*a, *b))
                }
                _ => f.is_err() && g.is_err(),
            };
            m.ok(same, "C18/basis", || format!("{f:?} became {g:?} at {x:?}: {b:?}"))?;
        }
    }
    Ok(())
}
