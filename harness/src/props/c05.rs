//! C05: no safe use of the library causes undefined behaviour.
//!
//! The scenarios abuse the safe API; the oracle is the instrumentation they run
//! under (AddressSanitizer, Miri, the process staying alive) plus the check that
//! every object that survives a caught panic can still be read and reused.
use super::c18::SerB;
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use crate::opts::*;
use lfa::basis::kernels::Kernel;
use lfa::basis::*;
use lfa::optim::*;
use lfa::{Error, Features, SparseActivations, LFA};
use ndarray::linalg::Dot;
use ndarray::{Array1, Array2, ArrayViewMut1};
use spaces::Space;
use std::cell::Cell;
use std::hash::{BuildHasher, Hasher};

pub fn property() -> Property {
    Property {
        id: "C05",
        rule: "a case is one abuse of the safe API (panicking closure at the k-th call, lying dimension, mismatched sizes, \
               out-of-range index, odd layout, malformed restored object, random operation soup) run under instrumentation; \
               non-trivial when library code ran on a non-empty object, distinct by all parameters",
        required: &[
            "panic in map", "panic in map_into", "panic in map_inplace", "panic in merge", "panic in merge_into", "panic in merge_inplace",
            "panic in fold", "panic in iterator", "panic in basis", "panic in callback", "panic in optimiser", "panic in hasher",
            "panic in kernel", "survivor", "lying basis", "index out of range", "size mismatch", "layout", "restored", "soup",
            "returned", "written memory", "panicked", "refused", "wrong input length", "non-finite input",
            "lying iterator", "restless iterator", "panicking iterator", "changing item",
        ],
        scenarios: vec![
            scn!("closures", 20_000, 400_000, 60, |m| watched(m, closures)),
            scn!("bases", 8000, 150_000, 40, |m| watched(m, bases)),
            scn!("lying", 10_000, 200_000, 60, |m| watched(m, lying)),
            scn!("optimisers", 12_000, 200_000, 60, |m| watched(m, optimisers)),
            scn!("approximators", 8000, 150_000, 40, |m| watched(m, approximators)),
            scn!("inputs", 8000, 150_000, 30, |m| watched(m, inputs)),
            scn!("iterators", 8000, 150_000, 40, |m| watched(m, iterators)),
            scn!("soup", 8000, 150_000, 30, |m| watched(m, soup)),
            scn!("restored", 6000, 100_000, 16, |m| watched(m, restored)),
        ],
    }
}

/// A call that may return or panic; only memory errors count.
fn call<T>(m: &mut M, f: impl FnOnce() -> T) -> Option<T> {
    m.checked();
    match m.caught(f) {
        Ok(x) => {
            m.ev("returned");
            Some(x)
        }
        Err(_) => {
            m.ev("panicked");
            None
        }
    }
}

fn call_r<T>(m: &mut M, f: impl FnOnce() -> lfa::Result<T>) -> Option<T> {
    match call(m, f) {
        Some(Ok(x)) => Some(x),
        Some(Err(_)) => {
            m.ev("refused");
            None
        }
        None => None,
    }
}

/// A panic injected by the harness at the k-th call.
struct Bomb(Cell<usize>);
impl Bomb {
    fn new(k: usize) -> Bomb {
        Bomb(Cell::new(k))
    }
    fn tick(&self) {
        let k = self.0.get();
        if k == 0 {
            panic!("bomb");
        }
        self.0.set(k - 1);
    }
}

thread_local! {
    static POISONED: Cell<u64> = const { Cell::new(0) };
}

fn sink(x: f64) -> u64 {
    if poisoned(x) {
        POISONED.with(|p| p.set(x.to_bits()));
    }
    std::hint::black_box(x.to_bits())
}

/// No number seen so far came from unwritten or freed memory.
fn written(m: &mut M, what: &str) -> R {
    m.ev("written memory");
    let p = POISONED.with(|p| p.take());
    m.ok(p == 0, "C05/uninitialised", || format!("a number read ({p:#x}) was never written or already freed: {what}"))
}

fn watched(m: &mut M, f: fn(&mut M) -> R) -> R {
    POISONED.with(|p| p.set(0));
    f(m)?;
    written(m, "end of the case")
}

/// The surviving object can be read, reused and dropped.
fn survivor(m: &mut M, f: &mut Features, well_formed: bool, what: &str) -> R {
    m.ev("survivor");
    let r = m.caught(|| {
        let n = f.n_features();
        let mut acc = sink(f.n_active() as f64);
        for i in 0..n {
            acc ^= sink(f[i]);
            acc ^= f.get(i).map_or(0, |x| sink(*x));
        }
        acc ^= f.get(n).map_or(0, |x| sink(*x));
        acc ^= sink(f.fold(0.0, |a, x| a + x));
        let g = f.map(|x| x + 1.0);
        acc ^= sink(g.sum());
        let mut h = f.clone();
        h.map_inplace(|x| x * 0.5);
        if n > 0 {
            h.remove(n - 1);
        }
        drop(g);
        acc ^= sink(h.sum());
        let s = h.stack(f.clone());
        acc ^= sink(s.n_features() as f64);
        // reuse the object itself
        f.map_inplace(|x| -x);
        f.remove(0);
        acc ^ sink(f.sum())
    });
    if well_formed {
        m.ok(r.is_ok(), "C05/survivor", || format!("object cannot be used after {what}: {:?}", r.as_ref().err()))?;
    }
    written(m, what)
}

fn any_features(m: &mut M) -> Features {
    let n = if m.small { m.rng.below(5) } else { len(&mut m.rng, false).min(600) };
    let v = vals(&mut m.rng, n);
    if m.rng.chance(0.5) {
        dense_of(&mut m.rng, &v)
    } else {
        sparse_of(&mut m.rng, &v, true)
    }
}

/// Sparse features whose entries need not fit their dimension.
fn wild_features(m: &mut M) -> Features {
    if m.rng.chance(0.4) {
        return any_features(m);
    }
    let n = m.rng.below(8);
    let k = m.rng.below(6);
    let pairs: Vec<(usize, f64)> = (0..k)
        .map(|_| {
            let i = match m.rng.below(6) {
                0 => n,
                1 => n + m.rng.below(3),
                2 => usize::MAX - m.rng.below(2),
                3 => 1 << 40,
                _ => m.rng.below(n + 1),
            };
            (i, m.rng.uniform(-2.0, 2.0))
        })
        .collect();
    Features::Sparse(SparseActivations { dim: n, activations: pairs.into_iter().collect() })
}

fn closures(m: &mut M) -> R {
    let mut f = any_features(m);
    let g = any_features(m);
    let n = f.n_features().max(g.n_features());
    let k = if m.rng.chance(0.2) { usize::MAX } else { m.rng.below(n + 3) };
    let op = m.rng.below(11);
    let shift = *m.rng.pick(&[0.0, 1.0]);
    m.fp((op, k, f.is_dense(), g.is_dense(), f.n_features(), g.n_features()));
    m.fpf(&raw(&f)[..f.n_features().min(4)]);
    if n > 0 {
        m.nontrivial();
    }
    m.sample(|| format!("operation {op}, panic at call {k}: {} with {}", repr(&f), repr(&g)));
    let b = Bomb::new(k);
    let f1 = |x: f64| {
        b.tick();
        sink(x);
        x * 1.5 + shift
    };
    let f2 = |x: f64, y: f64| {
        b.tick();
        sink(x);
        sink(y);
        x * 2.0 - y + shift
    };
    match op {
        0 => {
            m.ev("panic in map");
            if let Some(mut h) = call(m, || f.map(f1)) {
                survivor(m, &mut h, true, "map")?;
            }
        }
        1 => {
            m.ev("panic in map_into");
            let c = f.clone();
            if let Some(mut h) = call(m, move || c.map_into(f1)) {
                survivor(m, &mut h, true, "map_into")?;
            }
        }
        2 => {
            m.ev("panic in map_inplace");
            call(m, || f.map_inplace(f1));
        }
        3 => {
            m.ev("panic in merge");
            if let Some(mut h) = call(m, || f.merge(&g, f2)) {
                survivor(m, &mut h, true, "merge")?;
            }
        }
        4 => {
            m.ev("panic in merge_into");
            let c = f.clone();
            if let Some(mut h) = call(m, || c.merge_into(&g, f2)) {
                survivor(m, &mut h, true, "merge_into")?;
            }
        }
        5 => {
            m.ev("panic in merge_inplace");
            call(m, || f.merge_inplace(&g, f2));
        }
        6 => {
            m.ev("panic in fold");
            call(m, || {
                f.fold(0.0, |a, x| {
                    b.tick();
                    a + x
                })
            });
        }
        7 => {
            m.ev("panic in iterator");
            let v = raw(&g);
            let it = |v: Vec<f64>| {
                v.into_iter().map(|x| {
                    b.tick();
                    x
                })
            };
            let h = match m.rng.below(4) {
                0 => call(m, || Features::dense(it(v))),
                1 => call(m, || it(v).collect::<Features>()),
                2 => {
                    let d = v.len();
                    call(m, || Features::sparse(d, it(v).enumerate()))
                }
                _ => {
                    let d = v.len();
                    call(m, || Features::unitary(d, it(v).enumerate().map(|p| p.0)))
                }
            };
            if let Some(mut h) = h {
                survivor(m, &mut h, true, "construction")?;
            }
        }
        8 => {
            let c = f.clone();
            call(m, || {
                c.map_dense(|a| {
                    b.tick();
                    a.sum()
                })
            });
            let c = f.clone();
            call(m, || {
                c.map_sparse(|a| {
                    b.tick();
                    a.activations.len()
                })
            });
        }
        9 => {
            let c = f.clone();
            call(m, || {
                c.map_either(
                    |d| {
                        b.tick();
                        Features::from(d)
                    },
                    |s| {
                        b.tick();
                        Features::from(s)
                    },
                )
            });
        }
        _ => {
            // panic half-way, then carry on with the survivor, again and again
            for _ in 0..3 {
                let b = Bomb::new(m.rng.below(4));
                let inplace = m.rng.chance(0.5);
                call(m, || {
                    if inplace {
                        f.map_inplace(|x| {
                            b.tick();
                            x + 1.0
                        })
                    } else {
                        f.merge_inplace(&g, |x, y| {
                            b.tick();
                            x + y
                        })
                    }
                });
            }
        }
    }
    survivor(m, &mut f, true, &format!("operation {op}"))?;
    let mut g = g;
    survivor(m, &mut g, true, &format!("operation {op} (operand)"))
}

struct BadHasher(usize, u64);
struct BadState(usize, u64);
impl BuildHasher for BadHasher {
    type Hasher = BadState;
    fn build_hasher(&self) -> BadState {
        BadState(self.0, self.1)
    }
}
impl Hasher for BadState {
    fn write(&mut self, b: &[u8]) {
        if self.0 == 0 {
            panic!("bomb");
        }
        self.0 -= 1;
        self.1 = self.1.wrapping_mul(31).wrapping_add(b.len() as u64 + b.first().copied().unwrap_or(0) as u64);
    }
    fn finish(&self) -> u64 {
        self.1
    }
}

struct BadKernel(Bomb);
impl<'a> Kernel<&'a [f64]> for BadKernel {
    fn kernel(&self, x: &'a [f64], _: &'a [f64]) -> f64 {
        self.0.tick();
        x.first().copied().unwrap_or(1.0)
    }
}

/// Bases that panic half-way, alone and inside combinators.
fn bases(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let x = input(&mut m.rng, d);
    let k = m.rng.below(6);
    let kind = m.rng.below(4);
    let p = *m.rng.pick(&[0u8, 1, 2, 9]);
    m.fp((kind, k, p));
    m.fpf(&x);
    m.nontrivial();
    m.sample(|| format!("kind {kind} panicking at call {k} under norm {p} at {x:?}"));
    match kind {
        0 => {
            m.ev("panic in hasher");
            let mem = *m.rng.pick(&[1usize, 4, 64]);
            let t = TileCoding::new(BadHasher(k, m.rng.u64()), m.rng.range(1, 5), mem);
            for _ in 0..2 {
                if let Some(mut f) = call_r(m, || t.project(&x)) {
                    survivor(m, &mut f, true, "tile coding")?;
                }
            }
        }
        1 => {
            m.ev("panic in kernel");
            let b = KernelBasis::new(
                (0..3).map(|i| Prototype { centroid: vec![0.0; d], kernel: BadKernel(Bomb::new(k + i)) }).collect::<Vec<_>>(),
            );
            let r = call_r(m, || b.project(&x[..]));
            drop(b);
            if let Some(mut f) = r {
                survivor(m, &mut f, true, "kernel basis")?;
            }
        }
        2 => {
            m.ev("panic in iterator");
            let b = Bomb::new(k);
            let it = (0..4usize).map(|i| {
                b.tick();
                i
            });
            let r = if m.rng.chance(0.5) {
                call(m, || Fixed::sparse(4, it)).map(|b| call_r(m, || b.project(&x[..])))
            } else {
                call(m, || Fixed::dense(it.map(|i| i as f64))).map(|b| call_r(m, || b.project(&x[..])))
            };
            if let Some(Some(mut f)) = r {
                survivor(m, &mut f, true, "fixed")?;
            }
        }
        _ => {
            m.ev("panic in basis");
            let bomb = Bomb::new(k);
            let sparse = m.rng.chance(0.5);
            let mk = move |_: &[f64]| -> lfa::Result<Features> {
                bomb.tick();
                Ok(if sparse { Features::sparse(3, vec![(1, 2.0), (2, -1.0)]) } else { Features::dense(vec![1.0, 0.0, -2.0]) })
            };
            let c = EnumClosure(Closure::new(3, mk));
            let b = match p {
                0 => NoSync::new(c.stack(Bias::unit()).normalise_l0()),
                1 => NoSync::new(Stack::new(Bias(2.0), c).normalise_l1()),
                2 => NoSync::new(c.normalise_l2().with_bias()),
                _ => NoSync::new(c.normalise_linf()),
            };
            for _ in 0..4 {
                if let Some(mut f) = call_r(m, || b.0.p(&x)) {
                    survivor(m, &mut f, true, "composition")?;
                }
                let i = m.rng.below(6);
                call_r(m, || b.0.i(&x, i).map(sink));
            }
        }
    }
    Ok(())
}

/// Like `DB`, without asking for thread safety.
trait Loose {
    fn p(&self, x: &[f64]) -> lfa::Result<Features>;
    fn i(&self, x: &[f64], i: usize) -> lfa::Result<f64>;
    fn n(&self) -> usize;
}
impl<B: Space<Value = Features> + for<'a> EnumerableBasis<&'a [f64]>> Loose for B {
    fn p(&self, x: &[f64]) -> lfa::Result<Features> {
        self.project(x)
    }
    fn i(&self, x: &[f64], i: usize) -> lfa::Result<f64> {
        self.ith(x, i)
    }
    fn n(&self) -> usize {
        self.dim().into()
    }
}
struct NoSync(Box<dyn Loose>);
impl NoSync {
    fn new<B: Loose + 'static>(b: B) -> NoSync {
        NoSync(Box::new(b))
    }
}

const FAR: [usize; 6] = [usize::MAX, usize::MAX - 1, 1 << 62, 1 << 32, 1 << 20, 4096];

/// A basis declaring a size its projections do not have.
fn lying(m: &mut M) -> R {
    m.ev("lying basis");
    let f = wild_features(m);
    let actual = f.n_features();
    let declared = match m.rng.below(4) {
        0 => actual + m.rng.range(1, 3),
        1 => actual.saturating_sub(m.rng.range(1, 3)),
        2 => m.rng.below(20),
        _ => actual,
    };
    let wrap = m.rng.below(9);
    m.fp((declared, wrap, format!("{f:?}")));
    if actual > 0 {
        m.nontrivial();
    }
    m.sample(|| format!("declares {declared}, returns {} (wrapping {wrap})", repr(&f)));
    let g = f.clone();
    let c = EnumClosure(Closure::new(declared, move |_: &[f64]| Ok(g.clone())));
    let b = match wrap {
        0 => NoSync::new(c),
        1 => NoSync::new(c.normalise_l0()),
        2 => NoSync::new(c.normalise_l1()),
        3 => NoSync::new(c.normalise_l2()),
        4 => NoSync::new(c.normalise_linf()),
        5 => NoSync::new(c.with_bias()),
        6 => NoSync::new(Stack::new(Fixed::sparse(2, vec![0]), c)),
        7 => NoSync::new(Stack::new(Bias::unit(), c).normalise_l0()),
        _ => NoSync::new(c.normalise_l0().stack(Bias::unit()).normalise_linf()),
    };
    let x = [0.5];
    if let Some(p) = call_r(m, || b.0.p(&x)) {
        read_all(m, &p);
    }
    let n = call(m, || b.0.n()).unwrap_or(0);
    m.ev("index out of range");
    for i in (0..n.min(24) + 4).chain(actual..actual + 3).chain(FAR) {
        call_r(m, || b.0.i(&x, i).map(sink));
    }
    // features whose entries exceed their own dimension
    let mut f = f;
    read_all(m, &f);
    let w = {
        let v = vals_of(&mut m.rng, declared, Cls::Uniform);
        layout1(&mut m.rng, &v)
    };
    call(m, || sink(f.dot(&w.view())));
    call(m, || sink(Dot::<Features>::dot(&f, &Features::dense(w.to_vec()))));
    let mut w2 = w.clone();
    call(m, || f.addto(&mut w2));
    call(m, || f.scaled_addto(0.5, &mut w2.view_mut()));
    w2.iter().for_each(|x| { sink(*x); });
    call(m, || f.to_dense().iter().for_each(|x| { sink(*x); }));
    call(m, || f.matmul(&Array2::from_elem((declared, 2), 1.0)).iter().for_each(|x| { sink(*x); }));
    let other = wild_features(m);
    if let Some(mut h) = call(m, || f.merge(&other, |a, b| a + b)) {
        survivor(m, &mut h, false, "merging")?;
    }
    call(m, || f.merge_inplace(&other, |a, b| a * b + 1.0));
    call(m, || f.map_inplace(|a| a + 1.0));
    if let Some(mut h) = call(m, || f.clone().stack(other.clone())) {
        if h.n_features() < 500 {
            survivor(m, &mut h, false, "stacking")?;
        }
    }
    call(m, || f == f.clone());
    survivor(m, &mut f, false, "lying")
}

fn read_all(m: &mut M, f: &Features) {
    let n = f.n_features();
    for i in (0..n.min(40) + 3).chain(FAR) {
        call(m, || sink(f[i]));
        call(m, || f.get(i).map(|x| sink(*x)));
        let mut c = None;
        if n < 64 {
            c = Some(f.clone());
        }
        if let Some(mut c) = c {
            call(m, || c.remove(i));
        }
    }
    // in-range unchecked reads are legal
    for i in 0..n.min(40) {
        call(m, || unsafe { f.uget(i).map(|x| sink(*x)) });
    }
    call(m, || sink(f.sum()));
    call(m, || f.n_active());
    call(m, || f.fold(0.0, |a, x| a + x));
}

/// Optimisers, features and weights of different sizes and layouts.
fn optimisers(m: &mut M) -> R {
    m.ev("size mismatch");
    m.ev("layout");
    let base = m.rng.range(0, if m.small { 3 } else { 20 });
    let vary = |r: &mut Rng, n: usize| match r.below(4) {
        0 => n + r.range(1, 3),
        1 => n.saturating_sub(r.range(1, 3)),
        2 => r.below(2 * n + 2),
        _ => n,
    };
    let (no, nf, nw) = (vary(&mut m.rng, base), vary(&mut m.rng, base), vary(&mut m.rng, base));
    let os = OptSpec::gen(&mut m.rng);
    m.fp((format!("{os:?}"), no, nf, nw));
    m.nontrivial();
    m.sample(|| format!("{os:?} for {no} weights, {nf} features, {nw} weights given"));
    let mut o = os.build(no);
    let win = View::gen(&mut m.rng, nw);
    let w0 = vals_of(&mut m.rng, nw, Cls::Uniform);
    let mut buf = win.with(&w0);
    for _ in 0..3 {
        let v = mild(&mut m.rng, nf);
        let f = if m.rng.chance(0.2) { wild_features(m) } else { feats(&mut m.rng, &v) };
        let e = error(&mut m.rng);
        if m.rng.chance(0.5) {
            call_r(m, || o.step_scaled(&mut win.view_mut(&mut buf), &f, e));
        } else {
            call_r(m, || o.step(&mut win.view_mut(&mut buf), &f));
        }
        // whatever happened, the optimiser and the weights survive
        let r = m.caught(|| {
            let c = o.clone();
            Optimiser::<Features>::reset(&mut o);
            let s = win.view(&buf).iter().fold(0, |a, x| a ^ sink(*x));
            s ^ format!("{c:?}").len() as u64
        });
        m.ev("survivor");
        m.ok(r.is_ok(), "C05/survivor", || format!("{os:?} cannot be used after a failed step"))?;
    }
    // weights of the right size afterwards
    let mut w = Array1::zeros(no);
    let f = Features::dense(vec![1.0; no]);
    let r = m.caught(|| o.step_scaled(&mut w.view_mut(), &f, 1.0));
    m.ok(r.is_ok(), "C05/survivor", || format!("{os:?} panics on matching sizes after a failed step: {r:?}"))
}

struct BadOpt(Bomb);
impl Optimiser<Features> for BadOpt {
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, e: f64) -> lfa::Result<()> {
        self.0.tick();
        f.scaled_addto(e, w);
        if self.0 .0.get() % 3 == 1 {
            return Err(Error::index_error(0, 0));
        }
        Ok(())
    }
}

fn approximators(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let sp = spec(&mut m.rng, d, &Opt::new().depth(1).max_dim(if m.small { 5 } else { 30 }));
    let n = sp.dim();
    let b = sp.build();
    let x = input(&mut m.rng, d);
    let k = m.rng.below(5);
    let wrong = m.rng.chance(0.4);
    let rows = if wrong { (n + m.rng.below(4)).saturating_sub(m.rng.below(4)) } else { n };
    m.fp((format!("{sp:?}"), rows, k));
    m.nontrivial();
    m.sample(|| format!("{rows} weight rows for {n} features, {k} outputs: {sp:?}"));
    if wrong {
        m.ev("size mismatch");
    }
    let bomb = Bomb::new(m.rng.below(3));
    match m.rng.below(4) {
        0 => {
            m.ev("panic in callback");
            let w = vals_of(&mut m.rng, rows, Cls::Uniform);
            let os = OptSpec::gen(&mut m.rng);
            let mut l = LFA::new(b, layout1(&mut m.rng, &w), os.build(rows));
            for _ in 0..3 {
                call_r(m, || {
                    l.update_with(&x[..], |f, y| {
                        bomb.tick();
                        sink(f.sum());
                        1.0 - y
                    })
                });
                call_r(m, || l.evaluate(&x[..]).map(sink));
                call_r(m, || l.update(&x[..], 0.5));
            }
            l.weights.iter().for_each(|x| { sink(*x); });
            let c = l.clone();
            drop(l);
            c.weights.iter().for_each(|x| { sink(*x); });
        }
        1 => {
            m.ev("panic in optimiser");
            let mut l = LFA::new(b, Array2::from_elem((rows, k), 0.5), BadOpt(Bomb::new(m.rng.below(5))));
            for _ in 0..2 {
                call_r(m, || l.update(&x[..], vec![1.0; k + 1]));
                call_r(m, || l.update_with(&x[..], |_, y| y));
                call_r(m, || l.evaluate(&x[..]).map(|y| y.iter().for_each(|y| { sink(*y); })));
            }
            l.weights.iter().for_each(|x| { sink(*x); });
        }
        2 => {
            m.ev("panic in iterator");
            m.ev("index out of range");
            let os = OptSpec::gen(&mut m.rng);
            let w0 = vals_of(&mut m.rng, rows * k, Cls::Uniform);
            let mut l = LFA::new(b, layout2(&mut m.rng, rows, k, |i, j| w0[i * k + j]), os.build(rows));
            call_r(m, || {
                l.update(
                    &x[..],
                    (0..k + 2).map(|i| {
                        bomb.tick();
                        i as f64
                    }),
                )
            });
            for i in (0..k + 2).chain(FAR) {
                call_r(m, || l.evaluate_index(&x[..], i).map(sink));
                call_r(m, || l.update_index(&x[..], i, 0.5));
            }
            call(m, || {
                let mut it = l.iter(&x[..]);
                let mut s = 0.0;
                while let Some(y) = it.next() {
                    sink(y);
                    s += y;
                }
                s + it.len() as f64 + it.next().unwrap_or(0.0)
            });
            l.weights.iter().for_each(|x| { sink(*x); });
        }
        _ => {
            m.ev("panic in callback");
            let os = OptSpec::gen(&mut m.rng);
            let w0 = vals_of(&mut m.rng, rows * k, Cls::Uniform);
            let mut l = LFA::new(b, layout2(&mut m.rng, rows, k, |i, j| w0[i * k + j]), os.build(rows));
            let ret = m.rng.below(k + 3);
            let e = vals_of(&mut m.rng, ret, Cls::Uniform);
            let e = layout1(&mut m.rng, &e);
            for _ in 0..3 {
                call_r(m, || {
                    l.update_with(&x[..], |f, y| {
                        bomb.tick();
                        sink(f.sum() + y.sum());
                        e.clone()
                    })
                });
                call_r(m, || l.evaluate(&x[..]).map(|y| y.iter().for_each(|y| { sink(*y); })));
            }
            l.weights.iter().for_each(|x| { sink(*x); });
        }
    }
    Ok(())
}

/// Inputs of the wrong length, non-finite inputs, out-of-range indices.
fn inputs(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let depth = m.rng.below(2);
    let mut sp = spec(&mut m.rng, d, &Opt::new().depth(depth).max_dim(if m.small { 6 } else { 60 }));
    // degenerate parameters
    if m.rng.chance(0.2) {
        sp = match m.rng.below(6) {
            0 => Spec::Fourier { order: 2, limits: vec![(1.0, 1.0); d], from_space: false },
            1 => Spec::Poly { dim: 0, order: 3, zeroth: true },
            2 => Spec::Cheby { order: 11, limits: vec![(0.0, 1.0)], zeroth: true, from_space: false },
            3 => Spec::Tile { tilings: 0, mem: 0, salt: 1 },
            4 => Spec::FixedSparse(2, vec![0, 5, usize::MAX]),
            _ => Spec::Grid(vec![]),
        };
    }
    m.fp(format!("{sp:?}"));
    m.nontrivial();
    m.sample(|| format!("{sp:?}"));
    let b = match call(m, || sp.build()) {
        Some(b) => b,
        None => return Ok(()),
    };
    let n = b.n();
    for _ in 0..4 {
        let dd = if m.rng.chance(0.5) {
            m.ev("wrong input length");
            m.rng.below(6)
        } else {
            d
        };
        let mut x = input(&mut m.rng, dd);
        if m.rng.chance(0.4) && dd > 0 {
            m.ev("non-finite input");
            let i = m.rng.below(dd);
            x[i] = *m.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, f64::MIN_POSITIVE]);
        }
        m.fpf(&x);
        if let Some(mut f) = call_r(m, || b.project(&x[..])) {
            if f.n_features() < 200 {
                survivor(m, &mut f, false, "projection")?;
            }
        }
        for i in [0, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX] {
            call_r(m, || b.ith(&x[..], i).map(sink));
        }
    }
    // kernels on mismatched vectors
    let ks = KSpec::gen(&mut m.rng, d);
    let k = ks.build();
    let (a, c) = (m.rng.below(5), m.rng.below(5));
    let (x, y) = (input(&mut m.rng, a), input(&mut m.rng, c));
    call(m, || k.vecs(&x, &y));
    call(m, || k.scalar(1.0, 2.0));
    Ok(())
}

/// A user's iterator: its announced size need not be the true one, it may panic,
/// and it may go on after its end.
#[derive(Clone)]
struct Odd<T> {
    items: std::rc::Rc<Vec<T>>,
    at: usize,
    hint: (usize, Option<usize>),
    bomb: Option<usize>,
    restless: bool,
}
impl<T: Clone> Iterator for Odd<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.bomb == Some(self.at) {
            panic!("bomb");
        }
        self.at += 1;
        let n = self.items.len();
        if self.at <= n {
            return Some(self.items[self.at - 1].clone());
        }
        // one more round after the end, for those who ask
        if self.restless && self.at > n + 1 && self.at <= 2 * n + 1 {
            return Some(self.items[self.at - n - 2].clone());
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
impl<T: Clone> ExactSizeIterator for Odd<T> {
    fn len(&self) -> usize {
        self.hint.0
    }
}

fn odd<T: Clone>(m: &mut M, items: Vec<T>) -> Odd<T> {
    let n = items.len();
    let lower = match m.rng.below(8) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 | 3 => n + m.rng.range(1, 4),
        4 => n + m.rng.range(5, 70),
        5 => 4096,
        6 => *m.rng.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize]),
        _ => n,
    };
    let upper = match m.rng.below(5) {
        0 => None,
        1 => Some(n),
        2 => Some(lower / 2),
        3 => Some(0),
        _ => Some(lower),
    };
    if lower != n || upper.map_or(false, |u| u != n) {
        m.ev("lying iterator");
    }
    let bomb = if m.rng.chance(0.15) {
        m.ev("panicking iterator");
        Some(m.rng.below(n + 1))
    } else {
        None
    };
    let restless = m.rng.chance(0.2);
    if restless {
        m.ev("restless iterator");
    }
    m.fp((n, lower, upper, bomb, restless));
    Odd { items: std::rc::Rc::new(items), at: 0, hint: (lower, upper), bomb, restless }
}

/// An item that is a different number each time it is looked at.
#[derive(Clone)]
struct Item(std::rc::Rc<(f64, f64, Cell<bool>)>);
impl Item {
    fn new(m: &mut M, x: f64) -> Item {
        let y = if m.rng.chance(0.3) {
            m.ev("changing item");
            *m.rng.pick(&[1e9, -1e9, 0.0, f64::NAN, 3.0])
        } else {
            x
        };
        Item(std::rc::Rc::new((x, y, Cell::new(false))))
    }
}
impl std::borrow::Borrow<f64> for Item {
    fn borrow(&self) -> &f64 {
        let b = (self.0).2.get();
        (self.0).2.set(!b);
        if b {
            &(self.0).1
        } else {
            &(self.0).0
        }
    }
}

/// A hasher that looks at every word it is given.
struct Looking;
struct LookingState(u64);
impl BuildHasher for Looking {
    type Hasher = LookingState;
    fn build_hasher(&self) -> LookingState {
        LookingState(7)
    }
}
impl Hasher for LookingState {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            let w = u64::from_ne_bytes(w);
            self.0 = mix(self.0 ^ sink(f64::from_bits(w)));
            if w & 1 == 1 {
                self.0 ^= 5;
            }
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

/// Iterators of the user's own as inputs and contents.
fn iterators(m: &mut M) -> R {
    let d = m.rng.range(1, 4);
    let nx = if m.rng.chance(0.8) { d } else { m.rng.below(6) };
    let x = input(&mut m.rng, nx);
    m.fpf(&x);
    m.nontrivial();
    let kind = m.rng.below(8);
    m.fp(kind);
    m.sample(|| format!("kind {kind}, {d} dimensions, at {x:?}"));
    let lim = limits(&mut m.rng, d);
    let i = *m.rng.pick(&[0, 0, 1, 2, 5, usize::MAX]);
    macro_rules! ask {
        ($b:expr, $it:expr, $what:expr) => {{
            let b = $b;
            let it = $it;
            let again = it.clone();
            if let Some(mut f) = call_r(m, || b.project(it)) {
                if f.n_features() < 200 {
                    survivor(m, &mut f, false, $what)?;
                }
            }
            call_r(m, || b.ith(again, i).map(sink));
        }};
    }
    match kind {
        0 | 1 => {
            let nt = *m.rng.pick(&[1, 1, 2, 4]);
            let b = TileCoding::new(Looking, nt, *m.rng.pick(&[1, 16, 100]));
            let it = odd(m, x.iter().collect::<Vec<&f64>>());
            ask!(&b, it, "tile coding over an odd iterator");
        }
        2 => {
            let b = UniformGrid::new(spaces::ProductSpace::new(
                lim.iter().map(|&(a, b)| spaces::Equipartition::new(a, b, 3)).collect::<Vec<_>>(),
            ));
            let it = odd(m, x.iter().collect::<Vec<&f64>>());
            ask!(&b, it, "grid over an odd iterator");
        }
        3 => {
            let b = Fourier::new(2, lim);
            let items: Vec<Item> = x.iter().map(|v| Item::new(m, *v)).collect();
            let it = odd(m, items);
            ask!(&b, it, "fourier over an odd iterator");
        }
        4 => {
            let b = Polynomial::new(d, 2);
            let items: Vec<Item> = x.iter().map(|v| Item::new(m, *v)).collect();
            let it = odd(m, items);
            ask!(&b, it, "polynomial over an odd iterator");
        }
        5 => {
            let b = Chebyshev::new(2, lim);
            let items: Vec<Item> = x.iter().map(|v| Item::new(m, *v)).collect();
            let it = odd(m, items);
            ask!(&b, it, "chebyshev over an odd iterator");
        }
        6 => {
            let n = m.rng.range(0, 9);
            let v = vals(&mut m.rng, n);
            let dim = *m.rng.pick(&[n, n + 3, 1, 0]);
            let way = m.rng.below(6);
            m.fp(way);
            let f = match way {
                0 => {
                    let it = odd(m, v);
                    call(m, || Features::dense(it))
                }
                1 => {
                    let it = odd(m, v);
                    call(m, || it.collect::<Features>())
                }
                2 => {
                    let it = odd(m, v.into_iter().enumerate().collect::<Vec<_>>());
                    call(m, || Features::sparse(dim, it))
                }
                3 => {
                    let it = odd(m, (0..n).collect::<Vec<_>>());
                    call(m, || Features::unitary(dim, it))
                }
                4 => {
                    let it = odd(m, v);
                    call(m, || Fixed::dense(it)).and_then(|b| call_r(m, || b.project(&x[..])))
                }
                _ => {
                    let it = odd(m, (0..n).collect::<Vec<_>>());
                    call(m, || Fixed::sparse(dim, it)).and_then(|b| call_r(m, || b.project(&x[..])))
                }
            };
            if let Some(mut f) = f {
                survivor(m, &mut f, false, "contents from an odd iterator")?;
            }
        }
        _ => {
            let k = m.rng.range(1, 4);
            let mut l = LFA::vector(Fourier::new(1, lim), SGD(0.1), k);
            for _ in 0..3 {
                let ne = m.rng.below(k + 3);
                let es = mild(&mut m.rng, ne);
                let e = odd(m, es);
                let xs: Vec<f64> = input(&mut m.rng, d);
                call_r(m, || l.update(&xs[..], e));
                l.weights.iter().for_each(|x| {
                    sink(*x);
                });
                if let Some(o) = call_r(m, || l.evaluate(&xs[..]).map(|o| o.to_vec())) {
                    o.iter().for_each(|x| {
                        sink(*x);
                    });
                }
            }
        }
    }
    Ok(())
}

/// Random operations over a pool of feature vectors, panics included.
fn soup(m: &mut M) -> R {
    let mut pool: Vec<Features> = (0..3).map(|_| if m.rng.chance(0.7) { any_features(m) } else { wild_features(m) }).collect();
    let steps = if m.small { 8 } else { m.rng.range(5, 40) };
    m.fp(steps);
    m.fpf(&[pool[0].n_features() as f64, pool[1].n_features() as f64, pool[2].n_features() as f64]);
    m.fp(m.seed());
    m.nontrivial();
    m.sample(|| format!("{steps} operations over {}", pool.iter().map(repr).collect::<Vec<_>>().join(", ")));
    for _ in 0..steps {
        m.ev("soup");
        let (i, j) = (m.rng.below(3), m.rng.below(3));
        let g = pool[j].clone();
        let bomb = Bomb::new(if m.rng.chance(0.8) { usize::MAX } else { m.rng.below(6) });
        let op = m.rng.below(16);
        let idx = m.rng.below(12);
        let c = *m.rng.pick(&[0.0, 1.0, 1e-6]);
        let f1 = |x: f64| {
            bomb.tick();
            x * 0.5 + c
        };
        let f2 = |x: f64, y: f64| {
            bomb.tick();
            x * 0.5 - y + c
        };
        let f = &mut pool[i];
        let out: Option<Option<Features>> = match op {
            0 => call(m, || f.map_inplace(f1)).map(|_| None),
            1 => call(m, || Some(f.map(f1))),
            2 => {
                let h = f.clone();
                call(m, move || Some(h.map_into(f1)))
            }
            3 => call(m, || f.merge_inplace(&g, f2)).map(|_| None),
            4 => call(m, || Some(f.merge(&g, f2))),
            5 => {
                let h = f.clone();
                call(m, move || Some(h.merge_into(&g, f2)))
            }
            6 => call(m, || f.remove(idx)).map(|_| None),
            7 => {
                let h = f.clone();
                if h.n_features() + g.n_features() > 3000 {
                    None
                } else {
                    call(m, move || Some(h.stack(g)))
                }
            }
            8 => call(m, || Some(Features::from(f.to_dense()))),
            9 => {
                let h = f.clone();
                call(m, move || Some(Features::from(Vec::<f64>::from(h))))
            }
            10 => call(m, || {
                sink(Dot::<Features>::dot(&*f, &g));
                None
            }),
            11 => call(m, || {
                let _ = *f == g;
                None
            }),
            12 => call(m, || {
                let mut w = g.to_dense();
                f.addto(&mut w);
                sink(f.dot(&w.view()));
                Some(Features::from(w))
            }),
            13 => call(m, || {
                sink(f[idx]);
                sink(f.get(idx).copied().unwrap_or(0.0));
                None
            }),
            14 => {
                let h = f.clone();
                call(m, move || h.map_either(|d| Some(Features::from(d)), |s| Some(Features::from(s))))
            }
            _ => {
                let h = f.clone();
                call(m, move || h.map_dense(|mut d| {
                    d.invert_axis(ndarray::Axis(0));
                    Features::from(d)
                }))
            }
        };
        if let Some(Some(h)) = out {
            let k = m.rng.below(3);
            pool[k] = h;
        }
    }
    for mut f in pool {
        survivor(m, &mut f, false, "the soup")?;
    }
    Ok(())
}

/// Objects restored from documents nobody checked.
fn restored(m: &mut M) -> R {
    m.ev("restored");
    let d = m.rng.range(1, 2);
    let kind = m.rng.below(3);
    let x = input(&mut m.rng, d);
    m.nontrivial();
    match kind {
        0 => {
            let f = any_features(m);
            let mut doc = serde_json::to_value(&f).unwrap();
            mutate(m, &mut doc);
            m.fp(doc.to_string());
            m.sample(|| doc.to_string());
            if let Some(Ok(mut f)) = call(m, || serde_json::from_value::<Features>(doc)) {
                read_all(m, &f);
                survivor(m, &mut f, false, "restoring")?;
            }
        }
        1 => {
            let depth = m.rng.below(2);
            let sp = spec(&mut m.rng, d, &Opt::new().depth(depth).max_dim(12));
            let b = super::c18::ser(&sp);
            let mut doc = serde_json::to_value(&b).unwrap();
            mutate(m, &mut doc);
            m.fp(doc.to_string());
            m.sample(|| doc.to_string());
            if let Some(Ok(b)) = call(m, || serde_json::from_value::<SerB>(doc)) {
                let n: usize = call(m, || b.dim().into()).unwrap_or(0);
                if n < 10_000 {
                    if let Some(mut f) = call_r(m, || b.project(&x[..])) {
                        if f.n_features() < 500 {
                            survivor(m, &mut f, false, "restoring")?;
                        }
                    }
                    for i in [0, n / 2, n, n + 1, usize::MAX] {
                        call_r(m, || b.ith(&x[..], i).map(sink));
                    }
                }
            }
        }
        _ => {
            let n = m.rng.range(1, 6);
            let os = OptSpec::gen(&mut m.rng);
            let o = os.build(n);
            let mut doc = serde_json::to_value(&o).unwrap();
            mutate(m, &mut doc);
            m.fp(doc.to_string());
            m.sample(|| doc.to_string());
            if let Some(Ok(mut o)) = call(m, || serde_json::from_value::<AnyOpt>(doc)) {
                let mut w = Array1::zeros(n);
                for _ in 0..3 {
                    let v = mild(&mut m.rng, n);
                    let f = feats(&mut m.rng, &v);
                    call_r(m, || o.step_scaled(&mut w.view_mut(), &f, 0.5));
                }
                call(m, || Optimiser::<Features>::reset(&mut o));
            }
        }
    }
    Ok(())
}

/// Change a few numbers and list lengths of a document.
fn mutate(m: &mut M, doc: &mut serde_json::Value) {
    for _ in 0..m.rng.range(1, 3) {
        let mut count = 0;
        walk(doc, &mut |_| count += 1);
        let at = m.rng.below(count.max(1));
        let (how, small, r) = (m.rng.below(6), m.rng.below(9), m.rng.u64());
        let mut k = 0;
        walk(doc, &mut |v| {
            if k == at {
                match v {
                    serde_json::Value::Number(_) => {
                        *v = match how {
                            0 => serde_json::json!(small),
                            1 => serde_json::json!(0),
                            2 => serde_json::json!(-1.5),
                            _ => serde_json::json!(small + 7),
                        }
                    }
                    serde_json::Value::Array(a) => match how {
                        0 => {
                            a.pop();
                        }
                        1 => {
                            if let Some(x) = a.last().cloned() {
                                a.push(x);
                            }
                        }
                        2 => a.clear(),
                        _ => {
                            if a.len() > 1 {
                                let (i, j) = (r as usize % a.len(), (r >> 20) as usize % a.len());
                                a.swap(i, j);
                            }
                        }
                    },
                    serde_json::Value::Object(o) => {
                        // sparse entries beyond the dimension
                        if o.keys().all(|k| k.parse::<usize>().is_ok()) {
                            o.insert(format!("{}", small * 3), serde_json::json!(1.5));
                            if how == 0 {
                                o.insert(format!("{}", usize::MAX), serde_json::json!(2.5));
                            }
                        }
                    }
                    _ => {}
                }
            }
            k += 1;
        });
    }
}

fn walk(v: &mut serde_json::Value, f: &mut dyn FnMut(&mut serde_json::Value)) {
    f(v);
    match v {
        serde_json::Value::Array(a) => a.iter_mut().for_each(|x| walk(x, f)),
        serde_json::Value::Object(o) => o.values_mut().for_each(|x| walk(x, f)),
        _ => {}
    }
}
