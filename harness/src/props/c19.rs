//! C19: projection and evaluation are pure, also across threads.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use crate::opts::*;
use lfa::basis::*;
use lfa::{Features, Result, ScalarLFA, VectorLFA, LFA};
use ndarray::{Array1, Array2};

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C19",
        rule: "a case is a set of objects (bases, approximators) and inputs (with near-twins) queried in some order or from several \
               threads, every answer compared with a first isolated call on a fresh identical object; non-trivial when the \
               objects have features, distinct by objects, inputs and order (or thread schedule)",
        required: &[
            "project", "ith", "evaluate", "evaluate vector", "evaluate_index", "iterate", "repeat", "near-twin input", "other object",
            "silent twin", "failing query", "many calls", "reused addresses", "edited in place",
            "interrupted by a panic",
        ],
        scenarios: vec![
            scn!("sequential", 8000, 150_000, 6, sequential),
            scn!("silent", 5000, 80_000, 4, silent),
            scn!("many", 150, 2000, 0, many),
            scn!("interrupted", 3000, 50_000, 3, interrupted),
            scn!("reuse", 4000, 60_000, 3, reuse),
        ],
    };
    #[cfg(feature = "sync")]
    {
        p.required = &["shared by threads", "concurrent query", "schedule"];
        p.scenarios = vec![scn!("threads", 2500, 40_000, 3, threads), scn!("typed", 1200, 20_000, 1, typed)];
    }
    p
}

#[derive(Clone, Debug, PartialEq)]
enum Ans {
    F(bool, Vec<f64>),
    V(Vec<f64>),
    E(lfa::Error),
}

fn ans_f(r: Result<Features>) -> Ans {
    match r {
        Ok(f) => Ans::F(f.is_dense(), raw(&f)),
        Err(e) => Ans::E(e),
    }
}
/// As `ans_f`, for vectors too long to write out: the active entries.
fn ans_s(r: Result<Features>) -> Ans {
    match r {
        Ok(Features::Sparse(s)) => {
            let mut v: Vec<(usize, f64)> = s.activations.iter().map(|(&i, &x)| (i, x)).collect();
            v.sort_by_key(|e| e.0);
            Ans::F(false, std::iter::once(s.dim as f64).chain(v.into_iter().flat_map(|(i, x)| vec![i as f64, x])).collect())
        }
        r => ans_f(r),
    }
}
fn ans_v(r: Result<Vec<f64>>) -> Ans {
    match r {
        Ok(v) => Ans::V(v),
        Err(e) => Ans::E(e),
    }
}

fn near(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-11 * scale.max(a.abs() + b.abs()) + 1e-290
}

fn same(a: &Ans, b: &Ans) -> bool {
    match (a, b) {
        (Ans::F(d, v), Ans::F(e, w)) => d == e && v.len() == w.len() && v.iter().zip(w).all(|(x, y)| near(*x, *y, 0.0)),
        (Ans::V(v), Ans::V(w)) => {
            let s = v.iter().fold(1.0f64, |s, x| if x.is_finite() { s.max(x.abs()) } else { s });
            v.len() == w.len() && v.iter().zip(w).all(|(x, y)| near(*x, *y, s * 100.0))
        }
        (Ans::E(a), Ans::E(b)) => a == b,
        _ => false,
    }
}

/// A query and the object it goes to.
#[derive(Clone, Debug)]
enum Q {
    Project,
    Ith(usize),
    Scalar,
    Vector,
    Index(usize),
    Iter,
}

struct Obj {
    basis: DynB,
    scalar: ScalarLFA<DynB, AnyOpt>,
    vector: VectorLFA<DynB, AnyOpt>,
}

struct Plan {
    sp: Spec,
    os: OptSpec,
    w1: Vec<f64>,
    w2: Vec<f64>,
    k: usize,
}

impl Plan {
    fn gen(m: &mut M, d: usize, fallible: bool) -> Plan {
        let depth = m.rng.below(3);
        let sp = spec(&mut m.rng, d, &Opt::new().fallible(fallible).depth(depth).max_dim(if m.small { 5 } else { 40 }));
        let n = sp.dim();
        let k = m.rng.range(1, 3);
        m.fp(format!("{sp:?}"));
        if n > 0 {
            m.nontrivial();
        }
        Plan { os: OptSpec::gen(&mut m.rng), w1: vals_of(&mut m.rng, n, Cls::Uniform), w2: vals_of(&mut m.rng, n * k, Cls::Uniform), sp, k }
    }
    fn build(&self) -> Obj {
        let n = self.sp.dim();
        let b = self.sp.build();
        Obj {
            scalar: LFA::new(self.sp.build(), Array1::from(self.w1.clone()), self.os.build(n)),
            vector: LFA::new(
                self.sp.build(),
                Array2::from_shape_vec((n, self.k), self.w2.clone()).unwrap(),
                self.os.build(n),
            ),
            basis: b,
        }
    }
    fn query(&self, r: &mut Rng) -> Q {
        match r.below(7) {
            0 | 1 => Q::Project,
            2 => Q::Ith(r.below(self.sp.dim() + 1)),
            3 => Q::Scalar,
            4 => Q::Vector,
            5 => Q::Index(r.below(self.k)),
            _ => Q::Iter,
        }
    }
}

impl Obj {
    fn ask(&self, q: &Q, x: &[f64]) -> Ans {
        match q {
            Q::Project => ans_f(self.basis.project(x)),
            Q::Ith(i) => ans_v(self.basis.ith(x, *i).map(|v| vec![v])),
            Q::Scalar => ans_v(self.scalar.evaluate(x).map(|v| vec![v])),
            Q::Vector => ans_v(self.vector.evaluate(x).map(|v| v.to_vec())),
            Q::Index(j) => ans_v(self.vector.evaluate_index(x, *j).map(|v| vec![v])),
            Q::Iter => ans_v(self.vector.try_iter(x).map(|it| it.collect())),
        }
    }
    fn untouched(&self, p: &Plan) -> bool {
        let n = p.sp.dim();
        let bits = |a: &mut dyn Iterator<Item = &f64>, b: &[f64]| a.zip(b).all(|(x, y)| x.to_bits() == y.to_bits());
        bits(&mut self.scalar.weights.iter(), &p.w1)
            && bits(&mut self.vector.weights.iter(), &p.w2)
            && self.scalar.optimiser == p.os.build(n)
            && self.vector.optimiser == p.os.build(n)
    }
}

fn event(q: &Q) -> &'static str {
    match q {
        Q::Project => "project",
        Q::Ith(_) => "ith",
        Q::Scalar => "evaluate",
        Q::Vector => "evaluate vector",
        Q::Index(_) => "evaluate_index",
        Q::Iter => "iterate",
    }
}

/// Inputs that a careless cache would confuse.
fn inputs(m: &mut M, d: usize, fallible: bool) -> Vec<Vec<f64>> {
    let mut xs = vec![];
    for _ in 0..m.rng.range(2, 4) {
        let x = input(&mut m.rng, d);
        m.ev("near-twin input");
        let mut y = x.clone();
        let i = m.rng.below(d);
        match m.rng.below(6) {
            0 => y[i] += 1e-9,
            1 => y[i] = -y[i],
            2 => y.reverse(),
            3 => y[d - 1] += 0.5,
            4 => y[0] = y[0] * (1.0 + 4.0 * EPS) + 1e-15,
            _ => y[i] += 1.0,
        }
        xs.push(x);
        xs.push(y);
    }
    if fallible {
        xs.push(failing_input(&mut m.rng, d));
    }
    xs
}

fn sequential(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let fallible = m.rng.chance(0.4);
    let plans: Vec<Plan> = (0..m.rng.range(1, 3)).map(|_| Plan::gen(m, d, fallible)).collect();
    let objs: Vec<Obj> = plans.iter().map(|p| p.build()).collect();
    let xs = inputs(m, d, fallible);
    m.sample(|| format!("{} inputs into {:?}", xs.len(), plans.iter().map(|p| &p.sp).collect::<Vec<_>>()));
    // expected answers: one isolated call each, on its own fresh object
    let mut asks = vec![];
    for _ in 0..(if m.small { 6 } else { m.rng.range(6, 30) }) {
        let o = m.rng.below(plans.len());
        let q = plans[o].query(&mut m.rng);
        let k = m.rng.below(xs.len());
        m.fpf(&xs[k]);
        let want = plans[o].build().ask(&q, &xs[k]);
        asks.push((o, q, k, want));
    }
    let rounds = m.rng.range(1, 3);
    for round in 0..rounds {
        m.rng.shuffle(&mut asks);
        for (o, q, k, want) in &asks {
            if round > 0 {
                m.ev("repeat");
            }
            if plans.len() > 1 {
                m.ev("other object");
            }
            m.ev(event(q));
            let got = objs[*o].ask(q, &xs[*k]);
            if matches!(got, Ans::E(_)) {
                m.ev("failing query");
            }
            m.ok(same(&got, want), "C19/impure", || {
                format!("{q:?} at {:?} answered {got:?}, alone it answers {want:?} (round {round}): {:?}", xs[*k], plans[*o].sp)
            })?;
        }
    }
    for (o, p) in objs.iter().zip(&plans) {
        m.ok(o.untouched(p), "C19/changed", || format!("queries changed weights or optimiser: {:?} {:?}", p.os, p.sp))?;
    }
    Ok(())
}

/// Training with and without reads in between ends in the same place.
fn silent(m: &mut M) -> R {
    m.ev("silent twin");
    let d = idim(&mut m.rng);
    let p = Plan::gen(m, d, false);
    let (mut a, mut b) = (p.build(), p.build());
    m.sample(|| format!("{:?} over {:?}", p.os, p.sp));
    for _ in 0..m.rng.range(2, 10) {
        let x = input(&mut m.rng, d);
        m.fpf(&x);
        match b.basis.project(&x[..]) {
            Ok(f) if raw(&f).iter().all(|v| v.is_finite() && v.abs() < 1e9) => {}
            _ => {
                m.skip();
                continue;
            }
        }
        for _ in 0..m.rng.below(5) {
            let y = if m.rng.chance(0.5) { x.clone() } else { input(&mut m.rng, d) };
            let q = p.query(&mut m.rng);
            m.ev(event(&q));
            a.ask(&q, &y);
        }
        let e = error(&mut m.rng);
        let es: Vec<f64> = (0..p.k).map(|_| error(&mut m.rng)).collect();
        for o in [&mut a, &mut b] {
            o.scalar.update(&x[..], e).unwrap();
            o.vector.update(&x[..], es.clone()).unwrap();
        }
        let big = b.scalar.weights.iter().chain(b.vector.weights.iter()).fold(0.0f64, |s, w| s.max(w.abs()));
        if !(big < 1e6) {
            m.skip();
            return Ok(());
        }
        let good = a.scalar.weights.iter().zip(b.scalar.weights.iter()).all(|(x, y)| (x - y).abs() <= 1e-9 * (1.0 + big))
            && a.vector.weights.iter().zip(b.vector.weights.iter()).all(|(x, y)| (x - y).abs() <= 1e-9 * (1.0 + big));
        m.ok(good, "C19/read-affects-learning", || format!("{:?} over {:?}", p.os, p.sp))?;
    }
    Ok(())
}

/// Thousands of calls into one object.
fn many(m: &mut M) -> R {
    m.ev("many calls");
    let d = idim(&mut m.rng);
    let p = Plan::gen(m, d, false);
    let o = p.build();
    let xs = inputs(m, d, false);
    let want: Vec<(Ans, Ans)> = xs.iter().map(|x| (p.build().ask(&Q::Project, x), p.build().ask(&Q::Scalar, x))).collect();
    m.sample(|| format!("{:?}", p.sp));
    let calls = if p.sp.dim() < 12 && m.rng.chance(0.02) { 70_000 } else { m.rng.range(500, 3000) };
    for t in 0..calls {
        let k = m.rng.below(xs.len());
        let (q, w) = if m.rng.chance(0.5) { (Q::Project, &want[k].0) } else { (Q::Scalar, &want[k].1) };
        let got = o.ask(&q, &xs[k]);
        m.ok(same(&got, w), "C19/impure", || format!("call {t}: {q:?} at {:?} answered {got:?}, alone {w:?}: {:?}", xs[k], p.sp))?;
    }
    m.ok(o.untouched(&p), "C19/changed", || format!("{:?}", p.sp))
}

/// Different objects and inputs in turn at the very same addresses, judged
/// against the closed forms.
fn reuse(m: &mut M) -> R {
    m.ev("reused addresses");
    let d = idim(&mut m.rng);
    let mut buf = vec![0.0; d];
    let first = Plan::gen(m, d, false);
    m.sample(|| format!("objects starting with {:?} rebuilt in one place", first.sp));
    let mut place = Box::new(first.build());
    let mut p = first;
    let base = input(&mut m.rng, d);
    for t in 0..(if m.small { 5 } else { m.rng.range(5, 30) }) {
        if t > 0 && m.rng.chance(0.3) {
            // the same family with other parameters, or another one
            p = if m.rng.chance(0.5) { Plan { sp: tweak(m, &p.sp), ..Plan::gen(m, d, false) } } else { Plan::gen(m, d, false) };
            let n = p.sp.dim();
            p.w1 = vals_of(&mut m.rng, n, Cls::Uniform);
            p.w2 = vals_of(&mut m.rng, n * p.k, Cls::Uniform);
            *place = p.build();
        }
        let mut keep = false;
        if t > 0 && m.rng.chance(0.15) {
            m.ev("edited in place");
            if m.rng.chance(0.4) {
                for w in place.scalar.weights.iter_mut() {
                    *w = -*w;
                }
                p.w1.iter_mut().for_each(|w| *w = -*w);
            } else {
                // with the sum they had
                let by = 1.min(p.w1.len());
                p.w1.rotate_right(by);
                place.scalar.weights.assign(&Array1::from(p.w1.clone()));
                m.rng.shuffle(&mut p.w2);
                place.vector.weights.iter_mut().zip(&p.w2).for_each(|(w, x)| *w = *x);
            }
            keep = true;
        }
        if !(keep && m.rng.chance(0.6)) {
            let x = if m.rng.chance(0.5) { input(&mut m.rng, d) } else { base.clone() };
            buf.copy_from_slice(&x);
            if m.rng.chance(0.5) {
                buf[m.rng.below(d)] += *m.rng.pick(&[1e-3, 0.25, 1.0]);
            }
        }
        m.fpf(&buf);
        let (v, e) = match p.sp.want(&buf) {
            Want::Vals { v, e } if v.iter().all(|x| x.is_finite()) => (v, e),
            _ => {
                m.skip();
                continue;
            }
        };
        let n = v.len();
        let ctx = || format!("call {t} at {buf:?}: {:?}", p.sp);
        let q = p.query(&mut m.rng);
        m.ev(event(&q));
        let got = place.ask(&q, &buf);
        let value = |w: &[f64], j: usize, k: usize| {
            let w: Vec<f64> = (0..n).map(|i| w[i * k + j]).collect();
            let slack: f64 = (0..n).map(|i| e[i] * w[i].abs()).sum();
            (dot(&v, &w), slack + 1e-11 * dot_mag(&v, &w))
        };
        let want: Vec<(f64, f64)> = match q {
            Q::Project => (0..n).map(|i| (v[i], e[i])).collect(),
            Q::Ith(i) if i < n => vec![(v[i], e[i])],
            Q::Ith(_) => {
                m.ok(matches!(got, Ans::E(_)), "C19/stale", || format!("{q:?} answered {got:?}: {}", ctx()))?;
                continue;
            }
            Q::Scalar => vec![value(&p.w1, 0, 1)],
            Q::Index(j) => vec![value(&p.w2, j, p.k)],
            Q::Vector | Q::Iter => (0..p.k).map(|j| value(&p.w2, j, p.k)).collect(),
        };
        let got = match got {
            Ans::F(_, g) | Ans::V(g) => g,
            Ans::E(e) => return m.fail("C19/stale", format!("{q:?} failed with {e:?}: {}", ctx())),
        };
        m.ok(got.len() == want.len(), "C19/stale", || format!("{q:?} answered {} values instead of {}: {}", got.len(), want.len(), ctx()))?;
        for i in 0..got.len() {
            m.close(got[i], want[i].0, want[i].1, "C19/stale", || format!("{q:?}, value {i}: {}", ctx()))?;
        }
    }
    Ok(())
}

/// An input that panics after some of its coordinates.
#[derive(Clone)]
struct Broken<'a> {
    x: &'a [f64],
    at: usize,
    good: usize,
}
impl<'a> Iterator for Broken<'a> {
    type Item = &'a f64;
    fn next(&mut self) -> Option<&'a f64> {
        if self.at == self.good {
            panic!("broken input");
        }
        self.at += 1;
        self.x.get(self.at - 1)
    }
}

/// A hasher that gives up in the middle of a projection.
#[derive(Clone, Copy)]
struct Fuse<'a>(&'a std::cell::Cell<usize>);
struct FuseHasher<'a>(Fuse<'a>, std::collections::hash_map::DefaultHasher);
impl<'a> std::hash::BuildHasher for Fuse<'a> {
    type Hasher = FuseHasher<'a>;
    fn build_hasher(&self) -> FuseHasher<'a> {
        FuseHasher(*self, Default::default())
    }
}
impl<'a> std::hash::Hasher for FuseHasher<'a> {
    fn write(&mut self, b: &[u8]) {
        let left = self.0 .0.get();
        if left == 0 {
            panic!("fuse");
        }
        self.0 .0.set(left - 1);
        self.1.write(b);
    }
    fn finish(&self) -> u64 {
        self.1.finish()
    }
}

/// A kernel that gives up likewise.
#[derive(Clone, Copy)]
struct FuseKernel<'a>(&'a std::cell::Cell<usize>, f64);
impl<'a, 'b> kernels::Kernel<&'b [f64]> for FuseKernel<'a> {
    fn kernel(&self, x: &'b [f64], y: &'b [f64]) -> f64 {
        let left = self.0.get();
        if left == 0 {
            panic!("fuse");
        }
        self.0.set(left - 1);
        self.1 * x.iter().zip(y).map(|(a, b)| a * b).sum::<f64>()
    }
}

/// User code that panics in the middle of a call (inputs, hashers, kernels,
/// closures, callbacks) leaves nothing behind: later calls answer as before.
fn interrupted(m: &mut M) -> R {
    let d = m.rng.range(1, 4);
    let l = limits(&mut m.rng, d);
    let xs: Vec<Vec<f64>> = (0..3).map(|_| (0..d).map(|i| m.rng.uniform(l[i].0, l[i].1)).collect()).collect();
    let order = m.rng.range(1, 2) as u8;
    let (nt, mem) = (m.rng.range(1, 9), *m.rng.pick(&[7usize, 100, 1 << 40]));
    m.fp(format!("{l:?} {order} {nt} {mem}"));
    m.fpf(&xs[0]);
    m.nontrivial();
    m.sample(|| format!("order {order}, limits {l:?}, {nt} tilings, memory {mem}, at {xs:?}"));
    let fuse = std::cell::Cell::new(usize::MAX);
    let fourier = Fourier::new(order, l.clone());
    let poly = Polynomial::new(d, order).with_zeroth();
    let cheby = Chebyshev::new(order, l.clone());
    let grid = UniformGrid::new(spaces::ProductSpace::new(
        l.iter().map(|a| spaces::Equipartition::new(a.0, a.1, 3)).collect(),
    ));
    let tile = TileCoding::new(Fuse(&fuse), nt, mem);
    let kernel = KernelBasis::new(
        (0..4).map(|i| Prototype { centroid: xs[i % 3].clone(), kernel: FuseKernel(&fuse, i as f64 + 1.0) }).collect(),
    );
    let closure = |tag: f64| {
        let fuse = &fuse;
        Closure::new(2, move |x: &[f64]| {
            let left = fuse.get();
            if left == 0 {
                panic!("fuse");
            }
            fuse.set(left - 1);
            Ok(Features::from(vec![x[0] + tag, tag]))
        })
    };
    let stack = closure(1.0).stack(fourier.clone()).stack(closure(2.0)).normalise_l2().stack(TileCoding::new(Fuse(&fuse), nt, 50));
    let n1: usize = spaces::Space::dim(&stack).into();
    let mut fa = LFA::scalar(stack.clone(), lfa::optim::SGD(0.5));
    let mut fv = LFA::vector(stack.clone(), lfa::optim::SGD(0.5), 2);
    fa.update(&xs[0][..], 1.0).unwrap();
    fv.update(&xs[0][..], vec![1.0, -2.0]).unwrap();
    let refs: Vec<Vec<f64>> = xs.clone();
    let answers = |fa: &ScalarLFA<_, _>, fv: &VectorLFA<_, _>, x: &Vec<f64>| -> Vec<Ans> {
        let x = &x[..];
        let mut out = vec![
            ans_f(fourier.project(x)),
            ans_f(poly.project(x)),
            ans_f(cheby.project(x)),
            ans_f(grid.project(x)),
            ans_s(tile.project(x)),
            ans_f(kernel.project(x)),
            ans_f(stack.project(x)),
            ans_v(fa.evaluate(x).map(|v| vec![v])),
            ans_v(fv.evaluate(x).map(|v| v.to_vec())),
        ];
        for i in 0..2 {
            out.push(ans_v(fourier.ith(x, i % order as usize).map(|v| vec![v])));
            out.push(ans_v(tile.ith(x, i).map(|v| vec![v])));
            out.push(ans_v(kernel.ith(x, i).map(|v| vec![v])));
            out.push(ans_v(fv.evaluate_index(x, i).map(|v| vec![v])));
        }
        out
    };
    let before: Vec<Vec<Ans>> = refs.iter().map(|x| answers(&fa, &fv, x)).collect();
    for _ in 0..m.rng.range(1, 5) {
        let x = m.rng.pick(&xs).clone();
        let op = m.rng.below(14);
        let bad = Broken { x: &x, at: 0, good: m.rng.below(d) };
        // far enough to be in the middle of something
        let lit = if op < 7 { usize::MAX } else { m.rng.below(2 * nt * (d + 1)) };
        let i = m.rng.below(2);
        let j = (m.rng.u64() % n1 as u64) as usize;
        fuse.set(lit);
        let r = m.caught(|| match op {
            0 => drop(fourier.project(bad.clone())),
            1 => drop(poly.project(bad.clone())),
            2 => drop(cheby.project(bad.clone())),
            3 => drop(grid.project(bad.clone())),
            4 => drop(tile.project(bad.clone())),
            5 => drop((fourier.ith(bad.clone(), 0), cheby.ith(bad.clone(), 0))),
            6 => drop((grid.ith(bad.clone(), 0), tile.ith(bad.clone(), 0))),
            7 => drop(tile.project(&x[..])),
            8 => drop(tile.ith(&x[..], i)),
            9 => drop(kernel.project(&x[..])),
            10 => drop(kernel.ith(&x[..], i)),
            11 => drop(stack.project(&x[..])),
            12 => drop((fa.evaluate(&x[..]), fv.evaluate(&x[..]), fv.evaluate_index(&x[..], 0))),
            _ => {
                let _ = j;
                fv.iter(&x[..]).count();
            }
        });
        fuse.set(usize::MAX);
        if r.is_err() {
            m.ev("interrupted by a panic");
        }
        for (k, x) in refs.iter().enumerate() {
            let now = answers(&fa, &fv, x);
            for (q, (a, b)) in now.iter().zip(&before[k]).enumerate() {
                m.ok(same(a, b), "C19/after-panic", || {
                    format!("answer {q} at {x:?} was {b:?}, after operation {op} panicked it is {a:?}: order {order}, limits {l:?}, {nt} tilings")
                })?;
            }
        }
    }
    let _ = (&mut fa, &mut fv);
    Ok(())
}

/// The same composition with other parameters.
pub fn tweak(m: &mut M, s: &Spec) -> Spec {
    let b = |m: &mut M, s: &Spec| Box::new(tweak(m, s));
    match s.clone() {
        Spec::Bias(c) => Spec::Bias(-c),
        Spec::FixedDense(v) => Spec::FixedDense(v.iter().map(|x| x * 2.0).collect()),
        Spec::Fourier { order, limits: l, from_space } => {
            let l = limits(&mut m.rng, l.len());
            Spec::Fourier { order, limits: l, from_space }
        }
        Spec::Cheby { order, limits: l, zeroth, from_space } => {
            let l = limits(&mut m.rng, l.len());
            Spec::Cheby { order, limits: l, zeroth, from_space }
        }
        Spec::Kernel { k, centroids } => {
            let d = centroids.first().map_or(1, |c| c.len());
            Spec::Kernel { k: if m.rng.chance(0.5) { KSpec::gen(&mut m.rng, d) } else { k }, centroids: centroids.iter().map(|c| c.iter().map(|x| x + 0.125).collect()).collect() }
        }
        Spec::Kernels(ks) => Spec::Kernels(ks.into_iter().map(|(k, c)| (KSpec { variance: k.variance * 3.0, ..k }, c)).collect()),
        Spec::Grid(g) => {
            let l = limits(&mut m.rng, g.len());
            Spec::Grid(l.into_iter().zip(g).map(|(l, g)| (l.0, l.1, g.2)).collect())
        }
        Spec::Tile { tilings, mem, salt } => Spec::Tile { tilings, mem, salt: salt ^ 0x55 },
        Spec::Closure(c) => Spec::Closure(CSpec { salt: c.salt ^ 1, ..c }),
        Spec::Stack(x, y, how) => Spec::Stack(b(m, &x), b(m, &y), how),
        Spec::Norm(p, x, how) => Spec::Norm(p, b(m, &x), how),
        s => s,
    }
}

/// One object shared by several threads.
#[cfg(feature = "sync")]
fn threads(m: &mut M) -> R {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    let d = idim(&mut m.rng);
    let fallible = m.rng.chance(0.3);
    let p = Plan::gen(m, d, fallible);
    let o = p.build();
    let xs = inputs(m, d, fallible);
    m.ev("shared by threads");
    m.sample(|| format!("{:?} over {:?}", p.os, p.sp));
    let t = if m.small { 2 } else { m.rng.range(2, 6) };
    let per = if m.small { 4 } else { m.rng.range(5, 40) };
    let mut scripts: Vec<Vec<(Q, usize, Ans, u32)>> = vec![];
    for _ in 0..t {
        let mut s = vec![];
        for _ in 0..per {
            let q = p.query(&mut m.rng);
            let k = m.rng.below(xs.len());
            let want = p.build().ask(&q, &xs[k]);
            let spin = *m.rng.pick(&[0, 0, 0, 1, 50, 400]);
            s.push((q, k, want, spin));
        }
        scripts.push(s);
    }
    // relaxed tickets: they order nothing, so they hide no race
    let ticket = AtomicUsize::new(0);
    let ready = AtomicUsize::new(0);
    let mut order: Vec<(usize, u8)> = vec![];
    let mut wrong: Option<String> = None;
    std::thread::scope(|s| {
        let hs: Vec<_> = scripts
            .iter()
            .map(|script| {
                let (o, xs, ticket, ready) = (&o, &xs, &ticket, &ready);
                s.spawn(move || {
                    let mut seen = vec![];
                    let mut bad = None;
                    ready.fetch_add(1, Relaxed);
                    while ready.load(Relaxed) < t {
                        std::thread::yield_now();
                    }
                    for (q, k, want, spin) in script {
                        for _ in 0..*spin {
                            std::hint::spin_loop();
                        }
                        if *spin == 1 {
                            std::thread::yield_now();
                        }
                        let got = o.ask(q, &xs[*k]);
                        seen.push(ticket.fetch_add(1, Relaxed));
                        if !same(&got, want) && bad.is_none() {
                            bad = Some(format!("{q:?} at {:?} answered {got:?}, alone it answers {want:?}", xs[*k]));
                        }
                    }
                    (seen, bad)
                })
            })
            .collect();
        for (w, h) in hs.into_iter().enumerate() {
            match h.join() {
                Ok((seen, bad)) => {
                    order.extend(seen.into_iter().map(|t| (t, w as u8)));
                    wrong = wrong.take().or(bad);
                }
                Err(_) => wrong = Some("a query panicked in a thread".into()),
            }
        }
    });
    order.sort();
    let switches = order.windows(2).filter(|w| w[0].1 != w[1].1).count();
    m.fp(order.iter().map(|o| o.1).collect::<Vec<u8>>());
    m.evn("concurrent query", order.len() as u64);
    m.evn("schedule", 1);
    m.evn("thread switches observed", switches as u64);
    m.ok(wrong.is_none(), "C19/impure-threads", || format!("{t} threads: {}: {:?}", wrong.unwrap(), p.sp))?;
    m.ok(o.untouched(&p), "C19/changed", || format!("{:?}", p.sp))
}

/// Library types shared directly (no dynamic wrapper in between).
#[cfg(feature = "sync")]
fn typed(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let l = limits(&mut m.rng, d);
    let order = m.rng.range(1, 2) as u8;
    let n = m.rng.range(1, 5);
    let ks = KSpec::gen(&mut m.rng, d);
    let cs: Vec<Vec<f64>> = (0..n).map(|_| input(&mut m.rng, d)).collect();
    let parts: Vec<(f64, f64, usize)> = l.iter().map(|&(a, b)| (a, b, 4)).collect();
    let salt = m.rng.u64();
    let xs = inputs(m, d, false);
    m.ev("shared by threads");
    m.ev("schedule");
    m.fp((order, n, salt));
    m.nontrivial();
    m.sample(|| format!("typed bases of order {order} on {l:?}"));
    macro_rules! share {
        ($make:expr) => {{
            let make = || $make;
            let want: Vec<Ans> = xs.iter().map(|x| ans_f(make().project(&x[..]))).collect();
            let b = make();
            let mut fa = LFA::scalar(make(), lfa::optim::SGD(0.1));
            let _ = fa.update(&xs[0][..], 1.0);
            let wv: Vec<Ans> = xs.iter().map(|x| ans_v(fa.evaluate(&x[..]).map(|v| vec![v]))).collect();
            let mut wrong = None;
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..3)
                    .map(|w| {
                        let (b, xs, want, fa, wv) = (&b, &xs, &want, &fa, &wv);
                        s.spawn(move || {
                            for r in 0..6 {
                                let k = (r * (w + 1) + w) % xs.len();
                                let got = ans_f(b.project(&xs[k][..]));
                                if !same(&got, &want[k]) {
                                    return Some(format!("{got:?} instead of {:?}", want[k]));
                                }
                                let got = ans_v(fa.evaluate(&xs[k][..]).map(|v| vec![v]));
                                if !same(&got, &wv[k]) {
                                    return Some(format!("{got:?} instead of {:?}", wv[k]));
                                }
                            }
                            None
                        })
                    })
                    .collect();
                for h in hs {
                    wrong = wrong.take().or(h.join().unwrap_or(Some("panicked".into())));
                }
            });
            m.evn("concurrent query", 36);
            m.ok(wrong.is_none(), "C19/impure-threads", || format!("{}: {}", stringify!($make), wrong.unwrap()))?;
        }};
    }
    share!(Fourier::new(order, l.clone()).with_bias());
    share!(Polynomial::new(d, order).with_zeroth());
    share!(Chebyshev::new(order, l.clone()).with_zeroth());
    share!(KernelBasis::homogeneous(cs.clone(), ks.build()));
    share!(TileCoding::new(Fold { salt }, 5, 64));
    share!(UniformGrid::new(spaces::ProductSpace::new(
        parts.iter().map(|&(a, b, k)| spaces::Equipartition::new(a, b, k)).collect()
    )));
    share!(Fixed::sparse(4, vec![1, 3]).stack(Bias(2.0)).normalise_l2());
    share!(Fourier::new(order, l.clone()).normalise_l1().stack(Fixed::dense(vec![1.0, 2.0]).normalise_linf()).normalise_l0());
    Ok(())
}
