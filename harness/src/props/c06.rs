//! C06: every basis yields exactly the features it advertises.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use crate::opts::*;
use lfa::basis::*;
use lfa::optim::SGD;
use lfa::{Features, LFA};
use spaces::{real::Interval, Equipartition, ProductSpace, Space};

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "a case is a random composition of bases with several inputs: advertised dimension vs length, index range and \
               finiteness of the projections, and an approximator built on it; non-trivial when the dimension is positive, \
               distinct by composition and inputs",
        required: &[
            "bias", "fixed-dense", "fixed-sparse", "fourier", "polynomial", "chebyshev", "kernel-basis", "uniform-grid",
            "tile-coding", "closure", "stack", "norm-l0", "norm-l1", "norm-l2", "norm-linf", "scalar approximator",
            "vector approximator", "closure passthrough ok", "closure passthrough err", "partitioned kernels",
            "high order", "many dimensions", "large grid", "hash at the end of a range",
        ],
        scenarios: vec![
            scn!("compositions", 8000, 120_000, 4, compositions),
            scn!("closure", 4000, 50_000, 6, closure),
            scn!("extreme", 4000, 60_000, 2, extreme),
            scn!("orders", 1500, 20_000, 1, orders),
            scn!("hashed", 2000, 30_000, 2, hashed),
            scn!("grids", 600, 10_000, 0, grids),
            scn!("typed", 1000, 10_000, 1, typed),
        ],
    }
}

fn check_features(m: &mut M, f: &Features, dim: usize, ctx: &dyn Fn() -> String) -> R {
    m.ok(f.n_features() == dim, "C06/length", || format!("{} features, dim {dim}: {}", f.n_features(), ctx()))?;
    match f {
        Features::Dense(a) => {
            m.ok(a.len() == dim, "C06/length", || format!("{} activations, dim {dim}: {}", a.len(), ctx()))?;
            let bad = a.iter().position(|x| !x.is_finite());
            m.ok(bad.is_none(), "C06/finite", || format!("feature {bad:?} of {}: {}", repr(f), ctx()))
        }
        Features::Sparse(s) => {
            let out = s.activations.keys().find(|i| **i >= dim);
            m.ok(out.is_none(), "C06/range", || format!("active index {out:?}, dim {dim}: {}", ctx()))?;
            let bad = s.activations.iter().find(|p| !p.1.is_finite());
            m.ok(bad.is_none(), "C06/finite", || format!("{bad:?}: {}", ctx()))
        }
    }
}

fn compositions(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let depth = m.rng.below(4);
    let sp = spec(&mut m.rng, d, &Opt::new().depth(depth));
    m.fp(format!("{sp:?}"));
    let mut ks = vec![];
    sp.kinds(&mut ks);
    for k in ks {
        m.ev(k);
    }
    let b = sp.build();
    let dim: usize = b.dim().into();
    if dim > 0 {
        m.nontrivial();
    }
    m.sample(|| format!("{sp:?}"));
    m.ok(dim == sp.dim(), "C06/dim", || format!("advertises {dim}, expected {}: {sp:?}", sp.dim()))?;
    let nf = b.0.d_nf();
    m.ok(nf == dim, "C06/n_features", || format!("n_features {nf}, dim {dim}: {sp:?}"))?;
    let nf = Basis::<&[f64]>::n_features(&b);
    m.ok(nf == dim, "C06/n_features", || format!("n_features {nf}, dim {dim}: {sp:?}"))?;
    let n_out = m.rng.below(4);
    let os = OptSpec::gen(&mut m.rng);
    let mut s = LFA::scalar(b.clone(), os.build(dim));
    let mut v = LFA::vector(b.clone(), os.build(dim), n_out);
    m.ev("scalar approximator");
    m.ev("vector approximator");
    m.ok(s.weights.len() == dim && s.weights.iter().all(|w| *w == 0.0), "C06/weights", || {
        format!("scalar weights {} for dim {dim}: {sp:?}", s.weights.len())
    })?;
    m.ok(v.weights.dim() == (dim, n_out) && v.weights.iter().all(|w| *w == 0.0), "C06/weights", || {
        format!("vector weights {:?} for dim {dim} outputs {n_out}: {sp:?}", v.weights.dim())
    })?;
    m.ok(v.n_outputs() == n_out, "C06/weights", || format!("n_outputs {} of {n_out}", v.n_outputs()))?;
    for _ in 0..3 {
        let x = input(&mut m.rng, d);
        let (want, es) = match sp.want(&x) {
            Want::Vals { v, e } => (v, e),
            _ => {
                m.skip();
                continue;
            }
        };
        m.fpf(&x);
        let ctx = || format!("{sp:?} at {x:?}");
        let f = match b.project(&x[..]) {
            Ok(f) => f,
            Err(e) => return m.fail("C06/failed", format!("{e:?}: {}", ctx())),
        };
        check_features(m, &f, dim, &ctx)?;
        m.close_vec(&raw(&f), &want, |i| es[i], "C06/values", ctx)?;
        m.ev("projection");
        let y = s.evaluate(&x[..]);
        m.ok(matches!(y, Ok(y) if y.is_finite()), "C06/evaluate", || format!("{y:?}: {}", ctx()))?;
        let u = s.update(&x[..], 0.5);
        m.ok(u.is_ok() && s.weights.len() == dim, "C06/learn", || format!("{u:?}: {}", ctx()))?;
        let y = v.evaluate(&x[..]);
        m.ok(matches!(&y, Ok(y) if y.len() == n_out && y.iter().all(|y| y.is_finite())), "C06/evaluate", || {
            format!("{y:?} for {n_out} outputs: {}", ctx())
        })?;
        let u = v.update(&x[..], vec![0.25; n_out]);
        m.ok(u.is_ok() && v.weights.dim() == (dim, n_out), "C06/learn", || format!("{u:?}: {}", ctx()))?;
        m.ok(s.weights.iter().chain(v.weights.iter()).all(|w| w.is_finite()), "C06/learn", || {
            format!("non-finite weights after one step of {}: {}", os.name(), ctx())
        })?;
    }
    Ok(())
}

/// A closure basis returns its closure's result unchanged.
fn closure(m: &mut M) -> R {
    let n = m.rng.below(8);
    // the closure may well return something other than it declares
    let k = if m.rng.chance(0.7) { n } else { m.rng.below(8) };
    let v = vals(&mut m.rng, k);
    let f = feats(&mut m.rng, &v);
    let fail = m.rng.chance(0.3);
    let code = m.rng.below(1000);
    m.fpf(&v);
    m.fp((n, fail, code));
    if k > 0 {
        m.nontrivial();
    }
    m.sample(|| format!("Closure({n}) returning {} fail {fail}", repr(&f)));
    let g = f.clone();
    let b = Closure::new(n, move |x: f64| {
        if fail {
            Err(foreign(code + 1001 * x as usize))
        } else {
            Ok(g.clone())
        }
    });
    let dim: usize = b.dim().into();
    m.ok(dim == n, "C06/dim", || format!("closure declared {n}, advertises {dim}"))?;
    m.ok(Basis::<f64>::n_features(&b) == n, "C06/n_features", || format!("closure declared {n}"))?;
    match b.project(3.0) {
        Ok(h) => {
            m.ev("closure passthrough ok");
            m.ok(!fail, "C06/closure", || "failure turned into success".into())?;
            m.ok(h.is_dense() == f.is_dense() && h.n_features() == f.n_features() && raw(&h) == raw(&f), "C06/closure", || {
                format!("closure returned {}, basis {}", repr(&f), repr(&h))
            })
        }
        Err(e) => {
            m.ev("closure passthrough err");
            m.ok(fail && e == foreign(code + 3003), "C06/closure", || format!("{e:?} (fail {fail})"))
        }
    }
}

/// Inputs far outside the bounds, on bases where they are meaningful.
fn extreme(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let mut leaves: Vec<Spec> = vec![];
    for _ in 0..m.rng.range(1, 3) {
        let s = leaf(&mut m.rng, d, &Opt::new());
        match s {
            Spec::Poly { .. } | Spec::Cheby { .. } | Spec::Table { .. } => {}
            s => leaves.push(s),
        }
    }
    let mut sp = match leaves.pop() {
        Some(s) => s,
        None => return Ok(()),
    };
    for l in leaves {
        sp = Spec::Stack(Box::new(sp), Box::new(l), 0);
    }
    let norm = m.rng.chance(0.3);
    m.fp(format!("{sp:?}"));
    let b = sp.build();
    let dim = b.n();
    if dim > 0 {
        m.nontrivial();
    }
    for _ in 0..3 {
        let x: Vec<f64> = (0..d)
            .map(|_| match m.rng.below(4) {
                0 => sign(&mut m.rng) * logu(&mut m.rng, 3.0, 13.0),
                1 => sign(&mut m.rng) * logu(&mut m.rng, -300.0, -10.0),
                2 => 0.0,
                _ => m.rng.uniform(-1e6, 1e6),
            })
            .collect();
        m.fpf(&x);
        m.ev("extreme input");
        let ctx = || format!("{sp:?} at {x:?}");
        m.sample(|| ctx());
        let f = match b.project(&x[..]) {
            Ok(f) => f,
            Err(e) => return m.fail("C06/failed", format!("{e:?}: {}", ctx())),
        };
        check_features(m, &f, dim, &ctx)?;
        let mx = raw(&f).iter().fold(0.0f64, |a, b| a.max(b.abs()));
        if norm && mx >= 1e-6 && mx <= 1e6 {
            let nb = b.clone().normalise_linf().normalise_l2().normalise_l1();
            let f = nb.project(&x[..]).unwrap();
            check_features(m, &f, dim, &ctx)?;
        }
    }
    Ok(())
}

/// The largest orders and dimensions the constructors accept.
fn orders(m: &mut M) -> R {
    let (o, d) = if m.small {
        (m.rng.range(0, 5), m.rng.range(1, 2))
    } else {
        match m.rng.below(4) {
            0 => (*m.rng.pick(&[12usize, 15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 129, 200, 253, 254, 255]), 1),
            1 => (m.rng.range(0, 255), 1),
            2 => (m.rng.range(8, 30), 2),
            _ => (1, m.rng.range(5, 9)),
        }
    };
    if d == 1 && o > 100 {
        m.ev("high order");
    }
    if d > 5 {
        m.ev("many dimensions");
    }
    let n = (o + 1).pow(d as u32) - 1;
    let l = limits(&mut m.rng, d);
    let x: Vec<f64> = (0..d).map(|_| m.rng.uniform(-1.0, 1.0)).collect();
    let y: Vec<f64> = l.iter().map(|l| l.0 + (l.1 - l.0) * m.rng.uniform(-0.2, 1.2)).collect();
    m.fp((o, d));
    m.fpf(&x);
    if n > 0 {
        m.nontrivial();
    }
    m.ev("projection");
    m.sample(|| format!("order {o} in {d} dimensions at {x:?}"));
    let one = |m: &mut M, what: &str, dim: usize, n: usize, f: lfa::Result<Features>| -> R {
        let ctx = || format!("{what} of order {o} in {d} dimensions at {x:?}");
        m.ok(dim == n, "C06/dim", || format!("advertises {dim}, expected {n}: {}", ctx()))?;
        match f {
            Ok(f) => check_features(m, &f, n, &ctx),
            Err(e) => m.fail("C06/failed", format!("{e:?}: {}", ctx())),
        }
    };
    match m.rng.below(4) {
        0 => {
            let b = Fourier::new(o as u8, l);
            one(m, "fourier", b.dim().into(), n, b.project(&y))
        }
        1 => {
            let b = Polynomial::new(d, o as u8);
            one(m, "polynomial", b.dim().into(), n, b.project(&x))
        }
        2 => {
            let b = Polynomial::new(d, o as u8).with_zeroth();
            one(m, "polynomial with zeroth", b.dim().into(), n + 1, b.project(&x))
        }
        _ => {
            let o = o % 12;
            let n = (o + 1).pow(d as u32) - 1;
            let b = Chebyshev::new(o as u8, l);
            one(m, "chebyshev", b.dim().into(), n, b.project(&y))
        }
    }
}

/// Grids and other sparse bases of very many features.
fn grids(m: &mut M) -> R {
    let d = m.rng.range(1, 5);
    let top = *m.rng.pick(&[4096.0f64, 20_000.0, 70_000.0, 1e6]);
    let per = top.powf(1.0 / d as f64);
    let parts: Vec<(f64, f64, usize)> =
        limits(&mut m.rng, d).into_iter().map(|l| (l.0, l.1, (per * m.rng.uniform(0.7, 1.4)).ceil() as usize)).collect();
    let n: usize = parts.iter().map(|p| p.2).product();
    m.ev("large grid");
    m.nontrivial();
    m.fp(format!("{parts:?}"));
    let g = Spec::Grid(parts.clone());
    let (sp, extra) = match m.rng.below(4) {
        0 => (Spec::Norm(*m.rng.pick(&[0u8, 1, 2, 9]), Box::new(g), 0), 0),
        1 => (Spec::Stack(Box::new(g), Box::new(Spec::Bias(1.0)), 0), 1),
        2 => {
            let k = m.rng.range(1, 70_000);
            (Spec::Stack(Box::new(Spec::Tile { tilings: m.rng.range(1, 20), mem: k, salt: m.rng.u64() }), Box::new(g), 1), k)
        }
        _ => (g, 0),
    };
    let b = sp.build();
    let dim = b.n();
    m.sample(|| format!("{sp:?}"));
    m.ok(dim == n + extra, "C06/dim", || format!("advertises {dim}, expected {}: {sp:?}", n + extra))?;
    let mut s = LFA::scalar(b.clone(), SGD(0.5));
    m.ok(s.weights.len() == dim, "C06/weights", || format!("{} weights for dimension {dim}: {sp:?}", s.weights.len()))?;
    for _ in 0..6 {
        let x: Vec<f64> = parts
            .iter()
            .map(|p| match m.rng.below(7) {
                0 => p.0,
                1 => p.1,
                2 => p.1 + logu(&mut m.rng, -3.0, 6.0),
                3 => p.0 - logu(&mut m.rng, -3.0, 6.0),
                _ => m.rng.uniform(p.0, p.1),
            })
            .collect();
        m.fpf(&x);
        let ctx = || format!("{sp:?} at {x:?}");
        let f = match b.project(&x[..]) {
            Ok(f) => f,
            Err(e) => return m.fail("C06/failed", format!("{e:?}: {}", ctx())),
        };
        check_features(m, &f, dim, &ctx)?;
        let u = s.update(&x[..], 1.0);
        m.ok(u.is_ok() && s.weights.len() == dim, "C06/learn", || format!("{u:?}: {}", ctx()))?;
        let y = s.evaluate(&x[..]);
        m.ok(matches!(y, Ok(y) if y.is_finite()), "C06/evaluate", || format!("{y:?}: {}", ctx()))?;
    }
    Ok(())
}

/// Tile codings of any memory size under hashers that return whatever they like.
fn hashed(m: &mut M) -> R {
    let n = m.rng.range(1, 20);
    let mem = match m.rng.below(3) {
        0 => m.rng.range(1, 5000),
        1 => (1usize << m.rng.range(8, 62)) + m.rng.below(3) - 1,
        _ => *m.rng.pick(&[10_000, 100_000, 1_000_000, 1_048_577, 10_000_000, u32::MAX as usize, usize::MAX / 2]),
    };
    let k = 1 + m.rng.u64() % 4;
    let mm = mem as u64;
    let ends = [0, mm - 1, mm, mm + 1, mm.wrapping_mul(k), mm.wrapping_mul(k).wrapping_sub(1), u64::MAX, u64::MAX - k, 1 << 63, m.rng.u64()];
    let x: Vec<f64> = (0..m.rng.range(1, 4)).map(|_| m.rng.uniform(-3.0, 3.0)).collect();
    m.fp((n, mem));
    m.fpf(&x);
    m.nontrivial();
    m.ev("hash at the end of a range");
    m.sample(|| format!("{n} tilings, memory {mem}, at {x:?}"));
    for v in ends {
        let b = TileCoding::new(super::c11::Always(v), n, mem);
        let dim: usize = b.dim().into();
        let ctx = || format!("{n} tilings, memory {mem}, every hash {v}");
        m.ok(dim == mem, "C06/dim", || format!("advertises {dim}, expected {mem}: {}", ctx()))?;
        let nf = Basis::<&Vec<f64>>::n_features(&b);
        m.ok(nf == mem, "C06/n_features", || format!("n_features {nf}, dim {dim}: {}", ctx()))?;
        check_features(m, &b.project(&x).unwrap(), mem, &ctx)?;
    }
    let b = TileCoding::new(Fold { salt: m.rng.u64() }, n, mem);
    check_features(m, &b.project(&x).unwrap(), mem, &|| format!("{n} tilings, memory {mem} at {x:?}"))
}

/// Statically typed bases, every accepted kind of input, partitioned kernels.
fn typed(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let l = limits(&mut m.rng, d);
    let parts: Vec<usize> = (0..d).map(|_| m.rng.range(1, 5)).collect();
    let space = || -> ProductSpace<Equipartition> {
        ProductSpace::new(l.iter().zip(&parts).map(|(a, k)| Equipartition::new(a.0, a.1, *k)).collect())
    };
    let prod: usize = parts.iter().product();
    m.fp(format!("{l:?} {parts:?}"));
    m.nontrivial();
    m.ev("partitioned kernels");
    m.sample(|| format!("limits {l:?} partitions {parts:?}"));
    let x = input(&mut m.rng, d);
    m.fpf(&x);
    let ord = m.rng.range(0, 3) as u8;
    let n = (ord as usize + 1).pow(d as u32) - 1;
    let ivs = || ProductSpace::new(l.iter().map(|a| Interval::bounded(a.0, a.1)).collect::<Vec<_>>());
    let ctx = || format!("limits {l:?} partitions {parts:?} order {ord} at {x:?}");
    macro_rules! one {
        ($b:expr, $n:expr) => {{
            let b = $b;
            let dim: usize = b.dim().into();
            m.ok(dim == $n, "C06/dim", || format!("advertises {dim}, expected {}: {} {}", $n, stringify!($b), ctx()))?;
            let f = b.project(&x).unwrap();
            check_features(m, &f, $n, &|| format!("{} {}", stringify!($b), ctx()))?;
            let fa = LFA::scalar(b.clone(), SGD(0.1));
            m.ok(fa.weights.len() == $n, "C06/weights", || format!("{} {}", stringify!($b), ctx()))?;
            let y = fa.evaluate(&x);
            m.ok(y == Ok(0.0), "C06/evaluate", || format!("{y:?} {} {}", stringify!($b), ctx()))?;
            let fa = LFA::vector(b, SGD(0.1), 2);
            m.ok(fa.weights.dim() == ($n, 2), "C06/weights", || format!("{} {}", stringify!($b), ctx()))?;
        }};
    }
    one!(Fourier::new(ord, l.clone()), n);
    one!(Fourier::from_space(ord, ivs()), n);
    one!(Polynomial::new(d, ord), n);
    one!(Polynomial::new(d, ord).with_zeroth(), n + 1);
    one!(Chebyshev::new(ord, l.clone()), n);
    one!(Chebyshev::from_space(ord, ivs()), n);
    one!(Chebyshev::new(ord, l.clone()).with_zeroth(), n + 1);
    one!(UniformGrid::new(space()), prod);
    one!(TileCoding::new(Fold { salt: 3 }, 4, 50), 50);
    one!(UniformGrid::new(space()).with_bias(), prod + 1);
    one!(UniformGrid::new(space()).stack(Polynomial::new(d, ord)).normalise_l2(), prod + n);
    // kernel bases take slices
    let kb = |dim: usize, f: lfa::Result<Features>, what: &str, m: &mut M| -> R {
        m.ok(dim == prod, "C06/dim", || format!("{what} advertises {dim}, expected {prod}: {}", ctx()))?;
        let f = f.unwrap();
        check_features(m, &f, prod, &|| format!("{what} {}", ctx()))
    };
    let xs: &[f64] = &x;
    let b = KernelBasis::exp_quad(space());
    kb(b.dim().into(), b.project(xs), "exp_quad", m)?;
    let b = KernelBasis::matern_32(space());
    kb(b.dim().into(), b.project(xs), "matern_32", m)?;
    let b = KernelBasis::matern_52(space());
    kb(b.dim().into(), b.project(xs), "matern_52", m)
}
