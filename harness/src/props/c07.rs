//! C07: single-feature queries agree with the full projection.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use lfa::basis::*;
use lfa::{Error, Features};
use spaces::{Equipartition, ProductSpace, Space};

pub fn property() -> Property {
    Property {
        id: "C07",
        rule: "a case is a composition of enumerable bases with inputs, ith compared with the projection at every index and \
               refused past the end; non-trivial when the dimension is positive, distinct by composition and inputs",
        required: &[
            "bias", "fixed-dense", "fixed-sparse", "fourier", "polynomial", "chebyshev", "kernel-basis", "uniform-grid",
            "tile-coding", "closure", "stack", "norm-l0", "norm-l1", "norm-l2", "norm-linf", "inactive sparse entry",
            "out of range", "failing projection", "edited table", "huge dimension", "index 2^32 away", "thousands of features", "entries of any size",
        ],
        scenarios: vec![
            scn!("leaves", 6000, 80_000, 4, leaves),
            scn!("compositions", 8000, 120_000, 3, compositions),
            scn!("typed", 1500, 15_000, 1, typed),
            scn!("huge", 4000, 60_000, 2, huge),
            scn!("wide", 120, 2500, 0, wide),
            scn!("graded", 2000, 30_000, 2, graded),
            scn!("failing", 1500, 20_000, 1, failing),
        ],
    }
}

fn check(m: &mut M, sp: &Spec, d: usize) -> R {
    m.fp(format!("{sp:?}"));
    let mut ks = vec![];
    sp.kinds(&mut ks);
    for k in ks {
        m.ev(k);
    }
    let b = sp.build();
    let dim = b.n();
    if dim > 0 {
        m.nontrivial();
    }
    m.sample(|| format!("{sp:?}"));
    for _ in 0..2 {
        let x = input(&mut m.rng, d);
        m.fpf(&x);
        if matches!(sp.want(&x), Want::Skip | Want::Err(_)) {
            m.skip();
            continue;
        }
        let f = b.project(&x[..]).unwrap();
        let v = raw(&f);
        let mut ix: Vec<usize> = (0..dim).collect();
        m.rng.shuffle(&mut ix);
        ix.truncate(400);
        for i in ix {
            if f.is_sparse() && f.get(i).is_none() {
                m.ev("inactive sparse entry");
            }
            let got = b.ith(&x[..], i);
            match got {
                Ok(y) => m.ok(y == v[i] || (y - v[i]).abs() <= 1e-11 * v[i].abs() + 1e-12 * v[i].abs().min(1.0) + 1e-290 + slack(sp, v[i]), "C07/ith", || {
                    format!("ith({i}) = {y:e}, projection has {:e}: {sp:?} at {x:?}", v[i])
                })?,
                Err(e) => return m.fail("C07/refused", format!("ith({i}) of {dim} failed: {e:?}: {sp:?} at {x:?}")),
            }
        }
        let wrap = m.rng.below(dim.max(1)).wrapping_add(1 << *m.rng.pick(&[8, 15, 16, 24, 31, 32, 48, 63]));
        for i in [dim, dim + 1, dim + m.rng.range(2, 5000), wrap.max(dim), usize::MAX / 2, usize::MAX] {
            m.ev("out of range");
            match m.caught(|| b.ith(&x[..], i)) {
                Ok(Err(e)) => m.ok(refused(&e, i, dim), "C07/error", || {
                    format!("ith({i}) with dimension {dim} was refused as {e:?}: {sp:?}")
                })?,
                Ok(Ok(y)) => return m.fail("C07/past-end", format!("ith({i}) = {y} with dimension {dim}: {sp:?} at {x:?}")),
                Err(p) => return m.fail("C07/panic", format!("ith({i}) with dimension {dim} panicked: {}: {sp:?}", p.msg)),
            }
        }
    }
    Ok(())
}

/// Entries that are differences of much larger numbers may differ in the last
/// digits between two ways of computing them.
fn slack(sp: &Spec, _v: f64) -> f64 {
    let mut ks = vec![];
    sp.kinds(&mut ks);
    if ks.contains(&"chebyshev") {
        1e-9
    } else if ks.contains(&"fourier") || ks.contains(&"kernel-basis") || ks.contains(&"kernel-basis-mixed") {
        1e-10
    } else {
        0.0
    }
}

fn leaves(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let l = leaf(&mut m.rng, d, &Opt::new().max_dim(300));
    let sp = if m.rng.chance(0.4) {
        let p = *m.rng.pick(&[0u8, 1, 2, 9]);
        Spec::Norm(p, Box::new(l), m.rng.below(2) as u8)
    } else {
        l
    };
    check(m, &sp, d)
}

/// Normalised entries of any size.
fn graded(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let n = m.rng.range(1, 20);
    let p = *m.rng.pick(&[0u8, 1, 2, 9]);
    let (lo, hi) = *m.rng.pick(&[(-9.0, 0.0), (-20.0, 20.0), (-120.0, 120.0)]);
    let v = (0..n).map(|_| if m.rng.chance(0.2) { 0.0 } else { sign(&mut m.rng) * logu(&mut m.rng, lo, hi) }).collect();
    m.ev("entries of any size");
    let mut sp = Spec::Norm(p, Box::new(Spec::FixedDense(v)), m.rng.below(2) as u8);
    if m.rng.chance(0.3) {
        sp = Spec::Stack(Box::new(sp), Box::new(Spec::Bias(1.0)), m.rng.below(2) as u8);
    }
    check(m, &sp, d)
}

/// Thousands of features, normalised and stacked.
fn wide(m: &mut M) -> R {
    let d = m.rng.range(1, 2);
    let part = |m: &mut M| match m.rng.below(6) {
        5 => {
            // values of their own
            let n = m.rng.range(500, 12_000);
            return Spec::Norm(*m.rng.pick(&[0u8, 1, 2, 9]), Box::new(Spec::Closure(CSpec { n, sparse: m.rng.chance(0.7), salt: m.rng.u64(), fallible: false })), 0);
        }
        0 => {
            let n = m.rng.range(500, 5000);
            let c = *m.rng.pick(&[Cls::Int, Cls::Uniform, Cls::Mid]);
            Spec::FixedDense(vals_of(&mut m.rng, n, c))
        }
        1 => {
            let n = m.rng.range(500, 5000);
            Spec::FixedSparse(n, (0..m.rng.range(0, 2 * n)).map(|_| m.rng.below(n)).collect())
        }
        2 => Spec::Fourier { order: if d == 1 { 255 } else { 40 }, limits: limits(&mut m.rng, d), from_space: false },
        3 => {
            let n = m.rng.range(300, 2000);
            Spec::Kernel { k: KSpec::gen(&mut m.rng, d), centroids: (0..n).map(|_| (0..d).map(|_| m.rng.uniform(-2.0, 2.0)).collect()).collect() }
        }
        _ => Spec::Tile { tilings: m.rng.range(100, 600), mem: m.rng.range(500, 5000), salt: m.rng.u64() },
    };
    let mut sp = part(m);
    if m.rng.chance(0.3) {
        sp = Spec::Stack(Box::new(sp), Box::new(part(m)), m.rng.below(2) as u8);
    }
    if m.rng.chance(0.8) {
        sp = Spec::Norm(*m.rng.pick(&[0u8, 1, 2, 9]), Box::new(sp), m.rng.below(2) as u8);
    }
    m.ev("thousands of features");
    check(m, &sp, d)
}

/// Where the projection fails, so does every query of one of its features.
fn failing(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let n = m.rng.range(1, 9);
    let c = CSpec { n, sparse: m.rng.chance(0.5), salt: m.rng.u64(), fallible: true };
    let mut sp = Spec::Closure(c);
    for _ in 0..m.rng.below(3) {
        sp = Spec::Norm(*m.rng.pick(&[0u8, 1, 2, 9]), Box::new(sp), m.rng.below(2) as u8);
    }
    let b = sp.build();
    let mut x = input(&mut m.rng, d);
    x[0] = FAIL_AT + m.rng.uniform(0.0, 10.0);
    m.fp(format!("{sp:?}"));
    m.fpf(&x);
    m.nontrivial();
    m.ev("failing projection");
    m.sample(|| format!("{sp:?} failing at {x:?}"));
    let want = match b.project(&x[..]) {
        Err(e) => e,
        Ok(f) => return m.fail("C07/failure", format!("{} where the basis fails: {sp:?} at {x:?}", repr(&f))),
    };
    for i in 0..n {
        let y = m.caught(|| b.ith(&x[..], i));
        m.ok(matches!(&y, Ok(Err(e)) if *e == want), "C07/failure", || {
            format!("ith({i}) of {n} = {:?} where the projection fails with {want:?}: {sp:?} at {x:?}", y.as_ref().ok())
        })?;
    }
    Ok(())
}

fn compositions(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let depth = m.rng.range(1, 4);
    let sp = spec(&mut m.rng, d, &Opt::new().depth(depth).max_dim(120));
    check(m, &sp, d)
}

fn typed(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let l = limits(&mut m.rng, d);
    let x = input(&mut m.rng, d);
    let ord = m.rng.range(0, 3) as u8;
    m.fp(format!("{l:?} {ord}"));
    m.fpf(&x);
    m.nontrivial();
    let n_act = m.rng.below(4);
    let act: Vec<usize> = (0..n_act).map(|_| m.rng.below(9)).collect();
    let grid = UniformGrid::new(ProductSpace::new(
        l.iter().map(|a| Equipartition::new(a.0, a.1, m.rng.range(1, 4))).collect(),
    ));
    m.sample(|| format!("order {ord} limits {l:?} fixed {act:?} at {x:?}"));
    macro_rules! one {
        ($b:expr) => {{
            let b = $b;
            let dim: usize = b.dim().into();
            let v = raw(&b.project(&x).unwrap());
            for i in 0..dim {
                let y = b.ith(&x, i);
                m.ok(matches!(&y, Ok(y) if (y - v[i]).abs() <= 1e-9 * (1.0 + v[i].abs())), "C07/ith", || {
                    format!("{} at {x:?}: ith({i}) = {y:?}, projection has {:e}", stringify!($b), v[i])
                })?;
            }
            for i in [dim, dim + 3, usize::MAX] {
                let y = b.ith(&x, i);
                m.ok(matches!(&y, Err(e) if refused(e, i, dim)), "C07/past-end", || format!("{}: ith({i}) = {y:?}, dim {dim}", stringify!($b)))?;
                m.ev("out of range");
            }
        }};
    }
    one!(Fourier::new(ord, l.clone()));
    one!(Polynomial::new(d, ord));
    one!(Polynomial::new(d, ord).with_zeroth());
    one!(Chebyshev::new(ord, l.clone()));
    one!(Chebyshev::new(ord, l.clone()).with_zeroth());
    one!(grid.clone());
    one!(TileCoding::new(Fold { salt: 9 }, 3, 40));
    one!(Fixed::sparse(9, act.clone()));
    one!(Fixed::dense(vec![1.5, 0.0, -2.0]));
    one!(Bias(0.25));
    one!(Fixed::sparse(9, act.clone()).stack(grid.clone()));
    one!(grid.clone().stack(Fixed::sparse(9, act.clone())).normalise_l1());
    one!(grid.clone().stack(Fourier::new(ord, l.clone())).with_bias().normalise_l2());
    one!(grid.clone().normalise_l0().stack(grid.clone()).normalise_linf());
    // the refusal is the documented error
    let e = grid.ith(&x, 1_000_000).unwrap_err();
    let dim: usize = grid.dim().into();
    m.ok(refused(&e, 1_000_000, dim), "C07/error", || format!("{e:?} for dim {dim}"))
}

/// A sparse basis of very many features, of which few are active.
fn sparse_leaf(m: &mut M, d: usize) -> Spec {
    match m.rng.below(3) {
        0 => {
            let per = (52 / d).min(31) as u32;
            Spec::Grid(
                (0..d)
                    .map(|_| {
                        let n = (1usize << m.rng.range(1, per as usize)) + m.rng.below(3);
                        (-1.0 - m.rng.unit(), 1.0 + m.rng.unit(), n)
                    })
                    .collect(),
            )
        }
        1 => Spec::Tile {
            tilings: m.rng.range(1, 9),
            mem: (1usize << m.rng.range(8, 60)) + m.rng.below(3),
            salt: m.rng.u64(),
        },
        _ => {
            let n = (1usize << m.rng.range(8, 60)) + m.rng.below(3);
            let k = m.rng.range(1, 5);
            Spec::FixedSparse(n, (0..k).map(|_| (m.rng.u64() % n as u64) as usize).collect())
        }
    }
}

/// Dimensions far beyond what could be enumerated: at the active features,
/// and at indices that differ from them by powers of two.
fn huge(m: &mut M) -> R {
    let d = m.rng.range(1, 4);
    let mut sp = sparse_leaf(m, d);
    for _ in 0..m.rng.below(3) {
        sp = match m.rng.below(3) {
            0 => Spec::Stack(Box::new(sp), Box::new(sparse_leaf(m, d)), m.rng.below(2) as u8),
            1 => Spec::Stack(Box::new(sparse_leaf(m, d)), Box::new(sp), m.rng.below(2) as u8),
            _ => Spec::Norm(*m.rng.pick(&[0u8, 1, 2, 9]), Box::new(sp), m.rng.below(2) as u8),
        };
    }
    m.fp(format!("{sp:?}"));
    m.sample(|| format!("{sp:?}"));
    m.nontrivial();
    let b = sp.build();
    let dim = b.n();
    if dim > u32::MAX as usize {
        m.ev("huge dimension");
    }
    m.ok(dim == sp.dim(), "C07/dimension", || format!("{dim}: {sp:?}"))?;
    for _ in 0..2 {
        let x: Vec<f64> = (0..d).map(|_| m.rng.uniform(-1.5, 1.5)).collect();
        m.fpf(&x);
        let f = b.project(&x[..]).unwrap();
        let act: Vec<(usize, f64)> = match &f {
            Features::Sparse(s) => s.activations.iter().map(|(i, v)| (*i, *v)).collect(),
            Features::Dense(_) => return m.fail("C07/dense", format!("{} dense entries: {sp:?}", f.n_features())),
        };
        let mut ix: Vec<usize> = vec![0, 1, dim - 1];
        for (i, _) in &act {
            ix.push(*i);
            for _ in 0..6 {
                let step = 1usize << m.rng.below(62);
                ix.push(i.wrapping_add(step));
                ix.push(i.wrapping_sub(step));
            }
            for k in [8, 16, 31, 32, 33] {
                ix.push(i.wrapping_add(1 << k));
                ix.push(i.wrapping_sub(1 << k));
            }
        }
        ix.push((m.rng.u64() % dim as u64) as usize);
        for i in ix {
            if i >= dim {
                continue;
            }
            if dim > u32::MAX as usize {
                m.ev("index 2^32 away");
            }
            let want = act.iter().find(|a| a.0 == i).map_or(0.0, |a| a.1);
            let got = b.ith(&x[..], i);
            m.ok(matches!(&got, Ok(y) if (y - want).abs() <= 1e-11 * want.abs()), "C07/ith", || {
                format!("ith({i}) = {got:?}, the projection has {want:e} (active {act:?} of {dim}): {sp:?} at {x:?}")
            })?;
        }
        for i in [dim, dim + 1, dim + (1 << 32), usize::MAX] {
            m.ev("out of range");
            let got = m.caught(|| b.ith(&x[..], i));
            m.ok(matches!(&got, Ok(Err(e)) if refused(e, i, dim)), "C07/past-end", || {
                format!("ith({i}) with dimension {dim}: {:?}: {sp:?}", got.as_ref().map_err(|p| p.msg.clone()))
            })?;
        }
    }
    Ok(())
}

/// The index error of that index and dimension, and its text names both.
fn refused(e: &Error, i: usize, dim: usize) -> bool {
    let text = e.to_string();
    let named: Vec<&str> = text.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).collect();
    *e == Error::index_error(i, dim) && named == [i.to_string(), dim.to_string()]
}
