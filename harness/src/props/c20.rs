//! C20: bias, fixed and closure bases pass through exactly what they hold.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use crate::opts::active;
use lfa::basis::*;
use lfa::{Error, Features, LFA, optim::SGD};
use spaces::Space;
use std::cell::RefCell;

pub fn property() -> Property {
    Property {
        id: "C20",
        rule: "a case is a constant basis (bias, dense or sparse fixed) or a recording closure, alone or inside a composition, and \
               inputs of several types; its projection is compared bit by bit with what the basis was given and the recorded \
               calls with the inputs; non-trivial when it has a feature, distinct by constants, closure results and inputs",
        required: &[
            "bias", "fixed dense", "fixed sparse", "ith", "index error", "non-slice input", "special constant", "closure ok", "closure error",
            "closure sparse", "closure odd length", "borrowed input", "owned input", "approximator over closure", "with_bias",
            "composed closure", "many constants", "many active constants", "repeated constants", "huge dimension",
        ],
        scenarios: vec![
            scn!("constants", 20_000, 300_000, 6, constants),
            scn!("closures", 20_000, 300_000, 6, closures),
            scn!("composed", 10_000, 150_000, 4, composed),
            scn!("biased", 8000, 120_000, 3, biased),
            scn!("huge", 2000, 40_000, 3, huge),
        ],
    }
}

fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}

fn constant(m: &mut M) -> f64 {
    if m.rng.chance(0.1) {
        m.ev("special constant");
        *m.rng.pick(&[0.0, -0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, -1e-300, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
    } else {
        m.rng.uniform(-5.0, 5.0)
    }
}

/// Inputs of every shape reach a constant basis; none matters.
macro_rules! everywhere {
    ($m:expr, $b:expr, $want:expr, $ctx:expr) => {{
        let m: &mut M = $m;
        let (b, want): (_, &Vec<f64>) = (&$b, &$want);
        let k = m.rng.below(4);
        let x = input(&mut m.rng, k);
        m.fpf(&x);
        let fs = [
            b.project(&x[..]).unwrap(),
            b.project(x.clone()).unwrap(),
            b.project(&x).unwrap(),
            b.project(()).unwrap(),
            b.project(m.rng.uniform(-9.0, 9.0)).unwrap(),
            b.project("text").unwrap(),
            b.project([f64::NAN; 2]).unwrap(),
            b.project((1u8, Some(x.len()))).unwrap(),
        ];
        m.ev("non-slice input");
        for (i, f) in fs.iter().enumerate() {
            let got = raw(f);
            m.ok(same_bits(&got, want), "C20/constant", || {
                format!("input form {i} gives {} instead of {}: {}", show(&got), show(want), $ctx())
            })?;
        }
        let n = want.len();
        let (d, nf): (usize, usize) = (b.dim().into(), Basis::<()>::n_features(b));
        m.ok(d == n && nf == n, "C20/count", || format!("dim {d}, n_features {nf} instead of {n}: {}", $ctx()))?;
        for _ in 0..4 {
            let i = match m.rng.below(6) {
                0 => n + m.rng.below(3),
                1 => m.rng.below(n.max(1)) + (1usize << *m.rng.pick(&[8, 16, 31, 32, 48, 63])),
                _ => m.rng.below(n.max(1)),
            };
            let r = [b.ith((), i), b.ith(&x[..], i), b.ith("text", i)];
            for r in r {
                match r {
                    Ok(v) if i < n => {
                        m.ev("ith");
                        m.ok(same_bits(&[v], &want[i..=i]), "C20/ith", || format!("ith({i}) is {v:e}, constant {:e}: {}", want[i], $ctx()))?;
                    }
                    Err(_) if i >= n => {
                        m.ev("index error");
                        m.checked();
                    }
                    r => return m.fail("C20/ith", format!("ith({i}) of {n} returned {r:?}: {}", $ctx())),
                }
            }
        }
        fs
    }};
}

fn constants(m: &mut M) -> R {
    match m.rng.below(4) {
        0 => {
            let c = constant(m);
            m.ev("bias");
            m.fp("bias");
            m.fpf(&[c]);
            m.nontrivial();
            m.sample(|| format!("Bias({c:e})"));
            let ctx = || format!("Bias({c:e})");
            everywhere!(m, Bias(c), vec![c], ctx);
            everywhere!(m, Bias::unit(), vec![1.0], || "Bias::unit()".to_string());
            m.ok(Bias(c).0.to_bits() == c.to_bits(), "C20/constant", ctx)
        }
        1 => {
            let n = if !m.small && m.rng.chance(0.05) {
                m.ev("many constants");
                m.rng.range(200, 3000)
            } else {
                len(&mut m.rng, m.small)
            };
            let v: Vec<f64> = (0..n).map(|_| constant(m)).collect();
            m.ev("fixed dense");
            m.fpf(&v);
            if n > 0 {
                m.nontrivial();
            }
            m.sample(|| format!("Fixed::dense({})", show(&v)));
            let ctx = || format!("Fixed::dense({})", show(&v));
            let fs = everywhere!(m, Fixed::dense(v.iter().copied()), v, ctx);
            m.ok(fs.iter().all(|f| f.is_dense()), "C20/storage", ctx)?;
            everywhere!(m, Fixed(v.clone()), v, ctx);
            Ok(())
        }
        _ => {
            let n = if !m.small && m.rng.chance(0.05) {
                m.ev("many constants");
                m.rng.range(200, 100_000)
            } else {
                m.rng.range(1, 40)
            };
            let k = if n > 200 && m.rng.chance(0.5) {
                m.ev("many active constants");
                m.rng.range(200, n.min(9000))
            } else {
                m.rng.below(n.min(60) + 1)
            };
            let mut ix: Vec<usize> = (0..k).map(|_| m.rng.below(n)).collect();
            if m.rng.chance(0.3) {
                // more indices than features, most of them repeated
                m.ev("repeated constants");
                let c = m.rng.range(1, 3);
                let few: Vec<usize> = (0..c).map(|_| m.rng.below(n)).collect();
                let k = n.min(200) + m.rng.below(30);
                let at = m.rng.below(ix.len() + 1);
                ix.splice(at..at, (0..k).map(|i| few[i % few.len()]));
            }
            let k = ix.len();
            m.ev("fixed sparse");
            m.fp((n, &ix));
            if k > 0 {
                m.nontrivial();
            }
            m.sample(|| format!("Fixed::sparse({n}, {ix:?})"));
            let mut want = vec![0.0; n];
            ix.iter().for_each(|i| want[*i] = 1.0);
            let ctx = || format!("Fixed::sparse({n}, {ix:?})");
            let fs = if m.rng.chance(0.5) {
                everywhere!(m, Fixed::sparse(n, ix.clone()), want, ctx)
            } else {
                // an iterator that does not know its length
                let mut rest = ix.iter().copied();
                everywhere!(m, Fixed::sparse(n, std::iter::from_fn(|| rest.next())), want, ctx)
            };
            for f in &fs {
                let a = active(f);
                m.ok(!f.is_dense() && (0..n).all(|i| a[i] == (want[i] != 0.0)), "C20/storage", ctx)?;
            }
            Ok(())
        }
    }
}

/// What a closure answers for one call.
fn answer(m: &mut M, n: usize) -> lfa::Result<Features> {
    let len = if m.rng.chance(0.15) {
        m.ev("closure odd length");
        m.rng.below(n + 4)
    } else {
        n
    };
    let v: Vec<f64> = (0..len).map(|_| constant(m)).collect();
    match m.rng.below(4) {
        0 => {
            m.ev("closure error");
            Err(match m.rng.chance(0.5) {
                true => foreign(m.rng.below(1000)),
                false => Error::index_error(m.rng.below(1000), m.rng.below(1000)),
            })
        }
        1 => {
            m.ev("closure sparse");
            m.ev("closure ok");
            Ok(sparse_of(&mut m.rng, &v, true))
        }
        _ => {
            m.ev("closure ok");
            Ok(dense_of(&mut m.rng, &v))
        }
    }
}

fn same_answer(a: &lfa::Result<Features>, b: &lfa::Result<Features>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x.is_dense() == y.is_dense() && same_bits(&raw(x), &raw(y)) && active(x) == active(y),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

fn closures(m: &mut M) -> R {
    let n = m.rng.range(0, 9);
    let a = answer(m, n);
    m.fp(format!("{a:?}"));
    if n > 0 {
        m.nontrivial();
    }
    m.sample(|| format!("closure of {n} features answering {a:?}"));
    let (d, k) = (m.rng.below(4), m.rng.range(1, 3));
    // borrowed inputs
    let seen: RefCell<Vec<Vec<f64>>> = RefCell::new(vec![]);
    let b = Closure::new(n, |x: &[f64]| {
        seen.borrow_mut().push(x.to_vec());
        a.clone()
    });
    let dim: usize = b.dim().into();
    m.ok(dim == n, "C20/count", || format!("dim {dim} instead of {n}"))?;
    let mut want: Vec<Vec<f64>> = vec![];
    for _ in 0..k {
        let x = input(&mut m.rng, d);
        m.fpf(&x);
        let r = b.project(&x[..]);
        m.ev("borrowed input");
        m.ok(same_answer(&r, &a), "C20/closure", || format!("closure answered {a:?}, the basis {r:?} at {x:?}"))?;
        want.push(x);
    }
    m.ok(*seen.borrow() == want, "C20/calls", || format!("closure saw {:?} instead of {want:?}", seen.borrow()))?;
    // owned inputs of another type
    let calls = RefCell::new(vec![]);
    let b = Closure::new(n, |x: (u64, String)| {
        calls.borrow_mut().push(x);
        a.clone()
    });
    let mut want = vec![];
    for _ in 0..k {
        let x = (m.rng.u64(), format!("{}", m.rng.below(100)));
        let r = b.project(x.clone());
        m.ev("owned input");
        m.ok(same_answer(&r, &a), "C20/closure", || format!("closure answered {a:?}, the basis {r:?} at {x:?}"))?;
        want.push(x);
    }
    m.ok(*calls.borrow() == want, "C20/calls", || format!("closure saw {:?} instead of {want:?}", calls.borrow()))?;
    // an approximator hands its inputs to the closure untouched
    if let Ok(f) = &a {
        if f.n_features() == n && raw(f).iter().all(|x| x.abs() < 1e6) {
            m.ev("approximator over closure");
            let got = RefCell::new(vec![]);
            let mut fa = LFA::scalar(
                Closure::new(n, |x: &[f64]| {
                    got.borrow_mut().push(x.to_vec());
                    a.clone()
                }),
                SGD(0.5),
            );
            let x = input(&mut m.rng, d);
            fa.evaluate(&x[..]).unwrap();
            fa.update(&x[..], 1.0).unwrap();
            fa.update_with(&x[..], |_, _| -0.5).unwrap();
            let g = got.borrow();
            m.ok(g.len() >= 3 && g.iter().all(|y| *y == x), "C20/calls", || format!("closure saw {g:?} for three operations at {x:?}"))?;
        }
    }
    Ok(())
}

/// A closure inside stacks and normalisers sees the very input of the whole.
fn composed(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let (n1, n2) = (m.rng.range(1, 5), m.rng.range(1, 5));
    let v1: Vec<f64> = (0..n1).map(|_| m.rng.uniform(0.5, 3.0)).collect();
    let v2: Vec<f64> = (0..n2).map(|_| -m.rng.uniform(0.5, 3.0)).collect();
    let (f1, f2) = (feats(&mut m.rng, &v1), feats(&mut m.rng, &v2));
    let seen: RefCell<Vec<(u8, Vec<f64>)>> = RefCell::new(vec![]);
    let (g1, g2) = (f1.clone(), f2.clone());
    let c1 = Closure::new(n1, |x: &[f64]| {
        seen.borrow_mut().push((1, x.to_vec()));
        Ok(g1.clone())
    });
    let c2 = Closure::new(n2, |x: &[f64]| {
        seen.borrow_mut().push((2, x.to_vec()));
        Ok(g2.clone())
    });
    let x = input(&mut m.rng, d);
    let how = m.rng.below(5);
    m.ev("composed closure");
    m.fp((how, n1, n2));
    m.fpf(&v1);
    m.fpf(&v2);
    m.fpf(&x);
    m.nontrivial();
    m.sample(|| format!("composition {how} of closures answering {} and {} at {x:?}", show(&v1), show(&v2)));
    let ctx = || format!("composition {how} of closures answering {} and {} at {x:?}", repr(&f1), repr(&f2));
    let mut want: Vec<f64> = v1.clone();
    let got = match how {
        0 => {
            want.extend(&v2);
            c1.stack(c2).project(&x[..])
        }
        1 => {
            want.extend(&v2);
            want.push(1.0);
            c1.stack(c2).with_bias().project(&x[..])
        }
        2 => {
            let s: f64 = v1.iter().map(|v| v.abs()).sum();
            want.iter_mut().for_each(|v| *v /= s);
            want.extend(&v2);
            c1.normalise_l1().stack(c2).project(&x[..])
        }
        3 => {
            want.extend(&v2);
            let s = want.iter().fold(0.0f64, |a, v| a.max(v.abs()));
            want.iter_mut().for_each(|v| *v /= s);
            c1.stack(c2).normalise_linf().project(&x[..])
        }
        _ => {
            want = vec![1.0];
            want.extend(&v1);
            let s = want.iter().map(|v| v * v).sum::<f64>().sqrt();
            want.iter_mut().for_each(|v| *v /= s);
            want.extend(&v2);
            Bias::unit().stack(c1).normalise_l2().stack(c2).project(&x[..])
        }
    };
    let got = got.unwrap();
    m.close_vec(&raw(&got), &want, |i| 1e-12 * want[i].abs(), "C20/composed", ctx)?;
    let s = seen.borrow();
    m.ok(s.iter().any(|c| c.0 == 1) && s.iter().any(|c| c.0 == 2) && s.iter().all(|c| c.1 == x), "C20/calls", || format!("closures saw {s:?}: {}", ctx()))
}

/// `with_bias` appends a one and nothing else, to any basis and repeatedly.
fn biased(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let sp = spec(&mut m.rng, d, &Opt::new().depth(2).max_dim(if m.small { 6 } else { 80 }));
    let b = sp.build();
    let n = b.n();
    let x = input(&mut m.rng, d);
    m.ev("with_bias");
    m.fp(format!("{sp:?}"));
    m.fpf(&x);
    m.nontrivial();
    m.sample(|| format!("{sp:?} with bias at {x:?}"));
    let ctx = || format!("{sp:?} with bias at {x:?}");
    let f = match b.project(&x[..]) {
        Ok(f) => raw(&f),
        Err(_) => return Ok(m.skip()),
    };
    if f.iter().any(|v| v.is_nan()) {
        return Ok(m.skip());
    }
    let mut want = f.clone();
    want.push(1.0);
    let one = b.clone().with_bias();
    let dim: usize = one.dim().into();
    m.ok(dim == n + 1, "C20/count", || format!("{dim} features over {n}: {}", ctx()))?;
    let near = |i: usize| if f.get(i).is_some() { 1e-11 * f[i].abs() + 1e-290 } else { 0.0 };
    let got = raw(&one.project(&x[..]).unwrap());
    m.close_vec(&got, &want, near, "C20/with_bias", ctx)?;
    want.push(1.0);
    let two = one.with_bias();
    let dim: usize = two.dim().into();
    m.ok(dim == n + 2, "C20/count", || format!("{dim} features over {n}: {}", ctx()))?;
    let got = raw(&two.project(&x[..]).unwrap());
    m.close_vec(&got, &want, near, "C20/with_bias", ctx)?;
    let r = two.ith(&x[..], n).and_then(|a| two.ith(&x[..], n + 1).map(|b| (a, b)));
    m.ok(r == Ok((1.0, 1.0)), "C20/with_bias", || format!("bias features by index {r:?}: {}", ctx()))
}

/// Sparse constants far apart.
fn huge(m: &mut M) -> R {
    let dim = huge_dim(&mut m.rng);
    let ix: Vec<usize> = huge_entries(&mut m.rng, dim).into_keys().collect();
    m.fp((dim, &ix));
    m.nontrivial();
    m.ev("huge dimension");
    let ctx = || format!("Fixed::sparse({dim}, {ix:?})");
    m.sample(ctx);
    let b = Fixed::sparse(dim, ix.iter().copied());
    let d: usize = b.dim().into();
    let f = b.project("x").unwrap();
    m.ok(d == dim && f.n_features() == dim, "C20/count", || format!("{d}, {}: {}", f.n_features(), ctx()))?;
    let mut got = f.map_sparse(|s| s.activations.into_iter().collect::<Vec<_>>()).unwrap();
    got.sort_by(|a, b| a.0.cmp(&b.0));
    let want: Vec<(usize, f64)> = ix.iter().map(|i| (*i, 1.0)).collect();
    m.ok(got == want, "C20/constant", || format!("{got:?}: {}", ctx()))?;
    for &i in &ix {
        let j = i ^ (1 << *m.rng.pick(&[0, 16, 31, 32]));
        for i in [i, j] {
            let want = if i < dim { Ok(ix.contains(&i) as u8 as f64) } else { Err(Error::index_error(i, dim)) };
            let got = b.ith((), i);
            m.ok(got == want, "C20/ith", || format!("ith({i}) is {got:?}: {}", ctx()))?;
        }
    }
    Ok(())
}
