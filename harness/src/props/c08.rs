//! C08: Fourier, polynomial and Chebyshev bases are their closed forms.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use lfa::basis::*;
use ndarray::Array1;
use spaces::{real::Interval, ProductSpace, Space};
use std::collections::VecDeque;

pub fn property() -> Property {
    Property {
        id: "C08",
        rule: "a case is a basis family, order, bounds and input, every feature compared with its closed form evaluated \
               independently; non-trivial when there is at least one feature and a non-zero input, distinct by all of these",
        required: &[
            "fourier", "polynomial", "chebyshev", "zeroth", "from_space", "outside bounds", "high order", "containers",
            "3+ dimensions", "chebyshev order 11", "more than 65536 features", "narrow or wide bounds", "edited table",
        ],
        scenarios: vec![
            scn!("fourier", 6000, 100_000, 3, fourier),
            scn!("polynomial", 6000, 100_000, 3, polynomial),
            scn!("chebyshev", 8000, 120_000, 3, chebyshev),
            scn!("high_order", 1500, 20_000, 1, high_order),
            scn!("edited", 3000, 50_000, 2, edited),
            scn!("wide", 36, 400, 1, wide),
            scn!("containers", 2000, 20_000, 2, containers),
        ],
    }
}

/// (order, dimension) with a bounded number of features.
fn size(m: &mut M, max_order: usize) -> (usize, usize) {
    let cap = if m.small { 30 } else { 800 };
    loop {
        let d = *m.rng.pick(&[1usize, 1, 2, 2, 3, 4, 5, 6]);
        let o = m.rng.range(0, max_order);
        if ((o + 1) as f64).powi(d as i32) <= cap as f64 {
            return (o, d);
        }
    }
}

/// Bounds of any width.
fn bounds(m: &mut M, d: usize, any: bool) -> Vec<(f64, f64)> {
    let mut l = limits(&mut m.rng, d);
    if m.rng.chance(0.12) {
        m.ev("narrow or wide bounds");
        let i = m.rng.below(d);
        let w = match m.rng.below(if any { 10 } else { 8 }) {
            0..=5 => logu(&mut m.rng, -14.0, -2.0),
            6 | 7 => logu(&mut m.rng, 2.0, 9.0),
            8 => logu(&mut m.rng, -200.0, -14.0),
            _ => logu(&mut m.rng, 9.0, 200.0),
        };
        let k = m.rng.range(0, 6) as f64 - 3.0;
        l[i] = (w * k, w * (k + 1.0));
    }
    l
}

/// Inputs in terms of the bounds: inside, exactly on them, outside.
fn point(m: &mut M, l: &[(f64, f64)]) -> Vec<f64> {
    let far = m.rng.chance(0.2);
    let x: Vec<f64> = l
        .iter()
        .map(|&(a, b)| match m.rng.below(7) {
            0 => a,
            1 => b,
            2 => (a + b) / 2.0,
            3 if far => a + (b - a) * m.rng.uniform(-20.0, 20.0),
            3 | 4 => a + (b - a) * m.rng.uniform(-1.5, 2.5),
            _ => a + (b - a) * m.rng.unit(),
        })
        .collect();
    if x.iter().zip(l).any(|(x, l)| *x < l.0 || *x > l.1) {
        m.ev("outside bounds");
    }
    x
}

fn note(m: &mut M, fam: &'static str, o: usize, d: usize, x: &[f64], n: usize) {
    m.ev(fam);
    m.fp((fam, o, d));
    m.fpf(x);
    if n > 0 && x.iter().any(|x| *x != 0.0) {
        m.nontrivial();
    }
    if d >= 3 {
        m.ev("3+ dimensions");
    }
}

fn fourier(m: &mut M) -> R {
    let (o, d) = size(m, 9);
    let l = bounds(m, d, true);
    let fs = m.rng.chance(0.4);
    let sp = Spec::Fourier { order: o as u8, limits: l.clone(), from_space: fs };
    compare(m, "fourier", &sp, o, &l, fs)
}

fn polynomial(m: &mut M) -> R {
    let (o, d) = size(m, 9);
    let z = m.rng.chance(0.5);
    if z {
        m.ev("zeroth");
    }
    let l = bounds(m, d, false);
    let sp = Spec::Poly { dim: d, order: o as u8, zeroth: z };
    compare(m, "polynomial", &sp, o, &l, false)
}

fn chebyshev(m: &mut M) -> R {
    let (o, d) = size(m, 11);
    let o = if d == 1 && m.rng.chance(0.2) { 11 } else { o };
    if o == 11 {
        m.ev("chebyshev order 11");
    }
    let l = bounds(m, d, true);
    let fs = m.rng.chance(0.4);
    let z = m.rng.chance(0.5);
    if z {
        m.ev("zeroth");
    }
    let sp = Spec::Cheby { order: o as u8, limits: l.clone(), zeroth: z, from_space: fs };
    compare(m, "chebyshev", &sp, o, &l, fs)
}

fn compare(m: &mut M, fam: &'static str, sp: &Spec, o: usize, l: &[(f64, f64)], fs: bool) -> R {
    compare_n(m, fam, sp, o, l, fs, 3)
}

fn compare_n(m: &mut M, fam: &'static str, sp: &Spec, o: usize, l: &[(f64, f64)], fs: bool, points: usize) -> R {
    if fs {
        m.ev("from_space");
    }
    let b = sp.build();
    m.fp(format!("{l:?}"));
    m.sample(|| format!("{sp:?}"));
    let dim: usize = b.dim().into();
    m.ok(dim == sp.dim(), "C08/count", || format!("{dim} features, expected {}: {sp:?}", sp.dim()))?;
    let sig = format!("C08/{fam}");
    // points unrelated to extreme bounds overflow the features
    let related = points == 1 || l.iter().any(|l| !(1e-14..=1e9).contains(&(l.1 - l.0)));
    for _ in 0..points {
        let x = if m.rng.chance(0.8) || related { point(m, l) } else { input(&mut m.rng, l.len()) };
        note(m, fam, o, l.len(), &x, dim);
        let (v, e) = match sp.want(&x) {
            Want::Vals { v, e } => (v, e),
            _ => unreachable!(),
        };
        let f = b.project(&x[..]).unwrap();
        m.ok(f.is_dense(), "C08/dense", || format!("{sp:?}"))?;
        m.close_vec(&raw(&f), &v, |i| e[i], &sig, || format!("{sp:?} at {x:?}"))?;
    }
    Ok(())
}

/// Orders up to 255 in one dimension (11 for Chebyshev).
fn high_order(m: &mut M) -> R {
    let o = *m.rng.pick(&[10usize, 31, 32, 63, 64, 100, 127, 128, 200, 254, 255]);
    let o = if m.small { o % 12 } else { o };
    m.ev("high order");
    let l = bounds(m, 1, true);
    if m.rng.chance(0.5) {
        let sp = Spec::Fourier { order: o as u8, limits: l.clone(), from_space: false };
        compare(m, "fourier", &sp, o, &l, false)
    } else {
        let sp = Spec::Poly { dim: 1, order: o as u8, zeroth: m.rng.chance(0.5) };
        compare(m, "polynomial", &sp, o, &[(-1.1, 1.1)], false)
    }
}

/// Public tables and bounds changed by hand: the features follow them.
fn edited(m: &mut M) -> R {
    let d = if m.rng.chance(0.1) { m.rng.range(4, 12) } else { m.rng.range(1, 3) };
    let fourier = m.rng.chance(0.5);
    let n = m.rng.below(20);
    let l = limits(&mut m.rng, d);
    let top = *m.rng.pick(&[2usize, 5, 9]);
    let rows = (0..n)
        .map(|_| {
            let whole = !fourier || m.rng.chance(0.5);
            (0..d)
                .map(|_| match m.rng.below(3) {
                    0 => 0.0,
                    _ if whole => m.rng.below(top) as f64,
                    _ => m.rng.uniform(-6.0, 6.0),
                })
                .collect()
        })
        .collect();
    m.ev("edited table");
    let order = m.rng.below(if d < 4 { 4 } else { 2 }) as u8;
    let sp = Spec::Table { fourier, order, limits: l.clone(), rows };
    compare(m, if fourier { "fourier" } else { "polynomial" }, &sp, 1, &l, false)
}

/// Thousands of features, more than 65536 of them at times: mixed radix
/// counters, table indices and sort keys of every size.
fn wide(m: &mut M) -> R {
    const BIG: [(usize, usize); 8] = [(255, 2), (40, 3), (16, 4), (9, 5), (6, 6), (4, 7), (3, 8), (2, 11)];
    const MID: [(usize, usize); 8] = [(100, 2), (64, 2), (20, 3), (15, 3), (9, 4), (5, 5), (3, 6), (1, 13)];
    let (o, d) = match m.small {
        true => (3, 3),
        false if m.rng.chance(0.4) => *m.rng.pick(&BIG),
        false => *m.rng.pick(&MID),
    };
    if (o + 1).pow(d as u32) > 65536 {
        m.ev("more than 65536 features");
    }
    let l = limits(&mut m.rng, d);
    let fs = m.rng.chance(0.4);
    let (o8, z) = (o as u8, m.rng.chance(0.5));
    match m.rng.below(if o <= 11 { 3 } else { 2 }) {
        0 => compare_n(m, "fourier", &Spec::Fourier { order: o8, limits: l.clone(), from_space: fs }, o, &l, fs, 1),
        1 => {
            let l = vec![(-1.1, 1.1); d];
            compare_n(m, "polynomial", &Spec::Poly { dim: d, order: o8, zeroth: z }, o, &l, false, 1)
        }
        _ => compare_n(m, "chebyshev", &Spec::Cheby { order: o8, limits: l.clone(), zeroth: z, from_space: fs }, o, &l, fs, 1),
    }
}

/// Any accepted container gives the same features; limits and spaces agree.
fn containers(m: &mut M) -> R {
    let d = m.rng.range(1, 3);
    let o = m.rng.range(0, 3) as u8;
    let l = limits(&mut m.rng, d);
    let x = point(m, &l);
    m.fp(format!("{l:?} {o}"));
    m.fpf(&x);
    if x.iter().any(|x| *x != 0.0) {
        m.nontrivial();
    }
    m.ev("containers");
    m.ev("from_space");
    m.sample(|| format!("order {o} limits {l:?} at {x:?} from six containers"));
    let space = || ProductSpace::new(l.iter().map(|a| Interval::bounded(a.0, a.1)).collect::<Vec<_>>());
    let arr = layout1(&mut m.rng, &x);
    let dq: VecDeque<f64> = x.iter().copied().collect();
    let (fw, fe) = fourier_want(o as usize, &l, &x);
    let (pw, pe) = poly_want(d, o as usize, false, &x);
    let (cw, ce) = cheby_want(o as usize, &l, false, &x);
    let ctx = || format!("order {o} limits {l:?} at {x:?}");
    macro_rules! all_inputs {
        ($b:expr, $w:expr, $e:expr, $sig:expr) => {{
            let b = $b;
            let xs: &[f64] = &x;
            let outs = vec![
                ("slice", raw(&b.project(xs).unwrap())),
                ("&vec", raw(&b.project(&x).unwrap())),
                ("vec", raw(&b.project(x.clone()).unwrap())),
                ("array ref", raw(&b.project(&arr).unwrap())),
                ("array view", raw(&b.project(arr.view()).unwrap())),
                ("iterator", raw(&b.project(x.iter().map(|v| *v)).unwrap())),
                ("deque", raw(&b.project(&dq).unwrap())),
            ];
            for (k, got) in outs {
                m.close_vec(&got, &$w, |i| $e[i], $sig, || format!("input as {k}: {}", ctx()))?;
            }
            for i in 0..$w.len() {
                let y = b.ith(&arr, i).unwrap();
                m.close(y, $w[i], $e[i], $sig, || format!("ith({i}) from an array: {}", ctx()))?;
            }
        }};
    }
    all_inputs!(Fourier::new(o, l.clone()), fw, fe, "C08/fourier");
    all_inputs!(Fourier::from_space(o, space()), fw, fe, "C08/fourier");
    all_inputs!(Polynomial::new(d, o), pw, pe, "C08/polynomial");
    all_inputs!(Chebyshev::new(o, l.clone()), cw, ce, "C08/chebyshev");
    all_inputs!(Chebyshev::from_space(o, space()), cw, ce, "C08/chebyshev");
    m.ok(Fourier::new(o, l.clone()) == Fourier::from_space(o, space()), "C08/from-space", || ctx())?;
    // fixed-size arrays
    if d == 2 {
        let a = [x[0], x[1]];
        let got = raw(&Fourier::new(o, l.clone()).project(&a).unwrap());
        m.close_vec(&got, &fw, |i| fe[i], "C08/fourier", || ctx())?;
        let got = raw(&Polynomial::new(d, o).project(a).unwrap());
        m.close_vec(&got, &pw, |i| pe[i], "C08/polynomial", || ctx())?;
    }
    let _: Array1<f64> = arr;
    Ok(())
}
