//! C02: dot, matrix product and accumulation are the exact linear maps.
use super::scn;
use crate::engine::*;
use crate::gen::*;
use lfa::Features;
use ndarray::linalg::Dot;
use ndarray::{Array1, ArrayD, IxDyn};

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "a case is a feature vector (storage, layout, values) against weights in some layout or window of a larger \
               buffer; non-trivial when both have a non-zero entry, distinct by all of these",
        required: &[
            "dot weights dense", "dot weights sparse", "dot features DD", "dot features DS", "dot features SD",
            "dot features SS", "matmul dense", "matmul sparse", "addto dense", "addto sparse", "scaled_addto dense",
            "scaled_addto sparse", "window", "matmul multi-column", "many columns", "huge dimension",
            "tiny or large magnitudes", "any factor",
        ],
        scenarios: vec![
            scn!("dot_weights", 8000, 200_000, 6, dot_weights),
            scn!("dot_features", 8000, 200_000, 6, dot_features),
            scn!("matmul", 5000, 100_000, 6, matmul),
            scn!("accumulate", 9000, 200_000, 8, accumulate),
            scn!("huge", 3000, 60_000, 4, huge),
        ],
    }
}

/// Values of any one magnitude: the maps are linear, so no size is negligible.
fn scaled_vals(m: &mut M, n: usize, p: f64) -> Vec<f64> {
    let v = vals(&mut m.rng, n);
    if !m.rng.chance(p) {
        return v;
    }
    m.ev("tiny or large magnitudes");
    let k = *m.rng.pick(&[1e-8, 1e-13, 1e-17, 1e-30, 1e-100, 1e-200, 1e-270, 1e-150, 1e-150, 1e20, 1e100, 1e145]);
    v.iter().map(|x| k * x).collect()
}

fn case(m: &mut M) -> (Features, Vec<f64>, Vec<f64>) {
    let n = len(&mut m.rng, m.small);
    let v = scaled_vals(m, n, 0.12);
    let w = scaled_vals(m, n, 0.3);
    let f = if m.rng.chance(0.5) {
        dense_of(&mut m.rng, &v)
    } else {
        let e = m.rng.chance(0.2);
        sparse_of(&mut m.rng, &v, e)
    };
    m.fp(f.is_dense());
    m.fpf(&v);
    m.fpf(&w);
    if v.iter().any(|x| *x != 0.0) && w.iter().any(|x| *x != 0.0) {
        m.nontrivial();
    }
    (f, v, w)
}

fn tag(f: &Features) -> &'static str {
    if f.is_dense() {
        "dense"
    } else {
        "sparse"
    }
}

fn dot_weights(m: &mut M) -> R {
    let (f, v, w) = case(m);
    let want = dot(&v, &w);
    let tol = gamma(v.len(), dot_mag(&v, &w));
    m.ev(&format!("dot weights {}", tag(&f)));
    m.sample(|| format!("{} . {}", repr(&f), show(&w)));
    let a = layout1(&mut m.rng, &w);
    let ctx = |k: &str| format!("{k}: {} . {} (strides {:?})", repr(&f), show(&w), a.strides());
    m.close(f.dot(&a), want, tol, "C02/dot-weights", || ctx("owned weights"))?;
    m.close(f.dot(&a.view()), want, tol, "C02/dot-weights", || ctx("weight view"))?;
    m.close(Dot::dot(&f, &a.view()), want, tol, "C02/dot-weights", || ctx("Dot trait"))?;
    let win = View::gen(&mut m.rng, w.len());
    let b = win.with(&w);
    m.ev("window");
    let wv = win.view(&b);
    m.close(f.dot(&wv), want, tol, "C02/dot-weights", || format!("{} . window {win:?}", repr(&f)))?;
    m.ok(raw(&f).iter().eq(v.iter()), "C02/dot-pure", || repr(&f))?;
    m.ok(a.iter().eq(w.iter()), "C02/dot-pure", || "weights changed by dot".into())
}

fn dot_features(m: &mut M) -> R {
    let (f, v, w) = case(m);
    let g = if m.rng.chance(0.5) {
        dense_of(&mut m.rng, &w)
    } else {
        let e = m.rng.chance(0.2);
        sparse_of(&mut m.rng, &w, e)
    };
    m.fp(g.is_dense());
    let want = dot(&v, &w);
    let tol = gamma(v.len(), dot_mag(&v, &w));
    let k = match (f.is_dense(), g.is_dense()) {
        (true, true) => "DD",
        (true, false) => "DS",
        (false, true) => "SD",
        _ => "SS",
    };
    m.ev(&format!("dot features {k}"));
    m.sample(|| format!("{} . {}", repr(&f), repr(&g)));
    m.close(Dot::dot(&f, &g), want, tol, "C02/dot-features", || format!("{k}: {} . {}", repr(&f), repr(&g)))?;
    m.close(Dot::dot(&g, &f), want, tol, "C02/dot-features", || format!("{k} swapped: {} . {}", repr(&f), repr(&g)))?;
    let sq = dot(&v, &v);
    m.close(Dot::dot(&f, &f), sq, gamma(v.len(), sq), "C02/dot-features", || format!("self: {}", repr(&f)))?;
    m.ok(raw(&f).iter().eq(v.iter()) && raw(&g).iter().eq(w.iter()), "C02/dot-pure", || repr(&f))
}

fn matmul(m: &mut M) -> R {
    let (f, v, _) = case(m);
    let cols = if !m.small && v.len() < 400 && m.rng.chance(0.06) {
        m.ev("many columns");
        if v.len() <= 16 && m.rng.chance(0.3) {
            *m.rng.pick(&[511, 512, 513, 1000, 1024, 1025, 1536, 2049, 4097])
        } else {
            *m.rng.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257])
        }
    } else {
        m.rng.below(6)
    };
    let c = cls(&mut m.rng);
    let n = v.len();
    let data: Vec<f64> = vals_of(&mut m.rng, n * cols, c);
    m.fpf(&data);
    let w = layout2(&mut m.rng, n, cols, |i, j| data[i * cols + j]);
    m.ev(&format!("matmul {}", tag(&f)));
    if cols > 1 {
        m.ev("matmul multi-column");
    }
    m.sample(|| format!("{} x [{n} x {cols}] strides {:?}", repr(&f), w.strides()));
    for (k, got) in [("owned", f.matmul(&w)), ("view", f.matmul(&w.view()))] {
        m.ok(got.len() == cols, "C02/matmul", || format!("{} outputs for {cols} columns", got.len()))?;
        for j in 0..cols {
            let col: Vec<f64> = (0..n).map(|i| data[i * cols + j]).collect();
            m.close(got[j], dot(&v, &col), gamma(n, dot_mag(&v, &col)), "C02/matmul", || {
                format!("{k} column {j}: {} x {} (strides {:?})", repr(&f), show(&col), w.strides())
            })?;
        }
    }
    m.ok(raw(&f).iter().eq(v.iter()), "C02/dot-pure", || repr(&f))
}

fn accumulate(m: &mut M) -> R {
    let (f, v, w) = case(m);
    let n = v.len();
    let scaled = m.rng.chance(0.6);
    let alpha: f64 = if !scaled {
        1.0
    } else if m.rng.chance(0.5) {
        *m.rng.pick(&[0.0, 1.0, -1.0, 0.5, 3.25, -1e-6, 1e5])
    } else {
        // factors without a short decimal or binary form
        m.ev("any factor");
        match m.rng.below(5) {
            4 => *m.rng.pick(&[1.0, -1.0, 2.0, 0.5, -0.1]) * (1.0 + sign(&mut m.rng) * logu(&mut m.rng, -13.0, -3.0)),
            0 => *m.rng.pick(&[1.0 / 3.0, 0.1, -0.7, 1.0 + EPS, 1.0 - EPS, 2f64.sqrt(), -1e-20, 5e-9]),
            1 => sign(&mut m.rng) * logu(&mut m.rng, -15.0, 15.0),
            _ => m.rng.uniform(-2.0, 2.0),
        }
    };
    m.fp(alpha.to_bits());
    m.fp(scaled);
    let want: Vec<f64> = (0..n).map(|i| w[i] + alpha * v[i]).collect();
    let tol = |i: usize| 8.0 * EPS * (w[i].abs() + (alpha * v[i]).abs());
    let kind = if scaled { "scaled_addto" } else { "addto" };
    m.ev(&format!("{kind} {}", tag(&f)));
    m.sample(|| format!("{kind}({alpha}) {} into {}", repr(&f), show(&w)));
    let sig = if scaled { "C02/scaled_addto" } else { "C02/addto" };
    // owned array in some layout
    let mut a = layout1(&mut m.rng, &w);
    if scaled {
        f.scaled_addto(alpha, &mut a);
    } else {
        f.addto(&mut a);
    }
    let got: Vec<f64> = (0..n).map(|i| a[i]).collect();
    let ctx = |k: &str| format!("{k}: {kind} alpha {alpha} of {} into {}", repr(&f), show(&w));
    m.close_vec(&got, &want, tol, sig, || ctx("owned"))?;
    for i in 0..n {
        if v[i] == 0.0 {
            m.ok(got[i] == w[i], sig, || format!("entry {i} moved by a zero feature: {}", ctx("owned")))?;
        }
    }
    // window of a larger buffer: nothing outside it may change
    let win = View::gen(&mut m.rng, n);
    let mut b = win.with(&w);
    m.ev("window");
    {
        let mut x = win.view_mut(&mut b);
        if scaled {
            f.scaled_addto(alpha, &mut x);
        } else {
            f.addto(&mut x);
        }
    }
    let got: Vec<f64> = { let x = win.view(&b); (0..n).map(|i| x[i]).collect() };
    m.close_vec(&got, &want, tol, sig, || format!("{win:?} {}", ctx("window")))?;
    let spill = win.spill(&b);
    m.ok(spill.is_none(), "C02/spill", || format!("cell {spill:?} outside the window {win:?} changed: {}", ctx("window")))?;
    // dynamic-dimensional weights
    if n > 0 && m.rng.chance(0.2) {
        let mut d: ArrayD<f64> = Array1::from(w.clone()).into_shape(IxDyn(&[n])).unwrap();
        if scaled {
            f.scaled_addto(alpha, &mut d);
        } else {
            f.addto(&mut d);
        }
        let got: Vec<f64> = d.iter().copied().collect();
        m.close_vec(&got, &want, tol, sig, || ctx("dynamic dimension"))?;
    }
    m.ok(raw(&f).iter().eq(v.iter()), "C02/features-pure", || repr(&f))
}

/// Weights of unbounded length that exist only where somebody asks.
struct Weights(std::collections::BTreeMap<usize, f64>, f64);

impl std::ops::Index<usize> for Weights {
    type Output = f64;
    fn index(&self, i: usize) -> &f64 {
        self.0.get(&i).unwrap_or(&self.1)
    }
}

impl Dot<Weights> for Array1<f64> {
    type Output = f64;
    fn dot(&self, w: &Weights) -> f64 {
        self.iter().enumerate().map(|(i, x)| x * w[i]).sum()
    }
}

/// Sparse vectors far too long to store densely, and weights of the user's own.
fn huge(m: &mut M) -> R {
    let dim = huge_dim(&mut m.rng);
    let (v, mut w) = (huge_entries(&mut m.rng, dim), huge_entries(&mut m.rng, dim));
    // shared indices, and near misses
    for i in v.keys() {
        match m.rng.below(3) {
            0 => {
                w.insert(*i, m.rng.uniform(-2.0, 2.0));
            }
            1 => {
                let j = i ^ (1usize << *m.rng.pick(&[0, 16, 31, 32]));
                if j < dim {
                    w.insert(j, m.rng.uniform(-2.0, 2.0));
                }
            }
            _ => {}
        }
    }
    m.fp(dim);
    for (i, x) in v.iter().chain(&w) {
        m.fp(*i);
        m.fpf(&[*x]);
    }
    if !v.is_empty() && !w.is_empty() {
        m.nontrivial();
    }
    m.ev("huge dimension");
    let ctx = || format!("dim {dim}: {v:?} . {w:?}");
    m.sample(ctx);
    let mk = |v: &std::collections::BTreeMap<usize, f64>| Features::sparse(dim, v.iter().map(|(i, x)| (*i, *x)));
    let (f, g) = (mk(&v), mk(&w));
    let terms: Vec<f64> = v.iter().map(|(i, x)| x * w.get(i).unwrap_or(&0.0)).collect();
    let (want, mag): (f64, f64) = (terms.iter().sum(), terms.iter().map(|x| x.abs()).sum());
    let tol = gamma(v.len(), mag);
    m.close(Dot::dot(&f, &g), want, tol, "C02/dot-features", ctx)?;
    m.close(Dot::dot(&g, &f), want, tol, "C02/dot-features", ctx)?;
    m.close(f.dot(&Weights(w.clone(), 0.0)), want, tol, "C02/dot-weights", ctx)?;
    // the same with weights elsewhere not zero
    let ws = Weights(w.clone(), 1.0);
    let terms: Vec<f64> = v.iter().map(|(i, x)| x * ws[*i]).collect();
    let (want, mag): (f64, f64) = (terms.iter().sum(), terms.iter().map(|x| x.abs()).sum());
    m.close(f.dot(&ws), want, gamma(v.len(), mag), "C02/dot-weights", ctx)?;
    m.close(Dot::dot(&f, &ws), want, gamma(v.len(), mag), "C02/dot-weights", ctx)?;
    let d = Features::dense(vec![1.0, -2.0, 0.5]);
    m.close(d.dot(&ws), ws[0] - 2.0 * ws[1] + 0.5 * ws[2], 1e-9 * (ws[0].abs() + ws[1].abs() + ws[2].abs()), "C02/dot-weights", ctx)
}
