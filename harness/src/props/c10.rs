//! C10: a uniform grid activates exactly the cell holding the input.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use lfa::basis::*;
use lfa::Features;
use spaces::{real::Interval, Equipartition, ProductSpace, Space};
use std::collections::HashSet;

pub fn property() -> Property {
    Property {
        id: "C10",
        rule: "a case is a grid and inputs, the active index compared with the cell computed independently; non-trivial when \
               the grid has more than one cell, distinct by grid and inputs",
        required: &["inside", "outside", "infinite", "far bounds", "on an edge", "upper bound", "all cells", "unequal partitions", "4+ dimensions", "over 2^16 cells", "over 2^32 cells", "over 2^53 cells", "9+ dimensions", "over 2^32 cells in one dimension"],
        scenarios: vec![
            scn!("points", 10_000, 200_000, 8, points),
            scn!("huge", 4000, 60_000, 2, huge),
            scn!("edges", 6000, 100_000, 4, edges),
            scn!("cells", 1500, 20_000, 1, cells),
        ],
    }
}

struct Grid {
    parts: Vec<(f64, f64, usize)>,
    b: UniformGrid,
}

fn make(m: &mut M, parts: Vec<(f64, f64, usize)>) -> Grid {
    m.fp(format!("{parts:?}"));
    if parts.iter().any(|p| p.2 > 1) {
        m.nontrivial();
    }
    if parts.iter().any(|p| p.2 != parts[0].2) {
        m.ev("unequal partitions");
    }
    if parts.len() >= 4 {
        m.ev("4+ dimensions");
    }
    let b = UniformGrid::new(ProductSpace::new(parts.iter().map(|p| Equipartition::new(p.0, p.1, p.2)).collect()));
    Grid { parts, b }
}

fn active(m: &mut M, g: &Grid, x: &[f64]) -> R<usize> {
    let f = g.b.project(x).unwrap();
    let n: usize = g.parts.iter().map(|p| p.2).product();
    let ctx = || format!("{} from grid {:?} at {x:?}", repr(&f), g.parts);
    m.ok(f.n_features() == n, "C10/length", || ctx())?;
    let on: Vec<usize> = match &f {
        Features::Sparse(s) => {
            m.ok(s.activations.values().all(|v| *v == 1.0), "C10/value", || ctx())?;
            s.activations.keys().copied().collect()
        }
        Features::Dense(a) => {
            m.ok(a.iter().all(|v| *v == 1.0 || *v == 0.0), "C10/value", || ctx())?;
            a.iter().enumerate().filter(|p| *p.1 != 0.0).map(|p| p.0).collect()
        }
    };
    m.ok(on.len() == 1 && on[0] < n, "C10/one-active", || ctx())?;
    Ok(on[0])
}

fn gen_parts(m: &mut M, exact: bool) -> Vec<(f64, f64, usize)> {
    let d = m.rng.range(1, 5);
    let hi = match d {
        1 => 60,
        2 => 15,
        3 => 7,
        _ => 5,
    };
    if exact {
        // power-of-two cell counts on dyadic bounds: edges are exact numbers
        (0..d)
            .map(|_| {
                let lo = m.rng.range(0, 16) as f64 - 8.0;
                let w = *m.rng.pick(&[1.0, 2.0, 4.0, 8.0, 0.5]);
                let k = 1usize << m.rng.range(0, if d <= 2 { 4 } else { 2 });
                (lo, lo + w, k)
            })
            .collect()
    } else {
        limits(&mut m.rng, d).into_iter().map(|l| (l.0, l.1, m.rng.range(1, hi))).collect()
    }
}

fn points(m: &mut M) -> R {
    let mut parts = gen_parts(m, false);
    if m.rng.chance(0.15) {
        // bounds of any size
        m.ev("far bounds");
        for p in parts.iter_mut() {
            let w = logu(&mut m.rng, -6.0, 200.0);
            let at = sign(&mut m.rng) * w * logu(&mut m.rng, -3.0, 3.0);
            *p = (at, at + w, p.2);
        }
    }
    at_points(m, parts)
}

/// Partition counts far beyond what fits in a small integer.
fn huge(m: &mut M) -> R {
    let d = m.rng.range(1, 6);
    let hi = if d == 1 { 6.0 } else { 15.0 / d as f64 };
    let parts: Vec<_> = limits(&mut m.rng, d)
        .into_iter()
        .map(|l| (l.0, l.1, match m.rng.below(5) {
            0 => *m.rng.pick(&[1usize, 2, 255, 256, 257]),
            _ => logu(&mut m.rng, 0.0, hi).ceil() as usize,
        }))
        .collect();
    let parts = if m.rng.chance(0.15) {
        // more dimensions than a few
        m.ev("9+ dimensions");
        let d = m.rng.range(9, 40);
        limits(&mut m.rng, d).into_iter().map(|l| (l.0, l.1, m.rng.range(1, if d < 16 { 4 } else { 2 }))).collect()
    } else if d >= 2 && m.rng.chance(0.1) {
        // nearly all the cells of one dimension
        m.ev("over 2^32 cells in one dimension");
        let k = m.rng.below(d);
        let many = (1usize << 32) + m.rng.below(1 << 24);
        parts.into_iter().enumerate().map(|(i, p)| (p.0, p.1, if i == k { many } else { m.rng.range(1, 20) })).collect()
    } else if d >= 3 && m.rng.chance(0.3) {
        // as many cells as indices can number
        let bits = m.rng.uniform(53.0, 62.0);
        parts.into_iter().map(|p| (p.0, p.1, 2f64.powf(bits / d as f64) as usize - m.rng.below(3))).collect()
    } else {
        parts
    };
    let n: f64 = parts.iter().map(|p| p.2 as f64).product();
    if n > 9007199254740992.0 {
        m.ev("over 2^53 cells");
    }
    if n > 65536.0 {
        m.ev("over 2^16 cells");
    }
    if n > 4294967296.0 {
        m.ev("over 2^32 cells");
    }
    at_points(m, parts)
}

fn at_points(m: &mut M, parts: Vec<(f64, f64, usize)>) -> R {
    let g = make(m, parts);
    let dim: usize = g.b.dim().into();
    let n: usize = g.parts.iter().map(|p| p.2).product();
    m.ok(dim == n, "C10/count", || format!("{dim} features, expected {n}: {:?}", g.parts))?;
    for _ in 0..4 {
        let x: Vec<f64> = g
            .parts
            .iter()
            .map(|p| match m.rng.below(10) {
                0 => f64::INFINITY,
                1 => f64::NEG_INFINITY,
                2 => p.0,
                3 => p.1,
                4 => p.0 - logu(&mut m.rng, -9.0, 9.0),
                5 => p.1 + logu(&mut m.rng, -9.0, 9.0),
                _ => p.0 + (p.1 - p.0) * m.rng.unit(),
            })
            .collect();
        m.fpf(&x);
        if x.iter().any(|v| v.is_infinite()) {
            m.ev("infinite");
        }
        if x.iter().zip(&g.parts).any(|(v, p)| *v < p.0 || *v > p.1) {
            m.ev("outside");
        } else {
            m.ev("inside");
        }
        if x.iter().zip(&g.parts).any(|(v, p)| *v == p.1) {
            m.ev("upper bound");
        }
        m.sample(|| format!("grid {:?} at {x:?}", g.parts));
        let on = active(m, &g, &x)?;
        let mut want = Some(0);
        for (v, p) in x.iter().zip(&g.parts) {
            want = match (want, cell(*v, *p)) {
                (Some(a), Some(c)) => Some(a * p.2 + c),
                _ => None,
            };
        }
        match want {
            Some(w) => m.ok(on == w, "C10/cell", || format!("active {on}, expected {w}: grid {:?} at {x:?}", g.parts))?,
            None => m.skip(),
        }
        // the same input through another accepted form
        let f = g.b.project(&x).unwrap();
        m.ok(f.n_features() == n && f.get(on) == Some(&1.0), "C10/forms", || format!("grid {:?} at {x:?}", g.parts))?;
    }
    Ok(())
}

/// Inner edges, bounds and their floating-point neighbours, where exact.
fn edges(m: &mut M) -> R {
    let parts = gen_parts(m, true);
    let g = make(m, parts);
    for _ in 0..4 {
        let mut want = 0;
        let mut x = vec![];
        for p in &g.parts {
            let w = (p.1 - p.0) / p.2 as f64;
            let k = m.rng.range(0, p.2);
            let e = p.0 + w * k as f64;
            let step = w / 1024.0;
            let (v, c) = match m.rng.below(3) {
                0 => (e, k),
                1 => (e + step, k),
                _ => (e - step, k.saturating_sub(1)),
            };
            x.push(v);
            want = want * p.2 + c.min(p.2 - 1);
        }
        m.fpf(&x);
        m.ev("on an edge");
        m.sample(|| format!("edge of grid {:?} at {x:?}", g.parts));
        let on = active(m, &g, &x)?;
        m.ok(on == want, "C10/edge", || format!("active {on}, expected {want}: grid {:?} at {x:?}", g.parts))?;
    }
    Ok(())
}

/// Centres of distinct cells activate distinct features covering every index.
fn cells(m: &mut M) -> R {
    let mut parts = gen_parts(m, false);
    while parts.iter().map(|p| p.2).product::<usize>() > if m.small { 12 } else { 600 } {
        parts.pop();
    }
    if parts.is_empty() {
        parts.push((0.0, 1.0, 3));
    }
    let from_intervals = m.rng.chance(0.3);
    if from_intervals {
        let k = parts[0].2.min(4);
        parts.iter_mut().for_each(|p| p.2 = k);
    }
    let mut g = make(m, parts);
    if from_intervals {
        let k = g.parts[0].2;
        g.b = UniformGrid::new(
            ProductSpace::new(g.parts.iter().map(|p| Interval::bounded(p.0, p.1)).collect::<Vec<_>>()).equipartitioned(k),
        );
    }
    let n: usize = g.parts.iter().map(|p| p.2).product();
    m.ev("all cells");
    m.sample(|| format!("every cell of grid {:?}", g.parts));
    let mut seen = HashSet::new();
    for k in 0..n {
        let mut q = k;
        let mut x = vec![0.0; g.parts.len()];
        for i in (0..x.len()).rev() {
            let p = g.parts[i];
            let j = q % p.2;
            q /= p.2;
            x[i] = p.0 + (p.1 - p.0) * ((j as f64 + 0.5) / p.2 as f64);
        }
        let on = active(m, &g, &x)?;
        m.ok(on == k, "C10/cell", || format!("centre of cell {k} activates {on}: grid {:?} at {x:?}", g.parts))?;
        seen.insert(on);
    }
    m.ok(seen.len() == n, "C10/cover", || format!("{} of {n} features reached: grid {:?}", seen.len(), g.parts))
}
