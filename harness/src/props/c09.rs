//! C09: kernels and kernel bases compute their covariance functions.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use lfa::basis::kernels::*;
use lfa::basis::*;
use spaces::{Equipartition, ProductSpace, Space};

pub fn property() -> Property {
    Property {
        id: "C09",
        rule: "a case is a kernel with parameters and points (values, symmetry, bound, Gram matrix) or a kernel basis with \
               prototypes or a partition; non-trivial when two distinct points are involved, distinct by parameters and points",
        required: &[
            "Exponential", "Matern32", "Matern52", "ExpQuad", "Cosine", "RationalQuadratic", "shared lengthscale",
            "scalar form", "gram", "basis", "partition", "unequal partition", "partition of any size", "default kernel", "edited prototypes", "10+ dimensions", "thousands of prototypes",
        ],
        scenarios: vec![
            scn!("values", 10_000, 200_000, 6, values),
            scn!("gram", 2000, 30_000, 2, gram),
            scn!("basis", 5000, 60_000, 4, basis),
            scn!("partition", 3000, 40_000, 2, partition),
        ],
    }
}

fn kk(k: KK) -> &'static str {
    match k {
        KK::Exponential => "Exponential",
        KK::Matern32 => "Matern32",
        KK::Matern52 => "Matern52",
        KK::ExpQuad => "ExpQuad",
        KK::Cosine => "Cosine",
        KK::RationalQuadratic => "RationalQuadratic",
    }
}

fn pt(m: &mut M, d: usize, base: Option<&[f64]>) -> Vec<f64> {
    match (base, m.rng.below(4)) {
        (Some(b), 0) => b.to_vec(),
        (Some(b), 1) => b.iter().map(|v| v + m.rng.uniform(-0.01, 0.01)).collect(),
        _ => {
            let s = if m.rng.chance(0.03) { logu(&mut m.rng, 2.0, 60.0) } else { *m.rng.pick(&[0.5, 2.0, 10.0]) };
            (0..d).map(|_| m.rng.uniform(-s, s)).collect()
        }
    }
}

fn values(m: &mut M) -> R {
    let d = if m.rng.chance(0.06) { m.rng.range(7, 70) } else { m.rng.range(1, 6) };
    if d > 9 {
        m.ev("10+ dimensions");
    }
    let k = KSpec::gen(&mut m.rng, d);
    m.ev(kk(k.kind));
    if k.ls.len() == 1 && d > 1 {
        m.ev("shared lengthscale");
    }
    m.fp(format!("{k:?}"));
    let b = k.build();
    let mut x = pt(m, d, None);
    let mut y = pt(m, d, Some(&x));
    if m.rng.chance(0.5) {
        // coordinates on the scale of their lengthscales
        for i in 0..d {
            let l = k.ls[i % k.ls.len()];
            x[i] *= l;
            y[i] *= l;
        }
    }
    m.fpf(&x);
    m.fpf(&y);
    if x != y {
        m.nontrivial();
    }
    m.sample(|| format!("{k:?} at {x:?}, {y:?}"));
    let (want, tol) = k.want(&x, &y);
    let ctx = || format!("{k:?} at {x:?}, {y:?} (r = {})", k.dist(&x, &y));
    let sig = format!("C09/{}", kk(k.kind));
    let got = b.kernel(&x[..], &y[..]);
    m.close(got, want, tol, &sig, ctx)?;
    let sw = b.kernel(&y[..], &x[..]);
    m.close(sw, got, tol, "C09/symmetry", ctx)?;
    let z = b.kernel(&x[..], &x[..]);
    m.close(z, k.variance, k.variance * 1e-12, "C09/at-zero", ctx)?;
    m.ok(got <= z * (1.0 + 1e-12), "C09/bound", || format!("{got} above {z}: {}", ctx()))?;
    let v = b.vecs(&x, &y);
    m.ok(v == got, "C09/forms", || format!("&Vec form {v}, slice form {got}: {}", ctx()))?;
    // scalar form, in one dimension
    let k1 = KSpec { ls: vec![k.ls[0]], ..k.clone() };
    let (want, tol) = k1.want(&x[..1], &y[..1]);
    m.ev("scalar form");
    let got = k1.build().scalar(x[0], y[0]);
    m.close(got, want, tol, &sig, || format!("scalar form, {k1:?} at {} {}", x[0], y[0]))?;
    // with one lengthscale per coordinate it agrees with the vector form
    let (want, tol) = k.want(&x[..1], &y[..1]);
    let (s, v1) = (b.scalar(x[0], y[0]), b.kernel(&x[..1], &y[..1]));
    m.close(s, want, tol, &sig, || format!("scalar form, {k:?} at {} {}", x[0], y[0]))?;
    m.close(s, v1, tol, "C09/forms", || format!("scalar and vector form, {k:?} at {} {}", x[0], y[0]))?;
    // default kernels: unit variance, and the formula at their own parameters
    let kd = KSpec { kind: k.kind, variance: 1.0, ls: vec![1.0], power: 1.0 };
    let def = match k.kind {
        KK::Exponential => AnyK::Exponential(Exponential::default()),
        KK::Matern32 => AnyK::Matern32(Matern32::default()),
        KK::Matern52 => AnyK::Matern52(Matern52::default()),
        KK::ExpQuad => AnyK::ExpQuad(ExpQuad::default()),
        KK::Cosine => AnyK::Cosine(Cosine::default()),
        KK::RationalQuadratic => AnyK::RationalQuadratic(RationalQuadratic::default()),
    };
    let kd = match &def {
        AnyK::RationalQuadratic(r) => KSpec { variance: r.variance, ls: r.lengthscales.clone(), power: r.power, ..kd },
        _ => kd,
    };
    m.ev("default kernel");
    m.ok(kd.variance == 1.0 && kd.ls.len() == 1 && kd.ls[0] > 0.0 && kd.power > 0.0, "C09/default", || format!("{kd:?}"))?;
    let (want, tol) = kd.want(&x, &y);
    m.close(def.kernel(&x[..], &y[..]), want, tol, "C09/default", || format!("default {kd:?} at {x:?} {y:?}"))?;
    let (want, tol) = kd.want(&x[..1], &y[..1]);
    m.close(def.scalar(x[0], y[0]), want, tol, "C09/default", || format!("default {kd:?}, scalar form at {} {}", x[0], y[0]))?;
    // parameters edited after construction
    let mut e = k.build();
    e.set(k.variance * 2.0, k.ls.iter().map(|l| l * 1.5).collect());
    let ke = KSpec { variance: k.variance * 2.0, ls: k.ls.iter().map(|l| l * 1.5).collect(), ..k.clone() };
    let (want, tol) = ke.want(&x, &y);
    m.close(e.kernel(&x[..], &y[..]), want, tol, &sig, || format!("edited, {ke:?} at {x:?} {y:?}"))?;
    // single-lengthscale constructors
    let (v, l) = (k.variance, k.ls[0]);
    let c = match k.kind {
        KK::Exponential => AnyK::Exponential(Exponential::non_ard(v, l)),
        KK::Matern32 => AnyK::Matern32(Matern32::non_ard(v, l)),
        KK::Matern52 => AnyK::Matern52(Matern52::non_ard(v, l)),
        KK::ExpQuad => AnyK::ExpQuad(ExpQuad::non_ard(v, l)),
        KK::Cosine => AnyK::Cosine(Cosine::non_ard(v, l)),
        KK::RationalQuadratic => AnyK::RationalQuadratic(RationalQuadratic::non_ard(k.power, v, l)),
    };
    let (want, tol) = k1.want(&x, &y);
    m.close(c.kernel(&x[..], &y[..]), want, tol, &sig, || format!("non_ard, {k1:?} at {x:?} {y:?}"))
}

/// Smallest eigenvalue of a symmetric matrix (cyclic Jacobi).
fn min_eig(a: &mut Vec<Vec<f64>>) -> f64 {
    let n = a.len();
    for _ in 0..60 {
        let mut off = 0.0;
        for p in 0..n {
            for q in p + 1..n {
                off += a[p][q] * a[p][q];
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
        }
        if off < 1e-26 * (n * n) as f64 {
            break;
        }
    }
    (0..n).map(|i| a[i][i]).fold(f64::INFINITY, f64::min)
}

fn gram(m: &mut M) -> R {
    let d = m.rng.range(1, 4);
    let mut k = KSpec::gen(&mut m.rng, d);
    if k.kind == KK::Cosine {
        k.kind = KK::Matern52;
    }
    let n = m.rng.range(2, if m.small { 3 } else { 10 });
    // clustered and spread points
    let mut ps: Vec<Vec<f64>> = vec![pt(m, d, None)];
    while ps.len() < n {
        let b = m.rng.pick(&ps).clone();
        let p = pt(m, d, Some(&b));
        ps.push(p);
    }
    m.ev("gram");
    m.fp(format!("{k:?} {ps:?}"));
    m.nontrivial();
    m.sample(|| format!("Gram matrix of {k:?} on {n} points"));
    let b = k.build();
    let mut g: Vec<Vec<f64>> = ps.iter().map(|x| ps.iter().map(|y| b.kernel(&x[..], &y[..]) / k.variance).collect()).collect();
    for i in 0..n {
        for j in 0..n {
            let (x, y) = (g[i][j], g[j][i]);
            m.close(x, y, 1e-12, "C09/symmetry", || format!("{k:?} on {:?}, {:?}", ps[i], ps[j]))?;
        }
    }
    let e = min_eig(&mut g);
    m.ok(e >= -1e-9, "C09/psd", || format!("eigenvalue {e:e} of the Gram matrix of {k:?} on {ps:?}"))
}

fn basis(m: &mut M) -> R {
    let many = !m.small && m.rng.chance(0.004);
    let d = if many { 1 } else { m.rng.range(1, 4) };
    let n = if many {
        m.ev("thousands of prototypes");
        *m.rng.pick(&[1000, 2049, 4097, 6000, 8193, 66_000])
    } else {
        m.rng.range(0, 10)
    };
    let homo = m.rng.chance(0.5);
    let k0 = KSpec::gen(&mut m.rng, d);
    let ps: Vec<(KSpec, Vec<f64>)> = (0..n)
        .map(|_| (if homo { k0.clone() } else { KSpec::gen(&mut m.rng, d) }, pt(m, d, None)))
        .collect();
    let x = pt(m, d, None);
    m.fp(format!("{ps:?}"));
    m.fpf(&x);
    if n > 0 {
        m.nontrivial();
    }
    m.ev("basis");
    m.sample(|| format!("{n} prototypes (homogeneous: {homo}) at {x:?}"));
    let kb = if homo {
        KernelBasis::homogeneous(ps.iter().map(|p| p.1.clone()).collect::<Vec<_>>(), k0.build())
    } else {
        KernelBasis::new(ps.iter().map(|p| Prototype { centroid: p.1.clone(), kernel: p.0.build() }).collect())
    };
    let dim: usize = kb.dim().into();
    m.ok(dim == n && kb.prototypes.len() == n, "C09/basis-count", || format!("{dim} features for {n} prototypes"))?;
    let xs: &[f64] = &x;
    let f = raw(&kb.project(xs).unwrap());
    m.ok(f.len() == n, "C09/basis-count", || format!("{} features for {n} prototypes", f.len()))?;
    let by_vec = raw(&kb.project(x.clone()).unwrap());
    for i in 0..n {
        let (want, tol) = ps[i].0.want(&ps[i].1, &x);
        let ctx = || format!("prototype {i}: {:?} at {x:?}", ps[i]);
        m.close(f[i], want, tol, "C09/basis", ctx)?;
        m.close(by_vec[i], want, tol, "C09/basis", ctx)?;
        m.close(kb.prototypes[i].distance_from(&x[..]), want, tol, "C09/basis", ctx)?;
        m.close(kb.ith(xs, i).unwrap(), want, tol, "C09/basis", ctx)?;
        m.ok(kb.prototypes[i].centroid == ps[i].1, "C09/basis-order", ctx)?;
    }
    // prototypes are public: edits take effect
    let (mut kb, mut ps) = (kb, ps);
    if n > 0 {
        m.ev("edited prototypes");
        for _ in 0..m.rng.range(1, 3) {
            let i = m.rng.below(kb.prototypes.len());
            match m.rng.below(4) {
                0 => {
                    let c = pt(m, d, None);
                    kb.prototypes[i].centroid = c.clone();
                    ps[i].1 = c;
                }
                1 => {
                    let k = KSpec::gen(&mut m.rng, d);
                    kb.prototypes[i].kernel = k.build();
                    ps[i].0 = k;
                }
                2 => {
                    kb.prototypes.push(kb.prototypes[i].clone());
                    ps.push(ps[i].clone());
                }
                _ => {
                    kb.prototypes.swap(0, i);
                    ps.swap(0, i);
                }
            }
            let dim: usize = kb.dim().into();
            let f = raw(&kb.project(xs).unwrap());
            m.ok(dim == ps.len() && f.len() == ps.len(), "C09/basis-count", || format!("dim {dim}, {} features for {} prototypes", f.len(), ps.len()))?;
            for i in 0..ps.len() {
                let (want, tol) = ps[i].0.want(&ps[i].1, &x);
                m.close(f[i], want, tol, "C09/basis", || format!("edited prototype {i}: {:?} at {x:?}", ps[i]))?;
            }
        }
    }
    Ok(())
}

fn partition(m: &mut M) -> R {
    let d = m.rng.range(1, 4);
    let mut l = limits(&mut m.rng, d);
    if m.rng.chance(0.2) {
        m.ev("partition of any size");
        let i = m.rng.below(d);
        let w = logu(&mut m.rng, -12.0, 12.0);
        let k = m.rng.range(0, 6) as f64 - 3.0;
        l[i] = (w * k, w * (k + 1.0));
    }
    let parts: Vec<usize> = (0..d).map(|_| m.rng.range(1, if d <= 2 { 7 } else { 4 })).collect();
    let space: ProductSpace<Equipartition> =
        ProductSpace::new(l.iter().zip(&parts).map(|(a, k)| Equipartition::new(a.0, a.1, *k)).collect());
    m.ev("partition");
    if parts.iter().any(|p| *p != parts[0]) {
        m.ev("unequal partition");
    }
    m.fp(format!("{l:?} {parts:?}"));
    m.nontrivial();
    let n: usize = parts.iter().product();
    let width: Vec<f64> = (0..d).map(|i| (l[i].1 - l[i].0) / parts[i] as f64).collect();
    let mut centres: Vec<Vec<f64>> = Vec::new();
    for k in 0..n {
        let mut q = k;
        let mut c = vec![0.0; d];
        for i in (0..d).rev() {
            let j = q % parts[i];
            q /= parts[i];
            c[i] = l[i].0 + width[i] * (j as f64 + 0.5);
        }
        centres.push(c);
    }
    let x: Vec<f64> = if m.rng.chance(0.5) {
        m.rng.pick(&centres).clone()
    } else {
        (0..d).map(|i| l[i].0 + (l[i].1 - l[i].0) * m.rng.uniform(-0.5, 1.5)).collect()
    };
    m.fpf(&x);
    m.sample(|| format!("limits {l:?} partitions {parts:?} at {x:?}"));
    macro_rules! fam {
        ($ctor:ident, $kind:expr) => {{
            let kb = KernelBasis::$ctor(space.clone());
            let dim: usize = kb.dim().into();
            let ctx = || format!("{} of limits {l:?} partitions {parts:?} at {x:?}", stringify!($ctor));
            m.ok(dim == n, "C09/partition-count", || format!("{dim} features, expected {n}: {}", ctx()))?;
            let f = raw(&kb.project(&x[..]).unwrap());
            m.ok(f.len() == n, "C09/partition-count", || format!("{} features, expected {n}: {}", f.len(), ctx()))?;
            let k = KSpec { kind: $kind, variance: 1.0, ls: width.clone(), power: 1.0 };
            for i in 0..n {
                let (want, tol) = k.want(&centres[i], &x);
                m.close(f[i], want, tol + 1e-11, "C09/partition", || format!("cell {i}: {}", ctx()))?;
            }
        }};
    }
    fam!(exp_quad, KK::ExpQuad);
    fam!(matern_32, KK::Matern32);
    fam!(matern_52, KK::Matern52);
    Ok(())
}
