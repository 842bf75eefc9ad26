//! C12: normalised bases rescale by their norm and change nothing else.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use lfa::basis::*;
use lfa::Features;
use spaces::Space;

pub fn property() -> Property {
    Property {
        id: "C12",
        rule: "a case is a feature vector (or composition) behind one of the four normalisers, compared with the vector over \
               its norm; non-trivial when at least two entries differ in magnitude, distinct by norm, storage and values",
        required: &["l0 dense", "l0 sparse", "l1 dense", "l1 sparse", "l2 dense", "l2 sparse", "linf dense", "linf sparse", "scaled", "failure", "nested", "negative maximum", "huge dimension", "extreme scale"],
        scenarios: vec![
            scn!("vectors", 15_000, 300_000, 10, vectors),
            scn!("compositions", 5000, 80_000, 3, compositions),
            scn!("failures", 2000, 20_000, 3, failures),
            scn!("extreme", 4000, 60_000, 3, extreme),
        ],
    }
}

fn values(m: &mut M) -> Vec<f64> {
    loop {
        let n = len_pos(&mut m.rng, m.small);
        let c = *m.rng.pick(&[Cls::Int, Cls::Uniform, Cls::Mid, Cls::Dyadic, Cls::Ones]);
        let mut v = vals_of(&mut m.rng, n, c);
        v.iter_mut().for_each(|x| {
            if x.abs() < 1e-6 {
                *x = 0.0
            }
        });
        if v.iter().any(|x| *x != 0.0) {
            return v;
        }
    }
}

const NORMS: [(&str, u8); 4] = [("l0", 0), ("l1", 1), ("l2", 2), ("linf", 9)];

fn norm(p: u8, v: &[f64]) -> f64 {
    match p {
        0 => v.iter().filter(|x| **x != 0.0).count() as f64,
        1 => v.iter().map(|x| x.abs()).sum(),
        2 => {
            let s = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
            s * v.iter().map(|x| (x / s) * (x / s)).sum::<f64>().sqrt()
        }
        _ => v.iter().fold(0.0, |a: f64, x| a.max(x.abs())),
    }
}

fn through(p: u8, how: usize, f: &Features) -> lfa::Result<Features> {
    let g = f.clone();
    let b = Closure::new(f.n_features(), move |_: &[f64]| Ok(g.clone()));
    let x: &[f64] = &[0.5];
    match (p, how) {
        (0, 0) => L0Normaliser::new(b).project(x),
        (0, _) => b.normalise_l0().project(x),
        (1, 0) => L1Normaliser::new(b).project(x),
        (1, _) => b.normalise_l1().project(x),
        (2, 0) => L2Normaliser::new(b).project(x),
        (2, _) => b.normalise_l2().project(x),
        (_, 0) => LinfNormaliser::new(b).project(x),
        _ => b.normalise_linf().project(x),
    }
}

fn vectors(m: &mut M) -> R {
    let v = values(m);
    let n = v.len();
    let f = feats(&mut m.rng, &v);
    let (name, p) = *m.rng.pick(&NORMS);
    let how = m.rng.below(2);
    m.ev(&format!("{name} {}", if f.is_dense() { "dense" } else { "sparse" }));
    let top = v.iter().fold(0.0f64, |a, x| if x.abs() > a.abs() { *x } else { a });
    if top < 0.0 {
        m.ev("negative maximum");
    }
    m.fp((name, f.is_dense()));
    m.fpf(&v);
    if v.iter().any(|x| x.abs() != v[0].abs()) {
        m.nontrivial();
    }
    m.sample(|| format!("{name} of {}", repr(&f)));
    let z = norm(p, &v);
    let g = through(p, how, &f).unwrap();
    let ctx = || format!("{name} of {} (norm {z:e})", repr(&f));
    m.ok(g.n_features() == n, "C12/length", || format!("{}: {}", g.n_features(), ctx()))?;
    m.ok(g.is_dense() == f.is_dense(), "C12/storage", || format!("{}: {}", repr(&g), ctx()))?;
    let r = raw(&g);
    let rel = (n as f64 + 16.0) * 8.0 * EPS;
    let sig = format!("C12/{name}");
    for i in 0..n {
        m.close(r[i], v[i] / z, rel * (v[i] / z).abs(), &sig, || format!("entry {i} {}", ctx()))?;
        m.ok((r[i] == 0.0) == (v[i] == 0.0), "C12/zeros", || format!("entry {i} is {} from {}: {}", r[i], v[i], ctx()))?;
    }
    if p != 0 {
        m.close(norm(p, &r), 1.0, rel * 4.0, "C12/unit-norm", ctx)?;
        // positive scaling of the activations changes nothing
        let k = *m.rng.pick(&[2.0, 0.5, 3.7, 1e3, 1e-3]);
        let s: Vec<f64> = v.iter().map(|x| x * k).collect();
        let fs = if f.is_dense() { dense_of(&mut m.rng, &s) } else { sparse_of(&mut m.rng, &s, false) };
        m.ev("scaled");
        let gs = raw(&through(p, how, &fs).unwrap());
        m.close_vec(&gs, &r, |i| 2.0 * rel * r[i].abs(), "C12/scale", || format!("scaled by {k}: {}", ctx()))?;
        // normalising again changes nothing
        let again = raw(&through(p, how, &g).unwrap());
        m.close_vec(&again, &r, |i| 2.0 * rel * r[i].abs(), "C12/idempotent", ctx)?;
    }
    // fixed bases, typed
    if f.is_dense() && m.rng.chance(0.3) {
        let b = Fixed::dense(v.clone());
        let x: &[f64] = &[];
        let g = match p {
            0 => b.normalise_l0().project(x),
            1 => b.normalise_l1().project(x),
            2 => b.normalise_l2().project(x),
            _ => b.normalise_linf().project(x),
        };
        m.close_vec(&raw(&g.unwrap()), &r, |i| rel * r[i].abs(), &sig, ctx)?;
    }
    Ok(())
}

fn compositions(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let depth = m.rng.below(3);
    let inner = spec(&mut m.rng, d, &Opt::new().depth(depth).max_dim(80));
    let (name, p) = *m.rng.pick(&NORMS);
    let sp = Spec::Norm(p, Box::new(inner), m.rng.below(2) as u8);
    let sp = match m.rng.below(3) {
        0 => Spec::Stack(Box::new(sp), Box::new(spec(&mut m.rng, d, &Opt::new().depth(1))), 1),
        1 => Spec::Norm(m.rng.pick(&NORMS).1, Box::new(sp), 1),
        _ => sp,
    };
    m.ev("nested");
    m.fp(format!("{sp:?}"));
    if sp.dim() > 1 {
        m.nontrivial();
    }
    m.sample(|| format!("{sp:?}"));
    let b = sp.build();
    let dim: usize = b.dim().into();
    m.ok(dim == sp.dim(), "C12/length", || format!("dim {dim}: {sp:?}"))?;
    for _ in 0..3 {
        let x = input(&mut m.rng, d);
        m.fpf(&x);
        match sp.want(&x) {
            Want::Vals { v, e } => {
                let f = b.project(&x[..]).unwrap();
                m.ok(f.is_sparse() == sp.sparse(), "C12/storage", || format!("{sp:?}"))?;
                m.close_vec(&raw(&f), &v, |i| e[i], &format!("C12/{name}"), || format!("{sp:?} at {x:?}"))?;
            }
            _ => m.skip(),
        }
    }
    Ok(())
}

fn failures(m: &mut M) -> R {
    let code = m.rng.below(100_000);
    let thr = m.rng.uniform(-1.0, 1.0);
    m.fp(code);
    m.fpf(&[thr]);
    m.nontrivial();
    let mk = || {
        Closure::new(2, move |x: f64| {
            if x > thr {
                Err(foreign(code))
            } else {
                Ok(Features::from(vec![3.0, -4.0]))
            }
        })
    };
    m.sample(|| format!("basis failing above {thr}"));
    for _ in 0..4 {
        let x = m.rng.uniform(-2.0, 2.0);
        let outs = [
            mk().normalise_l0().project(x),
            mk().normalise_l1().project(x),
            mk().normalise_l2().project(x),
            mk().normalise_linf().project(x),
            mk().normalise_l2().normalise_l1().project(x),
        ];
        for (i, o) in outs.iter().enumerate() {
            match o {
                Err(e) => {
                    m.ev("failure");
                    m.ok(x > thr && *e == foreign(code), "C12/failure", || format!("normaliser {i}: {e:?}"))?
                }
                Ok(f) => {
                    let z = [2.0, 7.0, 5.0, 4.0, 7.0][i];
                    m.ok(x <= thr, "C12/failure-lost", || format!("normaliser {i}: {}", repr(f)))?;
                    m.close_vec(&raw(f), &[3.0 / z, -4.0 / z], |_| 1e-14, "C12/values", || format!("normaliser {i}"))?
                }
            }
        }
    }
    Ok(())
}

/// Very large and very small activations (short of overflowing their squares,
/// for L2) and very long sparse vectors.
fn extreme(m: &mut M) -> R {
    let (name, p) = *m.rng.pick(&NORMS[1..]);
    let top = if p == 2 { 140.0 } else { 290.0 };
    let n = m.rng.range(1, if m.small { 4 } else { 20 });
    let about = m.rng.uniform(-top, top - 8.0);
    let v: Vec<f64> = (0..n).map(|_| sign(&mut m.rng) * logu(&mut m.rng, about, about + 6.0)).collect();
    m.fp(name);
    m.fpf(&v);
    if n > 1 {
        m.nontrivial();
    }
    m.ev("extreme scale");
    let how = m.rng.below(2);
    let z = norm(p, &v);
    let rel = (n as f64 + 16.0) * 8.0 * EPS;
    let sig = format!("C12/{name}");
    let ctx = || format!("{name} of {} (norm {z:e})", show(&v));
    m.sample(ctx);
    for f in [dense_of(&mut m.rng, &v), sparse_of(&mut m.rng, &v, false)] {
        let g = through(p, how, &f).unwrap();
        let r = raw(&g);
        m.ok(g.is_dense() == f.is_dense(), "C12/storage", ctx)?;
        m.ok(r.len() == n, "C12/length", ctx)?;
        m.close_vec(&r, &v.iter().map(|x| x / z).collect::<Vec<_>>(), |i| rel * (v[i] / z).abs(), &sig, ctx)?;
    }
    // far apart indices
    let dim = huge_dim(&mut m.rng);
    let w: Vec<(usize, f64)> = (0..n).map(|i| (dim - 1 - i * 65_536, v[i])).collect();
    m.ev("huge dimension");
    let g = through(p, how, &Features::sparse(dim, w.clone())).unwrap();
    m.ok(g.is_sparse(), "C12/storage", ctx)?;
    m.ok(g.n_features() == dim && g.n_active() == n, "C12/length", || format!("{} of {}: {}", g.n_active(), g.n_features(), ctx()))?;
    let got: Vec<f64> = w.iter().map(|(i, _)| g[*i]).collect();
    m.close_vec(&got, &v.iter().map(|x| x / z).collect::<Vec<_>>(), |i| rel * (v[i] / z).abs(), &sig, || format!("dimension {dim}: {}", ctx()))
}
