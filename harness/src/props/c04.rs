//! C04: stacking concatenates features, dimensions and failures.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use lfa::basis::*;
use lfa::{Error, Features};
use spaces::Space;
use std::cell::RefCell;

pub fn property() -> Property {
    Property {
        id: "C04",
        rule: "a case is a nest of stacked feature vectors or bases with an input, compared with the concatenation of its \
               parts; non-trivial when at least two parts are non-empty, distinct by structure and values",
        required: &["stack DD", "stack DS", "stack SD", "stack SS", "basis stack", "basis stack sparse", "failure", "with_bias", "input delivered", "huge dimension", "feature of a failing part", "special value"],
        scenarios: vec![
            scn!("features", 8000, 150_000, 8, features),
            scn!("bases", 5000, 80_000, 3, bases),
            scn!("failures", 3000, 40_000, 3, failures),
            scn!("typed", 1500, 20_000, 2, typed),
            scn!("delivery", 1500, 20_000, 2, delivery),
            scn!("huge", 3000, 50_000, 3, huge),
        ],
    }
}

fn features(m: &mut M) -> R {
    let k = m.rng.range(2, 5);
    let mut parts: Vec<(Features, Vec<f64>)> = (0..k)
        .map(|_| {
            let small = m.small || m.rng.chance(0.6);
            let n = len(&mut m.rng, small);
            let mut v = vals(&mut m.rng, n);
            if n > 0 && m.rng.chance(0.05) {
                m.ev("special value");
                for _ in 0..m.rng.range(1, 3) {
                    let i = m.rng.below(n);
                    v[i] = *m.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, -1e-310, f64::MAX, f64::MIN]);
                }
            }
            (feats(&mut m.rng, &v), v)
        })
        .collect();
    for (f, v) in &parts {
        m.fp(f.is_dense());
        m.fpf(v);
    }
    if parts.iter().filter(|p| !p.1.is_empty()).count() >= 2 {
        m.nontrivial();
    }
    m.sample(|| format!("stack {}", parts.iter().map(|p| repr(&p.0)).collect::<Vec<_>>().join(" | ")));
    // fold in a random association
    while parts.len() > 1 {
        let i = m.rng.below(parts.len() - 1);
        let (g, w) = parts.remove(i + 1);
        let (f, v) = parts.remove(i);
        let (df, dg) = (f.is_dense(), g.is_dense());
        m.ev(match (df, dg) {
            (true, true) => "stack DD",
            (true, false) => "stack DS",
            (false, true) => "stack SD",
            _ => "stack SS",
        });
        let ctx = format!("{} | {}", repr(&f), repr(&g));
        let s = f.stack(g);
        let want: Vec<f64> = v.iter().chain(&w).copied().collect();
        m.ok(s.n_features() == want.len(), "C04/length", || format!("{} for {ctx}", s.n_features()))?;
        m.ok(s.is_sparse() == (!df && !dg), "C04/sparsity", || format!("{} from {ctx}", repr(&s)))?;
        let r = raw(&s);
        let same = r.len() == want.len() && r.iter().zip(&want).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()));
        m.ok(same, "C04/concat", || format!("{} from {ctx}", repr(&s)))?;
        parts.insert(i, (s, want));
    }
    Ok(())
}

/// The projection of `b` against the oracle; `None` when out of domain.
fn check_projection(m: &mut M, sp: &Spec, b: &DynB, x: &[f64]) -> R {
    match sp.want(x) {
        Want::Skip => {
            m.skip();
            Ok(())
        }
        Want::Vals { v, e } => {
            let f = match b.project(x) {
                Ok(f) => f,
                Err(er) => return m.fail("C04/spurious-failure", format!("{er:?} for {sp:?} at {x:?}")),
            };
            m.ok(f.n_features() == v.len() && b.n() == v.len(), "C04/length", || {
                format!("{} features, dim {}, expected {}: {sp:?}", f.n_features(), b.n(), v.len())
            })?;
            m.ok(f.is_sparse() == sp.sparse(), "C04/sparsity", || format!("{} from {sp:?}", repr(&f)))?;
            m.close_vec(&raw(&f), &v, |i| e[i], "C04/concat", || format!("{sp:?} at {x:?}"))
        }
        Want::Err(errs) => {
            m.ev("failure");
            match b.project(x) {
                Ok(f) => m.fail("C04/failure-lost", format!("{} although a part fails: {sp:?} at {x:?}", repr(&f))),
                Err(e) => m.ok(errs.contains(&e), "C04/failure", || format!("{e:?}, expected one of {errs:?}: {sp:?}")),
            }
        }
    }
}

fn bases(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let o = Opt::new().depth(2);
    let k = m.rng.range(2, if m.small { 2 } else { 4 });
    let mut sp = spec(&mut m.rng, d, &o);
    let mut n_bias = 0;
    for _ in 1..k {
        let t = if m.rng.chance(0.25) {
            n_bias += 1;
            Spec::Bias(1.0)
        } else {
            spec(&mut m.rng, d, &o)
        };
        let how = m.rng.below(2) as u8;
        sp = if m.rng.chance(0.7) || matches!(t, Spec::Bias(_)) {
            Spec::Stack(Box::new(sp), Box::new(t), how)
        } else {
            Spec::Stack(Box::new(t), Box::new(sp), how)
        };
    }
    m.fp(format!("{sp:?}"));
    if let Spec::Stack(a, b, _) = &sp {
        if a.dim() > 0 && b.dim() > 0 {
            m.nontrivial();
        }
    }
    let b = sp.build();
    m.ev("basis stack");
    m.evn("with_bias", n_bias);
    if sp.sparse() {
        m.ev("basis stack sparse");
    }
    m.sample(|| format!("{sp:?}"));
    for _ in 0..3 {
        let x = input(&mut m.rng, d);
        m.fpf(&x);
        check_projection(m, &sp, &b, &x)?;
        // and against the parts' own projections
        if let Spec::Stack(p, q, _) = &sp {
            let (pb, qb) = (p.build(), q.build());
            if let (Ok(f), Ok(g), Ok(s)) = (pb.project(&x), qb.project(&x), b.project(&x)) {
                let mut want = raw(&f);
                want.extend(raw(&g));
                let got = raw(&s);
                if want.iter().all(|x| x.is_finite()) {
                    m.close_vec(&got, &want, |i| 1e-11 * want[i].abs(), "C04/parts", || format!("{sp:?} at {x:?}"))?;
                    m.ok(s.is_sparse() == (f.is_sparse() && g.is_sparse()), "C04/sparsity", || format!("{sp:?}"))?;
                }
            }
        }
    }
    Ok(())
}

fn failures(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let o = Opt::new().depth(2).fallible(true).max_dim(60);
    let a = spec(&mut m.rng, d, &o);
    let c = CSpec { n: *m.rng.pick(&[1usize, 1, 2, 3, 6]), sparse: m.rng.chance(0.5), salt: m.rng.u64(), fallible: true };
    let (cn, want) = (c.n, c.error());
    let c = Spec::Closure(c);
    let how = m.rng.below(2) as u8;
    let mut at = 0;
    let sp = if m.rng.chance(0.5) {
        at = a.dim();
        Spec::Stack(Box::new(a), Box::new(c), how)
    } else {
        Spec::Stack(Box::new(c), Box::new(a), how)
    };
    m.fp(format!("{sp:?}"));
    m.nontrivial();
    m.sample(|| format!("fallible {sp:?}"));
    let b = sp.build();
    for _ in 0..4 {
        let x = if m.rng.chance(0.5) { failing_input(&mut m.rng, d) } else { input(&mut m.rng, d) };
        m.fpf(&x);
        check_projection(m, &sp, &b, &x)?;
        if x[0] >= FAIL_AT {
            // nor is there a single feature of the part that fails
            m.ev("feature of a failing part");
            for i in at..at + cn {
                let got = b.ith(&x, i);
                m.ok(got.as_ref() == Err(&want), "C04/failure", || format!("ith({i}) is {got:?}, expected {want:?}: {sp:?}"))?;
            }
        }
    }
    Ok(())
}

/// Statically typed compositions through the combinators.
fn typed(m: &mut M) -> R {
    let d = idim(&mut m.rng);
    let l = limits(&mut m.rng, d);
    let ord = m.rng.range(0, 2) as u8;
    let x = input(&mut m.rng, d);
    m.fpf(&x);
    m.fp(ord);
    m.nontrivial();
    let four = Fourier::new(ord, l.clone());
    let n = m.rng.range(1, 9);
    let ix: Vec<usize> = (0..m.rng.below(4)).map(|_| m.rng.below(n)).collect();
    let fs = Fixed::sparse(n, ix.clone());
    let (fv, _) = fourier_want(ord as usize, &l, &x);
    let mut sv = vec![0.0; n];
    for &i in &ix {
        sv[i] = 1.0;
    }
    let xs: &[f64] = &x;
    m.ev("with_bias");
    m.sample(|| format!("Fourier({ord}, {l:?}) / Fixed::sparse({n}, {ix:?}) at {x:?}"));
    let b = four.clone().stack(fs.clone()).with_bias();
    let want: Vec<f64> = fv.iter().chain(&sv).copied().chain([1.0]).collect();
    let dim: usize = b.dim().into();
    m.ok(dim == want.len(), "C04/length", || format!("dim {dim} vs {}", want.len()))?;
    let got = b.project(xs).unwrap();
    m.ok(got.is_dense(), "C04/sparsity", || "dense part must give a dense stack".into())?;
    m.close_vec(&raw(&got), &want, |_| 1e-9, "C04/concat", || format!("typed stack at {x:?}"))?;
    // sparse | sparse stays sparse
    let b = fs.clone().stack(fs.clone()).stack(fs.clone());
    let want: Vec<f64> = sv.iter().chain(&sv).chain(&sv).copied().collect();
    let got = b.project(xs).unwrap();
    m.ok(got.is_sparse(), "C04/sparsity", || "sparse parts must give a sparse stack".into())?;
    m.ok(raw(&got) == want && got.n_active() == 3 * sv.iter().filter(|v| **v != 0.0).count(), "C04/concat", || {
        format!("{} vs {}", repr(&got), show(&want))
    })?;
    // bias first, bias last
    let b = Stack::new(Bias(2.5), fs.clone().with_bias());
    let mut want = vec![2.5];
    want.extend(&sv);
    want.push(1.0);
    let got = b.project(xs).unwrap();
    m.ok(raw(&got) == want, "C04/concat", || format!("{} vs {}", repr(&got), show(&want)))?;
    // vectors by reference, as most callers pass them
    let got = four.stack(fs).project(&x).unwrap();
    let want: Vec<f64> = fv.iter().chain(&sv).copied().collect();
    m.close_vec(&raw(&got), &want, |_| 1e-9, "C04/concat", || format!("input by reference {x:?}"))
}

/// Both bases receive the input itself, unchanged.
fn delivery(m: &mut M) -> R {
    let d = m.rng.range(1, 5);
    let x = vals(&mut m.rng, d);
    m.fpf(&x);
    m.nontrivial();
    let log: RefCell<Vec<(u8, Vec<f64>)>> = RefCell::new(vec![]);
    let fail1 = m.rng.chance(0.15);
    let fail2 = m.rng.chance(0.15);
    let base = m.rng.below(100);
    m.fp((fail1, fail2));
    let rec = |tag: u8, fail: bool, n: usize| {
        let log = &log;
        Closure::new(n, move |v: Vec<f64>| {
            log.borrow_mut().push((tag, v.clone()));
            if fail {
                Err(foreign(base + tag as usize))
            } else {
                Ok(Features::from(v.iter().map(|t| t * (tag as f64 + 1.0)).collect::<Vec<_>>()))
            }
        })
    };
    let b = rec(1, fail1, d).stack(rec(2, fail2, d)).stack(rec(3, false, d));
    let got = b.project(x.clone());
    m.ev("input delivered");
    m.sample(|| format!("{x:?} through three recording bases, failing: {fail1} {fail2}"));
    let seen = log.borrow().clone();
    for (t, v) in &seen {
        m.ok(v == &x, "C04/input", || format!("basis {t} was given {v:?} instead of {x:?}"))?;
    }
    match got {
        Ok(f) => {
            m.ok(!fail1 && !fail2, "C04/failure-lost", || format!("fail1 {fail1} fail2 {fail2}"))?;
            let mut tags: Vec<u8> = seen.iter().map(|s| s.0).collect();
            tags.sort();
            tags.dedup();
            m.ok(tags == [1, 2, 3], "C04/input", || format!("bases called: {tags:?}"))?;
            let want: Vec<f64> = (1..=3).flat_map(|t| x.iter().map(move |v| v * (t as f64 + 1.0))).collect();
            m.ok(raw(&f) == want, "C04/concat", || format!("{} vs {}", repr(&f), show(&want)))
        }
        Err(e) => {
            m.ev("failure");
            let ok = (fail1 && e == foreign(base + 1)) || (fail2 && e == foreign(base + 2));
            m.ok(ok, "C04/failure", || format!("{e:?} with fail1 {fail1} fail2 {fail2}"))
        }
    }
}

/// Sparse stacks far too long to store densely.
fn huge(m: &mut M) -> R {
    let k = m.rng.range(2, 4);
    let mut want = std::collections::BTreeMap::new();
    let mut ones = std::collections::BTreeMap::new();
    let mut dim = 0usize;
    let mut acc: Option<Features> = None;
    let mut basis: Option<Fixed<(usize, std::collections::HashSet<usize>)>> = None;
    let mut pair = None;
    m.ev("huge dimension");
    m.nontrivial();
    for j in 0..k {
        let d = if m.rng.chance(0.3) { m.rng.below(20) } else { huge_dim(&mut m.rng) };
        let v = if d == 0 { Default::default() } else { huge_entries(&mut m.rng, d) };
        m.fp(d);
        for (i, x) in &v {
            m.fp(*i);
            m.fpf(&[*x]);
            want.insert(dim + i, *x);
            if j < 2 {
                ones.insert(dim + i, 1.0);
            }
        }
        let f = Features::sparse(d, v.iter().map(|(i, x)| (*i, *x)));
        let b = Fixed::sparse(d, v.keys().copied());
        dim += d;
        acc = Some(match acc {
            None => f,
            Some(a) => a.stack(f),
        });
        match (j, basis.take()) {
            (0, _) => basis = Some(b),
            (1, Some(a)) => pair = Some((dim, a.stack(b))),
            _ => {}
        }
    }
    let ctx = || format!("{dim} features, {want:?}");
    m.sample(ctx);
    let f = acc.unwrap();
    let check = |m: &mut M, f: &Features, dim: usize, want: &std::collections::BTreeMap<usize, f64>| {
        m.ok(f.n_features() == dim, "C04/length", || format!("{} instead of {dim}: {}", f.n_features(), ctx()))?;
        m.ok(f.is_sparse(), "C04/sparsity", ctx)?;
        let got: std::collections::BTreeMap<usize, f64> =
            f.clone().map_sparse(|s| s.activations.into_iter().filter(|x| x.1 != 0.0).collect()).unwrap();
        m.ok(got == *want, "C04/concat", || format!("{got:?} instead of {want:?}"))
    };
    check(m, &f, dim, &want)?;
    let (n, b) = pair.unwrap();
    let got: usize = b.dim().into();
    m.ok(got == n, "C04/length", || format!("basis of {got} instead of {n}"))?;
    let x: &[f64] = &[0.5];
    check(m, &b.project(x).unwrap(), n, &ones)?;
    for i in ones.keys().flat_map(|i| [*i, i ^ (1 << 32), i ^ 1]) {
        let want = if i < n { Ok(ones.get(&i).copied().unwrap_or(0.0)) } else { Err(Error::index_error(i, n)) };
        let got = b.ith(x, i);
        m.ok(got == want, "C04/ith", || format!("ith({i}) of {n} is {got:?} instead of {want:?}: {ones:?}"))?;
    }
    Ok(())
}
