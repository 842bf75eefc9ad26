//! C01: a feature vector reads as one value, whatever its storage.
use super::scn;
use crate::engine::*;
use crate::gen::*;
use lfa::{Features, SparseActivations};
use ndarray::Array1;

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "a case is a vector built through some constructor/layout plus a history of edits, every reader compared \
               with a plain Vec model after each edit; non-trivial when the vector has a non-zero entry, distinct by \
               storage, layout, values and edits",
        required: &[
            "read dense", "read sparse", "read strided dense", "remove", "eq", "ne", "convert", "huge dimension", "special value",
            "long index list", "very long index list", "ne with stored zeros", "infinite sum",
        ],
        scenarios: vec![
            scn!("history", 6000, 120_000, 6, history),
            scn!("build", 8000, 200_000, 8, build),
            scn!("equality", 5000, 80_000, 6, equality),
            scn!("indices", 2500, 40_000, 4, indices),
            scn!("huge", 2500, 40_000, 4, huge),
            scn!("special", 2500, 40_000, 4, special),
        ],
    }
}

/// Every reader against the model.  `sparse`: expected storage if known.
pub fn read_all(m: &mut M, f: &Features, v: &[f64], what: &str) -> R {
    let n = v.len();
    m.ev(if f.is_dense() { "read dense" } else { "read sparse" });
    if let Features::Dense(a) = f {
        if n > 1 && a.strides() != [1] {
            m.ev("read strided dense");
        }
    }
    m.ok(f.is_dense() != f.is_sparse(), "C01/storage-flag", || format!("{what}: {}", repr(f)))?;
    m.ok(f.is_dense() == matches!(f, Features::Dense(_)), "C01/storage-flag", || format!("{what}: {}", repr(f)))?;
    m.ok(f.n_features() == n, "C01/n_features", || {
        format!("{what}: n_features {} for length {n}: {}", f.n_features(), repr(f))
    })?;
    for i in 0..n {
        let got = f[i];
        m.ok(got == v[i], "C01/index", || format!("{what}: f[{i}] = {got:e}, stored {:e}: {}", v[i], repr(f)))?;
        let g = f.get(i).copied();
        let fine = match g {
            Some(x) => x == v[i],
            None => f.is_sparse() && v[i] == 0.0,
        };
        m.ok(fine, "C01/get", || format!("{what}: get({i}) = {g:?}, stored {:e}: {}", v[i], repr(f)))?;
        let u = unsafe { f.uget(i) }.copied();
        m.ok(u == g, "C01/uget", || format!("{what}: uget({i}) = {u:?} but get = {g:?}: {}", repr(f)))?;
    }
    // nothing is stored past the end
    for i in [n, n + 1, n + 7, usize::MAX] {
        let g = f.get(i).copied();
        m.ok(g.is_none(), "C01/get-past-end", || format!("{what}: get({i}) = {g:?} of {n} features: {}", repr(f)))?;
    }
    let s = f.sum();
    let mag: f64 = v.iter().map(|x| x.abs()).sum();
    m.close(s, v.iter().sum(), gamma(n, mag), "C01/sum", || format!("{what}: {}", repr(f)))?;
    // folds that do not care about zeros or order
    let l1 = f.fold(0.0, |acc, x| acc + x.abs());
    m.close(l1, mag, gamma(n, mag), "C01/fold", || format!("{what}: sum of |x|: {}", repr(f)))?;
    let nz = f.fold(0.5, |acc, x| if *x != 0.0 { acc + 1.0 } else { acc });
    let want = 0.5 + v.iter().filter(|x| **x != 0.0).count() as f64;
    m.ok(nz == want, "C01/fold", || format!("{what}: counted {nz} from 0.5, expected {want}: {}", repr(f)))?;
    let mx = f.fold(-1.0, |acc, x| acc.max(x.abs()));
    let wmx = v.iter().fold(-1.0f64, |a, x| a.max(x.abs()));
    m.ok(mx == wmx || (mx == -1.0 && wmx == 0.0), "C01/fold", || format!("{what}: max |x| {mx} vs {wmx}: {}", repr(f)))?;
    // each entry is folded once; those of a dense vector in order
    let seen = std::cell::RefCell::new(Vec::new());
    f.fold(0.0, |acc, x| {
        seen.borrow_mut().push(x.to_bits());
        acc
    });
    let mut seen = seen.into_inner();
    let mut all: Vec<u64> = match f {
        Features::Dense(a) => (0..a.len()).map(|i| a[i].to_bits()).collect(),
        Features::Sparse(s) => s.activations.values().map(|x| x.to_bits()).collect(),
    };
    if f.is_sparse() {
        seen.retain(|x| f64::from_bits(*x) != 0.0);
        all.retain(|x| f64::from_bits(*x) != 0.0);
        seen.sort_unstable();
        all.sort_unstable();
    }
    m.ok(seen == all, "C01/fold-entries", || {
        format!("{what}: folded {:?}: {}", seen.iter().take(8).map(|x| f64::from_bits(*x)).collect::<Vec<_>>(), repr(f))
    })?;
    // active count, where no entry is in the zero-or-not grey zone
    let clear = v.iter().all(|x| *x == 0.0 || x.abs() >= 1e-6);
    let explicit = match f {
        Features::Sparse(s) => s.activations.values().any(|x| *x == 0.0),
        _ => false,
    };
    if clear && !explicit {
        let want = v.iter().filter(|x| **x != 0.0).count();
        let got = f.n_active();
        m.ok(got == want, "C01/n_active", || format!("{what}: n_active {got}, expected {want}: {}", repr(f)))?;
    }
    let d = f.to_dense();
    m.ok(d.iter().copied().eq(v.iter().copied()), "C01/to_dense", || {
        format!("{what}: to_dense {:?}: {}", d.iter().take(8).collect::<Vec<_>>(), repr(f))
    })?;
    m.ok(AsRef::<Features>::as_ref(f) as *const _ == f as *const _, "C01/as_ref", || what.into())?;
    Ok(())
}

/// Consuming conversions.
fn convert(m: &mut M, f: &Features, v: &[f64], what: &str) -> R {
    m.ev("convert");
    let a = f.clone().into_dense();
    m.ok(a.iter().copied().eq(v.iter().copied()), "C01/into_dense", || format!("{what}: {}", repr(f)))?;
    let b: Vec<f64> = f.clone().into();
    m.ok(b == v, "C01/into-vec", || format!("{what}: {} from {}", show(&b), repr(f)))?;
    let c: Array1<f64> = f.clone().into();
    m.ok(c.len() == v.len() && (0..v.len()).all(|i| c[i] == v[i]), "C01/into-array", || format!("{what}: {}", repr(f)))?;
    let de = f.clone().map_dense(|a| a.iter().copied().collect::<Vec<_>>());
    let sp = f.clone().map_sparse(|s| (s.dim, s.activations.len()));
    let ei = f.clone().map_either(|a| (true, a.len()), |s| (false, s.dim));
    m.ok(de.is_some() == f.is_dense() && sp.is_some() == f.is_sparse(), "C01/map-dense-sparse", || {
        format!("{what}: map_dense {:?} map_sparse {:?}: {}", de.is_some(), sp.is_some(), repr(f))
    })?;
    m.ok(ei == (f.is_dense(), v.len()), "C01/map-either", || format!("{what}: {ei:?}: {}", repr(f)))?;
    if let Some(d) = de {
        m.ok(d == v, "C01/map-dense-sparse", || format!("{what}: {}", repr(f)))?;
    }
    Ok(())
}

fn start(m: &mut M) -> (Features, Vec<f64>) {
    let n = len(&mut m.rng, m.small);
    let v = vals(&mut m.rng, n);
    let f = if m.rng.chance(0.5) {
        dense_of(&mut m.rng, &v)
    } else {
        let e = m.rng.chance(0.2);
        sparse_of(&mut m.rng, &v, e)
    };
    m.fp(f.is_dense());
    if let Features::Dense(a) = &f {
        m.fp(a.strides().to_vec());
    }
    m.fpf(&v);
    if v.iter().any(|x| *x != 0.0) {
        m.nontrivial();
    }
    (f, v)
}

fn build(m: &mut M) -> R {
    let (f, v) = start(m);
    m.sample(|| format!("read back {}", repr(&f)));
    read_all(m, &f, &v, "as built")?;
    convert(m, &f, &v, "as built")?;
    // reading changed nothing
    m.ok(raw(&f).iter().eq(v.iter()), "C01/read-pure", || repr(&f))
}

fn history(m: &mut M) -> R {
    let (mut f, mut v) = start(m);
    let steps = m.rng.range(1, if m.small { 3 } else { 8 });
    let mut log = vec![repr(&f)];
    read_all(m, &f, &v, "start")?;
    for _ in 0..steps {
        if v.len() > 6000 {
            break;
        }
        let op = m.rng.below(8);
        m.fp(op);
        match op {
            0 | 1 | 2 => {
                // remove, in range (twice the same one, too)
                if v.is_empty() {
                    continue;
                }
                let i = m.rng.below(v.len());
                let (dense, before) = (f.is_dense(), f.n_active());
                let had = f.get(i).map_or(false, |x| x.abs() >= 1e-6);
                let none = f.get(i).map_or(true, |x| *x == 0.0 && dense);
                f.remove(i);
                v[i] = 0.0;
                m.fp(i);
                m.ev("remove");
                log.push(format!("remove({i})"));
                let after = f.n_active();
                m.ok(f.is_dense() == dense, "C01/remove", || log.join("; "))?;
                if had || none {
                    m.ok(after == before - had as usize, "C01/remove", || {
                        format!("n_active {before} -> {after}: {}", log.join("; "))
                    })?;
                }
            }
            3 => {
                // removing past the end is a no-op, never a change of length
                let i = v.len() + m.rng.below(3);
                f.remove(i);
                log.push(format!("remove({i})"));
            }
            4 => {
                let k = len(&mut m.rng, true);
                let w = vals(&mut m.rng, k);
                let g = feats(&mut m.rng, &w);
                log.push(format!("stack({})", repr(&g)));
                f = f.stack(g);
                v.extend(w);
                m.ev("stack");
            }
            5 => {
                let (g, old) = (f.clone(), v.clone());
                if !v.is_empty() {
                    let i = m.rng.below(v.len());
                    f.remove(i);
                    v[i] = 0.0;
                    log.push(format!("clone; remove({i})"));
                }
                read_all(m, &g, &old, "clone kept while the original changed")?;
                m.ev("clone");
            }
            6 => {
                let a: Array1<f64> = f.clone().into();
                f = if m.rng.chance(0.5) { a.into() } else { sparse_of(&mut m.rng, &v, false) };
                log.push("convert".into());
            }
            _ => {
                let k = *m.rng.pick(&[2.0, -1.0, 0.5]);
                f = f.map_into(|x| k * x);
                v.iter_mut().for_each(|x| *x *= k);
                log.push(format!("scale by {k}"));
            }
        }
        let l = log.join("; ");
        read_all(m, &f, &v, &l)?;
    }
    convert(m, &f, &v, "end of history")?;
    m.sample(|| log.join("; "));
    Ok(())
}

fn equality(m: &mut M) -> R {
    let n = len(&mut m.rng, m.small);
    let v = vals(&mut m.rng, n);
    m.fpf(&v);
    let dense = m.rng.chance(0.5);
    m.fp(dense);
    let (a, b) = if dense {
        (dense_of(&mut m.rng, &v), dense_of(&mut m.rng, &v))
    } else {
        (sparse_of(&mut m.rng, &v, false), sparse_of(&mut m.rng, &v, false))
    };
    m.ev("eq");
    m.sample(|| format!("{} == {}", repr(&a), repr(&b)));
    let (r1, r2, r3) = (a == b, b == a, a == a.clone());
    m.ok(r1 && r2 && r3, "C01/eq", || format!("{r1} {r2} {r3} for equal {} and {}", repr(&a), repr(&b)))?;
    m.ok(!(a != b), "C01/eq", || repr(&a))?;
    // a different value anywhere, or another length, is a different vector
    let mut w = v.clone();
    if n > 0 && m.rng.chance(0.8) {
        m.nontrivial();
        let i = m.rng.below(n);
        w[i] = if w[i] == 0.0 {
            *m.rng.pick(&[1.0, 1.0, 1e-9, 5e-324])
        } else {
            *m.rng.pick(&[w[i] * 1.5, 0.0, -w[i], f64::from_bits(w[i].to_bits() + 1), w[i] * (1.0 + 1e-9)])
        };
        m.fp(i);
    } else {
        w.push(*m.rng.pick(&[0.0, 1.0]));
    }
    let c = if dense { dense_of(&mut m.rng, &w) } else { sparse_of(&mut m.rng, &w, false) };
    m.ev("ne");
    let (r1, r2) = (a == c, c == a);
    m.ok(!r1 && !r2, "C01/ne", || format!("{r1} {r2} for different {} and {}", repr(&a), repr(&c)))?;
    // stored zeros do not make up for other entries
    let near = |m: &mut M| -> Vec<f64> {
        (0..n).map(|i| if m.rng.chance(0.4) { v[i] } else { *m.rng.pick(&[0.0, 0.0, 1.0]) }).collect()
    };
    let (x, y) = (near(m), near(m));
    let (fx, fy) = if dense {
        (dense_of(&mut m.rng, &x), dense_of(&mut m.rng, &y))
    } else {
        (sparse_of(&mut m.rng, &x, true), sparse_of(&mut m.rng, &y, true))
    };
    let (r1, r2) = (fx == fy, fy == fx);
    m.ok(r1 == r2, "C01/eq", || format!("{r1} but {r2} the other way round: {} and {}", repr(&fx), repr(&fy)))?;
    if x != y {
        m.ev("ne with stored zeros");
        m.ok(!r1 && (fx != fy), "C01/ne", || format!("different {} and {} compare equal", repr(&fx), repr(&fy)))?;
    }
    Ok(())
}

/// Index-list constructors.
fn indices(m: &mut M) -> R {
    let k = if m.small || m.rng.chance(0.8) {
        m.rng.range(1, 12)
    } else {
        m.ev("long index list");
        *m.rng.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
    };
    let mut hi = *m.rng.pick(&[3usize, 20, 1000, 4000]);
    let k = if k >= 255 && m.rng.chance(0.1) {
        m.ev("very long index list");
        hi = *m.rng.pick(&[40_000, 200_000]);
        m.rng.range(2000, 12_000)
    } else {
        k
    };
    let mut ix: Vec<usize> = (0..k).map(|_| m.rng.below(hi)).collect();
    match m.rng.below(6) {
        // rising, falling, and a mixture of runs
        0 => ix.sort_unstable(),
        1 => ix.sort_unstable_by(|a, b| b.cmp(a)),
        2 => {
            let at = m.rng.below(k);
            ix[at..].sort_unstable();
        }
        _ => {}
    }
    m.fp(ix.clone());
    m.nontrivial();
    let mx = *ix.iter().max().unwrap();
    m.sample(|| format!("indices {ix:?}"));
    // from a list: length is one past the largest index
    let f: Features = ix.clone().into();
    let mut v = vec![0.0; mx + 1];
    for &i in &ix {
        v[i] = 1.0;
    }
    read_all(m, &f, &v, "from index list")?;
    // unitary: explicit length
    let extra = m.rng.below(5);
    let f = Features::unitary(mx + 1 + extra, ix.iter().copied());
    v.extend(vec![0.0; extra]);
    read_all(m, &f, &v, "unitary")?;
    // pairs with arbitrary values, later ones win
    let vals: Vec<f64> = (0..k).map(|_| val(&mut m.rng, Cls::Mid)).collect();
    m.fpf(&vals);
    let pairs: Vec<(usize, f64)> = ix.iter().copied().zip(vals.iter().copied()).collect();
    let mut w = vec![0.0; v.len()];
    for &(i, x) in &pairs {
        w[i] = x;
    }
    let f = Features::sparse(w.len(), pairs.clone());
    read_all(m, &f, &w, "index-value pairs")?;
    let sa = SparseActivations { dim: w.len(), activations: pairs.into_iter().collect() };
    let mut seen: Vec<(usize, f64)> = sa.iter().map(|(i, x)| (*i, *x)).collect();
    seen.sort_by(|a, b| a.0.cmp(&b.0));
    let want: Vec<(usize, f64)> = (0..w.len()).filter(|i| w[*i] != 0.0).map(|i| (i, w[i])).collect();
    m.ok(seen == want, "C01/sparse-iter", || format!("{seen:?} vs {want:?}"))?;
    let g = Features::from(sa);
    read_all(m, &g, &w, "from sparse map")?;
    m.ok(f == g, "C01/eq", || format!("{} vs {}", repr(&f), repr(&g)))?;
    convert(m, &g, &w, "from sparse map")?;
    m.ev("convert");
    Ok(())
}

/// Sparse vectors far too long to store densely.
fn huge(m: &mut M) -> R {
    let dim = huge_dim(&mut m.rng);
    let mut v = huge_entries(&mut m.rng, dim);
    m.fp(dim);
    for (i, x) in &v {
        m.fp(*i);
        m.fpf(&[*x]);
    }
    if !v.is_empty() {
        m.nontrivial();
    }
    let mut pairs: Vec<(usize, f64)> = v.iter().map(|(i, x)| (*i, *x)).collect();
    m.rng.shuffle(&mut pairs);
    let mut f = match m.rng.below(3) {
        0 => Features::sparse(dim, pairs.clone()),
        1 => SparseActivations { dim, activations: pairs.iter().copied().collect() }.into(),
        _ => {
            v.values_mut().for_each(|x| *x = 1.0);
            Features::unitary(dim, pairs.iter().map(|p| p.0))
        }
    };
    m.ev("huge dimension");
    let mut log = vec![format!("dim {dim} entries {v:?}")];
    m.sample(|| log[0].clone());
    for step in 0..4 {
        let l = log.join("; ");
        let ctx = || l.clone();
        m.ok(f.is_sparse() && f.n_features() == dim, "C01/n_features", || format!("{}: {}", f.n_features(), ctx()))?;
        m.ok(f.n_active() == v.len(), "C01/n_active", || format!("{}: {}", f.n_active(), ctx()))?;
        let mut probes: Vec<usize> = v.keys().flat_map(|i| [*i, i + 1, i.wrapping_sub(1), i & 0xffff, i & 0xffff_ffff, i ^ (1 << 32), i ^ (1 << 31)]).collect();
        probes.extend([0, dim - 1, dim / 2]);
        for i in probes {
            if i >= dim {
                continue;
            }
            let want = v.get(&i).copied();
            m.ok(f.get(i).copied() == want, "C01/get", || format!("get({i}) = {:?}, stored {want:?}: {}", f.get(i), ctx()))?;
            m.ok(unsafe { f.uget(i) }.copied() == want, "C01/uget", || format!("uget({i}), stored {want:?}: {}", ctx()))?;
            m.ok(f[i] == want.unwrap_or(0.0), "C01/index", || format!("f[{i}] = {:e}, stored {want:?}: {}", f[i], ctx()))?;
        }
        let mag: f64 = v.values().map(|x| x.abs()).sum();
        m.close(f.sum(), v.values().sum(), gamma(v.len(), mag), "C01/sum", ctx)?;
        m.close(f.fold(0.0, |a, x| a + x.abs()), mag, gamma(v.len(), mag), "C01/fold", ctx)?;
        let g = Features::sparse(dim, v.iter().map(|(i, x)| (*i, *x)));
        m.ok(f == g && g == f, "C01/eq", ctx)?;
        m.ok(f != Features::sparse(dim ^ (1 << 33), v.iter().map(|(i, x)| (*i, *x))), "C01/ne", || format!("another dimension: {}", ctx()))?;
        if let Some((&i, &x)) = v.iter().nth(m.rng.below(v.len())) {
            let mut w = v.clone();
            w.remove(&i);
            let j = i ^ (1usize << *m.rng.pick(&[0, 8, 16, 31, 32]));
            if !w.contains_key(&j) && j < dim {
                w.insert(j, x);
                m.ok(f != Features::sparse(dim, w.clone()), "C01/ne", || format!("{i} moved to {j}: {}", ctx()))?;
            }
        }
        if step == 3 || v.is_empty() {
            break;
        }
        // remove an entry, or nothing
        let k = m.rng.below(v.len());
        let mut i = *v.keys().nth(k).unwrap();
        if m.rng.chance(0.3) {
            i ^= 1 << *m.rng.pick(&[16, 31, 32]);
        }
        log.push(format!("remove({i})"));
        m.ev("remove");
        f.remove(i);
        v.remove(&i);
    }
    Ok(())
}

/// Infinities, NaN and subnormals are entries like any other.
fn special(m: &mut M) -> R {
    let n = m.rng.range(1, if m.small { 4 } else { 30 });
    let v: Vec<f64> = (0..n)
        .map(|_| {
            if m.rng.chance(0.4) {
                *m.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, -5e-324, 1e-310, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 0.0])
            } else {
                m.rng.uniform(-2.0, 2.0)
            }
        })
        .collect();
    m.fpf(&v);
    m.nontrivial();
    m.ev("special value");
    let mut fs = vec![dense_of(&mut m.rng, &v), sparse_of(&mut m.rng, &v, false)];
    m.sample(|| format!("{v:?}"));
    let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    let gone = m.rng.below(n);
    for f in fs.iter_mut() {
        for pass in 0..2 {
            let mut w = v.clone();
            if pass == 1 {
                f.remove(gone);
                w[gone] = 0.0;
            }
            let ctx = || format!("{v:?} (removed {gone}: {pass}): {}", repr(f));
            let all = |k: &str, got: Vec<f64>, m: &mut M| {
                m.ok(got.len() == n && (0..n).all(|i| same(got[i], w[i])), &format!("C01/{k}"), || format!("{got:?} from {}", ctx()))
            };
            all("index", (0..n).map(|i| f[i]).collect(), m)?;
            all("get", (0..n).map(|i| f.get(i).copied().unwrap_or(0.0)).collect(), m)?;
            all("to_dense", f.to_dense().to_vec(), m)?;
            all("into_dense", f.clone().into_dense().to_vec(), m)?;
            all("into-vec", f.clone().into(), m)?;
            let g = if f.is_dense() { dense_of(&mut m.rng, &w) } else { sparse_of(&mut m.rng, &w, false) };
            let nan = w.iter().any(|x| x.is_nan());
            m.ok((*f == g) == !nan, "C01/eq", || format!("{} compared equal: {}", repr(&g), *f == g))?;
            let (up, down) = (w.contains(&f64::INFINITY), w.contains(&f64::NEG_INFINITY));
            let most: f64 = w.iter().map(|x| x.abs() / 1e10).filter(|x| x.is_finite()).sum();
            if up != down && !nan && most < 1e290 {
                let s = f.sum();
                let want = if up { f64::INFINITY } else { f64::NEG_INFINITY };
                m.ev("infinite sum");
                m.ok(s == want, "C01/sum", || format!("{s} instead of {want}: {}", ctx()))?;
            }
            let big = f.fold(0.0, |a, x| if x.abs() > 1.5 { a + 1.0 } else { a });
            let want = w.iter().filter(|x| x.abs() > 1.5).count() as f64;
            m.ok(big == want, "C01/fold", || format!("{big} entries above 1.5: {}", ctx()))?;
        }
    }
    Ok(())
}
