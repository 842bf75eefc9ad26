//! C11: tile coding generalises exactly through shared tiles.
use super::scn;
use crate::bases::*;
use crate::engine::*;
use crate::gen::*;
use lfa::basis::*;
use lfa::Features;
use spaces::Space;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C11",
        rule: "a case is a tile coding (tilings, memory, hasher) with inputs or pairs of inputs: activity, determinism, and \
               shared features against the number of shared tiles; non-trivial with at least one input coordinate, distinct \
               by coding and inputs",
        required: &[
            "pair near", "pair far", "pair negative", "pair across zero", "same tiles", "some tiles shared", "no tile shared",
            "tiny memory", "weak hasher", "sip hasher", "4+ tilings", "tile boundary",
            "hundreds of tilings", "many tilings of many coordinates", "pair powers of two apart", "huge coordinate", "numbering hasher", "even memory", "odd memory",
            "hash at the end of a range", "hashes differing in a few bits",
        ],
        scenarios: vec![
            scn!("pairs", 25_000, 500_000, 10, pairs),
            scn!("activity", 8000, 100_000, 6, activity),
            scn!("numbered", 6000, 100_000, 4, numbered),
            scn!("same_tile", 5000, 100_000, 4, same_tile),
        ],
    }
}

/// A hash that collides all the time.
#[derive(Clone, Copy, Debug)]
pub struct Weak;
pub struct WeakHasher(u64);
impl BuildHasher for Weak {
    type Hasher = WeakHasher;
    fn build_hasher(&self) -> WeakHasher {
        WeakHasher(5)
    }
}
impl Hasher for WeakHasher {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*b as u64);
        }
    }
    fn finish(&self) -> u64 {
        self.0 | 0xffff_0000_0000_0000
    }
}

/// Every hash is the one given.
#[derive(Clone, Copy, Debug)]
pub struct Always(pub u64);
impl BuildHasher for Always {
    type Hasher = Always;
    fn build_hasher(&self) -> Always {
        *self
    }
}
impl Hasher for Always {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 {
        self.0
    }
}

type Sip = BuildHasherDefault<DefaultHasher>;

fn tiles(x: &[f64], n: usize) -> Vec<Vec<i64>> {
    let q: Vec<i64> = x.iter().map(|v| (v * n as f64).floor() as i64).collect();
    (0..n as i64)
        .map(|t| q.iter().enumerate().map(|(i, s)| (s + t * (1 + 2 * i as i64)).div_euclid(n as i64)).collect())
        .collect()
}

fn on(m: &mut M, f: &Features, mem: usize, n: usize, ctx: &dyn Fn() -> String) -> R<HashSet<usize>> {
    m.ok(f.n_features() == mem, "C11/length", || format!("{} features for memory {mem}: {}", f.n_features(), ctx()))?;
    let s: HashSet<usize> = match f {
        Features::Sparse(s) => {
            m.ok(s.activations.values().all(|v| *v == 1.0), "C11/value", || format!("{}: {}", repr(f), ctx()))?;
            s.activations.keys().copied().collect()
        }
        Features::Dense(_) => return m.fail("C11/storage", format!("dense projection: {}", ctx())),
    };
    m.ok(!s.is_empty() && s.len() <= n, "C11/active", || format!("{} active of {n} tilings: {}", s.len(), ctx()))?;
    m.ok(s.iter().all(|i| *i < mem), "C11/range", || format!("{s:?} with memory {mem}: {}", ctx()))?;
    Ok(s)
}

fn n_tilings(m: &mut M) -> usize {
    match m.rng.below(6) {
        0 => 1,
        1 => *m.rng.pick(&[2, 4, 8, 16, 32, 64]),
        2 if m.rng.chance(0.1) && !m.small => {
            m.ev("hundreds of tilings");
            m.rng.range(100, 600)
        }
        _ => m.rng.range(2, 24),
    }
}

fn coord(m: &mut M, n: usize) -> f64 {
    match m.rng.below(6) {
        // exactly on a quantisation step (dyadic n) or close to one
        0 => (m.rng.range(0, 40) as f64 - 20.0) / n as f64,
        1 => m.rng.range(0, 10) as f64 - 5.0,
        2 => sign(&mut m.rng) * logu(&mut m.rng, -3.0, 8.0),
        3 if m.rng.chance(0.3) => {
            m.ev("huge coordinate");
            sign(&mut m.rng) * logu(&mut m.rng, 8.0, 14.9) / n as f64
        }
        _ => m.rng.uniform(-3.0, 3.0),
    }
}

fn activity(m: &mut M) -> R {
    let d = m.rng.range(1, 6);
    let n = n_tilings(m);
    let mem = *m.rng.pick(&[
        1usize, 2, 3, 10, 64, 1000, 65536, 1 << 20, 1 << 40, (1 << 24) + 1, (1 << 31) - 1, u32::MAX as usize, (1 << 32) + 1,
        (1 << 53) - 1, (1 << 53) + 1, (1 << 62) + 3, usize::MAX / 2,
    ]);
    let x: Vec<f64> = (0..d).map(|_| coord(m, n)).collect();
    let salt = m.rng.u64();
    m.fp((n, mem));
    m.fpf(&x);
    m.nontrivial();
    if mem <= 3 {
        m.ev("tiny memory");
    }
    m.sample(|| format!("{n} tilings, memory {mem}, at {x:?}"));
    let xs: &[f64] = &x;
    let ctx = || format!("{n} tilings, memory {mem}, at {x:?}");
    macro_rules! with {
        ($h:expr) => {{
            let b = TileCoding::new($h, n, mem);
            let dim: usize = b.dim().into();
            m.ok(dim == mem, "C11/length", || ctx())?;
            let f = b.project(xs).unwrap();
            let s = on(m, &f, mem, n, &ctx)?;
            // the same again, from a coding built with the same hasher too
            let g = b.project(xs).unwrap();
            let s2 = on(m, &g, mem, n, &ctx)?;
            m.ok(s == s2, "C11/deterministic", || format!("{s:?} then {s2:?}: {}", ctx()))?;
            let c = TileCoding::new($h, n, mem);
            let g = c.project(&x).unwrap();
            let s3 = on(m, &g, mem, n, &ctx)?;
            m.ok(s == s3, "C11/deterministic", || format!("{s:?} and {s3:?} from equal codings: {}", ctx()))?;
        }};
    }
    match m.rng.below(5) {
        0 => {
            m.ev("weak hasher");
            with!(Weak)
        }
        1 => {
            // around the ends of the ranges indices live in
            m.ev("hash at the end of a range");
            let k = 1 + m.rng.u64() % 3;
            let mm = mem as u64;
            let v = *m.rng.pick(&[0, mm - 1, mm, mm + 1, (mm.wrapping_mul(k)).wrapping_sub(1), u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX, u64::MAX - k]);
            with!(Always(v))
        }
        2 => {
            m.ev("sip hasher");
            with!(Sip::default())
        }
        3 => {
            let rs = RandomState::new();
            with!(rs.clone())
        }
        _ => with!(Fold { salt }),
    }
    Ok(())
}

fn shared(m: &mut M, n: usize, salt: u64, sip: bool, x: &[f64], y: &[f64]) -> R<usize> {
    // collisions are out of the question: 64-bit hashes into 2^62 cells
    let mem = 1usize << 62;
    let ctx = || format!("{n} tilings, {} hasher, {x:?} and {y:?}", if sip { "sip" } else { "fold" });
    let (fx, fy) = if sip {
        m.ev("sip hasher");
        let b = TileCoding::new(Sip::default(), n, mem);
        (b.project(x).unwrap(), b.project(y).unwrap())
    } else {
        let b = TileCoding::new(Fold { salt }, n, mem);
        (b.project(x).unwrap(), b.project(y).unwrap())
    };
    let sx = on(m, &fx, mem, n, &ctx)?;
    let sy = on(m, &fy, mem, n, &ctx)?;
    m.ok(sx.len() == n && sy.len() == n, "C11/collision", || {
        format!("{} and {} active features without collisions: {}", sx.len(), sy.len(), ctx())
    })?;
    let got = sx.intersection(&sy).count();
    let (tx, ty) = (tiles(x, n), tiles(y, n));
    let want = (0..n).filter(|t| tx[*t] == ty[*t]).count();
    m.ok(got == want, "C11/shared", || {
        format!("{got} shared features, but the same tile in {want} tilings: {}", ctx())
    })?;
    m.ev(if want == n {
        "same tiles"
    } else if want > 0 {
        "some tiles shared"
    } else {
        "no tile shared"
    });
    Ok(want)
}

fn pairs(m: &mut M) -> R {
    let wide = !m.small && m.rng.chance(0.01);
    let (d, n) = if wide {
        m.ev("many tilings of many coordinates");
        (m.rng.range(20, 100), m.rng.range(100, 600))
    } else {
        (*m.rng.pick(&[1usize, 1, 2, 2, 3, 4, 6, 9, 14]), n_tilings(m))
    };
    if n >= 4 {
        m.ev("4+ tilings");
    }
    let x: Vec<f64> = (0..d).map(|_| coord(m, n)).collect();
    let near = m.rng.chance(0.8);
    let y: Vec<f64> = if m.rng.chance(0.08) {
        // the same low bits in one coordinate
        m.ev("pair powers of two apart");
        let k = *m.rng.pick(&[8, 15, 16, 24, 31, 32, 33, 40]);
        let step = (1u64 << k) as f64 / if m.rng.chance(0.5) { n as f64 } else { 1.0 };
        let i = m.rng.below(d);
        let mut y = x.clone();
        y[i] += sign(&mut m.rng) * step * m.rng.range(1, 2) as f64;
        y
    } else if near {
        m.ev("pair near");
        x.iter()
            .map(|v| match m.rng.below(4) {
                0 => *v,
                _ if wide && m.rng.chance(0.95) => *v,
                1 => v + m.rng.uniform(-1.5, 1.5),
                2 => {
                    m.ev("tile boundary");
                    v + sign(&mut m.rng) * m.rng.range(0, 2 * n) as f64 / n as f64
                }
                _ => v + m.rng.uniform(-1.0, 1.0) / n as f64,
            })
            .collect()
    } else {
        m.ev("pair far");
        (0..d).map(|_| coord(m, n)).collect()
    };
    if x.iter().chain(&y).any(|v| *v < 0.0) {
        m.ev("pair negative");
    }
    if x.iter().zip(&y).any(|(a, b)| (*a < 0.0) != (*b < 0.0)) {
        m.ev("pair across zero");
    }
    let salt = m.rng.u64();
    let sip = m.rng.chance(0.3);
    m.fp((n, sip));
    m.fpf(&x);
    m.fpf(&y);
    m.nontrivial();
    m.sample(|| format!("{n} tilings: {x:?} against {y:?}"));
    shared(m, n, salt, sip, &x, &y)?;
    Ok(())
}

/// Inputs in the same tile of every tiling have equal projections, whatever
/// the memory size.
fn same_tile(m: &mut M) -> R {
    let d = m.rng.range(1, 4);
    let n = n_tilings(m);
    // same quantisation cell => same tiles
    let q: Vec<i64> = (0..d).map(|_| m.rng.range(0, 200) as i64 - 100).collect();
    let p = |m: &mut M| -> Vec<f64> { q.iter().map(|q| (*q as f64 + m.rng.uniform(0.1, 0.9)) / n as f64).collect() };
    let (x, y) = (p(m), p(m));
    let mem = *m.rng.pick(&[1usize, 5, 64, 1000, 1 << 30]);
    m.fp((n, mem));
    m.fpf(&x);
    m.nontrivial();
    m.ev("same tiles");
    m.sample(|| format!("{n} tilings, memory {mem}: {x:?} and {y:?} in one cell"));
    let b = TileCoding::new(Fold { salt: 77 }, n, mem);
    let (fx, fy) = (b.project(&x).unwrap(), b.project(&y).unwrap());
    m.ok(fx == fy, "C11/same-tile", || format!("{} vs {}: {x:?} {y:?} {n} tilings", repr(&fx), repr(&fy)))
}

/// A hasher without collisions and with small hashes: whatever is written is
/// numbered in the order of first appearance.
#[derive(Clone, Debug, Default)]
pub struct Numbering {
    seen: Arc<Mutex<HashMap<Vec<u8>, u64>>>,
    /// hash of the k-th = first + k * step, modulo `of`
    first: u64,
    step: u64,
    of: u64,
}
pub struct NumberingHasher {
    by: Numbering,
    bytes: Vec<u8>,
}
impl BuildHasher for Numbering {
    type Hasher = NumberingHasher;
    fn build_hasher(&self) -> NumberingHasher {
        NumberingHasher { by: self.clone(), bytes: vec![] }
    }
}
impl Hasher for NumberingHasher {
    fn write(&mut self, bytes: &[u8]) {
        self.bytes.extend_from_slice(bytes);
    }
    fn finish(&self) -> u64 {
        let mut seen = self.by.seen.lock().unwrap();
        let n = seen.len() as u64;
        let k = *seen.entry(self.bytes.clone()).or_insert(n);
        (self.by.first + k * self.by.step) % self.by.of
    }
}

/// Memories barely larger than the number of tiles met, with a hasher that
/// gives each of them a memory cell of its own: still no collision.
fn numbered(m: &mut M) -> R {
    let d = m.rng.range(1, 4);
    let n = m.rng.range(1, 16);
    let k = m.rng.range(2, 8);
    let xs: Vec<Vec<f64>> = (0..k).map(|_| (0..d).map(|_| m.rng.uniform(-2.0, 2.0)).collect()).collect();
    let tt: Vec<Vec<Vec<i64>>> = xs.iter().map(|x| tiles(x, n)).collect();
    // room for every (tiling, tile) met
    let met: HashSet<(usize, &Vec<i64>)> = tt.iter().flat_map(|t| t.iter().enumerate()).collect();
    let mut mem = met.len() + if m.rng.chance(0.3) { 0 } else { m.rng.below(40) };
    m.ev(if mem % 2 == 0 { "even memory" } else { "odd memory" });
    m.ev("numbering hasher");
    // distinct modulo the memory: a step coprime to it
    let gcd = |mut a: u64, mut b: u64| {
        while b > 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    let mut step = 1 + m.rng.u64() % 1000;
    while gcd(step, mem as u64) != 1 {
        step += 1;
    }
    // hashes below the memory size, or far above it
    let of = if m.rng.chance(0.5) { mem as u64 } else { mem as u64 * (1 << 40) };
    let first = if of > mem as u64 { m.rng.u64() >> 12 } else { m.rng.u64() % 1000 };
    let (mut first, mut of) = (first, of);
    if m.rng.chance(0.3) {
        // hashes that differ in a few of their bits only
        m.ev("hashes differing in a few bits");
        mem = (1 << 62) + m.rng.below(3);
        of = mem as u64;
        step = 1 << m.rng.range(0, 50);
        first = m.rng.u64() % 1000;
    }
    let h = Numbering { seen: Default::default(), first: first % of, step, of };
    m.fp((n, mem, step));
    for x in &xs {
        m.fpf(x);
    }
    m.nontrivial();
    m.sample(|| format!("{n} tilings, memory {mem}, {k} inputs in {} tiles", met.len()));
    let ctx = || format!("{n} tilings, memory {mem}, hashes {first}+{step}k mod {of}, inputs {xs:?}");
    let b = TileCoding::new(h, n, mem);
    let mut sets = vec![];
    for x in &xs {
        let f = b.project(x).unwrap();
        let s = on(m, &f, mem, n, &ctx)?;
        m.ok(s.len() == n, "C11/collision", || format!("{} active of {n} without collisions: {}", s.len(), ctx()))?;
        sets.push(s);
    }
    for i in 0..k {
        for j in 0..i {
            let want = (0..n).filter(|t| tt[i][*t] == tt[j][*t]).count();
            let got = sets[i].intersection(&sets[j]).count();
            m.ok(got == want, "C11/shared", || {
                format!("inputs {i} and {j} share {got} features and {want} tiles: {}", ctx())
            })?;
        }
    }
    let all: HashSet<usize> = sets.iter().flatten().copied().collect();
    m.ok(all.len() == met.len(), "C11/shared", || format!("{} features for {} tiles: {}", all.len(), met.len(), ctx()))
}
