//! C03: map and merge act elementwise and their forms agree.
use super::scn;
use crate::engine::*;
use crate::gen::*;
use lfa::Features;

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "a case is one or two feature vectors, a unary/binary function and all three call forms, the result read at \
               every position against the function of the operands' values; non-trivial when some operand has a non-zero \
               entry, distinct by operands' storage and values and the function",
        required: &[
            "map dense", "map sparse", "map sparse->dense", "map sparse->sparse", "merge DD", "merge DS", "merge SD",
            "merge SS", "merge SS->dense", "merge SS->sparse", "merge longer SS", "merge longer SD", "merge shorter", "near-zero function", "special value", "signed zeros",
            "undefined at zero", "unstructured function",
        ],
        scenarios: vec![
            scn!("map", 8000, 200_000, 8, map),
            scn!("merge", 10_000, 250_000, 10, merge),
            scn!("chain", 3000, 60_000, 4, chain),
        ],
    }
}

#[derive(Clone, Copy, Debug)]
enum U {
    Affine(f64, f64),
    Square,
    Abs,
    Relu(f64),
    Max(f64),
    Cos,
    ExpM1,
    Sign,
    Const(f64),
    Near(f64),
    Recip,
    IsZero,
    // tell 0.0 from -0.0
    Side,
    Pole,
    MinusZero,
    // not a number at zero
    Ratio,
    Root,
    // like the identity or a multiple except beyond a point
    Warp(f64, f64, f64),
    Cube,
    Round,
    // no structure at all
    Scramble(u64),
}

/// A value in [-1, 1] which depends on every bit of the arguments.
fn scramble(k: u64, x: f64, y: f64) -> f64 {
    let mut h = k ^ 0x9e37_79b9_7f4a_7c15;
    for b in [x.to_bits(), y.to_bits()] {
        h = (h ^ b).wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 32;
        h = h.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        h ^= h >> 29;
    }
    (h >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}

impl U {
    fn gen(r: &mut Rng) -> U {
        let c = |r: &mut Rng| *r.pick(&[0.0, 0.5, -0.25, 1.0, 1e-3, -2.0]);
        match r.below(18) {
            14 => U::Warp(*r.pick(&[1.0, 1.0, -1.0, 0.5, 0.0]), r.uniform(-2.0, 2.0), *r.pick(&[1.0, -1.0, 3.0, 0.0])),
            15 => *r.pick(&[U::Cube, U::Round]),
            16 | 17 => U::Scramble(r.u64()),
            0 => U::Affine(r.uniform(-2.0, 2.0), c(r)),
            1 => U::Square,
            2 => U::Abs,
            3 => U::Relu(c(r)),
            4 => U::Max(c(r)),
            5 => U::Cos,
            6 => U::ExpM1,
            7 => U::Sign,
            8 => U::Const(c(r)),
            9 => U::Near(*r.pick(&[9e-6, -9e-6, 1e-7, 2e-5, -2e-5, 1e-4])),
            10 => U::Recip,
            11 | 12 => *r.pick(&[U::Side, U::Pole, U::MinusZero, U::Ratio, U::Root]),
            _ => U::IsZero,
        }
    }
    fn f(self, x: f64) -> f64 {
        match self {
            U::Affine(a, b) => a * x + b,
            U::Square => x * x,
            U::Abs => x.abs(),
            U::Relu(c) => (x - c).max(0.0),
            U::Max(c) => x.max(c),
            U::Cos => x.cos(),
            U::ExpM1 => (x.clamp(-20.0, 20.0)).exp_m1(),
            U::Sign => (x > 0.0) as u8 as f64 - (x < 0.0) as u8 as f64,
            U::Const(c) => c,
            U::Near(c) => x + c,
            U::Recip => 1.0 / (1.0 + x.abs()),
            U::IsZero => (x == 0.0) as u8 as f64,
            U::Side => 1f64.copysign(x),
            U::Pole => 1.0 / x,
            U::MinusZero => (x == 0.0 && x.is_sign_negative()) as u8 as f64,
            U::Ratio => x / x,
            U::Root => (x - 0.25).sqrt(),
            U::Warp(a, s, b) => warp(a, s, b, x),
            U::Cube => x * x * x,
            U::Round => x.round(),
            U::Scramble(k) => if k & 1 == 0 && x == 0.0 { 0.0 } else { scramble(k, x, 0.0) },
        }
    }
}

/// `a * x`, but `b * x` from the point `s` on.
fn warp(a: f64, s: f64, b: f64, x: f64) -> f64 {
    if (s > 0.0 && x > s) || (s < 0.0 && x < s) { b * x } else { a * x }
}

#[derive(Clone, Copy, Debug)]
enum B {
    Add,
    Sub,
    Mul,
    Max,
    Min,
    Lin(f64, f64, f64),
    AbsDiff,
    First,
    Second,
    Hypot,
    MulPlus(f64),
    CosAdd,
    Div,
    Eq,
    Near(f64),
    // tell 0.0 from -0.0
    Side,
    Angle,
    MinusZero,
    // not a number at zero
    Ratio,
    Root,
    // like a sum, product or choice except at some arguments
    SumSquares,
    CubeSum,
    WarpSum(f64, f64, f64),
    WarpMul(f64, f64, f64),
    Clip(f64),
    OnlyWhere(f64),
    RoundTo(f64),
    // no structure at all: zero at (0, 0); at zero in one argument; nowhere
    Scramble(u64),
}

impl B {
    fn gen(r: &mut Rng) -> B {
        let c = |r: &mut Rng| *r.pick(&[0.0, 0.5, -0.25, 1.0, 1e-3, -2.0]);
        match r.below(26) {
            18 => *r.pick(&[B::SumSquares, B::CubeSum]),
            19 => B::WarpSum(1.0, r.uniform(-2.0, 2.0), *r.pick(&[-1.0, 3.0, 0.0])),
            20 => B::WarpMul(1.0, r.uniform(-2.0, 2.0), *r.pick(&[-1.0, 3.0, 0.0])),
            21 => B::Clip(r.uniform(0.5, 2.0)),
            22 => B::OnlyWhere(r.uniform(-1.5, 1.5)),
            23 | 24 => B::Scramble(r.u64()),
            25 => B::RoundTo(*r.pick(&[0.5, 0.25, 0.125, 1.0 / 64.0])),
            0 | 1 => B::Add,
            2 => B::Sub,
            3 | 4 => B::Mul,
            5 => B::Max,
            6 => B::Min,
            7 => B::Lin(r.uniform(-2.0, 2.0), r.uniform(-2.0, 2.0), c(r)),
            8 => B::AbsDiff,
            9 => *r.pick(&[B::First, B::Second]),
            10 => B::Hypot,
            11 => B::MulPlus(c(r)),
            12 => B::CosAdd,
            13 => B::Div,
            14 => B::Eq,
            15 | 16 => *r.pick(&[B::Side, B::Angle, B::MinusZero, B::Ratio, B::Root]),
            _ => B::Near(*r.pick(&[9e-6, -9e-6, 2e-5, -2e-5, 1e-4])),
        }
    }
    fn f(self, x: f64, y: f64) -> f64 {
        match self {
            B::Add => x + y,
            B::Sub => x - y,
            B::Mul => x * y,
            B::Max => x.max(y),
            B::Min => x.min(y),
            B::Lin(a, b, c) => a * x + b * y + c,
            B::AbsDiff => (x - y).abs(),
            B::First => x,
            B::Second => y,
            B::Hypot => (x * x + y * y).sqrt(),
            B::MulPlus(c) => x * y + c,
            B::CosAdd => x.cos() + y,
            B::Div => x / (1.0 + y.abs()),
            B::Eq => (x == y) as u8 as f64,
            B::Near(c) => x + 2.0 * y + c,
            B::Side => 1f64.copysign(x) + 2f64.copysign(y),
            B::Angle => y.atan2(x),
            B::Ratio => x / y,
            B::Root => (x * y - 0.25).sqrt(),
            B::SumSquares => x * x + y * y,
            B::CubeSum => x * x * x + y,
            B::WarpSum(a, s, b) => warp(a, s, b, x) + y,
            B::WarpMul(a, s, b) => x * warp(a, s, b, y),
            B::Clip(c) => (x + y).clamp(-c, c),
            B::RoundTo(q) => (x / q).round() * q + (y / q).round() * q,
            B::OnlyWhere(s) => if y > s && x != 0.0 { y - x } else { x },
            B::Scramble(k) => match k % 4 {
                0 | 1 if x == 0.0 && y == 0.0 => 0.0,
                1 if x == 0.0 => y,
                1 if y == 0.0 => x,
                2 if x == 0.0 || y == 0.0 => 0.0,
                _ => scramble(k, x, y),
            },
            B::MinusZero => (x == 0.0 && x.is_sign_negative()) as u8 as f64 - 2.0 * (y == 0.0 && y.is_sign_negative()) as u8 as f64,
        }
    }
}

fn operand(m: &mut M, n: usize) -> (Features, Vec<f64>) {
    let mut v = vals(&mut m.rng, n);
    if n > 0 && m.rng.chance(0.06) {
        // entries like any other
        m.ev("special value");
        for _ in 0..m.rng.range(1, 3) {
            let i = m.rng.below(n);
            v[i] = *m.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, 5e-324, -1e-310, f64::MAX, f64::MIN]);
        }
    }
    let zeros = n > 0 && m.rng.chance(0.1);
    if zeros {
        // the two zeros are different arguments
        m.ev("signed zeros");
        for _ in 0..m.rng.range(1, 6) {
            let i = m.rng.below(n);
            v[i] = *m.rng.pick(&[0.0, -0.0]);
            if i + 1 < n && m.rng.chance(0.5) {
                v[i + 1] = -v[i];
            }
        }
    }
    let f = if m.rng.chance(0.45) {
        dense_of(&mut m.rng, &v)
    } else {
        let e = m.rng.chance(if zeros { 0.6 } else { 0.15 });
        sparse_of(&mut m.rng, &v, e)
    };
    // an implicit zero is the positive one
    let v = raw(&f);
    m.fp(f.is_dense());
    m.fpf(&v);
    if v.iter().any(|x| *x != 0.0) {
        m.nontrivial();
    }
    (f, v)
}

/// `zero`: the function's value at implicit positions.
fn result(m: &mut M, got: &Features, want: &[f64], zero: f64, sig: &str, ctx: &dyn Fn() -> String) -> R {
    let sparse_ok = zero.abs() < 1.0001e-5;
    m.ok(!got.is_sparse() || sparse_ok, sig, || {
        format!("stored sparsely although implicit positions are {zero}: {} {}", repr(got), ctx())
    })?;
    let r = raw(got);
    m.ok(r.len() == want.len() && got.n_features() == want.len(), sig, || {
        format!("length {} instead of {}: {}", got.n_features(), want.len(), ctx())
    })?;
    for i in 0..want.len() {
        // implicit positions may be flushed to zero below the threshold
        let slack = if got.is_sparse() && got.get(i).is_none() && (want[i] - zero).abs() <= 1e-12 { 1.0001e-5 } else { 0.0 };
        let tol = slack + 8.0 * EPS * want[i].abs();
        let x = r[i];
        m.ok(x == want[i] || (x - want[i]).abs() <= tol || (x.is_nan() && want[i].is_nan()), sig, || {
            format!("entry {i} is {x:e}, expected {:e}: {} from {}", want[i], repr(got), ctx())
        })?;
    }
    Ok(())
}

fn map(m: &mut M) -> R {
    let n = len(&mut m.rng, m.small);
    let (f, v) = operand(m, n);
    let u = U::gen(&mut m.rng);
    m.fp(format!("{u:?}"));
    let want: Vec<f64> = v.iter().map(|x| u.f(*x)).collect();
    let zero = u.f(0.0);
    m.sample(|| format!("map {u:?} over {}", repr(&f)));
    m.ev(if f.is_dense() { "map dense" } else { "map sparse" });
    if zero.is_nan() {
        m.ev("undefined at zero");
    }
    if matches!(u, U::Scramble(_)) {
        m.ev("unstructured function");
    }
    if matches!(u, U::Near(_)) {
        m.ev("near-zero function");
    }
    let ctx = || format!("{u:?} over {}", repr(&f));
    let a = f.map(|x| u.f(x));
    result(m, &a, &want, zero, "C03/map", &|| format!("map {}", ctx()))?;
    m.ok(raw(&f).iter().eq(v.iter()), "C03/operand-changed", || ctx())?;
    let b = f.clone().map_into(|x| u.f(x));
    result(m, &b, &want, zero, "C03/map", &|| format!("map_into {}", ctx()))?;
    let mut c = f.clone();
    c.map_inplace(|x| u.f(x));
    result(m, &c, &want, zero, "C03/map", &|| format!("map_inplace {}", ctx()))?;
    if f.is_sparse() {
        m.ev(if a.is_sparse() { "map sparse->sparse" } else { "map sparse->dense" });
    } else {
        m.ok(a.is_dense() && b.is_dense() && c.is_dense(), "C03/map", || format!("dense became sparse: {}", ctx()))?;
    }
    m.ok(a.is_dense() == b.is_dense() && b.is_dense() == c.is_dense(), "C03/forms", || {
        format!("storage differs between the forms: {}", ctx())
    })
}

fn merge(m: &mut M) -> R {
    let n = len(&mut m.rng, m.small);
    let (g, w) = operand(m, n);
    // a sparse first operand may be longer
    let longer = m.rng.chance(0.15);
    let extra = if longer { m.rng.range(1, 5) } else { 0 };
    let (f, v) = if longer {
        let v = vals(&mut m.rng, n + extra);
        m.fpf(&v);
        let f = sparse_of(&mut m.rng, &v, false);
        let v = raw(&f);
        (f, v)
    } else {
        operand(m, n)
    };
    let b = B::gen(&mut m.rng);
    m.fp(format!("{b:?}"));
    if !longer && f.is_sparse() && m.rng.chance(0.1) {
        return shorter(m, f, g, b);
    }
    let want: Vec<f64> = (0..v.len()).map(|i| b.f(v[i], w.get(i).copied().unwrap_or(0.0))).collect();
    let zero = b.f(0.0, 0.0);
    let k = match (f.is_dense(), g.is_dense()) {
        (true, true) => "DD",
        (true, false) => "DS",
        (false, true) => "SD",
        _ => "SS",
    };
    m.ev(&format!("merge {k}"));
    if longer {
        m.ev(&format!("merge longer {k}"));
    }
    if zero.is_nan() {
        m.ev("undefined at zero");
    }
    if matches!(b, B::Scramble(_)) {
        m.ev("unstructured function");
    }
    if matches!(b, B::Near(_)) {
        m.ev("near-zero function");
    }
    m.sample(|| format!("merge {b:?}: {} with {}", repr(&f), repr(&g)));
    let ctx = || format!("{b:?} of {} and {}", repr(&f), repr(&g));
    let x = f.merge(&g, |x, y| b.f(x, y));
    result(m, &x, &want, zero, "C03/merge", &|| format!("merge {}", ctx()))?;
    m.ok(raw(&f).iter().eq(v.iter()) && raw(&g).iter().eq(w.iter()), "C03/operand-changed", || ctx())?;
    let y = f.clone().merge_into(&g, |x, y| b.f(x, y));
    result(m, &y, &want, zero, "C03/merge", &|| format!("merge_into {}", ctx()))?;
    let mut z = f.clone();
    z.merge_inplace(&g, |x, y| b.f(x, y));
    result(m, &z, &want, zero, "C03/merge", &|| format!("merge_inplace {}", ctx()))?;
    m.ok(raw(&g).iter().eq(w.iter()), "C03/operand-changed", || ctx())?;
    m.ok(x.is_dense() == y.is_dense() && y.is_dense() == z.is_dense(), "C03/forms", || {
        format!("storage differs between the forms: {}", ctx())
    })?;
    if k == "SS" {
        m.ev(if x.is_dense() { "merge SS->dense" } else { "merge SS->sparse" });
    }
    // merging with itself
    if m.rng.chance(0.2) {
        let s = f.merge(&f, |x, y| b.f(x, y));
        let want: Vec<f64> = v.iter().map(|x| b.f(*x, *x)).collect();
        result(m, &s, &want, zero, "C03/merge", &|| format!("with itself {}", ctx()))?;
    }
    Ok(())
}

/// A sparse first operand which is the shorter one: whatever the outcome is,
/// it is the same for all forms.
fn shorter(m: &mut M, f: Features, g: Features, b: B) -> R {
    let n = m.rng.below(f.n_features() + 1);
    m.ev("merge shorter");
    let v: Vec<f64> = raw(&f)[..n].to_vec();
    let f = sparse_of(&mut m.rng, &v, false);
    m.fp(n);
    let ctx = format!("{b:?} of {} and {}", repr(&f), repr(&g));
    m.sample(|| format!("merge {ctx}"));
    let outs = [
        m.caught(|| f.merge(&g, |x, y| b.f(x, y))).ok(),
        m.caught(|| f.clone().merge_into(&g, |x, y| b.f(x, y))).ok(),
        m.caught(|| {
            let mut h = f.clone();
            h.merge_inplace(&g, |x, y| b.f(x, y));
            h
        })
        .ok(),
    ];
    let key = |f: &Option<Features>| f.as_ref().map(|f| (f.is_sparse(), f.n_features(), raw(f)));
    let same = |x: &Option<Features>, y: &Option<Features>| match (key(x), key(y)) {
        (None, None) => true,
        (Some(x), Some(y)) => {
            let near = |a: f64, b: f64| a == b || (a - b).abs() <= 8.0 * EPS * a.abs() || (a.is_nan() && b.is_nan());
            x.0 == y.0 && x.1 == y.1 && x.2.len() == y.2.len() && x.2.iter().zip(&y.2).all(|(a, b)| near(*a, *b))
        }
        _ => false,
    };
    let show = |f: &Option<Features>| f.as_ref().map_or("a panic".into(), |f| format!("{} of length {}", repr(f), f.n_features()));
    m.ok(same(&outs[0], &outs[1]) && same(&outs[1], &outs[2]), "C03/forms", || {
        format!("merge gives {}, merge_into {}, merge_inplace {}: {ctx}", show(&outs[0]), show(&outs[1]), show(&outs[2]))
    })
}

/// Histories of in-place operations.
fn chain(m: &mut M) -> R {
    let n = len(&mut m.rng, m.small).min(200);
    let c = *m.rng.pick(&[Cls::Uniform, Cls::Dyadic, Cls::Int]);
    let mut v = vals_of(&mut m.rng, n, c);
    let mut f = feats(&mut m.rng, &v);
    m.fpf(&v);
    m.nontrivial();
    let mut log = vec![repr(&f)];
    for _ in 0..m.rng.range(2, 6) {
        if v.iter().any(|x| x.abs() > 1e50) {
            break;
        }
        if m.rng.chance(0.5) {
            let u = U::gen(&mut m.rng);
            if matches!(u, U::Near(_) | U::Side | U::Pole | U::MinusZero | U::Ratio | U::Root | U::Warp(..) | U::Cube | U::Round | U::Scramble(_)) {
                continue;
            }
            m.fp(format!("{u:?}"));
            log.push(format!("map {u:?}"));
            f.map_inplace(|x| u.f(x));
            v.iter_mut().for_each(|x| *x = u.f(*x));
            m.ev("map in a chain");
        } else {
            let b = B::gen(&mut m.rng);
            if matches!(b, B::Near(_) | B::Eq | B::Side | B::Angle | B::MinusZero | B::Ratio | B::Root | B::CubeSum | B::Scramble(_)) {
                continue;
            }
            let w = vals_of(&mut m.rng, n, c);
            let g = feats(&mut m.rng, &w);
            m.fp(format!("{b:?}"));
            m.fpf(&w);
            log.push(format!("merge {b:?} {}", repr(&g)));
            f.merge_inplace(&g, |x, y| b.f(x, y));
            for i in 0..n {
                v[i] = b.f(v[i], w[i]);
            }
            m.ev("merge in a chain");
        }
        let r = raw(&f);
        m.ok(r.len() == n, "C03/chain", || log.join("; "))?;
        for i in 0..n {
            m.ok(r[i] == v[i], "C03/chain", || format!("entry {i} is {:e}, expected {:e}: {}", r[i], v[i], log.join("; ")))?;
        }
    }
    m.sample(|| log.join("; "));
    Ok(())
}
