//! Random bases and compositions, with an independent evaluation of each.
use crate::engine::{mix, Rng};
use crate::gen::*;
use lfa::basis::*;
use lfa::{Error, Features, Result};
use serde::{Deserialize, Serialize};
use spaces::{real::Interval, Card, Dim, Equipartition, ProductSpace, Space};
use std::hash::{BuildHasher, Hasher};
use std::sync::Arc;

#[cfg(feature = "sync")]
pub trait MaybeSync: Send + Sync {}
#[cfg(feature = "sync")]
impl<T: Send + Sync> MaybeSync for T {}
#[cfg(not(feature = "sync"))]
pub trait MaybeSync {}
#[cfg(not(feature = "sync"))]
impl<T> MaybeSync for T {}

/// Object-safe face of an enumerable basis over `&[f64]`.
pub trait DB: MaybeSync {
    fn d_dim(&self) -> usize;
    fn d_nf(&self) -> usize;
    fn d_project(&self, x: &[f64]) -> Result<Features>;
    fn d_ith(&self, x: &[f64], i: usize) -> Result<f64>;
}

impl<B> DB for B
where
    B: MaybeSync + Space<Value = Features> + for<'a> EnumerableBasis<&'a [f64]>,
{
    fn d_dim(&self) -> usize {
        self.dim().into()
    }
    fn d_nf(&self) -> usize {
        Basis::<&[f64]>::n_features(self)
    }
    fn d_project(&self, x: &[f64]) -> Result<Features> {
        self.project(x)
    }
    fn d_ith(&self, x: &[f64], i: usize) -> Result<f64> {
        self.ith(x, i)
    }
}

/// Shared, dynamically typed basis; itself an ordinary user basis to `lfa`.
#[derive(Clone)]
pub struct DynB(pub Arc<dyn DB>);

impl Space for DynB {
    type Value = Features;
    fn dim(&self) -> Dim {
        Dim::Finite(self.0.d_dim())
    }
    fn card(&self) -> Card {
        Card::Infinite
    }
}
impl<'a> Basis<&'a [f64]> for DynB {
    fn project(&self, x: &'a [f64]) -> Result<Features> {
        self.0.d_project(x)
    }
}
impl<'a> EnumerableBasis<&'a [f64]> for DynB {
    fn ith(&self, x: &'a [f64], i: usize) -> Result<f64> {
        self.0.d_ith(x, i)
    }
}
impl Combinators for DynB {}

impl DynB {
    pub fn new<B: DB + 'static>(b: B) -> DynB {
        DynB(Arc::new(b))
    }
    pub fn n(&self) -> usize {
        self.0.d_dim()
    }
}

/// A closure basis made enumerable through the trait's default `ith`.
pub struct EnumClosure<F>(pub Closure<F>);
impl<F> Space for EnumClosure<F> {
    type Value = Features;
    fn dim(&self) -> Dim {
        self.0.dim()
    }
    fn card(&self) -> Card {
        Card::Infinite
    }
}
impl<'a, F: Fn(&[f64]) -> Result<Features>> Basis<&'a [f64]> for EnumClosure<F> {
    fn project(&self, x: &'a [f64]) -> Result<Features> {
        self.0.project(x)
    }
}
impl<'a, F: Fn(&[f64]) -> Result<Features>> EnumerableBasis<&'a [f64]> for EnumClosure<F> {}
impl<F> Combinators for EnumClosure<F> {}

/// 64-bit hash with (practically) no collisions, any salt.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fold {
    pub salt: u64,
}
pub struct FoldHasher(u64);
impl BuildHasher for Fold {
    type Hasher = FoldHasher;
    fn build_hasher(&self) -> FoldHasher {
        FoldHasher(mix(self.salt ^ 0x1234_5678))
    }
}
impl Hasher for FoldHasher {
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.0 = mix(self.0.wrapping_mul(0x1000_0000_01b3) ^ (b as u64 + 1));
        }
    }
    fn finish(&self) -> u64 {
        mix(self.0 ^ 0xdead_beef)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum KK {
    Exponential,
    Matern32,
    Matern52,
    ExpQuad,
    Cosine,
    RationalQuadratic,
}
pub const KKS: [KK; 6] = [KK::Exponential, KK::Matern32, KK::Matern52, KK::ExpQuad, KK::Cosine, KK::RationalQuadratic];

#[derive(Clone, Debug)]
pub struct KSpec {
    pub kind: KK,
    pub variance: f64,
    pub ls: Vec<f64>,
    pub power: f64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AnyK {
    Exponential(kernels::Exponential),
    Matern32(kernels::Matern32),
    Matern52(kernels::Matern52),
    ExpQuad(kernels::ExpQuad),
    Cosine(kernels::Cosine),
    RationalQuadratic(kernels::RationalQuadratic),
}

macro_rules! each_k {
    ($s:expr, $k:ident => $e:expr) => {
        match $s {
            AnyK::Exponential($k) => $e,
            AnyK::Matern32($k) => $e,
            AnyK::Matern52($k) => $e,
            AnyK::ExpQuad($k) => $e,
            AnyK::Cosine($k) => $e,
            AnyK::RationalQuadratic($k) => $e,
        }
    };
}

impl<'a> kernels::Kernel<&'a [f64]> for AnyK {
    fn kernel(&self, x: &'a [f64], y: &'a [f64]) -> f64 {
        each_k!(self, k => kernels::Kernel::<&[f64]>::kernel(k, x, y))
    }
}
impl AnyK {
    /// `clone_from` of the kernel itself.
    pub fn copy_from(&mut self, from: &AnyK) {
        match (self, from) {
            (AnyK::Exponential(a), AnyK::Exponential(b)) => a.clone_from(b),
            (AnyK::Matern32(a), AnyK::Matern32(b)) => a.clone_from(b),
            (AnyK::Matern52(a), AnyK::Matern52(b)) => a.clone_from(b),
            (AnyK::ExpQuad(a), AnyK::ExpQuad(b)) => a.clone_from(b),
            (AnyK::Cosine(a), AnyK::Cosine(b)) => a.clone_from(b),
            (AnyK::RationalQuadratic(a), AnyK::RationalQuadratic(b)) => a.clone_from(b),
            (a, b) => *a = b.clone(),
        }
    }
    pub fn vecs(&self, x: &Vec<f64>, y: &Vec<f64>) -> f64 {
        each_k!(self, k => kernels::Kernel::<&Vec<f64>>::kernel(k, x, y))
    }
    /// Replace the public parameters.
    pub fn set(&mut self, v: f64, l: Vec<f64>) {
        each_k!(self, k => {
            k.variance = v;
            k.lengthscales = l;
        })
    }
    pub fn scalar(&self, x: f64, y: f64) -> f64 {
        each_k!(self, k => kernels::Kernel::<f64>::kernel(k, x, y))
    }
}

impl KSpec {
    pub fn gen(r: &mut Rng, d: usize) -> KSpec {
        let ls = if r.chance(0.35) {
            vec![logu(r, -1.0, 1.0)]
        } else {
            (0..d).map(|_| logu(r, -1.0, 1.0)).collect()
        };
        // now and then far from unit scale
        let far = if r.chance(0.15) { logu(r, -4.0, 4.0) } else { 1.0 };
        let ls: Vec<f64> = ls.into_iter().map(|l| l * far).collect();
        KSpec {
            kind: *r.pick(&KKS),
            variance: if r.chance(0.4) { 1.0 } else { logu(r, -2.0, 2.0) },
            ls,
            power: *r.pick(&[0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 7.0, 20.0, 150.0]),
        }
    }
    pub fn build(&self) -> AnyK {
        use kernels as k;
        let (v, l) = (self.variance, self.ls.clone());
        match self.kind {
            KK::Exponential => AnyK::Exponential(k::Exponential::new(v, l)),
            KK::Matern32 => AnyK::Matern32(k::Matern32::new(v, l)),
            KK::Matern52 => AnyK::Matern52(k::Matern52::new(v, l)),
            KK::ExpQuad => AnyK::ExpQuad(k::ExpQuad::new(v, l)),
            KK::Cosine => AnyK::Cosine(k::Cosine::new(v, l)),
            KK::RationalQuadratic => AnyK::RationalQuadratic(k::RationalQuadratic::new(v, l, self.power)),
        }
    }
    pub fn dist(&self, x: &[f64], y: &[f64]) -> f64 {
        let mut s = 0.0;
        for i in 0..x.len() {
            let l = if self.ls.len() == 1 { self.ls[0] } else { self.ls[i] };
            let z = (x[i] - y[i]) / l;
            s += z * z;
        }
        s.sqrt()
    }
    /// (value, rounding tolerance)
    pub fn of_r(&self, r: f64, d: usize) -> (f64, f64) {
        let v = self.variance;
        let (s3, s5) = (3f64.sqrt(), 5f64.sqrt());
        let (f, sens) = match self.kind {
            KK::Exponential => ((-r).exp(), r * (-r).exp()),
            KK::Matern32 => ((1.0 + s3 * r) * (-s3 * r).exp(), (1.0 + r) * (1.0 + r) * (-s3 * r).exp()),
            KK::Matern52 => (
                (1.0 + s5 * r + 5.0 * r * r / 3.0) * (-s5 * r).exp(),
                (1.0 + r).powi(3) * (-s5 * r).exp(),
            ),
            KK::ExpQuad => ((-r * r / 2.0).exp(), r * r * (-r * r / 2.0).exp()),
            KK::Cosine => (r.cos(), r + 1.0),
            KK::RationalQuadratic => {
                let f = (1.0 + r * r / 2.0).powf(-self.power);
                (f, f * (1.0 + self.power * (2.0 + (1.0 + r * r).ln())))
            }
        };
        (v * f, v * (f.abs() + 4.0 * sens) * (d as f64 + 8.0) * 8.0 * EPS + 1e-290)
    }
    pub fn want(&self, x: &[f64], y: &[f64]) -> (f64, f64) {
        self.of_r(self.dist(x, y), x.len())
    }
}

#[derive(Clone, Debug)]
pub struct CSpec {
    pub n: usize,
    pub sparse: bool,
    pub salt: u64,
    pub fallible: bool,
}

/// The errors user code may return: of every kind, with messages the library
/// knows nothing about (built through serde, the only public way).
pub fn foreign(code: usize) -> Error {
    let kind = ["Basis", "Evaluation", "Optimisation", ""][code % 4];
    let v = serde_json::json!({ "kind": kind, "message": format!("user failure {code}") });
    serde_json::from_value(v).unwrap_or_else(|_| Error::index_error(code, 7))
}

/// Inputs whose first coordinate reaches this make fallible closures fail.
pub const FAIL_AT: f64 = 1000.0;

impl CSpec {
    pub fn values(&self, x: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|i| {
                let h = mix(self.salt ^ ((i as u64) << 17));
                if i > 0 && h % 3 == 0 {
                    return 0.0;
                }
                // small is not zero
                let s = if i > 0 && h % 61 == 1 { 1e-17 } else { 1.0 };
                let s = if h & 8 == 0 { s } else { -s };
                let base = 0.5 + (h >> 40) as f64 / (1u64 << 24) as f64 * 2.0;
                let j = (h >> 8) as usize % x.len().max(1);
                let t = x.get(j).copied().unwrap_or(0.0);
                s * base * (1.0 + 0.5 * (t * 1.3 + i as f64).sin())
            })
            .collect()
    }
    pub fn fails(&self, x: &[f64]) -> bool {
        self.fallible && x.first().map_or(false, |v| *v >= FAIL_AT)
    }
    pub fn error(&self) -> Error {
        foreign((self.salt % 100_000) as usize)
    }
    pub fn call(&self, x: &[f64]) -> Result<Features> {
        if self.fails(x) {
            return Err(self.error());
        }
        let v = self.values(x);
        Ok(if self.sparse {
            let dim = v.len();
            Features::sparse(dim, v.into_iter().enumerate().filter(|p| p.1 != 0.0))
        } else {
            Features::from(v)
        })
    }
}

#[derive(Clone, Debug)]
pub enum Spec {
    Bias(f64),
    FixedDense(Vec<f64>),
    FixedSparse(usize, Vec<usize>),
    Fourier { order: u8, limits: Vec<(f64, f64)>, from_space: bool },
    Poly { dim: usize, order: u8, zeroth: bool },
    Cheby { order: u8, limits: Vec<(f64, f64)>, zeroth: bool, from_space: bool },
    /// a Fourier or polynomial basis whose public table and bounds were edited
    Table { fourier: bool, order: u8, limits: Vec<(f64, f64)>, rows: Vec<Vec<f64>> },
    Kernel { k: KSpec, centroids: Vec<Vec<f64>> },
    Kernels(Vec<(KSpec, Vec<f64>)>),
    Grid(Vec<(f64, f64, usize)>),
    Tile { tilings: usize, mem: usize, salt: u64 },
    Closure(CSpec),
    /// how: 0 = Stack::new, 1 = combinator
    Stack(Box<Spec>, Box<Spec>, u8),
    /// p = 0, 1, 2 or 9 (infinity)
    Norm(u8, Box<Spec>, u8),
}

pub enum Want {
    Vals { v: Vec<f64>, e: Vec<f64> },
    Err(Vec<Error>),
    /// outside the domain in which the answer is defined
    Skip,
}

fn intervals(l: &[(f64, f64)]) -> ProductSpace<Interval> {
    ProductSpace::new(l.iter().map(|&(a, b)| Interval::bounded(a, b)).collect())
}

/// Non-zero exponent vectors with entries 0..=order, lexicographic.
pub fn exponents(order: usize, d: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    let total = (order + 1).pow(d as u32);
    for k in 1..total {
        let mut c = vec![0; d];
        let mut q = k;
        for i in (0..d).rev() {
            c[i] = q % (order + 1);
            q /= order + 1;
        }
        out.push(c);
    }
    out
}

/// Value and tolerance of the input rescaled to 0..1.
fn scaled(x: f64, l: (f64, f64)) -> (f64, f64) {
    let w = l.1 - l.0;
    ((x - l.0) / w, 8.0 * EPS * (x.abs() + l.0.abs() + l.1.abs()) / w.abs())
}

pub fn fourier_want(order: usize, limits: &[(f64, f64)], x: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let rows = exponents(order, limits.len());
    fourier_rows(rows.iter().map(|r| r.iter().map(|c| *c as f64).collect()), limits, x)
}

pub fn fourier_rows(rows: impl Iterator<Item = Vec<f64>>, limits: &[(f64, f64)], x: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let (mut v, mut e) = (vec![], vec![]);
    let s: Vec<(f64, f64)> = x.iter().zip(limits).map(|(x, l)| scaled(*x, *l)).collect();
    for c in rows {
        let mut a = 0.0;
        let mut t = 0.0;
        let mut mag = 0.0;
        for i in 0..c.len() {
            let ci = c[i];
            a += ci * s[i].0;
            mag += (ci * s[i].0).abs();
            t += ci.abs() * s[i].1;
        }
        v.push((std::f64::consts::PI * a).cos());
        e.push(std::f64::consts::PI * (t + gamma(c.len(), mag)) + 16.0 * EPS);
    }
    (v, e)
}

pub fn poly_want(d: usize, order: usize, zeroth: bool, x: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let (mut v, mut e) = poly_rows(exponents(order, d).into_iter(), x);
    if zeroth {
        v.push(1.0);
        e.push(0.0);
    }
    (v, e)
}

pub fn poly_rows(rows: impl Iterator<Item = Vec<usize>>, x: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let (mut v, mut e) = (vec![], vec![]);
    for c in rows {
        let mut p = 1.0f64;
        let mut n = 0;
        for i in 0..c.len() {
            for _ in 0..c[i] {
                p *= x[i];
                n += 1;
            }
        }
        v.push(p);
        e.push(p.abs() * (n as f64 + 8.0) * 8.0 * EPS + 1e-290);
    }
    (v, e)
}

pub fn cheby_want(order: usize, limits: &[(f64, f64)], zeroth: bool, x: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let d = limits.len();
    // T_n by the recurrence, with a bound on what expanded forms lose
    let mut t: Vec<Vec<(f64, f64, f64)>> = Vec::new();
    for i in 0..d {
        let (s, es) = scaled(x[i], limits[i]);
        let (y, ey) = (2.0 * s - 1.0, 2.0 * es + 4.0 * EPS);
        let big = y.abs() + (y * y + 1.0).sqrt();
        let mut row = vec![];
        let (mut a, mut b) = (1.0, y);
        for n in 0..=order {
            let val = if n == 0 { 1.0 } else { b };
            let nn = n as f64;
            let mag = big.powi(n as i32);
            let dmag = nn * big.powi(n as i32 - 1).max(0.0) * big / (y * y + 1.0).sqrt();
            row.push((val, if n == 0 { 0.0 } else { mag * 64.0 * nn * EPS + dmag * ey * 4.0 }, mag));
            if n >= 1 {
                let c = 2.0 * y * b - a;
                a = b;
                b = c;
            }
        }
        t.push(row);
    }
    let (mut v, mut e) = (vec![], vec![]);
    for c in exponents(order, d) {
        let mut p = 1.0;
        let mut ep = 0.0;
        for i in 0..d {
            let (tv, te, _) = t[i][c[i]];
            ep = ep * (tv.abs() + te) + f64::abs(p) * te + f64::abs(p * tv) * 4.0 * EPS;
            p *= tv;
        }
        v.push(p);
        e.push(ep + 1e-290);
    }
    if zeroth {
        v.push(1.0);
        e.push(0.0);
    }
    (v, e)
}

/// Cell of `x` on one axis, `None` when too close to an edge to call.
pub fn cell(x: f64, (lo, hi, k): (f64, f64, usize)) -> Option<usize> {
    if x <= lo {
        return Some(0);
    }
    if x >= hi {
        return Some(k - 1);
    }
    let q = (x - lo) / (hi - lo) * k as f64;
    let near = q.round();
    let slack = 1e-9 + 64.0 * EPS * (x.abs() + lo.abs() + hi.abs()) / (hi - lo) * k as f64;
    if (q - near).abs() < slack && near >= 1.0 && near <= k as f64 - 1.0 {
        return None;
    }
    Some((q.floor() as usize).min(k - 1))
}

impl Spec {
    pub fn build(&self) -> DynB {
        match self {
            Spec::Bias(b) => {
                if *b == 1.0 {
                    DynB::new(Bias::unit())
                } else {
                    DynB::new(Bias(*b))
                }
            }
            Spec::FixedDense(v) => DynB::new(Fixed::dense(v.clone())),
            Spec::FixedSparse(n, ix) => DynB::new(Fixed::sparse(*n, ix.clone())),
            Spec::Fourier { order, limits, from_space } => DynB::new(if *from_space {
                Fourier::from_space(*order, intervals(limits))
            } else {
                Fourier::new(*order, limits.clone())
            }),
            Spec::Poly { dim, order, zeroth } => {
                let p = Polynomial::new(*dim, *order);
                DynB::new(if *zeroth { p.with_zeroth() } else { p })
            }
            Spec::Cheby { order, limits, zeroth, from_space } => {
                let p = if *from_space {
                    Chebyshev::from_space(*order, intervals(limits))
                } else if *zeroth {
                    // bounds edited after construction
                    let mut p = Chebyshev::new(*order, vec![(-3.0, 0.5); limits.len()]);
                    p.limits = limits.clone();
                    p
                } else {
                    Chebyshev::new(*order, limits.clone())
                };
                DynB::new(if *zeroth { p.with_zeroth() } else { p })
            }
            Spec::Table { fourier: true, .. } => DynB::new(self.fourier_table().unwrap()),
            Spec::Table { .. } => DynB::new(self.poly_table().unwrap()),
            Spec::Kernel { k, centroids } => {
                let c = centroids.clone();
                match k.build() {
                    AnyK::Exponential(k) => DynB::new(KernelBasis::homogeneous(c, k)),
                    AnyK::Matern32(k) => DynB::new(KernelBasis::homogeneous(c, k)),
                    AnyK::Matern52(k) => DynB::new(KernelBasis::homogeneous(c, k)),
                    AnyK::ExpQuad(k) => DynB::new(KernelBasis::homogeneous(c, k)),
                    AnyK::Cosine(k) => DynB::new(KernelBasis::homogeneous(c, k)),
                    AnyK::RationalQuadratic(k) => DynB::new(KernelBasis::homogeneous(c, k)),
                }
            }
            Spec::Kernels(ps) => DynB::new(KernelBasis::new(
                ps.iter()
                    .map(|(k, c)| Prototype { centroid: c.clone(), kernel: k.build() })
                    .collect(),
            )),
            Spec::Grid(parts) => DynB::new(UniformGrid::new(ProductSpace::new(
                parts.iter().map(|&(a, b, k)| Equipartition::new(a, b, k)).collect(),
            ))),
            Spec::Tile { tilings, mem, salt } => DynB::new(TileCoding::new(Fold { salt: *salt }, *tilings, *mem)),
            Spec::Closure(c) => {
                let k = c.clone();
                DynB::new(EnumClosure(Closure::new(c.n, move |x: &[f64]| k.call(x))))
            }
            Spec::Stack(a, b, how) => {
                let (x, y) = (a.build(), b.build());
                match (&**b, *how) {
                    (Spec::Bias(v), 1) if *v == 1.0 => DynB::new(x.with_bias()),
                    (_, 0) => DynB::new(Stack::new(x, y)),
                    _ => DynB::new(x.stack(y)),
                }
            }
            Spec::Norm(p, a, how) => {
                let x = a.build();
                match (*p, *how) {
                    (0, 0) => DynB::new(L0Normaliser::new(x)),
                    (0, _) => DynB::new(x.normalise_l0()),
                    (1, 0) => DynB::new(L1Normaliser::new(x)),
                    (1, _) => DynB::new(x.normalise_l1()),
                    (2, 0) => DynB::new(L2Normaliser::new(x)),
                    (2, _) => DynB::new(x.normalise_l2()),
                    (_, 0) => DynB::new(LinfNormaliser::new(x)),
                    _ => DynB::new(x.normalise_linf()),
                }
            }
        }
    }

    pub fn fourier_table(&self) -> Option<Fourier> {
        match self {
            Spec::Table { fourier: true, order, limits, rows } => {
                let mut b = Fourier::new(*order, vec![(-3.0, 0.5); limits.len()]);
                b.limits = limits.clone();
                b.coefficients = rows.clone();
                Some(b)
            }
            _ => None,
        }
    }

    pub fn poly_table(&self) -> Option<Polynomial> {
        match self {
            Spec::Table { fourier: false, order, limits, rows } => {
                let mut b = Polynomial::new(limits.len(), *order);
                b.exponents = rows.iter().map(|r| r.iter().map(|c| *c as u8).collect()).collect();
                Some(b)
            }
            _ => None,
        }
    }

    pub fn dim(&self) -> usize {
        match self {
            Spec::Bias(_) => 1,
            Spec::FixedDense(v) => v.len(),
            Spec::FixedSparse(n, _) => *n,
            Spec::Fourier { order, limits, .. } => (*order as usize + 1).pow(limits.len() as u32) - 1,
            Spec::Poly { dim, order, zeroth } => (*order as usize + 1).pow(*dim as u32) - 1 + *zeroth as usize,
            Spec::Cheby { order, limits, zeroth, .. } => (*order as usize + 1).pow(limits.len() as u32) - 1 + *zeroth as usize,
            Spec::Table { rows, .. } => rows.len(),
            Spec::Kernel { centroids, .. } => centroids.len(),
            Spec::Kernels(p) => p.len(),
            Spec::Grid(p) => p.iter().map(|p| p.2).product(),
            Spec::Tile { mem, .. } => *mem,
            Spec::Closure(c) => c.n,
            Spec::Stack(a, b, _) => a.dim() + b.dim(),
            Spec::Norm(_, a, _) => a.dim(),
        }
    }

    pub fn sparse(&self) -> bool {
        match self {
            Spec::FixedSparse(..) | Spec::Grid(_) | Spec::Tile { .. } => true,
            Spec::Closure(c) => c.sparse,
            Spec::Stack(a, b, _) => a.sparse() && b.sparse(),
            Spec::Norm(_, a, _) => a.sparse(),
            _ => false,
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Spec::Bias(_) => "bias",
            Spec::FixedDense(_) => "fixed-dense",
            Spec::FixedSparse(..) => "fixed-sparse",
            Spec::Fourier { .. } => "fourier",
            Spec::Poly { .. } => "polynomial",
            Spec::Cheby { .. } => "chebyshev",
            Spec::Table { fourier: true, .. } => "fourier",
            Spec::Table { .. } => "polynomial",
            Spec::Kernel { .. } => "kernel-basis",
            Spec::Kernels(_) => "kernel-basis-mixed",
            Spec::Grid(_) => "uniform-grid",
            Spec::Tile { .. } => "tile-coding",
            Spec::Closure(_) => "closure",
            Spec::Stack(..) => "stack",
            Spec::Norm(0, ..) => "norm-l0",
            Spec::Norm(1, ..) => "norm-l1",
            Spec::Norm(2, ..) => "norm-l2",
            Spec::Norm(..) => "norm-linf",
        }
    }

    /// Every kind in the tree.
    pub fn kinds(&self, out: &mut Vec<&'static str>) {
        out.push(self.kind());
        match self {
            Spec::Stack(a, b, _) => {
                a.kinds(out);
                b.kinds(out);
            }
            Spec::Norm(_, a, _) => a.kinds(out),
            Spec::Table { .. } => out.push("edited table"),
            _ => {}
        }
    }

    /// What the projection of `x` must be.
    pub fn want(&self, x: &[f64]) -> Want {
        let exact = |v: Vec<f64>| {
            let e = vec![0.0; v.len()];
            Want::Vals { v, e }
        };
        match self {
            Spec::Bias(b) => exact(vec![*b]),
            Spec::FixedDense(v) => exact(v.clone()),
            Spec::FixedSparse(n, ix) => {
                let mut v = vec![0.0; *n];
                for &i in ix {
                    v[i] = 1.0;
                }
                exact(v)
            }
            Spec::Fourier { order, limits, .. } => {
                let (v, e) = fourier_want(*order as usize, limits, x);
                Want::Vals { v, e }
            }
            Spec::Poly { dim, order, zeroth } => {
                let (v, e) = poly_want(*dim, *order as usize, *zeroth, x);
                Want::Vals { v, e }
            }
            Spec::Cheby { order, limits, zeroth, .. } => {
                let (v, e) = cheby_want(*order as usize, limits, *zeroth, x);
                Want::Vals { v, e }
            }
            Spec::Table { fourier: true, limits, rows, .. } => {
                let (v, e) = fourier_rows(rows.iter().cloned(), limits, x);
                Want::Vals { v, e }
            }
            Spec::Table { rows, .. } => {
                let (v, e) = poly_rows(rows.iter().map(|r| r.iter().map(|c| *c as usize).collect()), x);
                Want::Vals { v, e }
            }
            Spec::Kernel { k, centroids } => {
                let (v, e) = centroids.iter().map(|c| k.want(x, c)).unzip();
                Want::Vals { v, e }
            }
            Spec::Kernels(p) => {
                let (v, e) = p.iter().map(|(k, c)| k.want(x, c)).unzip();
                Want::Vals { v, e }
            }
            Spec::Grid(parts) => {
                let mut idx = 0;
                for (i, p) in parts.iter().enumerate() {
                    match cell(x[i], *p) {
                        Some(c) => idx = idx * p.2 + c,
                        None => return Want::Skip,
                    }
                }
                let mut v = vec![0.0; self.dim()];
                v[idx] = 1.0;
                exact(v)
            }
            // which memory cell a tile hashes to is up to the hasher
            Spec::Tile { tilings, mem, salt } => {
                let b = TileCoding::new(Fold { salt: *salt }, *tilings, *mem);
                match b.project(x) {
                    Ok(f) => exact(raw(&f)),
                    Err(_) => Want::Skip,
                }
            }
            Spec::Closure(c) => {
                if c.fails(x) {
                    Want::Err(vec![c.error()])
                } else {
                    exact(c.values(x))
                }
            }
            Spec::Stack(a, b, _) => match (a.want(x), b.want(x)) {
                (Want::Skip, _) | (_, Want::Skip) => Want::Skip,
                (Want::Err(mut a), Want::Err(b)) => {
                    a.extend(b);
                    Want::Err(a)
                }
                (Want::Err(a), _) => Want::Err(a),
                (_, Want::Err(b)) => Want::Err(b),
                (Want::Vals { mut v, mut e }, Want::Vals { v: v2, e: e2 }) => {
                    v.extend(v2);
                    e.extend(e2);
                    Want::Vals { v, e }
                }
            },
            Spec::Norm(p, a, _) => match a.want(x) {
                Want::Vals { v, e } => {
                    let n = v.len();
                    let mx = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
                    let me = e.iter().fold(0.0f64, |m, x| m.max(*x));
                    if !(mx >= 1e-6 && mx <= 1e6) || me > mx * 1e-3 {
                        return Want::Skip;
                    }
                    let (z, ez) = match p {
                        0 => {
                            for i in 0..n {
                                let x = v[i].abs();
                                if !(x >= 1e-6 || (x == 0.0 && e[i] == 0.0)) || e[i] > 1e-8 {
                                    return Want::Skip;
                                }
                            }
                            (v.iter().filter(|x| **x != 0.0).count() as f64, 0.0)
                        }
                        1 => {
                            let z: f64 = v.iter().map(|x| x.abs()).sum();
                            (z, e.iter().sum::<f64>() + gamma(n, z))
                        }
                        2 => {
                            let z = v.iter().map(|x| x * x).sum::<f64>().sqrt();
                            let s: f64 = v.iter().zip(&e).map(|(x, e)| x.abs() * e).sum();
                            (z, s / z + me + gamma(n, z))
                        }
                        _ => (mx, me),
                    };
                    let e2 = (0..n).map(|i| (e[i] + v[i].abs() / z * ez) / z + 8.0 * EPS * v[i].abs() / z).collect();
                    Want::Vals { v: v.iter().map(|x| x / z).collect(), e: e2 }
                }
                w => w,
            },
        }
    }
}

pub struct Opt {
    pub depth: usize,
    pub fallible: bool,
    pub norm: bool,
    pub max_dim: usize,
}

impl Opt {
    pub fn new() -> Opt {
        Opt { depth: 3, fallible: false, norm: true, max_dim: 150 }
    }
    pub fn fallible(mut self, b: bool) -> Opt {
        self.fallible = b;
        self
    }
    pub fn depth(mut self, d: usize) -> Opt {
        self.depth = d;
        self
    }
    pub fn max_dim(mut self, d: usize) -> Opt {
        self.max_dim = d;
        self
    }
}

pub fn limits(r: &mut Rng, d: usize) -> Vec<(f64, f64)> {
    (0..d)
        .map(|_| match r.below(5) {
            0 => (0.0, 1.0),
            1 => (-1.0, 1.0),
            2 => {
                let a = r.range(0, 20) as f64 - 10.0;
                (a, a + r.range(1, 10) as f64)
            }
            _ => {
                let a = r.uniform(-5.0, 5.0);
                (a, a + logu(r, -1.0, 1.0))
            }
        })
        .collect()
}

pub fn leaf(r: &mut Rng, d: usize, o: &Opt) -> Spec {
    loop {
        let s = leaf_any(r, d, o);
        if s.dim() <= o.max_dim {
            return s;
        }
    }
}

fn leaf_any(r: &mut Rng, d: usize, o: &Opt) -> Spec {
    let max_order = |r: &mut Rng| match d {
        1 => r.range(0, 9) as u8,
        2 => r.range(0, 5) as u8,
        3 => r.range(0, 3) as u8,
        _ => r.range(0, 1) as u8,
    };
    match r.below(if o.fallible { 15 } else { 12 }) {
        0 => Spec::Bias(if r.chance(0.5) { 1.0 } else { r.uniform(0.1, 3.0) * sign(r) }),
        1 => {
            let n = r.range(0, 10);
            let c = *r.pick(&[Cls::Int, Cls::Uniform, Cls::Ones, Cls::Mid]);
            Spec::FixedDense(vals_of(r, n, c))
        }
        2 => {
            let n = r.range(0, 12);
            let k = r.below(n + 1);
            let ix = (0..k).map(|_| r.below(n.max(1))).filter(|i| *i < n).collect();
            Spec::FixedSparse(n, ix)
        }
        3..=6 if r.chance(0.15) => {
            // the table of some order with rows dropped, repeated, reordered,
            // or replaced by anything
            let fourier = r.chance(0.5);
            let order = max_order(r);
            let all = exponents(order as usize, d);
            let n = r.below(all.len() + 3);
            let rows = (0..n.min(60))
                .map(|_| match r.below(4) {
                    0 | 1 if !all.is_empty() => r.pick(&all).iter().map(|c| *c as f64).collect(),
                    2 if fourier => (0..d).map(|_| r.uniform(-4.0, 4.0)).collect(),
                    _ => (0..d).map(|_| r.below(5) as f64).collect(),
                })
                .collect();
            Spec::Table { fourier, order, limits: limits(r, d), rows }
        }
        3 | 4 => Spec::Fourier { order: max_order(r), limits: limits(r, d), from_space: r.chance(0.4) },
        5 => Spec::Poly { dim: d, order: max_order(r).min(6), zeroth: r.chance(0.5) },
        6 => Spec::Cheby { order: max_order(r), limits: limits(r, d), zeroth: r.chance(0.5), from_space: r.chance(0.4) },
        7 => {
            let n = if r.chance(0.15) { *r.pick(&[15, 16, 17, 31, 32, 33, 64, 65]) } else { r.range(0, 12) };
            Spec::Kernel {
                k: KSpec::gen(r, d),
                centroids: (0..n).map(|_| (0..d).map(|_| r.uniform(-2.0, 2.0)).collect()).collect(),
            }
        }
        8 => {
            let n = r.range(1, 8);
            Spec::Kernels(
                (0..n)
                    .map(|_| (KSpec::gen(r, d), (0..d).map(|_| r.uniform(-2.0, 2.0)).collect()))
                    .collect(),
            )
        }
        9 => Spec::Grid(
            limits(r, d)
                .into_iter()
                .map(|(a, b)| (a, b, r.range(1, if d <= 2 { 10 } else { 4 })))
                .collect(),
        ),
        10 => Spec::Tile {
            tilings: r.range(1, 16),
            mem: *r.pick(&[1, 2, 7, 32, 64, 100, 128]),
            salt: r.u64(),
        },
        _ => Spec::Closure(CSpec {
            n: r.range(1, 12),
            sparse: r.chance(0.5),
            salt: r.u64(),
            fallible: o.fallible,
        }),
    }
}

pub fn spec(r: &mut Rng, d: usize, o: &Opt) -> Spec {
    fn go(r: &mut Rng, d: usize, o: &Opt, depth: usize, budget: usize) -> Spec {
        let leaf_o = Opt { depth: 0, fallible: o.fallible, norm: o.norm, max_dim: budget.max(12) };
        if depth == 0 || r.chance(0.3) {
            return leaf(r, d, &leaf_o);
        }
        if o.norm && r.chance(0.3) {
            let p = *r.pick(&[0u8, 1, 2, 9]);
            return Spec::Norm(p, Box::new(go(r, d, o, depth - 1, budget)), r.below(2) as u8);
        }
        let a = go(r, d, o, depth - 1, budget / 2);
        let b = if r.chance(0.25) { Spec::Bias(1.0) } else { go(r, d, o, depth - 1, budget / 2) };
        Spec::Stack(Box::new(a), Box::new(b), r.below(2) as u8)
    }
    go(r, d, o, o.depth, o.max_dim)
}

/// In-domain input: inside, on and outside typical bounds.
pub fn input(r: &mut Rng, d: usize) -> Vec<f64> {
    let kind = r.below(6);
    (0..d)
        .map(|_| match kind {
            0 => r.uniform(0.0, 1.0),
            1 => r.uniform(-2.0, 2.0),
            2 => r.range(0, 8) as f64 - 4.0,
            3 => r.uniform(-12.0, 12.0),
            4 => (r.range(0, 64) as f64 - 32.0) / 16.0,
            _ => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 0.3]),
        })
        .collect()
}

pub fn failing_input(r: &mut Rng, d: usize) -> Vec<f64> {
    let mut x = input(r, d);
    if d > 0 {
        x[0] = FAIL_AT + r.range(0, 3) as f64;
    }
    x
}

/// An input dimension for a spec tree.
pub fn idim(r: &mut Rng) -> usize {
    if r.chance(0.04) {
        return r.range(5, 9);
    }
    *r.pick(&[1, 1, 2, 2, 3, 4])
}
