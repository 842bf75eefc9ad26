//! Generators: lengths, values, memory layouts, feature vectors, weight views.
use crate::engine::Rng;
use lfa::{Features, SparseActivations};
use ndarray::{s, Array1, Array2, ArrayView1, ArrayViewMut1, Axis, Slice};
use std::collections::HashMap;

pub const EPS: f64 = f64::EPSILON;

/// Vector length: mostly tiny (corner cases), sometimes past every unrolling
/// and buffering boundary, rarely thousands.
pub fn len(r: &mut Rng, small: bool) -> usize {
    if small {
        return r.below(6);
    }
    match r.below(20) {
        0 => r.below(2),
        1..=10 => r.range(1, 12),
        11..=15 => r.range(8, 40),
        16..=17 => r.range(60, 140),
        18 => r.range(140, 500),
        _ => {
            if r.chance(0.02) {
                // past every 16-bit count
                *r.pick(&[65_535, 65_536, 65_537, 66_000, 70_001])
            } else if r.chance(0.3) {
                r.range(500, 5000)
            } else {
                r.range(30, 70)
            }
        }
    }
}

pub fn len_pos(r: &mut Rng, small: bool) -> usize {
    len(r, small).max(1)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cls {
    /// -4..4
    Int,
    Uniform,
    /// magnitudes 1e-12..1e12
    Log,
    /// magnitudes 1e-6..1e6 (no value the library may take for zero)
    Mid,
    Dyadic,
    Ones,
}

pub fn cls(r: &mut Rng) -> Cls {
    *r.pick(&[Cls::Int, Cls::Uniform, Cls::Uniform, Cls::Log, Cls::Mid, Cls::Mid, Cls::Dyadic, Cls::Ones])
}

pub fn sign(r: &mut Rng) -> f64 {
    if r.chance(0.5) {
        -1.0
    } else {
        1.0
    }
}

pub fn logu(r: &mut Rng, lo: f64, hi: f64) -> f64 {
    10f64.powf(r.uniform(lo, hi))
}

pub fn val(r: &mut Rng, c: Cls) -> f64 {
    match c {
        Cls::Int => r.range(0, 8) as f64 - 4.0,
        Cls::Uniform => r.uniform(-2.0, 2.0),
        Cls::Log => sign(r) * logu(r, -12.0, 12.0),
        Cls::Mid => sign(r) * logu(r, -6.0, 6.0),
        Cls::Dyadic => (r.range(0, 128) as f64 - 64.0) / 16.0,
        Cls::Ones => 1.0,
    }
}

/// `n` values of one class with a random share of (signed) zeros.
pub fn vals_of(r: &mut Rng, n: usize, c: Cls) -> Vec<f64> {
    let pz = *r.pick(&[0.0, 0.0, 0.3, 0.8, 1.0]);
    let pz = if pz == 1.0 && r.chance(0.7) { 0.5 } else { pz };
    (0..n)
        .map(|_| {
            if r.chance(pz) {
                if r.chance(0.2) {
                    -0.0
                } else {
                    0.0
                }
            } else {
                val(r, c)
            }
        })
        .collect()
}

pub fn vals(r: &mut Rng, n: usize) -> Vec<f64> {
    let c = cls(r);
    vals_of(r, n, c)
}

/// Values around 1 in magnitude, for learning scenarios.
pub fn mild(r: &mut Rng, n: usize) -> Vec<f64> {
    let c = *r.pick(&[Cls::Int, Cls::Uniform, Cls::Dyadic, Cls::Ones, Cls::Uniform]);
    vals_of(r, n, c)
}

pub const JUNK: f64 = 7.75e7;

/// An owned array whose logical contents are `v`, in some memory layout.
pub fn layout1(r: &mut Rng, v: &[f64]) -> Array1<f64> {
    let n = v.len();
    let a = match r.below(8) {
        0 | 1 | 2 => Array1::from(v.to_vec()),
        3 => {
            let mut w = v.to_vec();
            w.reverse();
            let mut a = Array1::from(w);
            a.invert_axis(Axis(0));
            a
        }
        4 => {
            // interior slice of a larger buffer
            let (p, q) = (r.below(4), r.below(4));
            let mut w = vec![JUNK; p];
            w.extend_from_slice(v);
            w.extend(vec![JUNK; q]);
            Array1::from(w).slice_move(s![p..p + n])
        }
        5 => {
            let step = r.range(2, 4);
            let off = r.below(3);
            let mut w = vec![JUNK; off + n * step];
            for i in 0..n {
                w[off + i * step] = v[i];
            }
            Array1::from(w).slice_move(s![off..off + n * step;step])
        }
        6 => {
            // negative stride
            let step = r.range(2, 3);
            let mut w = vec![JUNK; n * step + 1];
            for i in 0..n {
                w[(n - 1 - i) * step] = v[i];
            }
            let mut a = Array1::from(w).slice_move(s![0..n * step;step]);
            a.invert_axis(Axis(0));
            a
        }
        _ => {
            // column of a matrix
            let c = r.range(1, 3);
            let k = r.below(c);
            let mut m = Array2::from_elem((n, c), JUNK);
            for i in 0..n {
                m[(i, k)] = v[i];
            }
            m.index_axis_move(Axis(1), k)
        }
    };
    debug_assert_eq!(a.len(), n);
    a
}

/// An owned matrix with the given logical contents, in some memory layout.
pub fn layout2(r: &mut Rng, rows: usize, cols: usize, at: impl Fn(usize, usize) -> f64) -> Array2<f64> {
    use ndarray::ShapeBuilder;
    match r.below(6) {
        0 | 1 => Array2::from_shape_fn((rows, cols), |(i, j)| at(i, j)),
        2 => Array2::from_shape_fn((rows, cols).f(), |(i, j)| at(i, j)),
        3 => {
            let mut a = Array2::from_shape_fn((rows, cols), |(i, j)| at(rows - 1 - i, j));
            a.invert_axis(Axis(0));
            a
        }
        4 => {
            let mut a = Array2::from_shape_fn((rows, cols).f(), |(i, j)| at(i, cols - 1 - j));
            a.invert_axis(Axis(1));
            a
        }
        _ => {
            let (sr, sc) = (r.range(1, 3), r.range(1, 3));
            let (or, oc) = (r.below(2), r.below(2));
            let mut a = Array2::from_elem((or + rows * sr, oc + cols * sc), JUNK);
            for i in 0..rows {
                for j in 0..cols {
                    a[(or + i * sr, oc + j * sc)] = at(i, j);
                }
            }
            a.slice_move(s![or..or + rows * sr;sr, oc..oc + cols * sc;sc])
        }
    }
}

/// A one-dimensional window of `n` cells into a matrix.
#[derive(Clone, Debug)]
pub struct View {
    rows: usize,
    cols: usize,
    forder: bool,
    kind: u8,
    k: usize,
    start: usize,
    step: usize,
    rev: bool,
    n: usize,
}

impl View {
    pub fn gen(r: &mut Rng, n: usize) -> View {
        let step = *r.pick(&[1, 1, 2, 3]);
        let start = *r.pick(&[0, 0, 1, 2]);
        let len = start + n * step + r.below(2);
        let other = r.range(1, 3);
        let kind = r.below(3) as u8;
        let (rows, cols) = match kind {
            0 => (other, len),
            1 => (len, other),
            _ => (len, len.min(40)),
        };
        // diagonals are only built for short vectors
        let (kind, rows, cols) = if kind == 2 && len > 40 { (1, len, other) } else if kind == 2 { (2, len, len) } else { (kind, rows, cols) };
        View {
            rows,
            cols,
            forder: r.chance(0.5),
            kind,
            k: r.below(other),
            start,
            step,
            rev: r.chance(0.3),
            n,
        }
    }
    /// The enclosing buffer, every cell distinct-ish junk.
    pub fn base(&self) -> Array2<f64> {
        use ndarray::ShapeBuilder;
        let cols = self.cols;
        let f = |(i, j): (usize, usize)| 1e3 + (i * cols + j) as f64 * 0.5;
        if self.forder {
            Array2::from_shape_fn((self.rows, self.cols).f(), f)
        } else {
            Array2::from_shape_fn((self.rows, self.cols), f)
        }
    }
    fn slice(&self) -> Slice {
        let end = self.start + if self.n == 0 { 0 } else { (self.n - 1) * self.step + 1 };
        Slice::new(
            self.start as isize,
            Some(end as isize),
            if self.rev { -(self.step as isize) } else { self.step as isize },
        )
    }
    pub fn view<'a>(&self, a: &'a Array2<f64>) -> ArrayView1<'a, f64> {
        let mut v = match self.kind {
            0 => a.row(self.k),
            1 => a.column(self.k),
            _ => a.diag(),
        };
        v.slice_axis_inplace(Axis(0), self.slice());
        v
    }
    pub fn view_mut<'a>(&self, a: &'a mut Array2<f64>) -> ArrayViewMut1<'a, f64> {
        let mut v = match self.kind {
            0 => a.row_mut(self.k),
            1 => a.column_mut(self.k),
            _ => a.diag_mut(),
        };
        v.slice_axis_inplace(Axis(0), self.slice());
        v
    }
    /// Buffer whose window holds `w`.
    pub fn with(&self, w: &[f64]) -> Array2<f64> {
        let mut b = self.base();
        let mut v = self.view_mut(&mut b);
        for i in 0..w.len() {
            v[i] = w[i];
        }
        b
    }
    /// First cell outside the window that differs from the pristine buffer.
    pub fn spill(&self, b: &Array2<f64>) -> Option<(usize, usize)> {
        let mut c = b.clone();
        let pristine = self.base();
        let p = self.view(&pristine).to_owned();
        self.view_mut(&mut c).assign(&p);
        for ((ij, x), y) in c.indexed_iter().zip(pristine.iter()) {
            if x.to_bits() != y.to_bits() {
                return Some(ij);
            }
        }
        None
    }
}

/// Sparse features holding `v`; `explicit` also stores some zeros explicitly.
pub fn sparse_of(r: &mut Rng, v: &[f64], explicit: bool) -> Features {
    let mut pairs: Vec<(usize, f64)> = Vec::new();
    for (i, &x) in v.iter().enumerate() {
        if x != 0.0 || (explicit && r.chance(0.3)) {
            pairs.push((i, x));
        }
    }
    r.shuffle(&mut pairs);
    match r.below(5) {
        0 => {
            // overwritten and removed entries before the final ones
            let mut m: HashMap<usize, f64> = HashMap::with_capacity(r.below(64));
            for i in 0..v.len().min(10) {
                m.insert(i, JUNK);
            }
            m.clear();
            m.extend(pairs);
            Features::from(SparseActivations { dim: v.len(), activations: m })
        }
        1 => Features::Sparse(SparseActivations {
            dim: v.len(),
            activations: pairs.into_iter().collect(),
        }),
        2 if pairs.iter().all(|p| p.1 == 1.0) => Features::unitary(v.len(), pairs.into_iter().map(|p| p.0)),
        3 => {
            // later pairs win over earlier ones with the same index
            let mut all: Vec<(usize, f64)> = pairs.iter().map(|p| (p.0, JUNK)).collect();
            all.extend(pairs);
            Features::sparse(v.len(), all)
        }
        _ => Features::sparse(v.len(), pairs),
    }
}

pub fn dense_of(r: &mut Rng, v: &[f64]) -> Features {
    match r.below(5) {
        0 => Features::dense(v.to_vec()),
        1 => v.to_vec().into(),
        2 => v.iter().copied().collect(),
        3 => Features::Dense(layout1(r, v)),
        _ => Features::from(layout1(r, v)),
    }
}

pub fn feats(r: &mut Rng, v: &[f64]) -> Features {
    if r.chance(0.5) {
        dense_of(r, v)
    } else {
        sparse_of(r, v, false)
    }
}

/// A dimension no dense vector could have.
pub fn huge_dim(r: &mut Rng) -> usize {
    *r.pick(&[1 << 31, (1 << 31) + 1, u32::MAX as usize, 1 << 32, (1 << 32) + 5, 1 << 40, (1 << 53) + 1, usize::MAX / 8])
}

/// Entries of a sparse vector of dimension `dim`, with indices that agree in
/// their low bits among them.
pub fn huge_entries(r: &mut Rng, dim: usize) -> std::collections::BTreeMap<usize, f64> {
    let mut m = std::collections::BTreeMap::new();
    let c = *r.pick(&[Cls::Int, Cls::Uniform, Cls::Mid, Cls::Dyadic]);
    for _ in 0..r.below(12) {
        let base = match r.below(4) {
            0 => r.below(dim.min(1000)),
            1 => dim - 1 - r.below(dim.min(1000)),
            _ => r.u64() as usize % dim,
        };
        let i = match r.below(4) {
            0 => base & 0xffff,
            1 => base & 0xffff_ffff,
            2 => base ^ (1 << *r.pick(&[16, 31, 32])),
            _ => base,
        };
        let x = val(r, c);
        if i < dim && x != 0.0 {
            m.insert(i, x);
            if r.chance(0.5) {
                let j = i ^ (1usize << *r.pick(&[8, 15, 16, 31, 32]));
                let x = val(r, c);
                if j < dim && x != 0.0 {
                    m.insert(j, x);
                }
            }
        }
    }
    m
}

/// The vector a `Features` denotes, read by indexing only.
pub fn read(f: &Features) -> Vec<f64> {
    (0..f.n_features()).map(|i| f[i]).collect()
}

/// Read through the public fields, bypassing every accessor.
pub fn raw(f: &Features) -> Vec<f64> {
    match f {
        Features::Dense(a) => (0..a.len()).map(|i| a[i]).collect(),
        Features::Sparse(s) => {
            let mut v = vec![0.0; s.dim];
            for (&i, &x) in s.activations.iter() {
                if i < s.dim {
                    v[i] = x;
                } else {
                    v.resize(v.len().max(i + 1), f64::NAN);
                }
            }
            v
        }
    }
}

/// Rounding tolerance of a sum of `n` terms whose magnitudes add up to `mag`.
pub fn gamma(n: usize, mag: f64) -> f64 {
    (n as f64 + 16.0) * 4.0 * EPS * mag + 1e-300
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

pub fn dot_mag(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x * y).abs()).sum()
}

pub fn show(v: &[f64]) -> String {
    if v.len() <= 12 {
        format!("{v:?}")
    } else {
        format!("[{} values: {:?} ...]", v.len(), &v[..8])
    }
}

pub fn repr(f: &Features) -> String {
    match f {
        Features::Dense(a) => format!("Dense(strides {:?}) {}", a.strides(), show(&raw(f))),
        Features::Sparse(s) => {
            let mut p: Vec<_> = s.activations.iter().map(|(i, x)| (*i, *x)).collect();
            p.sort_by(|a, b| a.0.cmp(&b.0));
            let k = p.len();
            p.truncate(10);
            format!("Sparse(dim {}, {} entries) {:?}", s.dim, k, p)
        }
    }
}
