//! Optimisers of the library behind one enum, and shadow recurrences.
use crate::engine::Rng;
use crate::gen::*;
use lfa::optim::*;
use lfa::{Features, Result};
use ndarray::ArrayViewMut1;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AnyOpt {
    Sgd(SGD),
    Isgd(ISGD),
    Mom(SGDMomentum),
    Nag(NAG),
    Adagrad(Adagrad),
    Adam(Adam),
    AdaMax(AdaMax),
}

macro_rules! each {
    ($s:expr, $o:ident => $e:expr) => {
        match $s {
            AnyOpt::Sgd($o) => $e,
            AnyOpt::Isgd($o) => $e,
            AnyOpt::Mom($o) => $e,
            AnyOpt::Nag($o) => $e,
            AnyOpt::Adagrad($o) => $e,
            AnyOpt::Adam($o) => $e,
            AnyOpt::AdaMax($o) => $e,
        }
    };
}

impl AnyOpt {
    /// `clone_from` of the optimiser itself.
    pub fn copy_from(&mut self, from: &AnyOpt) {
        match (self, from) {
            (AnyOpt::Sgd(a), AnyOpt::Sgd(b)) => a.clone_from(b),
            (AnyOpt::Isgd(a), AnyOpt::Isgd(b)) => a.clone_from(b),
            (AnyOpt::Mom(a), AnyOpt::Mom(b)) => a.clone_from(b),
            (AnyOpt::Nag(a), AnyOpt::Nag(b)) => a.clone_from(b),
            (AnyOpt::Adagrad(a), AnyOpt::Adagrad(b)) => a.clone_from(b),
            (AnyOpt::Adam(a), AnyOpt::Adam(b)) => a.clone_from(b),
            (AnyOpt::AdaMax(a), AnyOpt::AdaMax(b)) => a.clone_from(b),
            (a, b) => *a = b.clone(),
        }
    }
}

impl Optimiser<Features> for AnyOpt {
    fn step(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features) -> Result<()> {
        each!(self, o => o.step(w, f))
    }
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, e: f64) -> Result<()> {
        each!(self, o => o.step_scaled(w, f, e))
    }
    fn reset(&mut self) {
        each!(self, o => Optimiser::<Features>::reset(o))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OptSpec {
    Sgd(f64),
    Isgd(f64),
    Mom(f64, f64),
    Nag(f64, f64),
    Adagrad(f64),
    Adam(f64, f64, f64),
    AdaMax(f64, f64, f64),
}

pub const EPS_OPT: f64 = 1e-7;

fn beta(r: &mut Rng, hi: f64) -> f64 {
    match r.below(6) {
        0 => 0.0,
        1 => 0.9,
        2 => hi,
        3 => 0.5,
        _ => r.uniform(0.05, 0.99),
    }
}

fn rate(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => 1.0,
        1 => 0.1,
        2 => 0.01,
        _ => logu(r, -4.0, 0.5),
    }
}

impl OptSpec {
    pub fn gen(r: &mut Rng) -> OptSpec {
        let k = r.below(7);
        OptSpec::of(r, k)
    }
    pub fn gen_stateful(r: &mut Rng) -> OptSpec {
        let k = r.range(2, 6);
        OptSpec::of(r, k)
    }
    pub fn of(r: &mut Rng, k: usize) -> OptSpec {
        let lr = rate(r);
        match k {
            0 => OptSpec::Sgd(lr),
            1 => OptSpec::Isgd(lr),
            2 => OptSpec::Mom(beta(r, 0.99), lr),
            3 => OptSpec::Nag(beta(r, 0.99), lr),
            4 => OptSpec::Adagrad(lr),
            5 => OptSpec::Adam(lr, beta(r, 0.999), beta(r, 0.9999)),
            _ => OptSpec::AdaMax(lr, beta(r, 0.999), beta(r, 0.9999)),
        }
    }
    /// The same rule climbing instead of descending.
    pub fn negated(self) -> OptSpec {
        match self {
            OptSpec::Sgd(a) => OptSpec::Sgd(-a),
            OptSpec::Isgd(a) => OptSpec::Isgd(-a),
            OptSpec::Mom(m, a) => OptSpec::Mom(m, -a),
            OptSpec::Nag(m, a) => OptSpec::Nag(m, -a),
            OptSpec::Adagrad(a) => OptSpec::Adagrad(-a),
            OptSpec::Adam(a, b1, b2) => OptSpec::Adam(-a, b1, b2),
            OptSpec::AdaMax(a, b1, b2) => OptSpec::AdaMax(-a, b1, b2),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            OptSpec::Sgd(_) => "SGD",
            OptSpec::Isgd(_) => "ISGD",
            OptSpec::Mom(..) => "SGDMomentum",
            OptSpec::Nag(..) => "NAG",
            OptSpec::Adagrad(_) => "Adagrad",
            OptSpec::Adam(..) => "Adam",
            OptSpec::AdaMax(..) => "AdaMax",
        }
    }
    pub fn stateful(&self) -> bool {
        !matches!(self, OptSpec::Sgd(_) | OptSpec::Isgd(_))
    }
    pub fn build(&self, n: usize) -> AnyOpt {
        match *self {
            OptSpec::Sgd(a) => AnyOpt::Sgd(SGD(a)),
            OptSpec::Isgd(a) => AnyOpt::Isgd(ISGD(a)),
            OptSpec::Mom(m, a) => AnyOpt::Mom(SGDMomentum::new(n, m, a)),
            OptSpec::Nag(m, a) => AnyOpt::Nag(NAG::new(n, m, a)),
            OptSpec::Adagrad(a) => AnyOpt::Adagrad(Adagrad::new(n, a)),
            OptSpec::Adam(a, b1, b2) => AnyOpt::Adam(Adam::new(n, a, b1, b2)),
            OptSpec::AdaMax(a, b1, b2) => AnyOpt::AdaMax(AdaMax::new(n, a, b1, b2)),
        }
    }
    pub fn shadow(&self, n: usize) -> Shadow {
        Shadow {
            spec: *self,
            t: 0,
            u: vec![0.0; n],
            um: vec![0.0; n],
            s: vec![0.0; n],
        }
    }
}

/// Shadow recurrence.  `um` bounds the magnitudes that went into `u`, so the
/// rounding tolerance stays meaningful under cancellation.
#[derive(Clone, Debug)]
pub struct Shadow {
    pub spec: OptSpec,
    pub t: i32,
    u: Vec<f64>,
    um: Vec<f64>,
    s: Vec<f64>,
}

/// Shadow weights: expected value and accumulated tolerance per weight.
#[derive(Clone, Debug)]
pub struct SW {
    pub w: Vec<f64>,
    pub e: Vec<f64>,
}

impl SW {
    pub fn new(w: &[f64]) -> SW {
        SW { w: w.to_vec(), e: vec![0.0; w.len()] }
    }
    /// Adopt observed values (exactly what the library now holds).
    pub fn resync(&mut self, w: &[f64]) {
        self.w.copy_from_slice(w);
        self.e.iter_mut().for_each(|e| *e = 0.0);
    }
    fn add(&mut self, i: usize, d: f64, e: f64) {
        self.w[i] += d;
        self.e[i] += e + crate::engine::UNDERFLOW + 8.0 * EPS * (d.abs() + self.w[i].abs());
    }
    pub fn sane(&self) -> bool {
        self.w.iter().all(|w| w.is_finite() && w.abs() < 1e100)
    }
}

const REL: f64 = 1e-11;

impl Shadow {
    pub fn reset(&mut self) {
        *self = self.spec.shadow(self.u.len());
    }
    /// `f`: feature values, `active`: which ones the features store
    /// (everything for dense), `e`: error.
    pub fn step(&mut self, w: &mut SW, f: &[f64], active: &[bool], e: f64) {
        self.t += 1;
        let n = f.len();
        match self.spec {
            OptSpec::Sgd(a) => {
                for i in 0..n {
                    if f[i] != 0.0 {
                        w.add(i, a * e * f[i], (a * e * f[i]).abs() * (n as f64 + 32.0) * 4.0 * EPS);
                    }
                }
            }
            OptSpec::Isgd(a) => {
                let q: f64 = f.iter().map(|x| x * x).sum();
                let k = a / (1.0 + a * q);
                for i in 0..n {
                    if f[i] != 0.0 {
                        w.add(i, k * e * f[i], (k * e * f[i]).abs() * (n as f64 + 32.0) * 4.0 * EPS);
                    }
                }
            }
            OptSpec::Mom(m, a) | OptSpec::Nag(m, a) => {
                for i in 0..n {
                    let g = e * f[i];
                    self.u[i] = m * self.u[i] + g;
                    self.um[i] = m.abs() * self.um[i] + g.abs();
                    let (d, mag) = if matches!(self.spec, OptSpec::Mom(..)) {
                        (a * self.u[i], a.abs() * self.um[i])
                    } else {
                        (a * (g + m * self.u[i]), a.abs() * (g.abs() + m.abs() * self.um[i]))
                    };
                    w.add(i, d, mag * REL);
                }
            }
            OptSpec::Adagrad(a) => {
                for i in 0..n {
                    let g = e * f[i];
                    self.s[i] += g * g;
                    let d = a * g / (self.s[i].sqrt() + EPS_OPT);
                    w.add(i, d, d.abs() * REL);
                }
            }
            OptSpec::Adam(a, b1, b2) => {
                let (c1, c2) = (1.0 - b1.powi(self.t), 1.0 - b2.powi(self.t));
                for i in 0..n {
                    let g = if active[i] { e * f[i] } else { 0.0 };
                    self.u[i] = b1 * self.u[i] + (1.0 - b1) * g;
                    self.um[i] = b1 * self.um[i] + (1.0 - b1) * g.abs();
                    self.s[i] = b2 * self.s[i] + (1.0 - b2) * g * g;
                    if active[i] {
                        let den = (self.s[i] / c2).sqrt() + EPS_OPT;
                        w.add(i, a * (self.u[i] / c1) / den, a.abs() * self.um[i] / c1 / den * REL * 16.0);
                    }
                }
            }
            OptSpec::AdaMax(a, b1, b2) => {
                let c1 = 1.0 - b1.powi(self.t);
                for i in 0..n {
                    let g = if active[i] { e * f[i] } else { 0.0 };
                    self.u[i] = b1 * self.u[i] + (1.0 - b1) * g;
                    self.um[i] = b1 * self.um[i] + (1.0 - b1) * g.abs();
                    self.s[i] = (b2 * self.s[i]).max(g.abs());
                    if active[i] {
                        let den = self.s[i] + EPS_OPT;
                        w.add(i, a * (self.u[i] / c1) / den, a.abs() * self.um[i] / c1 / den * REL * 16.0);
                    }
                }
            }
        }
    }
}

/// Which entries a feature vector stores (all of them when dense).
pub fn active(f: &Features) -> Vec<bool> {
    match f {
        Features::Dense(a) => vec![true; a.len()],
        Features::Sparse(s) => {
            let mut v = vec![false; s.dim];
            for (&i, _) in s.activations.iter() {
                if i < v.len() {
                    v[i] = true;
                }
            }
            v
        }
    }
}

/// An error signal: positive, negative, zero, tiny or large.
pub fn error(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => sign(r) * logu(r, -8.0, -3.0),
        4 => sign(r) * logu(r, 1.0, 4.0),
        _ => r.uniform(-3.0, 3.0),
    }
}
