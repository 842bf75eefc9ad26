"""A second set of behaviour-preserving rewrites of /repo/src: apply, run the
checks (all must stay quiet), then `git -C /repo checkout -- .`."""
import sys
R = (sys.argv[1] if len(sys.argv) > 1 else '/repo') + '/src/'
def sub(f, pairs):
    s = open(R + f).read()
    for a, b in pairs:
        assert a in s, (f, a)
        s = s.replace(a, b)
    open(R + f, 'w').write(s)

sub('basis/mod.rs', [
('            (v - l.0) / (l.1 - l.0)\n', '            (v - l.0) * (1.0 / (l.1 - l.0))\n'),
('''    (0..dim)
        .map(|_| 0..=order)
        .multi_cartesian_product()
        .skip(1)
        .sorted_by(|a, b| a.partial_cmp(b).unwrap())
        .dedup()
''', '''    let mut rows: Vec<Vec<u8>> = Vec::new();
    let mut row = vec![0u8; dim];

    'rows: while dim > 0 {
        let mut i = dim;

        loop {
            if i == 0 {
                break 'rows;
            }
            i -= 1;
            if row[i] < order {
                row[i] += 1;
                break;
            }
            row[i] = 0;
        }

        rows.push(row.clone());
    }

    rows.into_iter()
'''),
('use itertools::Itertools;\n', ''),
('''            self.project(input).map(|b| b[index])''', '''            let projection = self.project(input)?;

            Ok(projection[index])'''),
])
sub('basis/fourier.rs', [
('''        Ok(self
            .coefficients
            .iter()
            .map(|cfs| Self::compute_feature(ss.iter().copied().zip(cfs.iter())))
            .collect())''', '''        let mut out = Vec::with_capacity(self.coefficients.len());

        for cfs in &self.coefficients {
            let phase: f64 = cfs.iter().zip(&ss).map(|(c, v)| PI * c * v).sum();

            out.push(phase.cos());
        }

        Ok(out.into())'''),
('''                let ss = rescale!(input into self.limits);

                Self::compute_feature(ss.zip(cfs.iter()))''', '''                let ss: Vec<f64> = rescale!(input into self.limits).collect();

                Self::compute_feature(ss.into_iter().zip(cfs.iter()))'''),
])
sub('basis/polynomial/mod.rs', [
('''            .map(|(v, e)| v.borrow().powi(e as i32))
            .product()''', '''            .map(|(v, e)| {
                let (mut base, mut e, mut acc) = (*v.borrow(), e as u32, 1.0);

                while e > 0 {
                    if e & 1 == 1 {
                        acc *= base;
                    }
                    base *= base;
                    e >>= 1;
                }

                acc
            })
            .product()'''),
('''            .map(|v| 2.0 * v - 1.0)
            .collect();''', '''            .map(|v| (v - 0.5) * 2.0)
            .collect();'''),
('''        let iter = input.into_iter().map(|x| *x.borrow());

        Ok(self
            .exponents
            .iter()
            .map(|exps| Self::compute_feature(iter.clone().zip(exps.iter().copied())))
            .collect())''', '''        let xs: Vec<f64> = input.into_iter().map(|x| *x.borrow()).collect();

        Ok(Features::dense(self.exponents.iter().map(|exps| {
            Self::compute_feature(xs.iter().zip(exps.iter().copied()))
        })))'''),
])
sub('basis/polynomial/cpfk.rs', [
('16.0 * x.powi(5) - 20.0 * x.powi(3) + 5.0 * x', '2.0 * x * t_4(x) - t_3(x)'),
('''    1024.0 * x.powi(11) - 2816.0 * x.powi(9) + 2816.0 * x.powi(7) - 1232.0 * x.powi(5)
        + 220.0 * x.powi(3)
        - 11.0 * x
''', '''    2.0 * t_5(x) * t_6(x) - x
'''),
])
sub('basis/kernels/stationary.rs', [
('.map(|(d, l)| d / l)', '.map(|(d, l)| d * l.recip())'),
('.zip($self.lengthscales.iter().cycle())', '.zip((0..).map(|i| &$self.lengthscales[i % $self.lengthscales.len()]))'),
('{ self.variance * (-r).exp() }', '{ self.variance / r.exp() }'),
('self.variance * (1.0 + sqrt_3 * r) * (-sqrt_3 * r).exp()', 'let z = sqrt_3 * r;\n\n        self.variance * (-z).exp() * (z + 1.0)'),
('self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()', 'let z = sqrt_5 * r;\n\n        self.variance * (-z).exp() * (1.0 + z * (1.0 + z / 3.0))'),
('{ self.variance * (-0.5 * r * r).exp() }', '{ self.variance * (-(r * r) / 2.0).exp() }'),
])
sub('basis/kernelised.rs', [
('''        Ok(self
            .prototypes
            .iter()
            .map(|p| p.distance_from(input.borrow()))
            .collect())''', '''        let x = input.borrow();

        Ok(Features::dense(self.prototypes.iter().map(|p| {
            p.kernel.kernel(x, p.centroid.as_slice())
        })))'''),
('''        KernelBasis::new(
            centroids
                .into_iter()
                .map(|centroid| Prototype {
                    centroid,
                    kernel: kernel.clone(),
                })
                .collect(),
        )''', '''        let mut prototypes = Vec::new();

        for centroid in centroids {
            prototypes.push(Prototype { centroid, kernel: kernel.clone() });
        }

        KernelBasis::new(prototypes)'''),
])
sub('basis/tile_coding.rs', [
('''        let mut hasher = hasher_builder.build_hasher();

        hasher.write_isize(t);

        for (i, s) in state.iter().enumerate() {
            let offset = t + i as isize * tx2;

            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
        }

        hasher.finish() as usize % memory_size''', '''        let tile: Vec<isize> = state
            .iter()
            .enumerate()
            .map(|(i, s)| (s + t + i as isize * tx2).div_euclid(n_tilings as isize))
            .collect();
        let mut hasher = hasher_builder.build_hasher();

        (tile, t).hash(&mut hasher);

        (hasher.finish() % memory_size as u64) as usize'''),
('use std::hash::{BuildHasher, Hasher};', 'use std::hash::{BuildHasher, Hash, Hasher};'),
('''            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })''', '''            Ok(hash.position(|f| index == f).map_or(0.0, |_| 1.0))'''),
])
sub('basis/uniform_grid.rs', [
('''        let acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());

        d_it.zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)''', '''        let mut stride = self.n_features;
        let mut index = 0;

        while let (Some(d), Some(v)) = (d_it.next(), in_it.next()) {
            stride /= d.n_partitions();
            index += stride * d.map_onto(v);
        }

        index'''),
])
sub('basis/normalisation.rs', [
('''                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();''', '''                let m = da.iter().fold(0.0f64, |m, x| m.max(x.abs()));
                let z = m * da.iter().map(|x| (x / m).powi(2)).sum::<f64>().sqrt();'''),
('''                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt();''', '''                let m = sa.activations.values().fold(0.0f64, |m, x| m.max(x.abs()));
                let z = m * sa.activations.values().map(|x| (x / m).powi(2)).sum::<f64>().sqrt();'''),
('''                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());

                Features::Sparse(SparseActivations {
                    dim: sa.dim,
                    activations: sa
                        .activations
                        .into_iter()
                        .map(|(i, x)| (i, x / z))
                        .collect(),
                })''', '''                let mut sa = sa;
                let z: f64 = sa.activations.values().map(|x| x.abs()).sum();

                for x in sa.activations.values_mut() {
                    *x /= z;
                }

                Features::Sparse(sa)'''),
])
sub('basis/constant.rs', [
('Ok(vec![self.0].into())', 'Ok(Features::dense(std::iter::once(self.0)))'),
('''        Ok(Features::Sparse(SparseActivations {
            dim: (self.0).0,
            activations: (self.0).1.iter().map(|&i| (i, 1.0)).collect(),
        }))''', '''        let (n, active) = &self.0;

        Ok(Features::unitary(*n, active.iter().copied()))'''),
('use crate::{ActivationT, Features, IndexT, Result, SparseActivations};', 'use crate::{ActivationT, Features, IndexT, Result};'),
])
sub('basis/stack.rs', [
('''        self.b1
            .project(input.clone())
            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))''', '''        match (self.b1.project(input.clone()), self.b2.project(input)) {
            (Ok(f1), Ok(f2)) => Ok(Features::stack(f1, f2)),
            (Err(e), _) | (_, Err(e)) => Err(e),
        }'''),
])
sub('optim/sgd.rs', [
('''        Ok(features.scaled_addto(self.0, weights))''', '''        self.step_scaled(weights, features, 1.0)'''),
])
sub('optim/isgd.rs', [
('''        let norm = features.fold(0.0, |acc, x| acc + x * x);

        self.0 / (1.0 + self.0 * norm)''', '''        let norm = match features {
            Features::Dense(da) => da.iter().map(|x| x * x).sum::<f64>(),
            Features::Sparse(sa) => sa.activations.values().map(|x| x * x).sum::<f64>(),
        };

        self.0 / self.0.mul_add(norm, 1.0)'''),
])
sub('optim/momentum.rs', [
('''                self.velocity.mul_assign(m);

                sa.iter().for_each(|(i, a)| {
                    self.velocity[*i] += a * scale_factor;
                });''', '''                for (i, v) in self.velocity.indexed_iter_mut() {
                    *v = *v * m + sa.activations.get(&i).map_or(0.0, |a| scale_factor * a);
                }'''),
('use std::ops::MulAssign;\n', ''),
])
sub('optim/nesterov.rs', [
('''            weights.scaled_add(lr * m, &self.velocity);
            features.scaled_addto(lr * scale_factor, weights);''', '''            features.scaled_addto(scale_factor * lr, weights);
            weights
                .iter_mut()
                .zip(&self.velocity)
                .for_each(|(w, v)| *w += lr * (m * v));'''),
])
sub('optim/adagrad.rs', [
('''                for (i, ss) in self.accumulator.indexed_iter_mut() {
                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
                }''', '''                for (&i, a) in sa.iter() {
                    let g = a * scale_factor;
                    let ss = &mut self.accumulator[i];

                    *ss += g * g;
                    weights[i] += lr * g / (ss.sqrt() + EPS);
                }'''),
])
s = open(R + 'optim/adam.rs').read()
for a, b in [
('''    beta1_prod: f64,
''', ''),
('''    beta2_prod: f64,
''', '''    t: u64,
'''),
('''            beta1_prod: 1.0,
''', ''),
('''            beta2_prod: 1.0,
''', '''            t: 0,
'''),
('''        self.beta1_prod *= self.beta1;
        self.beta2_prod *= self.beta2;
''', '''        self.t += 1;

        let t = self.t as f64;
        let c1 = 1.0 - self.beta1.powf(t);
        let c2 = (1.0 - self.beta2.powf(t)).sqrt();
'''),
('''                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

''', ''),
('''                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);''', '''                    weights[i] += self.learning_rate * c2 / c1 * m1_new / (m2_new.sqrt() + EPS * c2);'''),
('''        self.beta1_prod = 1.0;
        self.beta2_prod = 1.0;
''', '''        self.t = 0;
'''),
]:
    assert a in s, a
    s = s.replace(a, b)
open(R + 'optim/adam.rs', 'w').write(s)
sub('optim/adamax.rs', [
('''                    let u_new = (self.beta2 * u[i]).max(g.abs());''', '''                    let decayed = self.beta2 * u[i];
                    let u_new = if g.abs() > decayed { g.abs() } else { decayed };'''),
('''                    let m_new = m[i] + (1.0 - self.beta1) * g;''', '''                    let m_new = g.mul_add(1.0 - self.beta1, m[i]);'''),
])
s = open(R + 'lib.rs').read()
for a, b in [
('''        self.basis
            .project(input)
            .map(|b| b.dot(&self.weights.view()))
''', '''        match self.basis.project(input) {
            Ok(phi) => Ok(phi.dot(&self.weights)),
            Err(e) => Err(e),
        }
'''),
('''        self.lanes.next().map(|ref c| self.basis.dot(c))''', '''        let column = self.lanes.next()?;

        Some(self.basis.dot(&column))'''),
('''        OutputIter {
            basis: self.basis.project(input).unwrap(),
            lanes: self.weights.columns().into_iter(),
        }''', '''        self.try_iter(input).expect("the basis failed")'''),
('''            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })''', '''            errors
                .into_iter()
                .zip(self.weights.columns_mut())
                .try_for_each(|(e, mut c)| opt.step_scaled(&mut c, b, e))'''),
('''            let values = b.matmul(&self.weights);
''', '''            let values: ndarray::Array1<f64> =
                self.weights.columns().into_iter().map(|c| b.dot(&c)).collect();
'''),
]:
    assert a in s, a
    s = s.replace(a, b)
open(R + 'lib.rs', 'w').write(s)
s = open(R + 'features.rs').read()
for a, b in [
('''        Features::Dense(da.into_iter().collect())''', '''        da.into_iter().collect()'''),
('''            da.iter().filter(|v| v.abs() > 1e-7).count()''', '''            da.fold(0, |n, v| if v.abs() > 1e-7 { n + 1 } else { n })'''),
('''                let mut phi = Array1::zeros(sa.dim);

                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi''', '''                self.clone().into_dense()'''),
('''            (Sparse(mut sa1), Sparse(sa2)) => {
                sa2.activations.iter().for_each(|(i, &v)| {
                    sa1.activations.insert(i + sa1.dim, v);
                });

                Sparse(SparseActivations {
                    dim: sa1.dim + sa2.dim,
                    activations: sa1.activations,
                })
            }''', '''            (Sparse(sa1), Sparse(sa2)) => {
                let SparseActivations { dim, mut activations } = sa1;

                activations.extend(sa2.activations.into_iter().map(|(i, v)| (dim + i, v)));

                Features::from(SparseActivations { dim: dim + sa2.dim, activations })
            }'''),
('''                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    let activations = sa.activations.into_iter().map(|(i, v)| (i, f(v))).collect();

                    Sparse(SparseActivations {
                        dim: sa.dim,
                        activations,
                    })
                } else {''', '''                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    let mut sa = sa;

                    sa.activations.values_mut().for_each(|v| *v = f(*v));

                    Sparse(sa)
                } else {'''),
('''                    let n = sa1.dim.max(da2.len());
                    let mut phi = Array1::uninit(n);

                    for i in 0..n {
                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).copied().unwrap_or(0.0),
                            da2.get(i).copied().unwrap_or(0.0),
                        ));
                    }

                    unsafe { Dense(phi.assume_init()) }''', '''                    let mut phi = sa1.activations.keys().fold(
                        vec![0.0; sa1.dim.max(da2.len())],
                        |mut phi, i| {
                            phi[*i] = sa1.activations[i];
                            phi
                        },
                    );

                    for (i, x) in phi.iter_mut().enumerate() {
                        *x = f(*x, if i < da2.len() { da2[i] } else { 0.0 });
                    }

                    phi.into()'''),
('''            da.iter().fold(init, f)
''', '''            da.iter().fold(init, |acc, x| f(acc, x))
'''),
('''                sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)''', '''                sa1.dim == sa2.dim
                    && sa1.activations.len() == sa2.activations.len()
                    && sa1.activations.iter().all(|(i, a)| sa2.activations.get(i) == Some(a))'''),
('''        let n = indices.iter().max().unwrap() + 1;

        SparseFeatures(SparseActivations {
            dim: n,
            activations: indices.into_iter().map(|i| (i, 1.0)).collect(),
        })''', '''        let n = indices.iter().copied().reduce(usize::max).expect("no indices") + 1;

        Features::unitary(n, indices)'''),
('''        phi.into_dense().to_vec()''', '''        phi.into_dense().into_iter().collect()'''),
]:
    assert a in s, a
    s = s.replace(a, b)
open(R + 'features.rs', 'w').write(s)
