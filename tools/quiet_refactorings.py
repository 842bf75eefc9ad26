import sys
R='/repo/src/'
def sub(f,pairs):
    s=open(R+f).read()
    for a,b,*n in pairs:
        c=s.count(a)
        assert c>=1,(f,a)
        s=s.replace(a,b)
    open(R+f,'w').write(s)
# 1 features
s=open(R+'features.rs').read()
old='''                    let mut phi = Array1::uninit(n);

                    for i in 0..n {
                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).%s().unwrap_or(0.0),
                            da2.get(i).copied().unwrap_or(0.0),
                        ));
                    }

                    unsafe { Dense(phi.assume_init()) }
'''
new='''                    let at = |i: usize| sa1.activations.get(&i).map_or(0.0, |x| *x);

                    Dense((0..n).map(|i| f(at(i), da2.get(i).map_or(0.0, |y| *y))).collect())
'''
for w in ('cloned','copied'):
    assert old%w in s; s=s.replace(old%w,new)
old='''                    let mut idx_out = sa1.activations.clone();

                    for (i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
                    }

                    for (&i, y) in sa2.activations.iter() {
                        idx_out.entry(i).or_insert_with(|| f(0.0, *y));
                    }
'''
new='''                    let keys: std::collections::BTreeSet<usize> = sa1
                        .activations
                        .keys()
                        .chain(sa2.activations.keys())
                        .copied()
                        .collect();
                    let value = |sa: &SparseActivations, i: usize| sa.activations.get(&i).copied().unwrap_or(0.0);
                    let idx_out = keys.into_iter().map(|i| (i, f(value(sa1, i), value(sa2, i)))).collect();
'''
assert old in s; s=s.replace(old,new)
old='''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense());

                Dense(all_activations.into())
'''
new='''                let (d1, d2) = (f1.into_dense(), f2.into_dense());
                let (n1, n2) = (d1.len(), d2.len());

                Dense(Array1::from_shape_fn(n1 + n2, |i| if i < n1 { d1[i] } else { d2[i - n1] }))
'''
assert old in s; s=s.replace(old,new)
old='''            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)
'''
new='''            .collect::<std::collections::BTreeMap<_, _>>()
            .into_iter()
            .rev()
            .map(|(idx, act)| act * weights[*idx])
            .sum()
'''
assert old in s; s=s.replace(old,new)
old='''        weights
            .columns()
            .into_iter()
            .map(|col| self.dot(&col))
            .collect()
'''
new='''        let mut out = Array1::zeros(weights.ncols());
        match self {
            Features::Dense(da) => {
                for (a, row) in da.iter().zip(weights.rows()) {
                    out.scaled_add(*a, &row);
                }
            }
            Features::Sparse(sa) => {
                for (&i, a) in sa.iter() {
                    out.scaled_add(*a, &weights.row(i));
                }
            }
        }
        out
'''
assert old in s; s=s.replace(old,new)
old='''            Features::Dense(da) => da.sum(),
            Features::Sparse(sa) => sa.activations.values().sum(),
'''
new='''            Features::Dense(da) => da.iter().rev().fold(0.0, |s, x| x + s),
            Features::Sparse(sa) => sa.activations.values().fold(0.0, |s, x| s + x),
'''
assert old in s; s=s.replace(old,new)
old='''            for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }
'''
new='''            sa.iter().for_each(|(i, act)| {
                let w = &mut weights[*i];
                *w = act.mul_add(alpha, *w);
            });
'''
assert old in s; s=s.replace(old,new)
old='''            weights.scaled_add(alpha, da)
'''
new='''            weights.add_assign(&da.mapv(|x| x * alpha))
'''
assert old in s; s=s.replace(old,new)
old='''        let old = mem::replace(self, tmp);

        mem::drop(mem::replace(self, old.map_into(f)));
'''
new='''        let old = mem::replace(self, tmp);
        let new = old.map(&f);

        *self = new;
'''
assert old in s; s=s.replace(old,new)
old='''                Sparse(sa2) => sa1.activations.iter().fold(0.0, |acc, (k, a1)| {
                    acc + sa2.activations.get(k).map_or(0.0, |a2| a1 * a2)
                }),
'''
new='''                Sparse(sa2) => {
                    let (small, large) = if sa1.activations.len() < sa2.activations.len() { (sa1, sa2) } else { (sa2, sa1) };
                    small.activations.iter().filter_map(|(k, a)| large.activations.get(k).map(|b| a * b)).sum()
                }
'''
assert old in s; s=s.replace(old,new)
s=s.replace('use std::','use std::',1)
open(R+'features.rs','w').write(s)
sub('optim/isgd.rs',[('''        Ok(features.scaled_addto(self.compute_lr(features) * scale_factor, weights))''','''        let norm: f64 = features.fold(0.0, |acc, x| x.powi(2) + acc);
        let alpha = self.0 * scale_factor / (self.0 * norm + 1.0);

        features.scaled_addto(alpha, weights);

        Ok(())''')])
sub('optim/sgd.rs',[('''        Ok(features.scaled_addto(self.0 * scale_factor, weights))''','''        let step = features.map(|a| a * scale_factor);

        Ok(features.scaled_addto(scale_factor * self.0, weights)).map(|_: ()| drop(step))''')])
sub('optim/adagrad.rs',[('''                    *ss = *ss + g.powi(2);
                    *w = *w + lr * g / (ss.sqrt() + EPS);''','''                    *ss += g * g;
                    *w += g * (lr / (ss.sqrt() + EPS));'''),('''                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);''','''                    if let Some(a) = sa.activations.get(&i) {
                        let g = a * scale_factor;
                        let sq = g * g + *ss;

                        weights[i] += (lr / (sq.sqrt() + EPS)) * g;
                        *ss = sq;
                    }''')])
sub('optim/adam.rs',[('''                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);
''','''                    let m2_unbiased = m2_new * (1.0 / (1.0 - self.beta2_prod));
'''),('''                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);''','''                    weights[i] += (self.learning_rate / (1.0 - self.beta1_prod)) * (m1_new / (EPS + m2_unbiased.sqrt()));'''),
('''(1.0 - self.beta2) * g * g;''','''(1.0 - self.beta2) * g.powi(2);''')])
sub('optim/adamax.rs',[('''weights[i] += self.learning_rate * m_unbiased / (u_new + EPS);''','''weights[i] += m_unbiased * (self.learning_rate / (EPS + u_new));''')])
sub('optim/momentum.rs',[('''            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),''','''            Features::Dense(da) => {
                self.velocity *= m;
                self.velocity.scaled_add(scale_factor, da);
            },'''),('''        Ok(weights.scaled_add(lr, &self.velocity))''','''        for (w, v) in weights.iter_mut().zip(self.velocity.iter()) {
            *w += v * lr;
        }

        Ok(())''')])
sub('optim/nesterov.rs',[('''            weights.scaled_add(lr * m, &self.velocity);
            features.scaled_addto(lr * scale_factor, weights);''','''            let mut total = &self.velocity * m;
            features.scaled_addto(scale_factor, &mut total);
            weights.scaled_add(lr, &total);''')])
s=open(R+'basis/normalisation.rs').read()
s=s.replace('''            f.map_into(|x| x / z)''','''            let inv = z.recip();

            match f {
                Features::Dense(mut da) => {
                    da.mapv_inplace(|x| x * inv);
                    Features::Dense(da)
                },
                sparse => sparse.map(|x| x * inv),
            }''')
s=s.replace('let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();','let z = da.dot(&da).sqrt();')
s=s.replace('let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt();','let z = sa.activations.values().map(|x| x.powi(2)).sum::<f64>().sqrt();')
s=s.replace('let z = da.fold(0.0, |acc, x| acc + x.abs());','let z: f64 = da.iter().rev().map(|x| x.abs()).sum();')
s=s.replace('''        self.0.project(input).map(|f| match f {
            Features::Dense(da) => {
                let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));

                Features::Dense(da.mapv(|x| x / z))
            },
            Features::Sparse(sa) => {
                let z = sa
                    .iter()
                    .fold(f64::NEG_INFINITY, |acc, (_, x)| acc.max(x.abs()));

                Features::Sparse''','''        self.0.project(input).map(|f| match f {
            Features::Dense(da) => {
                let z = da.fold(0.0f64, |acc, &x| x.abs().max(acc));

                Features::Dense(da / z)
            },
            Features::Sparse(sa) => {
                let (lo, hi) = sa.iter().fold((0.0f64, 0.0f64), |(lo, hi), (_, &x)| (lo.min(x), hi.max(x)));
                let z = hi.max(-lo);

                Features::Sparse''')
open(R+'basis/normalisation.rs','w').write(s)
sub('basis/stack.rs',[('''        let n12 = n1 + n2;

        if index < n1 {
            self.b1.ith(input, index)
        } else if index < n12 {
            self.b2.ith(input, index - n1)
        } else {
            Err(Error::index_error(index, n12))
        }''','''        match index.checked_sub(n1) {
            None => self.b1.ith(input, index),
            Some(rest) if rest < n2 => self.b2.ith(input, rest),
            Some(_) => Err(Error::index_error(index, n1 + n2)),
        }'''),('''        self.b1
            .project(input.clone())
            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))''','''        let first = self.b1.project(input.clone())?;
        let second = self.b2.project(input)?;

        Ok(first.stack(second))''')])
sub('basis/fourier.rs',[('''(PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()''','''{
            let mut phase = 0.0;
            for (v, c) in iter {
                phase += v * c;
            }
            (phase * PI).cos()
        }''')])
sub('basis/polynomial/mod.rs',[('''            .map(|(v, e)| v.borrow().powi(e as i32))
            .product()''','''            .fold(1.0, |acc, (v, e)| (0..e).fold(acc, |a, _| a * v.borrow()))''')])
sub('basis/polynomial/cpfk.rs',[('8.0 * x * x * x * x - 8.0 * x * x + 1.0','8.0 * x.powi(4) - 8.0 * x.powi(2) + 1.0'),('16.0 * x.powi(5) - 20.0 * x.powi(3) + 5.0 * x','x * ((16.0 * x * x - 20.0) * x * x + 5.0)'),
('''    1024.0 * x.powi(11) - 2816.0 * x.powi(9) + 2816.0 * x.powi(7) - 1232.0 * x.powi(5)
        + 220.0 * x.powi(3)
        - 11.0 * x
''','''    2.0 * x * t_10(x) - t_9(x)
''')])
sub('basis/tile_coding.rs',[('''        let t = t as isize;
        let tx2 = t * 2;
''','''        let t = t as isize;
'''),('''            let offset = t + i as isize * tx2;

            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))''','''            let offset = t * (2 * i as isize + 1);

            hasher.write_isize(((s + offset) as f64 / n_tilings as f64).floor() as isize)''')])
sub('basis/uniform_grid.rs',[('''        let mut in_it = input.into_iter().copied();
        let mut d_it = self.feature_space.iter();

        let acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());

        d_it.zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)''','''        let mut acc = 0;

        for (d, v) in self.feature_space.iter().zip(input) {
            acc *= d.n_partitions();
            acc += d.map_onto(*v);
        }

        acc''')])
sub('basis/kernels/stationary.rs',[('''                    .fold(0.0f64, |acc, z| acc + z * z)
                    .sqrt())''','''                    .map(|z| z.powi(2))
                    .sum::<f64>()
                    .sqrt())''')])
sub('basis/kernels/rational_quadratic.rs',[('''self.variance * (-self.power * (r * r / 2.0).ln_1p()).exp()''','''self.variance * (1.0 + 0.5 * r * r).powf(-self.power)''')])
s=open(R+'lib.rs').read()
a='''        self.try_iter(input).map(|it| it.collect())'''
assert a in s; s=s.replace(a,'''        self.basis.project(input).map(|b| b.matmul(&self.weights))''')
a='''            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })'''
assert a in s; s=s.replace(a,'''            let mut outcome = Ok(());
            for (e, mut c) in errors.into_iter().zip(self.weights.columns_mut()) {
                let r = opt.step_scaled(&mut c, b, e);
                outcome = outcome.and(r);
            }
            outcome''')
a='''        self.basis
            .project(input)
            .map(|b| (b.dot(&self.weights.view()), b))
            .map(|(v, b)| (f(&b, v), b))
            .and_then(|(e, b)| {
                self.optimiser
                    .step_scaled(&mut self.weights.view_mut(), &b, e)
            })'''
assert a in s; s=s.replace(a,'''        let phi = self.basis.project(input)?;
        let value = phi.dot(&self.weights.view());
        let error = f(&phi, value);

        self.optimiser.step_scaled(&mut self.weights.view_mut(), &phi, error)''')
open(R+'lib.rs','w').write(s)
