From b1830ec54e00d46c57f5aa50c804ce172fb18fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 01/21] fix: index sparse features by their activation

Indexing a sparse feature vector returned 1.0 for every active feature,
whatever its activation.
---
 src/features.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index ebcd9db..470d783 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -719,11 +719,7 @@ impl Index<usize> for Features {
         apply_to_features!(self => da, {
             da.index(idx)
         }; sa, {
-            if sa.activations.contains_key(&idx) {
-                &1.0
-            } else {
-                &0.0
-            }
+            sa.activations.get(&idx).unwrap_or(&0.0)
         })
     }
 }
-- 
2.43.0


From 68d3a7516ca894ee9bd666cc998b55203135ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:49 +0000
Subject: [PATCH 02/21] fix: sum products in the dot of two sparse features

The number of shared indices was returned, ignoring the activations.
---
 src/features.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 470d783..13ee948 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -689,13 +689,9 @@ impl ndarray::linalg::Dot<Features> for Features {
 
         match self {
             Sparse(sa1) => match rhs {
-                Sparse(sa2) => sa1.activations.keys().fold(0, |acc, k| {
-                    acc + if sa2.activations.contains_key(k) {
-                        1
-                    } else {
-                        0
-                    }
-                }) as f64,
+                Sparse(sa2) => sa1.activations.iter().fold(0.0, |acc, (k, a1)| {
+                    acc + sa2.activations.get(k).map_or(0.0, |a2| a1 * a2)
+                }),
                 Dense(da2) => Features::dot_sparse(sa1, da2),
             },
             Dense(da1) => match rhs {
-- 
2.43.0


From 96cef957c9f05e8bfc7c6e6116b8c5e9dbf43d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 03/21] fix: no invalid placeholder in map_inplace and
 merge_inplace

The zeroed placeholder is not a valid Features value (undefined behaviour),
and a closure that panics left it behind for safe code to use and drop.
---
 src/features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 13ee948..bcb95cc 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -376,7 +376,7 @@ impl Features {
 
     /// Mutate all feature activations inplace using an operation, `f`.
     pub fn map_inplace(&mut self, f: impl Fn(ActivationT) -> ActivationT) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
+        let tmp = Features::Dense(Array1::zeros(0));
         let old = mem::replace(self, tmp);
 
         mem::drop(mem::replace(self, old.map_into(f)));
@@ -541,7 +541,7 @@ impl Features {
         other: &Features,
         f: impl Fn(ActivationT, ActivationT) -> ActivationT,
     ) {
-        let tmp = unsafe { mem::MaybeUninit::zeroed().assume_init() };
+        let tmp = Features::Dense(Array1::zeros(0));
         let old = mem::replace(self, tmp);
 
         mem::drop(mem::replace(self, old.merge_into(other, f)));
-- 
2.43.0


From 4f0d25b13b36b726a95f1c031bc8846309a312da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 04/21] fix: merge zero-extends a shorter dense operand like
 merge_into

merge panicked where merge_into and merge_inplace treat the missing
entries as zero.
---
 src/features.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features.rs b/src/features.rs
index bcb95cc..0df6443 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -453,7 +453,7 @@ impl Features {
                     for i in 0..n {
                         phi[i] = MaybeUninit::new(f(
                             sa1.activations.get(&i).cloned().unwrap_or(0.0),
-                            da2[i],
+                            da2.get(i).copied().unwrap_or(0.0),
                         ));
                     }
 
-- 
2.43.0


From 77d7be94632b655c8123ebfd045973c86b05ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 05/21] fix: merge dense with sparse features at every position

The operation was skipped wherever the sparse operand is inactive, so for
instance a product kept the dense activations there instead of zeroing them.
---
 src/features.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 0df6443..a6644e9 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -437,10 +437,14 @@ impl Features {
                         Dense(a_out)
                     }
                     Sparse(sa2) => {
-                        for (&i, a) in sa2.iter() {
-                            a_out[i] = f(a_out[i], *a);
+                        let mut da2 = Array1::zeros(a_out.len());
+
+                        for (&i, &a) in sa2.iter() {
+                            da2[i] = a;
                         }
 
+                        a_out.zip_mut_with(&da2, |x, y| *x = f(*x, *y));
+
                         Dense(a_out)
                     }
                 }
@@ -495,10 +499,14 @@ impl Features {
                     Dense(da1)
                 }
                 Sparse(sa2) => {
-                    for (&i, a) in sa2.iter() {
-                        da1[i] = f(da1[i], *a);
+                    let mut da2 = Array1::zeros(da1.len());
+
+                    for (&i, &a) in sa2.iter() {
+                        da2[i] = a;
                     }
 
+                    da1.zip_mut_with(&da2, |x, y| *x = f(*x, *y));
+
                     Dense(da1)
                 }
             },
-- 
2.43.0


From 67f128ae737fc144abfeb477a1b15145ca328cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 06/21] fix: merge sparse features with functions that do not
 preserve zero

Positions inactive in both operands stayed zero whatever the function gives
there. Such merges now produce dense features, as map already does.
---
 src/features.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/features.rs b/src/features.rs
index a6644e9..2b9e037 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -463,6 +463,15 @@ impl Features {
 
                     unsafe { Dense(phi.assume_init()) }
                 }
+                // Is the function sparsity preserving?
+                Sparse(sa2) if !(f(0.0, 0.0).abs() < 1e-5) => {
+                    Dense(Array1::from_shape_fn(sa1.dim.max(sa2.dim), |i| {
+                        f(
+                            sa1.activations.get(&i).copied().unwrap_or(0.0),
+                            sa2.activations.get(&i).copied().unwrap_or(0.0),
+                        )
+                    }))
+                }
                 Sparse(sa2) => {
                     let mut idx_out = sa1.activations.clone();
 
@@ -524,6 +533,15 @@ impl Features {
 
                     unsafe { Dense(phi.assume_init()) }
                 }
+                // Is the function sparsity preserving?
+                Sparse(sa2) if !(f(0.0, 0.0).abs() < 1e-5) => {
+                    Dense(Array1::from_shape_fn(sa1.dim.max(sa2.dim), |i| {
+                        f(
+                            sa1.activations.get(&i).copied().unwrap_or(0.0),
+                            sa2.activations.get(&i).copied().unwrap_or(0.0),
+                        )
+                    }))
+                }
                 Sparse(sa2) => {
                     for (i, a) in sa1.activations.iter_mut() {
                         *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
-- 
2.43.0


From 2d1928284104ae34cfbc7ac707f9c1803af4ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 07/21] fix: read dense features in logical order whatever
 their memory layout

Stacking and conversion to a vector used the raw buffer, which for a strided,
reversed or sliced array holds other elements or another order, or panicked.
---
 src/features.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index 2b9e037..ccaefdd 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -303,8 +303,8 @@ impl Features {
                 })
             }
             (f1, f2) => {
-                let mut all_activations = f1.into_dense().into_raw_vec();
-                all_activations.extend_from_slice(f2.into_dense().as_slice().unwrap());
+                let mut all_activations = f1.into_dense().to_vec();
+                all_activations.extend(f2.into_dense());
 
                 Dense(all_activations.into())
             }
@@ -809,7 +809,7 @@ impl From<Features> for DenseActivations {
 
 impl From<Features> for Vec<ActivationT> {
     fn from(phi: Features) -> Vec<ActivationT> {
-        phi.into_dense().into_raw_vec()
+        phi.into_dense().to_vec()
     }
 }
 
-- 
2.43.0


From e292488919b1989f9aad17d040913d347ffc95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 08/21] fix: apply callback errors in logical order

VectorLFA::update_with took the raw buffer of the error array, which for a
strided, reversed or sliced array holds other elements or another order.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e4da79..d484aef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,7 +307,7 @@ impl<B, O> VectorLFA<B, O> {
         self.basis.project(input).and_then(|ref b| {
             let opt = &mut self.optimiser;
             let values = b.matmul(&self.weights);
-            let errors = f(b, values).into_raw_vec();
+            let errors = f(b, values);
 
             errors
                 .into_iter()
-- 
2.43.0


From ff3ac1d85c5862c1588d9918a9bf34da7be707b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 09/21] fix: keep the dimension when converting from sparse
 activations

The declared dimension was replaced by the largest active index plus one, and
the conversion panicked when nothing was active.
---
 src/features.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index ccaefdd..898a8d6 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -781,12 +781,7 @@ impl FromIterator<ActivationT> for Features {
 
 impl From<SparseActivations> for Features {
     fn from(sa: SparseActivations) -> Features {
-        let n = sa.activations.iter().map(|(i, _)| i).max().unwrap() + 1;
-
-        SparseFeatures(SparseActivations {
-            dim: n,
-            activations: sa.activations,
-        })
+        SparseFeatures(sa)
     }
 }
 
-- 
2.43.0


From 7fe23c378fc288e8c7ce201548b9c609535bec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 10/21] fix: check bounds in the L0 normaliser's ith

The access was unchecked, so a basis producing fewer features than it declares
read out of bounds, and an inactive sparse feature panicked instead of being
zero.
---
 src/basis/normalisation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index 6fa0fc4..d65bc11 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -48,7 +48,7 @@ where
                 .map(|f| {
                     let z = f.n_active() as f64;
 
-                    unsafe { f.uget(index).unwrap() / z }
+                    f.get(index).map_or(0.0, |x| x / z)
                 })
         })
     }
-- 
2.43.0


From 441de66ad05f4b67a34bf4361252b1bb155176f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 11/21] fix: inactive sparse features are zero in the
 normalisers' ith

The L1, L2 and L-infinity normalisers panicked on them.
---
 src/basis/normalisation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/basis/normalisation.rs b/src/basis/normalisation.rs
index d65bc11..98b1a5d 100644
--- a/src/basis/normalisation.rs
+++ b/src/basis/normalisation.rs
@@ -117,7 +117,7 @@ where
                     da[index] / z
                 },
                 Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
+                    sa.activations.get(&index).unwrap_or(&0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs()),
             })
         })
     }
@@ -186,7 +186,7 @@ where
                     da[index] / z
                 },
                 Features::Sparse(sa) =>
-                    sa.activations[&index] / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
+                    sa.activations.get(&index).unwrap_or(&0.0) / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
             })
         })
     }
@@ -256,7 +256,7 @@ where
 
                     da[index] / z
                 },
-                Features::Sparse(sa) => sa.activations[&index] / sa.iter().fold(
+                Features::Sparse(sa) => sa.activations.get(&index).unwrap_or(&0.0) / sa.iter().fold(
                     f64::NEG_INFINITY,
                     |acc, (_, x)| acc.max(x.abs())
                 ),
-- 
2.43.0


From 28bfa61e90d4f2ec73e0cc3342270028d9a1b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 12/21] fix: every index of a fixed dense basis can be queried

Only index zero was accepted, and an empty basis panicked.
---
 src/basis/constant.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/basis/constant.rs b/src/basis/constant.rs
index e6e0994..d2b7d17 100644
--- a/src/basis/constant.rs
+++ b/src/basis/constant.rs
@@ -65,9 +65,9 @@ impl<T> Basis<T> for Fixed<Vec<f64>> {
 
 impl<T> EnumerableBasis<T> for Fixed<Vec<f64>> {
     fn ith(&self, _: T, index: IndexT) -> Result<ActivationT> {
-        check_index!(index < 1 => {
-            Ok(*self.0.get(index).unwrap())
-        })
+        let n = self.0.len();
+
+        check_index!(index < n => { Ok(self.0[index]) })
     }
 }
 
-- 
2.43.0


From 1e9e08c549622418bc0dd7d354e08fac66a67374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 13/21] fix: use sqrt(5) in the Matern 5/2 kernel

With sqrt(3) the kernel exceeds its variance near r = 0 and is not positive
semi-definite.
---
 src/basis/kernels/stationary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 4f0f5e9..08f650a 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -83,7 +83,7 @@ stationary_kernel!(
     self,
     r,
     {
-        let sqrt_5 = 3.0f64.sqrt();
+        let sqrt_5 = 5.0f64.sqrt();
 
         self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()
     }
-- 
2.43.0


From ca6e453f64a16a323da6415a59bd6d66bb0ff7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 14/21] fix: share a single lengthscale across all coordinates

A non-ARD kernel has one lengthscale; all coordinates but the first were
ignored.
---
 src/basis/kernels/rational_quadratic.rs | 2 +-
 src/basis/kernels/stationary.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/kernels/rational_quadratic.rs b/src/basis/kernels/rational_quadratic.rs
index 21678c3..c216d11 100644
--- a/src/basis/kernels/rational_quadratic.rs
+++ b/src/basis/kernels/rational_quadratic.rs
@@ -47,7 +47,7 @@ impl super::Kernel<&[f64]> for RationalQuadratic {
             .iter()
             .zip(y.iter())
             .map(|(x, y)| x - y)
-            .zip(self.lengthscales.iter())
+            .zip(self.lengthscales.iter().cycle())
             .map(|(d, l)| d / l)
             .fold(0.0, |acc, z| acc + z * z)
             .sqrt();
diff --git a/src/basis/kernels/stationary.rs b/src/basis/kernels/stationary.rs
index 08f650a..edc2f5c 100644
--- a/src/basis/kernels/stationary.rs
+++ b/src/basis/kernels/stationary.rs
@@ -42,7 +42,7 @@ macro_rules! stationary_kernel {
                     .into_iter()
                     .zip(y.into_iter())
                     .map(|(x, y)| x - y)
-                    .zip($self.lengthscales.iter())
+                    .zip($self.lengthscales.iter().cycle())
                     .map(|(d, l)| d / l)
                     .fold(0.0f64, |acc, z| acc + z * z)
                     .sqrt())
-- 
2.43.0


From faebfbf7da4b1c60d167b8a7a4dc195be66e4a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 15/21] fix: zeroth term of a polynomial basis of order zero

with_zeroth panicked because there are no other terms.
---
 src/basis/polynomial/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/basis/polynomial/mod.rs b/src/basis/polynomial/mod.rs
index 1600382..c5b5572 100644
--- a/src/basis/polynomial/mod.rs
+++ b/src/basis/polynomial/mod.rs
@@ -54,7 +54,9 @@ impl Polynomial {
     }
 
     pub fn with_zeroth(mut self) -> Self {
-        self.exponents.push(vec![0; self.exponents[0].len()]);
+        let dim = self.exponents.first().map_or(0, |exps| exps.len());
+
+        self.exponents.push(vec![0; dim]);
         self
     }
 
-- 
2.43.0


From 0131d5dea9f87b1ba000c2e7473d6f7fd83e3765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:43 +0000
Subject: [PATCH 16/21] fix: hash each tiling on its own in tile coding

One hasher accumulated over the tilings, so the feature of a tiling depended on
the tiles of all tilings before it and inputs in a shared tile did not share
its feature.
---
 src/basis/tile_coding.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 9145c98..650165c 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -12,8 +12,8 @@ where I: IntoIterator<Item = &'a f64> {
         .collect()
 }
 
-fn hash_state<'a, H: Hasher + 'a>(
-    mut hasher: H,
+fn hash_state<'a, H: BuildHasher>(
+    hasher_builder: &'a H,
     state: &'a [isize],
     n_tilings: usize,
     memory_size: usize,
@@ -22,6 +22,7 @@ fn hash_state<'a, H: Hasher + 'a>(
     (0..n_tilings).map(move |t| {
         let t = t as isize;
         let tx2 = t * 2;
+        let mut hasher = hasher_builder.build_hasher();
 
         hasher.write_isize(t);
 
@@ -75,7 +76,7 @@ where
     fn project(&self, input: T) -> Result<Features> {
         let state = bin_state(input, self.n_tilings);
         let hash = hash_state(
-            self.hasher_builder.build_hasher(),
+            &self.hasher_builder,
             &state,
             self.n_tilings,
             self.memory_size,
@@ -97,7 +98,7 @@ where
         check_index!(index < self.memory_size => {
             let state = bin_state(input, self.n_tilings);
             let mut hash = hash_state(
-                self.hasher_builder.build_hasher(),
+                &self.hasher_builder,
                 &state,
                 self.n_tilings,
                 self.memory_size
-- 
2.43.0


From a1de310dd09213a800e60e80771d10b68e6076e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 17/21] fix: tiles of equal width on both sides of zero in tile
 coding

Division truncated towards zero, which made the tile around zero twice as wide.
---
 src/basis/tile_coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/tile_coding.rs b/src/basis/tile_coding.rs
index 650165c..6790358 100644
--- a/src/basis/tile_coding.rs
+++ b/src/basis/tile_coding.rs
@@ -29,7 +29,7 @@ fn hash_state<'a, H: BuildHasher>(
         for (i, s) in state.iter().enumerate() {
             let offset = t + i as isize * tx2;
 
-            hasher.write_isize((s + offset) / n_tilings as isize)
+            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
         }
 
         hasher.finish() as usize % memory_size
-- 
2.43.0


From 9a0191cd6384e023c651c9741699c3abddc90200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 18/21] fix: reset the bias correction of Adam and AdaMax

reset cleared the moments but kept the beta products, so a reset optimiser was
not like a new one.
---
 src/optim/adam.rs   | 3 +++
 src/optim/adamax.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 8ecf17e..22c4dac 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -100,6 +100,9 @@ impl Optimiser<Features> for Adam {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = self.beta1;
+        self.beta2_prod = self.beta2;
+
         self.exp_avg.fill(0.0);
         self.exp_avg_sq.fill(0.0);
     }
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index 9910479..f21e13c 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -93,6 +93,8 @@ impl Optimiser<Features> for AdaMax {
     }
 
     fn reset(&mut self) {
+        self.beta1_prod = self.beta1;
+
         self.exp_avg.fill(0.0);
         self.exp_inf.fill(0.0);
     }
-- 
2.43.0


From bc16c0b420e2ecc9ce3b3453e8c8db08a7f68151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 19/21] fix: bias correction exponent of Adam and AdaMax

The products started at beta and were multiplied again before first use, so
step t was corrected with 1 - beta^(t+1) instead of 1 - beta^t.
---
 src/optim/adam.rs   | 8 ++++----
 src/optim/adamax.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/optim/adam.rs b/src/optim/adam.rs
index 22c4dac..96a5284 100644
--- a/src/optim/adam.rs
+++ b/src/optim/adam.rs
@@ -30,10 +30,10 @@ impl Adam {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         Adam {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
-            beta2_prod: beta2,
+            beta2_prod: 1.0,
 
             learning_rate,
 
@@ -100,8 +100,8 @@ impl Optimiser<Features> for Adam {
     }
 
     fn reset(&mut self) {
-        self.beta1_prod = self.beta1;
-        self.beta2_prod = self.beta2;
+        self.beta1_prod = 1.0;
+        self.beta2_prod = 1.0;
 
         self.exp_avg.fill(0.0);
         self.exp_avg_sq.fill(0.0);
diff --git a/src/optim/adamax.rs b/src/optim/adamax.rs
index f21e13c..6d321c1 100644
--- a/src/optim/adamax.rs
+++ b/src/optim/adamax.rs
@@ -29,7 +29,7 @@ impl AdaMax {
     pub fn new(n_params: usize, learning_rate: f64, beta1: f64, beta2: f64) -> Self {
         AdaMax {
             beta1,
-            beta1_prod: beta1,
+            beta1_prod: 1.0,
 
             beta2,
 
@@ -93,7 +93,7 @@ impl Optimiser<Features> for AdaMax {
     }
 
     fn reset(&mut self) {
-        self.beta1_prod = self.beta1;
+        self.beta1_prod = 1.0;
 
         self.exp_avg.fill(0.0);
         self.exp_inf.fill(0.0);
-- 
2.43.0


From a91b474ef579038e28666fffd17954b626f487fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 20/21] fix: Nesterov step

momentum * features was added to the weights whatever the error and learning
rate, so even a zero error moved the weights. The step is now
lr * (gradient + momentum * velocity).
---
 src/optim/nesterov.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optim/nesterov.rs b/src/optim/nesterov.rs
index 04e3080..13d2a0b 100644
--- a/src/optim/nesterov.rs
+++ b/src/optim/nesterov.rs
@@ -51,8 +51,8 @@ impl Optimiser<Features> for NAG {
             }
         }
         {
-            weights.scaled_add(lr, &self.velocity);
-            features.scaled_addto(m, weights);
+            weights.scaled_add(lr * m, &self.velocity);
+            features.scaled_addto(lr * scale_factor, weights);
         }
         Ok(())
     }
-- 
2.43.0


From a0661c099936927837fa10023f14f31b9a66350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 21/21] fix: keep the constant term of a Chebyshev basis
 through serialisation

---
 src/basis/polynomial/mod.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/basis/polynomial/mod.rs b/src/basis/polynomial/mod.rs
index c5b5572..a67deb5 100644
--- a/src/basis/polynomial/mod.rs
+++ b/src/basis/polynomial/mod.rs
@@ -126,7 +126,9 @@ pub struct Chebyshev {
     pub order: u8,
     pub limits: Vec<(f64, f64)>,
 
-    #[cfg_attr(feature = "serde", serde(skip_serializing))]
+    // Function pointers cannot be serialised: only the number of features is,
+    // which is enough to recover the terms added by `with_zeroth`.
+    #[cfg_attr(feature = "serde", serde(serialize_with = "serialize_len"))]
     pub polynomials: Vec<Vec<fn(f64) -> f64>>,
 }
 
@@ -249,6 +251,13 @@ use serde::{
 #[cfg(feature = "serde")]
 use std::fmt;
 #[cfg(feature = "serde")]
+fn serialize_len<S: serde::Serializer>(
+    polynomials: &Vec<Vec<fn(f64) -> f64>>,
+    serializer: S,
+) -> std::result::Result<S::Ok, S::Error> {
+    serde::Serialize::serialize(&polynomials.len(), serializer)
+}
+#[cfg(feature = "serde")]
 impl<'de> Deserialize<'de> for Chebyshev {
     fn deserialize<D>(deserializer: D) -> std::result::Result<Self, D::Error>
     where
@@ -263,10 +272,21 @@ impl<'de> Deserialize<'de> for Chebyshev {
         enum Field {
             Order,
             Limits,
+            Polynomials,
         }
 
         struct ChebyshevVisitor;
 
+        fn build(order: u8, limits: Vec<(f64, f64)>, n_features: usize) -> Chebyshev {
+            let mut basis = Chebyshev::new(order, limits);
+
+            while basis.polynomials.len() < n_features {
+                basis = basis.with_zeroth();
+            }
+
+            basis
+        }
+
         impl<'de> Visitor<'de> for ChebyshevVisitor {
             type Value = Chebyshev;
 
@@ -284,8 +304,9 @@ impl<'de> Deserialize<'de> for Chebyshev {
                 let limits = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
+                let n_features = seq.next_element()?.unwrap_or(0);
 
-                Ok(Chebyshev::new(order, limits))
+                Ok(build(order, limits, n_features))
             }
 
             fn visit_map<V>(self, mut map: V) -> std::result::Result<Chebyshev, V::Error>
@@ -294,6 +315,7 @@ impl<'de> Deserialize<'de> for Chebyshev {
             {
                 let mut order = None;
                 let mut limits = None;
+                let mut n_features = None;
                 while let Some(key) = map.next_key()? {
                     match key {
                         Field::Order => {
@@ -308,17 +330,23 @@ impl<'de> Deserialize<'de> for Chebyshev {
                             }
                             limits = Some(map.next_value()?);
                         }
+                        Field::Polynomials => {
+                            if n_features.is_some() {
+                                return Err(de::Error::duplicate_field("polynomials"));
+                            }
+                            n_features = Some(map.next_value()?);
+                        }
                     }
                 }
 
                 let order = order.ok_or_else(|| de::Error::missing_field("order"))?;
                 let limits = limits.ok_or_else(|| de::Error::missing_field("limits"))?;
 
-                Ok(Chebyshev::new(order, limits))
+                Ok(build(order, limits, n_features.unwrap_or(0)))
             }
         }
 
-        const FIELDS: &'static [&'static str] = &["order", "limits"];
+        const FIELDS: &'static [&'static str] = &["order", "limits", "polynomials"];
         deserializer.deserialize_struct("Chebyshev", FIELDS, ChebyshevVisitor)
     }
 }
-- 
2.43.0

