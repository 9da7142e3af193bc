From 3f7a2431a73fd196e2325805bd3a97f54d200edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 01/15] fix: run every requested Miller-Rabin round in
 probably_prime

---
 algebra/src/utils/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/utils/prime.rs b/algebra/src/utils/prime.rs
index 63f5342..6951f99 100644
--- a/algebra/src/utils/prime.rs
+++ b/algebra/src/utils/prime.rs
@@ -92,7 +92,7 @@ macro_rules! impl_prime_check {
                     for _ in 1..r {
                         x = $crate::WideningMul::widening_mul(x, x).reduce(self);
                         if x == value_sub_one {
-                            break 'next_round;
+                            continue 'next_round;
                         }
                         if x == 1 {
                             return false;
-- 
2.43.0


From 72b1029226a6c50448dc750224f0fe9446686666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 02/15] fix: include the tail of the vectors in the Barrett dot
 product

---
 algebra/src/modulus/barrett/internal_macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/barrett/internal_macros.rs b/algebra/src/modulus/barrett/internal_macros.rs
index 31c9c12..6bbec60 100644
--- a/algebra/src/modulus/barrett/internal_macros.rs
+++ b/algebra/src/modulus/barrett/internal_macros.rs
@@ -515,8 +515,8 @@ macro_rules! impl_barrett_modulus {
                 let a = a.as_ref();
                 let b = b.as_ref();
                 debug_assert_eq!(a.len(), b.len());
-                a.chunks_exact(16)
-                    .zip(b.chunks_exact(16))
+                a.chunks(16)
+                    .zip(b.chunks(16))
                     .map(|(a_s, b_s)| {
                         let mut c: [$SelfT; 2] = [0, 0];
                         for (&a, &b) in a_s.iter().zip(b_s) {
-- 
2.43.0


From 0a836c2fa899dbe6d6153f1ceae07f0db0ad2c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 03/15] fix: overwrite the whole destination in decompose_at

---
 algebra_derive/src/decomposable_field.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/algebra_derive/src/decomposable_field.rs b/algebra_derive/src/decomposable_field.rs
index e04e16a..30eda94 100644
--- a/algebra_derive/src/decomposable_field.rs
+++ b/algebra_derive/src/decomposable_field.rs
@@ -41,9 +41,6 @@ fn impl_decomposable_field(input: Input) -> TokenStream {
                 let bits = basis.bits();
 
                 for v in destination {
-                    if temp == 0 {
-                        break;
-                    }
                     *v = Self(temp & mask);
                     temp >>= bits;
                 }
-- 
2.43.0


From 45f9d0ba5d554847d8543f59a6731e9db7b3e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 04/15] fix: do not compute an unused, overflowing basis power
 in GadgetRLWE samples

---
 lattice/src/gadget/rlwe.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lattice/src/gadget/rlwe.rs b/lattice/src/gadget/rlwe.rs
index 0ab7562..e55ea63 100644
--- a/lattice/src/gadget/rlwe.rs
+++ b/lattice/src/gadget/rlwe.rs
@@ -182,13 +182,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.b_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.b_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 
@@ -206,13 +210,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.a_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.a_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 }
-- 
2.43.0


From ef510df4c19a9c11573713994a9cbd7ab88329ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 05/15] fix: let the discrete gaussian samplers terminate when
 the deviation is zero

---
 algebra/src/random.rs       | 2 +-
 lattice/src/utils/sample.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/random.rs b/algebra/src/random.rs
index 80b4634..df7e77d 100644
--- a/algebra/src/random.rs
+++ b/algebra/src/random.rs
@@ -204,7 +204,7 @@ impl<F: Field> Distribution<F> for FieldDiscreteGaussianSampler {
         let gaussian = self.gaussian();
         loop {
             let value = gaussian.sample(rng);
-            if (value - mean).abs() < self.max_std_dev {
+            if (value - mean).abs() <= self.max_std_dev {
                 let round = value.round();
                 if round < 0. {
                     return F::new(F::MODULUS_VALUE - (-round).as_into());
diff --git a/lattice/src/utils/sample.rs b/lattice/src/utils/sample.rs
index 6b891bc..b02c1f8 100644
--- a/lattice/src/utils/sample.rs
+++ b/lattice/src/utils/sample.rs
@@ -140,7 +140,7 @@ where
         let mean = self.normal.mean();
         loop {
             let value = self.normal.sample(rng);
-            if (value - mean).abs() < self.max_std_dev {
+            if (value - mean).abs() <= self.max_std_dev {
                 let round = value.round();
                 if round < 0. {
                     return self.modulus - T::as_from(-round);
-- 
2.43.0


From dd265c6ea9ed941922f9cba159bcbb2f1874ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 06/15] fix: decode when the message space is the whole cipher
 modulus

---
 fhe_core/src/plaintext.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fhe_core/src/plaintext.rs b/fhe_core/src/plaintext.rs
index 3378f94..1e98f9e 100644
--- a/fhe_core/src/plaintext.rs
+++ b/fhe_core/src/plaintext.rs
@@ -112,6 +112,10 @@ where
     // Move the message to the least significant part of `C`.
     // Leave one more bit for round.
     let cipher: u64 = cipher.as_into();
+    // When `t == q` there is nothing to round.
+    if t == q {
+        return M::shrink(cipher);
+    }
     let temp = cipher >> ((q / t).trailing_zeros() - 1);
     let decoded = ((temp >> 1u32) + (temp & 1)) & (t - 1);
 
-- 
2.43.0


From be0b861d5c1a426596de81020b43d82522480a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 07/15] fix: report an error for NTT sizes whose order is not
 representable

---
 algebra_derive/src/ntt.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 20e304f..4c4d502 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -338,11 +338,20 @@ fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) ->
         ModulusValue::U8(_) | ModulusValue::U16(_) => {
             quote! {
                 fn generate_ntt_table(log_n: u32) -> Result<Self::Table, ::algebra::AlgebraError> {
+                    // `2n` has to be representable
+                    let degree = 1usize
+                        .checked_shl(log_n)
+                        .and_then(|n| n.checked_mul(2))
+                        .and_then(|n| n.try_into().ok())
+                        .ok_or_else(|| ::algebra::AlgebraError::NoPrimitiveRoot {
+                            degree: format!("2^{}", log_n as u64 + 1),
+                            modulus: <Self as ::algebra::Field>::MODULUS_VALUE.to_string(),
+                        })?;
                     let n = 1usize << log_n;
 
                     let root_one = Self(1).to_root();
 
-                    let root = Self::try_minimal_primitive_root((n * 2).try_into().unwrap())?;
+                    let root = Self::try_minimal_primitive_root(degree)?;
 
                     let root_factor = root.to_root();
                     let mut power = root;
@@ -369,11 +378,20 @@ fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) ->
     #[cfg(not(feature = "concrete-ntt"))]
     quote! {
         fn generate_ntt_table(log_n: u32) -> Result<Self::Table, ::algebra::AlgebraError> {
+            // `2n` has to be representable
+            let degree = 1usize
+                .checked_shl(log_n)
+                .and_then(|n| n.checked_mul(2))
+                .and_then(|n| n.try_into().ok())
+                .ok_or_else(|| ::algebra::AlgebraError::NoPrimitiveRoot {
+                    degree: format!("2^{}", log_n as u64 + 1),
+                    modulus: <Self as ::algebra::Field>::MODULUS_VALUE.to_string(),
+                })?;
             let n = 1usize << log_n;
 
             let root_one = Self(1).to_root();
 
-            let root = Self::try_minimal_primitive_root((n * 2).try_into().unwrap())?;
+            let root = Self::try_minimal_primitive_root(degree)?;
 
             let root_factor = root.to_root();
             let mut power = root;
-- 
2.43.0


From b7b267e4bb5779b13df62010bfbc53f19fb1de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 08/15] fix: look up cached NTT tables under the lock that
 guards their insertion

---
 algebra_derive/src/ntt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 4c4d502..af8a179 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -147,13 +147,17 @@ fn impl_ntt(input: Input) -> TokenStream {
             #generate_ntt_table
 
             fn get_ntt_table(log_n: u32) -> Result<::std::sync::Arc<Self::Table>, ::algebra::AlgebraError> {
+                // `init_ntt_table` may be changing the map in another thread.
+                let guard = #ntt_mutex.lock().unwrap();
                 if let Some(tables) = unsafe { #ntt_table.get() } {
                     if let Some(t) = tables.get(&log_n) {
                         return Ok(::std::sync::Arc::clone(t));
                     }
                 }
+                drop(guard);
 
                 Self::init_ntt_table(&[log_n])?;
+                let _g = #ntt_mutex.lock().unwrap();
                 Ok(::std::sync::Arc::clone(unsafe {
                     #ntt_table.get().unwrap().get(&log_n).unwrap()
                 }))
-- 
2.43.0


From 778bf2fdd5322c614e0d46a8feb55f6a37bc0acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 09/15] fix: let Goldilocks operations take any representative

Results of Goldilocks operations may lie in [P, 2^64), but negation
underflowed and exponentiation asserted on such operands, reduction left P
unreduced and P had an inverse.
---
 algebra/src/modulus/goldilocks/mod.rs |  2 +-
 algebra/src/modulus/goldilocks/ops.rs | 12 +++---------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/mod.rs b/algebra/src/modulus/goldilocks/mod.rs
index 3a3e696..8f1f879 100644
--- a/algebra/src/modulus/goldilocks/mod.rs
+++ b/algebra/src/modulus/goldilocks/mod.rs
@@ -43,7 +43,7 @@ pub fn to_canonical_u64(value: u64) -> u64 {
 /// The following code has been adapted from winterfell/math/src/field/f64/mod.rs
 /// located at <https://github.com/facebook/winterfell>.
 fn try_inverse(value: u64) -> Option<u64> {
-    if value == 0 {
+    if to_canonical_u64(value) == 0 {
         return None;
     }
 
diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 49154df..22ad383 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -13,7 +13,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self > P {
+        if self >= P {
             self - P
         } else {
             self
@@ -24,7 +24,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 impl ReduceAssign<GoldilocksModulus> for u64 {
     #[inline]
     fn reduce_assign(&mut self, _: GoldilocksModulus) {
-        if *self > P {
+        if *self >= P {
             *self -= P;
         }
     }
@@ -77,11 +77,7 @@ impl NegReduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn neg_reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self == 0 {
-            0
-        } else {
-            P - self
-        }
+        0u64.sub_reduce(self, GoldilocksModulus)
     }
 }
 
@@ -117,8 +113,6 @@ where
             return 1;
         }
 
-        debug_assert!(self < P);
-
         let mut power: Self = self;
 
         let exp_trailing_zeros = exp.trailing_zeros();
-- 
2.43.0


From 7b15e64bfe809f01cc0e48f3d8c8903133ce0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 10/15] fix: give probably_prime its random rounds in addition
 to base 2

---
 algebra/src/utils/prime.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebra/src/utils/prime.rs b/algebra/src/utils/prime.rs
index 6951f99..27e1222 100644
--- a/algebra/src/utils/prime.rs
+++ b/algebra/src/utils/prime.rs
@@ -78,7 +78,8 @@ macro_rules! impl_prime_check {
                 let distribution: Uniform<$SelfT> = Uniform::from(3..=value_sub_one);
                 let mut rng = StdRng::from_rng(thread_rng()).unwrap();
 
-                'next_round: for i in 0..rounds {
+                // base 2 comes on top of the `rounds` random bases that the error bound is about
+                'next_round: for i in 0..=rounds {
                     let a: $SelfT = if i != 0 {
                         distribution.sample(&mut rng)
                     } else {
-- 
2.43.0


From 7f84e7c766f68ef06fe3c39f3cbd1192ef8b7e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 11/15] fix: refuse means and bounds the discrete gaussian
 samplers cannot terminate with

---
 algebra/src/random.rs       | 8 ++++----
 lattice/src/utils/sample.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/algebra/src/random.rs b/algebra/src/random.rs
index df7e77d..0379a7a 100644
--- a/algebra/src/random.rs
+++ b/algebra/src/random.rs
@@ -122,12 +122,12 @@ impl FieldDiscreteGaussianSampler {
     ///
     /// Parameters:
     ///
-    /// -   mean (`μ`, unrestricted)
+    /// -   mean (`μ`, must be finite)
     /// -   standard deviation (`σ`, must be finite)
     #[inline]
     pub fn new(mean: f64, std_dev: f64) -> Result<FieldDiscreteGaussianSampler, AlgebraError> {
         let max_std_dev = std_dev * 6.0;
-        if std_dev < 0. {
+        if std_dev < 0. || !mean.is_finite() {
             return Err(AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
@@ -145,7 +145,7 @@ impl FieldDiscreteGaussianSampler {
     ///
     /// Parameters:
     ///
-    /// -   mean (`μ`, unrestricted)
+    /// -   mean (`μ`, must be finite)
     /// -   standard deviation (`σ`, must be finite)
     #[inline]
     pub fn new_with_max(
@@ -153,7 +153,7 @@ impl FieldDiscreteGaussianSampler {
         std_dev: f64,
         max_std_dev: f64,
     ) -> Result<FieldDiscreteGaussianSampler, AlgebraError> {
-        if max_std_dev <= std_dev || std_dev < 0. {
+        if max_std_dev <= std_dev || max_std_dev.is_nan() || std_dev < 0. || !mean.is_finite() {
             return Err(AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
diff --git a/lattice/src/utils/sample.rs b/lattice/src/utils/sample.rs
index b02c1f8..c5c4b84 100644
--- a/lattice/src/utils/sample.rs
+++ b/lattice/src/utils/sample.rs
@@ -65,7 +65,7 @@ impl<T: Copy> DiscreteGaussian<T> {
     ///
     /// Parameters:
     ///
-    /// -   mean (`μ`, unrestricted)
+    /// -   mean (`μ`, must be finite)
     /// -   standard deviation (`σ`, must be finite)
     #[inline]
     pub fn new(
@@ -74,7 +74,7 @@ impl<T: Copy> DiscreteGaussian<T> {
         std_dev: f64,
     ) -> Result<DiscreteGaussian<T>, algebra::AlgebraError> {
         let max_std_dev = std_dev * 6.0;
-        if std_dev < 0. {
+        if std_dev < 0. || !mean.is_finite() {
             return Err(algebra::AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
@@ -91,7 +91,7 @@ impl<T: Copy> DiscreteGaussian<T> {
     ///
     /// Parameters:
     ///
-    /// -   mean (`μ`, unrestricted)
+    /// -   mean (`μ`, must be finite)
     /// -   standard deviation (`σ`, must be finite)
     #[inline]
     pub fn new_with_max_limit(
@@ -100,7 +100,7 @@ impl<T: Copy> DiscreteGaussian<T> {
         std_dev: f64,
         max_std_dev: f64,
     ) -> Result<DiscreteGaussian<T>, algebra::AlgebraError> {
-        if max_std_dev <= std_dev || std_dev < 0. {
+        if max_std_dev <= std_dev || max_std_dev.is_nan() || std_dev < 0. || !mean.is_finite() {
             return Err(algebra::AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
-- 
2.43.0


From 02f995021011e4c839a029e7ddd5b4e4bd77faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 12/15] fix: keep the truncation bound when a gaussian
 polynomial has deviation 3.2

---
 algebra/src/random.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebra/src/random.rs b/algebra/src/random.rs
index 0379a7a..f4657ca 100644
--- a/algebra/src/random.rs
+++ b/algebra/src/random.rs
@@ -161,7 +161,9 @@ impl FieldDiscreteGaussianSampler {
                 gaussian,
                 max_std_dev,
                 cbd_enable: mean.to_bits() == 0.0f64.to_bits()
-                    && std_dev.to_bits() == 3.2f64.to_bits(),
+                    && std_dev.to_bits() == 3.2f64.to_bits()
+                    // the centered binomial distribution is not cut at `max_std_dev`
+                    && max_std_dev >= std_dev * 6.0,
             }),
             Err(_) => Err(AlgebraError::DistributionError),
         }
-- 
2.43.0


From 3c665aaba82c1362f07a539e46ea99849d549e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 13/15] fix: round modulus switches exactly instead of through
 f64

---
 fhe_core/src/modulus_switch.rs | 46 +++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/fhe_core/src/modulus_switch.rs b/fhe_core/src/modulus_switch.rs
index 05ddaa7..528837b 100644
--- a/fhe_core/src/modulus_switch.rs
+++ b/fhe_core/src/modulus_switch.rs
@@ -3,6 +3,16 @@ use lattice::LWE;
 
 use crate::{LWECiphertext, LWEModulusType};
 
+/// Computes `round(v * modulus_after / modulus_before)` exactly.
+///
+/// A `f64` has too few bits for this: it already loses the rounding direction
+/// when the moduli have more than 53 bits together.
+#[inline]
+fn scale_round(v: u64, modulus_before: u64, modulus_after: u64) -> u64 {
+    let scaled = v as u128 * modulus_after as u128 + (modulus_before >> 1) as u128;
+    (scaled / modulus_before as u128) as u64
+}
+
 /// Implementation of modulus switching.
 ///
 /// This function performs on a `LWE<F>`, returns a `LWE<C>` with desired modulus `modulus_after`.
@@ -10,8 +20,8 @@ pub fn lwe_modulus_switch<C: LWEModulusType, F: Field>(
     c: LWE<F>,
     modulus_after: C,
 ) -> LWECiphertext<C> {
-    let modulus_before_f64: f64 = F::MODULUS_VALUE.as_into();
-    let modulus_after_f64: f64 = modulus_after.as_into();
+    let modulus_before_u64: u64 = F::MODULUS_VALUE.as_into();
+    let modulus_after_u64: u64 = modulus_after.as_into();
 
     let reduce = |v: C| {
         if v < modulus_after {
@@ -22,9 +32,11 @@ pub fn lwe_modulus_switch<C: LWEModulusType, F: Field>(
     };
 
     let switch = Box::new(|v: F| {
-        reduce(C::as_from(
-            (AsInto::<f64>::as_into(v.value()) * modulus_after_f64 / modulus_before_f64).round(),
-        ))
+        reduce(C::as_from(scale_round(
+            v.value().as_into(),
+            modulus_before_u64,
+            modulus_after_u64,
+        )))
     });
 
     let a: Vec<C> = c.a().iter().copied().map(&switch).collect();
@@ -42,8 +54,8 @@ pub fn lwe_modulus_switch_inplace<C: LWEModulusType, F: Field>(
     modulus_after: C,
     destination: &mut LWECiphertext<C>,
 ) {
-    let modulus_before_f64: f64 = F::MODULUS_VALUE.as_into();
-    let modulus_after_f64: f64 = modulus_after.as_into();
+    let modulus_before_u64: u64 = F::MODULUS_VALUE.as_into();
+    let modulus_after_u64: u64 = modulus_after.as_into();
 
     let reduce = |v: C| {
         if v < modulus_after {
@@ -54,9 +66,11 @@ pub fn lwe_modulus_switch_inplace<C: LWEModulusType, F: Field>(
     };
 
     let switch = Box::new(|v: F| {
-        reduce(C::as_from(
-            (AsInto::<f64>::as_into(v.value()) * modulus_after_f64 / modulus_before_f64).round(),
-        ))
+        reduce(C::as_from(scale_round(
+            v.value().as_into(),
+            modulus_before_u64,
+            modulus_after_u64,
+        )))
     });
 
     destination
@@ -77,8 +91,8 @@ pub fn lwe_modulus_switch_assign_between_modulus<C: LWEModulusType>(
     modulus_before: C,
     modulus_after: C,
 ) {
-    let modulus_before_f64: f64 = modulus_before.as_into();
-    let modulus_after_f64: f64 = modulus_after.as_into();
+    let modulus_before_u64: u64 = modulus_before.as_into();
+    let modulus_after_u64: u64 = modulus_after.as_into();
 
     let reduce = |v: C| {
         if v < modulus_after {
@@ -89,9 +103,11 @@ pub fn lwe_modulus_switch_assign_between_modulus<C: LWEModulusType>(
     };
 
     let switch = Box::new(|v: C| {
-        reduce(C::as_from(
-            (AsInto::<f64>::as_into(v) * modulus_after_f64 / modulus_before_f64).round(),
-        ))
+        reduce(C::as_from(scale_round(
+            v.as_into(),
+            modulus_before_u64,
+            modulus_after_u64,
+        )))
     });
 
     c.a_mut().iter_mut().for_each(|v| *v = switch(*v));
-- 
2.43.0


From 629fa6d4094fff9cf5c20a82c33905d4283dabbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 14/15] fix: let the wide products of the nightly feature
 terminate

---
 algebra/src/primitive/widening/widening_mul.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algebra/src/primitive/widening/widening_mul.rs b/algebra/src/primitive/widening/widening_mul.rs
index 866210a..25bb29f 100644
--- a/algebra/src/primitive/widening/widening_mul.rs
+++ b/algebra/src/primitive/widening/widening_mul.rs
@@ -19,7 +19,9 @@ macro_rules! uint_widening_mul_impl {
             fn widening_mul(self, rhs: Self) -> (Self, Self) {
                 #[cfg(feature = "nightly")]
                 {
-                    self.widening_mul(rhs)
+                    // not `self.widening_mul(rhs)`: where the standard method is unavailable
+                    // that call is this very function
+                    <$T>::carrying_mul(self, rhs, 0)
                 }
 
                 #[cfg(not(feature = "nightly"))]
@@ -33,7 +35,7 @@ macro_rules! uint_widening_mul_impl {
             fn widening_mul_hw(self, rhs: Self) -> Self {
                 #[cfg(feature = "nightly")]
                 {
-                    self.widening_mul(rhs).1
+                    <$T>::carrying_mul(self, rhs, 0).1
                 }
 
                 #[cfg(not(feature = "nightly"))]
-- 
2.43.0


From 15e2f3f7e3d7a53d1ccf3011a9a2450f63afafd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:16 +0000
Subject: [PATCH 15/15] fix: let the inverse transform of a single point return
 instead of panicking

---
 algebra/src/transformation/ntt_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algebra/src/transformation/ntt_table.rs b/algebra/src/transformation/ntt_table.rs
index d202e1c..d0770bf 100644
--- a/algebra/src/transformation/ntt_table.rs
+++ b/algebra/src/transformation/ntt_table.rs
@@ -339,6 +339,12 @@ where
             }
         }
 
+        // A single value is its own transform.
+        if log_n == 0 {
+            values.iter_mut().for_each(intt_normalize_assign);
+            return;
+        }
+
         let roots = self.inv_root_powers();
         let mut root_iter = roots[1..].iter().copied();
 
-- 
2.43.0

