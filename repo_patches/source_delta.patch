From 6a5732c9450aa5732b8bdabb73966f6ba21aeaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:26 +0000
Subject: [PATCH 01/21] fix: make the crate compile (negate the sign inside
 sign_changes_at's Option::map)

---
 src/algebraic_numbers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 79f387e..d32daea 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -202,7 +202,7 @@ fn sign_changes_at(
                 let degree = polynomial.degree().unwrap_or(0);
                 let s = Sign::new(&polynomial.highest_power_coefficient());
                 if degree.is_odd() {
-                    s.map(|| -s)
+                    s.map(|s| -s)
                 } else {
                     s
                 }
-- 
2.43.0


From d0533b436ff470220e9ffec449c6ebd02b2d6779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:21 +0000
Subject: [PATCH 02/21] fix: fract of a negative rational is self -
 floor(self), as documented

---
 src/algebraic_numbers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index d32daea..50a3162 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -519,7 +519,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn into_fract(mut self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             let mut interval_shrinker = self.interval_shrinker();
             loop {
@@ -535,7 +535,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn fract(&self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             self.clone().into_fract()
         }
-- 
2.43.0


From 3151f9c7561b996675e1fdc6431e2ec1ab747e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:21 +0000
Subject: [PATCH 03/21] fix: select_root must not return a bound's root while
 other roots are left in the interval

---
 src/algebraic_numbers.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 50a3162..ea152f4 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -995,33 +995,37 @@ trait RootSelector: Sized {
             mem::swap(&mut factors, &mut factors_temp);
             factors.clear();
             let mut roots_left = 0;
+            let mut root_at_bound = None;
             for factor in factors_temp.drain(..) {
                 let lower_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&lower_bound),
                 );
-                if lower_bound_sign_changes.is_root {
-                    return lower_bound.into();
-                }
                 let upper_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&upper_bound),
                 );
+                // number of roots in the half-open range `(lower_bound, upper_bound]`
+                let mut num_roots = distance(
+                    lower_bound_sign_changes.sign_change_count,
+                    upper_bound_sign_changes.sign_change_count,
+                );
                 if upper_bound_sign_changes.is_root {
-                    return upper_bound.into();
+                    root_at_bound = Some(&upper_bound);
                 }
-                if lower_bound_sign_changes.sign_change_count
-                    != upper_bound_sign_changes.sign_change_count
-                {
-                    let num_roots = distance(
-                        lower_bound_sign_changes.sign_change_count,
-                        upper_bound_sign_changes.sign_change_count,
-                    );
+                if lower_bound_sign_changes.is_root {
+                    num_roots += 1;
+                    root_at_bound = Some(&lower_bound);
+                }
+                if num_roots != 0 {
                     roots_left += num_roots;
                     factors.push(factor);
                 }
             }
             if roots_left <= 1 {
+                if let Some(root) = root_at_bound {
+                    break root.clone().into();
+                }
                 break RealAlgebraicNumber::new_unchecked(
                     factors.remove(0).into_factor(),
                     interval,
-- 
2.43.0


From 8b01b91b06bbe04481857e94c79dcee2ff38f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:21 +0000
Subject: [PATCH 04/21] fix: recip must give a normalized minimal polynomial
 and an interval that isolates the root

---
 src/algebraic_numbers.rs | 41 ++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index ea152f4..2effc62 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -641,18 +641,39 @@ impl RealAlgebraicNumber {
             return Some(value.recip().into());
         }
         let mut value = self.clone();
-        value
+        let (_, mut interval_shrinker) = value
             .remove_zero_from_interval()
             .expect("known to be non-zero");
-        let RealAlgebraicNumberData {
-            minimal_polynomial,
-            interval,
-        } = value.into_data();
-        let minimal_polynomial = minimal_polynomial.into_iter().rev().collect();
-        Some(RealAlgebraicNumber::new_unchecked(
-            minimal_polynomial,
-            interval.recip(),
-        ))
+        let mut minimal_polynomial: Polynomial<BigInt> =
+            self.minimal_polynomial().iter().rev().collect();
+        if minimal_polynomial.highest_power_coefficient().is_negative() {
+            minimal_polynomial = -minimal_polynomial;
+        }
+        let primitive_sturm_sequence = minimal_polynomial.to_primitive_sturm_sequence();
+        loop {
+            let interval = interval_shrinker.interval.recip();
+            let (lower_bound, upper_bound) = interval.to_ratio_range();
+            // irrational, so neither bound can be a root
+            let root_count = distance(
+                sign_changes_at(
+                    &primitive_sturm_sequence,
+                    ValueOrInfinity::Value(&lower_bound),
+                )
+                .sign_change_count,
+                sign_changes_at(
+                    &primitive_sturm_sequence,
+                    ValueOrInfinity::Value(&upper_bound),
+                )
+                .sign_change_count,
+            );
+            if root_count == 1 {
+                return Some(RealAlgebraicNumber::new_unchecked(
+                    minimal_polynomial,
+                    interval,
+                ));
+            }
+            interval_shrinker.shrink();
+        }
     }
     pub fn recip(&self) -> Self {
         self.checked_recip()
-- 
2.43.0


From b7b3b6468496950f977b67c97e4120e37def9871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:21 +0000
Subject: [PATCH 05/21] fix: odd powers of an interval around zero must round
 both magnitudes up

---
 src/interval_arithmetic.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 6065524..259c920 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1242,6 +1242,16 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
             if upper_bound_numer_is_negative {
                 base_upper_bound_numer = -base_upper_bound_numer;
             }
+            // for odd exponents, when zero is between the bounds, both magnitudes bound the
+            // result away from zero, so both have to be rounded up
+            let round_both_up = contains_zero && exponent.is_odd();
+            let round_lower = |numer: BigInt| -> BigInt {
+                if round_both_up {
+                    -(-numer >> log2_denom)
+                } else {
+                    numer >> log2_denom
+                }
+            };
             let mut bounds_swapped = base_lower_bound_numer > base_upper_bound_numer;
             if bounds_swapped {
                 mem::swap(&mut base_lower_bound_numer, &mut base_upper_bound_numer);
@@ -1260,7 +1270,7 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
             loop {
                 if exponent.is_odd() {
                     retval_lower_bound_numer *= &base_lower_bound_numer;
-                    retval_lower_bound_numer >>= log2_denom;
+                    retval_lower_bound_numer = round_lower(retval_lower_bound_numer);
                     neg_retval_upper_bound_numer *= &base_upper_bound_numer;
                     neg_retval_upper_bound_numer >>= log2_denom;
                 }
@@ -1270,7 +1280,7 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                     break;
                 }
                 base_lower_bound_numer = &base_lower_bound_numer * &base_lower_bound_numer;
-                base_lower_bound_numer >>= log2_denom;
+                base_lower_bound_numer = round_lower(base_lower_bound_numer);
                 base_upper_bound_numer = -&base_upper_bound_numer * &base_upper_bound_numer;
                 base_upper_bound_numer >>= log2_denom;
                 base_upper_bound_numer = -base_upper_bound_numer;
-- 
2.43.0


From 4a5c67c60ef6a5cda69fd16e41cf865563661e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:21 +0000
Subject: [PATCH 06/21] fix: adding a scalar to a polynomial must bring both to
 the common divisor

---
 src/polynomial/add_sub.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/add_sub.rs b/src/polynomial/add_sub.rs
index a7bc3e2..102c45d 100644
--- a/src/polynomial/add_sub.rs
+++ b/src/polynomial/add_sub.rs
@@ -57,18 +57,20 @@ fn add_sub_assign_single<
     let GCDAndLCM { gcd, lcm: divisor } = lhs.divisor.gcd_lcm(&rhs_divisor);
     let lhs_divisor = mem::replace(&mut lhs.divisor, divisor);
     let lhs_multiplier = T::divisor_to_element(
-        Cow::Owned(lhs_divisor * &gcd),
+        Cow::Owned(rhs_divisor.exact_div(&gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     let rhs_multiplier = T::divisor_to_element(
-        Cow::Owned(gcd * &rhs_divisor),
+        Cow::Owned(ExactDiv::<T::Divisor>::exact_div(lhs_divisor, gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     if lhs.is_empty() {
         lhs.elements
             .push(T::make_zero_element(Cow::Borrowed(&rhs_numerator)));
     }
-    lhs.elements[0] *= &lhs_multiplier;
+    for lhs_element in lhs.elements.iter_mut() {
+        *lhs_element *= &lhs_multiplier;
+    }
     add_sub_assign(&mut lhs.elements[0], rhs_numerator * &rhs_multiplier);
     lhs.normalize();
 }
-- 
2.43.0


From 9fac6c7501c6c7a620fd33fd474e28031803ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:21 +0000
Subject: [PATCH 07/21] fix: a failed checked_exact_div_assign of a polynomial
 by a scalar must leave it unchanged

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index 762b6a2..eac88f7 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -346,7 +346,7 @@ fn checked_div_assign_single<T: PolynomialCoefficient + for<'a> ExactDiv<&'a T,
     lhs: &mut Polynomial<T>,
     rhs: &T,
 ) -> Result<(), ()> {
-    *lhs = checked_div_single(Cow::Owned(mem::replace(lhs, Zero::zero())), rhs).ok_or(())?;
+    *lhs = checked_div_single(Cow::Borrowed(lhs), rhs).ok_or(())?;
     Ok(())
 }
 
-- 
2.43.0


From d47d3b2445c863742a802943df2b1ba8703b1c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:21 +0000
Subject: [PATCH 08/21] fix: the next prime after 0 and 1 is 2

---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 78bd4a3..467ead1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,7 +546,10 @@ pub fn prev_prime_i32(v: i32) -> Option<i32> {
 }
 
 pub fn next_prime_u32(mut v: u32) -> Option<u32> {
-    if v < 3 {
+    if v < 2 {
+        return Some(2);
+    }
+    if v == 2 {
         return Some(3);
     }
     if v >= 4_294_967_291 {
-- 
2.43.0


From cb5c9dc0e551f6749fe0f983f66e640e73e8da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:06 +0000
Subject: [PATCH 09/21] fix: integer factorization must make the lifted modular
 factors monic before recombining them

---
 src/polynomial/factorization_over_integers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/polynomial/factorization_over_integers.rs b/src/polynomial/factorization_over_integers.rs
index 587963a..3464992 100644
--- a/src/polynomial/factorization_over_integers.rs
+++ b/src/polynomial/factorization_over_integers.rs
@@ -542,6 +542,12 @@ impl Polynomial<BigInt> {
 
         modular_factors.retain(|factor| factor.degree() != Some(0));
 
+        // hensel lifting spreads the leading coefficient over the factors, make them monic so the
+        // product of any subset has a known leading coefficient
+        for factor in &mut modular_factors {
+            factor.monic_assign();
+        }
+
         debug_assert!(modular_factors
             .iter()
             .position(|factor| match factor.degree() {
-- 
2.43.0


From f2ec2bdb48eed994a0400de97bbe2b8de2cfe0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:22 +0000
Subject: [PATCH 10/21] fix: odd powers of an interval holding one negative
 point must not invert the bounds

---
 src/interval_arithmetic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 259c920..b057591 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1252,7 +1252,10 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                     numer >> log2_denom
                 }
             };
-            let mut bounds_swapped = base_lower_bound_numer > base_upper_bound_numer;
+            // for negative intervals, including those with equal bounds, the upper bound has the
+            // smaller magnitude
+            let mut bounds_swapped =
+                upper_bound_numer_is_negative || base_lower_bound_numer > base_upper_bound_numer;
             if bounds_swapped {
                 mem::swap(&mut base_lower_bound_numer, &mut base_upper_bound_numer);
             }
-- 
2.43.0


From a9ba21eb4301c13e94876bf95ff809dd5a65fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:47 +0000
Subject: [PATCH 11/21] fix: a zeroth power modulo one is zero for machine
 integers, as for big integers

---
 src/mod_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mod_int.rs b/src/mod_int.rs
index f80c53f..f160d0f 100644
--- a/src/mod_int.rs
+++ b/src/mod_int.rs
@@ -414,10 +414,10 @@ macro_rules! impl_prim_int_modulus {
 
         impl<E: Integer + Clone + FromPrimitive> ModularReducePow<E> for $t {
             fn pow_modular_reduce<M: Modulus<Self>>(&self, exponent: &E, modulus: M) -> Self {
+                let modulus = *modulus.to_modulus();
                 if exponent.is_zero() {
-                    return One::one();
+                    return <$t as One>::one().modular_reduce(modulus);
                 }
-                let modulus = *modulus.to_modulus();
                 let mut base = *self;
                 base.modular_reduce_assign(modulus);
                 if exponent.is_one() {
-- 
2.43.0


From 32124cebad691526dd76329efb48fffb39701597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:03 +0000
Subject: [PATCH 12/21] verif hooks: guarded public wrappers around
 crate-private items (cfg algebraics_verif)

---
 src/lib.rs         |   2 +
 src/verif_hooks.rs | 491 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 493 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index b197b2b..838075a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,8 @@ pub mod python;
 pub(crate) mod quadratic_numbers;
 pub mod traits;
 pub mod util;
+#[cfg(algebraics_verif)]
+pub mod verif_hooks;
 
 pub use algebraic_numbers::RealAlgebraicNumber;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..54e58a1
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,491 @@
+// SPDX-License-Identifier: LGPL-2.1-or-later
+// See Notices.txt for copyright information
+
+//! Thin public wrappers around crate-private items, for the runtime monitors.
+//! Compiled only with `--cfg algebraics_verif`; nothing in the crate uses it.
+
+use crate::{
+    array2d::{Array2DMutSlice, Array2DOwned, Array2DSlice, Positions},
+    lattice,
+    mod_int::{ModularInteger, ModularReducePow, OddPrimeModulus, PrimeModulus},
+    polynomial::Polynomial,
+    quadratic_numbers::{QuadraticPolynomial, RealQuadraticNumber},
+    traits::{DivRemNearest, ExtendedGCD, GCD},
+    util::{for_subsets_of_size, ContinueBreak, PRIMES_THAT_FIT_IN_U16},
+};
+use num_bigint::{BigInt, ToBigInt};
+use num_integer::Integer;
+use num_rational::{BigRational, Ratio};
+use num_traits::{FromPrimitive, NumAssign, NumRef, One, Signed, Zero};
+use rand::{distributions::uniform::SampleUniform, Rng};
+use std::{cmp::Ordering, fmt, hash::Hash, ops::Bound};
+
+// ---- factorization modulo a prime
+
+pub fn distinct_degree_factorization<V, M>(
+    poly: Polynomial<ModularInteger<V, M>>,
+) -> Vec<Polynomial<ModularInteger<V, M>>>
+where
+    V: ModularReducePow<usize> + Integer + GCD<Output = V> + ExtendedGCD + fmt::Debug + Hash,
+    M: PrimeModulus<V> + fmt::Debug + Hash,
+{
+    poly.distinct_degree_factorization()
+}
+
+pub fn same_degree_factorization<V, M, R: Rng + ?Sized>(
+    poly: Polynomial<ModularInteger<V, M>>,
+    factor_degree: usize,
+    rng: &mut R,
+) -> Vec<Polynomial<ModularInteger<V, M>>>
+where
+    V: ModularReducePow<usize>
+        + Integer
+        + GCD<Output = V>
+        + ExtendedGCD
+        + fmt::Debug
+        + fmt::Display
+        + Hash
+        + SampleUniform
+        + ToBigInt,
+    M: OddPrimeModulus<V> + fmt::Debug + fmt::Display + Hash,
+{
+    poly.same_degree_factorization(factor_degree, rng)
+}
+
+// ---- utilities
+
+/// `f` gets each subset and returns false to stop; true when it ran to the end
+pub fn subsets<F: FnMut(&[usize]) -> bool>(
+    mut f: F,
+    subset_size: usize,
+    index_range: std::ops::Range<usize>,
+) -> bool {
+    match for_subsets_of_size(
+        |v| {
+            if f(v) {
+                ContinueBreak::Continue
+            } else {
+                ContinueBreak::Break(())
+            }
+        },
+        subset_size,
+        index_range,
+    ) {
+        ContinueBreak::Continue => true,
+        ContinueBreak::Break(()) => false,
+    }
+}
+
+pub fn primes_that_fit_in_u16() -> &'static [u16] {
+    PRIMES_THAT_FIT_IN_U16
+}
+
+pub trait Nearest: Sized {
+    fn nearest(self, rhs: Self) -> Option<(Self, Self)>;
+    fn nearest_plain(self, rhs: Self) -> (Self, Self);
+}
+
+impl<T: DivRemNearest<T, DivOutput = T, RemOutput = T>> Nearest for T {
+    fn nearest(self, rhs: Self) -> Option<(Self, Self)> {
+        self.checked_div_rem_nearest(&rhs)
+    }
+    fn nearest_plain(self, rhs: Self) -> (Self, Self) {
+        self.div_rem_nearest(&rhs)
+    }
+}
+
+// ---- lattices: columns (x) are the vectors, data is column-major
+
+pub fn gram_schmidt<T: Clone + Integer + NumAssign>(
+    x_size: usize,
+    y_size: usize,
+    data: Vec<T>,
+) -> Vec<Ratio<T>> {
+    let basis = Array2DOwned::from_array(x_size, y_size, data);
+    let retval = lattice::gram_schmidt(basis.slice(.., ..));
+    assert_eq!(retval.size(), (x_size, y_size));
+    retval.into_data()
+}
+
+pub fn lll_reduce<T>(
+    x_size: usize,
+    y_size: usize,
+    data: Vec<T>,
+    delta: Option<Ratio<T>>,
+) -> Vec<T>
+where
+    T: Clone + Integer + NumAssign + NumRef + FromPrimitive + Signed,
+{
+    let basis = Array2DOwned::from_array(x_size, y_size, data);
+    let retval = match delta {
+        None => lattice::lll_reduce(basis),
+        Some(delta) => lattice::lll_reduce_with_delta(basis, delta),
+    };
+    assert_eq!(retval.size(), (x_size, y_size));
+    retval.into_data()
+}
+
+// ---- two-dimensional arrays
+
+#[derive(Copy, Clone, Debug)]
+pub enum SliceBound {
+    Index(usize),
+    Full,
+    Range(usize, usize),
+    From(usize),
+    To(usize),
+    Inclusive(usize, usize),
+    ToInclusive(usize),
+    Pair(Bound<usize>, Bound<usize>),
+}
+
+macro_rules! with_bound {
+    ($bound:expr, $name:ident, $body:expr) => {
+        match $bound {
+            SliceBound::Index($name) => $body,
+            SliceBound::Full => {
+                let $name = ..;
+                $body
+            }
+            SliceBound::Range(a, b) => {
+                let $name = a..b;
+                $body
+            }
+            SliceBound::From(a) => {
+                let $name = a..;
+                $body
+            }
+            SliceBound::To(b) => {
+                let $name = ..b;
+                $body
+            }
+            SliceBound::Inclusive(a, b) => {
+                let $name = a..=b;
+                $body
+            }
+            SliceBound::ToInclusive(b) => {
+                let $name = ..=b;
+                $body
+            }
+            SliceBound::Pair(a, b) => {
+                let $name = (a, b);
+                $body
+            }
+        }
+    };
+}
+
+/// one step of a two-ended walk: from the front or from the back, with or without the position
+#[derive(Copy, Clone, Debug)]
+pub struct Step {
+    pub back: bool,
+    pub with_position: bool,
+}
+
+/// what a step gave: the remaining length before it, the position asked for, the element
+pub type Seen<T> = (usize, Option<(usize, usize)>, Option<T>);
+
+macro_rules! walk {
+    ($iter:expr, $steps:expr, $element:expr) => {{
+        let mut iter = $iter;
+        let mut retval = Vec::new();
+        for step in $steps {
+            let len = iter.len();
+            assert_eq!(iter.size_hint(), (len, Some(len)));
+            if step.with_position {
+                let mut with_positions = iter.with_positions();
+                assert_eq!(with_positions.len(), len);
+                let item = if step.back {
+                    with_positions.next_back()
+                } else {
+                    with_positions.next()
+                };
+                iter = with_positions.without_positions();
+                match item {
+                    None => retval.push((len, None, None)),
+                    Some((position, v)) => retval.push((len, Some(position), Some($element(v)))),
+                }
+            } else {
+                let item = if step.back {
+                    iter.next_back()
+                } else {
+                    iter.next()
+                };
+                retval.push((len, None, item.map($element)));
+            }
+        }
+        retval
+    }};
+}
+
+#[derive(Clone, Debug, Eq, PartialEq, Hash)]
+pub struct Grid<T>(Array2DOwned<T>);
+
+#[derive(Copy, Clone, Debug)]
+pub struct GridSlice<'a, T>(Array2DSlice<'a, T>);
+
+#[derive(Debug)]
+pub struct GridSliceMut<'a, T>(Array2DMutSlice<'a, T>);
+
+macro_rules! grid_common {
+    () => {
+        pub fn size(&self) -> (usize, usize) {
+            assert_eq!(self.0.size(), (self.0.x_size(), self.0.y_size()));
+            self.0.size()
+        }
+        pub fn at(&self, x: usize, y: usize) -> &T {
+            &self.0[(x, y)]
+        }
+        pub fn slice(&self, x: SliceBound, y: SliceBound) -> GridSlice<T> {
+            with_bound!(x, x, with_bound!(y, y, GridSlice(self.0.slice(x, y))))
+        }
+        pub fn walk(&self, steps: &[Step]) -> Vec<Seen<T>>
+        where
+            T: Clone,
+        {
+            walk!(self.0.iter(), steps, |v: &T| v.clone())
+        }
+        pub fn positions(&self) -> Vec<(usize, usize)> {
+            self.0.positions().collect()
+        }
+        pub fn to_owned(&self) -> Grid<T>
+        where
+            T: Clone,
+        {
+            Grid(self.0.to_owned())
+        }
+        pub fn count_and_last(&self) -> (usize, Option<T>)
+        where
+            T: Clone,
+        {
+            (self.0.iter().count(), self.0.iter().last().cloned())
+        }
+    };
+}
+
+macro_rules! grid_mut {
+    () => {
+        pub fn at_mut(&mut self, x: usize, y: usize) -> &mut T {
+            &mut self.0[(x, y)]
+        }
+        pub fn swap(&mut self, a: (usize, usize), b: (usize, usize)) {
+            self.0.swap_elements(a, b)
+        }
+        pub fn slice_mut(&mut self, x: SliceBound, y: SliceBound) -> GridSliceMut<T> {
+            with_bound!(
+                x,
+                x,
+                with_bound!(y, y, GridSliceMut(self.0.slice_mut(x, y)))
+            )
+        }
+        /// replaces each element seen by `f` of it
+        pub fn walk_mut<F: FnMut(&T) -> T>(&mut self, steps: &[Step], mut f: F) -> Vec<Seen<T>>
+        where
+            T: Clone,
+        {
+            walk!(self.0.iter_mut(), steps, |v: &mut T| {
+                let old = v.clone();
+                *v = f(&old);
+                old
+            })
+        }
+    };
+}
+
+impl<T> Grid<T> {
+    pub fn from_array(x_size: usize, y_size: usize, data: Vec<T>) -> Self {
+        Grid(Array2DOwned::from_array(x_size, y_size, data))
+    }
+    pub fn new_with_positions<F: FnMut(usize, usize) -> T>(x: usize, y: usize, f: F) -> Self {
+        Grid(Array2DOwned::new_with_positions(x, y, f))
+    }
+    pub fn new_with<F: FnMut() -> T>(x: usize, y: usize, f: F) -> Self {
+        Grid(Array2DOwned::new_with(x, y, f))
+    }
+    pub fn new(x: usize, y: usize, value: T) -> Self
+    where
+        T: Clone,
+    {
+        Grid(Array2DOwned::new(x, y, value))
+    }
+    pub fn into_data(self) -> Vec<T> {
+        self.0.into_data()
+    }
+    pub fn data(&self) -> &[T] {
+        self.0.data()
+    }
+    pub fn data_mut(&mut self) -> &mut [T] {
+        self.0.data_mut()
+    }
+    pub fn into_walk(self, steps: &[Step]) -> Vec<Seen<T>> {
+        walk!(self.0.into_iter(), steps, |v: T| v)
+    }
+    grid_common!();
+    grid_mut!();
+}
+
+impl<'a, T> GridSlice<'a, T> {
+    pub fn into_walk(self, steps: &[Step]) -> Vec<Seen<T>>
+    where
+        T: Clone,
+    {
+        walk!(self.0.into_iter(), steps, |v: &T| v.clone())
+    }
+    grid_common!();
+}
+
+impl<'a, T> GridSliceMut<'a, T> {
+    pub fn into_walk(self, steps: &[Step]) -> Vec<Seen<T>>
+    where
+        T: Clone,
+    {
+        walk!(self.0.into_iter(), steps, |v: &mut T| v.clone())
+    }
+    grid_common!();
+    grid_mut!();
+}
+
+macro_rules! grid_display {
+    ($t:ty) => {
+        impl<T: fmt::Display + Clone> fmt::Display for $t {
+            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+                self.0.fmt(f)
+            }
+        }
+    };
+}
+
+grid_display!(Grid<T>);
+grid_display!(GridSlice<'_, T>);
+grid_display!(GridSliceMut<'_, T>);
+
+/// walks bare positions: remaining length, front, back and whether finished before each step
+#[allow(clippy::type_complexity)]
+pub fn walk_positions(
+    x_size: usize,
+    y_size: usize,
+    back: &[bool],
+) -> Vec<(
+    usize,
+    Option<(usize, usize)>,
+    Option<(usize, usize)>,
+    bool,
+    Option<(usize, usize)>,
+)> {
+    let mut positions = Positions::new(x_size, y_size);
+    back.iter()
+        .map(|&back| {
+            (
+                positions.len(),
+                positions.pos(),
+                positions.rev_pos(),
+                positions.is_finished(),
+                if back {
+                    positions.next_back()
+                } else {
+                    positions.next()
+                },
+            )
+        })
+        .collect()
+}
+
+// ---- quadratic numbers
+
+#[derive(Clone, Eq, PartialEq, Hash, Debug)]
+pub struct Quadratic(RealQuadraticNumber);
+
+impl Quadratic {
+    pub fn new(constant_term: BigInt, linear_term: BigInt, quadratic_term: BigInt) -> Option<Self> {
+        RealQuadraticNumber::new(QuadraticPolynomial {
+            constant_term,
+            linear_term,
+            quadratic_term,
+        })
+        .map(Quadratic)
+    }
+    pub fn from_ratio(numerator: BigInt, denominator: BigInt) -> Option<Self> {
+        RealQuadraticNumber::from_ratio_checked(numerator, denominator)
+            .ok()
+            .map(Quadratic)
+    }
+    pub fn from_integer(value: BigInt) -> Self {
+        Quadratic(value.into())
+    }
+    pub fn from_rational(value: BigRational) -> Self {
+        Quadratic(value.into())
+    }
+    pub fn constants() -> [Self; 3] {
+        [
+            Quadratic(RealQuadraticNumber::zero()),
+            Quadratic(RealQuadraticNumber::one()),
+            Quadratic(RealQuadraticNumber::default()),
+        ]
+    }
+    /// constant, linear and quadratic term
+    pub fn terms(&self) -> [BigInt; 3] {
+        [
+            self.0.constant_term().clone(),
+            self.0.linear_term().clone(),
+            self.0.quadratic_term().clone(),
+        ]
+    }
+    pub fn is_ratio(&self) -> bool {
+        self.0.is_ratio()
+    }
+    pub fn is_integer(&self) -> bool {
+        self.0.is_integer()
+    }
+    pub fn is_zero(&self) -> bool {
+        self.0.is_zero()
+    }
+    pub fn is_one(&self) -> bool {
+        self.0.is_one()
+    }
+    pub fn to_integer(&self) -> Option<BigInt> {
+        self.0.to_integer()
+    }
+    pub fn to_ratio(&self) -> Option<BigRational> {
+        self.0.to_ratio()
+    }
+    pub fn to_f64(&self) -> Option<f64> {
+        self.0.to_f64()
+    }
+    pub fn neg(&self) -> Self {
+        Quadratic(-&self.0)
+    }
+    pub fn abs(&self) -> Self {
+        Quadratic(self.0.abs())
+    }
+    pub fn signum(&self) -> Self {
+        Quadratic(self.0.signum())
+    }
+    pub fn is_positive(&self) -> bool {
+        self.0.is_positive()
+    }
+    pub fn is_negative(&self) -> bool {
+        self.0.is_negative()
+    }
+    pub fn cmp(&self, rhs: &Self) -> Ordering {
+        self.0.cmp(&rhs.0)
+    }
+    pub fn cmp_ratio(&self, rhs: &BigRational) -> (Option<Ordering>, bool, bool) {
+        (
+            self.0.partial_cmp(rhs),
+            self.0 == *rhs,
+            PartialOrd::<BigRational>::lt(&self.0, rhs),
+        )
+    }
+    pub fn ratio_cmp(lhs: &BigRational, rhs: &Self) -> (Option<Ordering>, bool) {
+        (lhs.partial_cmp(&rhs.0), *lhs == rhs.0)
+    }
+    pub fn checked_add(&self, rhs: &Self) -> Option<Self> {
+        self.0.checked_add(&rhs.0).ok().map(Quadratic)
+    }
+    pub fn checked_sub(&self, rhs: &Self) -> Option<Self> {
+        self.0.checked_sub(&rhs.0).ok().map(Quadratic)
+    }
+    pub fn checked_recip(&self) -> Option<Self> {
+        self.0.checked_recip().ok().map(Quadratic)
+    }
+}
-- 
2.43.0


From f476ba3aefe8e3151d6c8c84eb1e0ee0c6985c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:18 +0000
Subject: [PATCH 13/21] fix: iterating a two-dimensional array from the back
 must not print debug output

---
 src/array2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2d.rs b/src/array2d.rs
index 4f2aaa6..fd355af 100644
--- a/src/array2d.rs
+++ b/src/array2d.rs
@@ -734,7 +734,7 @@ impl<Iter: Iterator + DoubleEndedIterator + ExactSizeIterator> IterOwnedData<Ite
     fn get_unchecked_back(&mut self, x: usize, y: usize) -> Iter::Item {
         let index = get_index_unchecked(self.stride, x, y) - self.offset;
         self.iter
-            .nth_back(self.iter.len() - dbg!(index) - 1)
+            .nth_back(self.iter.len() - index - 1)
             .expect("data shouldn't be empty")
     }
 }
-- 
2.43.0


From 3683a4a7e5eedd2d215f60c9d548428e01274bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:18 +0000
Subject: [PATCH 14/21] fix: an empty slice at the end of a two-dimensional
 array must not panic

---
 src/array2d.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/array2d.rs b/src/array2d.rs
index fd355af..6fc02e2 100644
--- a/src/array2d.rs
+++ b/src/array2d.rs
@@ -267,10 +267,16 @@ impl<Data: Array2DData> Array2DBase<Data> {
         }
         let (x_start, x_end) = start_and_end(x_bound.to_slice_bound(), self.x_size);
         let (y_start, y_end) = start_and_end(y_bound.to_slice_bound(), self.y_size);
+        let (x_size, y_size) = (x_end - x_start, y_end - y_start);
         Array2DSliceData {
-            x_size: x_end - x_start,
-            y_size: y_end - y_start,
-            data_offset: get_index_unchecked(self.stride(), x_start, y_start),
+            x_size,
+            y_size,
+            data_offset: if x_size == 0 || y_size == 0 {
+                // the start of an empty slice can be past the end of the data
+                0
+            } else {
+                get_index_unchecked(self.stride(), x_start, y_start)
+            },
         }
     }
     pub(crate) fn slice<XB: Array2DSliceBound, YB: Array2DSliceBound>(
-- 
2.43.0


From d20c4ae59246675d615d316cf91021e9ca953291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:18 +0000
Subject: [PATCH 15/21] fix: the reciprocal of a positive rational quadratic
 number must have a positive denominator

---
 src/quadratic_numbers.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/quadratic_numbers.rs b/src/quadratic_numbers.rs
index 6df510d..99602b6 100644
--- a/src/quadratic_numbers.rs
+++ b/src/quadratic_numbers.rs
@@ -435,10 +435,7 @@ impl RealQuadraticNumber {
     }
     pub(crate) fn checked_recip(&self) -> Result<Self, NonQuadraticResult> {
         if self.is_ratio() {
-            return Self::from_negated_reduced_ratio_checked(
-                self.linear_term().clone(),
-                self.constant_term().clone(),
-            );
+            return Self::from_ratio_checked(-self.linear_term(), self.constant_term().clone());
         }
         unimplemented!()
     }
-- 
2.43.0


From 0a3b7151c8f361cbf916ccb8526daf94c732d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:18 +0000
Subject: [PATCH 16/21] fix: nearest division must round negative signed
 operands and big integers to nearest

---
 src/traits.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 560848c..b086aa2 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -240,11 +240,14 @@ macro_rules! impl_div_rem_signed_int {
                 let mut remainder = lhs % rhs;
                 let rhs_magnitude = rhs.wrapping_abs() as $u;
                 let remainder_magnitude = remainder.wrapping_abs() as $u;
-                if rhs != <$t>::min_value() && remainder_magnitude > rhs_magnitude / 2 {
-                    let (quotient_offset, remainder_offset) =
-                        if rhs < 0 { (-1, rhs) } else { (1, -rhs) };
-                    quotient = quotient.checked_add(quotient_offset)?;
-                    remainder = remainder.checked_add(remainder_offset)?;
+                if remainder_magnitude > rhs_magnitude / 2 {
+                    if (lhs < 0) == (rhs < 0) {
+                        quotient = quotient.checked_add(1)?;
+                        remainder = remainder.checked_sub(rhs)?;
+                    } else {
+                        quotient = quotient.checked_sub(1)?;
+                        remainder = remainder.checked_add(rhs)?;
+                    }
                 }
                 Some((quotient, remainder))
             }
@@ -290,13 +293,13 @@ impl DivRemNearest for BigInt {
         let (mut quotient, mut remainder) = self.div_rem(rhs);
         let rhs_magnitude = rhs.abs();
         let remainder_magnitude = remainder.abs();
-        if &rhs_magnitude - &remainder_magnitude > remainder_magnitude {
-            if rhs.is_negative() {
-                quotient -= 1;
-                remainder -= rhs_magnitude;
-            } else {
+        if &rhs_magnitude - &remainder_magnitude < remainder_magnitude {
+            if self.is_negative() == rhs.is_negative() {
                 quotient += 1;
-                remainder += rhs_magnitude;
+                remainder -= rhs;
+            } else {
+                quotient -= 1;
+                remainder += rhs;
             }
         }
         Some((quotient, remainder))
-- 
2.43.0


From c1cf02edc0166e2c2c520a0109dac25ae251bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:20 +0000
Subject: [PATCH 17/21] verif hooks: one guarded module per monitored part

---
 src/verif_hooks.rs | 900 +++++++++++++++++++++++----------------------
 1 file changed, 465 insertions(+), 435 deletions(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 54e58a1..4f63d48 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -2,490 +2,520 @@
 // See Notices.txt for copyright information
 
 //! Thin public wrappers around crate-private items, for the runtime monitors.
-//! Compiled only with `--cfg algebraics_verif`; nothing in the crate uses it.
-
-use crate::{
-    array2d::{Array2DMutSlice, Array2DOwned, Array2DSlice, Positions},
-    lattice,
-    mod_int::{ModularInteger, ModularReducePow, OddPrimeModulus, PrimeModulus},
-    polynomial::Polynomial,
-    quadratic_numbers::{QuadraticPolynomial, RealQuadraticNumber},
-    traits::{DivRemNearest, ExtendedGCD, GCD},
-    util::{for_subsets_of_size, ContinueBreak, PRIMES_THAT_FIT_IN_U16},
-};
-use num_bigint::{BigInt, ToBigInt};
-use num_integer::Integer;
-use num_rational::{BigRational, Ratio};
-use num_traits::{FromPrimitive, NumAssign, NumRef, One, Signed, Zero};
-use rand::{distributions::uniform::SampleUniform, Rng};
-use std::{cmp::Ordering, fmt, hash::Hash, ops::Bound};
-
-// ---- factorization modulo a prime
-
-pub fn distinct_degree_factorization<V, M>(
-    poly: Polynomial<ModularInteger<V, M>>,
-) -> Vec<Polynomial<ModularInteger<V, M>>>
-where
-    V: ModularReducePow<usize> + Integer + GCD<Output = V> + ExtendedGCD + fmt::Debug + Hash,
-    M: PrimeModulus<V> + fmt::Debug + Hash,
-{
-    poly.distinct_degree_factorization()
-}
-
-pub fn same_degree_factorization<V, M, R: Rng + ?Sized>(
-    poly: Polynomial<ModularInteger<V, M>>,
-    factor_degree: usize,
-    rng: &mut R,
-) -> Vec<Polynomial<ModularInteger<V, M>>>
-where
-    V: ModularReducePow<usize>
-        + Integer
-        + GCD<Output = V>
-        + ExtendedGCD
-        + fmt::Debug
-        + fmt::Display
-        + Hash
-        + SampleUniform
-        + ToBigInt,
-    M: OddPrimeModulus<V> + fmt::Debug + fmt::Display + Hash,
-{
-    poly.same_degree_factorization(factor_degree, rng)
-}
+//! Compiled only with `--cfg algebraics_verif`, each module only with `--cfg algebraics_verif="NAME"`;
+//! nothing in the crate uses it.
+
+/// factorization modulo a prime
+#[cfg(algebraics_verif = "factor")]
+pub mod factor {
+    use crate::{
+        mod_int::{ModularInteger, ModularReducePow, OddPrimeModulus, PrimeModulus},
+        polynomial::Polynomial,
+        traits::{ExtendedGCD, GCD},
+    };
+    use num_bigint::ToBigInt;
+    use num_integer::Integer;
+    use rand::{distributions::uniform::SampleUniform, Rng};
+    use std::{fmt, hash::Hash};
+
+    pub fn distinct_degree_factorization<V, M>(
+        poly: Polynomial<ModularInteger<V, M>>,
+    ) -> Vec<Polynomial<ModularInteger<V, M>>>
+    where
+        V: ModularReducePow<usize> + Integer + GCD<Output = V> + ExtendedGCD + fmt::Debug + Hash,
+        M: PrimeModulus<V> + fmt::Debug + Hash,
+    {
+        poly.distinct_degree_factorization()
+    }
 
-// ---- utilities
-
-/// `f` gets each subset and returns false to stop; true when it ran to the end
-pub fn subsets<F: FnMut(&[usize]) -> bool>(
-    mut f: F,
-    subset_size: usize,
-    index_range: std::ops::Range<usize>,
-) -> bool {
-    match for_subsets_of_size(
-        |v| {
-            if f(v) {
-                ContinueBreak::Continue
-            } else {
-                ContinueBreak::Break(())
-            }
-        },
-        subset_size,
-        index_range,
-    ) {
-        ContinueBreak::Continue => true,
-        ContinueBreak::Break(()) => false,
+    pub fn same_degree_factorization<V, M, R: Rng + ?Sized>(
+        poly: Polynomial<ModularInteger<V, M>>,
+        factor_degree: usize,
+        rng: &mut R,
+    ) -> Vec<Polynomial<ModularInteger<V, M>>>
+    where
+        V: ModularReducePow<usize>
+            + Integer
+            + GCD<Output = V>
+            + ExtendedGCD
+            + fmt::Debug
+            + fmt::Display
+            + Hash
+            + SampleUniform
+            + ToBigInt,
+        M: OddPrimeModulus<V> + fmt::Debug + fmt::Display + Hash,
+    {
+        poly.same_degree_factorization(factor_degree, rng)
     }
 }
 
-pub fn primes_that_fit_in_u16() -> &'static [u16] {
-    PRIMES_THAT_FIT_IN_U16
-}
+/// utilities
+#[cfg(algebraics_verif = "utilities")]
+pub mod utilities {
+    use crate::{
+        traits::DivRemNearest,
+        util::{for_subsets_of_size, ContinueBreak, PRIMES_THAT_FIT_IN_U16},
+    };
 
-pub trait Nearest: Sized {
-    fn nearest(self, rhs: Self) -> Option<(Self, Self)>;
-    fn nearest_plain(self, rhs: Self) -> (Self, Self);
-}
+    /// `f` gets each subset and returns false to stop; true when it ran to the end
+    pub fn subsets<F: FnMut(&[usize]) -> bool>(
+        mut f: F,
+        subset_size: usize,
+        index_range: std::ops::Range<usize>,
+    ) -> bool {
+        match for_subsets_of_size(
+            |v| {
+                if f(v) {
+                    ContinueBreak::Continue
+                } else {
+                    ContinueBreak::Break(())
+                }
+            },
+            subset_size,
+            index_range,
+        ) {
+            ContinueBreak::Continue => true,
+            ContinueBreak::Break(()) => false,
+        }
+    }
 
-impl<T: DivRemNearest<T, DivOutput = T, RemOutput = T>> Nearest for T {
-    fn nearest(self, rhs: Self) -> Option<(Self, Self)> {
-        self.checked_div_rem_nearest(&rhs)
+    pub fn primes_that_fit_in_u16() -> &'static [u16] {
+        PRIMES_THAT_FIT_IN_U16
     }
-    fn nearest_plain(self, rhs: Self) -> (Self, Self) {
-        self.div_rem_nearest(&rhs)
+
+    pub trait Nearest: Sized {
+        fn nearest(self, rhs: Self) -> Option<(Self, Self)>;
+        fn nearest_plain(self, rhs: Self) -> (Self, Self);
     }
-}
 
-// ---- lattices: columns (x) are the vectors, data is column-major
-
-pub fn gram_schmidt<T: Clone + Integer + NumAssign>(
-    x_size: usize,
-    y_size: usize,
-    data: Vec<T>,
-) -> Vec<Ratio<T>> {
-    let basis = Array2DOwned::from_array(x_size, y_size, data);
-    let retval = lattice::gram_schmidt(basis.slice(.., ..));
-    assert_eq!(retval.size(), (x_size, y_size));
-    retval.into_data()
+    impl<T: DivRemNearest<T, DivOutput = T, RemOutput = T>> Nearest for T {
+        fn nearest(self, rhs: Self) -> Option<(Self, Self)> {
+            self.checked_div_rem_nearest(&rhs)
+        }
+        fn nearest_plain(self, rhs: Self) -> (Self, Self) {
+            self.div_rem_nearest(&rhs)
+        }
+    }
 }
 
-pub fn lll_reduce<T>(
-    x_size: usize,
-    y_size: usize,
-    data: Vec<T>,
-    delta: Option<Ratio<T>>,
-) -> Vec<T>
-where
-    T: Clone + Integer + NumAssign + NumRef + FromPrimitive + Signed,
-{
-    let basis = Array2DOwned::from_array(x_size, y_size, data);
-    let retval = match delta {
-        None => lattice::lll_reduce(basis),
-        Some(delta) => lattice::lll_reduce_with_delta(basis, delta),
-    };
-    assert_eq!(retval.size(), (x_size, y_size));
-    retval.into_data()
+/// lattices: columns (x) are the vectors, data is column-major
+#[cfg(algebraics_verif = "lattices")]
+pub mod lattices {
+    use crate::{array2d::Array2DOwned, lattice};
+    use num_integer::Integer;
+    use num_rational::Ratio;
+    use num_traits::{FromPrimitive, NumAssign, NumRef, Signed};
+
+    pub fn gram_schmidt<T: Clone + Integer + NumAssign>(
+        x_size: usize,
+        y_size: usize,
+        data: Vec<T>,
+    ) -> Vec<Ratio<T>> {
+        let basis = Array2DOwned::from_array(x_size, y_size, data);
+        let retval = lattice::gram_schmidt(basis.slice(.., ..));
+        assert_eq!(retval.size(), (x_size, y_size));
+        retval.into_data()
+    }
+
+    pub fn lll_reduce<T>(
+        x_size: usize,
+        y_size: usize,
+        data: Vec<T>,
+        delta: Option<Ratio<T>>,
+    ) -> Vec<T>
+    where
+        T: Clone + Integer + NumAssign + NumRef + FromPrimitive + Signed,
+    {
+        let basis = Array2DOwned::from_array(x_size, y_size, data);
+        let retval = match delta {
+            None => lattice::lll_reduce(basis),
+            Some(delta) => lattice::lll_reduce_with_delta(basis, delta),
+        };
+        assert_eq!(retval.size(), (x_size, y_size));
+        retval.into_data()
+    }
 }
 
-// ---- two-dimensional arrays
-
-#[derive(Copy, Clone, Debug)]
-pub enum SliceBound {
-    Index(usize),
-    Full,
-    Range(usize, usize),
-    From(usize),
-    To(usize),
-    Inclusive(usize, usize),
-    ToInclusive(usize),
-    Pair(Bound<usize>, Bound<usize>),
-}
+/// two-dimensional arrays
+#[cfg(algebraics_verif = "grid")]
+pub mod grid {
+    use crate::array2d::{Array2DMutSlice, Array2DOwned, Array2DSlice, Positions};
+    use std::{fmt, ops::Bound};
+
+    #[derive(Copy, Clone, Debug)]
+    pub enum SliceBound {
+        Index(usize),
+        Full,
+        Range(usize, usize),
+        From(usize),
+        To(usize),
+        Inclusive(usize, usize),
+        ToInclusive(usize),
+        Pair(Bound<usize>, Bound<usize>),
+    }
+
+    macro_rules! with_bound {
+        ($bound:expr, $name:ident, $body:expr) => {
+            match $bound {
+                SliceBound::Index($name) => $body,
+                SliceBound::Full => {
+                    let $name = ..;
+                    $body
+                }
+                SliceBound::Range(a, b) => {
+                    let $name = a..b;
+                    $body
+                }
+                SliceBound::From(a) => {
+                    let $name = a..;
+                    $body
+                }
+                SliceBound::To(b) => {
+                    let $name = ..b;
+                    $body
+                }
+                SliceBound::Inclusive(a, b) => {
+                    let $name = a..=b;
+                    $body
+                }
+                SliceBound::ToInclusive(b) => {
+                    let $name = ..=b;
+                    $body
+                }
+                SliceBound::Pair(a, b) => {
+                    let $name = (a, b);
+                    $body
+                }
+            }
+        };
+    }
+
+    /// one step of a two-ended walk: from the front or from the back, with or without the position
+    #[derive(Copy, Clone, Debug)]
+    pub struct Step {
+        pub back: bool,
+        pub with_position: bool,
+    }
+
+    /// what a step gave: the remaining length before it, the position asked for, the element
+    pub type Seen<T> = (usize, Option<(usize, usize)>, Option<T>);
+
+    macro_rules! walk {
+        ($iter:expr, $steps:expr, $element:expr) => {{
+            let mut iter = $iter;
+            let mut retval = Vec::new();
+            for step in $steps {
+                let len = iter.len();
+                assert_eq!(iter.size_hint(), (len, Some(len)));
+                if step.with_position {
+                    let mut with_positions = iter.with_positions();
+                    assert_eq!(with_positions.len(), len);
+                    let item = if step.back {
+                        with_positions.next_back()
+                    } else {
+                        with_positions.next()
+                    };
+                    iter = with_positions.without_positions();
+                    match item {
+                        None => retval.push((len, None, None)),
+                        Some((position, v)) => {
+                            retval.push((len, Some(position), Some($element(v))))
+                        }
+                    }
+                } else {
+                    let item = if step.back {
+                        iter.next_back()
+                    } else {
+                        iter.next()
+                    };
+                    retval.push((len, None, item.map($element)));
+                }
+            }
+            retval
+        }};
+    }
 
-macro_rules! with_bound {
-    ($bound:expr, $name:ident, $body:expr) => {
-        match $bound {
-            SliceBound::Index($name) => $body,
-            SliceBound::Full => {
-                let $name = ..;
-                $body
+    #[derive(Clone, Debug, Eq, PartialEq, Hash)]
+    pub struct Grid<T>(Array2DOwned<T>);
+
+    #[derive(Copy, Clone, Debug)]
+    pub struct GridSlice<'a, T>(Array2DSlice<'a, T>);
+
+    #[derive(Debug)]
+    pub struct GridSliceMut<'a, T>(Array2DMutSlice<'a, T>);
+
+    macro_rules! grid_common {
+        () => {
+            pub fn size(&self) -> (usize, usize) {
+                assert_eq!(self.0.size(), (self.0.x_size(), self.0.y_size()));
+                self.0.size()
             }
-            SliceBound::Range(a, b) => {
-                let $name = a..b;
-                $body
+            pub fn at(&self, x: usize, y: usize) -> &T {
+                &self.0[(x, y)]
             }
-            SliceBound::From(a) => {
-                let $name = a..;
-                $body
+            pub fn slice(&self, x: SliceBound, y: SliceBound) -> GridSlice<T> {
+                with_bound!(x, x, with_bound!(y, y, GridSlice(self.0.slice(x, y))))
             }
-            SliceBound::To(b) => {
-                let $name = ..b;
-                $body
+            pub fn walk(&self, steps: &[Step]) -> Vec<Seen<T>>
+            where
+                T: Clone,
+            {
+                walk!(self.0.iter(), steps, |v: &T| v.clone())
             }
-            SliceBound::Inclusive(a, b) => {
-                let $name = a..=b;
-                $body
+            pub fn positions(&self) -> Vec<(usize, usize)> {
+                self.0.positions().collect()
             }
-            SliceBound::ToInclusive(b) => {
-                let $name = ..=b;
-                $body
+            pub fn to_owned(&self) -> Grid<T>
+            where
+                T: Clone,
+            {
+                Grid(self.0.to_owned())
             }
-            SliceBound::Pair(a, b) => {
-                let $name = (a, b);
-                $body
+            pub fn count_and_last(&self) -> (usize, Option<T>)
+            where
+                T: Clone,
+            {
+                (self.0.iter().count(), self.0.iter().last().cloned())
             }
-        }
-    };
-}
-
-/// one step of a two-ended walk: from the front or from the back, with or without the position
-#[derive(Copy, Clone, Debug)]
-pub struct Step {
-    pub back: bool,
-    pub with_position: bool,
-}
+        };
+    }
 
-/// what a step gave: the remaining length before it, the position asked for, the element
-pub type Seen<T> = (usize, Option<(usize, usize)>, Option<T>);
-
-macro_rules! walk {
-    ($iter:expr, $steps:expr, $element:expr) => {{
-        let mut iter = $iter;
-        let mut retval = Vec::new();
-        for step in $steps {
-            let len = iter.len();
-            assert_eq!(iter.size_hint(), (len, Some(len)));
-            if step.with_position {
-                let mut with_positions = iter.with_positions();
-                assert_eq!(with_positions.len(), len);
-                let item = if step.back {
-                    with_positions.next_back()
-                } else {
-                    with_positions.next()
-                };
-                iter = with_positions.without_positions();
-                match item {
-                    None => retval.push((len, None, None)),
-                    Some((position, v)) => retval.push((len, Some(position), Some($element(v)))),
-                }
-            } else {
-                let item = if step.back {
-                    iter.next_back()
-                } else {
-                    iter.next()
-                };
-                retval.push((len, None, item.map($element)));
+    macro_rules! grid_mut {
+        () => {
+            pub fn at_mut(&mut self, x: usize, y: usize) -> &mut T {
+                &mut self.0[(x, y)]
             }
-        }
-        retval
-    }};
-}
-
-#[derive(Clone, Debug, Eq, PartialEq, Hash)]
-pub struct Grid<T>(Array2DOwned<T>);
-
-#[derive(Copy, Clone, Debug)]
-pub struct GridSlice<'a, T>(Array2DSlice<'a, T>);
-
-#[derive(Debug)]
-pub struct GridSliceMut<'a, T>(Array2DMutSlice<'a, T>);
+            pub fn swap(&mut self, a: (usize, usize), b: (usize, usize)) {
+                self.0.swap_elements(a, b)
+            }
+            pub fn slice_mut(&mut self, x: SliceBound, y: SliceBound) -> GridSliceMut<T> {
+                with_bound!(
+                    x,
+                    x,
+                    with_bound!(y, y, GridSliceMut(self.0.slice_mut(x, y)))
+                )
+            }
+            /// replaces each element seen by `f` of it
+            pub fn walk_mut<F: FnMut(&T) -> T>(&mut self, steps: &[Step], mut f: F) -> Vec<Seen<T>>
+            where
+                T: Clone,
+            {
+                walk!(self.0.iter_mut(), steps, |v: &mut T| {
+                    let old = v.clone();
+                    *v = f(&old);
+                    old
+                })
+            }
+        };
+    }
 
-macro_rules! grid_common {
-    () => {
-        pub fn size(&self) -> (usize, usize) {
-            assert_eq!(self.0.size(), (self.0.x_size(), self.0.y_size()));
-            self.0.size()
+    impl<T> Grid<T> {
+        pub fn from_array(x_size: usize, y_size: usize, data: Vec<T>) -> Self {
+            Grid(Array2DOwned::from_array(x_size, y_size, data))
         }
-        pub fn at(&self, x: usize, y: usize) -> &T {
-            &self.0[(x, y)]
+        pub fn new_with_positions<F: FnMut(usize, usize) -> T>(x: usize, y: usize, f: F) -> Self {
+            Grid(Array2DOwned::new_with_positions(x, y, f))
         }
-        pub fn slice(&self, x: SliceBound, y: SliceBound) -> GridSlice<T> {
-            with_bound!(x, x, with_bound!(y, y, GridSlice(self.0.slice(x, y))))
+        pub fn new_with<F: FnMut() -> T>(x: usize, y: usize, f: F) -> Self {
+            Grid(Array2DOwned::new_with(x, y, f))
         }
-        pub fn walk(&self, steps: &[Step]) -> Vec<Seen<T>>
+        pub fn new(x: usize, y: usize, value: T) -> Self
         where
             T: Clone,
         {
-            walk!(self.0.iter(), steps, |v: &T| v.clone())
+            Grid(Array2DOwned::new(x, y, value))
         }
-        pub fn positions(&self) -> Vec<(usize, usize)> {
-            self.0.positions().collect()
+        pub fn into_data(self) -> Vec<T> {
+            self.0.into_data()
         }
-        pub fn to_owned(&self) -> Grid<T>
-        where
-            T: Clone,
-        {
-            Grid(self.0.to_owned())
+        pub fn data(&self) -> &[T] {
+            self.0.data()
+        }
+        pub fn data_mut(&mut self) -> &mut [T] {
+            self.0.data_mut()
         }
-        pub fn count_and_last(&self) -> (usize, Option<T>)
+        pub fn into_walk(self, steps: &[Step]) -> Vec<Seen<T>> {
+            walk!(self.0.into_iter(), steps, |v: T| v)
+        }
+        grid_common!();
+        grid_mut!();
+    }
+
+    impl<'a, T> GridSlice<'a, T> {
+        pub fn into_walk(self, steps: &[Step]) -> Vec<Seen<T>>
         where
             T: Clone,
         {
-            (self.0.iter().count(), self.0.iter().last().cloned())
+            walk!(self.0.into_iter(), steps, |v: &T| v.clone())
         }
-    };
-}
+        grid_common!();
+    }
 
-macro_rules! grid_mut {
-    () => {
-        pub fn at_mut(&mut self, x: usize, y: usize) -> &mut T {
-            &mut self.0[(x, y)]
-        }
-        pub fn swap(&mut self, a: (usize, usize), b: (usize, usize)) {
-            self.0.swap_elements(a, b)
-        }
-        pub fn slice_mut(&mut self, x: SliceBound, y: SliceBound) -> GridSliceMut<T> {
-            with_bound!(
-                x,
-                x,
-                with_bound!(y, y, GridSliceMut(self.0.slice_mut(x, y)))
-            )
-        }
-        /// replaces each element seen by `f` of it
-        pub fn walk_mut<F: FnMut(&T) -> T>(&mut self, steps: &[Step], mut f: F) -> Vec<Seen<T>>
+    impl<'a, T> GridSliceMut<'a, T> {
+        pub fn into_walk(self, steps: &[Step]) -> Vec<Seen<T>>
         where
             T: Clone,
         {
-            walk!(self.0.iter_mut(), steps, |v: &mut T| {
-                let old = v.clone();
-                *v = f(&old);
-                old
-            })
+            walk!(self.0.into_iter(), steps, |v: &mut T| v.clone())
         }
-    };
-}
-
-impl<T> Grid<T> {
-    pub fn from_array(x_size: usize, y_size: usize, data: Vec<T>) -> Self {
-        Grid(Array2DOwned::from_array(x_size, y_size, data))
+        grid_common!();
+        grid_mut!();
     }
-    pub fn new_with_positions<F: FnMut(usize, usize) -> T>(x: usize, y: usize, f: F) -> Self {
-        Grid(Array2DOwned::new_with_positions(x, y, f))
-    }
-    pub fn new_with<F: FnMut() -> T>(x: usize, y: usize, f: F) -> Self {
-        Grid(Array2DOwned::new_with(x, y, f))
-    }
-    pub fn new(x: usize, y: usize, value: T) -> Self
-    where
-        T: Clone,
-    {
-        Grid(Array2DOwned::new(x, y, value))
-    }
-    pub fn into_data(self) -> Vec<T> {
-        self.0.into_data()
-    }
-    pub fn data(&self) -> &[T] {
-        self.0.data()
-    }
-    pub fn data_mut(&mut self) -> &mut [T] {
-        self.0.data_mut()
-    }
-    pub fn into_walk(self, steps: &[Step]) -> Vec<Seen<T>> {
-        walk!(self.0.into_iter(), steps, |v: T| v)
-    }
-    grid_common!();
-    grid_mut!();
-}
 
-impl<'a, T> GridSlice<'a, T> {
-    pub fn into_walk(self, steps: &[Step]) -> Vec<Seen<T>>
-    where
-        T: Clone,
-    {
-        walk!(self.0.into_iter(), steps, |v: &T| v.clone())
-    }
-    grid_common!();
-}
-
-impl<'a, T> GridSliceMut<'a, T> {
-    pub fn into_walk(self, steps: &[Step]) -> Vec<Seen<T>>
-    where
-        T: Clone,
-    {
-        walk!(self.0.into_iter(), steps, |v: &mut T| v.clone())
+    macro_rules! grid_display {
+        ($t:ty) => {
+            impl<T: fmt::Display + Clone> fmt::Display for $t {
+                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+                    self.0.fmt(f)
+                }
+            }
+        };
+    }
+
+    grid_display!(Grid<T>);
+    grid_display!(GridSlice<'_, T>);
+    grid_display!(GridSliceMut<'_, T>);
+
+    /// walks bare positions: remaining length, front, back and whether finished before each step
+    #[allow(clippy::type_complexity)]
+    pub fn walk_positions(
+        x_size: usize,
+        y_size: usize,
+        back: &[bool],
+    ) -> Vec<(
+        usize,
+        Option<(usize, usize)>,
+        Option<(usize, usize)>,
+        bool,
+        Option<(usize, usize)>,
+    )> {
+        let mut positions = Positions::new(x_size, y_size);
+        back.iter()
+            .map(|&back| {
+                (
+                    positions.len(),
+                    positions.pos(),
+                    positions.rev_pos(),
+                    positions.is_finished(),
+                    if back {
+                        positions.next_back()
+                    } else {
+                        positions.next()
+                    },
+                )
+            })
+            .collect()
     }
-    grid_common!();
-    grid_mut!();
 }
 
-macro_rules! grid_display {
-    ($t:ty) => {
-        impl<T: fmt::Display + Clone> fmt::Display for $t {
-            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-                self.0.fmt(f)
-            }
+/// quadratic numbers
+#[cfg(algebraics_verif = "quadratic")]
+pub mod quadratic {
+    use crate::quadratic_numbers::{QuadraticPolynomial, RealQuadraticNumber};
+    use num_bigint::BigInt;
+    use num_rational::BigRational;
+    use num_traits::{One, Signed, ToPrimitive, Zero};
+    use std::{cmp::Ordering, fmt};
+
+    #[derive(Clone, Eq, PartialEq, Hash, Debug)]
+    pub struct Quadratic(RealQuadraticNumber);
+
+    impl Quadratic {
+        pub fn new(
+            constant_term: BigInt,
+            linear_term: BigInt,
+            quadratic_term: BigInt,
+        ) -> Option<Self> {
+            RealQuadraticNumber::new(QuadraticPolynomial {
+                constant_term,
+                linear_term,
+                quadratic_term,
+            })
+            .map(Quadratic)
         }
-    };
-}
-
-grid_display!(Grid<T>);
-grid_display!(GridSlice<'_, T>);
-grid_display!(GridSliceMut<'_, T>);
-
-/// walks bare positions: remaining length, front, back and whether finished before each step
-#[allow(clippy::type_complexity)]
-pub fn walk_positions(
-    x_size: usize,
-    y_size: usize,
-    back: &[bool],
-) -> Vec<(
-    usize,
-    Option<(usize, usize)>,
-    Option<(usize, usize)>,
-    bool,
-    Option<(usize, usize)>,
-)> {
-    let mut positions = Positions::new(x_size, y_size);
-    back.iter()
-        .map(|&back| {
+        pub fn from_ratio(numerator: BigInt, denominator: BigInt) -> Option<Self> {
+            RealQuadraticNumber::from_ratio_checked(numerator, denominator)
+                .ok()
+                .map(Quadratic)
+        }
+        pub fn from_integer(value: BigInt) -> Self {
+            Quadratic(value.into())
+        }
+        pub fn from_rational(value: BigRational) -> Self {
+            Quadratic(value.into())
+        }
+        pub fn constants() -> [Self; 3] {
+            [
+                Quadratic(RealQuadraticNumber::zero()),
+                Quadratic(RealQuadraticNumber::one()),
+                Quadratic(RealQuadraticNumber::default()),
+            ]
+        }
+        /// constant, linear and quadratic term
+        pub fn terms(&self) -> [BigInt; 3] {
+            [
+                self.0.constant_term().clone(),
+                self.0.linear_term().clone(),
+                self.0.quadratic_term().clone(),
+            ]
+        }
+        pub fn is_ratio(&self) -> bool {
+            self.0.is_ratio()
+        }
+        pub fn is_integer(&self) -> bool {
+            self.0.is_integer()
+        }
+        pub fn is_zero(&self) -> bool {
+            self.0.is_zero()
+        }
+        pub fn is_one(&self) -> bool {
+            self.0.is_one()
+        }
+        pub fn to_integer(&self) -> Option<BigInt> {
+            self.0.to_integer()
+        }
+        pub fn to_ratio(&self) -> Option<BigRational> {
+            self.0.to_ratio()
+        }
+        pub fn to_f64(&self) -> Option<f64> {
+            self.0.to_f64()
+        }
+        pub fn neg(&self) -> Self {
+            Quadratic(-&self.0)
+        }
+        pub fn abs(&self) -> Self {
+            Quadratic(self.0.abs())
+        }
+        pub fn signum(&self) -> Self {
+            Quadratic(self.0.signum())
+        }
+        pub fn is_positive(&self) -> bool {
+            self.0.is_positive()
+        }
+        pub fn is_negative(&self) -> bool {
+            self.0.is_negative()
+        }
+        pub fn cmp(&self, rhs: &Self) -> Ordering {
+            self.0.cmp(&rhs.0)
+        }
+        pub fn cmp_ratio(&self, rhs: &BigRational) -> (Option<Ordering>, bool, bool) {
             (
-                positions.len(),
-                positions.pos(),
-                positions.rev_pos(),
-                positions.is_finished(),
-                if back {
-                    positions.next_back()
-                } else {
-                    positions.next()
-                },
+                self.0.partial_cmp(rhs),
+                self.0 == *rhs,
+                PartialOrd::<BigRational>::lt(&self.0, rhs),
             )
-        })
-        .collect()
-}
-
-// ---- quadratic numbers
-
-#[derive(Clone, Eq, PartialEq, Hash, Debug)]
-pub struct Quadratic(RealQuadraticNumber);
-
-impl Quadratic {
-    pub fn new(constant_term: BigInt, linear_term: BigInt, quadratic_term: BigInt) -> Option<Self> {
-        RealQuadraticNumber::new(QuadraticPolynomial {
-            constant_term,
-            linear_term,
-            quadratic_term,
-        })
-        .map(Quadratic)
-    }
-    pub fn from_ratio(numerator: BigInt, denominator: BigInt) -> Option<Self> {
-        RealQuadraticNumber::from_ratio_checked(numerator, denominator)
-            .ok()
-            .map(Quadratic)
-    }
-    pub fn from_integer(value: BigInt) -> Self {
-        Quadratic(value.into())
-    }
-    pub fn from_rational(value: BigRational) -> Self {
-        Quadratic(value.into())
-    }
-    pub fn constants() -> [Self; 3] {
-        [
-            Quadratic(RealQuadraticNumber::zero()),
-            Quadratic(RealQuadraticNumber::one()),
-            Quadratic(RealQuadraticNumber::default()),
-        ]
-    }
-    /// constant, linear and quadratic term
-    pub fn terms(&self) -> [BigInt; 3] {
-        [
-            self.0.constant_term().clone(),
-            self.0.linear_term().clone(),
-            self.0.quadratic_term().clone(),
-        ]
-    }
-    pub fn is_ratio(&self) -> bool {
-        self.0.is_ratio()
-    }
-    pub fn is_integer(&self) -> bool {
-        self.0.is_integer()
-    }
-    pub fn is_zero(&self) -> bool {
-        self.0.is_zero()
-    }
-    pub fn is_one(&self) -> bool {
-        self.0.is_one()
-    }
-    pub fn to_integer(&self) -> Option<BigInt> {
-        self.0.to_integer()
-    }
-    pub fn to_ratio(&self) -> Option<BigRational> {
-        self.0.to_ratio()
-    }
-    pub fn to_f64(&self) -> Option<f64> {
-        self.0.to_f64()
-    }
-    pub fn neg(&self) -> Self {
-        Quadratic(-&self.0)
-    }
-    pub fn abs(&self) -> Self {
-        Quadratic(self.0.abs())
-    }
-    pub fn signum(&self) -> Self {
-        Quadratic(self.0.signum())
-    }
-    pub fn is_positive(&self) -> bool {
-        self.0.is_positive()
-    }
-    pub fn is_negative(&self) -> bool {
-        self.0.is_negative()
-    }
-    pub fn cmp(&self, rhs: &Self) -> Ordering {
-        self.0.cmp(&rhs.0)
-    }
-    pub fn cmp_ratio(&self, rhs: &BigRational) -> (Option<Ordering>, bool, bool) {
-        (
-            self.0.partial_cmp(rhs),
-            self.0 == *rhs,
-            PartialOrd::<BigRational>::lt(&self.0, rhs),
-        )
-    }
-    pub fn ratio_cmp(lhs: &BigRational, rhs: &Self) -> (Option<Ordering>, bool) {
-        (lhs.partial_cmp(&rhs.0), *lhs == rhs.0)
-    }
-    pub fn checked_add(&self, rhs: &Self) -> Option<Self> {
-        self.0.checked_add(&rhs.0).ok().map(Quadratic)
-    }
-    pub fn checked_sub(&self, rhs: &Self) -> Option<Self> {
-        self.0.checked_sub(&rhs.0).ok().map(Quadratic)
-    }
-    pub fn checked_recip(&self) -> Option<Self> {
-        self.0.checked_recip().ok().map(Quadratic)
+        }
+        pub fn ratio_cmp(lhs: &BigRational, rhs: &Self) -> (Option<Ordering>, bool) {
+            (lhs.partial_cmp(&rhs.0), *lhs == rhs.0)
+        }
+        pub fn checked_add(&self, rhs: &Self) -> Option<Self> {
+            self.0.checked_add(&rhs.0).ok().map(Quadratic)
+        }
+        pub fn checked_sub(&self, rhs: &Self) -> Option<Self> {
+            self.0.checked_sub(&rhs.0).ok().map(Quadratic)
+        }
+        pub fn checked_recip(&self) -> Option<Self> {
+            self.0.checked_recip().ok().map(Quadratic)
+        }
     }
 }
-- 
2.43.0


From 327870252e9d37904abf8ecdfaa75e250834ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:53 +0000
Subject: [PATCH 18/21] fix: dividing the zero polynomial by the scalar zero
 must be refused

---
 src/polynomial/div_rem.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index eac88f7..f2a471e 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -307,6 +307,7 @@ fn div_single<T: PolynomialCoefficient + for<'a> ExactDiv<&'a T, Output = T>>(
             .collect::<Vec<_>>()
             .into()
     }
+    assert!(!T::is_coefficient_zero(rhs), "polynomial division by zero");
     match lhs {
         Cow::Borrowed(lhs) => do_div(lhs.iter(), rhs),
         Cow::Owned(lhs) => do_div(lhs.into_iter(), rhs),
@@ -336,6 +337,9 @@ fn checked_div_single<T: PolynomialCoefficient + for<'a> ExactDiv<&'a T, Output
             .collect::<Option<Vec<_>>>()
             .map(Into::into)
     }
+    if T::is_coefficient_zero(rhs) {
+        return None;
+    }
     match lhs {
         Cow::Borrowed(lhs) => do_div(lhs.iter(), rhs),
         Cow::Owned(lhs) => do_div(lhs.into_iter(), rhs),
-- 
2.43.0


From da305f998f6b9e9bc186f33f2d05407c9a9c1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:45 +0000
Subject: [PATCH 19/21] fix: reduce the zeroth power by the modulus in
 Polynomial::checked_powmod

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index f2a471e..d7d2eaa 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -482,7 +482,7 @@ impl<T: PolynomialDivSupported> Polynomial<T> {
             return None;
         }
         if exponent.is_zero() {
-            return self.to_one_if_nonzero();
+            return self.to_one_if_nonzero()?.checked_rem(modulus);
         }
         let mut base = self.checked_rem(modulus)?;
         if exponent.is_one() {
-- 
2.43.0


From e954bbbc8ce8dc3e53a9ed72a7e005cc0f52e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:45 +0000
Subject: [PATCH 20/21] verif hooks: iteration by reference and what is left of
 an iterator

---
 src/verif_hooks.rs | 81 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 81 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 4f63d48..845a5a8 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -235,6 +235,49 @@ pub mod grid {
         }};
     }
 
+    /// what is left after some steps: count, last element, last element and its position, positions
+    pub type Rest<T> = (
+        usize,
+        Option<T>,
+        Option<((usize, usize), T)>,
+        Vec<(usize, usize)>,
+    );
+
+    macro_rules! advanced {
+        ($iter:expr, $back:expr) => {{
+            let mut iter = $iter;
+            for &back in $back {
+                if back {
+                    iter.next_back();
+                } else {
+                    iter.next();
+                }
+            }
+            iter
+        }};
+    }
+
+    macro_rules! rest {
+        ($iter:expr, $back:expr, $element:expr) => {
+            (
+                advanced!($iter, $back).count(),
+                advanced!($iter, $back).last().map($element),
+                advanced!($iter, $back)
+                    .with_positions()
+                    .last()
+                    .map(|(position, v)| (position, $element(v))),
+                {
+                    let iter = advanced!($iter, $back);
+                    let positions: Vec<_> = iter.positions().collect();
+                    let with_positions = iter.with_positions();
+                    assert!(with_positions.positions().eq(positions.iter().copied()));
+                    assert_eq!(with_positions.count(), positions.len());
+                    positions
+                },
+            )
+        };
+    }
+
     #[derive(Clone, Debug, Eq, PartialEq, Hash)]
     pub struct Grid<T>(Array2DOwned<T>);
 
@@ -262,6 +305,18 @@ pub mod grid {
             {
                 walk!(self.0.iter(), steps, |v: &T| v.clone())
             }
+            pub fn walk_reference(&self, steps: &[Step]) -> Vec<Seen<T>>
+            where
+                T: Clone,
+            {
+                walk!((&self.0).into_iter(), steps, |v: &T| v.clone())
+            }
+            pub fn rest(&self, back: &[bool]) -> Rest<T>
+            where
+                T: Clone,
+            {
+                rest!(self.0.iter(), back, |v: &T| v.clone())
+            }
             pub fn positions(&self) -> Vec<(usize, usize)> {
                 self.0.positions().collect()
             }
@@ -306,6 +361,20 @@ pub mod grid {
                     old
                 })
             }
+            pub fn walk_mut_reference<F: FnMut(&T) -> T>(
+                &mut self,
+                steps: &[Step],
+                mut f: F,
+            ) -> Vec<Seen<T>>
+            where
+                T: Clone,
+            {
+                walk!((&mut self.0).into_iter(), steps, |v: &mut T| {
+                    let old = v.clone();
+                    *v = f(&old);
+                    old
+                })
+            }
         };
     }
 
@@ -337,6 +406,18 @@ pub mod grid {
         pub fn into_walk(self, steps: &[Step]) -> Vec<Seen<T>> {
             walk!(self.0.into_iter(), steps, |v: T| v)
         }
+        pub fn into_rest(self, back: &[bool]) -> Rest<T>
+        where
+            T: Clone,
+        {
+            rest!(self.0.clone().into_iter(), back, |v: T| v)
+        }
+        pub fn rest_mut(&mut self, back: &[bool]) -> Rest<T>
+        where
+            T: Clone,
+        {
+            rest!(self.0.iter_mut(), back, |v: &mut T| v.clone())
+        }
         grid_common!();
         grid_mut!();
     }
-- 
2.43.0


From bb347732f69f0d7fa36620a468a1d762da2f036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:11 +0000
Subject: [PATCH 21/21] fix: exp must not panic when a term of its series is
 exactly one unit

---
 src/interval_arithmetic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index b057591..2fc296c 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -723,7 +723,8 @@ impl DyadicFractionInterval {
             term /= i;
             retval += &term;
             if term.upper_bound_numer.is_one() || term.upper_bound_numer.is_zero() {
-                assert!(term.lower_bound_numer.is_zero());
+                // the lower bound is also one when the term is exactly one unit
+                assert!(term.lower_bound_numer <= term.upper_bound_numer);
                 break;
             }
         }
-- 
2.43.0

