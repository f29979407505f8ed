From 6ea438a8872b7a3204c260836ed1970442559883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:18 +0000
Subject: [PATCH 01/23] fix: multiplying two zero Polynomials underflows the
 product length and panics

---
 src/polynomial/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4ef141a..227fbbe 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -58,6 +58,9 @@ where
 {
     let rhs = &rhs[first_nonzero_index(&rhs)..];
     let lhs = &lhs[first_nonzero_index(&lhs)..];
+    if rhs.is_empty() || lhs.is_empty() {
+        return vec![];
+    }
     let mut terms = vec![N::zero(); rhs.len() + lhs.len() - 1];
     for (index, &rterm) in rhs.iter().enumerate() {
         if rterm.is_zero() {
-- 
2.43.0


From ba10baf80d7e31df65d3254602e6b9964ff67ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:30 +0000
Subject: [PATCH 02/23] fix: Polynomial % Polynomial never terminates because
 it inspects the dividend instead of the remainder

---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 227fbbe..00ab455 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -555,7 +555,7 @@ where
 
         while self_degree >= rhs_deg {
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
+            match first_term(&remainder) {
                 Term::ZeroTerm => break,
                 Term::Term(coeff, degree) => {
                     scale = coeff / rhs_first;
-- 
2.43.0


From 1f8be0ccb762cda3bcf73762f422a243453ca01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 03/23] fix: SparsePolynomial division ignores the degree
 offset of each quotient term

---
 src/polynomial/sparsepolynomial.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 8486861..769f5e6 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -47,14 +47,19 @@ where
     terms
 }
 
-fn map_sub_w_scale<N>(lhs: &mut BTreeMap<usize, N>, rhs: &BTreeMap<usize, N>, rhs_scale: N)
-where
+/// Subtracts `rhs * rhs_scale * x^rhs_shift` from `lhs`.
+fn map_sub_w_scale<N>(
+    lhs: &mut BTreeMap<usize, N>,
+    rhs: &BTreeMap<usize, N>,
+    rhs_scale: N,
+    rhs_shift: usize,
+) where
     N: Copy + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
 {
-    for (rdeg, &rcoeff) in rhs.iter() {
-        match lhs.get_mut(rdeg) {
+    for (&rdeg, &rcoeff) in rhs.iter() {
+        match lhs.get_mut(&(rdeg + rhs_shift)) {
             None => {
-                lhs.insert(*rdeg, -rcoeff * rhs_scale);
+                lhs.insert(rdeg + rhs_shift, -rcoeff * rhs_scale);
             }
             Some(lcoeff) => {
                 *lcoeff -= rcoeff * rhs_scale;
@@ -541,11 +546,11 @@ where
         };
 
         let mut remainder = self.terms.clone();
-        let offset = self_degree - rhs_deg;
         let mut div = SparsePolynomial::from(Vec::new());
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
+            let offset = self_degree - rhs_deg;
+            map_sub_w_scale(&mut remainder, &rhs.terms, scale, offset);
             div.add_term(scale, offset);
             match first_term(&remainder) {
                 Term::ZeroTerm => {
@@ -599,7 +604,7 @@ where
         let mut remainder = self.terms;
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
+            map_sub_w_scale(&mut remainder, &rhs.terms, scale, self_degree - rhs_deg);
             match first_term(&remainder) {
                 Term::ZeroTerm => {
                     break;
@@ -648,7 +653,7 @@ where
         };
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut self.terms, &rhs.terms, scale);
+            map_sub_w_scale(&mut self.terms, &rhs.terms, scale, self_degree - rhs_deg);
             match first_term(&self.terms) {
                 Term::ZeroTerm => {
                     break;
-- 
2.43.0


From e50a084bd0f02db9d6397ab80fa5fd1a04f20639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:11 +0000
Subject: [PATCH 04/23] fix: polynomial division loops forever or overwrites
 the quotient when dividing coefficients is inexact

---
 src/polynomial/polynomial.rs       |  9 ++++++---
 src/polynomial/sparsepolynomial.rs | 20 +++++++++++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 00ab455..3fd9c45 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -505,7 +505,8 @@ where
             let scale = coeff / rhs_first;
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             div[offset - self_degree] = scale;
-            match first_term(&remainder) {
+            // The term at self_degree is done with, even if dividing coefficients was inexact.
+            match first_term(&remainder[remainder.len() - self_degree..]) {
                 Term::ZeroTerm => break,
                 Term::Term(coeffx, degree) => {
                     coeff = coeffx;
@@ -555,7 +556,8 @@ where
 
         while self_degree >= rhs_deg {
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&remainder) {
+            // The term at self_degree is done with, even if dividing coefficients was inexact.
+            match first_term(&remainder[remainder.len() - self_degree..]) {
                 Term::ZeroTerm => break,
                 Term::Term(coeff, degree) => {
                     scale = coeff / rhs_first;
@@ -591,7 +593,8 @@ where
 
         while self_degree >= rhs_deg {
             vec_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
+            // The term at self_degree is done with, even if dividing coefficients was inexact.
+            match first_term(&self.terms[self.terms.len() - self_degree..]) {
                 Term::ZeroTerm => break,
                 Term::Term(coeff, degree) => {
                     scale = coeff / rhs_first;
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 769f5e6..c614c4c 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -104,6 +104,17 @@ fn first_term<N: Zero + Copy>(terms: &BTreeMap<usize, N>) -> Term<N> {
     }
 }
 
+/// Returns the non-zero term with the largest degree that is smaller than `degree`.
+fn first_term_below<N: Zero + Copy>(terms: &BTreeMap<usize, N>, degree: usize) -> Term<N> {
+    terms
+        .range(..degree)
+        .rev()
+        .find(|(_, coeff)| !coeff.is_zero())
+        .map_or(Term::ZeroTerm, |(&degree, &coeff)| {
+            Term::Term(coeff, degree)
+        })
+}
+
 impl<N: Zero + Copy> SizedPolynomial<N> for SparsePolynomial<N> {
     fn term_with_degree(&self, degree: usize) -> Term<N> {
         match self.terms.get(&degree) {
@@ -552,7 +563,8 @@ where
             let offset = self_degree - rhs_deg;
             map_sub_w_scale(&mut remainder, &rhs.terms, scale, offset);
             div.add_term(scale, offset);
-            match first_term(&remainder) {
+            // The term at self_degree is done with, even if dividing coefficients was inexact.
+            match first_term_below(&remainder, self_degree) {
                 Term::ZeroTerm => {
                     break;
                 }
@@ -605,7 +617,8 @@ where
 
         while self_degree >= rhs_deg {
             map_sub_w_scale(&mut remainder, &rhs.terms, scale, self_degree - rhs_deg);
-            match first_term(&remainder) {
+            // The term at self_degree is done with, even if dividing coefficients was inexact.
+            match first_term_below(&remainder, self_degree) {
                 Term::ZeroTerm => {
                     break;
                 }
@@ -654,7 +667,8 @@ where
 
         while self_degree >= rhs_deg {
             map_sub_w_scale(&mut self.terms, &rhs.terms, scale, self_degree - rhs_deg);
-            match first_term(&self.terms) {
+            // The term at self_degree is done with, even if dividing coefficients was inexact.
+            match first_term_below(&self.terms, self_degree) {
                 Term::ZeroTerm => {
                     break;
                 }
-- 
2.43.0


From 74b7e740554a7041bf85f8fe554a1fc11c4b88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:09 +0000
Subject: [PATCH 05/23] fix: shifting a Polynomial right panics when the shift
 cuts into its stored leading zeros

---
 src/polynomial/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 3fd9c45..efd5e66 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -927,12 +927,12 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
             self << -rhs
         } else {
             let rhs = rhs as usize;
-            let index = first_nonzero_index(&self.terms);
             Polynomial {
                 terms: if rhs > self.terms.len() {
                     vec![]
                 } else {
-                    self.terms[index..self.terms.len() - rhs].to_vec()
+                    let terms = &self.terms[..self.terms.len() - rhs];
+                    terms[first_nonzero_index(terms)..].to_vec()
                 },
             }
         }
-- 
2.43.0


From 4070f202f63ac70baf80fe6b6a3f39e6684f458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:32 +0000
Subject: [PATCH 06/23] fix: displaying a trailing term panics when its
 coefficient is the smallest value of its type

---
 src/numerics.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index a67744d..9118ce3 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -1,3 +1,5 @@
+use core::fmt::Display;
+
 use num::{One, Zero};
 
 pub trait IsNegativeOne {
@@ -43,23 +45,38 @@ is_neg_one!(f32);
 is_neg_one!(f64);
 
 pub trait Abs {
-    fn abs(self) -> Self;
+    /// The type of the absolute value, which can represent the absolute value of any `Self`.
+    type Output: Display + One + PartialEq;
+    fn abs(self) -> Self::Output;
 }
 
 macro_rules! abs_u {
     ($U:ty) => {
         impl Abs for $U {
-            fn abs(self) -> Self {
+            type Output = $U;
+            fn abs(self) -> Self::Output {
                 self
             }
         }
     };
 }
 
+macro_rules! abs_i {
+    ($T:ty, $U:ty) => {
+        impl Abs for $T {
+            type Output = $U;
+            fn abs(self) -> Self::Output {
+                self.unsigned_abs()
+            }
+        }
+    };
+}
+
 macro_rules! abs {
     ($U:ty) => {
         impl Abs for $U {
-            fn abs(self) -> Self {
+            type Output = $U;
+            fn abs(self) -> Self::Output {
                 self.abs()
             }
         }
@@ -72,12 +89,12 @@ abs_u!(u32);
 abs_u!(u64);
 abs_u!(u128);
 abs_u!(usize);
-abs!(i8);
-abs!(i16);
-abs!(i32);
-abs!(i64);
-abs!(i128);
-abs!(isize);
+abs_i!(i8, u8);
+abs_i!(i16, u16);
+abs_i!(i32, u32);
+abs_i!(i64, u64);
+abs_i!(i128, u128);
+abs_i!(isize, usize);
 abs!(f32);
 abs!(f64);
 
-- 
2.43.0


From 51f605830e880b4690fe2a9801d2a3e6a705c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:33 +0000
Subject: [PATCH 07/23] fix: raising to a power truncates exponents which do
 not fit in 32 bits

---
 src/numerics.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 9118ce3..181530a 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -106,7 +106,7 @@ macro_rules! pow_u {
     ($T:ty) => {
         impl PowUsize for $T {
             fn upow(self, exp: usize) -> Self {
-                self.pow(exp as u32)
+                num::pow(self, exp)
             }
         }
     };
@@ -127,13 +127,21 @@ pow_u!(isize);
 
 impl PowUsize for f32 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        if exp <= i32::MAX as usize {
+            self.powi(exp as i32)
+        } else {
+            num::pow(self, exp)
+        }
     }
 }
 
 impl PowUsize for f64 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        if exp <= i32::MAX as usize {
+            self.powi(exp as i32)
+        } else {
+            num::pow(self, exp)
+        }
     }
 }
 
-- 
2.43.0


From f126d570337213130389120ad581ca80641655f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:36 +0000
Subject: [PATCH 08/23] fix: evaluating stored zero terms overflows or gives
 NaN when the power of the point is not representable

---
 src/polynomial/monomial.rs         | 8 ++++++--
 src/polynomial/sparsepolynomial.rs | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index 1ba7dd6..ae1493d 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -163,7 +163,7 @@ where
 
 impl<N> Evaluable<N> for Monomial<N>
 where
-    N: PowUsize + Mul<Output = N> + Copy,
+    N: Zero + PowUsize + Mul<Output = N> + Copy,
 {
     /// Returns the value of the `Monomial` at the given point.
     ///
@@ -176,7 +176,11 @@ where
     /// assert_eq!(1, Monomial::new(1, 0).eval(0));
     /// ```
     fn eval(&self, point: N) -> N {
-        self.coefficient * point.upow(self.deg)
+        if self.coefficient.is_zero() {
+            N::zero()
+        } else {
+            self.coefficient * point.upow(self.deg)
+        }
     }
 }
 
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index c614c4c..95c628a 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -390,7 +390,9 @@ where
     fn eval(&self, point: N) -> N {
         let mut sum = N::zero();
         for (&degree, &val) in self.terms.iter() {
-            sum += val * point.upow(degree);
+            if !val.is_zero() {
+                sum += val * point.upow(degree);
+            }
         }
         sum
     }
-- 
2.43.0


From 651fa86b712d93456149d80f2d27230186031f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:38 +0000
Subject: [PATCH 09/23] fix: Polynomial derivative panics when the degree is
 the largest value N can represent

---
 src/polynomial/polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index efd5e66..b70f963 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -383,8 +383,6 @@ where
     /// Will panic if `N` can not losslessly encode the numbers from 0 to the degree of `self`.
     fn derivative(&self) -> Polynomial<N> {
         let index = first_nonzero_index(&self.terms);
-        let mut degree = N::try_from_usize_cont(self.terms.len() - index)
-            .expect("Degree has no lossless representation in N.");
         let mut terms = {
             if let Some((_, terms)) = self.terms.split_at(index).1.split_last() {
                 terms.to_vec()
@@ -392,9 +390,11 @@ where
                 return Polynomial::zero();
             }
         };
+        let mut degree = N::try_from_usize_cont(terms.len())
+            .expect("Degree has no lossless representation in N.");
         for term in terms.iter_mut() {
-            degree -= N::one();
             *term *= degree;
+            degree -= N::one();
         }
         Polynomial { terms }
     }
-- 
2.43.0


From f728ef774cbdd353135b01d029bbaaebe456b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:40 +0000
Subject: [PATCH 10/23] fix: SparsePolynomial integral panics on a stored zero
 coefficient whose degree is not representable

---
 src/polynomial/sparsepolynomial.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 95c628a..2651d8f 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -458,12 +458,14 @@ where
     fn integral(&self) -> Integral<N, SparsePolynomial<N>> {
         let mut new_terms = BTreeMap::new();
         for (&deg, &coeff) in self.terms.iter() {
-            new_terms.insert(
-                deg + 1,
-                coeff
-                    / N::try_from_usize_exact(deg + 1)
-                        .expect("Degree has no lossless representation in N."),
-            );
+            if !coeff.is_zero() {
+                new_terms.insert(
+                    deg + 1,
+                    coeff
+                        / N::try_from_usize_exact(deg + 1)
+                            .expect("Degree has no lossless representation in N."),
+                );
+            }
         }
 
         Integral::new(SparsePolynomial::new(new_terms))
-- 
2.43.0


From fe7e0355b4111af67f31c72b778a2e23bf0b9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:42 +0000
Subject: [PATCH 11/23] fix: degree usize::MAX is treated as having a lossless
 float representation

---
 src/numerics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 181530a..1d0b531 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -461,7 +461,8 @@ pub enum ExactConversionError {
 impl TryFromUsizeExact for f32 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f32;
-        if conv as usize == num {
+        // usize::MAX rounds up to a float which saturates when converted back to usize.
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
@@ -472,7 +473,8 @@ impl TryFromUsizeExact for f32 {
 impl TryFromUsizeExact for f64 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f64;
-        if conv as usize == num {
+        // usize::MAX rounds up to a float which saturates when converted back to usize.
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
-- 
2.43.0


From a4aa8e43ece45f8b465886ef9a58af5f86304a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:58 +0000
Subject: [PATCH 12/23] fix: integer QuadraticTrinomial roots are truncated
 twice, and smallest first when a is negative

---
 src/polynomial/find_roots.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index eb68f42..f065090 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -47,16 +47,20 @@ where
 {
     let discriminant = discriminant_trinomial(a, b, c);
     let a = a * N::from(2);
-    let b = -b / a;
 
     if discriminant.is_zero() {
-        return Roots::TwoRealRoots(b, b);
+        let root = -b / a;
+        return Roots::TwoRealRoots(root, root);
     }
 
-    let sqrt = discriminant.abs_sqrt() / a;
+    let sqrt = discriminant.abs_sqrt();
     if discriminant.is_positive() {
-        Roots::TwoRealRoots(b + sqrt, b - sqrt)
+        // Divide only once, so that integer roots are not truncated away, and put the larger first.
+        let sqrt = if a.is_positive() { sqrt } else { -sqrt };
+        Roots::TwoRealRoots((sqrt - b) / a, (-sqrt - b) / a)
     } else {
+        let b = -b / a;
+        let sqrt = sqrt / a;
         Roots::TwoComplexRoots(Complex::new(b, sqrt), Complex::new(b, -sqrt))
     }
 }
-- 
2.43.0


From af6730df2b5557001cf0c0f9a512127048fb98e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:58 +0000
Subject: [PATCH 13/23] fix: factors of a QuadraticTrinomial with complex roots
 do not multiply back to it

---
 src/polynomial/trinomial.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index 782a373..ff45ba4 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -81,8 +81,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), -N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), -N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
-- 
2.43.0


From 60038c13d122e6f255d8e14aee487059eeb8c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:17 +0000
Subject: [PATCH 14/23] fix: roots of a QuadraticTrinomial with no degree 2
 term divide by zero

---
 src/polynomial/trinomial.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index ff45ba4..aebe9c7 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -74,9 +74,18 @@ where
     /// first, smallest second.
     pub fn roots(&self) -> Roots<N> {
         let [a, b, c] = self.coefficients;
-        trinomial_roots(a, b, c)
+        if a.is_zero() {
+            LinearBinomial::new([b, c]).root()
+        } else {
+            trinomial_roots(a, b, c)
+        }
     }
 
+    /// Return the factors of `QuadraticTrinomial`, which are the coefficient of the degree 2 term
+    /// and two linear terms.
+    ///
+    /// # Panics
+    /// Will panic if the coefficient of the degree 2 term is zero.
     pub fn complex_factors(&self) -> (N, LinearBinomial<Complex<N>>, LinearBinomial<Complex<N>>) {
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
@@ -101,7 +110,7 @@ where
                     Complex::new(-b, N::zero()),
                 ]),
             ),
-            _ => unreachable!(),
+            _ => panic!("A polynomial with no degree 2 term does not have two linear factors."),
         }
     }
 
-- 
2.43.0


From 4a0479fb48902739819f04cd344a00505f446295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:51 +0000
Subject: [PATCH 15/23] fix: cubic polynomials with three distinct real roots
 get wrong roots

---
 src/numerics.rs              | 25 +++++++++++++++++++++++++
 src/polynomial/find_roots.rs | 21 ++++++++++++++++++---
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 1d0b531..7c125d4 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -264,6 +264,31 @@ impl Cbrt for f64 {
     }
 }
 
+pub trait Trig {
+    fn cos(self) -> Self;
+    fn acos(self) -> Self;
+}
+
+impl Trig for f32 {
+    fn cos(self) -> Self {
+        self.cos()
+    }
+
+    fn acos(self) -> Self {
+        self.acos()
+    }
+}
+
+impl Trig for f64 {
+    fn cos(self) -> Self {
+        self.cos()
+    }
+
+    fn acos(self) -> Self {
+        self.acos()
+    }
+}
+
 pub trait CanNegate {
     fn can_negate() -> bool;
 }
diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index f065090..77e4635 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -4,7 +4,7 @@ use core::ops::{Add, AddAssign, Div, DivAssign, Mul, Neg, Sub, SubAssign};
 use num::{Complex, One, Zero};
 use roots::find_roots_sturm;
 
-use crate::numerics::{AbsSqrt, Cbrt, IsPositive};
+use crate::numerics::{AbsSqrt, Cbrt, IsPositive, Trig};
 use crate::polynomial::polynomial::{first_nonzero_index, first_term};
 use crate::{Degree, Evaluable, SizedPolynomial, Term};
 
@@ -75,6 +75,7 @@ where
         + Add<Output = N>
         + AbsSqrt
         + Cbrt
+        + Trig
         + IsPositive
         + Zero
         + One
@@ -86,8 +87,22 @@ where
     let p = -b / (N::from(3) * a);
     let q = cub(p) + (b * c - N::from(3) * a * d) / (N::from(6) * sqr(a));
     let r = c / (N::from(3) * a);
-    let k = (sqr(q) + cub(r - sqr(p))).abs_sqrt();
-    let x = (q + k).cbrt() + (q - k).cbrt() + p;
+    let k_sqr = sqr(q) + cub(r - sqr(p));
+    let x = if (-k_sqr).is_positive() {
+        // There are three distinct real roots. Find the one furthest from the other two.
+        let s = (sqr(p) - r).abs_sqrt();
+        let s = if q.is_positive() { s } else { -s };
+        let cos = q / cub(s);
+        let cos = if (cos - N::one()).is_positive() {
+            N::one()
+        } else {
+            cos
+        };
+        p + N::from(2) * s * (cos.acos() / N::from(3)).cos()
+    } else {
+        let k = k_sqr.abs_sqrt();
+        (q + k).cbrt() + (q - k).cbrt() + p
+    };
 
     let b = b / a + x;
     let c = c / a + b * x;
-- 
2.43.0


From 6c8ea150d3a6842dc4b6d6eac5657069b219ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:54 +0000
Subject: [PATCH 16/23] fix: subtracting a term from an unsigned polynomial
 underflows instead of returning an error

---
 src/numerics.rs                    | 9 ++++++++-
 src/polynomial/polynomial.rs       | 5 ++++-
 src/polynomial/sparsepolynomial.rs | 3 +++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 7c125d4..cf3c406 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -289,8 +289,11 @@ impl Trig for f64 {
     }
 }
 
-pub trait CanNegate {
+pub trait CanNegate: Sized {
     fn can_negate() -> bool;
+    /// Returns true if subtracting `rhs` from `self` does not give a negative number which
+    /// `Self` can not represent.
+    fn can_sub(&self, rhs: &Self) -> bool;
 }
 
 macro_rules! can_negate {
@@ -299,6 +302,10 @@ macro_rules! can_negate {
             fn can_negate() -> bool {
                 $C
             }
+
+            fn can_sub(&self, rhs: &Self) -> bool {
+                $C || self >= rhs
+            }
         }
     };
 }
diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index b70f963..15e33d6 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -249,7 +249,7 @@ where
 
     fn try_sub_term(&mut self, coeff: N, degree: usize) -> Result<(), TryAddError> {
         if self.terms.len() < degree + 1 {
-            if !N::can_negate() {
+            if !N::zero().can_sub(&coeff) {
                 return Err(TryAddError::CanNotNegate);
             }
             let added_zeros = degree + 1 - self.terms.len();
@@ -257,6 +257,9 @@ where
                 .splice(0..0, core::iter::repeat(N::zero()).take(added_zeros));
         }
         let index = self.terms.len() - degree - 1;
+        if !self.terms[index].can_sub(&coeff) {
+            return Err(TryAddError::CanNotNegate);
+        }
         self.terms[index] -= coeff;
 
         Ok(())
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 2651d8f..4c1a95c 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -197,6 +197,9 @@ where
                 self.terms.insert(degree, c);
             }
             Some(val) => {
+                if !val.can_sub(&coeff) {
+                    return Err(TryAddError::CanNotNegate);
+                }
                 *val -= coeff;
             }
         }
-- 
2.43.0


From c91dd822131b688148f85dd6322087798e328a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:07 +0000
Subject: [PATCH 17/23] fix: shifting by i32::MIN overflows when the shift is
 negated

---
 src/polynomial/monomial.rs         | 14 ++++++++++----
 src/polynomial/polynomial.rs       | 14 ++++++++++----
 src/polynomial/sparsepolynomial.rs | 14 ++++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index ae1493d..7ae18e6 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -507,7 +507,8 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 
     fn shl(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // -rhs overflows for i32::MIN.
+            (self >> -(rhs + 1)) >> 1
         } else {
             Monomial::new(self.coefficient, self.deg + (rhs as usize))
         }
@@ -517,7 +518,9 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Monomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // -rhs overflows for i32::MIN.
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.deg += rhs as usize;
         }
@@ -529,7 +532,8 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 
     fn shr(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // -rhs overflows for i32::MIN.
+            (self << -(rhs + 1)) << 1
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
@@ -544,7 +548,9 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Monomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // -rhs overflows for i32::MIN.
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 15e33d6..4491bfe 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -902,7 +902,8 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 
     fn shl(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // -rhs overflows for i32::MIN.
+            (self >> -(rhs + 1)) >> 1
         } else {
             let index = first_nonzero_index(&self.terms);
             let mut terms = self.terms[index..].to_vec();
@@ -915,7 +916,9 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Polynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // -rhs overflows for i32::MIN.
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.terms.extend(vec![N::zero(); rhs as usize]);
         }
@@ -927,7 +930,8 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 
     fn shr(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // -rhs overflows for i32::MIN.
+            (self << -(rhs + 1)) << 1
         } else {
             let rhs = rhs as usize;
             Polynomial {
@@ -945,7 +949,9 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Polynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // -rhs overflows for i32::MIN.
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.terms.len() {
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 4c1a95c..2238062 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -929,7 +929,8 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 
     fn shl(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // -rhs overflows for i32::MIN.
+            (self >> -(rhs + 1)) >> 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -944,7 +945,9 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShlAssign<i32> for SparsePolynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // -rhs overflows for i32::MIN.
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -961,7 +964,8 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 
     fn shr(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // -rhs overflows for i32::MIN.
+            (self << -(rhs + 1)) << 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -978,7 +982,9 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShrAssign<i32> for SparsePolynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // -rhs overflows for i32::MIN.
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
-- 
2.43.0


From 42218dbd737e346d2d1b389ca9feb44a62a5e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:37 +0000
Subject: [PATCH 18/23] fix: poly_mul! does not compile outside of the crate
 and ignores most of its arguments

---
 src/polynomial/poly_math.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/polynomial/poly_math.rs b/src/polynomial/poly_math.rs
index 99d352f..6eed651 100644
--- a/src/polynomial/poly_math.rs
+++ b/src/polynomial/poly_math.rs
@@ -61,30 +61,34 @@ where
 #[macro_export]
 macro_rules! poly_mul {
     ($lhs:expr, $rhs:expr) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::mul_poly;
+        use $crate::{Polynomial, SizedPolynomial};
+        use $crate::poly_math::mul_poly_vec;
         let mut sink = Polynomial::zero();
-        mul_poly_vec($lhs.ordered_term_iter(), &$rhs.ordered_term_iter().collect(), &mut sink);
+        let rhs_terms: Vec<_> = $rhs.ordered_term_iter().collect();
+        // This will never error.
+        let _ = mul_poly_vec($lhs.ordered_term_iter(), &rhs_terms, &mut sink);
         sink
     }};
 
+    // sink *= lhs
     ($sink:expr; $lhs:expr) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::{mul_poly, mul_poly_vec};
-        let sink_terms = $sink.ordered_term_iter().collect();
+        use $crate::SizedPolynomial;
+        use $crate::poly_math::mul_poly_vec;
+        let sink_terms: Vec<_> = $sink.ordered_term_iter().collect();
         $sink.set_to_zero();
-        mul_poly_vec($lhs.ordered_term_iter(), sink_terms, &mut $sink)
+        mul_poly_vec($lhs.ordered_term_iter(), &sink_terms, &mut $sink)
     }};
 
     ($lhs:expr, $rhs:expr $(,$x:expr )+) => {{
         poly_mul!(poly_mul!($lhs, $rhs) $(,$x)*)
     }};
 
-    ($sink:expr; $lhs:expr, $(,$x:expr )*) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::mul_poly;
-        poly_mul!($sink; $lhs);
-        poly_mul!($sink; $($x),*)
+    // sink *= lhs * x_0 * x_1 * ... * x_z
+    ($sink:expr; $lhs:expr $(,$x:expr )+) => {{
+        match poly_mul!($sink; $lhs) {
+            Ok(()) => poly_mul!($sink; $($x),*),
+            err => err,
+        }
     }};
 }
 
-- 
2.43.0


From f8610e2dbd1532717793266bd723186de3439a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 19/23] fix: an unparseable degree is reported as an
 unparseable coefficient

---
 src/terms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terms.rs b/src/terms.rs
index 871c3a2..d471d2c 100644
--- a/src/terms.rs
+++ b/src/terms.rs
@@ -99,7 +99,7 @@ where
             if let Ok(degree) = usize::from_str(&str) {
                 Ok(Term::new(coeff, degree))
             } else {
-                Err(TermFromStringError::CoeffCouldNotBeParsed)
+                Err(TermFromStringError::DegreeCouldNotBeParsed)
             }
         } else {
             let str: String = num_vec.iter().collect();
-- 
2.43.0


From 08da5d9df89350eaf70ef3da055f3e06e050d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:50 +0000
Subject: [PATCH 20/23] fix: a root is replaced by another root when rounding
 it to an integer

---
 src/polynomial/find_roots.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 77e4635..b925ce2 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -272,8 +272,9 @@ pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) ->
 
         for root in temp_roots {
             let root = {
+                // A nearby integer can be the exact root, but one further away is another root.
                 let x = root.round();
-                if poly.eval(x).abs() < poly.eval(root).abs() {
+                if (x - root).abs() < 1e-6 && poly.eval(x).abs() < poly.eval(root).abs() {
                     x
                 } else {
                     root
-- 
2.43.0


From b8ee0b72c994944db34df243503e40776e7daf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:42 +0000
Subject: [PATCH 21/23] fix: the search for roots did not end when dividing by
 a root overflowed

---
 src/polynomial/find_roots.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index b925ce2..f07e7c9 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -158,7 +158,8 @@ fn div<
         values[loc] -= rhs_first * scale;
         values[loc + 1] += root * scale;
         div[offset - self_degree] = scale;
-        match first_term(&values) {
+        // The term at self_degree is done with, even if it overflowed.
+        match first_term(&values[loc + 1..]) {
             Term::ZeroTerm => break,
             Term::Term(coeffx, degree) => {
                 coeff = coeffx;
@@ -241,10 +242,11 @@ pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) ->
     let mut values = vec![0f64; degree + 1];
     let mut nvalues = vec![0f64; degree + 1];
 
-    nvalues[0] = leading;
+    // Dividing by the roots must not overflow because the leading coefficient is large.
+    nvalues[0] = 1.;
     for (val, val_deg) in vals[1..].iter() {
         values[degree - val_deg] = *val / leading;
-        nvalues[degree - val_deg] = *val;
+        nvalues[degree - val_deg] = *val / leading;
     }
 
     let mut roots = vec![];
@@ -252,6 +254,7 @@ pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) ->
         let temp_roots: Vec<f64> = find_roots_sturm(&values[1..], &mut 1e-8f64)
             .into_iter()
             .filter_map(Result::ok)
+            .filter(|root| root.is_finite())
             .collect();
 
         if temp_roots.is_empty() {
-- 
2.43.0


From c58ac1fb1a619a56d4a590dcfdeacbe86db17fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:39 +0000
Subject: [PATCH 22/23] fix: remainders overflowed on a quotient of terms below
 the divisor, which is not needed

---
 src/polynomial/polynomial.rs       | 18 ++++++++++--------
 src/polynomial/sparsepolynomial.rs | 27 +++++++++++++++------------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4491bfe..83df50e 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -545,25 +545,26 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
+        let (mut coeff, mut self_degree) = match first_term(&self.terms) {
             Term::ZeroTerm => return self.clone(),
             Term::Term(coeff, degree) => {
                 if degree < rhs_deg {
                     return self.clone();
                 }
-                (coeff / rhs_first, degree)
+                (coeff, degree)
             }
         };
 
         let mut remainder = self.terms.clone();
 
         while self_degree >= rhs_deg {
+            let scale = coeff / rhs_first;
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             // The term at self_degree is done with, even if dividing coefficients was inexact.
             match first_term(&remainder[remainder.len() - self_degree..]) {
                 Term::ZeroTerm => break,
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
+                Term::Term(coeffx, degree) => {
+                    coeff = coeffx;
                     self_degree = degree;
                 }
             }
@@ -584,23 +585,24 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
+        let (mut coeff, mut self_degree) = match first_term(&self.terms) {
             Term::ZeroTerm => return,
             Term::Term(coeff, degree) => {
                 if degree < rhs_deg {
                     return;
                 }
-                (coeff / rhs_first, degree)
+                (coeff, degree)
             }
         };
 
         while self_degree >= rhs_deg {
+            let scale = coeff / rhs_first;
             vec_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
             // The term at self_degree is done with, even if dividing coefficients was inexact.
             match first_term(&self.terms[self.terms.len() - self_degree..]) {
                 Term::ZeroTerm => break,
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
+                Term::Term(coeffx, degree) => {
+                    coeff = coeffx;
                     self_degree = degree;
                 }
             }
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 2238062..a80a387 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -545,7 +545,7 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
+        let (mut coeff, mut self_degree) = match first_term(&self.terms) {
             Term::ZeroTerm => {
                 return (
                     SparsePolynomial::zero(),
@@ -559,7 +559,7 @@ where
                         SparsePolynomial::new(self.terms.clone()),
                     );
                 }
-                (term / rhs_first, degree)
+                (term, degree)
             }
         };
 
@@ -567,6 +567,7 @@ where
         let mut div = SparsePolynomial::from(Vec::new());
 
         while self_degree >= rhs_deg {
+            let scale = coeff / rhs_first;
             let offset = self_degree - rhs_deg;
             map_sub_w_scale(&mut remainder, &rhs.terms, scale, offset);
             div.add_term(scale, offset);
@@ -575,8 +576,8 @@ where
                 Term::ZeroTerm => {
                     break;
                 }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
+                Term::Term(coeffx, degree) => {
+                    coeff = coeffx;
                     self_degree = degree;
                 }
             }
@@ -608,7 +609,7 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
+        let (mut coeff, mut self_degree) = match first_term(&self.terms) {
             Term::ZeroTerm => {
                 return SparsePolynomial::new(self.terms.clone());
             }
@@ -616,21 +617,22 @@ where
                 if degree < rhs_deg {
                     return SparsePolynomial::new(self.terms.clone());
                 }
-                (term / rhs_first, degree)
+                (term, degree)
             }
         };
 
         let mut remainder = self.terms;
 
         while self_degree >= rhs_deg {
+            let scale = coeff / rhs_first;
             map_sub_w_scale(&mut remainder, &rhs.terms, scale, self_degree - rhs_deg);
             // The term at self_degree is done with, even if dividing coefficients was inexact.
             match first_term_below(&remainder, self_degree) {
                 Term::ZeroTerm => {
                     break;
                 }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
+                Term::Term(coeffx, degree) => {
+                    coeff = coeffx;
                     self_degree = degree;
                 }
             }
@@ -660,7 +662,7 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
+        let (mut coeff, mut self_degree) = match first_term(&self.terms) {
             Term::ZeroTerm => {
                 return;
             }
@@ -668,19 +670,20 @@ where
                 if degree < rhs_deg {
                     return;
                 }
-                (coeff / rhs_first, degree)
+                (coeff, degree)
             }
         };
 
         while self_degree >= rhs_deg {
+            let scale = coeff / rhs_first;
             map_sub_w_scale(&mut self.terms, &rhs.terms, scale, self_degree - rhs_deg);
             // The term at self_degree is done with, even if dividing coefficients was inexact.
             match first_term_below(&self.terms, self_degree) {
                 Term::ZeroTerm => {
                     break;
                 }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
+                Term::Term(coeffx, degree) => {
+                    coeff = coeffx;
                     self_degree = degree;
                 }
             }
-- 
2.43.0


From 33b60e2552674f525d588f41433f840d9f105e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:34 +0000
Subject: [PATCH 23/23] fix: dividing sparse integer polynomials negated terms
 of the divisor for a zero quotient

---
 src/polynomial/sparsepolynomial.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index a80a387..ea7c11b 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -54,8 +54,12 @@ fn map_sub_w_scale<N>(
     rhs_scale: N,
     rhs_shift: usize,
 ) where
-    N: Copy + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
+    N: Copy + Zero + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
 {
+    // Nothing is subtracted, so that nothing has to be negated.
+    if rhs_scale.is_zero() {
+        return;
+    }
     for (&rdeg, &rcoeff) in rhs.iter() {
         match lhs.get_mut(&(rdeg + rhs_shift)) {
             None => {
-- 
2.43.0

