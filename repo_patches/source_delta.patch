From 46cba096ff4a5ed7e794e9f2ec2ee64eaf451abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:11 +0000
Subject: [PATCH 01/10] fix: return zero when reading the blade index just past
 a dense multivector

The bounds check in the dense storage was off by one, so reading index
2^dim panicked while larger indices returned zero.
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 4773bb6..23754d6 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -41,7 +41,7 @@ where
 
     #[inline(always)]
     fn get_by_idx(&self, idx: IndexType) -> T {
-        if idx > self.array.len() {
+        if idx >= self.array.len() {
             return T::zero();
         }
         self.array[idx].clone()
-- 
2.43.0


From 14c7827e0675e1da301fb2ce7996cea6e112a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:11 +0000
Subject: [PATCH 02/10] fix: do not reject invertible matrices with a vanishing
 intermediate diagonal

A zero on the diagonal below the current pivot row does not make the matrix
singular: the pivot search of the following step may still swap in a non-zero
row. Singular matrices are already detected by that search.
---
 src/fftrepr/matrix.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index 96cb73d..feefaf4 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -66,9 +66,6 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
                     return None;
                 }
             }
-            if w[(j, j)].is_zero() {
-                return None;
-            }
         }
     }
     // To diagonal
-- 
2.43.0


From 0a62eac7cc0f609f1d6cb1057d09e276ffa66b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:48 +0000
Subject: [PATCH 03/10] fix: keep PGA points at the origin finite

pga_point normalised by the norm of the Euclidean coordinates only, which is
zero at the origin, so the resulting multivector had an infinite coefficient.
---
 src/pga.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pga.rs b/src/pga.rs
index c2c1e79..5d83bcb 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -23,8 +23,9 @@ where
 {
     fn pga_point(coords: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
         let mut coords: Vec<f64> = coords.into_iter().collect();
-        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         coords.push(f64::one());
+        // The homogeneous coordinate is included, so that the origin has a non-zero magnitude as well.
+        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         let p = Self::from_vector(coords)?.dual();
         Ok(p / mag)
     }
-- 
2.43.0


From d0d6be7b2147af275d3d6591fbb5af41b5ab9f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:48 +0000
Subject: [PATCH 04/10] fix: reject algebras whose blade count does not fit the
 index type

With as many generators as the index type has bits, 1 << dim overflows in
every storage, so such a declaration has to be a compile error.
---
 src/algebra.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algebra.rs b/src/algebra.rs
index f372cef..b3df5fa 100644
--- a/src/algebra.rs
+++ b/src/algebra.rs
@@ -394,8 +394,9 @@ macro_rules! impl_algebra_base {
             $crate::axis_name_func!([$($signature),+], [$($axes),*]);
         }
         impl $crate::algebra::ClBasis<{$crate::count_items!($($signature),+)}> for $name {}
-        // Limit the algebra size to fit the IndexType
-        $crate::algebra::const_assert!({$crate::count_items!($($signature),+)} <= 8*size_of::<$crate::types::IndexType>());
+        // Limit the algebra size to fit the IndexType.
+        // The amount of blades (1 << dim) has to be representable as well.
+        $crate::algebra::const_assert!({$crate::count_items!($($signature),+)} < 8*size_of::<$crate::types::IndexType>());
         // Optional traits implementations
         $crate::impl_split_signature!($name, $($signature),+);
         $crate::impl_non_degenerate!($name, $($signature),+);
-- 
2.43.0


From 4158074a3acac87e7c4c645d3793ab799bf6ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:48 +0000
Subject: [PATCH 05/10] fix: report a destination of the wrong size from
 iclifft_into

A destination shorter than the matrix panicked, a longer one had its tail
multiplied by powers of -i.
---
 src/clifft/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/clifft/mod.rs b/src/clifft/mod.rs
index 219671c..2db9481 100644
--- a/src/clifft/mod.rs
+++ b/src/clifft/mod.rs
@@ -298,6 +298,9 @@ pub fn iclifft_into(
     matrix: ArrayView2<Complex64>,
     mut dest: ArrayViewMut1<Complex64>,
 ) -> Result<(), ClError> {
+    if dest.len() != matrix.len() {
+        return Err(ClError::InvalidShape);
+    }
     iclifft_nn_into(matrix, dest.view_mut())?;
 
     // Multiply imaginary basis vectors of Cl(m, m) by -i to produce Cl(2m) multivector
-- 
2.43.0


From 618d1f6edc69a3ee04a7cd7e77c05c2b5f69d09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:48 +0000
Subject: [PATCH 06/10] fix: drop coefficients zeroed by a filter_inplace
 predicate

The predicate gets the coefficients mutably. Storing a zero left an entry in
the sparse storage, which made coeff_count report too many coefficients.
---
 src/mv_sparse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mv_sparse.rs b/src/mv_sparse.rs
index 9374c66..af36c92 100644
--- a/src/mv_sparse.rs
+++ b/src/mv_sparse.rs
@@ -45,11 +45,14 @@ where
     }
 
     /// Drop all the coefficients for which the predicate is false.
-    pub fn filter_inplace<F>(&mut self, f: F)
+    pub fn filter_inplace<F>(&mut self, mut f: F)
     where
         F: FnMut(&IndexType, &mut T) -> bool,
     {
-        self.coeffs.coeffs.retain(f);
+        // The predicate can modify the coefficients, and zeros must not stay in the storage.
+        self.coeffs
+            .coeffs
+            .retain(|idx, c| f(idx, c) && !c.is_zero());
     }
 
     /// Consume self and return it without all the coefficients for which the predicate is false.
-- 
2.43.0


From 5426130759a5a2fb76ff1a95589687c85c840807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:48 +0000
Subject: [PATCH 07/10] fix: validate the amount of coordinates in
 pga_translation

Too few coordinates were accepted, and one too many silently ended up as a
null vector term.
---
 src/pga.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pga.rs b/src/pga.rs
index 5d83bcb..1e455cf 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -38,6 +38,10 @@ where
     }
 
     fn pga_translation(direction: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
+        let direction: Vec<f64> = direction.into_iter().collect();
+        if direction.len() != SPC_DIM {
+            return Err(ClError::InvalidShape);
+        }
         let e_idx = A::proj_mask();
         let bivec = Self::from_indexed_iter(
             direction
-- 
2.43.0


From 0cf0f94111167a3859675c212c18e8a936ddbbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:22 +0000
Subject: [PATCH 08/10] fix: compare grades at full width in sparse
 grade_enumerate and GradeIter

---
 src/coeff_storage.rs | 2 +-
 src/index_utils.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 23754d6..c6efd72 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -174,7 +174,7 @@ where
         T: 'a,
     {
         self.coeff_enumerate()
-            .filter(move |(idx, _)| idx.count_ones() == (grade as u32))
+            .filter(move |(idx, _)| idx.count_ones() as usize == grade)
     }
 
     fn add(&self, rhs: &Self) -> Self {
diff --git a/src/index_utils.rs b/src/index_utils.rs
index af571f6..0fb141d 100644
--- a/src/index_utils.rs
+++ b/src/index_utils.rs
@@ -24,7 +24,7 @@ impl std::iter::Iterator for GradeIter {
     type Item = IndexType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + 1 < self.weight as isize {
+        if self.pos < -1 || ((self.pos + 1) as usize) < self.weight {
             return None;
         }
 
-- 
2.43.0


From d5f4f5dd65f34bc4c3460d26bcdbec826eec3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:00 +0000
Subject: [PATCH 09/10] fix: scale exp by a submultiplicative norm of its
 argument

The magnitude vanishes for some large elements of indefinite and degenerate
algebras, so the powers in the series could grow faster than the factorials
and the truncated sum was wrong.
---
 src/fftrepr/mod.rs | 14 +++++++-------
 src/lib.rs         | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/fftrepr/mod.rs b/src/fftrepr/mod.rs
index 25f0fb5..3d3937c 100644
--- a/src/fftrepr/mod.rs
+++ b/src/fftrepr/mod.rs
@@ -106,14 +106,14 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
-        // so that the series doesn't blow up
-        let mut max_c: f64 = 1.0;
-        for (_, ci) in self.arr.indexed_iter() {
-            max_c = f64::max(ci.norm(), max_c);
+        // Ensure that the norms of the entries add up to at most 1.
+        // Then it's true for all the powers too (in any signature, unlike with the magnitude),
+        // so the series doesn't blow up
+        let mut norm_sum: f64 = 0.0;
+        for ci in self.arr.iter() {
+            norm_sum += ci.norm();
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
-        max_c = max_c.ceil();
+        let max_c = norm_sum.max(1.0).ceil();
         let int_pow = max_c as usize;
         let normalized_self = self / max_c;
 
diff --git a/src/lib.rs b/src/lib.rs
index a8a5840..2b15e35 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -302,14 +302,14 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
-        // so that the series doesn't blow up
-        let mut max_c: f64 = 1.0;
+        // Ensure that the norms of the coefficients add up to at most 1.
+        // Then it's true for all the powers too (in any signature, unlike with the magnitude),
+        // so the series doesn't blow up
+        let mut norm_sum: f64 = 0.0;
         for (_, ci) in self.coeff_enumerate() {
-            max_c = f64::max(ci.norm(), max_c);
+            norm_sum += ci.norm();
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
-        max_c = max_c.ceil();
+        let max_c = norm_sum.max(1.0).ceil();
         let int_pow = max_c as usize;
         let inv_max_c = T::from(1.0 / max_c);
         let normalized_mv = self * &inv_max_c;
-- 
2.43.0


From d60f3fb4d2ba9625ba3cf932368060f4ec58490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:36 +0000
Subject: [PATCH 10/10] fix: compute the sparse storage size at full width

The literal in `(1 << dim) as IndexType` was an i32, so a sparse multivector
of an algebra with 32 or more generators got a wrapped size and dropped every
coefficient set beyond it (and panicked in debug builds).
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index c6efd72..290ecd4 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -136,7 +136,7 @@ where
     fn new(dim: usize) -> Self {
         SparseStorage {
             dim,
-            size: (1 << dim) as IndexType,
+            size: 1 << dim,
             coeffs: HashMap::new(),
         }
     }
-- 
2.43.0

