From 58f18ee78c5ded1aec32d602df1d3585a6d3d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:39 +0000
Subject: [PATCH 01/16] fix: avoid overflow and underflow of the squared norm
 in Householder reflections

---
 src/householder.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/householder.rs b/src/householder.rs
index f1b51b2..d7918b4 100644
--- a/src/householder.rs
+++ b/src/householder.rs
@@ -9,7 +9,22 @@ use crate::reflection::Reflection;
 pub fn reflection_axis_mut<A: NdFloat, S: DataMut<Elem = A>>(
     col: &mut ArrayBase<S, Ix1>,
 ) -> Option<A> {
-    let reflection_norm_sq = col.dot(col);
+    let mut reflection_norm_sq = col.dot(col);
+    let mut scale = A::one();
+
+    // Scale by the largest component if the squared norms (up to 4 times as large once the
+    // reflection is added) overflow or underflow
+    if !(reflection_norm_sq * A::from(4.0f64).unwrap()).is_finite()
+        || reflection_norm_sq < A::min_positive_value() / A::epsilon()
+    {
+        let max = col.iter().fold(A::zero(), |a, b| a.max(b.abs()));
+        if max > A::zero() && max.is_finite() {
+            *col /= max;
+            scale = max;
+            reflection_norm_sq = col.dot(col);
+        }
+    }
+
     let reflection_norm = reflection_norm_sq.sqrt();
 
     let first = *col.get(0).unwrap();
@@ -21,7 +36,7 @@ pub fn reflection_axis_mut<A: NdFloat, S: DataMut<Elem = A>>(
 
     if !new_norm_sq.is_zero() {
         *col /= new_norm_sq.sqrt();
-        Some(-signed_norm)
+        Some(-signed_norm * scale)
     } else {
         None
     }
-- 
2.43.0


From bc3014b1af86bc51d8ed8e5be9d157f811999a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 02/16] fix: reject NaN pivots in the Cholesky decomposition

---
 src/cholesky.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cholesky.rs b/src/cholesky.rs
index f98091b..0c1ab87 100644
--- a/src/cholesky.rs
+++ b/src/cholesky.rs
@@ -66,7 +66,7 @@ where
                 d = *self.at((j, j)) - d;
             }
 
-            if d <= A::zero() {
+            if d <= A::zero() || d.is_nan() {
                 return Err(LinalgError::NotPositiveDefinite);
             }
 
-- 
2.43.0


From c0a8d021c661a8934727443310129d6d865ed661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 03/16] fix: negate the left singular vector when the sign of a
 singular value is flipped

---
 src/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svd.rs b/src/svd.rs
index e2f6105..caab52a 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -215,7 +215,7 @@ fn svd<A: NdFloat, S: DataMut<Elem = A>>(
         if val.is_sign_negative() {
             diag[i] = -val;
             if let Some(u) = &mut u {
-                u.column_mut(i).mul_assign(-A::zero());
+                u.column_mut(i).mul_assign(-A::one());
             }
         }
     }
-- 
2.43.0


From f34721e5b46728a040c0e5a057dd213f3a22f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 04/16] fix: compute accurate singular vectors of 2x2
 triangular subproblems

---
 src/svd.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index caab52a..a88b9b8 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -378,34 +378,33 @@ fn compute_2x2_uptrig_svd<A: NdFloat>(
     let two = A::from(2.0).unwrap();
     let denom = (m11 + m22).hypot(m12) + (m11 - m22).hypot(m12);
 
-    // NOTE: v1 is the singular value that is the closest to m22.
-    // This prevents cancellation issues when constructing the vector `csv` below. If we chose
-    // otherwise, we would have v1 ~= m11 when m12 is small. This would cause catastrophic
-    // cancellation on `v1 * v1 - m11 * m11` below.
-    let mut v1 = m11 * m22 * two / denom;
-    let mut v2 = denom / two;
+    // v1 is the smaller singular value (with the sign of the determinant), v2 is the larger one.
+    let v1 = m11 * m22 * two / denom;
+    let v2 = denom / two;
 
     let mut u = None;
     let mut v_t = None;
 
     if compute_v || compute_u {
-        let cv = m11 * m12;
-        let sv = v1 * v1 - m11 * m11;
-        let (csv, sgn_v) = GivensRotation::new(cv, sv);
-        v1 *= sgn_v;
-        v2 *= sgn_v;
-        if compute_v {
-            v_t = Some(csv.clone());
-        }
+        // The right-singular vector of v1 is orthogonal to both rows of `M^T * M - v1^2 * I`. Use
+        // the row with the larger norm, since the other one may be lost to cancellation.
+        let (cv, sv) = if m11.abs() >= m12.hypot(m22) {
+            (m11 * m12, (v1 - m11) * (v1 + m11))
+        } else {
+            ((v1 - m22) * (v1 + m22) - m12 * m12, m11 * m12)
+        };
+        let (csv, _) = GivensRotation::new(cv, sv);
 
-        let cu = (m11 * csv.c() + m12 * csv.s()) / v1;
-        let su = (m22 * csv.s()) / v1;
-        let (csu, sgn_u) = GivensRotation::new(cu, su);
-        v1 *= sgn_u;
-        v2 *= sgn_u;
         if compute_u {
+            // Obtained from `M * v = v2 * u`, because v1 may be arbitrarily small.
+            let cu = m22 * csv.c() / v2;
+            let su = (m11 * csv.s() - m12 * csv.c()) / v2;
+            let (csu, _) = GivensRotation::new(cu, su);
             u = Some(csu);
         }
+        if compute_v {
+            v_t = Some(csv);
+        }
     }
 
     (v1, v2, u, v_t)
-- 
2.43.0


From dc6da856ceeb2774a7f479fdd019e82ea5679ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 05/16] fix: keep Givens rotations orthonormal for subnormal
 components

---
 src/givens.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/givens.rs b/src/givens.rs
index 68944a2..12795d1 100644
--- a/src/givens.rs
+++ b/src/givens.rs
@@ -18,6 +18,15 @@ impl<A: NdFloat> GivensRotation<A> {
         // Not equivalent to nalgebra impl
         if !y.is_zero() {
             let r = x.hypot(y);
+            if r < A::min_positive_value() / A::epsilon() {
+                // Subnormal components must be scaled to obtain a rotation with unit norm
+                let scale = x.abs().max(y.abs());
+                let (x, y) = (x / scale, y / scale);
+                let norm = x.hypot(y);
+                let c = x / norm;
+                let s = -y / norm;
+                return Some((Self { c, s }, r));
+            }
             let c = x / r;
             let s = -y / r;
             Some((Self { c, s }, r))
-- 
2.43.0


From 8e577b6277d662dad90846310e8cc32186ff81e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:19 +0000
Subject: [PATCH 06/16] fix: avoid underflow to 0/0 in the Wilkinson shift

---
 src/eigh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index d99f0ea..f244683 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -178,9 +178,9 @@ fn delimit_subproblem<A: NdFloat>(
 ///     tmn  tnn
 pub(crate) fn wilkinson_shift<A: NdFloat>(tmm: A, tnn: A, tmn: A) -> A {
     if !tmn.is_zero() {
-        let tmn_sq = tmn * tmn;
-        let d = (tmm - tnn) * A::from(0.5).unwrap();
-        tnn - tmn_sq / (d + d.signum() * (d * d + tmn_sq).sqrt())
+        // Divide by `tmn` so that the squares cannot underflow
+        let d = (tmm - tnn) * A::from(0.5).unwrap() / tmn;
+        tnn - tmn / (d + d.signum() * d.hypot(A::one()))
     } else {
         tnn
     }
-- 
2.43.0


From 967d8fc2bf087be9bf5259177ff68bc0bf8fe807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 07/16] fix: compute accurate eigenvectors of 2x2 symmetric
 subproblems

---
 src/eigh.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index f244683..f1ac5d2 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -108,13 +108,18 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 diag[start + 1],
             )
             .unwrap(); // XXX not sure when this unwrap panics
-            let basis = (eigvals.0 - diag[start + 1], off_diag[start]);
+            // Choose the representation of the first eigenvector that does not suffer cancellation
+            let basis = if diag[start] >= diag[start + 1] {
+                (eigvals.0 - diag[start + 1], off_diag[start])
+            } else {
+                (off_diag[start], eigvals.0 - diag[start])
+            };
 
             diag[start] = eigvals.0;
             diag[start + 1] = eigvals.1;
 
             if let (Some(q), Some((rot, _))) =
-                (&mut q_mat, GivensRotation::try_new(basis.0, basis.1, eps))
+                (&mut q_mat, GivensRotation::try_new(basis.0, basis.1, A::zero()))
             {
                 rot.rotate_rows(&mut q.slice_mut(s![.., start..start + 2]))
                     .unwrap();
-- 
2.43.0


From 8f642bc7c61cf2901b1a2603a1cec082db990fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 08/16] fix: terminate the symmetric QR iteration when the
 convergence bound underflows

---
 src/eigh.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index f1ac5d2..f64cdfd 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -97,7 +97,7 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 }
             }
 
-            if off_diag[m].abs() <= eps * (diag[m].abs() + diag[n].abs()) {
+            if off_diag[m].abs() <= negligible_bound(diag[m], diag[n], eps) {
                 end -= 1;
             }
         } else if subdim == 2 {
@@ -108,7 +108,7 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 diag[start + 1],
             )
             .unwrap(); // XXX not sure when this unwrap panics
-            // Choose the representation of the first eigenvector that does not suffer cancellation
+                       // Choose the representation of the first eigenvector that does not suffer cancellation
             let basis = if diag[start] >= diag[start + 1] {
                 (eigvals.0 - diag[start + 1], off_diag[start])
             } else {
@@ -118,9 +118,10 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
             diag[start] = eigvals.0;
             diag[start + 1] = eigvals.1;
 
-            if let (Some(q), Some((rot, _))) =
-                (&mut q_mat, GivensRotation::try_new(basis.0, basis.1, A::zero()))
-            {
+            if let (Some(q), Some((rot, _))) = (
+                &mut q_mat,
+                GivensRotation::try_new(basis.0, basis.1, A::zero()),
+            ) {
                 rot.rotate_rows(&mut q.slice_mut(s![.., start..start + 2]))
                     .unwrap();
             }
@@ -136,6 +137,18 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
     Ok((diag, q_mat))
 }
 
+/// Bound under which the off-diagonal element between two diagonal elements is treated as zero
+fn negligible_bound<A: NdFloat>(diag_m: A, diag_n: A, eps: A) -> A {
+    let bound = eps * (diag_m.abs() + diag_n.abs());
+    // Parts of the matrix that are much smaller than the rest may never reach the relative bound
+    // because of underflow. The matrix is scaled to have a maximum of 1, so `eps^2` is negligible.
+    if bound < eps * eps {
+        eps * eps
+    } else {
+        bound
+    }
+}
+
 fn delimit_subproblem<A: NdFloat>(
     diag: &Array1<A>,
     off_diag: &mut Array1<A>,
@@ -147,7 +160,7 @@ fn delimit_subproblem<A: NdFloat>(
     while n > 0 {
         let m = n - 1;
         unsafe {
-            if off_diag.at(m).abs() > eps * (diag.at(n).abs() + diag.at(m).abs()) {
+            if off_diag.at(m).abs() > negligible_bound(*diag.at(m), *diag.at(n), eps) {
                 break;
             }
         }
@@ -163,7 +176,7 @@ fn delimit_subproblem<A: NdFloat>(
         let m = new_start - 1;
         unsafe {
             if off_diag.at(m).is_zero()
-                || off_diag.at(m).abs() <= eps * (diag.at(new_start).abs() + diag.at(m).abs())
+                || off_diag.at(m).abs() <= negligible_bound(*diag.at(m), *diag.at(new_start), eps)
             {
                 *off_diag.atm(m) = A::zero();
                 break;
-- 
2.43.0


From 2061b5653c72ba868cbf4deb42dd04bbf29de14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 09/16] fix: terminate the singular value iteration on NaN
 elements

---
 src/svd.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/svd.rs b/src/svd.rs
index a88b9b8..6013a10 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -236,8 +236,11 @@ fn delimit_subproblem<A: NdFloat>(
     while n > 0 {
         let m = n - 1;
         unsafe {
+            let bound = eps * (diag.at(n).abs() + diag.at(m).abs());
+            // NaN elements never converge, so they are decoupled as well
             if off_diag.at(m).is_zero()
-                || off_diag.at(m).abs() <= eps * (diag.at(n).abs() + diag.at(m).abs())
+                || off_diag.at(m).abs() <= bound
+                || (off_diag.at(m).abs() + bound).is_nan()
             {
                 *off_diag.atm(m) = A::zero();
             } else if diag.at(m).abs() <= eps {
-- 
2.43.0


From 33b3c674dd6dac7d35080cdd4f130f8586fbe735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 10/16] fix: do not write through shared or borrowed storage in
 unchecked indexing

---
 src/index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 85fd73a..da061a0 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -38,7 +38,11 @@ impl<A, S: DataMut<Elem = A>, D: Dimension, I: NdIndex<D>> UncheckedIndexMut<I>
         {
             self.get_mut(index).unwrap()
         }
+        // Access through a view ensures that shared or borrowed storage is uniquely held first
         #[cfg(not(debug_assertions))]
-        self.uget_mut(index)
+        {
+            let ptr: *mut A = self.view_mut().uget_mut(index);
+            &mut *ptr
+        }
     }
 }
-- 
2.43.0


From d1c8aada5342ac2ae76eb03091ad33b6d7cff096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 11/16] fix: solve with the full Cholesky factorization when
 applying LOBPCG constraints

---
 src/lobpcg/algorithm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 9bdce9e..32424b4 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -70,6 +70,10 @@ fn apply_constraints<A: NdFloat>(
     let u = cholesky_yy
         .solve_triangular_into(gram_yv, UPLO::Lower)
         .unwrap();
+    let u = cholesky_yy
+        .t()
+        .solve_triangular_into(u, UPLO::Upper)
+        .unwrap();
 
     // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
     ndarray::linalg::general_mat_mul(-A::one(), &y, &u, A::one(), &mut v);
-- 
2.43.0


From c332660669e9ee86c018be192b4434960d88d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 12/16] fix: do not iterate past the eigenpairs orthogonal to
 the constraints

---
 src/lobpcg/eig.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/eig.rs b/src/lobpcg/eig.rs
index 2cc15e6..853fbc3 100644
--- a/src/lobpcg/eig.rs
+++ b/src/lobpcg/eig.rs
@@ -172,6 +172,14 @@ impl<A: NdFloat + Sum, R: Rng> TruncatedEig<A, R> {
     }
 }
 
+impl<A: NdFloat, R: Rng> TruncatedEig<A, R> {
+    /// Number of eigenpairs which are orthogonal to the constraints
+    fn remaining(&self) -> usize {
+        let constrained = self.constraints.as_ref().map_or(0, |y| y.ncols());
+        self.problem.nrows().saturating_sub(constrained)
+    }
+}
+
 impl<A: NdFloat + Sum, R: Rng> IntoIterator for TruncatedEig<A, R> {
     type Item = (Array1<A>, Array2<A>);
     type IntoIter = TruncatedEigIterator<A, R>;
@@ -179,7 +187,7 @@ impl<A: NdFloat + Sum, R: Rng> IntoIterator for TruncatedEig<A, R> {
     fn into_iter(self) -> TruncatedEigIterator<A, R> {
         TruncatedEigIterator {
             step_size: 1,
-            remaining: self.problem.len_of(Axis(0)),
+            remaining: self.remaining(),
             eig: self,
         }
     }
@@ -230,7 +238,7 @@ impl<A: NdFloat + Sum, R: Rng> TruncatedEigIterator<A, R> {
         }
 
         Ok(TruncatedEigIterator {
-            remaining: obj.problem.len_of(Axis(0)),
+            remaining: obj.remaining(),
             eig: obj,
             step_size,
         })
-- 
2.43.0


From 48af173cac515c9e4e6576e53a0892733c96ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 13/16] fix: do not panic on the values of an empty truncated
 SVD

---
 src/lobpcg/svd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index ac941af..d62ad6d 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -35,9 +35,10 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
             a.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap().reverse());
 
             // calculate cut-off magnitude (borrowed from scipy)
+            let max = a.first().map_or(A::zero(), |(_, x)| **x);
             let cutoff = A::epsilon() * // float precision
                          A::correction() * // correction term (see trait below)
-                         *a[0].1; // max eigenvalue
+                         max; // max eigenvalue
 
             // filter low singular values away
             let (values, indices): (Vec<A>, Vec<usize>) = a
-- 
2.43.0


From 5508b156744407b0ed0c0b0a1ca4c6393710f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 14/16] fix: keep zero singular values of the truncated SVD
 finite

---
 src/lobpcg/svd.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index d62ad6d..2e63b3b 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -51,7 +51,11 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
         } else {
             a.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap());
 
-            let (values, indices) = a.into_iter().map(|(a, b)| (b.sqrt(), a)).unzip();
+            // the eigenvalues of zero singular values may be slightly negative
+            let (values, indices) = a
+                .into_iter()
+                .map(|(a, b)| (b.max(A::zero()).sqrt(), a))
+                .unzip();
 
             (values, indices)
         };
@@ -80,6 +84,8 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
                 .columns_mut()
                 .into_iter()
                 .zip(values.iter())
+                // the vectors of zero singular values cannot be normalized
+                .filter(|(_, b)| **b > A::zero())
                 .for_each(|(mut a, b)| a.mapv_inplace(|x| x / *b));
 
             (ularge, vlarge)
@@ -91,6 +97,8 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
                 .columns_mut()
                 .into_iter()
                 .zip(values.iter())
+                // the vectors of zero singular values cannot be normalized
+                .filter(|(_, b)| **b > A::zero())
                 .for_each(|(mut a, b)| a.mapv_inplace(|x| x / *b));
 
             (ularge, vlarge)
-- 
2.43.0


From ac1daa7c13f577749751d5102f2f1163ac3e3dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 15/16] fix: drop numerically singular directions from the
 LOBPCG search space

They appeared as spurious solutions (zero vectors with an arbitrary eigenvalue), or grew until the
Rayleigh-Ritz procedure overflowed and panicked.
---
 src/lobpcg/algorithm.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 32424b4..1980013 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -15,8 +15,17 @@ use super::{Lobpcg, LobpcgResult};
 /// Solve the generalized eigenvalue problem with pencil (A, B)
 fn generalized_eig<A: NdFloat>(a: Array2<A>, b: Array2<A>) -> Result<(Array1<A>, Array2<A>)> {
     let (vals_b, vecs_b) = b.eigh_into()?;
-    let vals_b_recip = vals_b.mapv_into(|x| (x.max(A::from(1e-10f32).unwrap())).sqrt().recip());
-    let vecs_b_tilde = vecs_b * vals_b_recip;
+
+    // directions in which B is numerically singular do not belong to the spanned subspace, they
+    // would appear as spurious solutions with an arbitrary eigenvalue
+    let max_b = vals_b.fold(A::zero(), |max, x| x.max(max));
+    let cutoff = max_b * (A::epsilon() * A::from(1e3).unwrap()).max(A::from(1e-10).unwrap());
+    let regular: Vec<_> = (0..vals_b.len()).filter(|i| vals_b[*i] > cutoff).collect();
+
+    let vals_b_recip = vals_b
+        .select(Axis(0), &regular)
+        .mapv_into(|x| x.sqrt().recip());
+    let vecs_b_tilde = vecs_b.select(Axis(1), &regular) * vals_b_recip;
     let a_tilde = vecs_b_tilde.t().dot(&a.dot(&vecs_b_tilde));
     let (vals_a, vecs_a) = a_tilde.eigh_into()?;
     let vecs = vecs_b_tilde.dot(&vecs_a);
@@ -36,6 +45,10 @@ fn sorted_eig<A: NdFloat>(
         _ => a.eigh_into()?,
     };
 
+    if res.0.len() < size {
+        return Err(LinalgError::NonInvertible);
+    }
+
     // sort and ensure that signs are deterministic
     let (vals, vecs) = res.sort_eig(order);
     let s = vecs.row(0).mapv(|x| x.signum());
-- 
2.43.0


From 0b89e66e3cf7eff03a8d953f57b582f7b71122bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 16/16] fix: exclude the space of the constraints from the
 LOBPCG residual

The iterations cannot reduce this component, so the pairs never converged and, as soon as the
remaining residual consisted of rounding errors only, the search left the orthogonal complement.
---
 src/lobpcg/algorithm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 1980013..d483b5e 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -213,7 +213,12 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         let lambda_x = x.dot(&lambda_diag);
 
         // calculate residual AX - lambdaX
-        let r = &ax - &lambda_x;
+        let mut r = &ax - &lambda_x;
+        // the iterations cannot reduce the component of the residual which lies in the space of the
+        // constraints, without it only rounding errors remain at convergence
+        if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+            apply_constraints(r.view_mut(), cholesky_yy, y.view());
+        }
 
         // calculate L2 norm of error for every eigenvalue
         let residual_norms = r
-- 
2.43.0

