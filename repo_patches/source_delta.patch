From 86d73d8673a72beed1536bc461f4dd16846b5f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:59 +0000
Subject: [PATCH 01/19] fix: YZX Euler sequence was computed as XYZ

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index ffee3f1..14594cb 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -140,7 +140,7 @@ pub fn euler_to_rotation<T: Float>(yay: T, pitch: T, roll: T, s: Option<EulerSeq
         Some(EulerSeq::XZY) => rotx(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::YXY) => roty(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::YXZ) => roty(yay) * rotx(pitch) * rotz(roll),
-        Some(EulerSeq::YZX) => rotx(yay) * roty(pitch) * rotz(roll),
+        Some(EulerSeq::YZX) => roty(yay) * rotz(pitch) * rotx(roll),
         Some(EulerSeq::YZY) => roty(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::ZXY) => rotz(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::ZXZ) => rotz(yay) * rotx(pitch) * rotz(roll),
-- 
2.43.0


From 19bcb233a09c45380acb61de6b192a740afce177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:20 +0000
Subject: [PATCH 02/19] fix: V3 * M33 multiplied by the transposed matrix,
 unlike the other sizes

---
 src/vector3.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector3.rs b/src/vector3.rs
index 6d7fd81..1be6593 100644
--- a/src/vector3.rs
+++ b/src/vector3.rs
@@ -205,9 +205,9 @@ impl<T: Num + Copy> Mul<M33<T>> for V3<T> {
     #[inline]
     fn mul(self, rhs: M33<T>) -> V3<T> {
         Self::new_from(
-            rhs[(0, 0)] * self[0] + rhs[(0, 1)] * self[1] + rhs[(0, 2)] * self[2],
-            rhs[(1, 0)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(1, 2)] * self[2],
-            rhs[(2, 0)] * self[0] + rhs[(2, 1)] * self[1] + rhs[(2, 2)] * self[2])
+            self[0] * rhs[(0, 0)] + self[1] * rhs[(1, 0)] + self[2] * rhs[(2, 0)],
+            self[0] * rhs[(0, 1)] + self[1] * rhs[(1, 1)] + self[2] * rhs[(2, 1)],
+            self[0] * rhs[(0, 2)] + self[1] * rhs[(1, 2)] + self[2] * rhs[(2, 2)])
     }
 }
 
-- 
2.43.0


From d71400986f44585313e3efbc2c07dceee7b04fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:21 +0000
Subject: [PATCH 03/19] fix: norm_inf ignored the magnitude of negative
 elements

---
 src/slices_methods.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/slices_methods.rs b/src/slices_methods.rs
index 257db2a..fe80d7e 100644
--- a/src/slices_methods.rs
+++ b/src/slices_methods.rs
@@ -65,8 +65,17 @@ pub fn find_max_min<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> MaxMin<T> {
 
 /// calculate the inf-norm of the slice
 pub fn norm_inf<T: Num + Copy + core::cmp::PartialOrd>(slice: &[T]) -> T {
+    let zero = T::zero();
     let max_min = find_max_min(slice);
-    max_min.max.0
+    let max = max_min.max.0;
+    let min = max_min.min.0;
+    // the largest magnitude is at one of the two extremes
+    let min_abs = if min < zero { zero - min } else { min };
+    if min_abs > max {
+        min_abs
+    } else {
+        max
+    }
 }
 
 /// calculate the l-norm of the slice
-- 
2.43.0


From 23b7914c887e84d55e31962b0e4254d4a8fd2732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:22 +0000
Subject: [PATCH 04/19] fix: matrix_exponential6 of a pure translation had a
 one off the diagonal

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 14594cb..16f7bca 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -576,7 +576,7 @@ pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {
     let omega_theta = skew_to_vec(&skew_omega);
     // NOTE(elsuizo:2021-05-11): if w = 0 ---> "pitch" == infinity and |v| = 1 ---> theta represents only a linear distance
     if nearly_zero(omega_theta.norm2()) {
-        m44_new!( one,  zero,  one, v[0];
+        m44_new!( one,  zero, zero, v[0];
                  zero,   one, zero, v[1];
                  zero,  zero,  one, v[2];
                  zero,  zero, zero, one)
-- 
2.43.0


From 0d3bb087d6127764f8c0319b26ecb70b5e7b2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:23 +0000
Subject: [PATCH 05/19] fix: slerp between nearly equal or nearly opposite
 quaternions

---
 src/quaternion.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 909d115..de715ef 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -464,8 +464,13 @@ impl<T: Float> Quaternion<T> {
             if !reverse_a {
                 result.q0   = (one - t) * a.q0 + t * b.q0;
                 result.q[0] = (one - t) * a.q[0] + t * b.q[0];
-                result.q[1] = (one - t) * a.q[1] + t * b.q[2];
-                result.q[2] = (one - t) * a.q[2] + t * b.q[1];
+                result.q[1] = (one - t) * a.q[1] + t * b.q[1];
+                result.q[2] = (one - t) * a.q[2] + t * b.q[2];
+            } else {
+                result.q0   = (one - t) * a.q0 - t * b.q0;
+                result.q[0] = (one - t) * a.q[0] - t * b.q[0];
+                result.q[1] = (one - t) * a.q[1] - t * b.q[1];
+                result.q[2] = (one - t) * a.q[2] - t * b.q[2];
             }
             return result
         }
-- 
2.43.0


From 1ca04da7155d451fe6ae99d765952d6651c7a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:06 +0000
Subject: [PATCH 06/19] fix: matrix_log at and near the half turns, matrix_log6
 with a trace rounded out of range

---
 src/transformations.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 16f7bca..5f3711e 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -444,29 +444,18 @@ pub fn matrix_exponential<T: Float>(so3: &M33<T>) -> M33<T> {
 /// M33<Float>: representing the matrix logarithm of the input
 ///
 pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T> {
-    let one = T::one();
-    let two = one + one;
-    let angle = (r.trace() - one) / two;
-    if angle >= one {
+    let two = T::one() + T::one();
+    // NOTE: (r - r^T) vanishes at the half turns and the trace is flat there, the Quaternion of
+    // the rotation keeps its precision for every angle
+    let q = Quaternion::from_rotation(r);
+    let sin = q.abs_imag();
+    if sin.is_zero() {
         M33::zeros()
-    } else if angle <= -one {
-        if !nearly_zero(one + r[(2, 2)]) {
-            let omega = V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)])
-                * (one / T::sqrt(two * (one + r[(2, 2)])));
-            skew_from_vec(&(omega * T::PI()))
-        } else if !nearly_zero(one + r[(1, 1)]) {
-            let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])
-                * (one / T::sqrt(two * (one + r[(1, 1)])));
-            skew_from_vec(&(omega * T::PI()))
-        } else {
-            let omega = V3::new_from(one + r[(0, 0)], one + r[(1, 0)], r[(2, 0)])
-                * (one / T::sqrt(two * (one + r[(0, 0)])));
-            skew_from_vec(&(omega * T::PI()))
-        }
     } else {
-        let theta = T::acos(angle);
-        // TODO(elsuizo:2021-05-10): esto esta bien???
-        (*r - r.transpose()) * (theta / two / T::sin(theta))
+        // q and -q are the same rotation, take the one with the angle in [0, pi]
+        let sign = if q.real() < T::zero() { -T::one() } else { T::one() };
+        let theta = two * T::atan2(sin, q.real().abs());
+        skew_from_vec(&(q.imag() * (sign * theta / sin)))
     }
 }
 
@@ -618,7 +607,7 @@ pub fn matrix_log6<T: Float + core::iter::Sum + FloatConst>(t: &M44<T>) -> M44<T
                  zero, zero, zero, p[2];
                  zero, zero, zero, zero)
     } else {
-        let theta = T::acos((r.trace() - one) / two);
+        let theta = skew_to_vec(&omega).norm2();
         let cot = one / T::tan(theta / two);
         let v =
             (M33::identity() - omega / two + omega * omega * (one / theta - cot / two) / theta) * p;
-- 
2.43.0


From 56969d937af72ecd015db23909a1e74ac34e6a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:07 +0000
Subject: [PATCH 07/19] fix: division of dual quaternions was not the product
 by the inverse

---
 src/dual_quaternion.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 08a9530..96ae69e 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -142,10 +142,7 @@ impl<T: Float + Signed> Div for DualQuaternion<T> {
     type Output = Self;
 
     fn div(self, rhs: Self) -> Self::Output {
-        let rhs_real_sqr = rhs.q_real * rhs.q_real;
-        let prod_real = self.q_real * rhs.q_real / rhs_real_sqr;
-        let prod_dual = (rhs.q_real * self.q_dual - self.q_real * rhs.q_dual) / rhs_real_sqr;
-        Self::new(prod_real, prod_dual)
+        self * rhs.inverse()
     }
 }
 
-- 
2.43.0


From ccb11bcb1d91d0ec2ae7a9e1e7f304dfab2dfbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:40 +0000
Subject: [PATCH 08/19] fix: pow of a dual quaternion doubled pure
 translations, NaN for a real part rounded above one

---
 src/dual_quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 96ae69e..d9140b3 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -238,10 +238,10 @@ impl<T: Float + Signed> DualQuaternion<T> {
     pub fn pow(&self, exponent: T) -> Self {
         let one = T::one();
         let two = one + one;
-        let theta = two * T::acos(self.real().real());
+        let theta = self.real().get_angle();
         let (s, c) = (theta / two).sin_cos();
-        if nearly_zero(theta) {
-            Self::new_from_point(&(self.get_translation() * exponent))
+        if nearly_zero(self.real().abs_imag()) {
+            Self::new_from_translation(&(self.get_translation() * exponent))
         } else {
             let s0 = self.real().imag() / s;
             let d = self.dual().real() * -two / s;
-- 
2.43.0


From 2234a1ec8da433e6e9aa2e1ccf6f8e9ee0bd0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:00 +0000
Subject: [PATCH 09/19] fix: screw_lerp chose the shortest path from the wrong
 product and negated only the real part

---
 src/dual_quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index d9140b3..7a99c27 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -272,8 +272,8 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let mut start = *begin;
         // TODO(elsuizo:2021-05-23): this is from the python implementation that refers to a paper
         // that "ensure we always find closest solution, See Kavan and Zara 2005"
-        if (start.real() * end.real()).real() < T::zero() {
-            start.q_real = begin.real() * -one;
+        if start.real().dot(end.real()) < T::zero() {
+            start = *begin * -one;
         }
         start * (start.inverse() * *end).pow(tau)
     }
-- 
2.43.0


From 477a2ed3c1dd7caf08961b90e9cf704b186f06f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:01 +0000
Subject: [PATCH 10/19] fix: log of a dual quaternion: moment of the screw,
 pure translations

---
 src/dual_quaternion.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 7a99c27..61f41ce 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -284,10 +284,16 @@ impl<T: Float + Signed> DualQuaternion<T> {
             let one = T::one();
             let two = one + one;
             let half = one / two;
-            let (axis, angle) = self.real().axis_angle();
-            let q_real = Quaternion::new_imag(&(axis.expect("there is no axis") * half * angle));
-            let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
-            Some(DualQuaternion::new(q_real, q_dual))
+            let (l, m, theta, d) = self.get_screw_parameters();
+            if nearly_zero(theta) {
+                // pure translation: there is no moment
+                let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
+                Some(DualQuaternion::new(Quaternion::zero(), q_dual))
+            } else {
+                let q_real = Quaternion::new_imag(&(l * (theta * half)));
+                let q_dual = Quaternion::new_imag(&((m * theta + l * d) * half));
+                Some(DualQuaternion::new(q_real, q_dual))
+            }
         } else {
             None
         }
-- 
2.43.0


From 6a50d749ef2f8b44db19486aed0ff69bf8c1e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:02 +0000
Subject: [PATCH 11/19] fix: normalize of a dual quaternion left a dual part
 that is not orthogonal to the real one

---
 src/dual_quaternion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 61f41ce..fefac4a 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -364,7 +364,9 @@ impl<T: Float + FloatConst + core::iter::Sum> DualQuaternion<T> {
             if !nearly_zero(norm_q_real) {
                 let mut result = Self::one();
                 result.q_real = self.q_real / norm_q_real;
-                result.q_dual = self.q_dual / norm_q_real;
+                let dual = self.q_dual / norm_q_real;
+                // the dual part of a unit `DualQuaternion` is orthogonal to the real one
+                result.q_dual = dual - result.q_real * result.q_real.dot(dual);
                 result.normalized = true;
                 Some(result)
             } else {
-- 
2.43.0


From 077c208cdcdd187d3fc4790f6e7056e599ae5bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:03 +0000
Subject: [PATCH 12/19] fix: nearly_equal compared with the most negative value
 instead of the smallest positive one

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 7017074..0da6633 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -47,7 +47,7 @@ pub fn nearly_equal<T: Float>(a: T, b: T, epsilon: T) -> bool {
     // short-cut, handles infinity
     if a == b {
         true
-    } else if a == zero || b == zero || (abs_a + abs_b < T::min_value()) {
+    } else if a == zero || b == zero || (abs_a + abs_b < T::min_positive_value()) {
         // a or b is zero or both are extremely close to it
         // relative error is less meaningful here
         abs_diff < epsilon
-- 
2.43.0


From 6fdb70ad48bcc6581b313b77bc6d17d8b47ce3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:25 +0000
Subject: [PATCH 13/19] fix: is_rotation and is_rotation_h accepted shears,
 rejected rotations rounded by a few ulps

---
 src/utils.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0da6633..5c0df33 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,6 +32,7 @@ use crate::dual_quaternion::DualQuaternion;
 use crate::matrix3x3::M33;
 use crate::matrix4x4::M44;
 use crate::traits::LinearAlgebra;
+use crate::transformations::get_parts_raw;
 use num::Float;
 // NOTE(elsuizo:2020-06-02): the following function
 // is a translation of the implementation that is here:
@@ -75,14 +76,17 @@ pub fn compare_floats<T: Float>(num1: T, num2: T, tol: T) -> bool {
 
 /// utility function to verify if a Matrix is a propper rotation matrix
 pub fn is_rotation<T: Float + core::iter::Sum>(r: M33<T>) -> bool {
-    let r2 = r * r;
-    nearly_equal(r.det(), T::one(), T::epsilon()) && nearly_equal(r2.det(), T::one(), T::epsilon())
+    let eps = T::from(1e-6).unwrap();
+    // a determinant of one is not enough: the rows have to be orthonormal too
+    nearly_equal(r.det(), T::one(), eps)
+        && compare_vecs(&(r * r.transpose()).as_vec(), &M33::identity().as_vec(), eps)
 }
 
 pub fn is_rotation_h<T: Float + core::iter::Sum>(r: M44<T>) -> bool {
-    let r2 = r * r;
+    let (rot, _) = get_parts_raw(&r);
     let eps = T::from(1e-6).unwrap();
-    nearly_equal(r.det(), T::one(), eps) && nearly_equal(r2.det(), T::one(), eps)
+    let last_row = [T::zero(), T::zero(), T::zero(), T::one()];
+    is_rotation(rot) && compare_vecs(&r[3], &last_row, eps)
 }
 
 pub fn compare_dual_quaternions<T: Float>(
-- 
2.43.0


From 34f34c69912d99761bd6fd4510badfed365fd7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:12 +0000
Subject: [PATCH 14/19] fix: rotation_to_euler keeps its accuracy next to
 gimbal lock

---
 src/transformations.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 5f3711e..11fec24 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -180,7 +180,13 @@ pub fn rotation_to_euler<T: Float + FloatConst>(r: &M33<T>) -> (T, T, T) {
     // normal case
     } else {
         let yay = T::atan2(r[(1, 0)], r[(0, 0)]);
-        let roll = T::atan2(r[(2, 1)], r[(2, 2)]);
+        // NOTE: next to the singularity r[(2, 1)] and r[(2, 2)] vanish too, take the roll that
+        // goes with this yay
+        let (s, c) = yay.sin_cos();
+        let roll = T::atan2(
+            s * r[(0, 2)] - c * r[(1, 2)],
+            c * r[(1, 1)] - s * r[(0, 1)],
+        );
         (yay, pitch, roll)
     }
 }
-- 
2.43.0


From fe30345d56b78ff6aebfc0edd950945618a8cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:38:22 +0000
Subject: [PATCH 15/19] fix: slerp between close Quaternions reaches the second
 end point

---
 src/quaternion.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index de715ef..f66aad1 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -447,16 +447,14 @@ impl<T: Float> Quaternion<T> {
         let mut result = Quaternion::zero();
         // calculate the angle betwen two unit Quaternions via dot product
         let mut cos_half_theta = a.dot(b);
-        // if a = b or a = -b then theta(the angle between) = 0 then we can return a
-        if cos_half_theta.abs() >= one {
-            return a
-        }
         let mut reverse_a = false;
         // allways follow the shortest path
         if cos_half_theta < T::zero() {
             reverse_a = true;
             cos_half_theta = -cos_half_theta;
         }
+        // NOTE: a cosine that rounds to one does not mean that a and b are equal
+        let cos_half_theta = cos_half_theta.min(one);
         let half_theta     = T::acos(cos_half_theta);
         let sin_half_theta = T::sqrt(one - cos_half_theta * cos_half_theta);
         // TODO(elsuizo:2021-04-24): maybe here the comparison could be with epsilon
-- 
2.43.0


From 8d1b4c17ace026300a9dcfc65cd421bcae1ae5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:38:23 +0000
Subject: [PATCH 16/19] fix: normalize_q compares the norm, not its square,
 with epsilon

---
 src/quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index f66aad1..3d59887 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -361,9 +361,9 @@ impl<T: Float> Quaternion<T> {
     // nearly_equal here
     /// normalize the Quaternion
     pub fn normalize_q(&self) -> Self {
-        let a = self.dot(*self);
+        let a = self.norm2();
         if a > T::epsilon() {
-            let mut result = *self / a.sqrt();
+            let mut result = *self / a;
             result.normalized = true;
             result
         } else {
-- 
2.43.0


From 7dadef990836d660b72f43dfb6e61898efd69671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:21 +0000
Subject: [PATCH 17/19] fix: screw parameters and log of a translation
 represented by -1 divide by sin(pi)

---
 src/dual_quaternion.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index fefac4a..4b4c773 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -183,7 +183,8 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let theta = self.real().get_angle();
         let t = self.get_translation();
 
-        if !nearly_zero(theta) {
+        // no rotation: the angle is zero, or a full turn
+        if !nearly_zero(self.real().abs_imag()) {
             let l = self.real().imag() / T::sin(theta / two);
             let d = t * l;
             let cot = one / T::tan(theta / two);
@@ -285,7 +286,7 @@ impl<T: Float + Signed> DualQuaternion<T> {
             let two = one + one;
             let half = one / two;
             let (l, m, theta, d) = self.get_screw_parameters();
-            if nearly_zero(theta) {
+            if nearly_zero(self.real().abs_imag()) {
                 // pure translation: there is no moment
                 let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
                 Some(DualQuaternion::new(Quaternion::zero(), q_dual))
-- 
2.43.0


From a00b7abf9b1d9596a40bf6aa4c485e9a346ccfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:43:31 +0000
Subject: [PATCH 18/19] fix: lu scaled each row by the largest element of all
 rows so far

---
 src/matrix2x2.rs | 11 ++++++++---
 src/matrix3x3.rs | 11 ++++++++---
 src/matrix4x4.rs | 11 ++++++++---
 src/matrix5x5.rs | 11 ++++++++---
 src/matrix6x6.rs | 11 ++++++++---
 5 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/matrix2x2.rs b/src/matrix2x2.rs
index 656b8b1..b6197fb 100644
--- a/src/matrix2x2.rs
+++ b/src/matrix2x2.rs
@@ -291,16 +291,21 @@ impl<T: Float> M22<T> {
         let mut d = T::one();
         let mut big = T::zero();
         for i in 0..N {
+            // the scale of every row is its own largest element
+            let mut scale = T::zero();
             for j in 0..N {
                 let temp = T::abs(lu[(i, j)]);
-                if temp > big {
-                    big = temp;
+                if temp > scale {
+                    scale = temp;
                 }
             }
+            if scale > big {
+                big = scale;
+            }
             if big == T::zero() {
                 panic!("the matrix should be non zero")
             }
-            vv[i] = big.recip();
+            vv[i] = if scale == T::zero() { T::one() } else { scale.recip() };
         }
         for k in 0..N {
             big = T::zero();
diff --git a/src/matrix3x3.rs b/src/matrix3x3.rs
index f2cf923..6d8d43c 100644
--- a/src/matrix3x3.rs
+++ b/src/matrix3x3.rs
@@ -163,16 +163,21 @@ impl<T: Float> M33<T> {
         let mut d = T::one();
         let mut big = T::zero();
         for i in 0..N {
+            // the scale of every row is its own largest element
+            let mut scale = T::zero();
             for j in 0..N {
                 let temp = T::abs(lu[(i, j)]);
-                if temp > big {
-                    big = temp;
+                if temp > scale {
+                    scale = temp;
                 }
             }
+            if scale > big {
+                big = scale;
+            }
             if big == T::zero() {
                 panic!("the matrix should be non zero")
             }
-            vv[i] = big.recip();
+            vv[i] = if scale == T::zero() { T::one() } else { scale.recip() };
         }
         for k in 0..N {
             big = T::zero();
diff --git a/src/matrix4x4.rs b/src/matrix4x4.rs
index ad01f6b..27801a8 100644
--- a/src/matrix4x4.rs
+++ b/src/matrix4x4.rs
@@ -238,16 +238,21 @@ impl<T: Float> M44<T> {
         let mut d = T::one();
         let mut big = T::zero();
         for i in 0..N {
+            // the scale of every row is its own largest element
+            let mut scale = T::zero();
             for j in 0..N {
                 let temp = T::abs(lu[(i, j)]);
-                if temp > big {
-                    big = temp;
+                if temp > scale {
+                    scale = temp;
                 }
             }
+            if scale > big {
+                big = scale;
+            }
             if big == T::zero() {
                 panic!("the matrix should be non zero")
             }
-            vv[i] = big.recip();
+            vv[i] = if scale == T::zero() { T::one() } else { scale.recip() };
         }
         for k in 0..N {
             big = T::zero();
diff --git a/src/matrix5x5.rs b/src/matrix5x5.rs
index 539088a..286b97c 100644
--- a/src/matrix5x5.rs
+++ b/src/matrix5x5.rs
@@ -325,16 +325,21 @@ impl<T: Float> M55<T> {
         let mut d = T::one();
         let mut big = T::zero();
         for i in 0..N {
+            // the scale of every row is its own largest element
+            let mut scale = T::zero();
             for j in 0..N {
                 let temp = T::abs(lu[(i, j)]);
-                if temp > big {
-                    big = temp;
+                if temp > scale {
+                    scale = temp;
                 }
             }
+            if scale > big {
+                big = scale;
+            }
             if big == T::zero() {
                 panic!("the matrix should be non zero")
             }
-            vv[i] = big.recip();
+            vv[i] = if scale == T::zero() { T::one() } else { scale.recip() };
         }
         for k in 0..N {
             big = T::zero();
diff --git a/src/matrix6x6.rs b/src/matrix6x6.rs
index cad9012..9181eb8 100644
--- a/src/matrix6x6.rs
+++ b/src/matrix6x6.rs
@@ -958,16 +958,21 @@ impl<T: Float> M66<T> {
         let mut d = T::one();
         let mut big = T::zero();
         for i in 0..N {
+            // the scale of every row is its own largest element
+            let mut scale = T::zero();
             for j in 0..N {
                 let temp = T::abs(lu[(i, j)]);
-                if temp > big {
-                    big = temp;
+                if temp > scale {
+                    scale = temp;
                 }
             }
+            if scale > big {
+                big = scale;
+            }
             if big == T::zero() {
                 panic!("the matrix should be non zero")
             }
-            vv[i] = big.recip();
+            vv[i] = if scale == T::zero() { T::one() } else { scale.recip() };
         }
         for k in 0..N {
             big = T::zero();
-- 
2.43.0


From d47e03be62a69bdd9d490deecc244ad2d2e39579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:52:02 +0000
Subject: [PATCH 19/19] fix: equality of quaternions and dual quaternions
 compared the cached normalized flag

---
 src/dual_quaternion.rs | 9 ++++++++-
 src/quaternion.rs      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 4b4c773..2dc41a1 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -40,7 +40,7 @@ use core::ops::{Add, Div, Mul, Neg, Sub};
 use num::traits::FloatConst;
 use num::{Float, Num, One, Signed, Zero};
 
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 pub struct DualQuaternion<T> {
     /// the real part
     q_real: Quaternion<T>,
@@ -50,6 +50,13 @@ pub struct DualQuaternion<T> {
     normalized: bool,
 }
 
+// NOTE: the normalized flag is only a cache, it is not part of the value
+impl<T: PartialEq> PartialEq for DualQuaternion<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.q_real == other.q_real && self.q_dual == other.q_dual
+    }
+}
+
 /// Dual Quaternion inplementation
 impl<T> DualQuaternion<T> {
     pub const fn new(q_real: Quaternion<T>, q_dual: Quaternion<T>) -> Self {
diff --git a/src/quaternion.rs b/src/quaternion.rs
index 3d59887..ccd4bb9 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -40,7 +40,7 @@ use crate::utils::nearly_zero;
 use crate::traits::LinearAlgebra;
 
 /// Quaternion type
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 #[repr(C)]
 pub struct Quaternion<T> {
     /// Scalar part
@@ -51,6 +51,13 @@ pub struct Quaternion<T> {
     normalized: bool
 }
 
+// NOTE: the normalized flag is only a cache, it is not part of the value
+impl<T: PartialEq> PartialEq for Quaternion<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.q0 == other.q0 && self.q == other.q
+    }
+}
+
 impl<T> Quaternion<T> {
 
     /// Construct a new Quaternion from a number(real part) and a vector(imag part)
-- 
2.43.0

