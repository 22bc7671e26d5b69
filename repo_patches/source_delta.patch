From 99736eec016faea3a416601f87082e2d2fa38634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 01/40] fix: round values next to one half and large odd values
 correctly

---
 include/vecmath/scalar.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 06245e3..620d77b 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -442,7 +442,12 @@ template <typename T> constexpr T fract(const T v) {
  */
 template <typename T> constexpr T round(const T v) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
-  return v > static_cast<T>(0.0) ? floor(v + static_cast<T>(0.5)) : ceil(v - static_cast<T>(0.5));
+  // adding 0.5 to v before truncating could change its integral part, so inspect its fraction instead
+  const auto r = trunc(v);
+  const auto f = v - r;
+  return f >= static_cast<T>(0.5)    ? r + static_cast<T>(1.0)
+         : f <= static_cast<T>(-0.5) ? r - static_cast<T>(1.0)
+                                     : r;
 }
 
 /**
-- 
2.43.0


From 223ea4e0a7b4f5abc4b2c42ac2fc6f3cd02c5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:45 +0000
Subject: [PATCH 02/40] fix: correct scalars to the given number of decimals

---
 include/vecmath/scalar.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 620d77b..23afa95 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -537,10 +537,13 @@ template <typename T>
 constexpr T correct(
   const T v, const std::size_t decimals = 0u, const T epsilon = constants<T>::correct_epsilon()) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
-  const T m = static_cast<T>(1u << decimals);
-  const T r = round(v * m);
+  T m = static_cast<T>(1.0);
+  for (std::size_t i = 0u; i < decimals; ++i) {
+    m *= static_cast<T>(10.0);
+  }
+  const T r = round(v * m) / m;
   if (abs(v - r) < epsilon) {
-    return r / m;
+    return r;
   } else {
     return v;
   }
-- 
2.43.0


From 52b9ec16eb92ba519d06f5a0128195168e02b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:04 +0000
Subject: [PATCH 03/40] fix: normalize negative angles without looping or
 losing precision

---
 include/vecmath/scalar.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 23afa95..427e95f 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -632,10 +632,8 @@ template <typename T> constexpr T normalize_radians(T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = constants<T>::two_pi();
-  while (angle < z) {
-    angle += o;
-  }
-  return mod(angle, o);
+  angle = mod(angle, o);
+  return angle < z ? mod(angle + o, o) : angle;
 }
 
 /**
@@ -649,10 +647,8 @@ template <typename T> constexpr T normalize_degrees(T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = static_cast<T>(360.0);
-  while (angle < z) {
-    angle += o;
-  }
-  return mod(angle, o);
+  angle = mod(angle, o);
+  return angle < z ? mod(angle + o, o) : angle;
 }
 
 /**
-- 
2.43.0


From f2ac06bf273d6cc01cd90176d7609f08493d107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:23 +0000
Subject: [PATCH 04/40] fix: return all solutions of a quartic equation

---
 include/vecmath/scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 427e95f..f13727f 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -941,10 +941,10 @@ std::tuple<size_t, T, T, T, T> solve_quartic(
       solutions[1] = std::get<2>(solutions2_1);
     }
 
-    if (num2_1 > 0u) {
+    if (num2_2 > 0u) {
       solutions[0 + num2_1] = std::get<1>(solutions2_2);
     }
-    if (num2_1 > 1u) {
+    if (num2_2 > 1u) {
       solutions[1 + num2_1] = std::get<2>(solutions2_2);
     }
   }
-- 
2.43.0


From 1fe3e1647295dff56c0371981c62b7f55a343901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:37 +0000
Subject: [PATCH 05/40] fix: multiply vectors by non-square matrices

---
 include/vecmath/mat.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index c511ec8..8b16c7b 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -574,8 +574,8 @@ constexpr mat<T, R, C> operator/(const mat<T, R, C>& lhs, const T rhs) {
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
-  vec<T, R> result;
+constexpr vec<T, C> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
+  vec<T, C> result;
   for (size_t c = 0; c < C; c++) {
     result[c] = dot(lhs, rhs[c]);
   }
@@ -594,7 +594,7 @@ constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr vec<T, R> operator*(const mat<T, R, C>& lhs, const vec<T, C>& rhs) {
-  vec<T, C> result;
+  vec<T, R> result;
   for (size_t r = 0; r < R; r++) {
     for (size_t c = 0; c < C; ++c) {
       result[r] += lhs[c][r] * rhs[c];
@@ -614,7 +614,7 @@ constexpr vec<T, R> operator*(const mat<T, R, C>& lhs, const vec<T, C>& rhs) {
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, C - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>& rhs) {
+constexpr vec<T, R - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>& rhs) {
   return to_cartesian_coords(lhs * to_homogeneous_coords(rhs));
 }
 
@@ -629,7 +629,7 @@ constexpr vec<T, C - 1> operator*(const mat<T, R, C>& lhs, const vec<T, C - 1>&
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, R - 1> operator*(const vec<T, R - 1>& lhs, const mat<T, R, C>& rhs) {
+constexpr vec<T, C - 1> operator*(const vec<T, R - 1>& lhs, const mat<T, R, C>& rhs) {
   return to_cartesian_coords(to_homogeneous_coords(lhs) * rhs);
 }
 
-- 
2.43.0


From dc3389bc3f31e12c6ccf2257daa95ca2b1e382fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 06/40] fix: transpose and slice non-square matrices

---
 include/vecmath/mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index 8b16c7b..b3fc250 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -664,10 +664,10 @@ constexpr mat<T, R, C> set(mat<T, R, C> m, const std::size_t r, const std::size_
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
-  mat<T, C, R> result(m);
+  mat<T, C, R> result;
   for (std::size_t c = 0u; c < C; ++c) {
-    for (std::size_t r = c + 1u; r < R; ++r) {
-      detail::swap(result[c][r], result[r][c]);
+    for (std::size_t r = 0u; r < R; ++r) {
+      result[r][c] = m[c][r];
     }
   }
   return result;
@@ -688,7 +688,7 @@ constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
  */
 template <std::size_t RR, std::size_t RC, typename T, std::size_t R, std::size_t C>
 constexpr mat<T, RR, RC> slice(const mat<T, R, C>& m, const size_t r, const size_t c) {
-  static_assert(RR <= R && RC <= R, "slice must not exceed matrix");
+  static_assert(RR <= R && RC <= C, "slice must not exceed matrix");
   assert(r <= R - RR && c <= C - RC);
   mat<T, RR, RC> result;
   for (std::size_t row = 0u; row < RR; ++row) {
-- 
2.43.0


From 2b7f88a5b817041dab3cf4ffe6f619d9cc9a2bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 07/40] fix: multiply lists of vectors by non-square matrices

---
 include/vecmath/mat_ext.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 9c4bebc..f8b2ec1 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -42,8 +42,8 @@ namespace vm {
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, C>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<T, C>>& rhs) {
-  std::vector<vec<T, C>> result;
+std::vector<vec<T, R>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<T, C>>& rhs) {
+  std::vector<vec<T, R>> result;
   result.reserve(rhs.size());
   for (const auto& v : rhs) {
     result.push_back(lhs * v);
@@ -63,9 +63,9 @@ std::vector<vec<T, C>> operator*(const mat<T, R, C>& lhs, const std::vector<vec<
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, C>, N> operator*(
+constexpr std::array<vec<T, R>, N> operator*(
   const mat<T, R, C>& lhs, const std::array<vec<T, C>, N>& rhs) {
-  std::array<vec<T, C>, N> result{};
+  std::array<vec<T, R>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs * rhs[i];
   }
@@ -83,9 +83,9 @@ constexpr std::array<vec<T, C>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, C - 1>> operator*(
+std::vector<vec<T, R - 1>> operator*(
   const mat<T, R, C>& lhs, const std::vector<vec<T, C - 1>>& rhs) {
-  std::vector<vec<T, C - 1>> result;
+  std::vector<vec<T, R - 1>> result;
   result.reserve(rhs.size());
   for (const auto& v : rhs) {
     result.push_back(lhs * v);
@@ -105,9 +105,9 @@ std::vector<vec<T, C - 1>> operator*(
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, C - 1>, N> operator*(
+constexpr std::array<vec<T, R - 1>, N> operator*(
   const mat<T, R, C>& lhs, const std::array<vec<T, C - 1>, N>& rhs) {
-  std::array<vec<T, C - 1>, N> result{};
+  std::array<vec<T, R - 1>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs * rhs[i];
   }
@@ -125,8 +125,8 @@ constexpr std::array<vec<T, C - 1>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, R>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T, R, C>& rhs) {
-  std::vector<vec<T, R>> result;
+std::vector<vec<T, C>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T, R, C>& rhs) {
+  std::vector<vec<T, C>> result;
   result.reserve(lhs.size());
   for (const auto& v : lhs) {
     result.push_back(v * rhs);
@@ -146,9 +146,9 @@ std::vector<vec<T, R>> operator*(const std::vector<vec<T, R>>& lhs, const mat<T,
  * @return an array of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, R>, N> operator*(
+constexpr std::array<vec<T, C>, N> operator*(
   const std::array<vec<T, R>, N>& lhs, const mat<T, R, C>& rhs) {
-  std::array<vec<T, R>, N> result{};
+  std::array<vec<T, C>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs[i] * rhs;
   }
@@ -166,9 +166,9 @@ constexpr std::array<vec<T, R>, N> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-std::vector<vec<T, R - 1>> operator*(
+std::vector<vec<T, C - 1>> operator*(
   const std::vector<vec<T, R - 1>>& lhs, const mat<T, R, C>& rhs) {
-  std::vector<vec<T, R - 1>> result;
+  std::vector<vec<T, C - 1>> result;
   result.reserve(lhs.size());
   for (const auto& v : lhs) {
     result.push_back(v * rhs);
@@ -188,9 +188,9 @@ std::vector<vec<T, R - 1>> operator*(
  * @return a list of the the products of the given vectors and the given matrix
  */
 template <typename T, std::size_t N, std::size_t R, std::size_t C>
-constexpr std::array<vec<T, R - 1>, N> operator*(
+constexpr std::array<vec<T, C - 1>, N> operator*(
   const std::array<vec<T, R - 1>, N>& lhs, const mat<T, R, C>& rhs) {
-  std::array<vec<T, R - 1>, N> result{};
+  std::array<vec<T, C - 1>, N> result{};
   for (std::size_t i = 0u; i < N; ++i) {
     result[i] = lhs[i] * rhs;
   }
-- 
2.43.0


From d381d9727db1cc75f3c565996502194c2936b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:14 +0000
Subject: [PATCH 08/40] fix: convert rotation matrices with a vertical pitch to
 euler angles

---
 include/vecmath/mat_ext.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index f8b2ec1..62a2766 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -27,6 +27,7 @@
 #include "vec.h"
 
 #include <array>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -324,7 +325,9 @@ template <typename T> vec<T, 3> rotation_matrix_to_euler_angles(const mat<T, 4,
 
   T theta, psi, phi;
 
-  if (abs(rotMat[0][2]) != T(1.0)) {
+  // If the pitch is (almost) vertical, then roll and yaw can't be told apart. Due to rounding, the
+  // absolute value of the matrix element can also be slightly greater than 1.
+  if (abs(rotMat[0][2]) < T(1.0) - T(16.0) * std::numeric_limits<T>::epsilon()) {
     theta = -std::asin(rotMat[0][2]);
     const auto cosTheta = std::cos(theta);
 
@@ -332,7 +335,7 @@ template <typename T> vec<T, 3> rotation_matrix_to_euler_angles(const mat<T, 4,
     phi = std::atan2(rotMat[0][1] / cosTheta, rotMat[0][0] / cosTheta);
   } else {
     phi = 0.0;
-    if (rotMat[0][2] == T(-1.0)) {
+    if (rotMat[0][2] < T(0.0)) {
       theta = vm::constants<T>::half_pi();
       psi = std::atan2(rotMat[1][0], rotMat[2][0]);
     } else {
-- 
2.43.0


From e458785885ce5de2f8424abd91d99aa7f8c45674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:25 +0000
Subject: [PATCH 09/40] fix: allow shear_bbox_matrix for any component type

---
 include/vecmath/mat_ext.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 62a2766..65e73d5 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -639,22 +639,22 @@ constexpr mat<T, 4, 4> shear_bbox_matrix(
   mat<T, 4, 4> shearMat;
   if (sideToShear == vec<T, 3>::pos_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(relativeDelta.y(), relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix(relativeDelta.y(), relativeDelta.z(), T(0), T(0), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::neg_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(-relativeDelta.y(), -relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix(-relativeDelta.y(), -relativeDelta.z(), T(0), T(0), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::pos_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., relativeDelta.x(), relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix(T(0), T(0), relativeDelta.x(), relativeDelta.z(), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::neg_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., -relativeDelta.x(), -relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix(T(0), T(0), -relativeDelta.x(), -relativeDelta.z(), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::pos_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., relativeDelta.x(), relativeDelta.y());
+    shearMat = shear_matrix(T(0), T(0), T(0), T(0), relativeDelta.x(), relativeDelta.y());
   } else if (sideToShear == vec<T, 3>::neg_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., -relativeDelta.x(), -relativeDelta.y());
+    shearMat = shear_matrix(T(0), T(0), T(0), T(0), -relativeDelta.x(), -relativeDelta.y());
   }
 
   // grab any vertex on side that is opposite the one being sheared.
-- 
2.43.0


From d967ab5bf2f735396bc30bd6024f07df8ed79d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:18 +0000
Subject: [PATCH 10/40] fix: rotate almost colinear vectors onto each other

---
 include/vecmath/quat.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index f193588..fddff5f 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -24,6 +24,8 @@
 #include "vec.h"
 
 #include <cassert>
+#include <cmath>
+#include <limits>
 
 namespace vm {
 template <typename T> class quat {
@@ -94,11 +96,17 @@ public:
     assert(is_unit(from, constants<T>::almost_zero()));
     assert(is_unit(to, constants<T>::almost_zero()));
 
+    const auto normal = cross(from, to);
+    const auto sin = length(normal);
     const auto cos = dot(from, to);
-    if (is_equal(+cos, T(1.0), constants<T>::almost_zero())) {
+
+    // The rotation axis cannot be computed accurately if the vectors are almost colinear.
+    if (sin * sin > std::numeric_limits<T>::epsilon()) {
+      set_rotation(normal / sin, std::atan2(sin, cos));
+    } else if (cos > T(0.0)) {
       // `from` and `to` are equal.
       set_rotation(vec<T, 3>::pos_z(), T(0.0));
-    } else if (is_equal(-cos, T(1.0), constants<T>::almost_zero())) {
+    } else {
       // `from` and `to` are opposite.
       // We need to find a rotation axis that is perpendicular to `from`.
       auto axis = cross(from, vec<T, 3>::pos_z());
@@ -106,10 +114,6 @@ public:
         axis = cross(from, vec<T, 3>::pos_x());
       }
       set_rotation(normalize(axis), to_radians(T(180)));
-    } else {
-      const auto axis = normalize(cross(from, to));
-      const auto angle = std::acos(cos);
-      set_rotation(axis, angle);
     }
   }
 
-- 
2.43.0


From a7f9181dabea52f5663d3b1a6c584446fad78537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:01 +0000
Subject: [PATCH 11/40] fix: compute angle and axis of quaternions that are not
 exactly normalized

---
 include/vecmath/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index fddff5f..fd34c44 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -130,7 +130,7 @@ public:
    *
    * @return the rotation angle in radians
    */
-  T angle() const { return T(2.0) * std::acos(r); }
+  T angle() const { return T(2.0) * std::atan2(length(v), r); }
 
   /**
    * Returns the rotation axis of this quaternion.
@@ -141,7 +141,7 @@ public:
     if (is_zero(v, constants<T>::almost_zero())) {
       return v;
     } else {
-      return v / std::sin(std::acos(r));
+      return normalize(v);
     }
   }
 
-- 
2.43.0


From 767aa6c8e1bc23dac82d2f4be04e147675fbaccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:14 +0000
Subject: [PATCH 12/40] fix: multiply all components of a quaternion by a
 scalar

---
 include/vecmath/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index fd34c44..7f65114 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -237,7 +237,7 @@ template <typename T> constexpr quat<T> operator-(const quat<T>& q) {
  * @return the multiplied quaternion
  */
 template <typename T> constexpr quat<T> operator*(const quat<T> lhs, const T rhs) {
-  return quat<T>(lhs.r * rhs, lhs.v);
+  return quat<T>(lhs.r * rhs, lhs.v * rhs);
 }
 
 /**
@@ -249,7 +249,7 @@ template <typename T> constexpr quat<T> operator*(const quat<T> lhs, const T rhs
  * @return the multiplied quaternion
  */
 template <typename T> constexpr quat<T> operator*(const T lhs, const quat<T>& rhs) {
-  return quat<T>(lhs * rhs.r, rhs.v);
+  return quat<T>(lhs * rhs.r, lhs * rhs.v);
 }
 
 /**
-- 
2.43.0


From 1b3c4dd0ea3cde9888e637db27e07fbea68d75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:26 +0000
Subject: [PATCH 13/40] fix: return an empty bounding box from an uninitialized
 builder

---
 include/vecmath/bbox.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/vecmath/bbox.h b/include/vecmath/bbox.h
index f59db5f..3a8c9d7 100644
--- a/include/vecmath/bbox.h
+++ b/include/vecmath/bbox.h
@@ -45,15 +45,15 @@ public:
   class builder {
   private:
     bbox m_bounds;
+    bool m_initialized;
 
   public:
     /**
      * Creates a new unitialized instance.
      */
     constexpr builder()
-      : m_bounds(false) {
-      // put the bounds to an invalid state to signal that its unitialized
-    }
+      : m_bounds()
+      , m_initialized(false) {}
 
     /**
      * Returns the bounds. If the no point has been added, an empty bbox at the origin is returned.
@@ -63,7 +63,7 @@ public:
     /**
      * Returns whether anything has been added to this builder.
      */
-    constexpr bool initialized() const { return m_bounds.is_valid(); }
+    constexpr bool initialized() const { return m_initialized; }
 
     /**
      * Adds the given range of points.
@@ -87,6 +87,7 @@ public:
     constexpr void add(const vec<T, S>& point) {
       if (!initialized()) {
         m_bounds.min = m_bounds.max = point;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, point);
       }
@@ -98,6 +99,7 @@ public:
     constexpr void add(const bbox& box) {
       if (!initialized()) {
         m_bounds = box;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, box);
       }
@@ -181,16 +183,6 @@ public:
     assert(is_valid());
   }
 
-private:
-  /**
-   * This constructor is used by the builder to create an invalid bbox.
-   */
-  constexpr bbox(const bool)
-    : min(vec<T, S>::fill(T(1)))
-    , max(vec<T, S>::fill(T(0))) {
-    assert(!is_valid());
-  }
-
 public:
   /**
    * Creates the smallest bounding box that contains all points in the given range. Optionally
-- 
2.43.0


From 8b7fe5239236394d69af01e3b500073f17a658ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:40 +0000
Subject: [PATCH 14/40] fix: keep the order of the end points when converting
 segments

---
 include/vecmath/segment.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index dcae42e..2876801 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -77,8 +77,7 @@ public:
    */
   template <typename U>
   explicit constexpr segment(const segment<U, S>& other)
-    : m_start(other.start())
-    , m_end(other.end()) {}
+    : segment(vec<T, S>(other.start()), vec<T, S>(other.end())) {}
 
   /**
    * Returns the origin of this segment.
-- 
2.43.0


From 473c614028d026648c790ff0a7ef0e0331e9fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:44 +0000
Subject: [PATCH 15/40] fix: keep the smallest vertex in front when converting
 polygons

---
 include/vecmath/polygon.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index f6d8158..74807f7 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -110,6 +110,7 @@ public:
     for (const auto& vertex : other.vertices()) {
       m_vertices.push_back(vec<T, S>(vertex));
     }
+    rotate_min_to_front();
   }
 
   /**
-- 
2.43.0


From 9dbf907fecc92e8152b395349ee37e1e5316a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:48 +0000
Subject: [PATCH 16/40] fix: iterate polygon vertices in reverse

---
 include/vecmath/polygon.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 74807f7..f363a8d 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -27,6 +27,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <iterator>
 #include <vector>
 
 namespace vm {
@@ -150,18 +151,18 @@ public:
   auto end() const { return std::end(m_vertices); }
 
   /**
-   * Returns an iterator to the beginning of the vertices.
+   * Returns an iterator to the beginning of the reversed vertices.
    *
-   * @return an iterator to the beginning of the vertices
+   * @return an iterator to the beginning of the reversed vertices
    */
-  auto rbegin() const { return std::begin(m_vertices); }
+  auto rbegin() const { return std::rbegin(m_vertices); }
 
   /**
-   * Returns an iterator to the end of the vertices.
+   * Returns an iterator to the end of the reversed vertices.
    *
-   * @return an iterator to the end of the vertices
+   * @return an iterator to the end of the reversed vertices
    */
-  auto rend() const { return std::end(m_vertices); }
+  auto rend() const { return std::rend(m_vertices); }
 
   /**
    * Returns the vertices of this polygon.
-- 
2.43.0


From bcecb2bda530b0f4c2c6c2263e3bbda44fcad3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:53 +0000
Subject: [PATCH 17/40] fix: tell polygons apart that differ only in their
 second vertices

---
 include/vecmath/polygon.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index f363a8d..b5bd574 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -424,10 +424,8 @@ int compareUnoriented(
         const auto j = count - i;
         const auto cmp = compare(lhsVerts[i], rhsVerts[j], epsilon);
         if (cmp != 0) {
-          // Backward compare failed, so make a forward compare
-          return compare(
-            std::next(std::begin(lhsVerts), 2), std::end(lhsVerts),
-            std::next(std::begin(rhsVerts), 2), std::end(rhsVerts), epsilon);
+          // Backward compare failed, so the polygons differ at their second vertices
+          return cmp1;
         }
         ++i;
       }
-- 
2.43.0


From 570d9064e98bb0092baab1563a776bf00455a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:58 +0000
Subject: [PATCH 18/40] fix: measure the distance of a point beyond the ends of
 a segment

---
 include/vecmath/segment.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index 2876801..33b9e07 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -118,13 +118,14 @@ public:
    * @return true if the given point is contained in this segment and false otherwise
    */
   bool contains(const vec<T, S>& point, const T maxDistance) const {
-    const auto f = distance_to_projected_point(*this, point);
-    if (f < -maxDistance || f * f > squared_length() + maxDistance * maxDistance) {
-      return false;
-    } else {
-      const auto proj = point_at_distance(*this, f);
-      return squared_distance(proj, point) <= (maxDistance * maxDistance);
-    }
+    // find the point on this segment that is closest to the given point
+    const auto d = m_end - m_start;
+    const auto l = vm::squared_length(d);
+    const auto f =
+      l > static_cast<T>(0.0)
+        ? clamp(dot(point - m_start, d) / l, static_cast<T>(0.0), static_cast<T>(1.0))
+        : static_cast<T>(0.0);
+    return squared_distance(m_start + d * f, point) <= (maxDistance * maxDistance);
   }
 
   /**
-- 
2.43.0


From 4cbaf30406f6e38af210c66c9e25d2420c6de204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:28 +0000
Subject: [PATCH 19/40] fix: apply the mapping function when creating planes
 from points

---
 include/vecmath/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index 0b96c53..e8f6fda 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -396,17 +396,17 @@ auto from_points(I cur, I end, const G& get = G())
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p1 = *cur;
+  const vec<T, 3> p1 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p2 = *cur;
+  const vec<T, 3> p2 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p3 = *cur;
+  const vec<T, 3> p3 = get(*cur);
 
   return from_points(p1, p2, p3);
 }
-- 
2.43.0


From b80cbf2be2c1f64ace0c8b62f93d6d2d3a8ed62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:34 +0000
Subject: [PATCH 20/40] fix: transform plane normals so that transformed points
 remain on the plane

---
 include/vecmath/plane.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index e8f6fda..543998d 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -171,6 +171,18 @@ public:
     return plane<T, S>(-distance, -normal);
   }
 
+private:
+  /**
+   * Returns a vector that is orthogonal to any transformed vector that is orthogonal to this plane's
+   * normal. The translational part of the given transformation is not applied.
+   */
+  constexpr vec<T, S> transform_normal(const mat<T, S + 1, S + 1>& transform) const {
+    const auto stripped = strip_translation(transform);
+    const auto [invertible, inverse] = invert(stripped);
+    return invertible ? transpose(inverse) * normal : stripped * normal;
+  }
+
+public:
   /**
    * Transforms this plane using the given transformation matrix. The translational part is not
    * applied to the normal.
@@ -179,7 +191,7 @@ public:
    * @return the transformed plane
    */
   plane<T, S> transform(const mat<T, S + 1, S + 1>& transform) const {
-    return plane<T, S>(transform * anchor(), normalize(strip_translation(transform) * normal));
+    return plane<T, S>(transform * anchor(), normalize(transform_normal(transform)));
   }
 
   /**
@@ -190,7 +202,7 @@ public:
    * @return the transformed plane
    */
   constexpr plane<T, S> transform_c(const mat<T, S + 1, S + 1>& transform) const {
-    return plane<T, S>(transform * anchor(), normalize_c(strip_translation(transform) * normal));
+    return plane<T, S>(transform * anchor(), normalize_c(transform_normal(transform)));
   }
 
   /**
-- 
2.43.0


From 2b326e82cd1107d32d08e15bfd860eb2a2867b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:27 +0000
Subject: [PATCH 21/40] fix: compute the distance of a point to a segment of
 length 0

---
 include/vecmath/distance.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index a708a71..c549271 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -129,6 +129,10 @@ template <typename T, size_t S>
 point_distance<T> squared_distance(const segment<T, S>& s, const vec<T, S>& p) {
   const auto vector = s.end() - s.start();
   const auto len = length(vector);
+  if (len == T(0.0)) {
+    return point_distance<T>(T(0.0), squared_length(p - s.start()));
+  }
+
   const auto dir = vector / len;
   const T scale = dot(p - s.start(), dir);
 
-- 
2.43.0


From 668d3ecdfb69d0fbb235f53e19516a95b9e86d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:31 +0000
Subject: [PATCH 22/40] fix: compute the minimal distance of a ray and a
 segment behind its origin

---
 include/vecmath/distance.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index c549271..d53f0a5 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -296,7 +296,8 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
     } else {
       // segment straddles ray origin
       const T perpendicular_dist_squared = squared_distance(point_at_distance(r, p1_on_r), p1);
-      const T r_origin_on_s = distance_to_projected_point(s, r.origin);
+      const T r_origin_on_s =
+        a > static_cast<T>(0) ? distance_to_projected_point(s, r.origin) : static_cast<T>(0);
       return line_distance<T>::Parallel(0, perpendicular_dist_squared, r_origin_on_s);
     }
   }
@@ -316,9 +317,15 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
     tD = c;
   }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
+  if (tN < static_cast<T>(0.0)) {
+    // the closest point on the ray is its origin
+    tN = static_cast<T>(0.0);
+    sN = min(max(-d, static_cast<T>(0.0)), a);
+    sD = a;
+  }
+
+  const auto sc = sN / sD;
+  const auto tc = tN / tD;
 
   u = u * sc; // vector from p1 to the closest point on the segment
   v = v * tc; // vector from ray origin to closest point on the ray
-- 
2.43.0


From 2ff0029ca183b730cd6ab17b803d327d73a3424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:34 +0000
Subject: [PATCH 23/40] fix: compute the minimal distance of rays

---
 include/vecmath/distance.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index d53f0a5..796a904 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -382,9 +382,16 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
     const T perpendicular_dist_squared =
       squared_distance(project_point(lhs, rhs.origin), rhs.origin);
 
-    return line_distance<T>::Parallel(
-      max(static_cast<T>(0), rhs_origin_on_lhs), perpendicular_dist_squared,
-      max(static_cast<T>(0), lhs_origin_on_rhs));
+    if (rhs_origin_on_lhs >= static_cast<T>(0)) {
+      // second ray starts in front of the first ray's origin
+      return line_distance<T>::Parallel(rhs_origin_on_lhs, perpendicular_dist_squared, 0);
+    } else if (lhs_origin_on_rhs >= static_cast<T>(0)) {
+      // first ray starts in front of the second ray's origin
+      return line_distance<T>::Parallel(0, perpendicular_dist_squared, lhs_origin_on_rhs);
+    } else {
+      // the rays point away from each other
+      return line_distance<T>::Parallel(0, squared_distance(lhs.origin, rhs.origin), 0);
+    }
   }
 
   auto sN = (b * e - c * d);
@@ -395,9 +402,15 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
     tD = c;
   }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
+  if (tN < static_cast<T>(0.0)) {
+    // the closest point on the first ray is its origin
+    tN = static_cast<T>(0.0);
+    sN = max(-d, static_cast<T>(0.0));
+    sD = a;
+  }
+
+  const auto sc = sN / sD;
+  const auto tc = tN / tD;
 
   u = u * sc; // vector from the second ray's origin to the closest point on first ray
   v = v * tc; // vector from the first ray's origin to closest point on the first ray
-- 
2.43.0


From 3c921c826f9f2c74fb7820e2522220cea0a5743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:38 +0000
Subject: [PATCH 24/40] fix: compute the minimal distance of a ray and a line
 behind its origin

---
 include/vecmath/distance.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 796a904..83420ef 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -462,8 +462,13 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& r, const line<T, S>
     return line_distance<T>::Parallel(0, perpendicular_dist_squared, r_origin_on_l);
   }
 
-  const auto sc = max((b * e - c * d) / D, static_cast<T>(0.0));
-  const auto tc = (a * e - b * d) / D;
+  auto sc = (b * e - c * d) / D;
+  auto tc = (a * e - b * d) / D;
+  if (sc < static_cast<T>(0.0)) {
+    // the closest point on the ray is its origin
+    sc = static_cast<T>(0.0);
+    tc = e / c;
+  }
 
   const auto rp = r.origin + sc * r.direction; // point on ray
   const auto lp = l.point + tc * l.direction;  // point on line
-- 
2.43.0


From f8f1da028fbfa159c38ba00133daacbe798691bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:33 +0000
Subject: [PATCH 25/40] fix: count polygon vertices on the X axis once when
 testing containment

---
 include/vecmath/intersection.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 54a70d1..5819a74 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -37,8 +37,8 @@ namespace detail {
  * @tparam T the component type
  * @param v0 the first segment vertex
  * @param v1 the second segment vertex
- * @return -1 if either segment vertex is identical to the origin, +1 if the segment intersects the
- * positve X axis, and 0 if it does not
+ * @return -1 if the segment contains the origin, +1 if the segment intersects the positve X axis,
+ * and 0 if it does not
  */
 template <typename T>
 constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T, 3>& v1) {
@@ -47,6 +47,13 @@ constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T,
     return -1;
   }
 
+  // Is the edge on the X axis, and does it contain the origin?
+  if (
+    is_zero(v0.y(), constants<T>::almost_zero()) && is_zero(v1.y(), constants<T>::almost_zero()) &&
+    min(v0.x(), v1.x()) <= T(0.0) && max(v0.x(), v1.x()) >= T(0.0)) {
+    return -1;
+  }
+
   /*
    * A polygon edge intersects with the positive X axis if the
    * following conditions are met: The Y coordinates of its
@@ -61,11 +68,8 @@ constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T,
    * or zero.
    */
 
-  // Does Y segment covered by the given edge touch the X axis at all?
-  if (
-    (is_zero(v0.y(), constants<T>::almost_zero()) &&
-     is_zero(v1.y(), constants<T>::almost_zero())) ||
-    (v0.y() > T(0.0) && v1.y() > T(0.0)) || (v0.y() < T(0.0) && v1.y() < T(0.0))) {
+  // Does Y segment covered by the given edge cross the X axis at all?
+  if ((v0.y() > T(0.0)) == (v1.y() > T(0.0))) {
     return 0;
   }
 
-- 
2.43.0


From 8b2eb43623a76203693282c44622ab2a25d81317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:36 +0000
Subject: [PATCH 26/40] fix: intersect rays that start inside of a bounding box

---
 include/vecmath/intersection.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 5819a74..7dbce09 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -381,12 +381,16 @@ constexpr T intersect_ray_bbox(const ray<T, S>& r, const bbox<T, S>& b) {
 
   size_t bestPlane = 0;
   if (allInside) {
-    // find the closest plane that was hit
+    // find the closest plane that was hit, the ray doesn't hit planes with negative distances
     for (size_t i = 1; i < S; ++i) {
-      if (distances[i] < distances[bestPlane]) {
+      if (
+        distances[bestPlane] < static_cast<T>(0.0) ||
+        (distances[i] >= static_cast<T>(0.0) && distances[i] < distances[bestPlane])) {
         bestPlane = i;
       }
     }
+
+    return distances[bestPlane] < static_cast<T>(0.0) ? nan<T>() : distances[bestPlane];
   } else {
     // find the farthest plane that was hit
     for (size_t i = 0; i < S; ++i) {
-- 
2.43.0


From 13c8759b067210f0fb778438cd5e9a45bc641ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:32 +0000
Subject: [PATCH 27/40] fix: intersect rays that enter a bounding box through
 its edges

---
 include/vecmath/intersection.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 7dbce09..d6b13b2 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -411,12 +411,15 @@ constexpr T intersect_ray_bbox(const ray<T, S>& r, const bbox<T, S>& b) {
     return nan<T>();
   }
 
+  // The ray must not leave the box before it has entered it
   for (size_t i = 0; i < S; ++i) {
-    if (bestPlane != i) {
-      const T coord = r.origin[i] + distances[bestPlane] * r.direction[i];
-      if (coord < b.min[i] || coord > b.max[i]) {
+    if (r.direction[i] != static_cast<T>(0.0)) {
+      const T exit = r.direction[i] < static_cast<T>(0.0) ? b.min[i] : b.max[i];
+      if ((exit - r.origin[i]) / r.direction[i] < distances[bestPlane]) {
         return nan<T>();
       }
+    } else if (!inside[i]) {
+      return nan<T>();
     }
   }
 
-- 
2.43.0


From baddcb8c2ea986385e79219854f72f9fa50394e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:01 +0000
Subject: [PATCH 28/40] fix: avoid cancellation when solving cubic equations
 with one solution

---
 include/vecmath/scalar.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index f13727f..763500a 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -834,9 +834,10 @@ std::tuple<std::size_t, T, T, T> solve_cubic(
     solutions[2] = -t * std::cos(phi - constants<T>::pi() / T(3));
   } else {
     // one real solution
+    // subtract q from or add q to D2, whichever does not cancel, and use u * v = -p
     const auto D2 = sqrt(D);
-    const auto u = std::cbrt(D2 - q);
-    const auto v = -std::cbrt(D2 + q);
+    const auto u = q < T(0) ? std::cbrt(D2 - q) : -std::cbrt(D2 + q);
+    const auto v = -p / u;
     num = 1u;
     solutions[0] = u + v;
   }
-- 
2.43.0


From d45e8d1040d2a7c70e901989c2e706c607342793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:07 +0000
Subject: [PATCH 29/40] fix: compute the convex hull if the first two points
 are identical

---
 include/vecmath/convex_hull.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 1a51e6b..1956a62 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -88,6 +88,7 @@ public:
       return;
     }
 
+    find_second_point();
     const auto thirdPointIndex = find_linearly_independent_point();
     if (thirdPointIndex >= m_points.size()) {
       m_points.clear();
@@ -111,6 +112,15 @@ public:
   const std::vector<vec<T, 3>>& result() const { return m_points; }
 
 private:
+  void find_second_point() {
+    // the second point must differ from the first, so use the point that is furthest from it
+    const auto second =
+      std::max_element(m_points.begin(), m_points.end(), [&](const auto& lhs, const auto& rhs) {
+        return squared_distance(m_points[0], lhs) < squared_distance(m_points[0], rhs);
+      });
+    std::iter_swap(std::next(m_points.begin()), second);
+  }
+
   std::size_t find_linearly_independent_point() const {
     std::size_t index = 2;
     while (index < m_points.size() && is_colinear(m_points[0], m_points[1], m_points[index])) {
-- 
2.43.0


From 7c254f804ac414246f68e8f2c6172f84ea6e1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:56 +0000
Subject: [PATCH 30/40] fix: leave out points on the edges of a convex hull

---
 include/vecmath/convex_hull.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 1956a62..62bbfa7 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -203,7 +203,7 @@ private:
       const auto& t1 = stack[stack.size() - 2];
       const auto& t2 = stack[stack.size() - 1];
       const auto side = is_left(t1, t2, p);
-      if (side < 0) {
+      if (side <= 0) {
         stack.pop_back();
         pop_stale_points(stack, p);
       }
-- 
2.43.0


From 8768af08b67d1dae43b28cf24a601ef004823c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:26 +0000
Subject: [PATCH 31/40] fix: do not read beyond the end of the string when
 parsing vectors

---
 include/vecmath/vec_io.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index 17ec21a..afe2c8b 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -22,6 +22,7 @@
 
 #include "vec.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
 #include <string>
@@ -38,8 +39,10 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
     if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
       return std::nullopt;
     }
-    result[i] = static_cast<T>(std::atof(str.data() + pos));
-    if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+    const auto begin = pos;
+    pos = str.find_first_of(blank, pos);
+    result[i] = static_cast<T>(std::atof(std::string{str.substr(begin, pos - begin)}.c_str()));
+    if (pos == std::string::npos) {
       if (i < S - 1) {
         return std::nullopt;
       }
-- 
2.43.0


From 8f1607b665c2347040bd3446443699578d12e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:35 +0000
Subject: [PATCH 32/40] fix: do not read beyond the end of the string when
 parsing matrices

---
 include/vecmath/mat_io.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/mat_io.h b/include/vecmath/mat_io.h
index 3adf1cf..b271261 100644
--- a/include/vecmath/mat_io.h
+++ b/include/vecmath/mat_io.h
@@ -22,8 +22,11 @@
 
 #include "mat.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
+#include <string>
+#include <string_view>
 
 namespace vm {
 /**
@@ -53,8 +56,10 @@ std::optional<mat<T, R, C>> parse(const std::string_view str) {
       if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
         return std::nullopt;
       }
-      result[c][r] = static_cast<T>(std::atof(str.data() + pos));
-      if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+      const auto begin = pos;
+      pos = str.find_first_of(blank, pos);
+      result[c][r] = static_cast<T>(std::atof(std::string{str.substr(begin, pos - begin)}.c_str()));
+      if (pos == std::string::npos) {
         if ((r * C) + c < R * C - 1u) {
           return std::nullopt;
         }
-- 
2.43.0


From 3b15f89c978115b7d0f038df1f22cda303748f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:12 +0000
Subject: [PATCH 33/40] fix: parse lists of vectors with separators right
 behind a component

---
 include/vecmath/vec_io.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index afe2c8b..1ee426b 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -33,6 +33,7 @@ namespace detail {
 template <typename T, std::size_t S>
 std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
   constexpr auto blank = " \t\n\r()";
+  constexpr auto blankOrSeparator = " \t\n\r(),;";
 
   auto result = vec<T, S>{};
   for (std::size_t i = 0; i < S; ++i) {
@@ -40,7 +41,8 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
       return std::nullopt;
     }
     const auto begin = pos;
-    pos = str.find_first_of(blank, pos);
+    // the last component may be followed by a list separator
+    pos = str.find_first_of(i < S - 1 ? blank : blankOrSeparator, pos);
     result[i] = static_cast<T>(std::atof(std::string{str.substr(begin, pos - begin)}.c_str()));
     if (pos == std::string::npos) {
       if (i < S - 1) {
-- 
2.43.0


From 1ed25083a5962ed385c84d4e30b51ce99c7d95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:25 +0000
Subject: [PATCH 34/40] fix: do not parse vectors from text that is not a
 number

---
 include/vecmath/vec_io.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index 1ee426b..5ed867a 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -43,7 +43,12 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
     const auto begin = pos;
     // the last component may be followed by a list separator
     pos = str.find_first_of(i < S - 1 ? blank : blankOrSeparator, pos);
-    result[i] = static_cast<T>(std::atof(std::string{str.substr(begin, pos - begin)}.c_str()));
+    const auto component = std::string{str.substr(begin, pos - begin)};
+    char* end = nullptr;
+    result[i] = static_cast<T>(std::strtod(component.c_str(), &end));
+    if (end == component.c_str()) {
+      return std::nullopt;
+    }
     if (pos == std::string::npos) {
       if (i < S - 1) {
         return std::nullopt;
-- 
2.43.0


From 17e4c2cebca4592d301f37df0cea7c7644158259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:35 +0000
Subject: [PATCH 35/40] fix: do not parse matrices from text that is not a
 number

---
 include/vecmath/mat_io.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/mat_io.h b/include/vecmath/mat_io.h
index b271261..78aa0de 100644
--- a/include/vecmath/mat_io.h
+++ b/include/vecmath/mat_io.h
@@ -58,7 +58,12 @@ std::optional<mat<T, R, C>> parse(const std::string_view str) {
       }
       const auto begin = pos;
       pos = str.find_first_of(blank, pos);
-      result[c][r] = static_cast<T>(std::atof(std::string{str.substr(begin, pos - begin)}.c_str()));
+      const auto component = std::string{str.substr(begin, pos - begin)};
+      char* end = nullptr;
+      result[c][r] = static_cast<T>(std::strtod(component.c_str(), &end));
+      if (end == component.c_str()) {
+        return std::nullopt;
+      }
       if (pos == std::string::npos) {
         if ((r * C) + c < R * C - 1u) {
           return std::nullopt;
-- 
2.43.0


From eb38c225c1c9458cfe88ffa59c5e5d8618062edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:19 +0000
Subject: [PATCH 36/40] fix: order vectors consistently with their approximate
 equality

---
 include/vecmath/approx.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/vecmath/approx.h b/include/vecmath/approx.h
index 0f287c3..14d76c9 100644
--- a/include/vecmath/approx.h
+++ b/include/vecmath/approx.h
@@ -150,35 +150,35 @@ public:
   }
 
   friend constexpr bool operator<(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs < (rhs.m_value - vec<T, S>::fill(rhs.m_epsilon));
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) < 0;
   }
 
   friend constexpr bool operator<(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value < (rhs - vec<T, S>::fill(lhs.m_epsilon));
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) < 0;
   }
 
   friend constexpr bool operator<=(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs <= (rhs.m_value + vec<T, S>::fill(rhs.m_epsilon));
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) <= 0;
   }
 
   friend constexpr bool operator<=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value <= (rhs + vec<T, S>::fill(lhs.m_epsilon));
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) <= 0;
   }
 
   friend constexpr bool operator>(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs > (rhs.m_value + vec<T, S>::fill(rhs.m_epsilon));
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) > 0;
   }
 
   friend constexpr bool operator>(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value > (rhs + vec<T, S>::fill(lhs.m_epsilon));
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) > 0;
   }
 
   friend constexpr bool operator>=(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs >= (rhs.m_value - rhs.m_epsilon);
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) >= 0;
   }
 
   friend constexpr bool operator>=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value >= (rhs - lhs.m_epsilon);
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) >= 0;
   }
 
   friend std::ostream& operator<<(std::ostream& str, const approx<vec<T, S>>& a) {
-- 
2.43.0


From 808c88cf9c7da3e8534c631128f29a6282003bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:30 +0000
Subject: [PATCH 37/40] fix: ray/segment distance treats short segments as
 parallel

The parallel test compared D, which is proportional to the squared length of the
segment, with an absolute epsilon, so every segment shorter than about 0.03 was
reported as parallel to the ray and only its first point was considered.
---
 include/vecmath/distance.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 83420ef..634c659 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -269,7 +269,9 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
   const auto e = dot(v, w);
   const auto D = a * c - b * b;
 
-  if (is_zero(D, constants<T>::almost_zero())) {
+  // D is proportional to the squared length of the segment, which can be short without being
+  // parallel to the ray
+  if (is_zero(D, constants<T>::almost_zero() * min(a, static_cast<T>(1.0)))) {
     // parallel case
     const T p1_on_r = distance_to_projected_point(r, p1);
     const T p2_on_r = distance_to_projected_point(r, p2);
-- 
2.43.0


From 8b6d86e2ab363f6682464b89a524c81e61a2ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 38/40] fix: rays miss small triangles

The determinant of the ray/triangle intersection is proportional to the area of
the triangle, but was compared with an absolute epsilon to detect parallel rays,
so that triangles with legs shorter than about 0.03 were never hit.
---
 include/vecmath/intersection.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index d6b13b2..d69a54f 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -254,7 +254,10 @@ constexpr T intersect_ray_triangle(
   const auto e2 = p3 - p1;
   const auto p = cross(d, e2);
   const auto a = dot(p, e1);
-  if (is_zero(a, constants<T>::almost_zero())) {
+  // a is proportional to the lengths of e1 and e2, which can be short even if the ray is not parallel
+  // to the triangle
+  const auto l = min(squared_length(e1) * squared_length(e2), T(1.0));
+  if (is_zero(a * a, constants<T>::almost_zero() * constants<T>::almost_zero() * l)) {
     return nan<T>();
   }
 
-- 
2.43.0


From 6c772b04b69de301c927b55d6261a8459ab485ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:38 +0000
Subject: [PATCH 39/40] fix: truncate values beyond the range of int64_t

trunc, and with it floor, ceil, round, snap and correct, converted the value to
int64_t, which is undefined for values of 2^63 and more and yielded -2^63.
---
 include/vecmath/scalar.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 763500a..c92fd01 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -364,6 +364,10 @@ template <typename T> constexpr T smoothstep(const T e0, const T e1, const T v)
  * @return the truncated value
  */
 template <typename T> constexpr T trunc(const T v) {
+  // values of this magnitude have no fractional part and might not be representable as integers
+  if (!(abs(v) < static_cast<T>(int64_t(1) << 62))) {
+    return v;
+  }
   return static_cast<T>(static_cast<int64_t>(v));
 }
 
-- 
2.43.0


From bd959729016baaa08effa09d96c0d69b9e056fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:24 +0000
Subject: [PATCH 40/40] fix: enumerate the exact corners of bounding boxes

---
 include/vecmath/bbox.h | 83 +++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 37 deletions(-)

diff --git a/include/vecmath/bbox.h b/include/vecmath/bbox.h
index 3a8c9d7..6b15264 100644
--- a/include/vecmath/bbox.h
+++ b/include/vecmath/bbox.h
@@ -472,17 +472,28 @@ public:
    * @param op the operation
    */
   template <typename Op> constexpr void for_each_face(Op&& op) const {
-    const vec<T, 3> boxSize = size();
-    const vec<T, 3> x(boxSize.x(), static_cast<T>(0.0), static_cast<T>(0.0));
-    const vec<T, 3> y(static_cast<T>(0.0), boxSize.y(), static_cast<T>(0.0));
-    const vec<T, 3> z(static_cast<T>(0.0), static_cast<T>(0.0), boxSize.z());
-
-    op(max, max - y, max - y - x, max - x, vec<T, 3>(0.0, 0.0, +1.0)); // top
-    op(min, min + x, min + x + y, min + y, vec<T, 3>(0.0, 0.0, -1.0)); // bottom
-    op(min, min + z, min + z + x, min + x, vec<T, 3>(0.0, -1.0, 0.0)); // front
-    op(max, max - x, max - x - z, max - z, vec<T, 3>(0.0, +1.0, 0.0)); // back
-    op(min, min + y, min + y + z, min + z, vec<T, 3>(-1.0, 0.0, 0.0)); // left
-    op(max, max - z, max - z - y, max - y, vec<T, 3>(+1.0, 0.0, 0.0)); // right
+    // adding the size to min or subtracting it from max would not yield the corners due to rounding
+    constexpr auto lo = Corner::min;
+    constexpr auto hi = Corner::max;
+
+    op(
+      max, corner(hi, lo, hi), corner(lo, lo, hi), corner(lo, hi, hi),
+      vec<T, 3>(0.0, 0.0, +1.0)); // top
+    op(
+      min, corner(hi, lo, lo), corner(hi, hi, lo), corner(lo, hi, lo),
+      vec<T, 3>(0.0, 0.0, -1.0)); // bottom
+    op(
+      min, corner(lo, lo, hi), corner(hi, lo, hi), corner(hi, lo, lo),
+      vec<T, 3>(0.0, -1.0, 0.0)); // front
+    op(
+      max, corner(lo, hi, hi), corner(lo, hi, lo), corner(hi, hi, lo),
+      vec<T, 3>(0.0, +1.0, 0.0)); // back
+    op(
+      min, corner(lo, hi, lo), corner(lo, hi, hi), corner(lo, lo, hi),
+      vec<T, 3>(-1.0, 0.0, 0.0)); // left
+    op(
+      max, corner(hi, hi, lo), corner(hi, lo, lo), corner(hi, lo, hi),
+      vec<T, 3>(+1.0, 0.0, 0.0)); // right
   }
 
   /**
@@ -493,28 +504,27 @@ public:
    * @param op the operation
    */
   template <typename Op> constexpr void for_each_edge(Op&& op) const {
-    const vec<T, 3> boxSize = size();
-    const vec<T, 3> x(boxSize.x(), static_cast<T>(0.0), static_cast<T>(0.0));
-    const vec<T, 3> y(static_cast<T>(0.0), boxSize.y(), static_cast<T>(0.0));
-    const vec<T, 3> z(static_cast<T>(0.0), static_cast<T>(0.0), boxSize.z());
+    // adding the size to min or subtracting it from max would not yield the corners due to rounding
+    constexpr auto lo = Corner::min;
+    constexpr auto hi = Corner::max;
 
     // top edges clockwise (viewed from above)
-    op(max, max - y);
-    op(max - y, max - y - x);
-    op(max - y - x, max - x);
-    op(max - x, max);
+    op(max, corner(hi, lo, hi));
+    op(corner(hi, lo, hi), corner(lo, lo, hi));
+    op(corner(lo, lo, hi), corner(lo, hi, hi));
+    op(corner(lo, hi, hi), max);
 
     // bottom edges clockwise (viewed from below)
-    op(min, min + x);
-    op(min + x, min + x + y);
-    op(min + x + y, min + y);
-    op(min + y, min);
+    op(min, corner(hi, lo, lo));
+    op(corner(hi, lo, lo), corner(hi, hi, lo));
+    op(corner(hi, hi, lo), corner(lo, hi, lo));
+    op(corner(lo, hi, lo), min);
 
     // side edges clockwise (viewed from above)
-    op(min, min + z);
-    op(min + y, min + y + z);
-    op(min + x + y, min + x + y + z);
-    op(min + x, min + x + z);
+    op(min, corner(lo, lo, hi));
+    op(corner(lo, hi, lo), corner(lo, hi, hi));
+    op(corner(hi, hi, lo), corner(hi, hi, hi));
+    op(corner(hi, lo, lo), corner(hi, lo, hi));
   }
 
   /**
@@ -524,22 +534,21 @@ public:
    * @param op the operation
    */
   template <class Op> constexpr void for_each_vertex(Op&& op) const {
-    const vec<T, 3> boxSize = size();
-    const vec<T, 3> x(boxSize.x(), static_cast<T>(0.0), static_cast<T>(0.0));
-    const vec<T, 3> y(static_cast<T>(0.0), boxSize.y(), static_cast<T>(0.0));
-    const vec<T, 3> z(static_cast<T>(0.0), static_cast<T>(0.0), boxSize.z());
+    // adding the size to min or subtracting it from max would not yield the corners due to rounding
+    constexpr auto lo = Corner::min;
+    constexpr auto hi = Corner::max;
 
     // top vertices clockwise (viewed from above)
     op(max);
-    op(max - y);
-    op(min + z);
-    op(max - x);
+    op(corner(hi, lo, hi));
+    op(corner(lo, lo, hi));
+    op(corner(lo, hi, hi));
 
     // bottom vertices clockwise (viewed from below)
     op(min);
-    op(min + x);
-    op(max - z);
-    op(min + y);
+    op(corner(hi, lo, lo));
+    op(corner(hi, hi, lo));
+    op(corner(lo, hi, lo));
   }
 
   /**
-- 
2.43.0

