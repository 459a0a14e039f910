From d4a15a727841fa77edfe0d30e57adad879d9409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:37 +0000
Subject: [PATCH 01/61] fix: scalar sqrt terminates for every non-negative
 argument

The Newton iteration stopped only when two consecutive iterates were equal, but
rounding makes them alternate between two neighbouring values for many
arguments, and for 0 they end in NaN, so the loop never ended.
---
 include/nil/crypto3/algebra/scalar/math.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 0946310..451749e 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -47,13 +47,14 @@ namespace nil {
             constexpr double sqrt(double x) {
                 if (x < 0)
                     throw "sqrt argument must be positive";
+                // the iterates decrease from (1 + x) / 2 down to the root; rounding may make the last ones alternate
                 double prev = 0;
                 double est = (1 + x) / 2;
-                while (prev != est) {
+                do {
                     prev = est;
-                    est = (est + x / est) / 2;
-                }
-                return est;
+                    est = (prev + x / prev) / 2;
+                } while (est < prev);
+                return prev;
             }
 
             /** @brief computes the square root
-- 
2.43.0


From c1b76d9125481052e868e0909b0eb2f0157a79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 02/61] fix: scalar nthroot terminates for every non-negative
 argument

Same cause as for sqrt: equality of consecutive iterates is never reached when
rounding makes them alternate, nor for 0, whose iterates end in NaN.
---
 include/nil/crypto3/algebra/scalar/math.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 451749e..73033a5 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -119,13 +119,17 @@ namespace nil {
             constexpr double nthroot(double x, int n) {
                 if (x < 0)
                     throw "nth root argument must be positive";
-                double prev = -1;
-                double est = 1;
-                while (prev != est) {
+                if (x == 0)
+                    return 0;
+                // the first iterate is not below the root, from there the iterates decrease down to it; rounding may
+                // make the last ones alternate
+                double prev = 1;
+                double est = x > 1 ? 1 + 1. / n * (x - 1) : 1;
+                do {
                     prev = est;
                     double dxk = 1. / n * (x / exponentiate(prev, n - 1) - prev);
                     est = prev + dxk;
-                }
+                } while (est < prev);
                 return est;
             }
 
-- 
2.43.0


From f6e61c2a49ad48ee35c98ee25cdeb45f98b20b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 03/61] fix: exponentiate accepts the smallest int as exponent

Negating it overflowed, so x^INT_MIN came out as 1/x.
---
 include/nil/crypto3/algebra/scalar/math.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 73033a5..7ca31e4 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -92,17 +92,18 @@ namespace nil {
             constexpr double exponentiate(double x, int n) {
                 if (n == 0)
                     return 1;
-                if (n < 0) {
+                long long m = n;    // the negation of the smallest int does not fit an int
+                if (m < 0) {
                     x = 1. / x;
-                    n = -n;
+                    m = -m;
                 }
                 double y = 1.;
-                while (n > 1) {
-                    if (n % 2 == 0) {
-                        n = n / 2.;
+                while (m > 1) {
+                    if (m % 2 == 0) {
+                        m = m / 2;
                     } else {
                         y *= x;
-                        n = (n - 1.) / 2.;
+                        m = (m - 1) / 2;
                     }
                     x *= x;
                 }
-- 
2.43.0


From cc06ce471f072f8858b07619aa7b446ae3c3b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 04/61] fix: swapcol visits every row of a non-square matrix

The loop ran over the number of columns, so it read and wrote outside a matrix
with fewer rows than columns and left rows unswapped in a taller one.
---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index fa461df..b0f42b1 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -165,7 +165,7 @@ namespace nil {
              */
             template<std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, M, N> swapcol(matrix<T, M, N> m, std::size_t a, std::size_t b) {
-                for (int i = 0; i < N; i++) {
+                for (int i = 0; i < M; i++) {
                     T tmp = m[i][a];
                     m[i][a] = m[i][b];
                     m[i][b] = tmp;
-- 
2.43.0


From 539d8b38b1024f75b954fd4363d66f0dbe552643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 05/61] fix: rref with an explicit tolerance compiles

The tolerance was passed to std::get instead of to the elimination.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 619dc04..de35f27 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -275,7 +275,7 @@ namespace nil {
              */
             template<typename T, std::size_t M, std::size_t N>
             constexpr matrix<T, M, N> rref(const matrix<T, M, N> &m, T tolerance) {
-                return std::get<0>(gauss_jordan_impl(m), tolerance);
+                return std::get<0>(gauss_jordan_impl(m, tolerance));
             }
 
             /** @brief Compute the rank
-- 
2.43.0


From 6aa3dafb54641e5406f4d3858f1dd91eaf837684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 06/61] fix: determinant multiplies the pivots

Scaling a row by 1/s divides the determinant of what remains by s, so the
determinant of the matrix is the product of the pivots; it was their reciprocal.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index de35f27..5c97b54 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -214,7 +214,7 @@ namespace nil {
                         auto s = m[i][j];
                         for (std::size_t jp = 0; jp < N; ++jp)
                             m[i][jp] /= s;
-                        det /= s;
+                        det *= s;
 
                         // Eliminate other values in the column
                         for (std::size_t ip = 0; ip < M; ++ip) {
-- 
2.43.0


From 8b615f2f6b47fd613f7fcebaee5126e94157370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:42 +0000
Subject: [PATCH 07/61] fix: elimination treats exact zeros as negligible

The tolerance of the zero matrix (and of any matrix over an exact type) is zero,
and no magnitude is below zero, so a zero pivot was divided by: the rank of the
zero matrix came out as full and its determinant as NaN.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 5c97b54..ec81690 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -189,7 +189,7 @@ namespace nil {
                 // CRYPTO3_DETAIL_ASSERT_REAL(T)
 
                 // Define function for determining if an element is negligible
-                auto negligible = [&tolerance](const T &v) { return abs(v) < tolerance; };
+                auto negligible = [&tolerance](const T &v) { return abs(v) <= tolerance; };
 
                 T det = 1;
                 std::size_t rank = 0;
-- 
2.43.0


From ddd5d11af509430a39d50df3f3de285f10041ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:25 +0000
Subject: [PATCH 08/61] fix: inverse judges negligible pivots by the matrix
 alone

The tolerance was taken from the matrix extended by the identity, so the pivots
of an invertible matrix with small entries were discarded and the result was
not its inverse.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index ec81690..8389c06 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -312,7 +312,9 @@ namespace nil {
             constexpr matrix<T, M, M> inverse(const matrix<T, M, M> &m) {
                 if (rank(m) < M)
                     throw "matrix is not invertible";
-                return submat<M, M>(rref(horzcat(m, get_identity<T, M>())), 0, M);
+                // what is negligible depends on the magnitude of m alone, not on that of the identity next to it
+                T tol = T(M) * std::numeric_limits<T>::epsilon() * mars(m);
+                return submat<M, M>(rref(horzcat(m, get_identity<T, M>()), tol), 0, M);
             }
 
             /** @brief computes the trace
-- 
2.43.0


From b6b4da7cf51305fe683b4759ae80ca48a426a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 09/61] fix: elimination does not settle on a negligible pivot

---
 include/nil/crypto3/algebra/matrix/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 8389c06..4352dcb 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -204,7 +204,9 @@ namespace nil {
                                 m[i][jp] = tmp;
                             }
                             det = -det;
-                            break;
+                            // A negligible value is no pivot: keep looking
+                            if (!negligible(m[i][j]))
+                                break;
                         }
                     }
 
-- 
2.43.0


From 75734a709ef538de87eaf3b31730b170b797b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 10/61] fix: elimination clears the rows above a pivot whatever
 their scale

---
 include/nil/crypto3/algebra/matrix/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 4352dcb..41b80fe 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -222,7 +222,8 @@ namespace nil {
                         for (std::size_t ip = 0; ip < M; ++ip) {
                             if (ip == i)
                                 continue;
-                            if (!negligible(m[ip][j])) {
+                            // Rows above are already scaled, so the tolerance says nothing about them
+                            if (ip < i || !negligible(m[ip][j])) {
                                 auto s = m[ip][j];
                                 [&]() {    // wrap this in a lambda to get around a gcc bug
                                     for (std::size_t jp = 0; jp < N; ++jp)
-- 
2.43.0


From f6b4dc7b50c3695bb4dc370d38576d13535d02e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:00 +0000
Subject: [PATCH 11/61] fix: mixed addition of equal points in Jacobian
 coordinates doubles

---
 .../detail/forms/short_weierstrass/jacobian/element_g1.hpp  | 6 ++++++
 .../short_weierstrass/jacobian_with_a4_0/element_g1.hpp     | 6 ++++++
 .../jacobian_with_a4_minus_3/element_g1.hpp                 | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
index e5a2be3..fa7a724 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
@@ -321,6 +321,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formula does not cover doubling
+                            if (*this == other) {
+                                common_doubling_processor::process(*this);
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 3dc7d59..619ef4c 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -325,6 +325,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formula does not cover doubling
+                            if (*this == other) {
+                                common_doubling_processor::process(*this);
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index b9fa259..82044c8 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -329,6 +329,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formula does not cover doubling
+                            if (*this == other) {
+                                common_doubling_processor::process(*this);
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
-- 
2.43.0


From e20a27a099328074c392a54e92317692727110fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:00 +0000
Subject: [PATCH 12/61] fix: mixed addition of twisted Edwards points covers
 the exceptional pairs

---
 .../twisted_edwards/extended_with_a_minus_1/element_g1.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
index 935dcb9..6627fc2 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
@@ -302,7 +302,14 @@ namespace nil {
                                 return;
                             }
 
+                            const curve_element first = *this;
                             mixed_addition_processor::process(*this, other);
+
+                            // the dedicated formula does not cover equal points and some pairs that
+                            // differ by a point of small order, where it yields Z = 0
+                            if (this->Z.is_zero()) {
+                                *this = first + other;
+                            }
                         }
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
-- 
2.43.0


From 06ae1f17a3271a0d0530e9cd0fe06338c301ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:01 +0000
Subject: [PATCH 13/61] fix: the negative of the Montgomery point at infinity
 is infinity

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 8cd3d7b..02d7115 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -251,6 +251,9 @@ namespace nil {
                          * @return negative element from group G1
                          */
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return *this;
+                            }
                             return curve_element(this->X, -(this->Y));
                         }
 
-- 
2.43.0


From 5ec219dfa64d47d7a5e7423de343dd0454bfafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 14/61] fix: doubling an affine Weierstrass point of order two
 gives infinity

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index 6b18de7..ae4b602 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -237,7 +237,11 @@ namespace nil {
                          */
                         constexpr void double_inplace() {
 
-                            if (!this->is_zero()) {
+                            if (!this->is_zero() && Y.is_zero()) {
+                                // a point of order two
+                                X = params_type::zero_fill[0];
+                                Y = params_type::zero_fill[1];
+                            } else if (!this->is_zero()) {
                                 field_value_type Xsquared3pa = 3u * X.squared() + params_type::a;
                                 field_value_type Y2squared = Y.doubled().squared();
                                 field_value_type Y2i = Y.doubled().inversed();
-- 
2.43.0


From 29a09f76701bf96825e1493c1c573385c75916a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 15/61] fix: the affine Edwards identity converts to the
 identity in other coordinates

---
 .../detail/forms/twisted_edwards/element_g1_affine.hpp    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
index 2bbbbde..32ff340 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
@@ -194,6 +194,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::inverted>;
 
+                            if (is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(
                                 X.inversed(), Y.inversed(),
                                 result_type::field_type::value_type::one());    // X = x^(-1), Y = y^(-1), Z = 1
@@ -211,6 +215,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::extended_with_a_minus_1>;
 
+                            if (is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(X, Y, X * Y,
                                                result_type::field_type::value_type::one());    // x=X/Z, y=Y/Z, x*y=T/Z
                         }
-- 
2.43.0


From 969e74e8c7cae808018ceda18efac9dc3dcf6490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 16/61] fix: Jacobian (a=-3) to affine divides y by the cube of
 z

---
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index 82044c8..b575a05 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -216,7 +216,7 @@ namespace nil {
 
                             auto Zi = Z.inversed();
 
-                            return result_type(X * Zi * Zi, Y * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
+                            return result_type(X * Zi * Zi, Y * Zi * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
                         }
 
                         /** @brief
-- 
2.43.0


From a3eb29f2dbe6dfc96aa4e539e9b5a5f03d616bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 17/61] fix: projective (a=-3) curve equation uses a=-3

---
 .../projective_with_a4_minus_3/element_g1.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
index 53b95a5..05351b0 100755
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
@@ -165,13 +165,13 @@ namespace nil {
                                   z y^2 = x^3  + a z^2 x + b z^3
                                   z (y^2 - b z^2) = x ( x^2 + a z^2)
 
-                                  z (y^2 - b z^2) = x ( x^2 - z^2)
+                                  z (y^2 - b z^2) = x ( x^2 - 3 z^2)
                                 */
                                 const field_value_type X2 = this->X.squared();
                                 const field_value_type Y2 = this->Y.squared();
                                 const field_value_type Z2 = this->Z.squared();
 
-                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2));
+                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2.doubled() - Z2));
                             }
                         }
 
-- 
2.43.0


From 93a2e0719beac4d0f5652455d0834c416c995fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 18/61] fix: the negative of the affine Weierstrass infinity is
 infinity

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index ae4b602..e65337a 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -218,6 +218,9 @@ namespace nil {
 
 
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return *this;
+                            }
                             return curve_element(this->X, -this->Y);
                         }
 
-- 
2.43.0


From f003c09b28f76942e0c6d4f48be64dad2165c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:04 +0000
Subject: [PATCH 19/61] fix: has_generate and has_check look at the type, not
 only at their fallback

---
 include/nil/crypto3/detail/type_traits.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/detail/type_traits.hpp b/include/nil/crypto3/detail/type_traits.hpp
index a6662e7..292a2e0 100644
--- a/include/nil/crypto3/detail/type_traits.hpp
+++ b/include/nil/crypto3/detail/type_traits.hpp
@@ -99,7 +99,11 @@
             void Function(##__VA_ARGS__);                                            \
         };                                                                           \
                                                                                      \
-        struct Derived : Fallback { };                                               \
+        struct Dummy { };                                                            \
+        using TType =                                                                \
+            typename std::conditional<std::is_class<T>::value, T, Dummy>::type;      \
+                                                                                     \
+        struct Derived : TType, Fallback { };                                        \
                                                                                      \
         template<typename C, C>                                                      \
         struct ChT;                                                                  \
@@ -121,7 +125,10 @@
             void Function(##__VA_ARGS__) const;                                            \
         };                                                                                 \
                                                                                            \
-        struct Derived : Fallback { };                                                     \
+        struct Dummy { };                                                                  \
+        using TType = typename std::conditional<std::is_class<T>::value, T, Dummy>::type;  \
+                                                                                           \
+        struct Derived : TType, Fallback { };                                              \
                                                                                            \
         template<typename C, C>                                                            \
         struct ChT;                                                                        \
-- 
2.43.0


From 59fdd21a0b29690328e74c22fc49871675f81243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:04 +0000
Subject: [PATCH 20/61] fix: is_curve accepts curves whose groups are templates

---
 include/nil/crypto3/algebra/type_traits.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/type_traits.hpp b/include/nil/crypto3/algebra/type_traits.hpp
index 303fcca..ce54205 100644
--- a/include/nil/crypto3/algebra/type_traits.hpp
+++ b/include/nil/crypto3/algebra/type_traits.hpp
@@ -54,6 +54,10 @@ namespace nil {
             BOOST_TTI_HAS_TYPE(g2_type)
             BOOST_TTI_HAS_TYPE(gt_type)
 
+            // groups of a curve are templates over the coordinates and the form
+            BOOST_TTI_HAS_TEMPLATE(g1_type)
+            BOOST_TTI_HAS_TEMPLATE(g2_type)
+
             BOOST_TTI_HAS_TYPE(group_type)
 
             BOOST_TTI_HAS_STATIC_MEMBER_DATA(value_bits)
@@ -78,7 +82,8 @@ namespace nil {
             template<typename T>
             struct is_curve {
                 static const bool value = has_type_base_field_type<T>::value && has_type_scalar_field_type<T>::value &&
-                                          has_type_g1_type<T>::value && has_type_g2_type<T>::value &&
+                                          (has_type_g1_type<T>::value || has_template_g1_type<T>::value) &&
+                                          (has_type_g2_type<T>::value || has_template_g2_type<T>::value) &&
                                           has_type_gt_type<T>::value;
                 typedef T type;
             };
-- 
2.43.0


From fb40f45c4909ded56ec89b110675e15898be8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 21/61] fix: scalar sqrt of zero is a constant expression

---
 include/nil/crypto3/algebra/scalar/math.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 7ca31e4..a517eec 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -47,6 +47,8 @@ namespace nil {
             constexpr double sqrt(double x) {
                 if (x < 0)
                     throw "sqrt argument must be positive";
+                if (x == 0)
+                    return x;
                 // the iterates decrease from (1 + x) / 2 down to the root; rounding may make the last ones alternate
                 double prev = 0;
                 double est = (1 + x) / 2;
-- 
2.43.0


From 268435ebb079c212c2a13c1bb5f23d3b4b310317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 22/61] fix: strxor of iterators returns the end of its output
 and its header compiles

---
 include/nil/crypto3/algebra/algorithms/strxor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/strxor.hpp b/include/nil/crypto3/algebra/algorithms/strxor.hpp
index ebd3180..8e95eb5 100644
--- a/include/nil/crypto3/algebra/algorithms/strxor.hpp
+++ b/include/nil/crypto3/algebra/algorithms/strxor.hpp
@@ -28,8 +28,10 @@
 
 #include <boost/concept/assert.hpp>
 #include <boost/assert.hpp>
+#include <boost/range/concepts.hpp>
 
 #include <iterator>
+#include <type_traits>
 
 namespace nil {
     namespace crypto3 {
@@ -46,6 +48,7 @@ namespace nil {
                 while (first1 != last1 && first2 != last2) {
                     *out++ = *first1++ ^ *first2++;
                 }
+                return out;
             }
 
             template<typename InputType, typename OutputType>
-- 
2.43.0


From a21378adec996e0d8d6353104030c3db9e4bf210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 23/61] fix: state_adder compiles

---
 include/nil/crypto3/detail/state_adder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/detail/state_adder.hpp b/include/nil/crypto3/detail/state_adder.hpp
index d8f9c86..3d47b36 100644
--- a/include/nil/crypto3/detail/state_adder.hpp
+++ b/include/nil/crypto3/detail/state_adder.hpp
@@ -31,9 +31,9 @@ namespace nil {
             struct state_adder {
                 template<typename T>
                 void operator()(T &s1, T const &s2) {
-                    typedef typename T::size_type std::size_type;
-                    std::size_type n = (s2.size() < s1.size() ? s2.size() : s1.size());
-                    for (typename T::size_type i = 0; i < n; ++i) {
+                    typedef typename T::size_type size_type;
+                    size_type n = (s2.size() < s1.size() ? s2.size() : s1.size());
+                    for (size_type i = 0; i < n; ++i) {
                         s1[i] += s2[i];
                     }
                 }
-- 
2.43.0


From 1a4099bc8e5be275d86a40470724b26376344df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 24/61] fix: totient_list of one lists one

---
 include/nil/crypto3/algebra/totient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/totient.hpp b/include/nil/crypto3/algebra/totient.hpp
index 663b848..60bc1ed 100644
--- a/include/nil/crypto3/algebra/totient.hpp
+++ b/include/nil/crypto3/algebra/totient.hpp
@@ -65,7 +65,7 @@ namespace nil {
                 std::vector<IntegerType> result;
                 IntegerType one = 1;
 
-                for (IntegerType i = 1; i < n; i++) {
+                for (IntegerType i = 1; i <= n; i++) {
                     if (boost::multiprecision::gcd(i, n) == one)
                         result.push_back(i);
                 }
-- 
2.43.0


From 3dde0c301e1c776bb5dac32872a34ed5b1fe82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:00 +0000
Subject: [PATCH 25/61] fix: secp_r1_scalar_field<160>::value_type named an
 undefined specialisation

---
 .../nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp b/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
index 8ca3869..2fcb92f 100644
--- a/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
@@ -68,7 +68,7 @@ namespace nil {
                             boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
                         modular_type;
 
-                    typedef typename detail::element_fp<params<secp_r1_scalar_field<161>>> value_type;
+                    typedef typename detail::element_fp<params<secp_r1_scalar_field<160>>> value_type;
 
                     constexpr static const std::size_t value_bits = modulus_bits;
                     constexpr static const std::size_t arity = 1;
-- 
2.43.0


From d36cc037466881ac57c5cb09bf1db18a1fc4cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:33 +0000
Subject: [PATCH 26/61] fix: brainpool_r1 field aliases redeclared with other
 default arguments

---
 .../fields/brainpool_r1/base_field.hpp        | 24 -------------------
 .../fields/brainpool_r1/scalar_field.hpp      | 12 ----------
 2 files changed, 36 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp b/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
index 2a83a08..bc50fe8 100644
--- a/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/brainpool_r1/base_field.hpp
@@ -260,33 +260,9 @@ namespace nil {
 
                 template<std::size_t Version = 160>
                 using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1_fq = brainpool_r1_base_field<Version>;
 
                 template<std::size_t Version = 160>
                 using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1 = brainpool_r1_base_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp b/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
index cd93801..35760a6 100644
--- a/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/brainpool_r1/scalar_field.hpp
@@ -246,18 +246,6 @@ namespace nil {
 
                 template<std::size_t Version = 160>
                 using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 192>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 224>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 256>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 320>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 384>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
-                template<std::size_t Version = 512>
-                using brainpool_r1_fr = brainpool_r1_scalar_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From 0e79f31870e6a8239f501ac6882719029023d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:33 +0000
Subject: [PATCH 27/61] fix: x962_p field aliases redeclared or naming
 undefined templates

---
 .../nil/crypto3/algebra/fields/x962_p/base_field.hpp   |  8 --------
 .../nil/crypto3/algebra/fields/x962_p/scalar_field.hpp | 10 +++-------
 2 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp b/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
index 88e623e..bab7ec2 100644
--- a/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/x962_p/base_field.hpp
@@ -206,10 +206,6 @@ namespace nil {
                 using x962_p_v3_fq = x962_p_v3_base_field<Version>;
                 template<std::size_t Version = 239>
                 using x962_p_v1_fq = x962_p_v1_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2_fq = x962_p_v2_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3_fq = x962_p_v3_base_field<Version>;
 
                 template<std::size_t Version = 192>
                 using x962_p_v2 = x962_p_v2_base_field<Version>;
@@ -217,10 +213,6 @@ namespace nil {
                 using x962_p_v3 = x962_p_v3_base_field<Version>;
                 template<std::size_t Version = 239>
                 using x962_p_v1 = x962_p_v1_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2 = x962_p_v2_base_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3 = x962_p_v3_base_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp b/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
index 34aa9df..88641c7 100644
--- a/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/x962_p/scalar_field.hpp
@@ -206,15 +206,11 @@ namespace nil {
                     x962_p_v3_scalar_field<239>::modulus_params;
 
                 template<std::size_t Version = 192>
-                using x962_p_v2_fr = x962_p_v2_scalar_field_field<Version>;
+                using x962_p_v2_fr = x962_p_v2_scalar_field<Version>;
                 template<std::size_t Version = 192>
-                using x962_p_v3_fr = x962_p_v3_scalar_field_field<Version>;
+                using x962_p_v3_fr = x962_p_v3_scalar_field<Version>;
                 template<std::size_t Version = 239>
-                using x962_p_v1_fr = x962_p_v1_scalar_field_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v2_fr = x962_p_v2_scalar_field_field<Version>;
-                template<std::size_t Version = 239>
-                using x962_p_v3_fr = x962_p_v3_scalar_field_field<Version>;
+                using x962_p_v1_fr = x962_p_v1_scalar_field<Version>;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From 77050e4de2a8ff22240e203aebbb2d51c9d9cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:33 +0000
Subject: [PATCH 28/61] fix: frp_v1 base field named differently from its
 aliases

---
 .../nil/crypto3/algebra/fields/frp_v1/base_field.hpp   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp b/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
index b4360e9..754f59f 100644
--- a/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
+++ b/include/nil/crypto3/algebra/fields/frp_v1/base_field.hpp
@@ -43,10 +43,10 @@ namespace nil {
                  * @tparam Version
                  */
                 template<std::size_t Version>
-                struct frp_v1_base_fields : public field<Version> { };
+                struct frp_v1_base_field : public field<Version> { };
 
                 template<>
-                struct frp_v1_base_fields<256> : public field<256> {
+                struct frp_v1_base_field<256> : public field<256> {
                     typedef field<256> policy_type;
 
                     constexpr static const std::size_t modulus_bits = policy_type::modulus_bits;
@@ -67,16 +67,16 @@ namespace nil {
                             boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
                         modular_type;
 
-                    typedef typename detail::element_fp<params<frp_v1_base_fields<256>>> value_type;
+                    typedef typename detail::element_fp<params<frp_v1_base_field<256>>> value_type;
 
                     constexpr static const std::size_t value_bits = modulus_bits;
                     constexpr static const std::size_t arity = 1;
                 };
 
-                constexpr typename frp_v1_base_fields<256>::integral_type const frp_v1_base_fields<256>::modulus;
+                constexpr typename frp_v1_base_field<256>::integral_type const frp_v1_base_field<256>::modulus;
 
                 constexpr
-                    typename frp_v1_base_fields<256>::modular_params_type const frp_v1_base_fields<256>::modulus_params;
+                    typename frp_v1_base_field<256>::modular_params_type const frp_v1_base_field<256>::modulus_params;
 
                 template<std::size_t Version = 256>
                 using frp_v1_fq = frp_v1_base_field<Version>;
-- 
2.43.0


From 65abea76db9d64b0809d1e577428fb1d9ec7322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:33 +0000
Subject: [PATCH 29/61] fix: modp_ietf defined static members the primary
 template lacks

---
 include/nil/crypto3/algebra/fields/modp_ietf.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/modp_ietf.hpp b/include/nil/crypto3/algebra/fields/modp_ietf.hpp
index b8465bf..364530c 100644
--- a/include/nil/crypto3/algebra/fields/modp_ietf.hpp
+++ b/include/nil/crypto3/algebra/fields/modp_ietf.hpp
@@ -230,12 +230,6 @@ namespace nil {
                     constexpr static const std::size_t arity = 1;
                 };
 
-                template<std::size_t Version>
-                constexpr typename modp_ietf<Version>::integral_type const modp_ietf<Version>::modulus;
-
-                template<std::size_t Version>
-                constexpr typename modp_ietf<Version>::integral_type const modp_ietf<Version>::mul_generator;
-
                 constexpr typename modp_ietf<1024>::integral_type const modp_ietf<1024>::modulus;
                 constexpr typename modp_ietf<1536>::integral_type const modp_ietf<1536>::modulus;
                 constexpr typename modp_ietf<2048>::integral_type const modp_ietf<2048>::modulus;
-- 
2.43.0


From 0b3448847be2c924d3741bf66ebad7a77ce2729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:00 +0000
Subject: [PATCH 30/61] fix: edwards and bn128 arithmetic parameters did not
 compile

---
 .../fields/arithmetic_params/bn128.hpp        | 30 ++++++++---------
 .../fields/arithmetic_params/edwards.hpp      | 32 +++++++++----------
 2 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp b/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
index 17a1939..f82aa68 100644
--- a/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
+++ b/include/nil/crypto3/algebra/fields/arithmetic_params/bn128.hpp
@@ -39,10 +39,10 @@ namespace nil {
         namespace algebra {
             namespace fields {
 
-                template<std::size_t Version>
-                struct arithmetic_params<bn128_base_field<Version>> : public params<bn128_base_field<Version>> {
+                template<>
+                struct arithmetic_params<bn128_base_field<254>> : public params<bn128_base_field<254>> {
                 private:
-                    typedef params<bn128_base_field<Version>> policy_type;
+                    typedef params<bn128_base_field<254>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -68,14 +68,14 @@ namespace nil {
                         0x20FD6E902D592544EF7F0B0C0ADA0AFB62F210E6A7283DB6B1CD6DAFDA1530DF_cppui_modular254;
 
                     constexpr static const integral_type modulus = policy_type::modulus;
-                    constexpr static const integral_type group_order =
+                    constexpr static const integral_type group_order_minus_one_half =
                         0x183227397098D014DC2822DB40C0AC2ECBC0B548B438E5469E10460B6C3E7EA3_cppui_modular254;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<fp2<bn128_base_field<Version>>> : public params<bn128_base_field<Version>> {
+                template<>
+                struct arithmetic_params<fp2<bn128_base_field<254>>> : public params<bn128_base_field<254>> {
                 private:
-                    typedef params<bn128_base_field<Version>> policy_type;
+                    typedef params<bn128_base_field<254>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -94,14 +94,14 @@ namespace nil {
                         0xB1FFEFD8885BF22252522C29527D19F05CFC50E9715370AB0F3A6CA462390C_cppui_modular248};
 
                     constexpr static const integral_type modulus = policy_type::modulus;
-                    constexpr static const extended_integral_type group_order =
+                    constexpr static const extended_integral_type group_order_minus_one_half =
                         0x492E25C3B1E5FCE2CCD37BE01A4690E5805C2A88B1BAB031376FD2E1A6359C682344F4ABD09216425280C4E36CB656E5301039684F560809DAA2C5113AEB4D8_cppui_modular507;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<bn128_scalar_field<Version>> : public params<bn128_scalar_field<Version>> {
+                template<>
+                struct arithmetic_params<bn128_scalar_field<254>> : public params<bn128_scalar_field<254>> {
                 private:
-                    typedef params<bn128_scalar_field<Version>> policy_type;
+                    typedef params<bn128_scalar_field<254>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -127,7 +127,7 @@ namespace nil {
                         0xCF8594B7FCC657C893CC664A19FCFED2A489CBE1CFBB6B85E94D8E1B4BF0040_cppui_modular252;
 
                     constexpr static const integral_type modulus = policy_type::modulus;
-                    constexpr static const integral_type group_order =
+                    constexpr static const integral_type group_order_minus_one_half =
                         0x183227397098D014DC2822DB40C0AC2E9419F4243CDCB848A1F0FAC9F8000000_cppui_modular254;
                 };
 
@@ -201,11 +201,11 @@ namespace nil {
                     arithmetic_params<bn128_scalar_field<254>>::modulus;
 
                 constexpr typename arithmetic_params<bn128_base_field<254>>::integral_type const
-                    arithmetic_params<bn128_base_field<254>>::group_order;
+                    arithmetic_params<bn128_base_field<254>>::group_order_minus_one_half;
                 constexpr typename arithmetic_params<fp2<bn128_base_field<254>>>::extended_integral_type const
-                    arithmetic_params<fp2<bn128_base_field<254>>>::group_order;
+                    arithmetic_params<fp2<bn128_base_field<254>>>::group_order_minus_one_half;
                 constexpr typename arithmetic_params<bn128_scalar_field<254>>::integral_type const
-                    arithmetic_params<bn128_scalar_field<254>>::group_order;
+                    arithmetic_params<bn128_scalar_field<254>>::group_order_minus_one_half;
 
             }    // namespace fields
         }        // namespace algebra
diff --git a/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp b/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
index 9144052..a9fa8e4 100644
--- a/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
+++ b/include/nil/crypto3/algebra/fields/arithmetic_params/edwards.hpp
@@ -39,10 +39,10 @@ namespace nil {
         namespace algebra {
             namespace fields {
 
-                template<std::size_t Version>
-                struct arithmetic_params<edwards_base_field<Version>> : public params<edwards_base_field<Version>> {
+                template<>
+                struct arithmetic_params<edwards_base_field<183>> : public params<edwards_base_field<183>> {
                 private:
-                    typedef params<edwards_base_field<Version>> policy_type;
+                    typedef params<edwards_base_field<183>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -67,15 +67,15 @@ namespace nil {
                         0xB4AC1B77CA0D59F20E4D04D7048823FE112E6248253AD_cppui_modular180;
 
                     constexpr static const integral_type modulus = policy_type::modulus;
-                    constexpr static const integral_type group_order =
+                    constexpr static const integral_type group_order_minus_one_half =
                         0x206AFE4E951CAD89C5C9276B1A16A0DB75B485C0000000_cppui_modular182;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<fp3<edwards_base_field<Version>>>
-                    : public params<edwards_base_field<Version>> {
+                template<>
+                struct arithmetic_params<fp3<edwards_base_field<183>>>
+                    : public params<edwards_base_field<183>> {
                 private:
-                    typedef params<edwards_base_field<Version>> policy_type;
+                    typedef params<edwards_base_field<183>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -93,14 +93,14 @@ namespace nil {
                         0x118228ECB464A2F6EB8DACC18FA757E45B3989330150C_cppui_modular177, 0x00, 0x00};
 
                     constexpr static const integral_type modulus = policy_type::modulus;
-                    constexpr static const extended_integral_type group_order =
+                    constexpr static const extended_integral_type group_order_minus_one_half =
                         0x214530CDE421990256A87901DDC6307E4ED27FAF4F877968EFCA129EF23243B915EF074F565027DAA0127ECF4EC788245754250524EA78AD2C1A16B28F2611D9140000000_cppui_modular546;
                 };
 
-                template<std::size_t Version>
-                struct arithmetic_params<edwards_scalar_field<Version>> : public params<edwards_scalar_field<Version>> {
+                template<>
+                struct arithmetic_params<edwards_scalar_field<183>> : public params<edwards_scalar_field<183>> {
                 private:
-                    typedef params<edwards_scalar_field<Version>> policy_type;
+                    typedef params<edwards_scalar_field<183>> policy_type;
 
                 public:
                     typedef typename policy_type::modular_type modular_type;
@@ -125,7 +125,7 @@ namespace nil {
                         0x96567C1A3452F0CC48A73504E02D6B598A5139B464B62_cppui_modular180;
 
                     constexpr static const integral_type modulus = policy_type::modulus;
-                    constexpr static const integral_type group_order =
+                    constexpr static const integral_type group_order_minus_one_half =
                         0x81ABF93A5472B62717249DC9709660EF2A993C0000000_cppui_modular181;
                 };
 
@@ -199,11 +199,11 @@ namespace nil {
                     arithmetic_params<edwards_scalar_field<183>>::modulus;
 
                 constexpr typename arithmetic_params<edwards_base_field<183>>::integral_type const
-                    arithmetic_params<edwards_base_field<183>>::group_order;
+                    arithmetic_params<edwards_base_field<183>>::group_order_minus_one_half;
                 constexpr typename arithmetic_params<fp3<edwards_base_field<183>>>::extended_integral_type const
-                    arithmetic_params<fp3<edwards_base_field<183>>>::group_order;
+                    arithmetic_params<fp3<edwards_base_field<183>>>::group_order_minus_one_half;
                 constexpr typename arithmetic_params<edwards_scalar_field<183>>::integral_type const
-                    arithmetic_params<edwards_scalar_field<183>>::group_order;
+                    arithmetic_params<edwards_scalar_field<183>>::group_order_minus_one_half;
 
             }    // namespace fields
         }        // namespace algebra
-- 
2.43.0


From 397a21cec8c15a7978837b106b058dc0a44fef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 31/61] fix: Frobenius coefficients of the bn128 extension
 fields were all zero

---
 .../bn128/fp12_2over3over2.hpp                | 26 +++++++++++++++++--
 .../detail/extension_params/bn128/fp2.hpp     |  3 ++-
 .../extension_params/bn128/fp6_3over2.hpp     | 26 +++++++++++++++++--
 3 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
index 8f82ecc..3d8b897 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp12_2over3over2.hpp
@@ -79,8 +79,30 @@ namespace nil {
                             non_residue_type(0x00, 0x00)};*/
 
                         constexpr static const std::array<integral_type, 12 * 2> Frobenius_coeffs_c1 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x1284B71C2865A7DFE8B99FDD76E68B605C521E08292F2176D60B35DADCC9E470_cppui_modular253,
+                            0x246996F3B4FAE7E6A6327CFE12150B8E747992778EEEC7E5CA5CF05F80F362AC_cppui_modular254,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD49_cppui_modular254,
+                            0x00,
+                            0x19DC81CFCC82E4BBEFE9608CD0ACAA90894CB38DBE55D24AE86F7D391ED4A67F_cppui_modular253,
+                            0xABF8B60BE77D7306CBEEE33576139D7F03A5E397D439EC7694AA2BF4C0C101_cppui_modular248,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x757CAB3A41D3CDC072FC0AF59C61F302CFA95859526B0D41264475E420AC20F_cppui_modular251,
+                            0xCA6B035381E35B618E9B79BA4E2606CA20B7DFD71573C93E85845E34C4A5B9C_cppui_modular252,
+                            0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254,
+                            0x00,
+                            0x1DDF9756B8CBF849CF96A5D90A9ACCFD3B2F4C893F42A9166615563BFBB318D7_cppui_modular253,
+                            0xBFAB77F2C36B843121DC8B86F6C4CCF2307D819D98302A771C39BB757899A9B_cppui_modular252,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0x1687CCA314AEBB6DC866E529B0D4ADCD0E34B703AA1BF84253B10EDDB9A856C8_cppui_modular253,
+                            0x2FB855BCD54A22B6B18456D34C0B44C0187DC4ADD09D90A0C58BE1EAE3BC3C46_cppui_modular254,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFF_cppui_modular191,
+                            0x00,
+                            0x290C83BF3D14634DB120850727BB392D6A86D50BD34B19B929BC44B896723B38_cppui_modular254,
+                            0x23BD9E3DA9136A739F668E1ADC9EF7F0F575EC93F71A8DF953C846338C32A1AB_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x09u, 0x01u);
                     };
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
index 61cc058..137a42d 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp2.hpp
@@ -81,7 +81,8 @@ namespace nil {
                         /*constexpr static const std::array<non_residue_type, 2> Frobenius_coeffs_c1 =
                            {non_residue_type(0x00), non_residue_type(0x00)};*/
 
-                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {0x00, 0x00};
+                        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {
+                            0x01, 0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(
                             0x30644E72E131A029B85045B68181585D97816A916871CA8D3C208C16D87CFD46_cppui_modular254);
diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
index c634fea..3685378 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/bn128/fp6_3over2.hpp
@@ -77,10 +77,32 @@ namespace nil {
                             non_residue_type(0x00, 0x00)};*/
 
                         constexpr static const std::array<integral_type, 6 * 2> Frobenius_coeffs_c1 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x2FB347984F7911F74C0BEC3CF559B143B78CC310C2C3330C99E39557176F553D_cppui_modular254,
+                            0x16C9E55061EBAE204BA4CC8BD75A079432AE2A1D0B7C9DCE1665D51C640FCBA2_cppui_modular253,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x856E078B755EF0ABAFF1C77959F25AC805FFD3D5D6942D37B746EE87BDCFB6D_cppui_modular252,
+                            0x4F1DE41B3D1766FA9F30E6DEC26094F0FDF31BF98FF2631380CAB2BAAA586DE_cppui_modular251,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0x28BE74D4BB943F51699582B87809D9CAF71614D4B0B71F3A62E913EE1DADA9E4_cppui_modular254,
+                            0x14A88AE0CB747B99C2B86ABCBE01477A54F40EB4C3F6068DEDAE0BCEC9C7AAC7_cppui_modular253};
 
                         constexpr static const std::array<integral_type, 6 * 2> Frobenius_coeffs_c2 = {
-                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00};
+                            0x01,
+                            0x00,
+                            0x5B54F5E64EEA80180F3C0B75A181E84D33365F7BE94EC72848A1F55921EA762_cppui_modular251,
+                            0x2C145EDBE7FD8AEE9F3A80B03B0B1C923685D2EA1BDEC763C13B4711CD2B8126_cppui_modular254,
+                            0x59E26BCEA0D48BACD4F263F1ACDB5C4F5763473177FFFFFE_cppui_modular191,
+                            0x00,
+                            0xBC58C6611C08DAB19BEE0F7B5B2444EE633094575B06BCB0E1A92BC3CCBF066_cppui_modular252,
+                            0x23D5E999E1910A12FEB0F6EF0CD21D04A44A9E08737F96E55FE3ED9D730C239F_cppui_modular254,
+                            0x30644E72E131A0295E6DD9E7E0ACCCB0C28F069FBB966E3DE4BD44E5607CFD48_cppui_modular254,
+                            0x00,
+                            0x1EE972AE6A826A7D1D9DA40771B6F589DE1AFB54342C724FA97BDA050992657F_cppui_modular253,
+                            0x10DE546FF8D4AB51D2B513CDBB25772454326430418536D15721E37E70C255C9_cppui_modular253};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x09u, 0x01u);
                     };
-- 
2.43.0


From 8175e7b25572b516b1173f470cd446401b4e47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 32/61] fix: square root of zero in quadratic and cubic
 extensions did not terminate

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 3 +++
 include/nil/crypto3/algebra/fields/detail/element/fp3.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0afe2c1..a3352c8 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -197,6 +197,9 @@ namespace nil {
 
                         constexpr element_fp2 sqrt() const {
 
+                            if (this->is_zero())
+                                return zero();
+
                             element_fp2 one = this->one();
 
                             std::size_t v = policy_type::s;
diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
index aa90cb5..a3e84ea 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
@@ -162,6 +162,9 @@ namespace nil {
                         }
 
                         constexpr element_fp3 sqrt() const {
+                            if (this->is_zero())
+                                return zero();
+
                             std::size_t v = policy_type::s;
                             element_fp3 z(policy_type::nqr_to_t[0], policy_type::nqr_to_t[1], policy_type::nqr_to_t[2]);
                             element_fp3 w = this->pow(policy_type::t_minus_1_over_2);
-- 
2.43.0


From 6ec20b726b822be435f8d3c37e01e1132884ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:36 +0000
Subject: [PATCH 33/61] fix: std::hash of a quadratic extension element did not
 compile

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index a3352c8..ce9fefd 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -28,6 +28,8 @@
 
 #include <type_traits>
 
+#include <boost/functional/hash.hpp>
+
 #include <nil/crypto3/algebra/fields/detail/exponentiation.hpp>
 #include <nil/crypto3/algebra/fields/detail/element/operations.hpp>
 
@@ -349,7 +351,7 @@ namespace nil {
 template<typename FieldParams>
 struct std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>>
 {
-    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::modular_type> hasher;
+    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::underlying_type> hasher;
     size_t operator()(const nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>& elem) const
     {
         std::size_t result = hasher(elem.data[0]);
-- 
2.43.0


From e978ca44a3f4ed4e6e0ec60ca211588716837588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 34/61] fix: last Frobenius coefficient of the mnt6 sextic
 extension

---
 .../fields/detail/extension_params/mnt6/fp6_2over3.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
index 16a8769..c245e6a 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
@@ -66,7 +66,7 @@ namespace nil {
                             non_residue_type(0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298),
                             non_residue_type(0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298),
                             non_residue_type(0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292),
-                            non_residue_type(0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293)};*/
+                            non_residue_type(0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular293)};*/
 
                         constexpr static const std::array<integral_type, 6> Frobenius_coeffs_c1 = {
                             0x01,
@@ -74,7 +74,7 @@ namespace nil {
                             0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298,
                             0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298,
                             0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292,
-                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293};
+                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular293};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x05u);
                     };
-- 
2.43.0


From 1774b6faad3734309881a780865075f2de87f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:03 +0000
Subject: [PATCH 35/61] fix: squareness test of the edwards cubic extension did
 not compile

---
 .../algebra/fields/detail/extension_params/edwards/fp3.hpp  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
index b36d267..8b24d03 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/edwards/fp3.hpp
@@ -53,6 +53,8 @@ namespace nil {
                         typedef params<base_field_type> policy_type;
 
                     public:
+                        using field_type = fields::fp3<base_field_type>;
+
                         typedef typename policy_type::integral_type integral_type;
                         typedef typename policy_type::extended_integral_type extended_integral_type;
 
@@ -72,7 +74,7 @@ namespace nil {
                         constexpr static const std::array<integral_type, 3> nqr_to_t = {
                             0x118228ECB464A2F6EB8DACC18FA757E45B3989330150C_cppui_modular177, 0x00, 0x00};
 
-                        constexpr static const extended_integral_type group_order =
+                        constexpr static const extended_integral_type group_order_minus_one_half =
                             0x214530CDE421990256A87901DDC6307E4ED27FAF4F877968EFCA129EF23243B915EF074F565027DAA0127ECF4EC788245754250524EA78AD2C1A16B28F2611D9140000000_cppui_modular546;
 
                         /*constexpr static const std::array<non_residue_type, 3> Frobenius_coeffs_c1 =
@@ -121,7 +123,7 @@ namespace nil {
 
                     template<std::size_t Version>
                     constexpr typename fp3_extension_params<edwards_base_field<Version>>::extended_integral_type const
-                        fp3_extension_params<edwards_base_field<Version>>::group_order;
+                        fp3_extension_params<edwards_base_field<Version>>::group_order_minus_one_half;
 
                     template<std::size_t Version>
                     constexpr typename fp3_extension_params<edwards_base_field<Version>>::integral_type const
-- 
2.43.0


From 01a42331034c252694c5d29c47aa210b373eec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:10 +0000
Subject: [PATCH 36/61] fix: affine Weierstrass addition and doubling did not
 compile over extension fields

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index e65337a..efdcc8b 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -245,7 +245,8 @@ namespace nil {
                                 X = params_type::zero_fill[0];
                                 Y = params_type::zero_fill[1];
                             } else if (!this->is_zero()) {
-                                field_value_type Xsquared3pa = 3u * X.squared() + params_type::a;
+                                field_value_type Xsquared = X.squared();
+                                field_value_type Xsquared3pa = Xsquared.doubled() + Xsquared + params_type::a;
                                 field_value_type Y2squared = Y.doubled().squared();
                                 field_value_type Y2i = Y.doubled().inversed();
 
@@ -277,7 +278,7 @@ namespace nil {
                             }
                             X2mX1i = X2mX1i.inversed();
 
-                            Y = (2 * X + other.X) * Y2mY1 * X2mX1i -
+                            Y = (X.doubled() + other.X) * Y2mY1 * X2mX1i -
                                                   (Y2mY1.pow(3u)) * X2mX1i.pow(3u) - Y;
                             X = Y2mY1.squared() * X2mX1i * X2mX1i - X - other.X;
                         }
-- 
2.43.0


From 453add1b47df13baffb8c9ef07583a884436cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:10 +0000
Subject: [PATCH 37/61] fix: coefficient a of the second groups of alt_bn128
 and bls12 lies in their field, so affine and projective doubling compile

---
 .../curves/detail/alt_bn128/254/short_weierstrass_params.hpp     | 1 +
 .../algebra/curves/detail/bls12/377/short_weierstrass_params.hpp | 1 +
 .../algebra/curves/detail/bls12/381/short_weierstrass_params.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/alt_bn128/254/short_weierstrass_params.hpp b/include/nil/crypto3/algebra/curves/detail/alt_bn128/254/short_weierstrass_params.hpp
index 182890a..a88164d 100644
--- a/include/nil/crypto3/algebra/curves/detail/alt_bn128/254/short_weierstrass_params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/alt_bn128/254/short_weierstrass_params.hpp
@@ -85,6 +85,7 @@ namespace nil {
                             typename field_type::value_type(0x09u, 0x01u);
                         constexpr static const typename field_type::value_type::underlying_type g1_b =
                             typename field_type::value_type::underlying_type(b);
+                        constexpr static const typename field_type::value_type a = field_type::value_type::zero();
                         constexpr static const typename field_type::value_type b = g1_b * twist.inversed();
 
 #ifdef STANDARD_EC_INF_POINTS_ENABLED
diff --git a/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp b/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp
index 3decc06..d8dbe1e 100644
--- a/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp
@@ -89,6 +89,7 @@ namespace nil {
                                                             field_type::value_type::underlying_type::one());
                         constexpr static const typename field_type::value_type::underlying_type g1_b =
                             typename field_type::value_type::underlying_type(b);
+                        constexpr static const typename field_type::value_type a = field_type::value_type::zero();
                         constexpr static const typename field_type::value_type b = g1_b * twist.inversed();
 
 #ifdef STANDARD_EC_INF_POINTS_ENABLED
diff --git a/include/nil/crypto3/algebra/curves/detail/bls12/381/short_weierstrass_params.hpp b/include/nil/crypto3/algebra/curves/detail/bls12/381/short_weierstrass_params.hpp
index 3a79fd3..badd690 100644
--- a/include/nil/crypto3/algebra/curves/detail/bls12/381/short_weierstrass_params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/bls12/381/short_weierstrass_params.hpp
@@ -86,6 +86,7 @@ namespace nil {
                                                             field_type::value_type::underlying_type::one());
                         constexpr static const typename field_type::value_type::underlying_type g1_b =
                             typename field_type::value_type::underlying_type(b);
+                        constexpr static const typename field_type::value_type a = field_type::value_type::zero();
                         constexpr static const typename field_type::value_type b = g1_b * twist;
 
                         template<typename Coordinates>
-- 
2.43.0


From 8d080726fa275a9b76417e0ccbe7bcf5a680593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:10 +0000
Subject: [PATCH 38/61] fix: curve25519 Montgomery coefficients are named as
 the element class expects

---
 .../algebra/curves/detail/curve25519/params.hpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp b/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
index 6f4e5f9..eed7c80 100644
--- a/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
@@ -45,12 +45,12 @@ namespace nil {
                         using base_field_type = typename curve25519_types::base_field_type;
                         using scalar_field_type = typename curve25519_types::scalar_field_type;
 
-                        constexpr static typename curve25519_types::integral_type a =
+                        constexpr static typename curve25519_types::integral_type A =
                             typename curve25519_types::integral_type(
-                                0x76d06);    ///< coefficient of Montgomery curve $b*y^2=x^3+a*x^2+x$
-                        constexpr static typename curve25519_types::integral_type b =
+                                0x76d06);    ///< coefficient of Montgomery curve $B*y^2=x^3+A*x^2+x$
+                        constexpr static typename curve25519_types::integral_type B =
                             typename curve25519_types::integral_type(
-                                0x01);    ///< coefficient of Montgomery curve $b*y^2=x^3+a*x^2+x$
+                                0x01);    ///< coefficient of Montgomery curve $B*y^2=x^3+A*x^2+x$
                     };
 
                     template<>
@@ -128,8 +128,8 @@ namespace nil {
                     };
 #ifdef __ZKLLVM__
 #else
-                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::a;
-                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::b;
+                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::A;
+                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::B;
 
                     constexpr std::array<typename curve25519_g1_params<forms::montgomery>::field_type::value_type, 2>
                         curve25519_g1_params<forms::montgomery>::zero_fill;
-- 
2.43.0


From 5dc238964727c398ef7c1ce469399ae493ddb00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:10 +0000
Subject: [PATCH 39/61] fix: is_well_formed of the second Edwards group used
 the coefficients of the first

---
 .../nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
index 27b8893..f3a175f 100644
--- a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
@@ -133,7 +133,7 @@ namespace nil {
                                 const auto Y2 = this->Y.squared();
                                 const auto Z2 = this->Z.squared();
 
-                                return (policy_type::a * Z2*Y2 + Z2*X2 == X2*Y2 + policy_type::d * Z2*Z2);
+                                return (mul_by_a(Z2*Y2) + Z2*X2 == X2*Y2 + mul_by_d(Z2*Z2));
                             }
                         }
 
-- 
2.43.0


From 9b752b64fa376f052be027be97ee4ca2d27327a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:10 +0000
Subject: [PATCH 40/61] fix: subgroup_check named a member no curve has

---
 include/nil/crypto3/algebra/curves/detail/subgroup_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/subgroup_check.hpp b/include/nil/crypto3/algebra/curves/detail/subgroup_check.hpp
index fc0fcc6..fd0ad62 100644
--- a/include/nil/crypto3/algebra/curves/detail/subgroup_check.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/subgroup_check.hpp
@@ -39,7 +39,7 @@ namespace nil {
                                                           is_curve_group<typename GroupValueType::group_type>::value &&
                                                           !is_field<typename GroupValueType::group_type>::value>::type>
                     bool subgroup_check(const GroupValueType &p) {
-                        return (p * GroupValueType::group_type::curve_type::q).is_zero();
+                        return (p * GroupValueType::group_type::curve_type::scalar_field_type::modulus).is_zero();
                     }
                 }    // namespace detail
             }        // namespace curves
-- 
2.43.0


From a1ab98d83007772e421c57d608ab4f0c78bf326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:59 +0000
Subject: [PATCH 41/61] fix: get_exp_window_size(0) ran past the beginning of
 the window table

---
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 281b954..1d23cd9 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -126,8 +126,7 @@ namespace nil {
 
                 std::size_t window = 1;
 
-                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size() - 1; i >= 0;
-                     --i) {
+                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size(); i-- > 0;) {
                     if (curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i] != 0 &&
                         num_scalars >= curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i]) {
                         window = i + 1;
-- 
2.43.0


From 61bd9cdb7bff760e07b15dea6bdea9c1363f5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:00 +0000
Subject: [PATCH 42/61] fix: multiexp with a chunk count of zero divided by
 zero

---
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 1d23cd9..6948bdc 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -47,7 +47,7 @@ namespace nil {
 
                 const std::size_t total_size = std::distance(vec_start, vec_end);
 
-                if ((total_size < chunks_count) || (chunks_count == 1)) {
+                if ((total_size < chunks_count) || (chunks_count <= 1)) {
                     // no need to split into "chunks_count", can call implementation directly
                     return MultiexpMethod::process(vec_start, vec_end, scalar_start, scalar_end);
                 }
-- 
2.43.0


From 77d3fa008a3b53b0b362023cfbb141d7cdedb32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:00 +0000
Subject: [PATCH 43/61] fix: bucket multi-exponentiation of an empty input took
 the logarithm of zero

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 03bba5a..e1b1504 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -110,6 +110,10 @@ namespace nil {
                         std::size_t length = std::distance(bases, bases_end);
                         assert(length == std::distance(exponents, exponents_end));
 
+                        if (length == 0) {
+                            return base_value_type::zero();
+                        }
+
                         // empirically, this seems to be a decent estimate of the optimal value of c
                         std::size_t log2_length = std::log2(length);
                         std::size_t c = log2_length - (log2_length / 3 - 2);
-- 
2.43.0


From 259dc83c9c015b2ef487790f59fa0f2ba2561f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:00 +0000
Subject: [PATCH 44/61] fix: Bos-Coster multi-exponentiation took the most
 significant bit of zero when all scalars are zero

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index e1b1504..eda7bca 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -273,6 +273,11 @@ namespace nil {
                             detail::ordered_exponent<non_fixed_precision_number_type> &b =
                                 (opt_q[1] < opt_q[2] ? opt_q[2] : opt_q[1]);
 
+                            if (a.r.is_zero()) {
+                                // every scalar is zero
+                                break;
+                            }
+
                             const std::size_t abits = boost::multiprecision::msb(a.r) + 1;
 
                             if (b.r.is_zero()) {
-- 
2.43.0


From f114912b3875f61c3c68e6ecc246cb55f8daf328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:24 +0000
Subject: [PATCH 45/61] fix: the bls12 pairing with the identity of the second
 group was not one

---
 .../jacobian_with_a4_0/ate_precompute_g2.hpp     | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
index 4aa8568..221646c 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp
@@ -123,6 +123,14 @@ namespace nil {
                         bool found_one = false;
                         typename policy_type::ate_ell_coeffs c;
 
+                        // every line of the identity is the constant one
+                        const bool Q_is_zero = Q.is_zero();
+                        if (Q_is_zero) {
+                            c.ell_0 = g2_field_type_value::one();
+                            c.ell_VW = g2_field_type_value::zero();
+                            c.ell_VV = g2_field_type_value::zero();
+                        }
+
                         for (long i = params_type::integral_type_max_bits; i >= 0; --i) {
                             const bool bit = boost::multiprecision::bit_test(loop_count, i);
                             if (!found_one) {
@@ -131,11 +139,15 @@ namespace nil {
                                 continue;
                             }
 
-                            doubling_step_for_miller_loop(two_inv, R, c);
+                            if (!Q_is_zero) {
+                                doubling_step_for_miller_loop(two_inv, R, c);
+                            }
                             result.coeffs.push_back(c);
 
                             if (bit) {
-                                mixed_addition_step_for_miller_loop(Qcopy, R, c);
+                                if (!Q_is_zero) {
+                                    mixed_addition_step_for_miller_loop(Qcopy, R, c);
+                                }
                                 result.coeffs.push_back(c);
                             }
                         }
-- 
2.43.0


From 31d11ffc727504bcaa91ebd17cc6655e456aa4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:24 +0000
Subject: [PATCH 46/61] fix: the mnt pairing with the identity of the second
 group was not one

---
 .../projective/ate_precompute_g2.hpp          | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
index 10a892c..903fcd1 100644
--- a/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/forms/short_weierstrass/projective/ate_precompute_g2.hpp
@@ -134,6 +134,20 @@ namespace nil {
                         R.T = g2_field_type_value::one();
                         bool found_one = false;
 
+                        typename policy_type::ate_dbl_coeffs dc;
+                        typename policy_type::ate_add_coeffs ac;
+
+                        // the lines of the identity take their values in proper subfields up to a factor, so that the
+                        // final exponentiation maps them to one
+                        const bool Q_is_zero = Q.is_zero();
+                        if (Q_is_zero) {
+                            result.QX_over_twist = params_type::twist;    // not the abscissa of a point of G1
+                            dc.c_H = dc.c_4C = dc.c_J = g2_field_type_value::zero();
+                            dc.c_L = g2_field_type_value::one();
+                            ac.c_L1 = g2_field_type_value::one();
+                            ac.c_RZ = g2_field_type_value::zero();
+                        }
+
                         for (long i = params_type::integral_type_max_bits - 1; i >= 0; --i) {
                             const bool bit = boost::multiprecision::bit_test(params_type::ate_loop_count, i);
                             if (!found_one) {
@@ -142,26 +156,30 @@ namespace nil {
                                 continue;
                             }
 
-                            typename policy_type::ate_dbl_coeffs dc;
-                            doubling_step_for_flipped_miller_loop(R, dc);
+                            if (!Q_is_zero) {
+                                doubling_step_for_flipped_miller_loop(R, dc);
+                            }
                             result.dbl_coeffs.push_back(dc);
                             if (bit) {
-                                typename policy_type::ate_add_coeffs ac;
-                                mixed_addition_step_for_flipped_miller_loop(result.QX, result.QY, result.QY2, R, ac);
+                                if (!Q_is_zero) {
+                                    mixed_addition_step_for_flipped_miller_loop(result.QX, result.QY, result.QY2, R,
+                                                                                ac);
+                                }
                                 result.add_coeffs.push_back(ac);
                             }
                         }
 
                         if (params_type::ate_is_loop_count_neg) {
-                            g2_field_type_value RZ_inv = R.Z.inversed();
-                            g2_field_type_value RZ2_inv = RZ_inv.squared();
-                            g2_field_type_value RZ3_inv = RZ2_inv * RZ_inv;
-                            g2_field_type_value minus_R_affine_X = R.X * RZ2_inv;
-                            g2_field_type_value minus_R_affine_Y = -R.Y * RZ3_inv;
-                            g2_field_type_value minus_R_affine_Y2 = minus_R_affine_Y.squared();
-                            typename policy_type::ate_add_coeffs ac;
-                            mixed_addition_step_for_flipped_miller_loop(minus_R_affine_X, minus_R_affine_Y,
-                                                                        minus_R_affine_Y2, R, ac);
+                            if (!Q_is_zero) {
+                                g2_field_type_value RZ_inv = R.Z.inversed();
+                                g2_field_type_value RZ2_inv = RZ_inv.squared();
+                                g2_field_type_value RZ3_inv = RZ2_inv * RZ_inv;
+                                g2_field_type_value minus_R_affine_X = R.X * RZ2_inv;
+                                g2_field_type_value minus_R_affine_Y = -R.Y * RZ3_inv;
+                                g2_field_type_value minus_R_affine_Y2 = minus_R_affine_Y.squared();
+                                mixed_addition_step_for_flipped_miller_loop(minus_R_affine_X, minus_R_affine_Y,
+                                                                            minus_R_affine_Y2, R, ac);
+                            }
                             result.add_coeffs.push_back(ac);
                         }
 
-- 
2.43.0


From 3fa0bb9d4c2161a185ae32a7c500ba591da6aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:24 +0000
Subject: [PATCH 47/61] fix: the edwards pairing with the identity of the
 second group was not one

---
 .../pairing/edwards/183/ate_precompute_g2.hpp | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp b/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
index b9ec6cc..6faf96b 100644
--- a/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
+++ b/include/nil/crypto3/algebra/pairing/edwards/183/ate_precompute_g2.hpp
@@ -176,6 +176,17 @@ namespace nil {
 
                         const typename policy_type::integral_type &loop_count = params_type::ate_loop_count;
 
+                        typename policy_type::Fq3_conic_coefficients cc;
+
+                        // the conics of the identity take their values in a proper subfield up to a factor, so that the
+                        // final exponentiation maps them to one
+                        const bool Q_is_zero = Q.is_zero();
+                        if (Q_is_zero) {
+                            cc.c_XY = g2_field_type_value::zero();
+                            cc.c_XZ = g2_field_type_value::zero();
+                            cc.c_ZZ = g2_field_type_value::one();
+                        }
+
                         bool found_one = false;
                         for (long i = params_type::integral_type_max_bits - 1; i >= 0; --i) {
                             const bool bit = boost::multiprecision::bit_test(loop_count, i);
@@ -185,11 +196,14 @@ namespace nil {
                                 continue;
                             }
 
-                            typename policy_type::Fq3_conic_coefficients cc;
-                            doubling_step_for_flipped_miller_loop(R, cc);
+                            if (!Q_is_zero) {
+                                doubling_step_for_flipped_miller_loop(R, cc);
+                            }
                             result.push_back(cc);
                             if (bit) {
-                                mixed_addition_step_for_flipped_miller_loop(Q_ext, R, cc);
+                                if (!Q_is_zero) {
+                                    mixed_addition_step_for_flipped_miller_loop(Q_ext, R, cc);
+                                }
                                 result.push_back(cc);
                             }
                         }
-- 
2.43.0


From 37a081f8a38caf69267801853091251eaef27874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:02 +0000
Subject: [PATCH 48/61] fix: octets_to_g2_point wrote a range that is no array
 past its end

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 644dbea..8a27f5b 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -173,8 +173,7 @@ namespace nil {
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
                 BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
-                PointOctetsRange point_octets;
-                std::copy(octets.begin(), octets.end(), point_octets.begin());
+                PointOctetsRange point_octets = octets;
                 *point_octets.begin() &= 0x1F;
 
                 if (m_byte & C_bit) {
-- 
2.43.0


From d9680fea5d5733cb15a38048e01da16a60c18df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:12 +0000
Subject: [PATCH 49/61] fix: the decoder of points took most octets as part of
 the identity

---
 .../crypto3/algebra/curves/detail/marshalling.hpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 8a27f5b..d6d2108 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -32,6 +32,7 @@
 
 #include <boost/concept/assert.hpp>
 
+#include <algorithm>
 #include <iterator>
 
 namespace nil {
@@ -196,7 +197,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -224,7 +226,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -245,7 +248,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g2_value_type();    // point at infinity
                 }
 
@@ -276,7 +280,8 @@ namespace nil {
                 BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 4 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    BOOST_ASSERT(std::all_of(point_octets.begin(), point_octets.end(),
+                                             [](std::uint8_t octet) { return octet == 0; }));
                     return g2_value_type();    // point at infinity
                 }
 
-- 
2.43.0


From b637104ee749f82c308dfc3cc79c6f7e2e80820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:12 +0000
Subject: [PATCH 50/61] fix: the decoder of points accepted coordinates that
 are not reduced

---
 .../crypto3/algebra/curves/detail/marshalling.hpp  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index d6d2108..986237c 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -204,6 +204,7 @@ namespace nil {
 
                 integral_type x;
                 boost::multiprecision::import_bits(x, point_octets.rbegin(), point_octets.rend(), 8, false);
+                BOOST_ASSERT(x < g1_field_value_type::modulus);
                 g1_field_value_type x_mod(x);
                 g1_field_value_type y2_mod = x_mod.pow(3u) + g1_field_value_type(4u);
                 BOOST_ASSERT(y2_mod.is_square());
@@ -231,11 +232,14 @@ namespace nil {
                     return g1_value_type();    // point at infinity
                 }
 
+                BOOST_ASSERT(!(*std::next(point_octets.begin(), sizeof_field_element) & 0xE0));
                 integral_type x, y;
                 boost::multiprecision::import_bits(
                     y, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                 boost::multiprecision::import_bits(
                     x, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x < g1_field_value_type::modulus);
+                BOOST_ASSERT(y < g1_field_value_type::modulus);
                 g1_value_type result(g1_field_value_type(x), g1_field_value_type(y), g1_field_value_type::one());
                 BOOST_ASSERT(result.is_well_formed());
                 return result;
@@ -253,11 +257,14 @@ namespace nil {
                     return g2_value_type();    // point at infinity
                 }
 
+                BOOST_ASSERT(!(*std::next(point_octets.begin(), sizeof_field_element) & 0xE0));
                 integral_type x_0, x_1;
                 boost::multiprecision::import_bits(
                     x_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                 boost::multiprecision::import_bits(
                     x_1, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x_0 < g1_field_value_type::modulus);
+                BOOST_ASSERT(x_1 < g1_field_value_type::modulus);
                 g2_field_value_type x_mod(x_0, x_1);
                 g2_field_value_type y2_mod = x_mod.pow(3u) + g2_field_value_type(4u, 4u);
                 BOOST_ASSERT(y2_mod.is_square());
@@ -285,6 +292,9 @@ namespace nil {
                     return g2_value_type();    // point at infinity
                 }
 
+                BOOST_ASSERT(!(*std::next(point_octets.begin(), sizeof_field_element) & 0xE0));
+                BOOST_ASSERT(!(*std::next(point_octets.begin(), 2 * sizeof_field_element) & 0xE0));
+                BOOST_ASSERT(!(*std::next(point_octets.begin(), 3 * sizeof_field_element) & 0xE0));
                 integral_type x_0, x_1, y_0, y_1;
                 boost::multiprecision::import_bits(
                     y_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
@@ -300,6 +310,10 @@ namespace nil {
                                             false);
                 boost::multiprecision::import_bits(
                     x_1, point_octets.rbegin() + 3 * sizeof_field_element, point_octets.rend(), 8, false);
+                BOOST_ASSERT(x_0 < g1_field_value_type::modulus);
+                BOOST_ASSERT(x_1 < g1_field_value_type::modulus);
+                BOOST_ASSERT(y_0 < g1_field_value_type::modulus);
+                BOOST_ASSERT(y_1 < g1_field_value_type::modulus);
                 g2_value_type result(g2_field_value_type(g1_field_value_type(x_0), g1_field_value_type(x_1)),
                                      g2_field_value_type(g1_field_value_type(y_0), g1_field_value_type(y_1)),
                                      g2_field_value_type::one());
-- 
2.43.0


From 984a4c62c51232678953d92f548baf4b870aa30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:57 +0000
Subject: [PATCH 51/61] fix: the decoders of points read the first of no octets

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 986237c..9e317bb 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -152,6 +152,7 @@ namespace nil {
             static inline g1_value_type octets_to_g1_point(const PointOctetsRange &octets) {
                 BOOST_CONCEPT_ASSERT((boost::SinglePassRangeConcept<PointOctetsRange>));
 
+                BOOST_ASSERT(octets.begin() != octets.end());
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
                 BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
@@ -171,6 +172,7 @@ namespace nil {
             static inline g2_value_type octets_to_g2_point(const PointOctetsRange &octets) {
                 BOOST_CONCEPT_ASSERT((boost::SinglePassRangeConcept<PointOctetsRange>));
 
+                BOOST_ASSERT(octets.begin() != octets.end());
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
                 BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
-- 
2.43.0


From 8b8881d6f192ba1cd5ca6f97069e447edc271ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:38 +0000
Subject: [PATCH 52/61] fix: the octets of a field element kept what the buffer
 held where the value has leading zeros

---
 include/nil/crypto3/algebra/marshalling.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 2687482..0808e5f 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -27,6 +27,7 @@
 #ifndef CRYPTO3_ALGEBRA_MARSHALLING_HPP
 #define CRYPTO3_ALGEBRA_MARSHALLING_HPP
 
+#include <algorithm>
 #include <vector>
 #include <tuple>
 
@@ -105,6 +106,7 @@ namespace nil {
                                            OutputIterator out_last) {
                     BOOST_ASSERT(field_octets_num == std::distance(out_first, out_last));
 
+                    std::fill(out_first, out_last, 0);
                     ::boost::multiprecision::export_bits(
                         element.data.template convert_to<typename FieldType::integral_type>(), out_first, chunk_size,
                         false);
-- 
2.43.0


From 7e3ad67409f85cda96ed4b009c19b15c8d842dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:38 +0000
Subject: [PATCH 53/61] fix: octets above the width of the modulus were dropped
 from a field element that was then called valid

---
 include/nil/crypto3/algebra/marshalling.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 0808e5f..46b5dbb 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -67,10 +67,12 @@ namespace nil {
                     field_element_from_bytes(InputFieldValueIterator first, InputFieldValueIterator last) {
                     BOOST_ASSERT(field_octets_num == std::distance(first, last));
 
-                    typename FieldType::integral_type result;
-                    ::boost::multiprecision::import_bits(result, first, last, chunk_size, false);
+                    ::boost::multiprecision::cpp_int octets;
+                    ::boost::multiprecision::import_bits(octets, first, last, chunk_size, false);
+                    const bool is_reduced = octets < ::boost::multiprecision::cpp_int(FieldType::modulus);
+                    typename FieldType::integral_type result(octets);
 
-                    return std::make_pair(result < FieldType::modulus, field_value_type(result));
+                    return std::make_pair(is_reduced, field_value_type(result));
                 }
 
                 template<typename InputFieldValueIterator>
-- 
2.43.0


From 40bdf6f391c8eab12e82a7a85674119a18d309ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 54/61] fix: random field elements were zero twice as often as
 anything else

---
 include/nil/crypto3/algebra/random_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/random_element.hpp b/include/nil/crypto3/algebra/random_element.hpp
index a22b67c..6ca1657 100644
--- a/include/nil/crypto3/algebra/random_element.hpp
+++ b/include/nil/crypto3/algebra/random_element.hpp
@@ -60,7 +60,7 @@ namespace nil {
                 using field_type = FieldType;
                 using distribution_type = DistributionType;
 
-                distribution_type d(0, field_type::modulus);
+                distribution_type d(0, field_type::modulus - 1);
 
                 // boost::random_device rd;
                 // rd.seed(time(0));
-- 
2.43.0


From 7add66f54b90916216d809c42a5cdc671d36b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:49 +0000
Subject: [PATCH 55/61] fix: the isogenies of the map to BLS12-381 took their
 kernel to the generator

---
 include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
index 559116c..fee4cda 100644
--- a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
@@ -139,7 +139,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
@@ -226,7 +226,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
-- 
2.43.0


From bada421ca413767a99a8b096e204723fc52fcd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:08 +0000
Subject: [PATCH 56/61] fix: bls12-377 took its point (0, 1) for the point at
 infinity when built with STANDARD_EC_INF_POINTS

---
 .../curves/detail/bls12/377/short_weierstrass_params.hpp    | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp b/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp
index d8dbe1e..fe9f1be 100644
--- a/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/bls12/377/short_weierstrass_params.hpp
@@ -60,13 +60,9 @@ namespace nil {
                         template<typename Coordinates>
                         using group_type = bls12_types<377>::g1_type<forms::short_weierstrass, Coordinates>;
 
-#ifdef STANDARD_EC_INF_POINTS_ENABLED
-                        constexpr static const std::array<typename field_type::value_type, 2> zero_fill = {
-                            field_type::value_type::zero(), field_type::value_type::one()};
-#else
+                        // b is one, so (0, 1) is a point of the curve and cannot stand for the point at infinity
                         constexpr static const std::array<typename field_type::value_type, 2> zero_fill = {
                             field_type::value_type::zero(), field_type::value_type::zero()};
-#endif
 
                         constexpr static const std::array<typename field_type::value_type, 2> one_fill = {
                             typename field_type::value_type(
-- 
2.43.0


From ac3511593b8de1afcd595f3dceb80fe6e61fe574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:14 +0000
Subject: [PATCH 57/61] fix: the text of Jacobian points with a4 = 0 or -3
 lacked the opening quotes of Y and Z

---
 .../forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp   | 2 +-
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 619ef4c..85721d2 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -336,7 +336,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index b575a05..ea4578a 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -340,7 +340,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
-- 
2.43.0


From 7633d0d7b98710adff01dc520c2541d8906fc4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:14 +0000
Subject: [PATCH 58/61] fix: the text of pairing precomputations had a comma
 after the last coefficients

---
 .../forms/short_weierstrass/jacobian_with_a4_0/types.hpp      | 2 +-
 .../detail/forms/short_weierstrass/projective/types.hpp       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
index fdf3d17..2846f14 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
@@ -99,7 +99,7 @@ namespace nil {
                                 << "\"coeffs\":[" << std::endl;
                             for(auto d = p.coeffs.begin(); d != p.coeffs.end(); ++d) {
                                 os << "[" << d->ell_0 << "," << d->ell_VW << "," << d->ell_VV << "]";
-                                if (d != p.coeffs.end()) {
+                                if (d + 1 != p.coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
index d798a13..8bb13ae 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
@@ -150,14 +150,14 @@ namespace nil {
                                 << "\"dbl_coeffs\":[" << std::endl;
                             for(auto d = p.dbl_coeffs.begin(); d != p.dbl_coeffs.end(); ++d) {
                                 os << "[" << d->c_H << "," << d->c_4C << "," << d->c_J << "," << d->c_L << "]";
-                                if (d != p.dbl_coeffs.end()) {
+                                if (d + 1 != p.dbl_coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
                             os << "]," << std::endl << "\"add_coeffs\":[" << std::endl;
                             for(auto a = p.add_coeffs.begin(); a != p.add_coeffs.end(); ++a) {
                                 os << "[" << a->c_L1 << "," << a->c_RZ << "]";
-                                if (a != p.add_coeffs.end()) {
+                                if (a + 1 != p.add_coeffs.end()) {
                                     os << "," << std::endl;;
                                 }
                             }
-- 
2.43.0


From 336c1e35831276c3d62d224a9cdcd4a55c91387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:49 +0000
Subject: [PATCH 59/61] fix: is_curve and the traits over it did not compile
 with gcc

---
 include/nil/crypto3/algebra/type_traits.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/type_traits.hpp b/include/nil/crypto3/algebra/type_traits.hpp
index ce54205..a949fb0 100644
--- a/include/nil/crypto3/algebra/type_traits.hpp
+++ b/include/nil/crypto3/algebra/type_traits.hpp
@@ -28,6 +28,8 @@
 
 #include <complex>
 
+#include <type_traits>
+
 #include <boost/type_traits.hpp>
 #include <boost/tti/tti.hpp>
 #include <boost/mpl/placeholders.hpp>
@@ -54,9 +56,16 @@ namespace nil {
             BOOST_TTI_HAS_TYPE(g2_type)
             BOOST_TTI_HAS_TYPE(gt_type)
 
-            // groups of a curve are templates over the coordinates and the form
-            BOOST_TTI_HAS_TEMPLATE(g1_type)
-            BOOST_TTI_HAS_TEMPLATE(g2_type)
+            // groups of a curve are templates over the coordinates and the form, both of which have defaults
+            template<typename T, typename Enable = void>
+            struct has_template_g1_type : public std::false_type { };
+            template<typename T>
+            struct has_template_g1_type<T, std::void_t<typename T::template g1_type<>>> : public std::true_type { };
+
+            template<typename T, typename Enable = void>
+            struct has_template_g2_type : public std::false_type { };
+            template<typename T>
+            struct has_template_g2_type<T, std::void_t<typename T::template g2_type<>>> : public std::true_type { };
 
             BOOST_TTI_HAS_TYPE(group_type)
 
-- 
2.43.0


From d54e5e4068bec97d51923766535e63cf839bd211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:49 +0000
Subject: [PATCH 60/61] fix: make_uint_t.hpp and unbounded_shift.hpp did not
 compile unless other headers came first

---
 include/nil/crypto3/detail/make_uint_t.hpp     | 3 +++
 include/nil/crypto3/detail/unbounded_shift.hpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/nil/crypto3/detail/make_uint_t.hpp b/include/nil/crypto3/detail/make_uint_t.hpp
index d0d29a9..17c9a5a 100644
--- a/include/nil/crypto3/detail/make_uint_t.hpp
+++ b/include/nil/crypto3/detail/make_uint_t.hpp
@@ -25,6 +25,9 @@
 #ifndef CRYPTO3_MAKE_UINT_T_HPP
 #define CRYPTO3_MAKE_UINT_T_HPP
 
+#include <cstddef>
+#include <initializer_list>
+#include <limits>
 #include <tuple>
 
 #include <boost/integer.hpp>
diff --git a/include/nil/crypto3/detail/unbounded_shift.hpp b/include/nil/crypto3/detail/unbounded_shift.hpp
index 1faa0a6..6488558 100644
--- a/include/nil/crypto3/detail/unbounded_shift.hpp
+++ b/include/nil/crypto3/detail/unbounded_shift.hpp
@@ -27,6 +27,10 @@
 #ifndef CRYPTO3_DETAIL_UNBOUNDED_SHIFT_HPP
 #define CRYPTO3_DETAIL_UNBOUNDED_SHIFT_HPP
 
+#include <stddef.h>
+
+#include <climits>
+
 #include <boost/assert.hpp>
 
 namespace nil {
-- 
2.43.0


From 674175c5958f2c7318d4a02cf7a3d4ebf0972916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:00 +0000
Subject: [PATCH 61/61] fix: matrix and vector headers used operators and
 utilities whose headers they did not include

---
 include/nil/crypto3/algebra/matrix/math.hpp      | 1 +
 include/nil/crypto3/algebra/matrix/operators.hpp | 1 +
 include/nil/crypto3/algebra/vector/operators.hpp | 1 +
 include/nil/crypto3/algebra/vector/utility.hpp   | 3 ++-
 4 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 41b80fe..3476d2b 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -33,6 +33,7 @@
 
 #include <nil/crypto3/algebra/vector/vector.hpp>
 #include <nil/crypto3/algebra/vector/math.hpp>
+#include <nil/crypto3/algebra/vector/operators.hpp>
 
 #include <nil/crypto3/algebra/matrix/matrix.hpp>
 #include <nil/crypto3/algebra/matrix/utility.hpp>
diff --git a/include/nil/crypto3/algebra/matrix/operators.hpp b/include/nil/crypto3/algebra/matrix/operators.hpp
index e5fe7cd..7655b38 100644
--- a/include/nil/crypto3/algebra/matrix/operators.hpp
+++ b/include/nil/crypto3/algebra/matrix/operators.hpp
@@ -28,6 +28,7 @@
 #define CRYPTO3_ALGEBRA_MATRIX_OPERATORS_HPP
 
 #include <nil/crypto3/algebra/matrix/matrix.hpp>
+#include <nil/crypto3/algebra/matrix/utility.hpp>
 
 namespace nil {
     namespace crypto3 {
diff --git a/include/nil/crypto3/algebra/vector/operators.hpp b/include/nil/crypto3/algebra/vector/operators.hpp
index cc85398..d029cb7 100644
--- a/include/nil/crypto3/algebra/vector/operators.hpp
+++ b/include/nil/crypto3/algebra/vector/operators.hpp
@@ -28,6 +28,7 @@
 #define CRYPTO3_ALGEBRA_VECTOR_OPERATORS_HPP
 
 #include <nil/crypto3/algebra/vector/vector.hpp>
+#include <nil/crypto3/algebra/vector/utility.hpp>
 
 namespace nil {
     namespace crypto3 {
diff --git a/include/nil/crypto3/algebra/vector/utility.hpp b/include/nil/crypto3/algebra/vector/utility.hpp
index 6c1e5e9..484f44e 100644
--- a/include/nil/crypto3/algebra/vector/utility.hpp
+++ b/include/nil/crypto3/algebra/vector/utility.hpp
@@ -110,7 +110,8 @@ namespace nil {
              */
             template<std::size_t N, typename T>
             constexpr vector<T, N> linspace(T min, T max) {
-                return ((max - min) / (N - 1)) * iota<N, T>() + min;
+                const T step = (max - min) / (N - 1);
+                return elementwise([min, step](T x) { return step * x + min; }, iota<N, T>());
             }
 
             /** @brief generates a vector containing a single value
-- 
2.43.0

