From 28ea311ac9391c5b357a25bb8ff3ee7c2d7d3f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 01/77] fix: hasnan/hasinf read one row past the matrix for
 Uplo::UpperHessenberg

---
 include/tlapack/lapack/hasinf.hpp | 2 +-
 include/tlapack/lapack/hasnan.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hasinf.hpp b/include/tlapack/lapack/hasinf.hpp
index e6172f3..feea0a2 100644
--- a/include/tlapack/lapack/hasinf.hpp
+++ b/include/tlapack/lapack/hasinf.hpp
@@ -54,7 +54,7 @@ bool hasinf(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isinf(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/hasnan.hpp b/include/tlapack/lapack/hasnan.hpp
index 18c8a84..688a438 100644
--- a/include/tlapack/lapack/hasnan.hpp
+++ b/include/tlapack/lapack/hasnan.hpp
@@ -54,7 +54,7 @@ bool hasnan(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isnan(A(i, j))) return true;
         return false;
     }
-- 
2.43.0


From e986091cfc247392144f97e517c7ebde4a0a7d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 02/77] fix: lascl scales one row past the matrix for
 Uplo::UpperHessenberg

---
 include/tlapack/lapack/lascl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index 0d760ee..d17cf00 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -130,7 +130,7 @@ int lascl(uplo_t uplo, const b_type& b, const a_type& a, matrix_t& A)
 
         if (uplo == Uplo::UpperHessenberg) {
             for (idx_t j = 0; j < n; ++j)
-                for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+                for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                     A(i, j) *= c;
         }
         else if (uplo == Uplo::Upper) {
-- 
2.43.0


From 59d327478f1badc067c17a6d07022308a21f4392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 03/77] fix: hemm2 without beta could not be called

The overload's enable_if parameter had no default, so deduction always failed,
and its body dropped transB when forwarding.
---
 include/tlapack/lapack/hemm2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hemm2.hpp b/include/tlapack/lapack/hemm2.hpp
index ea6454f..a40524b 100644
--- a/include/tlapack/lapack/hemm2.hpp
+++ b/include/tlapack/lapack/hemm2.hpp
@@ -399,7 +399,7 @@ template <TLAPACK_MATRIX matrixA_t,
           disable_if_allow_optblas_t<pair<matrixA_t, T>,
                                      pair<matrixB_t, T>,
                                      pair<matrixC_t, T>,
-                                     pair<alpha_t, T>>>
+                                     pair<alpha_t, T>> = 0>
 void hemm2(Side side,
            Uplo uplo,
            Op transB,
@@ -408,7 +408,7 @@ void hemm2(Side side,
            const matrixB_t& B,
            matrixC_t& C)
 {
-    return hemm2(side, uplo, alpha, A, B, StrongZero(), C);
+    return hemm2(side, uplo, transB, alpha, A, B, StrongZero(), C);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 9096fd55184dcf5fd9e07848cda275b656d23225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 04/77] fix: lascl loses accuracy when a or b is subnormal

Scale up the smaller operand, which is exact, instead of scaling the larger one
down into the subnormal range.
---
 include/tlapack/lapack/lascl.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index d17cf00..c23d9c3 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -107,18 +107,20 @@ int lascl(uplo_t uplo, const b_type& b, const a_type& a, matrix_t& A)
             else if ((abs(b1) > abs(a_)) && (a_ != real_t(0))) {
                 // a is a non-zero finite number and abs(a/b) < small:
                 //  Set c = small as the multiplication factor,
-                //  Multiply b by the small factor.
+                //  Divide a by the small factor (exact, even if a is
+                //  subnormal).
                 c = small;
                 done = false;
-                b_ = b1;
+                a_ *= big;
             }
             else if (abs(a1) > abs(b_)) {
                 // abs(a/b) > big:
                 //  Set c = big as the multiplication factor,
-                //  Divide a by the big factor.
+                //  Multiply b by the big factor (exact, even if b is
+                //  subnormal).
                 c = big;
                 done = false;
-                a_ = a1;
+                b_ *= big;
             }
             else {
                 // small <= abs(a/b) <= big:
@@ -238,18 +240,20 @@ int lascl(BandAccess accessType, const b_type& b, const a_type& a, matrix_t& A)
             else if ((abs(b1) > abs(a_)) && (a_ != real_t(0))) {
                 // a is a non-zero finite number and abs(a/b) < small:
                 //  Set c = small as the multiplication factor,
-                //  Multiply b by the small factor.
+                //  Divide a by the small factor (exact, even if a is
+                //  subnormal).
                 c = small;
                 done = false;
-                b_ = b1;
+                a_ *= big;
             }
             else if (abs(a1) > abs(b_)) {
                 // abs(a/b) > big:
                 //  Set c = big as the multiplication factor,
-                //  Divide a by the big factor.
+                //  Multiply b by the big factor (exact, even if b is
+                //  subnormal).
                 c = big;
                 done = false;
-                a_ = a1;
+                b_ *= big;
             }
             else {
                 // small <= abs(a/b) <= big:
-- 
2.43.0


From 60047012799a38ef366fc8f9878b6d088eef075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 05/77] fix: rscl returns inaccurate or non-finite results for
 finite quotients

For complex alpha with widely different or subnormal parts the two-step scaling
gave Inf/NaN (e.g. alpha = 2^-21 + 2^-149 i in single precision) or lost digits
in the subnormal range. Divide entry by entry with ladiv when 1/alpha cannot be
formed safely. For tiny real alpha, scale up before the inexact factor.
---
 include/tlapack/lapack/rscl.hpp | 100 +++++++++-----------------------
 1 file changed, 28 insertions(+), 72 deletions(-)

diff --git a/include/tlapack/lapack/rscl.hpp b/include/tlapack/lapack/rscl.hpp
index 6931f17..7959fcc 100644
--- a/include/tlapack/lapack/rscl.hpp
+++ b/include/tlapack/lapack/rscl.hpp
@@ -33,8 +33,8 @@ void rscl(const alpha_t& alpha, vector_t& x)
         scal(safeMax / alpha, x);
     }
     else if (r < safeMin) {
-        scal(safeMin / alpha, x);
         scal(safeMax, x);
+        scal(safeMin / alpha, x);
     }
     else
         scal(real_t(1) / alpha, x);
@@ -49,20 +49,11 @@ void rscl(const alpha_t& alpha, vector_t& x)
  *
  * If alpha is complex, then we use the following algorithm:
  * 1. If the real part of alpha is zero, then scale by the reciprocal of the
- * imaginary part of alpha.
- * 2. If either real or imaginary part is greater than or equal to safeMax. If
- * so, do proper scaling using a reliable algorithm for complex division.
- * 3. If 1 and 2 are false, we can compute the reciprocal of real and imaginary
- * parts of 1/alpha without NaNs. If both components are in the safe range, then
- * we can do the reciprocal without overflow or underflow. Otherwise, we do
- * proper scaling.
- *
- * @note For complex alpha, it is important to always scale first by the
- * smallest factor. This avoids an early overflow that may lead to a NaN.
- * For example, if alpha = 5.877472e-39 + 2.802597e-45 * I and v[i] = 30 + 30 *
- * I in single precision, we want to scale v[i] first by (safeMin / alpha) and
- * after that scale the result by safeMax. Doing it the other way around will
- * possibly lead to a (Inf - Inf) which should be tagged as a NaN.
+ * imaginary part of alpha, if it is in the safe range.
+ * 2. If the inverses of the real and imaginary parts of 1/alpha are both in the
+ * safe range, then multiply by 1/alpha without overflow or underflow.
+ * 3. Otherwise, divide each entry using a reliable algorithm for complex
+ * division.
  *
  * @param[in] alpha Scalar.
  * @param[in,out] x A n-element vector.
@@ -83,7 +74,6 @@ void rscl(const alpha_t& alpha, vector_t& x)
 
     const real_t alphaR = real(alpha);
     const real_t alphaI = imag(alpha);
-    const real_t absR = abs(alphaR);
     const real_t absI = abs(alphaI);
 
     if (alphaI == zero) {
@@ -92,71 +82,37 @@ void rscl(const alpha_t& alpha, vector_t& x)
         rscl(alphaR, x);
     }
 
-    else if (alphaR == zero) {
-        // If alpha has a zero real part, then we follow the same rules as if
-        // alpha were real.
-        if (absI > safeMax) {
-            scal(safeMin, x);
-            scal(alpha_t(zero, -safeMax / alphaI), x);
-        }
-        else if (absI < safeMin) {
-            scal(alpha_t(zero, -safeMin / alphaI), x);
-            scal(safeMax, x);
-        }
-        else
-            scal(alpha_t(zero, -one / alphaI), x);
+    else if (alphaR == zero && absI >= safeMin && absI <= safeMax) {
+        // alpha is purely imaginary. No overflow or underflow.
+        scal(alpha_t(zero, -one / alphaI), x);
     }
 
     else {
         // The following numbers can be computed.
         // They are the inverse of the real and imaginary parts of 1/alpha.
-        // Note that a and b are always different from zero.
-        // NaNs are only possible if either:
-        // 1. alphaR or alphaI is NaN.
-        // 2. alphaR and alphaI are both infinite, in which case it makes sense
-        // to propagate a NaN.
-        real_t a = alphaR + alphaI * (alphaI / alphaR);
-        real_t b = alphaI + alphaR * (alphaR / alphaI);
+        // They may be Inf, NaN or inaccurate if alphaR and alphaI are too far
+        // apart, if one of them is zero or if one of them is subnormal.
+        const real_t a = alphaR + alphaI * (alphaI / alphaR);
+        const real_t b = alphaI + alphaR * (alphaR / alphaI);
 
-        if (abs(a) < safeMin || abs(b) < safeMin) {
-            // This means that both alphaR and alphaI are very small.
-            scal(alpha_t(safeMin / a, -safeMin / b), x);
-            scal(safeMax, x);
+        if (abs(a) >= safeMin && abs(a) <= safeMax && abs(b) >= safeMin &&
+            abs(b) <= safeMax) {
+            // No overflow or underflow.
+            scal(alpha_t(one / a, -one / b), x);
         }
-        else if (abs(a) > safeMax || abs(b) > safeMax) {
-            if (isinf(alphaR) || isinf(alphaI)) {
-                // This means that a and b are both Inf. No need for scaling.
-                // Propagates zero.
-                scal(alpha_t(one / a, -one / b), x);
-            }
-            else {
-                scal(safeMin, x);
-                if (isinf(a) || isinf(b)) {
-                    // Infs were generated. We do proper scaling to avoid them.
-                    if (absR >= absI) {
-                        // |a| <= |b|
-                        a = (safeMin * alphaR) +
-                            safeMin * (alphaI * (alphaI / alphaR));
-                        b = (safeMin * alphaI) +
-                            alphaR * ((safeMin * alphaR) / alphaI);
-                    }
-                    else {
-                        // |a| > |b|
-                        a = (safeMin * alphaR) +
-                            alphaI * ((safeMin * alphaI) / alphaR);
-                        b = (safeMin * alphaI) +
-                            safeMin * (alphaR * (alphaR / alphaI));
-                    }
-                    scal(alpha_t(one / a, -one / b), x);
-                }
-                else {
-                    scal(alpha_t(safeMax / a, -safeMax / b), x);
-                }
-            }
+        else if (isinf(alphaR) || isinf(alphaI)) {
+            // This means that a and b are both Inf or NaN. No need for
+            // scaling. Propagates zero.
+            scal(alpha_t(one / a, -one / b), x);
         }
         else {
-            // No overflow or underflow.
-            scal(alpha_t(one / a, -one / b), x);
+            // 1/alpha cannot be formed safely. Use a reliable algorithm for
+            // the complex division.
+            using T = type_t<vector_t>;
+            using idx_t = size_type<vector_t>;
+            const idx_t n = size(x);
+            for (idx_t i = 0; i < n; ++i)
+                x[i] = (T)ladiv((alpha_t)x[i], alpha);
         }
     }
 }
-- 
2.43.0


From b378022ebd5efa89d20563148e2fa6623db07a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 06/77] fix: rotmg overwrites h when more than one rescaling is
 needed

After the first rescaling flag is -1, so the else branch meant for flag == 1
reset h[1] and h[2] and destroyed the factors already accumulated.
---
 include/tlapack/blas/rotmg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index 5c760ce..e9aaf86 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -161,7 +161,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
@@ -188,7 +188,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
-- 
2.43.0


From ec5a5f37b1914a93b67affe450b283fc0ddc8fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 07/77] fix: rotg returns a non-unitary rotation for subnormal
 operands

c and s were computed from the rounded r, which has few digits when it is
subnormal (a = b = denorm_min gave c = s = 1).
---
 include/tlapack/blas/rotg.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/blas/rotg.hpp b/include/tlapack/blas/rotg.hpp
index 12dc498..51f8715 100644
--- a/include/tlapack/blas/rotg.hpp
+++ b/include/tlapack/blas/rotg.hpp
@@ -65,10 +65,12 @@ void rotg(T& a, T& b, T& c, T& s)
     else {
         T scl = min(safmax, max(safmin, max(anorm, bnorm)));
         T sigma((anorm > bnorm) ? sgn(a) : sgn(b));
-        T r = sigma * scl * sqrt((a / scl) * (a / scl) + (b / scl) * (b / scl));
-        c = a / r;
-        s = b / r;
-        a = r;
+        const T as = a / scl;
+        const T bs = b / scl;
+        const T rs = sigma * sqrt(as * as + bs * bs);
+        c = as / rs;
+        s = bs / rs;
+        a = scl * rs;
         if (anorm > bnorm)
             b = s;
         else if (c != zero)
-- 
2.43.0


From b138f62a986505e0cc3d44db7a7e11f80eb43146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 08/77] fix: rot_sequence3 repeats the startup phase for
 matrices wider than one block

---
 include/tlapack/lapack/rot_sequence3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index d9c9ee0..b5b0f34 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -133,7 +133,7 @@ void rot_sequence3(
                 for (idx_t ib = 0; ib < n; ib += nb) {
                     idx_t ib2 = std::min(ib + nb, n);
                     // Startup phase
-                    for (idx_t i1 = 0; i1 < n; ++i1) {
+                    for (idx_t i1 = ib; i1 < ib2; ++i1) {
                         for (idx_t j = 0; j < l - 1; ++j) {
                             for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                                 idx_t g = m - 2 - g2;
@@ -536,7 +536,7 @@ void rot_sequence3(
                     for (idx_t j = 0; j < l - 1; ++j) {
                         for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                             idx_t g = m - 2 - g2;
-                            for (idx_t i1 = 0; i1 < n; ++i1) {
+                            for (idx_t i1 = ib; i1 < ib2; ++i1) {
                                 T temp =
                                     C(g, i) * A(g, i1) + S(g, i) * A(g + 1, i1);
                                 A(g + 1, i1) = -conj(S(g, i)) * A(g, i1) +
-- 
2.43.0


From dffeacbefeb7ba4bfbef9ceddc9563380a6452e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 09/77] fix: rot_sequence documentation had Forward and
 Backward exchanged

---
 include/tlapack/lapack/rot_sequence.hpp  | 4 ++--
 include/tlapack/lapack/rot_sequence3.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence.hpp b/include/tlapack/lapack/rot_sequence.hpp
index f370bb9..55c7080 100644
--- a/include/tlapack/lapack/rot_sequence.hpp
+++ b/include/tlapack/lapack/rot_sequence.hpp
@@ -33,11 +33,11 @@ namespace tlapack {
  *
  * When direction = Direction::Forward, then
  *
- *    P = P(k-1) * P(k-2) * ... * P(1) * P(0)
+ *    P = P(0) * P(1) * ... * P(k-2) * P(k-1)
  *
  * and when direction = Direction::Backward, then
  *
- *    P = P(0) * P(1) * ... * P(k-2) * P(k-1),
+ *    P = P(k-1) * P(k-2) * ... * P(1) * P(0),
  *
  * when P(i) is a plane rotation matrix defined as
  *
diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index b5b0f34..6e8315a 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -31,13 +31,13 @@ namespace tlapack {
  *
  * When direction = Direction::Forward, then
  *
- *    P = P(k-1,l-1) * ... * P(0,l-1) * ... * P(k-1,l-2) * ... * P(0,l-2)
- *        * ... * P(k-1,0) * ... * P(0,0)
+ *    P = P(0,l-1) * ... * P(k-1,l-1) * ... * P(0,l-2) * ... * P(k-1,l-2)
+ *        * ... * P(0,0) * ... * P(k-1,0)
  *
  * and when direction = Direction::Backward, then
  *
- *    P = P(0,l-1) * ... * P(k-1,l-1) * ... * P(0,l-2) * ... * P(k-1,l-2)
- *        * ... * P(0,0) * ... * P(k-1,0)
+ *    P = P(k-1,l-1) * ... * P(0,l-1) * ... * P(k-1,l-2) * ... * P(0,l-2)
+ *        * ... * P(k-1,0) * ... * P(0,0)
  *
  * where P(i,j) is a plane rotation matrix defined as
  *
-- 
2.43.0


From 38bb3b5c55aa5fc2e099d8c1b2591eeed50d5d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 10/77] fix: infnorm_*_colmajor did not compile (no allocator,
 complex workspace, missing diag)

---
 include/tlapack/lapack/infnorm_colmajor.hpp            | 5 ++++-
 include/tlapack/lapack/infnorm_hermitian_colmajor.hpp  | 7 +++++--
 include/tlapack/lapack/infnorm_symmetric_colmajor.hpp  | 7 +++++--
 include/tlapack/lapack/infnorm_triangular_colmajor.hpp | 9 ++++++---
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_colmajor.hpp b/include/tlapack/lapack/infnorm_colmajor.hpp
index 7ca5d24..0e35f8b 100644
--- a/include/tlapack/lapack/infnorm_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_colmajor.hpp
@@ -65,7 +65,7 @@ auto infnorm_colmajor_work(const matrix_t& A, work_t& work)
             w[i] += abs(A(i, j));
 
     for (idx_t i = 0; i < m; ++i) {
-        real_t temp = w[i];
+        real_t temp = real(w[i]);
 
         if (temp > norm)
             norm = temp;
@@ -95,6 +95,9 @@ auto infnorm_colmajor(const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<matrix_type<matrix_t>> new_matrix;
+
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
diff --git a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
index 474063d..5334614 100644
--- a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
@@ -82,7 +82,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
             w[j] = sum + abs(real(A(j, j)));
         }
         for (idx_t i = 0; i < n; ++i) {
-            real_t sum = w[i];
+            real_t sum = real(w[i]);
             if (sum > norm)
                 norm = sum;
             else {
@@ -92,7 +92,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     }
     else {
         for (idx_t j = 0; j < n; ++j) {
-            real_t sum = w[j] + abs(real(A(j, j)));
+            real_t sum = real(w[j]) + abs(real(A(j, j)));
             for (idx_t i = j + 1; i < n; ++i) {
                 const real_t absa = abs(A(i, j));
                 sum += absa;
@@ -131,6 +131,9 @@ auto infnorm_hermitian_colmajor(uplo_t uplo, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<matrix_type<matrix_t>> new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
 
diff --git a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
index 9cf0a0a..bb3b718 100644
--- a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
@@ -82,7 +82,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
             w[j] = sum + abs(A(j, j));
         }
         for (idx_t i = 0; i < n; ++i) {
-            real_t sum = w[i];
+            real_t sum = real(w[i]);
             if (sum > norm)
                 norm = sum;
             else {
@@ -92,7 +92,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     }
     else {
         for (idx_t j = 0; j < n; ++j) {
-            real_t sum = w[j] + abs(A(j, j));
+            real_t sum = real(w[j]) + abs(A(j, j));
             for (idx_t i = j + 1; i < n; ++i) {
                 const real_t absa = abs(A(i, j));
                 sum += absa;
@@ -131,6 +131,9 @@ auto infnorm_symmetric_colmajor(uplo_t uplo, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<matrix_type<matrix_t>> new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
 
diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index 967f94d..9aad558 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -126,7 +126,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     }
 
     for (idx_t i = 0; i < m; ++i) {
-        real_t temp = w[i];
+        real_t temp = real(w[i]);
 
         if (temp > norm)
             norm = temp;
@@ -165,6 +165,9 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<matrix_type<matrix_t>> new_matrix;
+
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check_false(diag != Diag::NonUnit && diag != Diag::Unit);
@@ -177,11 +180,11 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     if (m == 0 || n == 0) return real_t(0);
 
     // Allocates workspace
-    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, A);
+    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, diag, A);
     std::vector<T> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
-    return infnorm_triangular_colmajor_work(uplo, A, work);
+    return infnorm_triangular_colmajor_work(uplo, diag, A, work);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 676ca967f3c6602560df29b5af0e8cab5d7fa9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 11/77] fix: infnorm_triangular_colmajor wrote past the
 workspace for n > m and skipped column 0 of unit lower matrices

---
 include/tlapack/lapack/infnorm_triangular_colmajor.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index 9aad558..0c4719c 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -81,9 +81,6 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     // Norm value
     real_t norm(0);
 
-    for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
-
     if (uplo == Uplo::Upper) {
         if (diag == Diag::NonUnit) {
             for (idx_t i = 0; i < m; ++i)
@@ -118,7 +115,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
             for (idx_t i = n; i < m; ++i)
                 w[i] = real_t(0);
 
-            for (idx_t j = 1; j < n; ++j) {
+            for (idx_t j = 0; j < n; ++j) {
                 for (idx_t i = j + 1; i < m; ++i)
                     w[i] += abs(A(i, j));
             }
-- 
2.43.0


From 5aefd31bac048fa54744196dec8133ad85d9aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 12/77] fix: larf and larfb dimension checks (operator
 precedence) rejected valid empty operands and accepted mismatched ones

---
 include/tlapack/lapack/larf.hpp  | 4 ++--
 include/tlapack/lapack/larfb.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/larf.hpp b/include/tlapack/lapack/larf.hpp
index 49426ec..a2fe9cf 100644
--- a/include/tlapack/lapack/larf.hpp
+++ b/include/tlapack/lapack/larf.hpp
@@ -68,7 +68,7 @@ void larf_work(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
@@ -282,7 +282,7 @@ void larf(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
diff --git a/include/tlapack/lapack/larfb.hpp b/include/tlapack/lapack/larfb.hpp
index 35f9a11..fa1eb17 100644
--- a/include/tlapack/lapack/larfb.hpp
+++ b/include/tlapack/lapack/larfb.hpp
@@ -140,10 +140,10 @@ int larfb_work(side_t side,
                         storeMode != StoreV::Rowwise);
     tlapack_check(
         (storeMode == StoreV::Columnwise)
-            ? ((ncols(V) == k) && (side == Side::Left) ? (nrows(V) == m)
-                                                       : (nrows(V) == n))
-            : ((nrows(V) == k) && (side == Side::Left) ? (ncols(V) == m)
-                                                       : (ncols(V) == n)));
+            ? ((ncols(V) == k) && ((side == Side::Left) ? (nrows(V) == m)
+                                                        : (nrows(V) == n)))
+            : ((nrows(V) == k) && ((side == Side::Left) ? (ncols(V) == m)
+                                                        : (ncols(V) == n))));
     tlapack_check(nrows(Tmatrix) == ncols(Tmatrix));
 
     // Quick return
-- 
2.43.0


From 67359598f643990c5b109e5ffc2f0928942a9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 13/77] fix: gelqt left the last rows unupdated when m > n

---
 include/tlapack/lapack/gelqt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gelqt.hpp b/include/tlapack/lapack/gelqt.hpp
index 943b309..1017eaa 100644
--- a/include/tlapack/lapack/gelqt.hpp
+++ b/include/tlapack/lapack/gelqt.hpp
@@ -86,7 +86,7 @@ int gelqt_work(matrix_t& A, matrix_t& TT, work_t& work)
         // . . . H(j+ib-1)
         larft(FORWARD, ROWWISE_STORAGE, A11, tauw1, TT1);
 
-        if (j + ib < k) {
+        if (j + ib < m) {
             // Apply H to A(j+ib:m,j:n) from the right
             auto A12 = slice(A, range(j + ib, m), range(j, n));
             auto work1 = slice(TT, range(j + ib, m), range(0, ib));
-- 
2.43.0


From a753a38aa32f302a319d553cd1f1980ed785148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 14/77] fix: workspace queries of geqr2, gelq2, geql2 and gerq2
 read tau[0] of an empty tau

---
 include/tlapack/lapack/gelq2.hpp | 3 ++-
 include/tlapack/lapack/geql2.hpp | 3 ++-
 include/tlapack/lapack/geqr2.hpp | 3 ++-
 include/tlapack/lapack/gerq2.hpp | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/gelq2.hpp b/include/tlapack/lapack/gelq2.hpp
index 995959d..a5421a2 100644
--- a/include/tlapack/lapack/gelq2.hpp
+++ b/include/tlapack/lapack/gelq2.hpp
@@ -36,8 +36,9 @@ constexpr WorkInfo gelq2_worksize(const matrix_t& A, const vector_t& tauw)
 
     // constants
     const idx_t m = nrows(A);
+    const idx_t n = ncols(A);
 
-    if (m > 1) {
+    if (m > 1 && n > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(A, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/geql2.hpp b/include/tlapack/lapack/geql2.hpp
index 85e3684..a8a42ba 100644
--- a/include/tlapack/lapack/geql2.hpp
+++ b/include/tlapack/lapack/geql2.hpp
@@ -35,9 +35,10 @@ constexpr WorkInfo geql2_worksize(const matrix_t& A, const vector_t& tau)
     using range = pair<idx_t, idx_t>;
 
     // constants
+    const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && m > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/geqr2.hpp b/include/tlapack/lapack/geqr2.hpp
index 33da9e0..1278091 100644
--- a/include/tlapack/lapack/geqr2.hpp
+++ b/include/tlapack/lapack/geqr2.hpp
@@ -35,9 +35,10 @@ constexpr WorkInfo geqr2_worksize(const matrix_t& A, const vector_t& tau)
     using range = pair<idx_t, idx_t>;
 
     // constants
+    const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && m > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/gerq2.hpp b/include/tlapack/lapack/gerq2.hpp
index 2957910..7ab327b 100644
--- a/include/tlapack/lapack/gerq2.hpp
+++ b/include/tlapack/lapack/gerq2.hpp
@@ -36,8 +36,9 @@ constexpr WorkInfo gerq2_worksize(const matrix_t& A, const vector_t& tau)
 
     // constants
     const idx_t m = nrows(A);
+    const idx_t n = ncols(A);
 
-    if (m > 1) {
+    if (m > 1 && n > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
-- 
2.43.0


From ee85568c4f22fca44290d616301f253a0676fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 15/77] fix: ungq family failed for an empty tau instead of
 generating the identity

---
 include/tlapack/lapack/ung2l.hpp       | 2 +-
 include/tlapack/lapack/ung2r.hpp       | 2 +-
 include/tlapack/lapack/ungl2.hpp       | 2 +-
 include/tlapack/lapack/ungq.hpp        | 4 ++++
 include/tlapack/lapack/ungq_level2.hpp | 3 +++
 include/tlapack/lapack/ungr2.hpp       | 2 +-
 6 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/ung2l.hpp b/include/tlapack/lapack/ung2l.hpp
index 7995846..152e4ba 100644
--- a/include/tlapack/lapack/ung2l.hpp
+++ b/include/tlapack/lapack/ung2l.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2l_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ung2r.hpp b/include/tlapack/lapack/ung2r.hpp
index 3657fcd..646d2af 100644
--- a/include/tlapack/lapack/ung2r.hpp
+++ b/include/tlapack/lapack/ung2r.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2r_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ungl2.hpp b/include/tlapack/lapack/ungl2.hpp
index 52681a1..3346734 100644
--- a/include/tlapack/lapack/ungl2.hpp
+++ b/include/tlapack/lapack/ungl2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungl2_worksize(const matrix_t& Q, const vector_t& tauw)
     // constants
     const idx_t k = nrows(Q);
 
-    if (k > 1) {
+    if (k > 1 && size(tauw) > 0) {
         auto&& C = rows(Q, range{1, k});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(Q, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/ungq.hpp b/include/tlapack/lapack/ungq.hpp
index 304d7f5..51df861 100644
--- a/include/tlapack/lapack/ungq.hpp
+++ b/include/tlapack/lapack/ungq.hpp
@@ -72,6 +72,9 @@ constexpr WorkInfo ungq_worksize(direction_t direction,
     const idx_t k = size(tau);
     const idx_t nb = min((idx_t)opts.nb, k);
 
+    // quick return
+    if (k <= 0) return WorkInfo(0);
+
     WorkInfo workinfo;
     auto&& V = (storeMode == StoreV::Columnwise)
                    ? slice(A, range{0, m}, range{0, nb})
@@ -163,6 +166,7 @@ int ungq_work(direction_t direction,
 
     // quick return
     if (m <= 0 || n <= 0) return 0;
+    if (k <= 0) return ungq_level2_work(direction, storeMode, A, tau, work);
 
     // Matrix matrixT
     auto [matrixT, work1] =
diff --git a/include/tlapack/lapack/ungq_level2.hpp b/include/tlapack/lapack/ungq_level2.hpp
index 3b39478..cfdbc2e 100644
--- a/include/tlapack/lapack/ungq_level2.hpp
+++ b/include/tlapack/lapack/ungq_level2.hpp
@@ -60,6 +60,9 @@ constexpr WorkInfo ungq_level2_worksize(direction_t direction,
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     if (storeMode == StoreV::Columnwise) {
         return (n > 1)
                    ? larf_worksize<T>(LEFT_SIDE, direction, COLUMNWISE_STORAGE,
diff --git a/include/tlapack/lapack/ungr2.hpp b/include/tlapack/lapack/ungr2.hpp
index 8a92e8f..b3df24b 100644
--- a/include/tlapack/lapack/ungr2.hpp
+++ b/include/tlapack/lapack/ungr2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungr2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t m = nrows(A);
 
-    if (m > 1) {
+    if (m > 1 && size(tau) > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
-- 
2.43.0


From 59d725b0968304e657d12262ddae9d01f08ed3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 16/77] fix: getri_worksize did not compile; getri failed on
 empty matrices

---
 include/tlapack/lapack/getri.hpp      | 2 +-
 include/tlapack/lapack/getri_uxli.hpp | 5 ++++-
 include/tlapack/lapack/ul_mult.hpp    | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/getri.hpp b/include/tlapack/lapack/getri.hpp
index 3696427..ccd0b2b 100644
--- a/include/tlapack/lapack/getri.hpp
+++ b/include/tlapack/lapack/getri.hpp
@@ -49,7 +49,7 @@ constexpr WorkInfo getri_worksize(const matrix_t& A,
                                   const GetriOpts& opts = {})
 {
     if (opts.variant == GetriVariant::UXLI)
-        return getri_uxli_worksize<T>(A, opts);
+        return getri_uxli_worksize<T>(A);
 
     return WorkInfo(0);
 }
diff --git a/include/tlapack/lapack/getri_uxli.hpp b/include/tlapack/lapack/getri_uxli.hpp
index e778b59..ff745de 100644
--- a/include/tlapack/lapack/getri_uxli.hpp
+++ b/include/tlapack/lapack/getri_uxli.hpp
@@ -29,7 +29,7 @@ template <class T, TLAPACK_SMATRIX matrix_t>
 constexpr WorkInfo getri_uxli_worksize(const matrix_t& A)
 {
     if constexpr (is_same_v<T, type_t<matrix_t>>)
-        return WorkInfo(ncols(A) - 1);
+        return WorkInfo((ncols(A) > 0) ? ncols(A) - 1 : 0);
     else
         return WorkInfo(0);
 }
@@ -55,6 +55,9 @@ int getri_uxli_work(matrix_t& A, work_t& work)
     // check arguments
     tlapack_check(nrows(A) == n);
 
+    // quick return
+    if (n <= 0) return 0;
+
     // Vector W
     auto [W, work2] = reshape(work, n - 1);
 
diff --git a/include/tlapack/lapack/ul_mult.hpp b/include/tlapack/lapack/ul_mult.hpp
index f9ba976..d652105 100644
--- a/include/tlapack/lapack/ul_mult.hpp
+++ b/include/tlapack/lapack/ul_mult.hpp
@@ -44,7 +44,7 @@ int ul_mult(matrix_t& A)
     const idx_t n = ncols(A);
 
     // if L and U are 1-by-1, then L is 1 and we simply UL=A(0,0)
-    if (n == 1) return 0;
+    if (n <= 1) return 0;
 
     // if n>1
     idx_t n0 = n / 2;
-- 
2.43.0


From 9d51cdd8dfd2ca99c674d34007c70257af388b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 17/77] fix: trtri_recursive reported the position of the zero
 diagonal entry relative to the innermost block

---
 include/tlapack/lapack/trtri_recursive.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/trtri_recursive.hpp b/include/tlapack/lapack/trtri_recursive.hpp
index 33cc52a..0718e2d 100644
--- a/include/tlapack/lapack/trtri_recursive.hpp
+++ b/include/tlapack/lapack/trtri_recursive.hpp
@@ -93,7 +93,7 @@ int trtri_recursive(uplo_t uplo,
 
             trsm(RIGHT_SIDE, LOWER_TRIANGLE, NO_TRANS, diag, T(-1), C00, C10);
             trsm(LEFT_SIDE, LOWER_TRIANGLE, NO_TRANS, diag, T(+1), C11, C10);
-            int info = trtri_recursive(LOWER_TRIANGLE, diag, C00, opts);
+            int info = trtri_recursive(LOWER_TRIANGLE, diag, C00, NO_ERROR_CHECK);
 
             if (info != 0) {
                 tlapack_error_if(opts.ec.internal, info,
@@ -101,7 +101,7 @@ int trtri_recursive(uplo_t uplo,
                                  "matrix is exactly zero.");
                 return info;
             }
-            info = trtri_recursive(LOWER_TRIANGLE, diag, C11, opts);
+            info = trtri_recursive(LOWER_TRIANGLE, diag, C11, NO_ERROR_CHECK);
             if (info == 0)
                 return 0;
             else {
@@ -126,14 +126,14 @@ int trtri_recursive(uplo_t uplo,
 
             trsm(LEFT_SIDE, UPPER_TRIANGLE, NO_TRANS, diag, T(-1), C00, C01);
             trsm(RIGHT_SIDE, UPPER_TRIANGLE, NO_TRANS, diag, T(+1), C11, C01);
-            int info = trtri_recursive(UPPER_TRIANGLE, diag, C00, opts);
+            int info = trtri_recursive(UPPER_TRIANGLE, diag, C00, NO_ERROR_CHECK);
             if (info != 0) {
                 tlapack_error_if(opts.ec.internal, info,
                                  "A diagonal of entry of triangular "
                                  "matrix is exactly zero.");
                 return info;
             }
-            info = trtri_recursive(UPPER_TRIANGLE, diag, C11, opts);
+            info = trtri_recursive(UPPER_TRIANGLE, diag, C11, NO_ERROR_CHECK);
             if (info == 0)
                 return 0;
             else {
-- 
2.43.0


From ab041d60af3f3ccb2b7eb2b9c2185107651bdc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 18/77] fix: blocked Cholesky reported the failing minor
 relative to the current block in the exception, and ignored ec.internal

---
 include/tlapack/lapack/potf2.hpp                  | 15 +++++++++------
 include/tlapack/lapack/potrf.hpp                  |  2 +-
 include/tlapack/lapack/potrf_blocked.hpp          | 14 +++++++-------
 .../lapack/potrf_blocked_right_looking.hpp        | 14 +++++++-------
 include/tlapack/starpu/potf2.hpp                  |  2 +-
 5 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/include/tlapack/lapack/potf2.hpp b/include/tlapack/lapack/potf2.hpp
index e08ccac..f5bc86c 100644
--- a/include/tlapack/lapack/potf2.hpp
+++ b/include/tlapack/lapack/potf2.hpp
@@ -46,6 +46,9 @@ namespace tlapack {
  *      - On successful exit, the factor U or L from the Cholesky
  *      factorization $A = U^H U$ or $A = L L^H.$
  *
+ * @param[in] opts Options.
+ *      Define the behavior of Exception Handling.
+ *
  * @return = 0: successful exit
  * @return i, 0 < i <= n, if the leading minor of order i is not
  *     positive definite, and the factorization could not be completed.
@@ -55,7 +58,7 @@ namespace tlapack {
 template <TLAPACK_UPLO uplo_t,
           TLAPACK_SMATRIX matrix_t,
           disable_if_allow_optblas_t<matrix_t> = 0>
-int potf2(uplo_t uplo, matrix_t& A)
+int potf2(uplo_t uplo, matrix_t& A, const EcOpts& opts = {})
 {
     using T = type_t<matrix_t>;
     using real_t = real_type<T>;
@@ -86,8 +89,8 @@ int potf2(uplo_t uplo, matrix_t& A)
                 A(j, j) = T(ajj);
             }
             else {
-                tlapack_error(
-                    j + 1,
+                tlapack_error_if(
+                    opts.ec.internal, j + 1,
                     "The leading minor of order j+1 is not positive definite,"
                     " and the factorization could not be completed.");
                 return j + 1;
@@ -122,8 +125,8 @@ int potf2(uplo_t uplo, matrix_t& A)
                 A(j, j) = T(ajj);
             }
             else {
-                tlapack_error(
-                    j + 1,
+                tlapack_error_if(
+                    opts.ec.internal, j + 1,
                     "The leading minor of order j+1 is not positive definite,"
                     " and the factorization could not be completed.");
                 return j + 1;
@@ -155,7 +158,7 @@ int potf2(uplo_t uplo, matrix_t& A)
 template <TLAPACK_UPLO uplo_t,
           TLAPACK_LEGACY_MATRIX matrix_t,
           enable_if_allow_optblas_t<matrix_t> = 0>
-int potf2(uplo_t uplo, matrix_t& A)
+int potf2(uplo_t uplo, matrix_t& A, const EcOpts& opts = {})
 {
     // Legacy objects
     auto A_ = legacy_matrix(A);
diff --git a/include/tlapack/lapack/potrf.hpp b/include/tlapack/lapack/potrf.hpp
index 8a8d0a8..4a0d724 100644
--- a/include/tlapack/lapack/potrf.hpp
+++ b/include/tlapack/lapack/potrf.hpp
@@ -91,7 +91,7 @@ int potrf(uplo_t uplo, matrix_t& A, const PotrfOpts& opts = {})
     else if (opts.variant == PotrfVariant::Recursive)
         return potrf2(uplo, A, opts);
     else if (opts.variant == PotrfVariant::Level2)
-        return potf2(uplo, A);
+        return potf2(uplo, A, opts);
     else
         return potrf_rl(uplo, A, opts);
 }
diff --git a/include/tlapack/lapack/potrf_blocked.hpp b/include/tlapack/lapack/potrf_blocked.hpp
index 376cd53..072564c 100644
--- a/include/tlapack/lapack/potrf_blocked.hpp
+++ b/include/tlapack/lapack/potrf_blocked.hpp
@@ -84,7 +84,7 @@ int potrf_blocked(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts)
 
     // Unblocked code
     else if (nb >= n)
-        return potf2(uplo, A);
+        return potf2(uplo, A, opts);
 
     // Blocked code
     else {
@@ -98,10 +98,10 @@ int potrf_blocked(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts)
 
                 herk(UPPER_TRIANGLE, CONJ_TRANS, -one, A1J, one, AJJ);
 
-                int info = potf2(UPPER_TRIANGLE, AJJ);
+                int info = potf2(UPPER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
-                    tlapack_error(
-                        info + j,
+                    tlapack_error_if(
+                        opts.ec.internal, info + j,
                         "The leading minor of the reported order is not "
                         "positive definite,"
                         " and the factorization could not be completed.");
@@ -130,10 +130,10 @@ int potrf_blocked(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts)
 
                 herk(LOWER_TRIANGLE, NO_TRANS, -one, AJ1, one, AJJ);
 
-                int info = potf2(LOWER_TRIANGLE, AJJ);
+                int info = potf2(LOWER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
-                    tlapack_error(
-                        info + j,
+                    tlapack_error_if(
+                        opts.ec.internal, info + j,
                         "The leading minor of the reported order is not "
                         "positive definite,"
                         " and the factorization could not be completed.");
diff --git a/include/tlapack/lapack/potrf_blocked_right_looking.hpp b/include/tlapack/lapack/potrf_blocked_right_looking.hpp
index 12a5921..19cc934 100644
--- a/include/tlapack/lapack/potrf_blocked_right_looking.hpp
+++ b/include/tlapack/lapack/potrf_blocked_right_looking.hpp
@@ -79,7 +79,7 @@ int potrf_rl(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts = {})
 
     // Unblocked code
     else if (nb >= n)
-        return potf2(uplo, A);
+        return potf2(uplo, A, opts);
 
     // Blocked code
     else {
@@ -90,10 +90,10 @@ int potrf_rl(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts = {})
                 // Define AJJ
                 auto AJJ = slice(A, range{j, j + jb}, range{j, j + jb});
 
-                int info = potf2(UPPER_TRIANGLE, AJJ);
+                int info = potf2(UPPER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
-                    tlapack_error(
-                        info + j,
+                    tlapack_error_if(
+                        opts.ec.internal, info + j,
                         "The leading minor of the reported order is not "
                         "positive definite,"
                         " and the factorization could not be completed.");
@@ -117,10 +117,10 @@ int potrf_rl(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts = {})
                 // Define AJJ
                 auto AJJ = slice(A, range{j, j + jb}, range{j, j + jb});
 
-                int info = potf2(LOWER_TRIANGLE, AJJ);
+                int info = potf2(LOWER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
-                    tlapack_error(
-                        info + j,
+                    tlapack_error_if(
+                        opts.ec.internal, info + j,
                         "The leading minor of the reported order is not "
                         "positive definite,"
                         " and the factorization could not be completed.");
diff --git a/include/tlapack/starpu/potf2.hpp b/include/tlapack/starpu/potf2.hpp
index 40c4432..6e52d22 100644
--- a/include/tlapack/starpu/potf2.hpp
+++ b/include/tlapack/starpu/potf2.hpp
@@ -19,7 +19,7 @@ namespace tlapack {
 
 /// Overload of potf2 for starpu::Matrix
 template <class uplo_t, class T>
-int potf2(uplo_t uplo, starpu::Matrix<T>& A)
+int potf2(uplo_t uplo, starpu::Matrix<T>& A, const EcOpts& = {})
 {
     using starpu::idx_t;
 
-- 
2.43.0


From 67bf13a3dbc67f3be1e603bc6b6b60998796c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 19/77] fix: pbtrf_with_workspace underflowed the block size
 when nb > kd (the default nb=32 with kd < 32) or kd = 0

---
 include/tlapack/lapack/pbtrf_with_workspace.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index 07a0c00..f3d4485 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -67,7 +67,8 @@ void pbtrf_with_workspace(uplo_t uplo,
 
     tlapack::Create<matrix_t> new_matrix;
 
-    const idx_t nb = opts.nb;
+    // The algorithm needs 1 <= nb <= kd if kd > 0
+    const idx_t nb = (kd > 0) ? min<idx_t>(opts.nb, kd) : 1;
 
     idx_t n = nrows(A);
 
@@ -85,7 +86,7 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             potrf(uplo, A00);
 
-            if (i + ib < n) {
+            if (kd > 0 && i + ib < n) {
                 // i2 = min(kd - ib, n - i - ib)
                 idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
                 // i3 = min(ib, n-i-kd)
@@ -158,7 +159,7 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             potf2(tlapack::Uplo::Lower, A00);
 
-            if (i + ib <= n) {
+            if (kd > 0 && i + ib <= n) {
                 // i2 = min(kd - ib, n - i - ib)
                 idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
                 // i3 = min(ib, n-i-kd)
-- 
2.43.0


From fb0d82adeb7fa8ac653b3f95475fd26db40b26c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 20/77] fix: pttrf did not compile for a real diagonal and a
 complex off-diagonal

---
 include/tlapack/lapack/pttrf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/pttrf.hpp b/include/tlapack/lapack/pttrf.hpp
index f49eead..ce43c3d 100644
--- a/include/tlapack/lapack/pttrf.hpp
+++ b/include/tlapack/lapack/pttrf.hpp
@@ -67,7 +67,7 @@ int pttrf(d_t& D, e_t& E, const EcOpts& opts = {})
                 " and the factorization could not be completed.");
             return i + 1;
         }
-        T Ei = E[i];
+        const type_t<e_t> Ei = E[i];
         E[i] = Ei / real(D[i]);
         D[i + 1] -= real(E[i] * conj(Ei));
     }
-- 
2.43.0


From b2ed652bc34fe250dce0c520a05b96177095a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 21/77] fix: trmm_out and trsm_tri recursed without end and
 mult_hehe read C(0,0) for empty matrices; mult_hehe printed empty lines

---
 include/tlapack/lapack/mult_hehe.hpp | 6 ++----
 include/tlapack/lapack/trmm_out.hpp  | 3 +++
 include/tlapack/lapack/trsm_tri.hpp  | 3 +++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/mult_hehe.hpp b/include/tlapack/lapack/mult_hehe.hpp
index 3943cc8..199a27a 100644
--- a/include/tlapack/lapack/mult_hehe.hpp
+++ b/include/tlapack/lapack/mult_hehe.hpp
@@ -68,9 +68,9 @@ void mult_hehe(Uplo uplo,
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    if (m != n) return;
+    if (m != n || n == 0) return;
 
-    if (n <= 1) {
+    if (n == 1) {
         C(0, 0) = alpha * real(A(0, 0)) * real(B(0, 0)) + beta * C(0, 0);
         return;
     }
@@ -137,8 +137,6 @@ void mult_hehe(Uplo uplo,
         auto C10 = slice(C, range(n0, n), range(0, n0));
         auto C11 = slice(C, range(n0, n), range(n0, n));
 
-        std::cout << std::endl;
-
         // A00*B00 = C00
         mult_hehe(LOWER_TRIANGLE, alpha, A00, B00, beta, C00);
 
diff --git a/include/tlapack/lapack/trmm_out.hpp b/include/tlapack/lapack/trmm_out.hpp
index 4772496..d204a40 100644
--- a/include/tlapack/lapack/trmm_out.hpp
+++ b/include/tlapack/lapack/trmm_out.hpp
@@ -99,6 +99,9 @@ void trmm_out(Side side,
     m = (transB == Op::NoTrans) ? nrows(B) : ncols(B);
     n = (transB == Op::NoTrans) ? ncols(B) : nrows(B);
 
+    // Quick return
+    if (m == 0 || n == 0) return;
+
     if (transB == Op::NoTrans) {
         if (uplo == Uplo::Upper) {
             if (diag == Diag::NonUnit) {
diff --git a/include/tlapack/lapack/trsm_tri.hpp b/include/tlapack/lapack/trsm_tri.hpp
index 8330517..090337d 100644
--- a/include/tlapack/lapack/trsm_tri.hpp
+++ b/include/tlapack/lapack/trsm_tri.hpp
@@ -118,6 +118,9 @@ void trsm_tri(Side sideA,
 
     idx_t n = nrows(A);
 
+    // Quick return
+    if (n == 0) return;
+
     // lascl(uploB, T(1.), alpha, B); this does not work
 
     if (uploB == Uplo::Upper) {
-- 
2.43.0


From 05d6a0136a8546f37f696188971d95ab017a70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 22/77] fix: tik_bidiag_elden and tik_svd allocated n-1 =
 2^64-1 elements for an empty matrix

---
 include/tlapack/lapack/tik_bidiag_elden.hpp | 3 +++
 include/tlapack/lapack/tik_svd.hpp          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/tik_bidiag_elden.hpp b/include/tlapack/lapack/tik_bidiag_elden.hpp
index 4659d9a..0571577 100644
--- a/include/tlapack/lapack/tik_bidiag_elden.hpp
+++ b/include/tlapack/lapack/tik_bidiag_elden.hpp
@@ -63,6 +63,9 @@ void tik_bidiag_elden(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
+    // Quick return
+    if (n == 0) return;
+
     // Bidiagonal decomposition
     std::vector<T> tauv(n);
     std::vector<T> tauw(n);
diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index ff8e0f4..b7aa5a5 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -46,6 +46,9 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
+    // Quick return
+    if (n == 0) return;
+
     using range = pair<idx_t, idx_t>;
 
     std::vector<T> tauv(n);
-- 
2.43.0


From f82582844724b4d014991feded2bb71e47d1b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 23/77] fix: tik_svd squared singular values and lambda,
 overflowing or underflowing for scaled problems

---
 include/tlapack/lapack/tik_svd.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index b7aa5a5..af67abf 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -14,6 +14,7 @@
 
 #include <tlapack/lapack/bidiag.hpp>
 #include <tlapack/lapack/lange.hpp>
+#include <tlapack/lapack/lapy2.hpp>
 #include <tlapack/lapack/laset.hpp>
 #include <tlapack/lapack/svd_qr.hpp>
 #include <tlapack/lapack/ungbr.hpp>
@@ -92,9 +93,13 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
     auto work = new_matrix(work_, n, k);
     gemm(CONJ_TRANS, NO_TRANS, real_t(1), Q2, x, work);
 
-    for (idx_t j = 0; j < n; ++j)
+    for (idx_t j = 0; j < n; ++j) {
+        // d[j] / (d[j]^2 + lambda^2) without unnecessary over- or underflow
+        const real_t h = lapy2(d[j], lambda);
+        const real_t f = (d[j] / h) / h;
         for (idx_t i = 0; i < k; ++i)
-            work(j, i) *= (d[j] / ((d[j] * d[j]) + (lambda * lambda)));
+            work(j, i) *= f;
+    }
 
     // Apply P2ᴴ
 
-- 
2.43.0


From 5e9dc1834d2a0bc41701eb6e21b65ecf2260c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 24/77] fix: Hessenberg and tridiagonal reductions failed for
 empty matrices, ihi = 0 and blocks of order <= 1; gehrd sliced tau out of
 range

---
 include/tlapack/lapack/gehd2.hpp |  8 +++++---
 include/tlapack/lapack/gehrd.hpp | 10 +++++-----
 include/tlapack/lapack/hetd2.hpp |  3 ++-
 include/tlapack/lapack/unghr.hpp |  5 ++++-
 include/tlapack/lapack/unmhr.hpp |  6 ++++++
 5 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index ef47ef2..69d6236 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -87,12 +87,13 @@ int gehd2_work(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
 
     // quick return
     if (n <= 0) return 0;
 
-    for (idx_t i = ilo; i < ihi - 1; ++i) {
+    tlapack_check_false((idx_t)size(tau) < n - 1);
+
+    for (idx_t i = ilo; i + 1 < ihi; ++i) {
         // Define v := A[i+1:ihi,i]
         auto v = slice(A, range{i + 1, ihi}, i);
 
@@ -166,11 +167,12 @@ int gehd2(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
 
     // quick return
     if (n <= 0) return 0;
 
+    tlapack_check_false((idx_t)size(tau) < n - 1);
+
     // Allocates workspace
     WorkInfo workinfo = gehd2_worksize<T>(ilo, ihi, A, tau);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 8a9ce5d..9253406 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -119,15 +119,15 @@ int gehrd_work(size_type<matrix_t> ilo,
     // Size of the last block which be handled with unblocked code
     const idx_t nx = max(nb, (idx_t)opts.nx_switch);
 
+    // quick return
+    if (n <= 0) return 0;
+
     // check arguments
     tlapack_check_false((ilo < 0) or (ilo >= n));
     tlapack_check_false((ihi < 0) or (ihi > n));
     tlapack_check_false(ncols(A) != nrows(A));
     tlapack_check_false((idx_t)size(tau) < n - 1);
 
-    // quick return
-    if (n <= 0) return 0;
-
     // Matrices Y and T
     auto [Y, work2] = ((ilo < ihi) && (nx < ihi - ilo - 1))
                           ? reshape(work, n, nb)
@@ -139,12 +139,12 @@ int gehrd_work(size_type<matrix_t> ilo,
     laset(GENERAL, zero, zero, Y);
 
     idx_t i = ilo;
-    for (; i + nx < ihi - 1; i = i + nb) {
+    for (; i + nx + 1 < ihi; i = i + nb) {
         const idx_t nb2 = min(nb, ihi - i - 1);
 
         auto V = slice(A, range{i + 1, ihi}, range{i, i + nb2});
         auto A2 = slice(A, range{0, ihi}, range{i, ihi});
-        auto tau2 = slice(tau, range{i, ihi});
+        auto tau2 = slice(tau, range{i, i + nb2});
         auto T_s = slice(matrixT, range{0, nb2}, range{0, nb2});
         auto Y_s = slice(Y, range{0, n}, range{0, nb2});
         lahr2(i, nb2, A2, tau2, T_s, Y_s);
diff --git a/include/tlapack/lapack/hetd2.hpp b/include/tlapack/lapack/hetd2.hpp
index 76892a7..c5ecdac 100644
--- a/include/tlapack/lapack/hetd2.hpp
+++ b/include/tlapack/lapack/hetd2.hpp
@@ -60,11 +60,12 @@ int hetd2(uplo_t uplo, A_t& A, tau_t& tau)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check(nrows(A) == ncols(A));
-    tlapack_check((idx_t)size(tau) >= n - 1);
 
     // quick return
     if (n <= 0) return 0;
 
+    tlapack_check((idx_t)size(tau) >= n - 1);
+
     if (uplo == Uplo::Upper) {
         //
         // Reduce upper triangle of A
diff --git a/include/tlapack/lapack/unghr.hpp b/include/tlapack/lapack/unghr.hpp
index b1d0b17..f84a47b 100644
--- a/include/tlapack/lapack/unghr.hpp
+++ b/include/tlapack/lapack/unghr.hpp
@@ -87,13 +87,16 @@ int unghr_work(size_type<matrix_t> ilo,
     // check arguments
     tlapack_check_false((idx_t)size(tau) + 1 < min(m, n));
 
+    // quick return
+    if (m <= 0 || n <= 0) return 0;
+
     // Shift the vectors which define the elementary reflectors one
     // column to the right, and set the first ilo and the last n-ihi
     // rows and columns to those of the unit matrix
 
     // This is currently optimised for column matrices, it may be interesting
     // to also write these loops for row matrices
-    for (idx_t j = ihi - 1; j > ilo; --j) {
+    for (idx_t j = ihi; j-- > ilo + 1;) {
         for (idx_t i = 0; i < j; ++i) {
             A(i, j) = zero;
         }
diff --git a/include/tlapack/lapack/unmhr.hpp b/include/tlapack/lapack/unmhr.hpp
index 0a0a5de..bdddfce 100644
--- a/include/tlapack/lapack/unmhr.hpp
+++ b/include/tlapack/lapack/unmhr.hpp
@@ -59,6 +59,9 @@ constexpr WorkInfo unmhr_worksize(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // Q is the identity
+    if (ihi <= ilo + 1) return WorkInfo(0);
+
     auto&& A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto&& tau_s = slice(tau, range{ilo, ihi - 1});
     auto&& C_s = (side == Side::Left)
@@ -92,6 +95,9 @@ int unmhr_work(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // quick return if Q is the identity
+    if (ihi <= ilo + 1) return 0;
+
     auto A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto tau_s = slice(tau, range{ilo, ihi - 1});
     auto C_s = (side == Side::Left)
-- 
2.43.0


From 46da630f308c7a3901e9c118e8bee2bb5faadbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 25/77] fix: bidiagonal reduction left the last entry of a tau
 vector unset in the blocked variant and failed for empty matrices

---
 include/tlapack/lapack/gebd2.hpp |  7 ++++---
 include/tlapack/lapack/labrd.hpp |  4 ++++
 include/tlapack/lapack/ungbr.hpp | 12 ++++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/gebd2.hpp b/include/tlapack/lapack/gebd2.hpp
index ad4fb98..3bd1070 100644
--- a/include/tlapack/lapack/gebd2.hpp
+++ b/include/tlapack/lapack/gebd2.hpp
@@ -45,7 +45,7 @@ constexpr WorkInfo gebd2_worksize(const matrix_t& A,
     const idx_t n = ncols(A);
 
     WorkInfo workinfo;
-    if (n > 1) {
+    if (m > 0 && n > 1) {
         auto&& A11 = cols(A, range{1, n});
         workinfo = larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                     col(A, 0), tauv[0], A11);
@@ -88,7 +88,7 @@ int gebd2_work(matrix_t& A, vector_t& tauv, vector_t& tauw, work_t& work)
     tlapack_check_false((idx_t)size(tauw) < min(m, n));
 
     // quick return
-    if (n <= 0) return 0;
+    if (m <= 0 || n <= 0) return 0;
 
     if (m >= n) {
         //
@@ -216,10 +216,11 @@ int gebd2(matrix_t& A, vector_t& tauv, vector_t& tauw)
     Create<matrix_t> new_matrix;
 
     // constants
+    const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
     // quick return
-    if (n <= 0) return 0;
+    if (m <= 0 || n <= 0) return 0;
 
     // Allocates workspace
     WorkInfo workinfo = gebd2_worksize<T>(A, tauv, tauw);
diff --git a/include/tlapack/lapack/labrd.hpp b/include/tlapack/lapack/labrd.hpp
index 457eab4..1debf02 100644
--- a/include/tlapack/lapack/labrd.hpp
+++ b/include/tlapack/lapack/labrd.hpp
@@ -188,6 +188,9 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
                 A(i, i) = d;
                 A(i, i + 1) = e;
             }
+            else {
+                taup[i] = zero;
+            }
         }
     }
     else {
@@ -307,6 +310,7 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
             }
             else {
                 conjugate(w);
+                tauq[i] = zero;
             }
         }
     }
diff --git a/include/tlapack/lapack/ungbr.hpp b/include/tlapack/lapack/ungbr.hpp
index 642ee29..2a287e7 100644
--- a/include/tlapack/lapack/ungbr.hpp
+++ b/include/tlapack/lapack/ungbr.hpp
@@ -56,6 +56,9 @@ constexpr WorkInfo ungbr_q_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m <= 0) return WorkInfo(0);
+
     if (m >= k) {
         return ungq_worksize<T>(FORWARD, COLUMNWISE_STORAGE, A, tau,
                                 UngqOpts{opts.nb});
@@ -100,6 +103,9 @@ constexpr WorkInfo ungbr_p_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n <= 0) return WorkInfo(0);
+
     if (n <= k) {
         auto&& A2 = slice(A, range{0, n - 1}, range{0, n - 1});
         auto&& tau2 = slice(tau, range{0, n - 1});
@@ -139,6 +145,9 @@ int ungbr_q_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m <= 0) return 0;
+
     if (m >= k) {
         // If m >= k, assume m >= n >= k
         ungq_work(FORWARD, COLUMNWISE_STORAGE, A, tau, work, UngqOpts{opts.nb});
@@ -244,6 +253,9 @@ int ungbr_p_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n <= 0) return 0;
+
     //
     // Form P**H, determined by a call to gebrd to reduce a k-by-n
     // matrix
-- 
2.43.0


From 9fd64eab30ee8f65f233003becf6c2a5c47e47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 26/77] fix: lassq lost digits of a subnormal sumsq whose
 product with scale underflows

---
 include/tlapack/lapack/lassq.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lassq.hpp b/include/tlapack/lapack/lassq.hpp
index 6c9e860..95a686a 100644
--- a/include/tlapack/lapack/lassq.hpp
+++ b/include/tlapack/lapack/lassq.hpp
@@ -126,9 +126,13 @@ void lassq(const vector_t& x,
                 }
             }
         }
-        else {
+        else if (scale < tsml || scale > tbig) {
             amed += scale * (scale * sumsq);
         }
+        else {
+            // scale^2 is representable, whereas scale * sumsq may underflow
+            amed += (scale * scale) * sumsq;
+        }
     }
 
     // Combine abig and amed or amed and asml if
-- 
2.43.0


From cbd9ceaab8d76cc9984db01e3d5b9b4bb2503d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 27/77] fix: steqr computed NaN for a zero coupling, never
 reported non-convergence and overflowed for extreme magnitudes

---
 include/tlapack/lapack/steqr.hpp | 42 +++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 087f5bb..6c1a3fe 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -94,6 +94,25 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     const real_t eps2 = square(eps);
     const real_t safmin = safe_min<real_t>();
 
+    // Scale the matrix if the squares of its entries could underflow or
+    // overflow. ascale is the largest entry after scaling, or zero
+    const real_t ssfmax = sqrt(one / safmin) / real_t(3);
+    const real_t ssfmin = sqrt(safmin) / eps2;
+    real_t anorm = abs(d[n - 1]);
+    for (idx_t i = 0; i < n - 1; ++i)
+        anorm = max(anorm, max(abs(d[i]), abs(e[i])));
+    real_t ascale = zero;
+    if (anorm > ssfmax)
+        ascale = ssfmax;
+    else if (anorm > zero && anorm < ssfmin)
+        ascale = ssfmin;
+    if (ascale != zero) {
+        for (idx_t i = 0; i < n; ++i)
+            d[i] = (d[i] / anorm) * ascale;
+        for (idx_t i = 0; i < n - 1; ++i)
+            e[i] = (e[i] / anorm) * ascale;
+    }
+
     // Compute the eigenvalues and eigenvectors of the tridiagonal
     // matrix.
     const idx_t itmax = 30 * n;
@@ -112,10 +131,19 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     bool forwarddirection = true;
 
     // Main loop
-    for (idx_t iter = 0; iter < itmax; iter++) {
+    for (idx_t iter = 0; iter <= itmax; iter++) {
         if (iter == itmax) {
             // The QR algorithm failed to converge, return with error.
-            return istop;
+            int info = 0;
+            for (idx_t i = 0; i < n - 1; ++i)
+                if (e[i] != zero) ++info;
+            if (ascale != zero) {
+                for (idx_t i = 0; i < n; ++i)
+                    d[i] = (d[i] / ascale) * anorm;
+                for (idx_t i = 0; i < n - 1; ++i)
+                    e[i] = (e[i] / ascale) * anorm;
+            }
+            return info;
         }
 
         if (istop <= 1) {
@@ -177,7 +205,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istop - 1];
             real_t g = (d[istop - 2] - p) / (two * e[istop - 2]);
             real_t r = lapy2(g, one);
-            g = d[istart] - p + e[istop - 2] / (real_t)(g + (sgn(g) * r));
+            g = d[istart] - p + e[istop - 2] / (g + ((g >= zero) ? r : -r));
 
             real_t s = one;
             real_t c = one;
@@ -211,7 +239,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istart];
             real_t g = (d[istart + 1] - p) / (two * e[istart]);
             real_t r = lapy2(g, one);
-            g = d[istop - 1] - p + e[istart] / (real_t)(g + (sgn(g) * r));
+            g = d[istop - 1] - p + e[istart] / (g + ((g >= zero) ? r : -r));
 
             real_t s = one;
             real_t c = one;
@@ -240,6 +268,12 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
         }
     }
 
+    // Undo the scaling
+    if (ascale != zero) {
+        for (idx_t i = 0; i < n; ++i)
+            d[i] = (d[i] / ascale) * anorm;
+    }
+
     // Order eigenvalues and eigenvectors
     if (!want_z) {
         // Use quick sort
-- 
2.43.0


From d4f79d382ba48b2a49f6e5bad886d205b3fb047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 28/77] fix: laed4 ignored failures of laed6, which lost a
 division in its scaled branch

---
 include/tlapack/lapack/laed4.hpp | 6 +++---
 include/tlapack/lapack/laed6.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/laed4.hpp b/include/tlapack/lapack/laed4.hpp
index f2d340a..aaf2c64 100644
--- a/include/tlapack/lapack/laed4.hpp
+++ b/include/tlapack/lapack/laed4.hpp
@@ -609,7 +609,7 @@ int laed4(
             std::vector<real_t> sub(delta.begin() + iim1, delta.end());
             info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-            if (info == 0) {
+            if (info != 0) {
                 return info;
             }
         }
@@ -793,9 +793,9 @@ int laed4(
                 }
 
                 std::vector<real_t> sub(delta.begin() + iim1, delta.end());
-                info = laed6(niter, orgati, c, sub, zz, w, eta);
+                info = laed6(iter, orgati, c, sub, zz, w, eta);
 
-                if (info == 0) {
+                if (info != 0) {
                     return info;
                 }
             }
diff --git a/include/tlapack/lapack/laed6.hpp b/include/tlapack/lapack/laed6.hpp
index b840692..9131fcf 100644
--- a/include/tlapack/lapack/laed6.hpp
+++ b/include/tlapack/lapack/laed6.hpp
@@ -278,7 +278,7 @@ int laed6(idx_t kniter,
         temp = max(max(abs(a), abs(b)), abs(c));
         a = a / temp;
         b = b / temp;
-        c = b / temp;
+        c = c / temp;
 
         if (c == 0.0) {
             eta = b / a;
-- 
2.43.0


From 3c78a9a59fda305cc8463da18508ecbc7e47417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 29/77] fix: lahqr read past the matrix when the active block
 ends at the last row

---
 include/tlapack/lapack/lahqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqr.hpp b/include/tlapack/lapack/lahqr.hpp
index c65af46..f38f4e0 100644
--- a/include/tlapack/lapack/lahqr.hpp
+++ b/include/tlapack/lapack/lahqr.hpp
@@ -170,7 +170,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
@@ -505,7 +505,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
-- 
2.43.0


From 2ce0afa4182f3b1802fe14b1747fe894f057bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 30/77] fix: lahqr_schur22 used a zero sign for zero p or sigma
 and skipped the row swap when b is zero

---
 include/tlapack/lapack/lahqr_schur22.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index f2431bd..308b053 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -92,7 +92,8 @@ void lahqr_schur22(T& a,
             // Real eigenvalues.
 
             // Compute a and d.
-            z = p + T(sgn(p)) * sqrt(scale) * sqrt(z);
+            z = sqrt(scale) * sqrt(z);
+            z = (p >= zero) ? p + z : p - z;
             a = d + z;
             d = d - (bcmax / z) * bcmin;
             // Compute b and the rotation matrix
@@ -124,7 +125,8 @@ void lahqr_schur22(T& a,
             p = half * temp;
             T tau = lapy2(sigma, temp);
             cs = sqrt(half * (one + abs(sigma) / tau));
-            sn = -(p / (tau * cs)) * T(sgn(sigma));
+            sn = -(p / (tau * cs));
+            if (sigma < zero) sn = -sn;
             //
             // Compute [aa bb] = [a b][cs -sn]
             //         [cc dd] = [c d][sn  cs]
@@ -165,6 +167,15 @@ void lahqr_schur22(T& a,
                         cs = temp;
                     }
                 }
+                else {
+                    // b is zero, swapping rows and columns results in Schur
+                    // form.
+                    b = -c;
+                    c = zero;
+                    temp = cs;
+                    cs = -sn;
+                    sn = temp;
+                }
             }
         }
     }
-- 
2.43.0


From 1421cb0d3846343da163c184af8b4f5d69f3af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 31/77] fix: multishift_qr used shifts outside the matrix and
 looped or underflowed for small windows and shift counts

---
 include/tlapack/lapack/multishift_qr.hpp | 95 +++++++++++++++++-------
 1 file changed, 69 insertions(+), 26 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index a55cb43..50fc756 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -19,6 +19,34 @@
 
 namespace tlapack {
 
+namespace internal {
+
+    /** Smallest matrix size for which multishift_qr() does not call lahqr().
+     *
+     * multishift_qr() uses the space below the subdiagonal as workspace. For
+     * matrices smaller than 15, this is not enough.
+     */
+    template <class idx_t>
+    constexpr idx_t multishift_qr_nmin(const FrancisOpts& opts)
+    {
+        return std::max<idx_t>(15, opts.nmin);
+    }
+
+    /** Number of shifts to be used by multishift_qr().
+     *
+     * The number of shifts is even, at least 2, and such that the workspace
+     * and the active block of size nh are large enough.
+     */
+    template <class idx_t>
+    idx_t multishift_qr_nshifts(idx_t n, idx_t nh, const FrancisOpts& opts)
+    {
+        idx_t ns = opts.nshift_recommender(n, nh);
+        ns = std::min<idx_t>(ns, std::min<idx_t>((n - 3) / 6, nh - 1));
+        return std::max<idx_t>(2, ns - ns % 2);
+    }
+
+}  // namespace internal
+
 template <class T,
           TLAPACK_SMATRIX matrix_t,
           TLAPACK_SVECTOR vector_t,
@@ -37,7 +65,7 @@ constexpr WorkInfo multishift_qr_worksize_sweep(bool want_t,
 
     const idx_t n = ncols(A);
     const idx_t nh = ihi - ilo;
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    const idx_t nsr = internal::multishift_qr_nshifts<idx_t>(n, nh, opts);
     auto&& shifts = slice(w, range{0, nsr});
 
     return multishift_QR_sweep_worksize<T>(want_t, want_z, ilo, ihi, A, shifts,
@@ -84,7 +112,8 @@ WorkInfo multishift_qr_worksize(bool want_t,
 
     // quick return
     WorkInfo workinfo;
-    if (ilo + 1 >= ihi || n < (idx_t)opts.nmin) return workinfo;
+    if (ilo + 1 >= ihi || n < internal::multishift_qr_nmin<idx_t>(opts))
+        return workinfo;
 
     {
         const idx_t nw_max = (n - 3) / 3;
@@ -139,14 +168,7 @@ int multishift_qr_work(bool want_t,
     // This routine uses the space below the subdiagonal as workspace
     // For small matrices, this is not enough
     // if n < nmin, the matrix will be passed to lahqr
-    const idx_t nmin = opts.nmin;
-
-    // Recommended number of shifts
-    const idx_t nsr = opts.nshift_recommender(n, nh);
-
-    // Recommended deflation window size
-    const idx_t nwr = opts.deflation_window_recommender(n, nh);
-    const idx_t nw_max = (n - 3) / 3;
+    const idx_t nmin = internal::multishift_qr_nmin<idx_t>(opts);
 
     const idx_t nibble = opts.nibble;
 
@@ -170,6 +192,14 @@ int multishift_qr_work(bool want_t,
         return lahqr(want_t, want_z, ilo, ihi, A, w, Z);
     }
 
+    // Number of shifts
+    const idx_t nsr = internal::multishift_qr_nshifts<idx_t>(n, nh, opts);
+
+    // Deflation window size
+    const idx_t nw_max = (n - 3) / 3;
+    const idx_t nwr = std::min<idx_t>(
+        nw_max, std::max<idx_t>(2, opts.deflation_window_recommender(n, nh)));
+
     // itmax is the total number of QR iterations allowed.
     // For most matrices, 3 shifts per eigenvalue is enough, so
     // we set itmax to 30 times nh as a safe limit.
@@ -257,16 +287,21 @@ int multishift_qr_work(bool want_t,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
 
-        idx_t i_shifts = istop - ls;
+        // Number of shifts for this sweep
+        idx_t ns =
+            std::min<idx_t>(nsr, std::max<idx_t>(2, istop - istart - 1));
+        ns = ns - ns % 2;
+
+        idx_t i_shifts;
 
         if (k_defl % non_convergence_limit_shift == 0) {
-            ns = nsr;
-            for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
-                real_t ss = abs1(A(i, i - 1));
-                if (i > 1) ss += abs1(A(i - 1, i - 2));
-                TA aa = dat1 * ss + A(i, i);
+            // Exceptional shifts
+            i_shifts = istop - ns;
+            for (idx_t i = i_shifts; i + 1 < istop; i = i + 2) {
+                real_t ss = abs1(A(i + 1, i));
+                if (i > istart) ss += abs1(A(i, i - 1));
+                TA aa = dat1 * ss + A(i + 1, i + 1);
                 TA bb = ss;
                 TA cc = dat2 * ss;
                 TA dd = aa;
@@ -274,15 +309,22 @@ int multishift_qr_work(bool want_t,
             }
         }
         else {
-            if (ls < nsr / 2) {
-                // Got nsr/2 or fewer shifts? Then use multi/double shift qr to
-                // get more
-                auto temp = slice(A, range{n - nsr, n}, range{0, nsr});
-                auto shifts = slice(w, range{istop - nsr, istop});
-                auto Z_slice = slice(Z, range{0, nsr}, range{0, nsr});
-                int ierr = lahqr(false, false, 0, nsr, temp, shifts, Z_slice);
+            i_shifts = istop - ls;
 
-                ns = nsr - ierr;
+            if (ls <= ns / 2) {
+                // Got ns/2 or fewer shifts? Then use multi/double shift qr to
+                // get more
+                auto temp = slice(A, range{n - ns, n}, range{0, ns});
+                for (idx_t j = 0; j < ns; ++j)
+                    for (idx_t i = 0; i < ns; ++i)
+                        temp(i, j) = (i <= j + 1)
+                                         ? A(istop - ns + i, istop - ns + j)
+                                         : TA(zero);
+                auto shifts = slice(w, range{istop - ns, istop});
+                auto Z_slice = slice(Z, range{0, ns}, range{0, ns});
+                idx_t ierr = lahqr(false, false, 0, ns, temp, shifts, Z_slice);
+
+                ns = ns - ierr;
 
                 if (ns < 2) {
                     // In case of a rare QR failure, use eigenvalues
@@ -331,6 +373,7 @@ int multishift_qr_work(bool want_t,
 
             // Since we shuffled the shifts, we will only drop
             // Real shifts
+            ns = min(ns, istop - i_shifts);
             if (ns % 2 == 1) ns = ns - 1;
             i_shifts = istop - ns;
         }
@@ -465,7 +508,7 @@ int multishift_qr(bool want_t,
     // This routine uses the space below the subdiagonal as workspace
     // For small matrices, this is not enough
     // if n < nmin, the matrix will be passed to lahqr
-    const idx_t nmin = opts.nmin;
+    const idx_t nmin = internal::multishift_qr_nmin<idx_t>(opts);
 
     // quick return
     if (nh <= 0) return 0;
-- 
2.43.0


From 68b798c3885e310c8bb6b218c4045040703ac19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 32/77] fix: aggressive early deflation sized its workspace
 from the first window only and its shift sort looped on ties

---
 .../lapack/aggressive_early_deflation.hpp     | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/tlapack/lapack/aggressive_early_deflation.hpp b/include/tlapack/lapack/aggressive_early_deflation.hpp
index 1d342e4..fa6834c 100644
--- a/include/tlapack/lapack/aggressive_early_deflation.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation.hpp
@@ -64,14 +64,10 @@ namespace internal {
         const idx_t nw_max = (n - 3) / 3;
         const idx_t jw = min(min(nw, ihi - ilo), nw_max);
 
-        if (jw != ihi - ilo) {
-            // Hessenberg reduction
-            auto&& TW = slice(A, range{0, jw}, range{0, jw});
-            auto&& tau = slice(A, range{0, jw}, 0);
-            return gehrd_worksize<T>(0, jw, TW, tau);
-        }
-        else
-            return WorkInfo();
+        // Hessenberg reduction
+        auto&& TW = slice(A, range{0, jw}, range{0, jw});
+        auto&& tau = slice(A, range{0, jw}, 0);
+        return gehrd_worksize<T>(0, jw, TW, tau);
     }
 }  // namespace internal
 
@@ -341,10 +337,7 @@ void aggressive_early_deflation_work(bool want_t,
                 if (TW(i1 + 1, i1) != zero) n1 = 2;
 
             // Check if there is a next block
-            if (i1 + n1 == jw) {
-                ilst = ilst - n1;
-                break;
-            }
+            if (i1 + n1 >= sorting_window_size) break;
 
             // Index of the second block
             idx_t i2 = i1 + n1;
@@ -367,7 +360,9 @@ void aggressive_early_deflation_work(bool want_t,
                 ev2 = abs(TW(i2, i2)) +
                       sqrt(abs(TW(i2 + 1, i2))) * sqrt(abs(TW(i2, i2 + 1)));
 
-            if (ev1 > ev2) {
+            if (!(ev1 < ev2)) {
+                // Already sorted. Equal values are not swapped, so that the
+                // loop terminates.
                 i1 = i2;
             }
             else {
-- 
2.43.0


From ec227c61751970903eb3af635014fcb48a95d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 33/77] fix: multishift_QR_sweep underflowed indices for an
 active block too small for a bulge

---
 include/tlapack/lapack/multishift_qr_sweep.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/multishift_qr_sweep.hpp b/include/tlapack/lapack/multishift_qr_sweep.hpp
index 873dd22..d37e64f 100644
--- a/include/tlapack/lapack/multishift_qr_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qr_sweep.hpp
@@ -107,12 +107,16 @@ void multishift_QR_sweep_work(bool want_t,
 
     const idx_t n_block_max = (n - 3) / 3;
     const idx_t n_shifts_max =
-        min(ihi - ilo - 1, std::max<idx_t>(2, 3 * (n_block_max / 4)));
+        std::min<idx_t>((ihi > ilo) ? ihi - ilo - 1 : 0,
+                        std::max<idx_t>(2, 3 * (n_block_max / 4)));
 
     idx_t n_shifts = std::min<idx_t>(size(s), n_shifts_max);
     if (n_shifts % 2 == 1) n_shifts = n_shifts - 1;
     idx_t n_bulges = n_shifts / 2;
 
+    // Quick return: the active block is too small to hold a bulge
+    if (n_bulges == 0) return;
+
     const idx_t n_block_desired = std::min<idx_t>(2 * n_shifts, n_block_max);
 
     // Define workspace matrices
-- 
2.43.0


From 6f933cee1587fc67ef216427a879979c212fd42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 34/77] fix: move_bulge lost the factor tau in the reference
 sum of its collapse test

---
 include/tlapack/lapack/move_bulge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/move_bulge.hpp b/include/tlapack/lapack/move_bulge.hpp
index 5a6385d..461b94d 100644
--- a/include/tlapack/lapack/move_bulge.hpp
+++ b/include/tlapack/lapack/move_bulge.hpp
@@ -82,7 +82,7 @@ void move_bulge(matrix_t& H,
         larfg(FORWARD, COLUMNWISE_STORAGE, vt, tau);
         vt[0] = tau;
 
-        refsum = conj(vt[0]) * H(1, 0) + conj(vt[1]) * H(2, 0);
+        refsum = conj(vt[0]) * (H(1, 0) + conj(vt[1]) * H(2, 0));
         if (abs1(H(2, 0) - refsum * vt[1]) + abs1(refsum * vt[2]) >
             eps * (abs1(H(0, 0)) + abs1(H(1, 1)) + abs1(H(2, 2)))) {
             // Starting a new bulge here would create non-negligible fill. Use
-- 
2.43.0


From c74420fb69a0fe0977e5d52ecb0581786aa94dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 35/77] fix: inv_house3 returned a wrong null vector when the
 trailing 2-by-2 block is singular

---
 include/tlapack/lapack/inv_house3.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/inv_house3.hpp b/include/tlapack/lapack/inv_house3.hpp
index 304cea9..83d373c 100644
--- a/include/tlapack/lapack/inv_house3.hpp
+++ b/include/tlapack/lapack/inv_house3.hpp
@@ -98,8 +98,9 @@ void inv_house3(const matrix_t& A, vector_t& v, type_t<vector_t>& tau)
     real_t scale = (real_t)1;
     if (abs1(u22) < safemin) {
         v[0] = (T)0;
-        v[1] = (T)1;
-        v[2] = -u12 / u11;
+        v[1] = -u12 / u11;
+        v[2] = (T)1;
+        if (colswapped) std::swap(v[1], v[2]);
         larfg(FORWARD, COLUMNWISE_STORAGE, v, tau);
         return;
     }
-- 
2.43.0


From d27d0c4d4d3adac8cabfbf2a041a6ace25480077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 36/77] fix: gghrd and gghd3 rejected empty matrices

---
 include/tlapack/lapack/gghd3.hpp | 3 +++
 include/tlapack/lapack/gghrd.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/gghd3.hpp b/include/tlapack/lapack/gghd3.hpp
index a7cb39a..706d595 100644
--- a/include/tlapack/lapack/gghd3.hpp
+++ b/include/tlapack/lapack/gghd3.hpp
@@ -73,6 +73,9 @@ int gghd3(bool wantq,
     const idx_t nb = opts.nb;
     const idx_t nh = ihi - ilo - 1;
 
+    // quick return
+    if (n <= 0) return 0;
+
     // check arguments
     tlapack_check(ilo >= 0 && ilo < n);
     tlapack_check(ihi > ilo && ihi <= n);
diff --git a/include/tlapack/lapack/gghrd.hpp b/include/tlapack/lapack/gghrd.hpp
index 73c67ea..eb6c9d7 100644
--- a/include/tlapack/lapack/gghrd.hpp
+++ b/include/tlapack/lapack/gghrd.hpp
@@ -55,6 +55,9 @@ int gghrd(bool wantq,
     // constants
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n <= 0) return 0;
+
     // check arguments
     tlapack_check(ilo >= 0 && ilo < n);
     tlapack_check(ihi > ilo && ihi <= n);
-- 
2.43.0


From 26124c973df70aa5e047b4e9abee8141b5348b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 37/77] fix: gghd3 updated Q and Z even when they were not
 requested

---
 include/tlapack/lapack/gghd3.hpp | 44 +++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/gghd3.hpp b/include/tlapack/lapack/gghd3.hpp
index 706d595..2038eae 100644
--- a/include/tlapack/lapack/gghd3.hpp
+++ b/include/tlapack/lapack/gghd3.hpp
@@ -187,10 +187,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 = cols(Q, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(Q, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -221,11 +223,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 =
-                cols(Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(Q, range(j + 1 + nnb * ib,
+                                        j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
 
         //
@@ -257,10 +261,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 = cols(Z, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(Z, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -290,11 +296,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 =
-                cols(Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(Z, range(j + 1 + nnb * ib,
+                                        j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
     }
 
-- 
2.43.0


From 18afd315740ac536a58ba9cdaa224694481b0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 38/77] fix: lahqz and multishift_qz read A(ihi, ihi-1) beyond
 the active block

---
 include/tlapack/lapack/lahqz.hpp         | 2 +-
 include/tlapack/lapack/multishift_qz.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 3176bb8..7a6854f 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -182,7 +182,7 @@ int lahqz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 15c5d91..88d4ad7 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -204,7 +204,7 @@ int multishift_qz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
-- 
2.43.0


From b31f9d77cae1b579ea4e140f1adeae1debbd760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 39/77] fix: lahqz and multishift_qz set real positive diagonal
 entries of B to zero for complex pencils

---
 include/tlapack/lapack/lahqz.hpp         | 10 +++++-----
 include/tlapack/lapack/multishift_qz.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 7a6854f..551f6c5 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -314,8 +314,11 @@ int lahqz(bool want_s,
             }
             else {
                 real_t absB = abs(B(istart, istart));
-                if (absB > small_num and (imag(B(istart, istart)) != zero or
-                                          real(B(istart, istart)) < zero)) {
+                if (absB <= small_num) {
+                    B(istart, istart) = zero;
+                }
+                else if (imag(B(istart, istart)) != zero or
+                         real(B(istart, istart)) < zero) {
                     TA scal = conj(B(istart, istart) / absB);
                     for (idx_t i = istart_m; i <= istart; ++i) {
                         B(i, istart) = scal * B(i, istart);
@@ -328,9 +331,6 @@ int lahqz(bool want_s,
                     }
                     B(istart, istart) = absB;
                 }
-                else {
-                    B(istart, istart) = zero;
-                }
             }
             alpha[istart] = A(istart, istart);
             beta[istart] = B(istart, istart);
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 88d4ad7..001e525 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -336,8 +336,11 @@ int multishift_qz(bool want_s,
             }
             else {
                 real_t absB = abs(B(istart, istart));
-                if (absB > small_num and (imag(B(istart, istart)) != zero or
-                                          real(B(istart, istart)) < zero)) {
+                if (absB <= small_num) {
+                    B(istart, istart) = zero;
+                }
+                else if (imag(B(istart, istart)) != zero or
+                         real(B(istart, istart)) < zero) {
                     TA scal = conj(B(istart, istart) / absB);
                     for (idx_t i = istart_m; i <= istart; ++i) {
                         B(i, istart) = scal * B(i, istart);
@@ -350,9 +353,6 @@ int multishift_qz(bool want_s,
                     }
                     B(istart, istart) = absB;
                 }
-                else {
-                    B(istart, istart) = zero;
-                }
             }
             alpha[istart] = A(istart, istart);
             beta[istart] = B(istart, istart);
-- 
2.43.0


From a90cedc6a3a4fca52806b7652893d0522f7096e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 40/77] fix: multishift_qz did not respect the workspace and
 active block when choosing shifts and window

---
 include/tlapack/lapack/multishift_qz.hpp | 66 ++++++++++++++++++------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 001e525..d014b79 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -21,6 +21,34 @@
 
 namespace tlapack {
 
+namespace internal {
+
+    /** Smallest matrix size for which multishift_qz() does not call lahqz().
+     *
+     * multishift_qz() uses the space below the subdiagonal as workspace. For
+     * matrices smaller than 15, this is not enough.
+     */
+    template <class idx_t>
+    constexpr idx_t multishift_qz_nmin(const FrancisOpts& opts)
+    {
+        return std::max<idx_t>(15, opts.nmin);
+    }
+
+    /** Number of shifts to be used by multishift_qz().
+     *
+     * The number of shifts is even, at least 2, and such that the workspace
+     * and the active block of size nh are large enough.
+     */
+    template <class idx_t>
+    idx_t multishift_qz_nshifts(idx_t n, idx_t nh, const FrancisOpts& opts)
+    {
+        idx_t ns = opts.nshift_recommender(n, nh);
+        ns = std::min<idx_t>(ns, std::min<idx_t>((n - 3) / 6, nh - 1));
+        return std::max<idx_t>(2, ns - ns % 2);
+    }
+
+}  // namespace internal
+
 /** multishift_qz computes the eigenvalues of a matrix pair (H,T),
  *  where H is an upper Hessenberg matrix and T is upper triangular,
  *  using the multishift QZ algorithm with AED.
@@ -92,14 +120,7 @@ int multishift_qz(bool want_s,
     // This routine uses the space below the subdiagonal as workspace
     // For small matrices, this is not enough
     // if n < nmin, the matrix will be passed to lahqr
-    const idx_t nmin = opts.nmin;
-
-    // Recommended number of shifts
-    const idx_t nsr = opts.nshift_recommender(n, nh);
-
-    // Recommended deflation window size
-    const idx_t nwr = opts.deflation_window_recommender(n, nh);
-    const idx_t nw_max = (n - 3) / 3;
+    const idx_t nmin = internal::multishift_qz_nmin<idx_t>(opts);
 
     const idx_t nibble = opts.nibble;
 
@@ -135,6 +156,14 @@ int multishift_qz(bool want_s,
         return lahqz(want_s, want_q, want_z, ilo, ihi, A, B, alpha, beta, Q, Z);
     }
 
+    // Number of shifts
+    const idx_t nsr = internal::multishift_qz_nshifts<idx_t>(n, nh, opts);
+
+    // Deflation window size
+    const idx_t nw_max = (n - 3) / 3;
+    const idx_t nwr = std::min<idx_t>(
+        nw_max, std::max<idx_t>(2, opts.deflation_window_recommender(n, nh)));
+
     // itmax is the total number of QR iterations allowed.
     // For most matrices, 3 shifts per eigenvalue is enough, so
     // we set itmax to 30 times nh as a safe limit.
@@ -474,18 +503,22 @@ int multishift_qz(bool want_s,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
 
-        idx_t i_shifts = istop - ls;
+        // Number of shifts for this sweep
+        idx_t ns =
+            std::min<idx_t>(nsr, std::max<idx_t>(2, istop - istart - 1));
+        ns = ns - ns % 2;
+
+        idx_t i_shifts;
 
         if (k_defl % non_convergence_limit_shift == 0) {
             // This exceptional shift closely resembles the QR exceptional shift
             // This is nice for easy maintenance, but is not guaranteed to work.
-            ns = nsr;
-            for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
-                real_t ss = abs1(A(i, i - 1));
-                if (i > 1) ss += abs1(A(i - 1, i - 2));
-                TA aa = dat1 * ss + A(i, i);
+            i_shifts = istop - ns;
+            for (idx_t i = i_shifts; i + 1 < istop; i = i + 2) {
+                real_t ss = abs1(A(i + 1, i));
+                if (i > istart) ss += abs1(A(i, i - 1));
+                TA aa = dat1 * ss + A(i + 1, i + 1);
                 TA bb = ss;
                 TA cc = dat2 * ss;
                 TA dd = aa;
@@ -495,6 +528,8 @@ int multishift_qz(bool want_s,
             }
         }
         else {
+            i_shifts = istop - ls;
+
             // Sort the shifts (helps a little)
             // Bubble sort keeps complex conjugate pairs together
             bool sorted = false;
@@ -536,6 +571,7 @@ int multishift_qz(bool want_s,
 
             // Since we shuffled the shifts, we will only drop
             // Real shifts
+            ns = min(ns, ls);
             if (ns % 2 == 1) ns = ns - 1;
             i_shifts = istop - ns;
         }
-- 
2.43.0


From 30e9e3605becbadabe8a50d0c1e5176e3e8bf185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 41/77] fix: lahqz_shiftcolumn produced NaN when a scaling
 factor was not applied

---
 include/tlapack/lapack/lahqz_shiftcolumn.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/lahqz_shiftcolumn.hpp b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
index c150c4d..271ee7d 100644
--- a/include/tlapack/lapack/lahqz_shiftcolumn.hpp
+++ b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
@@ -92,6 +92,8 @@ int lahqz_shiftcolumn(const matrix_t& A,
             w1 = w1 / scale1;
             w2 = w2 / scale1;
         }
+        else
+            scale1 = real_t(1);
         // Solve linear system
         w2 = w2 / B(1, 1);
         w1 = (w1 - B(0, 1) * w2) / B(0, 0);
@@ -100,6 +102,8 @@ int lahqz_shiftcolumn(const matrix_t& A,
             w1 = w1 / scale2;
             w2 = w2 / scale2;
         }
+        else
+            scale2 = real_t(1);
         // Apply second shift
         v[0] = beta2 * (A(0, 0) * w1 + A(0, 1) * w2) -
                real(s2) * (B(0, 0) * w1 + B(0, 1) * w2);
@@ -109,8 +113,9 @@ int lahqz_shiftcolumn(const matrix_t& A,
                real(s2) * (B(2, 0) * w1 + B(2, 1) * w2);
         // Account for imaginary part
         v[0] = v[0] + imag(s1) * imag(s1) * B(0, 0) / scale1 / scale2;
-        // Check for overflow
-        if (abs(v[0]) > safmax or abs(v[1]) > safmax or abs(v[2]) > safmax) {
+        // Check for overflow and NaNs
+        if (!(abs(v[0]) <= safmax and abs(v[1]) <= safmax and
+              abs(v[2]) <= safmax)) {
             v[0] = zero;
             v[1] = zero;
             v[2] = zero;
@@ -176,8 +181,9 @@ int lahqz_shiftcolumn(const matrix_t& A,
                s2 * (B(1, 0) * w1 + B(1, 1) * w2);
         v[2] = beta2 * (A(2, 0) * w1 + A(2, 1) * w2) -
                s2 * (B(2, 0) * w1 + B(2, 1) * w2);
-        // Check for overflow
-        if (abs1(v[0]) > safmax or abs1(v[1]) > safmax or abs1(v[2]) > safmax) {
+        // Check for overflow and NaNs
+        if (!(abs1(v[0]) <= safmax and abs1(v[1]) <= safmax and
+              abs1(v[2]) <= safmax)) {
             v[0] = zero;
             v[1] = zero;
             v[2] = zero;
-- 
2.43.0


From 81645b11d1e2237f3bf6357f0c608fd48bd2d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 42/77] fix: multishift_QZ_sweep failed on small active blocks
 and without Z

---
 include/tlapack/lapack/multishift_qz_sweep.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz_sweep.hpp b/include/tlapack/lapack/multishift_qz_sweep.hpp
index 3fceb60..30050e2 100644
--- a/include/tlapack/lapack/multishift_qz_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qz_sweep.hpp
@@ -87,11 +87,15 @@ void multishift_QZ_sweep(bool want_t,
     // We use the lower triangular part of A and B as workspace
     const idx_t n_block_max = (n - 3) / 3;
     const idx_t n_shifts_max =
-        min(ihi - ilo - 1, std::max<idx_t>(2, 3 * (n_block_max / 4)));
+        std::min<idx_t>((ihi > ilo) ? ihi - ilo - 1 : 0,
+                        std::max<idx_t>(2, 3 * (n_block_max / 4)));
     idx_t n_shifts = std::min<idx_t>(size(alpha), n_shifts_max);
     if (n_shifts % 2 == 1) n_shifts = n_shifts - 1;
     idx_t n_bulges = n_shifts / 2;
 
+    // Quick return: the active block is too small to hold a bulge
+    if (n_bulges == 0) return;
+
     const idx_t n_block_desired = std::min<idx_t>(2 * n_shifts, n_block_max);
 
     // Qc stores the left orthogonal transformations
@@ -654,11 +658,9 @@ void multishift_QZ_sweep(bool want_t,
                         auto a1 = col(A2, i);
                         auto a2 = col(A2, i + 1);
                         rot(a1, a2, c2, conj(s2));
-                        if (want_z) {
-                            auto z1 = col(Zc2, i);
-                            auto z2 = col(Zc2, i + 1);
-                            rot(z1, z2, c2, conj(s2));
-                        }
+                        auto z1 = col(Zc2, i);
+                        auto z2 = col(Zc2, i + 1);
+                        rot(z1, z2, c2, conj(s2));
                     }
                 }
 
-- 
2.43.0


From 9063cbf9f3c8854bd682c1324f287ec863fa1c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 43/77] fix: aggressive_early_deflation_generalized used the
 workspace below the diagonal of B as data

---
 .../lapack/aggressive_early_deflation_generalized.hpp        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp b/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
index 43de040..dcf2a30 100644
--- a/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
@@ -207,9 +207,12 @@ void aggressive_early_deflation_generalized(bool want_s,
     else {
         infqz = multishift_qz(true, true, true, 0, jw, Aw, Bw, alpha_window,
                               beta_window, Qc, Zc, opts);
-        for (idx_t j = 0; j < jw; ++j)
+        for (idx_t j = 0; j < jw; ++j) {
             for (idx_t i = j + 2; i < jw; ++i)
                 Aw(i, j) = zero;
+            for (idx_t i = j + 1; i < jw; ++i)
+                Bw(i, j) = zero;
+        }
     }
 
     // TODO: use multishift_qz recursively
-- 
2.43.0


From 9df63c3bae5890bbde785d9d8bead898fef43d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 44/77] fix: inv_house3 returned zero when the scaling
 underflows

---
 include/tlapack/lapack/inv_house3.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/inv_house3.hpp b/include/tlapack/lapack/inv_house3.hpp
index 83d373c..4ed0a70 100644
--- a/include/tlapack/lapack/inv_house3.hpp
+++ b/include/tlapack/lapack/inv_house3.hpp
@@ -96,7 +96,7 @@ void inv_house3(const matrix_t& A, vector_t& v, type_t<vector_t>& tau)
     v[2] = v[2] - v[1] * l21;
     // Solve upper triangular system
     real_t scale = (real_t)1;
-    if (abs1(u22) < safemin) {
+    if (abs1(u22) < safemin * max<real_t>((real_t)1, abs1(v[2]))) {
         v[0] = (T)0;
         v[1] = -u12 / u11;
         v[2] = (T)1;
-- 
2.43.0


From a6cdd531f737af0879bd80acc65ac8d621a30aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 45/77] fix: lahqz_eig22 overflowed for a singular pencil with
 zero A

---
 include/tlapack/lapack/lahqz_eig22.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 311ce78..85cec88 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -107,10 +107,11 @@ void lahqz_eig22(const A_t& A,
             }
         }
 
-        alpha1 = a00;
-        alpha2 = a11;
+        // Undo the scaling of A, scaling B instead may overflow
+        alpha1 = anorm * a00;
+        alpha2 = anorm * a11;
         beta1 = zero;
-        beta2 = real(b11) * ascale;
+        beta2 = real(b11);
         return;
     }
 
@@ -146,9 +147,10 @@ void lahqz_eig22(const A_t& A,
             }
         }
 
-        alpha1 = a00;
-        alpha2 = a11;
-        beta1 = real(b00) * ascale;
+        // Undo the scaling of A, scaling B instead may overflow
+        alpha1 = anorm * a00;
+        alpha2 = anorm * a11;
+        beta1 = real(b00);
         beta2 = zero;
         return;
     }
-- 
2.43.0


From 4f16ff36597fdc9ffaa389725f4c3ac541770927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 46/77] fix: lahqz_eig22 returned NaN or inaccurate eigenvalues
 for complex pencils

---
 include/tlapack/lapack/lahqz_eig22.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 85cec88..b58134f 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -192,24 +192,26 @@ void lahqz_eig22(const A_t& A,
     }
     TA qq = ss * as01;
     TA discr;
-    real_t r;
+    // discr contains the discriminant divided by rscale^2
+    real_t rscale;
     if (abs1(pp * rtmin) >= one) {
         discr = (rtmin * pp) * (rtmin * pp) + qq * safmin;
-        r = sqrt(abs(discr)) * rtmax;
+        rscale = rtmax;
     }
     else {
         if (abs1(pp * pp) + abs1(qq) <= safmin) {
             discr = (rtmax * pp) * (rtmax * pp) + qq * safmax;
-            r = sqrt(abs(discr)) * rtmin;
+            rscale = rtmin;
         }
         else {
             discr = pp * pp + qq;
-            r = sqrt(abs(discr));
+            rscale = one;
         }
     }
+    real_t r = sqrt(abs(discr)) * rscale;
 
     if constexpr (is_complex<TA>) {
-        TA root = sqrt(discr);
+        TA root = rscale * sqrt(discr);
 
         TA mu_big;
         if (abs1(pp + root) > abs1(pp - root)) {
@@ -218,9 +220,18 @@ void lahqz_eig22(const A_t& A,
         else {
             mu_big = pp - root;
         }
-        TA mu_small = -qq / mu_big;
+        // If mu_big is zero, then both eigenvalues are equal to the shift
+        TA mu_small = (mu_big == TA(0)) ? TA(0) : TA(-qq / mu_big);
         alpha1 = shift + mu_big;
         alpha2 = shift + mu_small;
+        // If one eigenvalue is much larger than the other, then the smaller
+        // one may suffer from cancellation. Use the determinant instead.
+        if (half * abs1(alpha1) > max<real_t>(abs1(alpha2), safmin)) {
+            alpha2 = (a00 * a11 - a01 * a10) * (binv00 * binv11) / alpha1;
+        }
+        else if (half * abs1(alpha2) > max<real_t>(abs1(alpha1), safmin)) {
+            alpha1 = (a00 * a11 - a01 * a10) * (binv00 * binv11) / alpha2;
+        }
     }
     else {
         //
-- 
2.43.0


From c60620e66ec61ab60581ab259aa477a2e39323a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 47/77] fix: generalized_schur_swap updated Q and Z even when
 they were not requested

---
 .../tlapack/lapack/generalized_schur_swap.hpp | 46 +++++++++++--------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/generalized_schur_swap.hpp b/include/tlapack/lapack/generalized_schur_swap.hpp
index 83e1b76..1db4277 100644
--- a/include/tlapack/lapack/generalized_schur_swap.hpp
+++ b/include/tlapack/lapack/generalized_schur_swap.hpp
@@ -948,7 +948,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_q) {
             auto Q_slice = slice(Q, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Q_slice, QQ, StrongZero(T(0)),
@@ -974,7 +974,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_z) {
             auto Z_slice = slice(Z, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Z_slice, ZZ, StrongZero(T(0)),
@@ -1029,9 +1029,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0, range(j2, n));
             auto b2 = slice(B, j1, range(j2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0);
-            auto q1 = col(Q, j1);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0);
+                auto q1 = col(Q, j1);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation and scaling
         {
@@ -1041,20 +1043,23 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0), j0);
             auto b2 = slice(B, range(0, j0), j1);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0);
-            auto z1 = col(Z, j1);
-            rot(z0, z1, cr, sr);
 
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
+            }
+
+            if (want_z) {
+                auto z0 = col(Z, j0);
+                auto z1 = col(Z, j1);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
             }
         }
     }
@@ -1091,9 +1096,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0 + n2, range(j2 + n2, n));
             auto b2 = slice(B, j1 + n2, range(j2 + n2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0 + n2);
-            auto q1 = col(Q, j1 + n2);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0 + n2);
+                auto q1 = col(Q, j1 + n2);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation
         {
@@ -1103,20 +1110,23 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0 + n2), j0 + n2);
             auto b2 = slice(B, range(0, j0 + n2), j1 + n2);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0 + n2);
-            auto z1 = col(Z, j1 + n2);
-            rot(z0, z1, cr, sr);
 
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
+            }
+
+            if (want_z) {
+                auto z0 = col(Z, j0 + n2);
+                auto z1 = col(Z, j1 + n2);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
             }
         }
     }
-- 
2.43.0


From 18b05b1f7ba0d1aea0bdf369aac2dedcab0c2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 48/77] fix: trevc_2x2solve did not apply the last scale factor
 to the second component

---
 include/tlapack/lapack/trevc_protect.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/trevc_protect.hpp b/include/tlapack/lapack/trevc_protect.hpp
index 7b89251..bbbb97b 100644
--- a/include/tlapack/lapack/trevc_protect.hpp
+++ b/include/tlapack/lapack/trevc_protect.hpp
@@ -306,6 +306,7 @@ void trevc_2x2solve(
     y1 = y1 - u01 * x2;
     T scale4 = trevc_protectdiv(y1, u00, sf_min, sf_max);
     x1 = (scale4 * y1) / u00;
+    x2 = scale4 * x2;
 
     // Step 5: undo column swap
     if (col_swapped) std::swap(x1, x2);
@@ -465,6 +466,8 @@ void trevc_2x2solve(T ar,
     // x1 = temp / u00
     T scale4 = trevc_protectdiv(tempr, tempi, u00r, u00i, sf_min, sf_max);
     ladiv(scale4 * tempr, scale4 * tempi, u00r, u00i, x1r, x1i);
+    x2r = scale4 * x2r;
+    x2i = scale4 * x2i;
 
     // Step 5: undo column swap
     if (col_swapped) {
-- 
2.43.0


From bfa9814be164966ae70c253e2264b8cb0e1532ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 49/77] fix: trevc_protectdiv and trevc_protectupdate returned
 a zero factor when a norm close to the threshold overflowed

---
 include/tlapack/lapack/trevc_protect.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/tlapack/lapack/trevc_protect.hpp b/include/tlapack/lapack/trevc_protect.hpp
index bbbb97b..26a4e1e 100644
--- a/include/tlapack/lapack/trevc_protect.hpp
+++ b/include/tlapack/lapack/trevc_protect.hpp
@@ -59,7 +59,7 @@ T trevc_protectdiv(T a, T b, T sf_min, T sf_max)
  *
  * We use the property that abs(z) <= abs1(z) <= sqrt(2) * abs(z) < 2*abs(z)
  * to transform alpha * abs(a) <= safe_max * abs(b)
- * into 2 * alpha * abs1(a) <= safe_max * abs1(b)
+ * into alpha * abs1(a) <= safe_max * (abs1(b) / 2)
  * which transforms the problem into the real-valued version.
  *
  * @param a Numerator
@@ -76,8 +76,8 @@ real_type<T> trevc_protectdiv(T a,
                               real_type<T> sf_min,
                               real_type<T> sf_max)
 {
-    real_type<T> a1 = real_type<T>(2) * abs1(a);
-    real_type<T> b1 = abs1(b);
+    real_type<T> a1 = abs1(a);
+    real_type<T> b1 = abs1(b) / real_type<T>(2);
 
     return trevc_protectdiv(a1, b1, sf_min, sf_max);
 }
@@ -93,7 +93,7 @@ real_type<T> trevc_protectdiv(T a,
  *
  * We use the property that abs(z) <= abs1(z) <= sqrt(2) * abs(z) < 2*abs(z)
  * to transform alpha * abs(a) <= safe_max * abs(b)
- * into 2 * alpha * abs1(a) <= safe_max * abs1(b)
+ * into alpha * abs1(a) <= safe_max * (abs1(b) / 2)
  * which transforms the problem into the real-valued version.
  *
  * @param ar Real part of numerator
@@ -110,8 +110,8 @@ template <TLAPACK_SCALAR T, enable_if_t<is_real<T>, int> = 0>
 real_type<T> trevc_protectdiv(
     T ar, T ai, T br, T bi, real_type<T> sf_min, real_type<T> sf_max)
 {
-    real_type<T> a1 = real_type<T>(2) * (abs(ar) + abs(ai));
-    real_type<T> b1 = abs(br) + abs(bi);
+    real_type<T> a1 = abs(ar) + abs(ai);
+    real_type<T> b1 = (abs(br) + abs(bi)) / real_type<T>(2);
 
     return trevc_protectdiv(a1, b1, sf_min, sf_max);
 }
@@ -145,7 +145,7 @@ T trevc_protectupdate(T ynorm, T tnorm, T xnorm, T sf_max)
     }
     else {
         if (tnorm > (sf_max - ynorm) / xnorm) {
-            xi = T(1) / (T(2) * xnorm);
+            xi = T(0.5) / xnorm;
         }
     }
     return xi;
-- 
2.43.0


From 2ba0809fa679964222f4bfb989015c402d5e4857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 50/77] fix: trevc returned NaN for repeated eigenvalues

---
 include/tlapack/lapack/trevc_backsolve.hpp    | 30 ++++++++++++++-----
 include/tlapack/lapack/trevc_forwardsolve.hpp | 30 ++++++++++++++-----
 include/tlapack/lapack/trevc_protect.hpp      | 25 ++++++++++++++--
 3 files changed, 68 insertions(+), 17 deletions(-)

diff --git a/include/tlapack/lapack/trevc_backsolve.hpp b/include/tlapack/lapack/trevc_backsolve.hpp
index d897916..97ac10d 100644
--- a/include/tlapack/lapack/trevc_backsolve.hpp
+++ b/include/tlapack/lapack/trevc_backsolve.hpp
@@ -107,6 +107,9 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
     TT w = T(k, k);  // eigenvalue
 
+    // Smallest allowed pivot, repeated eigenvalues are perturbed to this
+    const real_t smin = max(ulp<real_t>() * abs1(w), sf_min);
+
     // Backsubstitution to solve the system
     auto T11 = slice(T, range(0, k), range(0, k));
     auto v1 = slice(v, range(0, k));
@@ -135,8 +138,8 @@ void trevc_backsolve_single(const matrix_T_t& T,
             TT d = T11(i, i) - w;
 
             real_t scale1;
-            trevc_2x2solve(a, b, c, d, v1[i - 1], v1[i], scale1, sf_min,
-                           sf_max);
+            trevc_2x2solve(a, b, c, d, v1[i - 1], v1[i], scale1, sf_min, sf_max,
+                           smin);
 
             // Apply scale1 to all of v1
             if (scale1 != real_t(1)) {
@@ -193,6 +196,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
             // The equations to take the scaling into account also don't
             // seem fully correct.
             TT denom = T11(i, i) - w;
+            if (abs(denom) < smin) denom = smin;
             // Scale factor so that we can safely calculate v1[i] / (T11(i, i) -
             // w)
             real_t scale1 = trevc_protectdiv(v1[i], denom, sf_min, sf_max);
@@ -288,6 +292,9 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
     TT w = T(k, k);  // eigenvalue
 
+    // Smallest allowed pivot, repeated eigenvalues are perturbed to this
+    const real_t smin = max(ulp<real_t>() * abs1(w), sf_min);
+
     // Backsubstitution to solve the system
     auto T11 = slice(T, range(0, k), range(0, k));
     auto v1 = slice(v, range(0, k));
@@ -295,6 +302,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
     for (idx_t ii = 0; ii < k; ++ii) {
         idx_t i = k - 1 - ii;
         TT denom = T11(i, i) - w;
+        if (abs1(denom) < smin) denom = smin;
         // Scale factor so that we can safely calculate v1[i] / (T11(i, i) - w)
         real_t scale1 = trevc_protectdiv(v1[i], denom, sf_min, sf_max);
 
@@ -441,6 +449,9 @@ void trevc_backsolve_double(const matrix_T_t& T,
     // imaginary part of eigenvalue
     TT wi = sqrt(abs(beta)) * sqrt(abs(gamma));
 
+    // Smallest allowed pivot, repeated eigenvalues are perturbed to this
+    const TT smin = max(ulp<TT>() * (abs(wr) + abs(wi)), sf_min);
+
     // Depending of whether beta or gamma is bigger, we set x2 = 1 or x3 = i
     TT x2, x3;
     if (abs(beta) >= abs(gamma)) {
@@ -511,7 +522,7 @@ void trevc_backsolve_double(const matrix_T_t& T,
 
             TT scale1;
             trevc_2x2solve(a11r, a11i, a12, TT(0), a21, TT(0), a22r, a22i, b1r,
-                           b1i, b2r, b2i, scale1, sf_min, sf_max);
+                           b1i, b2r, b2i, scale1, sf_min, sf_max, smin);
 
             v1_r[i - 1] = b1r;
             v1_i[i - 1] = b1i;
@@ -588,11 +599,16 @@ void trevc_backsolve_double(const matrix_T_t& T,
             // 1x1 block
 
             // (v1_r[i] + i*v1_i[i]) / (T11(i, i) - (wr + i*wi))
-            TT scale1 = trevc_protectdiv(v1_r[i], v1_i[i], T11(i, i) - wr, -wi,
-                                         sf_min, sf_max);
+            TT dr = T11(i, i) - wr;
+            TT di = -wi;
+            if (abs(dr) + abs(di) < smin) {
+                dr = smin;
+                di = TT(0);
+            }
+            TT scale1 =
+                trevc_protectdiv(v1_r[i], v1_i[i], dr, di, sf_min, sf_max);
             TT a, b;
-            ladiv(scale1 * v1_r[i], scale1 * v1_i[i], T11(i, i) - wr, -wi, a,
-                  b);
+            ladiv(scale1 * v1_r[i], scale1 * v1_i[i], dr, di, a, b);
             v1_r[i] = a;
             v1_i[i] = b;
 
diff --git a/include/tlapack/lapack/trevc_forwardsolve.hpp b/include/tlapack/lapack/trevc_forwardsolve.hpp
index 4c6dd65..f10e3af 100644
--- a/include/tlapack/lapack/trevc_forwardsolve.hpp
+++ b/include/tlapack/lapack/trevc_forwardsolve.hpp
@@ -102,6 +102,9 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
 
     TT w = T(k, k);  // eigenvalue
 
+    // Smallest allowed pivot, repeated eigenvalues are perturbed to this
+    const real_t smin = max(ulp<real_t>() * abs1(w), sf_min);
+
     // Forward substitution to solve the system
     auto T33 = slice(T, range(k + 1, n), range(k + 1, n));
     auto v3 = slice(v, range(k + 1, n));
@@ -156,8 +159,8 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
             TT d = T33(i + 1, i + 1) - w;
 
             TT scale2;
-            trevc_2x2solve(a, b, c, d, v3[i], v3[i + 1], scale2, sf_min,
-                           sf_max);
+            trevc_2x2solve(a, b, c, d, v3[i], v3[i + 1], scale2, sf_min, sf_max,
+                           smin);
 
             // Apply scale2 to all of v3
             if (scale2 != real_t(1)) {
@@ -200,6 +203,7 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
             // Step 2: division
 
             real_t denom = T33(i, i) - w;
+            if (abs(denom) < smin) denom = smin;
             real_t scale2 = trevc_protectdiv(v3[i], denom, sf_min, sf_max);
             v3[i] = (scale2 * v3[i]) / denom;
 
@@ -261,6 +265,9 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
 
     TT w = T(k, k);  // eigenvalue
 
+    // Smallest allowed pivot, repeated eigenvalues are perturbed to this
+    const real_t smin = max(ulp<real_t>() * abs1(w), sf_min);
+
     // Forward substitution to solve the system
     auto T33 = slice(T, range(k + 1, n), range(k + 1, n));
     auto v3 = slice(v, range(k + 1, n));
@@ -291,6 +298,7 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
         // Step 2: division
 
         TT denom = conj(T33(i, i) - w);
+        if (abs1(denom) < smin) denom = smin;
         real_t scale2 = trevc_protectdiv(v3[i], denom, sf_min, sf_max);
         v3[i] = ladiv(scale2 * v3[i], denom);
 
@@ -397,6 +405,9 @@ void trevc_forwardsolve_double(const matrix_T_t& T,
     // imaginary part of eigenvalue
     TT wi = sqrt(abs(beta)) * sqrt(abs(gamma));
 
+    // Smallest allowed pivot, repeated eigenvalues are perturbed to this
+    const TT smin = max(ulp<TT>() * (abs(wr) + abs(wi)), sf_min);
+
     // Depending of whether beta or gamma is bigger, we set y2 = 1 or y3 = i
     TT y2, y3;
     if (abs(gamma) >= abs(beta)) {
@@ -500,7 +511,7 @@ void trevc_forwardsolve_double(const matrix_T_t& T,
             TT scale2;
             trevc_2x2solve(a11r, a11i, a12, TT(0), a21, TT(0), a22r, a22i,
                            v4_r[i], v4_i[i], v4_r[i + 1], v4_i[i + 1], scale2,
-                           sf_min, sf_max);
+                           sf_min, sf_max, smin);
 
             if (scale2 != TT(1)) {
                 // Apply scale2 to all of v4_r and v4_i
@@ -549,12 +560,17 @@ void trevc_forwardsolve_double(const matrix_T_t& T,
 
             // Do the complex division:
             // (v4_r[i] + i*v4_i[i]) / (T44(i, i) - (wr + i*wi))
-            TT scale2 = trevc_protectdiv(v4_r[i], v4_i[i], T44(i, i) - wr, wi,
-                                         sf_min, sf_max);
+            TT dr = T44(i, i) - wr;
+            TT di = wi;
+            if (abs(dr) + abs(di) < smin) {
+                dr = smin;
+                di = TT(0);
+            }
+            TT scale2 =
+                trevc_protectdiv(v4_r[i], v4_i[i], dr, di, sf_min, sf_max);
 
             TT tr, ti;
-            ladiv(scale2 * v4_r[i], scale2 * v4_i[i], T44(i, i) - wr, wi, tr,
-                  ti);
+            ladiv(scale2 * v4_r[i], scale2 * v4_i[i], dr, di, tr, ti);
             v4_r[i] = tr;
             v4_i[i] = ti;
 
diff --git a/include/tlapack/lapack/trevc_protect.hpp b/include/tlapack/lapack/trevc_protect.hpp
index 26a4e1e..c0445fd 100644
--- a/include/tlapack/lapack/trevc_protect.hpp
+++ b/include/tlapack/lapack/trevc_protect.hpp
@@ -208,11 +208,22 @@ real_type<T> trevc_protectsum(T a, T b, real_type<T> sf_max)
  * @param scale On output: Scaling factor to avoid overflow
  * @param sf_min Safe minimum threshold
  * @param sf_max Safe maximum threshold
+ * @param smin   If the matrix is singular or so close to it that the second
+ *               pivot is smaller than max(smin, sf_min), that pivot is
+ *               perturbed to max(smin, sf_min)
  *
  */
 template <TLAPACK_SCALAR T, enable_if_t<is_real<T>, int> = 0>
-void trevc_2x2solve(
-    T a, T b, T c, T d, T& x1, T& x2, T& scale, T sf_min, T sf_max)
+void trevc_2x2solve(T a,
+                    T b,
+                    T c,
+                    T d,
+                    T& x1,
+                    T& x2,
+                    T& scale,
+                    T sf_min,
+                    T sf_max,
+                    T smin = T(0))
 {
     //
     // Step 1: compute LU factorization with complete pivoting
@@ -289,6 +300,8 @@ void trevc_2x2solve(
     T u00 = a;
     T u01 = b;
     T u11 = d - l10 * u01;
+    // If the system is singular, perturb the pivot
+    if (abs(u11) < max(smin, sf_min)) u11 = max(smin, sf_min);
 
     // Step 3: Solve Ly = scale1 * rhs
     T scale1 = trevc_protectupdate(abs(x2), abs(l10), abs(x1), sf_max);
@@ -337,7 +350,8 @@ void trevc_2x2solve(T ar,
                     T& x2i,
                     T& scale,
                     T sf_min,
-                    T sf_max)
+                    T sf_max,
+                    T smin = T(0))
 {
     //
     // Step 1: compute LU factorization with complete pivoting
@@ -433,6 +447,11 @@ void trevc_2x2solve(T ar,
     // u11 = d - l10 * u01
     T u11r = dr - (l10r * u01r - l10i * u01i);
     T u11i = di - (l10r * u01i + l10i * u01r);
+    // If the system is singular, perturb the pivot
+    if (abs(u11r) + abs(u11i) < max(smin, sf_min)) {
+        u11r = max(smin, sf_min);
+        u11i = T(0);
+    }
 
     // Step 3: Solve Ly = scale1 * rhs
     // y1 = scale1 * rhs1
-- 
2.43.0


From 49441f255f652f44afc3de79ecdb82cc6194b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 51/77] fix: trevc3.hpp used the include guard of trevc.hpp

---
 include/tlapack/lapack/trevc3.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index d436e95..d4cdcea 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -9,12 +9,14 @@
 // <T>LAPACK is free software: you can redistribute it and/or modify it under
 // the terms of the BSD 3-Clause license. See the accompanying LICENSE file.
 
-#ifndef TLAPACK_TREVC_HH
-#define TLAPACK_TREVC_HH
+#ifndef TLAPACK_TREVC3_HH
+#define TLAPACK_TREVC3_HH
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
 #include "tlapack/blas/gemv.hpp"
+#include "tlapack/lapack/lacpy.hpp"
+#include "tlapack/lapack/trevc.hpp"
 #include "tlapack/lapack/trevc3_backsolve.hpp"
 #include "tlapack/lapack/trevc3_forwardsolve.hpp"
 
@@ -30,11 +32,21 @@ struct Trevc3Opts {
     size_t block_size_solve = 64;
 };
 
-enum class HowMny : char {
-    All = 'A',    ///< all eigenvectors
-    Back = 'B',   ///< all eigenvectors, backtransformed by input matrix
-    Select = 'S'  ///< selected eigenvectors
-};
+/** Largest entry of a vector, -1 if any of its entries is NaN or infinite
+ */
+template <TLAPACK_VECTOR vector_t>
+real_type<type_t<vector_t>> trevc3_maxabs(const vector_t& x)
+{
+    using real_t = real_type<type_t<vector_t>>;
+
+    real_t xmax(0);
+    for (size_type<vector_t> i = 0; i < size(x); ++i) {
+        const real_t a = abs1(x[i]);
+        if (isnan(a) || isinf(a)) return real_t(-1);
+        if (a > xmax) xmax = a;
+    }
+    return xmax;
+}
 
 /** Worspace query of TREVC3()
  *
@@ -524,4 +536,4 @@ int trevc3(const side_t side,
 }
 }  // namespace tlapack
 
-#endif  // TLAPACK_TREVC_HH
+#endif  // TLAPACK_TREVC3_HH
-- 
2.43.0


From 3c6beb54e3be0a132c18de15f99811cdd2d3240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 52/77] fix: trevc3 skipped, repeated or overran columns for
 selected eigenvectors, and multiplied uninitialised workspace by zero

---
 include/tlapack/lapack/trevc3.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index d4cdcea..004c409 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -280,6 +280,7 @@ int trevc3_work(const side_t side,
             if (howmny == HowMny::Select) {
                 // Find the first eigenvalue with index <= i with select ==
                 // true
+                i_end = n;
                 for (idx_t jj = 0; jj < i + 1; jj++) {
                     idx_t j = i - jj;
                     if (select[j]) {
@@ -287,6 +288,8 @@ int trevc3_work(const side_t side,
                         break;
                     }
                 }
+                // No more eigenvectors to compute
+                if (i_end == n) break;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
                 i_start = 0;
@@ -330,8 +333,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(0, i_end + 1), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
-                     Qx);
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, Qx);
 
                 auto Vr_block =
                     slice(Vr, range(0, n), range(i_start, i_end + 1));
@@ -345,7 +347,7 @@ int trevc3_work(const side_t side,
                 iVr -= nb2;
             }
 
-            ii += nb2;
+            ii = n - i_start;
         }
     }
 
@@ -363,17 +365,20 @@ int trevc3_work(const side_t side,
             if (howmny == HowMny::Select) {
                 // Find the first eigenvalue with index <= i with select ==
                 // true
+                i_start = n;
                 for (idx_t j = i; j < n; j++) {
                     if (select[j]) {
                         i_start = j;
                         break;
                     }
                 }
+                // No more eigenvectors to compute
+                if (i_start == n) break;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
                 i_end = n - 1;
                 for (idx_t j = i_start + 1; j < n; j++) {
-                    if (j > i_start + nb) {
+                    if (j >= i_start + nb) {
                         // Don't make the block too big
                         i_end = j - 1;
                         break;
@@ -411,8 +416,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(i_start, n), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
-                     Qx);
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, Qx);
 
                 auto Vl_block =
                     slice(Vl, range(0, n), range(i_start, i_end + 1));
@@ -425,7 +429,7 @@ int trevc3_work(const side_t side,
                 iVl += nb2;
             }
 
-            i += nb2;
+            i = i_end + 1;
         }
     }
 
-- 
2.43.0


From 34355df37b72b12e15f144cc9e751879c85ed6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 53/77] fix: trevc3 returned NaN or zero vectors where the
 blocked solve overflows or eigenvalues coincide

---
 include/tlapack/lapack/trevc3.hpp             | 47 +++++++++++++--
 include/tlapack/lapack/trevc3_backsolve.hpp   | 57 +++++++++++--------
 .../tlapack/lapack/trevc3_forwardsolve.hpp    | 57 +++++++++++--------
 3 files changed, 106 insertions(+), 55 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index 004c409..ce4fc12 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -260,15 +260,11 @@ int trevc3_work(const side_t side,
 
     auto [colN, rwork2] = reshape(rwork, n);
 
-    for (idx_t j = 0; j < n; ++j) {
-        auto itmax = iamax(slice(col(T, j), range(0, n)));
-        colN[j] = abs1(T(itmax, j));
-    }
-
     if (side == Side::Right || side == Side::Both) {
         //
         // Compute right eigenvectors.
         //
+        trevc_colnorms(Norm::Inf, T, colN);
         idx_t iVr = m - 1;  // current column of Vr to store the eigenvector
         for (idx_t ii = 0; ii < n;) {
             idx_t i = n - 1 - ii;
@@ -326,6 +322,26 @@ int trevc3_work(const side_t side,
             trevc3_backsolve(T, X, colN, work2, i_start, i_end + 1,
                              opts.block_size_solve);
 
+            // The blocked solve is not fully protected against overflow and
+            // repeated eigenvalues, recompute the eigenvectors for which it
+            // failed
+            for (idx_t k = i_start; k <= i_end; ++k) {
+                bool pair = (k < i_end && T(k + 1, k) != TT(0));
+                auto x1 = col(X, k - i_start);
+                if (pair) {
+                    if constexpr (is_real<TT>) {
+                        auto x2 = col(X, k + 1 - i_start);
+                        const real_t m1 = trevc3_maxabs(x1);
+                        const real_t m2 = trevc3_maxabs(x2);
+                        if (m1 < 0 || m2 < 0 || max(m1, m2) == 0)
+                            trevc_backsolve_double(T, x1, x2, k, colN);
+                    }
+                    ++k;
+                }
+                else if (!(trevc3_maxabs(x1) > 0))
+                    trevc_backsolve_single(T, x1, k, colN);
+            }
+
             // If required, backtransform the eigenvectors to the original
             // matrix, otherwise copy them to Vr
             if (howmny == HowMny::Back) {
@@ -355,6 +371,7 @@ int trevc3_work(const side_t side,
         //
         // Compute left eigenvectors.
         //
+        trevc_colnorms(Norm::One, T, colN);
         idx_t iVl = 0;
         for (idx_t i = 0; i < n;) {
             // First eigenvector to compute within this block
@@ -409,6 +426,26 @@ int trevc3_work(const side_t side,
             trevc3_forwardsolve(T, X, colN, work2, i_start, i_end + 1,
                                 opts.block_size_solve);
 
+            // The blocked solve is not fully protected against overflow and
+            // repeated eigenvalues, recompute the eigenvectors for which it
+            // failed
+            for (idx_t k = i_start; k <= i_end; ++k) {
+                bool pair = (k < i_end && T(k + 1, k) != TT(0));
+                auto x1 = col(X, k - i_start);
+                if (pair) {
+                    if constexpr (is_real<TT>) {
+                        auto x2 = col(X, k + 1 - i_start);
+                        const real_t m1 = trevc3_maxabs(x1);
+                        const real_t m2 = trevc3_maxabs(x2);
+                        if (m1 < 0 || m2 < 0 || max(m1, m2) == 0)
+                            trevc_forwardsolve_double(T, x1, x2, k, colN);
+                    }
+                    ++k;
+                }
+                else if (!(trevc3_maxabs(x1) > 0))
+                    trevc_forwardsolve_single(T, x1, k, colN);
+            }
+
             // If required, backtransform the eigenvectors to the original
             // matrix, otherwise copy them to Vl
             if (howmny == HowMny::Back) {
diff --git a/include/tlapack/lapack/trevc3_backsolve.hpp b/include/tlapack/lapack/trevc3_backsolve.hpp
index ce5b1c9..d4d82a7 100644
--- a/include/tlapack/lapack/trevc3_backsolve.hpp
+++ b/include/tlapack/lapack/trevc3_backsolve.hpp
@@ -46,6 +46,9 @@ void trevc3_backsolve(const matrix_T_t& T,
 
     tlapack_check(ncols(T) == n);
 
+    const real_t sf_max = safe_max<real_t>();
+    const real_t sf_min = safe_min<real_t>();
+
     idx_t nk = ke - ks;
     auto [shifts, work2] = reshape(work, nk);
 
@@ -171,7 +174,7 @@ void trevc3_backsolve(const matrix_T_t& T,
                         // =
                         // [v1_r[i-1] + i*v1_i[i-1]]
                         // [v1_r[i]   + i*v1_i[i]  ]
-                        // Using real arithmetic only with Cramer's rule
+                        // Using real arithmetic only
 
                         TT a11r = T_ii(i - 1, i - 1) - wr;
                         TT a11i = -wi;
@@ -185,25 +188,24 @@ void trevc3_backsolve(const matrix_T_t& T,
                         TT b2r = v1_r[i];
                         TT b2i = v1_i[i];
 
-                        TT detr = a11r * a22r - a11i * a22i - a12 * a21;
-                        TT deti = a11r * a22i + a11i * a22r;
-
-                        TT denom = detr * detr + deti * deti;
-
-                        TT c1r = a22r * b1r - a22i * b1i - a12 * b2r;
-                        TT c1i = a22r * b1i + a22i * b1r - a12 * b2i;
-                        TT x1r = (c1r * detr + c1i * deti) / denom;
-                        TT x1i = (c1i * detr - c1r * deti) / denom;
-
-                        TT c2r = (a11r * b2r - a11i * b2i) - (a21 * b1r);
-                        TT c2i = (a11r * b2i + a11i * b2r) - (a21 * b1i);
-                        TT x2r = (c2r * detr + c2i * deti) / denom;
-                        TT x2i = (c2i * detr - c2r * deti) / denom;
+                        if constexpr (is_real<TT>) {
+                            TT scale;
+                            trevc_2x2solve(a11r, a11i, a12, TT(0), a21, TT(0),
+                                           a22r, a22i, b1r, b1i, b2r, b2i,
+                                           scale, sf_min, sf_max,
+                                           ulp<TT>() * (abs(wr) + abs(wi)));
+                            if (scale != TT(1)) {
+                                for (idx_t j = 0; j < n; ++j) {
+                                    X(j, k) *= scale;
+                                    X(j, k + 1) *= scale;
+                                }
+                            }
+                        }
 
-                        v1_r[i - 1] = x1r;
-                        v1_i[i - 1] = x1i;
-                        v1_r[i] = x2r;
-                        v1_i[i] = x2i;
+                        v1_r[i - 1] = b1r;
+                        v1_i[i - 1] = b1i;
+                        v1_r[i] = b2r;
+                        v1_i[i] = b2i;
 
                         // Update the right-hand side
                         for (idx_t j = 0; j + 1 < i; ++j) {
@@ -228,9 +230,8 @@ void trevc3_backsolve(const matrix_T_t& T,
                         TT b = v1_i[i];
                         TT c = T_ii(i, i) - wr;
                         TT d = -wi;
-                        TT denom = c * c + d * d;
-                        v1_r[i] = (a * c + b * d) / denom;
-                        v1_i[i] = (b * c - a * d) / denom;
+                        if constexpr (is_real<TT>)
+                            ladiv(a, b, c, d, v1_r[i], v1_i[i]);
 
                         // Update the right-hand side
                         for (idx_t j = 0; j < i; ++j) {
@@ -288,10 +289,16 @@ void trevc3_backsolve(const matrix_T_t& T,
                             TT c = T_ii(i, i - 1);
                             TT d = T_ii(i, i) - w;
 
-                            TT det = a * d - b * c;
+                            TT scale;
+                            trevc_2x2solve(a, b, c, d, rhs1, rhs2, scale,
+                                           sf_min, sf_max, ulp<TT>() * abs(w));
+                            if (scale != TT(1)) {
+                                for (idx_t j = 0; j < n; ++j)
+                                    X(j, k) *= scale;
+                            }
 
-                            X_ii(i - 1, k) = (d * rhs1 - b * rhs2) / det;
-                            X_ii(i, k) = (-c * rhs1 + a * rhs2) / det;
+                            X_ii(i - 1, k) = rhs1;
+                            X_ii(i, k) = rhs2;
 
                             for (idx_t j = 0; j + 1 < i; ++j) {
                                 X_ii(j, k) -= T_ii(j, i - 1) * X_ii(i - 1, k);
diff --git a/include/tlapack/lapack/trevc3_forwardsolve.hpp b/include/tlapack/lapack/trevc3_forwardsolve.hpp
index 7756470..1f023ab 100644
--- a/include/tlapack/lapack/trevc3_forwardsolve.hpp
+++ b/include/tlapack/lapack/trevc3_forwardsolve.hpp
@@ -45,6 +45,9 @@ void trevc3_forwardsolve(const matrix_T_t& T,
 
     tlapack_check(ncols(T) == n);
 
+    const real_t sf_max = safe_max<real_t>();
+    const real_t sf_min = safe_min<real_t>();
+
     idx_t nk = ke - ks;
     auto [shifts, work2] = reshape(work, nk);
 
@@ -168,7 +171,7 @@ void trevc3_forwardsolve(const matrix_T_t& T,
                         }
 
                         // Solve the complex 2x2 system
-                        // Using real arithmetic only with Cramer's rule
+                        // Using real arithmetic only
 
                         TT a11r = T_ii(i, i) - wr;
                         TT a11i = wi;
@@ -183,25 +186,24 @@ void trevc3_forwardsolve(const matrix_T_t& T,
                         TT b2r = X_ii(i + 1, k);
                         TT b2i = X_ii(i + 1, k + 1);
 
-                        TT detr = a11r * a22r - a11i * a22i - a12 * a21;
-                        TT deti = a11r * a22i + a11i * a22r;
-
-                        TT denom = detr * detr + deti * deti;
-
-                        TT c1r = a22r * b1r - a22i * b1i - a12 * b2r;
-                        TT c1i = a22r * b1i + a22i * b1r - a12 * b2i;
-                        TT x1r = (c1r * detr + c1i * deti) / denom;
-                        TT x1i = (c1i * detr - c1r * deti) / denom;
-
-                        TT c2r = (a11r * b2r - a11i * b2i) - (a21 * b1r);
-                        TT c2i = (a11r * b2i + a11i * b2r) - (a21 * b1i);
-                        TT x2r = (c2r * detr + c2i * deti) / denom;
-                        TT x2i = (c2i * detr - c2r * deti) / denom;
+                        if constexpr (is_real<TT>) {
+                            TT scale;
+                            trevc_2x2solve(a11r, a11i, a12, TT(0), a21, TT(0),
+                                           a22r, a22i, b1r, b1i, b2r, b2i,
+                                           scale, sf_min, sf_max,
+                                           ulp<TT>() * (abs(wr) + abs(wi)));
+                            if (scale != TT(1)) {
+                                for (idx_t j = 0; j < n; ++j) {
+                                    X(j, k) *= scale;
+                                    X(j, k + 1) *= scale;
+                                }
+                            }
+                        }
 
-                        X_ii(i, k) = x1r;
-                        X_ii(i, k + 1) = x1i;
-                        X_ii(i + 1, k) = x2r;
-                        X_ii(i + 1, k + 1) = x2i;
+                        X_ii(i, k) = b1r;
+                        X_ii(i, k + 1) = b1i;
+                        X_ii(i + 1, k) = b2r;
+                        X_ii(i + 1, k + 1) = b2i;
 
                         i += 2;
                     }
@@ -219,9 +221,8 @@ void trevc3_forwardsolve(const matrix_T_t& T,
                         TT b = X_ii(i, k + 1);
                         TT c = T_ii(i, i) - wr;
                         TT d = wi;
-                        TT denom = c * c + d * d;
-                        X_ii(i, k) = (a * c + b * d) / denom;
-                        X_ii(i, k + 1) = (b * c - a * d) / denom;
+                        if constexpr (is_real<TT>)
+                            ladiv(a, b, c, d, X_ii(i, k), X_ii(i, k + 1));
 
                         i += 1;
                     }
@@ -277,10 +278,16 @@ void trevc3_forwardsolve(const matrix_T_t& T,
                             TT c = T_ii(i, i + 1);
                             TT d = T_ii(i + 1, i + 1) - w;
 
-                            TT det = a * d - b * c;
+                            TT scale;
+                            trevc_2x2solve(a, b, c, d, rhs1, rhs2, scale,
+                                           sf_min, sf_max, ulp<TT>() * abs(w));
+                            if (scale != TT(1)) {
+                                for (idx_t j = 0; j < n; ++j)
+                                    X(j, k) *= scale;
+                            }
 
-                            X_ii(i, k) = (d * rhs1 - b * rhs2) / det;
-                            X_ii(i + 1, k) = (-c * rhs1 + a * rhs2) / det;
+                            X_ii(i, k) = rhs1;
+                            X_ii(i + 1, k) = rhs2;
 
                             i += 2;
                         }
-- 
2.43.0


From 786ead58a2e4e5d50a2481b55ca6f2c6d5be2669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 54/77] fix: gemmtr rejects C when either of its dimensions is
 wrong

---
 include/tlapack/lapack/gemmtr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gemmtr.hpp b/include/tlapack/lapack/gemmtr.hpp
index 14f2fb8..6e513a9 100644
--- a/include/tlapack/lapack/gemmtr.hpp
+++ b/include/tlapack/lapack/gemmtr.hpp
@@ -82,7 +82,7 @@ void gemmtr(Uplo uplo,
                         transA != Op::ConjTrans);
     tlapack_check_false(transB != Op::NoTrans && transB != Op::Trans &&
                         transB != Op::ConjTrans);
-    tlapack_check_false((idx_t)ncols(C) != n && (idx_t)nrows(C) != n);
+    tlapack_check_false((idx_t)ncols(C) != n || (idx_t)nrows(C) != n);
     tlapack_check_false(
         (idx_t)((transA == Op::NoTrans) ? ncols(A) : nrows(A)) != k);
     tlapack_check_false(
-- 
2.43.0


From f1725f59246bd9959cad1f028e65e48929da1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 55/77] fix: complex schur_swap and generalized_schur_swap
 reject a swap past the last row

---
 include/tlapack/lapack/generalized_schur_swap.hpp | 2 +-
 include/tlapack/lapack/schur_swap.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/generalized_schur_swap.hpp b/include/tlapack/lapack/generalized_schur_swap.hpp
index 1db4277..0a3ec31 100644
--- a/include/tlapack/lapack/generalized_schur_swap.hpp
+++ b/include/tlapack/lapack/generalized_schur_swap.hpp
@@ -1162,7 +1162,7 @@ int generalized_schur_swap(bool want_q,
     tlapack_check(nrows(A) == n);
     tlapack_check(nrows(Q) == n);
     tlapack_check(ncols(Q) == n);
-    tlapack_check(0 <= j0 and j0 < n);
+    tlapack_check(0 <= j0 and j0 + 1 < n);
     tlapack_check(n1 == 1);
     tlapack_check(n2 == 1);
 
diff --git a/include/tlapack/lapack/schur_swap.hpp b/include/tlapack/lapack/schur_swap.hpp
index 6b9e917..8016094 100644
--- a/include/tlapack/lapack/schur_swap.hpp
+++ b/include/tlapack/lapack/schur_swap.hpp
@@ -467,7 +467,7 @@ int schur_swap(bool want_q,
     tlapack_check(nrows(A) == n);
     tlapack_check(nrows(Q) == n);
     tlapack_check(ncols(Q) == n);
-    tlapack_check(0 <= j0 and j0 < n);
+    tlapack_check(0 <= j0 and j0 + 1 < n);
     tlapack_check(n1 == 1);
     tlapack_check(n2 == 1);
 
-- 
2.43.0


From b3926c0f8c2728ac6e56510f8d159cbc4a77fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 56/77] fix: rot_sequence, rot_sequence3, pttrf, lascl and
 pbtrf_with_workspace accept empty operands

---
 include/tlapack/lapack/lascl.hpp                | 3 ++-
 include/tlapack/lapack/pbtrf_with_workspace.hpp | 2 +-
 include/tlapack/lapack/pttrf.hpp                | 2 +-
 include/tlapack/lapack/rot_sequence.hpp         | 3 ++-
 include/tlapack/lapack/rot_sequence3.hpp        | 3 ++-
 5 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index c23d9c3..468f3e2 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -210,7 +210,8 @@ int lascl(BandAccess accessType, const b_type& b, const a_type& a, matrix_t& A)
     const real_t big = safe_max<real_t>();
 
     // check arguments
-    tlapack_check_false((kl < 0) || (kl >= m) || (ku < 0) || (ku >= n));
+    tlapack_check_false((kl < 0) || (kl > 0 && kl >= m) || (ku < 0) ||
+                        (ku > 0 && ku >= n));
     tlapack_check_false((b == b_type(0)) || isnan(b));
     tlapack_check_false(isnan(a));
 
diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index f3d4485..32c6d89 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -62,7 +62,7 @@ void pbtrf_with_workspace(uplo_t uplo,
     // maybe the kd >= 0
     tlapack_check(uplo == Uplo::Lower || uplo == Uplo::Upper);
     tlapack_check(nrows(A) == ncols(A));
-    tlapack_check(kd < nrows(A));
+    tlapack_check(kd < nrows(A) || nrows(A) == 0);
     tlapack_check(kd >= 0);
 
     tlapack::Create<matrix_t> new_matrix;
diff --git a/include/tlapack/lapack/pttrf.hpp b/include/tlapack/lapack/pttrf.hpp
index ce43c3d..a51a780 100644
--- a/include/tlapack/lapack/pttrf.hpp
+++ b/include/tlapack/lapack/pttrf.hpp
@@ -55,7 +55,7 @@ int pttrf(d_t& D, e_t& E, const EcOpts& opts = {})
     // Constants
     const idx_t n = size(D);
     // check arguments
-    tlapack_check(size(D) == size(E) + 1);
+    tlapack_check(size(D) == size(E) + 1 || (n == 0 && size(E) == 0));
     // Quick return
     if (n <= 0) return 0;
     for (idx_t i = 0; i < n - 1; ++i) {
diff --git a/include/tlapack/lapack/rot_sequence.hpp b/include/tlapack/lapack/rot_sequence.hpp
index 55c7080..033634c 100644
--- a/include/tlapack/lapack/rot_sequence.hpp
+++ b/include/tlapack/lapack/rot_sequence.hpp
@@ -87,7 +87,8 @@ int rot_sequence(
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
-    const idx_t k = (side == Side::Left) ? m - 1 : n - 1;
+    const idx_t nrot = (side == Side::Left) ? m : n;
+    const idx_t k = (nrot > 0) ? nrot - 1 : 0;
 
     // Check dimensions
     tlapack_check((idx_t)size(c) == k);
diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index 6e8315a..747ada1 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -98,7 +98,8 @@ void rot_sequence3(
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
-    const idx_t k = (side == Side::Left) ? m - 1 : n - 1;
+    const idx_t nrot = (side == Side::Left) ? m : n;
+    const idx_t k = (nrot > 0) ? nrot - 1 : 0;
     const idx_t l = ncols(C);
 
     // Blocking parameter
-- 
2.43.0


From 59bf9f6c4dd9b4a4338e04844b1444da1527e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 57/77] fix: gelqt rejects a TT matrix without columns instead
 of looping forever

---
 include/tlapack/lapack/gelqt.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gelqt.hpp b/include/tlapack/lapack/gelqt.hpp
index 1017eaa..a498fec 100644
--- a/include/tlapack/lapack/gelqt.hpp
+++ b/include/tlapack/lapack/gelqt.hpp
@@ -69,7 +69,7 @@ int gelqt_work(matrix_t& A, matrix_t& TT, work_t& work)
     const idx_t nb = ncols(TT);
 
     // check arguments
-    tlapack_check_false(nrows(TT) < m || ncols(TT) < nb);
+    tlapack_check_false(nrows(TT) < m || (k > 0 && nb < 1));
 
     for (idx_t j = 0; j < k; j += nb) {
         // Use blocked code initially
@@ -150,6 +150,10 @@ int gelqt(matrix_t& A, matrix_t& TT)
     // functors
     Create<matrix_t> new_matrix;
 
+    // check arguments
+    tlapack_check_false(nrows(TT) < nrows(A) ||
+                        (min(nrows(A), ncols(A)) > 0 && ncols(TT) < 1));
+
     // Allocates workspace
     WorkInfo workinfo = gelqt_worksize<T>(A, TT);
     std::vector<T> work_;
-- 
2.43.0


From c2ee25c18dc10447b22d0cb30995d02996145235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 58/77] fix: self-allocating drivers check their arguments
 before querying workspace or writing

---
 include/tlapack/lapack/gebd2.hpp         | 4 ++++
 include/tlapack/lapack/gehrd.hpp         | 6 ++++++
 include/tlapack/lapack/gelq2.hpp         | 4 ++++
 include/tlapack/lapack/gelqf.hpp         | 3 +++
 include/tlapack/lapack/geql2.hpp         | 4 ++++
 include/tlapack/lapack/geqlf.hpp         | 3 +++
 include/tlapack/lapack/geqr2.hpp         | 4 ++++
 include/tlapack/lapack/geqrf.hpp         | 3 +++
 include/tlapack/lapack/gerq2.hpp         | 4 ++++
 include/tlapack/lapack/gerqf.hpp         | 3 +++
 include/tlapack/lapack/multishift_qr.hpp | 7 +++++++
 include/tlapack/lapack/unghr.hpp         | 4 ++++
 include/tlapack/lapack/ungq.hpp          | 7 +++++++
 include/tlapack/lapack/ungq_level2.hpp   | 7 +++++++
 include/tlapack/lapack/unmq.hpp          | 7 +++++++
 include/tlapack/lapack/unmq_level2.hpp   | 7 +++++++
 16 files changed, 77 insertions(+)

diff --git a/include/tlapack/lapack/gebd2.hpp b/include/tlapack/lapack/gebd2.hpp
index 3bd1070..f00043a 100644
--- a/include/tlapack/lapack/gebd2.hpp
+++ b/include/tlapack/lapack/gebd2.hpp
@@ -222,6 +222,10 @@ int gebd2(matrix_t& A, vector_t& tauv, vector_t& tauw)
     // quick return
     if (m <= 0 || n <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false((idx_t)size(tauv) < min(m, n));
+    tlapack_check_false((idx_t)size(tauw) < min(m, n));
+
     // Allocates workspace
     WorkInfo workinfo = gebd2_worksize<T>(A, tauv, tauw);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 9253406..40354c5 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -238,6 +238,12 @@ int gehrd(size_type<matrix_t> ilo,
     // quick return
     if (n <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false((ilo < 0) or (ilo >= n));
+    tlapack_check_false((ihi < 0) or (ihi > n));
+    tlapack_check_false(ncols(A) != nrows(A));
+    tlapack_check_false((idx_t)size(tau) < n - 1);
+
     // Allocates workspace
     WorkInfo workinfo = gehrd_worksize<T>(ilo, ihi, A, tau, opts);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/gelq2.hpp b/include/tlapack/lapack/gelq2.hpp
index a5421a2..d7597b7 100644
--- a/include/tlapack/lapack/gelq2.hpp
+++ b/include/tlapack/lapack/gelq2.hpp
@@ -131,6 +131,10 @@ int gelq2(matrix_t& A, vector_t& tauw)
     // functor
     Create<matrix_t> new_matrix;
 
+    // check arguments
+    tlapack_check_false((size_type<matrix_t>)size(tauw) <
+                        min(nrows(A), ncols(A)));
+
     // Allocates workspace
     WorkInfo workinfo = gelq2_worksize<T>(A, tauw);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/gelqf.hpp b/include/tlapack/lapack/gelqf.hpp
index 61501ec..92fccff 100644
--- a/include/tlapack/lapack/gelqf.hpp
+++ b/include/tlapack/lapack/gelqf.hpp
@@ -160,6 +160,9 @@ int gelqf(A_t& A, tau_t& tau, const GelqfOpts& opts = {})
     using T = type_t<work_t>;
     Create<work_t> new_matrix;
 
+    // check arguments
+    tlapack_check((size_type<A_t>)size(tau) >= min(nrows(A), ncols(A)));
+
     // Allocate or get workspace
     WorkInfo workinfo = gelqf_worksize<T>(A, tau, opts);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/geql2.hpp b/include/tlapack/lapack/geql2.hpp
index a8a42ba..f693f26 100644
--- a/include/tlapack/lapack/geql2.hpp
+++ b/include/tlapack/lapack/geql2.hpp
@@ -142,6 +142,10 @@ int geql2(matrix_t& A, vector_t& tau)
     // quick return
     if (n <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false((size_type<matrix_t>)size(tau) <
+                        min(nrows(A), ncols(A)));
+
     // Allocates workspace
     WorkInfo workinfo = geql2_worksize<T>(A, tau);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/geqlf.hpp b/include/tlapack/lapack/geqlf.hpp
index bcc1ba9..782f83e 100644
--- a/include/tlapack/lapack/geqlf.hpp
+++ b/include/tlapack/lapack/geqlf.hpp
@@ -160,6 +160,9 @@ int geqlf(A_t& A, tau_t& tau, const GeqlfOpts& opts = {})
     using T = type_t<work_t>;
     Create<work_t> new_matrix;
 
+    // check arguments
+    tlapack_check((size_type<A_t>)size(tau) >= min(nrows(A), ncols(A)));
+
     // Allocate or get workspace
     WorkInfo workinfo = geqlf_worksize<T>(A, tau, opts);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/geqr2.hpp b/include/tlapack/lapack/geqr2.hpp
index 1278091..d8ff246 100644
--- a/include/tlapack/lapack/geqr2.hpp
+++ b/include/tlapack/lapack/geqr2.hpp
@@ -145,6 +145,10 @@ int geqr2(matrix_t& A, vector_t& tau)
     // quick return
     if (n <= 0 || m <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false((size_type<matrix_t>)size(tau) <
+                        min(nrows(A), ncols(A)));
+
     // Allocates workspace
     WorkInfo workinfo = geqr2_worksize<T>(A, tau);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/geqrf.hpp b/include/tlapack/lapack/geqrf.hpp
index 14c8fa9..3e84f7e 100644
--- a/include/tlapack/lapack/geqrf.hpp
+++ b/include/tlapack/lapack/geqrf.hpp
@@ -161,6 +161,9 @@ int geqrf(A_t& A, tau_t& tau, const GeqrfOpts& opts = {})
     using T = type_t<work_t>;
     Create<work_t> new_matrix;
 
+    // check arguments
+    tlapack_check((size_type<A_t>)size(tau) >= min(nrows(A), ncols(A)));
+
     // Allocate or get workspace
     WorkInfo workinfo = geqrf_worksize<T>(A, tau, opts);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/gerq2.hpp b/include/tlapack/lapack/gerq2.hpp
index 7ab327b..e05487f 100644
--- a/include/tlapack/lapack/gerq2.hpp
+++ b/include/tlapack/lapack/gerq2.hpp
@@ -142,6 +142,10 @@ int gerq2(matrix_t& A, vector_t& tau)
     // quick return
     if (n <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false((size_type<matrix_t>)size(tau) <
+                        min(nrows(A), ncols(A)));
+
     // Allocates workspace
     WorkInfo workinfo = gerq2_worksize<T>(A, tau);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/gerqf.hpp b/include/tlapack/lapack/gerqf.hpp
index dcc8293..a704f2c 100644
--- a/include/tlapack/lapack/gerqf.hpp
+++ b/include/tlapack/lapack/gerqf.hpp
@@ -163,6 +163,9 @@ int gerqf(A_t& A, tau_t& tau, const GerqfOpts& opts = {})
     using T = type_t<work_t>;
     Create<work_t> new_matrix;
 
+    // check arguments
+    tlapack_check((size_type<A_t>)size(tau) >= min(nrows(A), ncols(A)));
+
     // Allocate or get workspace
     WorkInfo workinfo = gerqf_worksize<T>(A, tau, opts);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index 50fc756..515be8d 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -510,6 +510,13 @@ int multishift_qr(bool want_t,
     // if n < nmin, the matrix will be passed to lahqr
     const idx_t nmin = internal::multishift_qr_nmin<idx_t>(opts);
 
+    // check arguments
+    tlapack_check_false(n != nrows(A));
+    tlapack_check_false((idx_t)size(w) != n);
+    if (want_z) {
+        tlapack_check_false((n != ncols(Z)) or (n != nrows(Z)));
+    }
+
     // quick return
     if (nh <= 0) return 0;
     if (nh == 1) w[ilo] = A(ilo, ilo);
diff --git a/include/tlapack/lapack/unghr.hpp b/include/tlapack/lapack/unghr.hpp
index f84a47b..f5fabfc 100644
--- a/include/tlapack/lapack/unghr.hpp
+++ b/include/tlapack/lapack/unghr.hpp
@@ -161,6 +161,10 @@ int unghr(size_type<matrix_t> ilo,
     // Functor
     Create<matrix_t> new_matrix;
 
+    // check arguments
+    tlapack_check_false((size_type<matrix_t>)size(tau) + 1 <
+                        min(nrows(A), ncols(A)));
+
     // Allocates workspace
     WorkInfo workinfo = unghr_worksize<T>(ilo, ihi, A, tau);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/ungq.hpp b/include/tlapack/lapack/ungq.hpp
index 51df861..671dea0 100644
--- a/include/tlapack/lapack/ungq.hpp
+++ b/include/tlapack/lapack/ungq.hpp
@@ -373,6 +373,13 @@ int ungq(direction_t direction,
     // quick return
     if (m <= 0 || n <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false(direction != Direction::Backward &&
+                        direction != Direction::Forward);
+    const idx_t k = size(tau);
+    tlapack_check((storeMode == StoreV::Columnwise) ? (m >= n && n >= k)
+                                                    : (n >= m && m >= k));
+
     // Allocates workspace
     WorkInfo workinfo = ungq_worksize<T>(direction, storeMode, A, tau, opts);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/ungq_level2.hpp b/include/tlapack/lapack/ungq_level2.hpp
index cfdbc2e..8587a97 100644
--- a/include/tlapack/lapack/ungq_level2.hpp
+++ b/include/tlapack/lapack/ungq_level2.hpp
@@ -307,6 +307,13 @@ int ungq_level2(direction_t direction,
     // quick return
     if (m <= 0 || n <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false(direction != Direction::Backward &&
+                        direction != Direction::Forward);
+    const idx_t k = size(tau);
+    tlapack_check((storeMode == StoreV::Columnwise) ? (m >= n && n >= k)
+                                                    : (n >= m && m >= k));
+
     // Allocates workspace
     WorkInfo workinfo = ungq_level2_worksize<T>(direction, storeMode, A, tau);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/unmq.hpp b/include/tlapack/lapack/unmq.hpp
index 90247af..7589737 100644
--- a/include/tlapack/lapack/unmq.hpp
+++ b/include/tlapack/lapack/unmq.hpp
@@ -303,6 +303,13 @@ int unmq(side_t side,
     // quick return
     if (m <= 0 || n <= 0 || k <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false(side != Side::Left && side != Side::Right);
+    const idx_t nQ = (side == Side::Left) ? m : n;
+    tlapack_check((storeMode == StoreV::Columnwise)
+                      ? ((ncols(V) == k) && (nrows(V) == nQ))
+                      : ((nrows(V) == k) && (ncols(V) == nQ)));
+
     // Allocates workspace
     WorkInfo workinfo =
         unmq_worksize<T>(side, trans, direction, storeMode, V, tau, C, opts);
diff --git a/include/tlapack/lapack/unmq_level2.hpp b/include/tlapack/lapack/unmq_level2.hpp
index ec34350..d56fb97 100644
--- a/include/tlapack/lapack/unmq_level2.hpp
+++ b/include/tlapack/lapack/unmq_level2.hpp
@@ -328,6 +328,13 @@ int unmq_level2(side_t side,
     // quick return
     if ((m <= 0) || (n <= 0) || (k <= 0)) return 0;
 
+    // check arguments
+    tlapack_check_false(side != Side::Left && side != Side::Right);
+    const idx_t nQ = (side == Side::Left) ? m : n;
+    tlapack_check((storeMode == StoreV::Columnwise)
+                      ? ((ncols(V) == k) && (nrows(V) == nQ))
+                      : ((nrows(V) == k) && (ncols(V) == nQ)));
+
     // Allocates workspace
     WorkInfo workinfo =
         unmq_level2_worksize<T>(side, trans, direction, storeMode, V, tau, C);
-- 
2.43.0


From 8e6ec4e604d4d851eab986bc4f7a1dc61d78d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 59/77] fix: workspace queries of unmq_level2 and unm2x accept
 an empty set of reflectors

---
 include/tlapack/lapack/unm2l.hpp       | 3 +++
 include/tlapack/lapack/unm2r.hpp       | 3 +++
 include/tlapack/lapack/unml2.hpp       | 3 +++
 include/tlapack/lapack/unmq_level2.hpp | 3 +++
 include/tlapack/lapack/unmr2.hpp       | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/include/tlapack/lapack/unm2l.hpp b/include/tlapack/lapack/unm2l.hpp
index d5979c4..ad7247f 100644
--- a/include/tlapack/lapack/unm2l.hpp
+++ b/include/tlapack/lapack/unm2l.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unm2l_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, range{0, nA}, 0);
     return larf_worksize<T>(side, BACKWARD, COLUMNWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unm2r.hpp b/include/tlapack/lapack/unm2r.hpp
index 7c96fd4..5e882d5 100644
--- a/include/tlapack/lapack/unm2r.hpp
+++ b/include/tlapack/lapack/unm2r.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unm2r_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, range{0, nA}, 0);
     return larf_worksize<T>(side, FORWARD, COLUMNWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unml2.hpp b/include/tlapack/lapack/unml2.hpp
index e7238c7..f6661fa 100644
--- a/include/tlapack/lapack/unml2.hpp
+++ b/include/tlapack/lapack/unml2.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unml2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, 0, range{0, nA});
     return larf_worksize<T>(side, FORWARD, ROWWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unmq_level2.hpp b/include/tlapack/lapack/unmq_level2.hpp
index d56fb97..938b9bc 100644
--- a/include/tlapack/lapack/unmq_level2.hpp
+++ b/include/tlapack/lapack/unmq_level2.hpp
@@ -82,6 +82,9 @@ constexpr WorkInfo unmq_level2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nQ = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     if (storeMode == StoreV::Columnwise)
         return larf_worksize<T>(side, direction, storeMode,
                                 slice(V, range{0, nQ}, 0), tau[0], C);
diff --git a/include/tlapack/lapack/unmr2.hpp b/include/tlapack/lapack/unmr2.hpp
index d1818af..e8c873a 100644
--- a/include/tlapack/lapack/unmr2.hpp
+++ b/include/tlapack/lapack/unmr2.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unmr2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if (size(tau) <= 0) return WorkInfo(0);
+
     auto&& v = slice(A, 0, range{0, nA});
     return larf_worksize<T>(side, BACKWARD, ROWWISE_STORAGE, v, tau[0], C);
 }
-- 
2.43.0


From 3b23caca13a1aec5108ef33f16bddc2a375b77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 60/77] fix: slice of a backward vector selects the requested
 entries

---
 include/tlapack/plugins/legacyArray.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 744eeca..d11898f 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -381,7 +381,10 @@ constexpr auto slice(const LegacyVector<T, idx_t, int_t, direction>& v,
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
     return LegacyVector<const T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first,
+        (direction == Direction::Forward) ? &v.ptr[rows.first * v.inc]
+                                          : &v.ptr[(v.n - rows.second) * v.inc],
+        v.inc);
 }
 
 // -----------------------------------------------------------------------------
@@ -569,7 +572,10 @@ constexpr auto slice(LegacyVector<T, idx_t, int_t, direction>& v,
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
     return LegacyVector<T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first,
+        (direction == Direction::Forward) ? &v.ptr[rows.first * v.inc]
+                                          : &v.ptr[(v.n - rows.second) * v.inc],
+        v.inc);
 }
 
 // Reshape LegacyMatrix
-- 
2.43.0


From 70ddea1f8ab8dc4e14e335aaedcc0fe6578d1f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 61/77] fix: reshape of a strided matrix to an empty matrix
 reports the requested shape

---
 include/tlapack/plugins/legacyArray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index d11898f..697054c 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -606,10 +606,12 @@ auto reshape(LegacyMatrix<T, idx_t, layout>& A,
                 : matrix_t(1, size - new_size, &A.ptr[0] + new_size));
     }
     else {
-        if (m == A.m || n == 0)
+        if (new_size == 0)
+            return std::make_pair(matrix_t(m, n, &A.ptr[0]), A);
+        else if (m == A.m)
             return std::make_pair(cols(A, std::pair{(idx_t)0, n}),
                                   cols(A, std::pair{n, A.n}));
-        else if (n == A.n || m == 0)
+        else if (n == A.n)
             return std::make_pair(rows(A, std::pair{(idx_t)0, m}),
                                   rows(A, std::pair{m, A.m}));
         else
-- 
2.43.0


From 78079b74223347afaf34da4a08798918ecc5dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:18 +0000
Subject: [PATCH 62/77] fix: legacy herk, her2k, syrk and syr2k with alpha = 0
 update only the uplo triangle

---
 include/tlapack/legacy_api/blas/her2k.hpp | 15 +++++++++++----
 include/tlapack/legacy_api/blas/herk.hpp  | 15 +++++++++++----
 include/tlapack/legacy_api/blas/syr2k.hpp | 14 ++++++++++----
 include/tlapack/legacy_api/blas/syrk.hpp  | 14 ++++++++++----
 4 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her2k.hpp b/include/tlapack/legacy_api/blas/her2k.hpp
index dbcc272..a4ed349 100644
--- a/include/tlapack/legacy_api/blas/her2k.hpp
+++ b/include/tlapack/legacy_api/blas/her2k.hpp
@@ -161,14 +161,21 @@ namespace legacy {
 
         if (alpha == scalar_t(0)) {
             if (beta == real_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
+                }
             }
             else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                    C_(j, j) = TC(real(C_(j, j)));
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/herk.hpp b/include/tlapack/legacy_api/blas/herk.hpp
index e75494c..763e97b 100644
--- a/include/tlapack/legacy_api/blas/herk.hpp
+++ b/include/tlapack/legacy_api/blas/herk.hpp
@@ -139,14 +139,21 @@ namespace legacy {
 
         if (alpha == real_t(0)) {
             if (beta == real_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
+                }
             }
             else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                    C_(j, j) = TC(real(C_(j, j)));
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/syr2k.hpp b/include/tlapack/legacy_api/blas/syr2k.hpp
index b5e1500..668e317 100644
--- a/include/tlapack/legacy_api/blas/syr2k.hpp
+++ b/include/tlapack/legacy_api/blas/syr2k.hpp
@@ -161,14 +161,20 @@ namespace legacy {
 
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
+                }
             }
             else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/syrk.hpp b/include/tlapack/legacy_api/blas/syrk.hpp
index 41d9a22..f4b73aa 100644
--- a/include/tlapack/legacy_api/blas/syrk.hpp
+++ b/include/tlapack/legacy_api/blas/syrk.hpp
@@ -141,14 +141,20 @@ namespace legacy {
 
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) = TC(0);
+                }
             }
             else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                for (idx_t j = 0; j < n; ++j) {
+                    const idx_t i0 = (uplo == Uplo::Lower) ? j : 0;
+                    const idx_t i1 = (uplo == Uplo::Upper) ? j + 1 : n;
+                    for (idx_t i = i0; i < i1; ++i)
                         C_(i, j) *= beta;
+                }
             }
         }
         else {
-- 
2.43.0


From 379cdece16ac60b85d175f9e9bcdfbc25915c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:18 +0000
Subject: [PATCH 63/77] fix: legacy her and her2 in row-major layout do not
 conjugate the update

---
 include/tlapack/legacy_api/blas/her.hpp  | 20 +++++++++++++-------
 include/tlapack/legacy_api/blas/her2.hpp | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her.hpp b/include/tlapack/legacy_api/blas/her.hpp
index db2fb72..51a70b3 100644
--- a/include/tlapack/legacy_api/blas/her.hpp
+++ b/include/tlapack/legacy_api/blas/her.hpp
@@ -71,6 +71,7 @@ namespace legacy {
              idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using real_t = real_type<TA, TX>;
 
         // check arguments
@@ -84,15 +85,20 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == real_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
+        if (layout == Layout::ColMajor) {
+            // Matrix views
+            auto A_ = create_matrix<TA>(A, n, n, lda);
 
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     her(uplo, alpha, x_, A_));
+        }
+        else {
+            // Matrix views
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
 
-        tlapack_expr_with_vector(x_, TX, n, x, incx, her(uplo, alpha, x_, A_));
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     her(uplo, alpha, x_, A_));
+        }
     }
 
 }  // namespace legacy
diff --git a/include/tlapack/legacy_api/blas/her2.hpp b/include/tlapack/legacy_api/blas/her2.hpp
index 6a3e02c..c87c20b 100644
--- a/include/tlapack/legacy_api/blas/her2.hpp
+++ b/include/tlapack/legacy_api/blas/her2.hpp
@@ -80,6 +80,7 @@ namespace legacy {
               idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using scalar_t = scalar_type<TA, TX>;
 
         // check arguments
@@ -94,16 +95,20 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == scalar_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
+        if (layout == Layout::ColMajor) {
+            // Matrix views
+            auto A_ = create_matrix<TA>(A, n, n, lda);
 
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
+        else {
+            // Matrix views
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
 
-        tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
-                                   return her2(uplo, alpha, x_, y_, A_));
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
     }
 
 }  // namespace legacy
-- 
2.43.0


From c2ca23ffb1007b39d09598959f5bdc2082dffd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:18 +0000
Subject: [PATCH 64/77] fix: legacy rotm rejects an invalid flag

---
 include/tlapack/legacy_api/blas/rotm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/legacy_api/blas/rotm.hpp b/include/tlapack/legacy_api/blas/rotm.hpp
index c69aaec..ad57fb5 100644
--- a/include/tlapack/legacy_api/blas/rotm.hpp
+++ b/include/tlapack/legacy_api/blas/rotm.hpp
@@ -67,7 +67,7 @@ namespace legacy {
         // check arguments
         tlapack_check_false(incx == 0);
         tlapack_check_false(incy == 0);
-        tlapack_check_false(flag < -2 && flag > 1);
+        tlapack_check_false(flag < -2 || flag > 1);
 
         // quick return
         if (n <= 0) return;
-- 
2.43.0


From 2df8136cd421b5da9cea1387a6d0ff2f227692e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:18 +0000
Subject: [PATCH 65/77] fix: legacy gemv in row-major layout does not write to
 its const input

---
 include/tlapack/legacy_api/blas/gemv.hpp | 40 +++++-------------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/gemv.hpp b/include/tlapack/legacy_api/blas/gemv.hpp
index 1bf5ec8..446eb81 100644
--- a/include/tlapack/legacy_api/blas/gemv.hpp
+++ b/include/tlapack/legacy_api/blas/gemv.hpp
@@ -117,30 +117,18 @@ namespace legacy {
             return;
 
         // Transpose if Row Major
-        bool doConj = false;
         if (layout == Layout::RowMajor) {
-            // A => A^T; A^T => A; A^H => A & doConj
+            // A => A^T; A^T => A; A^H => conj(A)
             std::swap(m, n);
             if (trans == Op::NoTrans)
                 trans = Op::Trans;
-            else {
-                if (trans == Op::ConjTrans) doConj = true;
-                trans = Op::NoTrans;
-            }
+            else
+                trans = (trans == Op::Trans) ? Op::NoTrans : Op::Conj;
         }
 
         // Initialize indexes
-        const idx_t lenx = ((trans == Op::NoTrans) ? n : m);
-        const idx_t leny = ((trans == Op::NoTrans) ? m : n);
-
-        // Conjugate if A is row-major and initially trans is Op::ConjTrans
-        if (doConj) {
-            TX* x2 = const_cast<TX*>(x);
-            for (idx_t i = 0; i < lenx; ++i)
-                x2[i * abs(incx)] = conj(x2[i * abs(incx)]);
-            for (idx_t i = 0; i < leny; ++i)
-                y[i * abs(incy)] = conj(y[i * abs(incy)]);
-        }
+        const idx_t lenx = ((trans == Op::NoTrans || trans == Op::Conj) ? n : m);
+        const idx_t leny = ((trans == Op::NoTrans || trans == Op::Conj) ? m : n);
 
         // Matrix views
         const auto A_ = create_matrix<TA>((TA*)A, m, n, lda);
@@ -150,25 +138,13 @@ namespace legacy {
                 y_, TY, leny, y, incy,
                 if (beta == scalar_t(0)) for (idx_t i = 0; i < leny; ++i)
                     y_[i] = TY(0);
-                else for (idx_t i = 0; i < leny; ++i) y_[i] *=
-                (doConj) ? conj(beta) : beta);
+                else for (idx_t i = 0; i < leny; ++i) y_[i] *= beta);
         }
         else {
             tlapack_expr_with_2vectors(
                 x_, TX, lenx, x, incx, y_, TY, leny, y, incy,
-                if (beta == scalar_t(0))
-                    gemv(trans, (doConj) ? conj(alpha) : alpha, A_, x_, y_);
-                else gemv(trans, (doConj) ? conj(alpha) : alpha, A_, x_,
-                          (doConj) ? conj(beta) : beta, y_));
-        }
-
-        // Conjugate if A is row-major and initially trans is Op::ConjTrans
-        if (doConj) {
-            TX* x2 = const_cast<TX*>(x);
-            for (idx_t i = 0; i < lenx; ++i)
-                x2[i * abs(incx)] = conj(x2[i * abs(incx)]);
-            for (idx_t i = 0; i < leny; ++i)
-                y[i * abs(incy)] = conj(y[i * abs(incy)]);
+                if (beta == scalar_t(0)) gemv(trans, alpha, A_, x_, y_);
+                else gemv(trans, alpha, A_, x_, beta, y_));
         }
     }
 
-- 
2.43.0


From 0440d78757d2af508381217c1729295295b48276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:18 +0000
Subject: [PATCH 66/77] fix: legacy unm2r passes the matrix view and accepts
 complex tau

---
 include/tlapack/legacy_api/lapack/unm2r.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/unm2r.hpp b/include/tlapack/legacy_api/lapack/unm2r.hpp
index b7e6eca..8c12265 100644
--- a/include/tlapack/legacy_api/lapack/unm2r.hpp
+++ b/include/tlapack/legacy_api/lapack/unm2r.hpp
@@ -56,7 +56,7 @@ namespace legacy {
               idx_t k,
               TA* A,
               idx_t lda,
-              const real_type<TA, TC>* tau,
+              const TA* tau,
               TC* C,
               idx_t ldc)
     {
@@ -82,7 +82,7 @@ namespace legacy {
         const auto tau_ = create_vector((TA*)tau, k);
         auto C_ = create_matrix<TC>(C, m, n, ldc);
 
-        return unm2r(side, trans, A, tau_, C_);
+        return unm2r(side, trans, A_, tau_, C_);
     }
 
 }  // namespace legacy
-- 
2.43.0


From f56bef5f3215f20bf40b335b0d86b17cc5397dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:18 +0000
Subject: [PATCH 67/77] fix: legacy ung2r reads only the k elements of tau

---
 include/tlapack/legacy_api/lapack/ung2r.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/legacy_api/lapack/ung2r.hpp b/include/tlapack/legacy_api/lapack/ung2r.hpp
index 64d79a4..f2dcb02 100644
--- a/include/tlapack/legacy_api/lapack/ung2r.hpp
+++ b/include/tlapack/legacy_api/lapack/ung2r.hpp
@@ -57,7 +57,7 @@ namespace legacy {
 
         // Matrix views
         auto A_ = create_matrix<TA>(A, m, n, lda);
-        auto tau_ = create_vector((TT*)tau, min(m, n));
+        auto tau_ = create_vector((TT*)tau, k);
 
         return ung2r(A_, tau_);
     }
-- 
2.43.0


From 8e51afddb6f4e9a9f1e24de35a0b37e257ef2234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:18 +0000
Subject: [PATCH 68/77] fix: legacy larfg with n = 0 sets tau to zero

---
 include/tlapack/legacy_api/lapack/larfg.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/tlapack/legacy_api/lapack/larfg.hpp b/include/tlapack/legacy_api/lapack/larfg.hpp
index 71738ed..9006e01 100644
--- a/include/tlapack/legacy_api/lapack/larfg.hpp
+++ b/include/tlapack/legacy_api/lapack/larfg.hpp
@@ -20,6 +20,12 @@ namespace legacy {
     template <typename T>
     void larfg(idx_t n, T& alpha, T* x, int_t incx, T& tau)
     {
+        // quick return
+        if (n <= 0) {
+            tau = T(0);
+            return;
+        }
+
         tlapack_expr_with_vector(
             x_, T, n - 1, x, incx,
             return larfg(COLUMNWISE_STORAGE, alpha, x_, tau));
-- 
2.43.0


From 4320a106e8bd358e426207015cadf10c7e527570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:18 +0000
Subject: [PATCH 69/77] fix: legacy lascl addresses band storage with its
 leading dimension

---
 include/tlapack/legacy_api/lapack/lascl.hpp | 27 +++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/lascl.hpp b/include/tlapack/legacy_api/lapack/lascl.hpp
index d7cbf0e..5816113 100644
--- a/include/tlapack/legacy_api/lapack/lascl.hpp
+++ b/include/tlapack/legacy_api/lapack/lascl.hpp
@@ -68,7 +68,6 @@ namespace legacy {
               T* A,
               idx_t lda)
     {
-        using internal::create_banded_matrix;
         using internal::create_matrix;
 
         // check arguments
@@ -103,17 +102,31 @@ namespace legacy {
         tlapack_check_false((matrixtype == MatrixType::Band) &&
                             (lda < 2 * kl + ku + 1));
 
+        // Scales a band matrix with bandwidths kl_ and ku_ stored by columns,
+        // A(i,j) in A[diag + (i-j) + j*lda]
+        auto scale_band = [&](idx_t diag, idx_t kl_, idx_t ku_) {
+            int info = 0;
+            for (idx_t j = 0; j < n; ++j) {
+                const idx_t i0 = (j > ku_) ? j - ku_ : 0;
+                const idx_t i1 = min(m, j + kl_ + 1);
+                if (i0 < i1) {
+                    auto Aj = create_matrix<T>(A + (diag + i0 + j * lda - j),
+                                               i1 - i0, 1);
+                    info = lascl(GENERAL, b, a, Aj);
+                    if (info != 0) break;
+                }
+            }
+            return info;
+        };
+
         if (matrixtype == MatrixType::LowerBand) {
-            auto A_ = create_banded_matrix<T>(A, m, n, kl, 0);
-            return lascl(BandAccess{size_t(kl), 0}, b, a, A_);
+            return scale_band(0, kl, 0);
         }
         else if (matrixtype == MatrixType::UpperBand) {
-            auto A_ = create_banded_matrix<T>(A, m, n, 0, ku);
-            return lascl(BandAccess{0, size_t(ku)}, b, a, A_);
+            return scale_band(ku, 0, ku);
         }
         else if (matrixtype == MatrixType::Band) {
-            auto A_ = create_banded_matrix<T>(A, m, n, kl, ku);
-            return lascl(BandAccess{size_t(kl), size_t(ku)}, b, a, A_);
+            return scale_band(kl + ku, kl, ku);
         }
         else {
             auto A_ = create_matrix<T>(A, m, n, lda);
-- 
2.43.0


From e660f6104b8ffd36c9bc4c2495efd292e73f4f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 70/77] fix: trevc backsolve keeps the index of the largest
 entry in an index type

---
 include/tlapack/lapack/trevc_backsolve.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/trevc_backsolve.hpp b/include/tlapack/lapack/trevc_backsolve.hpp
index 97ac10d..da97b6f 100644
--- a/include/tlapack/lapack/trevc_backsolve.hpp
+++ b/include/tlapack/lapack/trevc_backsolve.hpp
@@ -154,7 +154,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
             // Safely update the right-hand side
             if (i > 1) {
-                real_t ivmax = iamax(slice(v1, range(0, i - 1)));
+                idx_t ivmax = iamax(slice(v1, range(0, i - 1)));
                 real_t vmax = abs1(v1[ivmax]);
 
                 real_t tmax = colN[i - 1];
@@ -217,7 +217,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
             // Now update v1[0:i-1] -= T11(0:i-1, i) * v1[i]
             if (i > 0) {
-                real_t ivmax = iamax(slice(v1, range(0, i)));
+                idx_t ivmax = iamax(slice(v1, range(0, i)));
                 real_t vmax = abs1(v1[ivmax]);
 
                 real_t tmax = colN[i];  // use precomputed column norms
@@ -322,7 +322,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
 
         // Now update v1[0:i-1] -= T11(0:i-1, i) * v1[i]
         if (i > 0) {
-            real_t ivmax = iamax(slice(v1, range(0, i)));
+            idx_t ivmax = iamax(slice(v1, range(0, i)));
             real_t vmax = abs1(v1[ivmax]);
 
             real_t tmax = colN[i];  // use precomputed column norms
-- 
2.43.0


From 641aadaea02d1d786ff56241f109fbf21306f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:46 +0000
Subject: [PATCH 71/77] fix: hetrf reports a zero last pivot and always sets
 its ipiv entry

---
 include/tlapack/lapack/hetrf_blocked.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index 41517ad..d0fca1c 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -84,7 +84,11 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j -= step;
         }
-        ipiv[0] = min(0, ipiv[0]);
+        // The last diagonal entry, unless it belongs to a rank 2 pivot
+        if (j == 1) {
+            ipiv[0] = 0;
+            if (info == 0 && A(0, 0) == T(0)) info = 1;
+        }
     }
     else if (uplo == Uplo::Lower) {
         int j = 0;
@@ -111,7 +115,11 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j += step;
         }
-        if (ipiv[n - 1] >= 0) ipiv[n - 1] = n - 1;
+        // The last diagonal entry, unless it belongs to a rank 2 pivot
+        if (j == (int)n - 1) {
+            ipiv[n - 1] = n - 1;
+            if (info == 0 && A(n - 1, n - 1) == T(0)) info = n;
+        }
     }
     return info;
 }
-- 
2.43.0


From 031d89c9210d7d6c4b6136d7d771fdd3bc86da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:46 +0000
Subject: [PATCH 72/77] fix: hetf3 stores the updated column when it is zero

---
 include/tlapack/lapack/hetf3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index 0a4b965..41a24bd 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -156,7 +156,7 @@ int hetf3(uplo_t uplo,
             if (max(colmax, abs_Ajj) == 0) {
                 piv = j;
                 info = (info == 0) ? j + 1 : info;
-                if (hermitian) A(j, j) = real(A(j, j));
+                copy_(col(Wj0, jW), col(Aj0, j));
             }
             else {
                 if (abs_Ajj >= alpha * colmax) {
@@ -365,7 +365,7 @@ int hetf3(uplo_t uplo,
             if (max(colmax, abs_Ajj) == 0) {
                 piv = j;
                 info = (info == 0) ? j + 1 : info;
-                A(j, j) = real(A(j, j));
+                copy_(col(Wj0, j), col(Aj0, j));
             }
             else {
                 if (abs_Ajj >= alpha * colmax) {
-- 
2.43.0


From 3225f2f469c95d25f0b5938bcaa5a4467f18e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:13 +0000
Subject: [PATCH 73/77] fix: hetf3 pivot test does not square the column
 maximum

---
 include/tlapack/lapack/hetf3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index 41a24bd..23db936 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -199,7 +199,7 @@ int hetf3(uplo_t uplo,
                             slice(W, range{0, i_colmax}, jW - 1));
                         rowmax = max(rowmax, abs1(W(i_rowmax, jW - 1)));
                     }
-                    if (abs_Ajj >= alpha * colmax * colmax / rowmax) {
+                    if (abs_Ajj >= alpha * colmax * (colmax / rowmax)) {
                         piv = j;
                     }
                     else if (abs1(W(i_colmax, jW - 1)) >= alpha * rowmax) {
@@ -405,7 +405,7 @@ int hetf3(uplo_t uplo,
                                        slice(W, range{i_colmax + 1, n}, j + 1));
                         rowmax = max(rowmax, abs1(W(i_rowmax, j + 1)));
                     }
-                    if (abs_Ajj >= alpha * colmax * colmax / rowmax) {
+                    if (abs_Ajj >= alpha * colmax * (colmax / rowmax)) {
                         piv = j;
                     }
                     else if (abs1(W(i_colmax, j + 1)) >= alpha * rowmax) {
-- 
2.43.0


From c071305ec92dc283b5ce5d1e74914fd248fac7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:25 +0000
Subject: [PATCH 74/77] fix: hetf3 never divides by a zero pivot

---
 include/tlapack/lapack/hetf3.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index 23db936..ac93596 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -199,7 +199,11 @@ int hetf3(uplo_t uplo,
                             slice(W, range{0, i_colmax}, jW - 1));
                         rowmax = max(rowmax, abs1(W(i_rowmax, jW - 1)));
                     }
-                    if (abs_Ajj >= alpha * colmax * (colmax / rowmax)) {
+                    // Row i_colmax also holds the largest entry of column j, up
+                    // to rounding errors
+                    rowmax = max(rowmax, colmax);
+                    if (abs_Ajj > real_t(0) &&
+                        abs_Ajj >= alpha * colmax * (colmax / rowmax)) {
                         piv = j;
                     }
                     else if (abs1(W(i_colmax, jW - 1)) >= alpha * rowmax) {
@@ -405,7 +409,11 @@ int hetf3(uplo_t uplo,
                                        slice(W, range{i_colmax + 1, n}, j + 1));
                         rowmax = max(rowmax, abs1(W(i_rowmax, j + 1)));
                     }
-                    if (abs_Ajj >= alpha * colmax * (colmax / rowmax)) {
+                    // Row i_colmax also holds the largest entry of column j, up
+                    // to rounding errors
+                    rowmax = max(rowmax, colmax);
+                    if (abs_Ajj > real_t(0) &&
+                        abs_Ajj >= alpha * colmax * (colmax / rowmax)) {
                         piv = j;
                     }
                     else if (abs1(W(i_colmax, j + 1)) >= alpha * rowmax) {
-- 
2.43.0


From 2f247d449adc082485d8bddc49a465005b085ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:23 +0000
Subject: [PATCH 75/77] fix: hetrf with block size 1 terminates

---
 include/tlapack/lapack/hetrf_blocked.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index d0fca1c..f8619cd 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -35,7 +35,7 @@ constexpr WorkInfo hetrf_blocked_worksize(const matrix_t& A,
                                           const BlockedLDLOpts& opts)
 {
     if constexpr (is_same_v<T, type_t<matrix_t>>)
-        return WorkInfo(nrows(A) * opts.nb);
+        return WorkInfo(nrows(A) * max<size_t>(opts.nb, 2));
     else
         return WorkInfo(0);
 }
@@ -52,13 +52,17 @@ int hetrf_blocked_work(uplo_t uplo,
                        matrix_t& A,
                        ipiv_t& ipiv,
                        work_t& work,
-                       const BlockedLDLOpts& opts)
+                       const BlockedLDLOpts& opts_)
 {
     using T = type_t<matrix_t>;
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // A rank 2 pivot needs a block of at least two columns
+    BlockedLDLOpts opts = opts_;
+    opts.nb = max<size_t>(opts_.nb, 2);
+
     // Constants
     const idx_t n = nrows(A);
     const idx_t nb = opts.nb;
-- 
2.43.0


From e261edaef18856152dd86059ecaa2ef515e3140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:37 +0000
Subject: [PATCH 76/77] fix: dividing a complex number by the strong zero gives
 infinity, not zero

---
 include/tlapack/base/StrongZero.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/base/StrongZero.hpp b/include/tlapack/base/StrongZero.hpp
index 3e1e46f..0c63718 100644
--- a/include/tlapack/base/StrongZero.hpp
+++ b/include/tlapack/base/StrongZero.hpp
@@ -89,7 +89,7 @@ struct StrongZero {
     template <typename T>
     friend constexpr T& operator/=(T& lhs, StrongZero) noexcept
     {
-        return (lhs = std::numeric_limits<T>::infinity());
+        return (lhs = T(std::numeric_limits<real_type<T>>::infinity()));
     }
 
     // Arithmetic operators
@@ -159,7 +159,7 @@ struct StrongZero {
     template <typename T>
     friend constexpr T operator/(const T&, StrongZero) noexcept
     {
-        return std::numeric_limits<T>::infinity();
+        return T(std::numeric_limits<real_type<T>>::infinity());
     }
 
     // Change of sign
-- 
2.43.0


From 8b368d2798709a9e6fef73d4b48a7b1024d9f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:11 +0000
Subject: [PATCH 77/77] fix: legacy_vector of a one-column or one-row Eigen
 matrix uses the right increment

---
 include/tlapack/plugins/eigen.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/plugins/eigen.hpp b/include/tlapack/plugins/eigen.hpp
index 8c87065..c156456 100644
--- a/include/tlapack/plugins/eigen.hpp
+++ b/include/tlapack/plugins/eigen.hpp
@@ -948,8 +948,11 @@ constexpr auto legacy_vector(
                                         A.innerStride()};
     else {
         assert(A.rows() == 1 || A.cols() == 1);
-        return legacy::Vector<T, idx_t>{A.size(), (T*)A.data(),
-                                        A.outerStride()};
+        // Consecutive entries are innerStride() apart if the vector runs along
+        // the storage order, and outerStride() apart otherwise
+        const bool isInner = matrix_t::IsRowMajor ? (A.rows() == 1) : (A.cols() == 1);
+        return legacy::Vector<T, idx_t>{
+            A.size(), (T*)A.data(), isInner ? A.innerStride() : A.outerStride()};
     }
 }
 
@@ -970,8 +973,11 @@ constexpr auto legacy_vector(
     else {
         assert(A.innerStride() == 1);
         assert(A.rows() == 1 || A.cols() == 1);
-        return legacy::Vector<T, idx_t>{A.size(), (T*)A.data(),
-                                        A.outerStride()};
+        // Consecutive entries are innerStride() apart if the vector runs along
+        // the storage order, and outerStride() apart otherwise
+        const bool isInner = Derived::IsRowMajor ? (A.rows() == 1) : (A.cols() == 1);
+        return legacy::Vector<T, idx_t>{
+            A.size(), (T*)A.data(), isInner ? A.innerStride() : A.outerStride()};
     }
 }
 
-- 
2.43.0

