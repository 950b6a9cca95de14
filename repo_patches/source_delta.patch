From 5b525d02a6ec76cebc14e928b08095433a9aa7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 01/45] fix: log of values just below/above a negative power of
 ten (mantissa and exponent disagreed)

---
 include/gcem_incl/mantissa.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/mantissa.hpp b/include/gcem_incl/mantissa.hpp
index af23ea2..71f86b6 100644
--- a/include/gcem_incl/mantissa.hpp
+++ b/include/gcem_incl/mantissa.hpp
@@ -34,7 +34,12 @@ T
 mantissa(const T x)
 noexcept
 {
-    return( x < T(1) ? \
+    return( // scale by the same sequence of powers of ten as find_exponent
+            x < T(1e-03) ? \
+                mantissa(x * T(1e+04)) :
+            x < T(1e-01) ? \
+                mantissa(x * T(1e+02)) :
+            x < T(1) ? \
                 mantissa(x * T(10)) : 
             x > T(10) ? \
                 mantissa(x / T(10)) :
-- 
2.43.0


From fb1dc8e097a1c6f19abe18cf42b72e2d965287c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 02/45] fix: exp overflowed to infinity before the result
 leaves the range of the type

---
 include/gcem_incl/exp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index 595ffc2..f925061 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -82,7 +82,7 @@ T
 exp_split(const T x)
 noexcept
 {
-    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x))) * exp_cf(find_fraction(x)) );
+    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x)) * exp_cf(find_fraction(x))) );
 }
 
 template<typename T>
-- 
2.43.0


From 31a64ca4f68e020931da64bf4b7d3ea0ce776ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 03/45] fix: exp of very large magnitudes (undefined conversion
 to integer, exp(1e20) gave 0)

---
 include/gcem_incl/exp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index f925061..0d89913 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -102,6 +102,11 @@ noexcept
             //
             is_posinf(x) ? \
                 GCLIM<T>::infinity() :
+            // overflow and underflow (also keeps the whole part of x in the range of llint_t)
+            x > T(GCLIM<T>::max_exponent) ? \
+                GCLIM<T>::infinity() :
+            x < T(GCLIM<T>::min_exponent - GCLIM<T>::digits) ? \
+                T(0) :
             //
             abs(x) < T(2) ? \
                 exp_cf(x) : \
-- 
2.43.0


From 694b0326ff07e9e387900fa0a68cd2050e4aa710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 04/45] fix: tanh of large magnitudes and infinities

---
 include/gcem_incl/tanh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/tanh.hpp b/include/gcem_incl/tanh.hpp
index 51fc908..7df5975 100644
--- a/include/gcem_incl/tanh.hpp
+++ b/include/gcem_incl/tanh.hpp
@@ -86,6 +86,9 @@ noexcept
             // indistinguishable from zero
              GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+            // indistinguishable from one
+            abs(x) > T(23) ? \
+                T(sgn(x)) :
              // else
                 x < T(0) ? \
                     - tanh_begin(-x) : 
-- 
2.43.0


From 0837e93bcebed0bad7cddb306a139b3e4d8d7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 05/45] fix: asinh of negative and of very large arguments

---
 include/gcem_incl/asinh.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/gcem_incl/asinh.hpp b/include/gcem_incl/asinh.hpp
index a5f3ff6..6d1ecf8 100644
--- a/include/gcem_incl/asinh.hpp
+++ b/include/gcem_incl/asinh.hpp
@@ -40,6 +40,12 @@ noexcept
             // indistinguishable from zero
             GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+            // asinh is an odd function
+            x < T(0) ? \
+                - asinh_compute(-x) :
+            // x^2 + 1 is indistinguishable from x^2
+            x > T(1)/GCLIM<T>::epsilon() ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x + T(1)) ) );
 }
-- 
2.43.0


From 8fb0887ea3363f43ad5c07ec351df827e1b6879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 06/45] fix: acosh overflowed for very large arguments

---
 include/gcem_incl/acosh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/acosh.hpp b/include/gcem_incl/acosh.hpp
index 8767200..5fb39f9 100644
--- a/include/gcem_incl/acosh.hpp
+++ b/include/gcem_incl/acosh.hpp
@@ -43,6 +43,9 @@ noexcept
             // indistinguishable from 1
             GCLIM<T>::min() > abs(x - T(1)) ? \
                 T(0) :
+            // x^2 - 1 is indistinguishable from x^2
+            x > T(1)/GCLIM<T>::epsilon() ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x - T(1)) ) );
 }
-- 
2.43.0


From 68666ed5a2c3f87e8ae80bca08630a6501a3e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 07/45] fix: atan of large arguments was not a constant
 expression (overflowing powers)

---
 include/gcem_incl/atan.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/atan.hpp b/include/gcem_incl/atan.hpp
index d2b7936..cb31a0d 100644
--- a/include/gcem_incl/atan.hpp
+++ b/include/gcem_incl/atan.hpp
@@ -110,7 +110,8 @@ noexcept
             x < T(25)   ? atan_series_order(x,x,1U,5U)  :  // O(1/x^19)
             x < T(100)  ? atan_series_order(x,x,1U,4U)  :  // O(1/x^15)
             x < T(1000) ? atan_series_order(x,x,1U,3U)  :  // O(1/x^11)
-                          atan_series_order(x,x,1U,2U) );  // O(1/x^7)
+            x < T(1e+07) ? atan_series_order(x,x,1U,2U) :  // O(1/x^7)
+                           atan_series_order(x,x,1U,1U) ); // O(1/x^3)
 }
 
 // CF
-- 
2.43.0


From 1d7f80e527beef66b0cb5c2e5164826c08784356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 08/45] fix: hypot overflowed when the second argument is much
 larger than the first

---
 include/gcem_incl/hypot.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/hypot.hpp b/include/gcem_incl/hypot.hpp
index 01ad4e9..b21930d 100644
--- a/include/gcem_incl/hypot.hpp
+++ b/include/gcem_incl/hypot.hpp
@@ -56,6 +56,9 @@ noexcept
             GCLIM<T>::min() > abs(y) ? \
                 abs(x) :
             // else
+            // keep the ratio in [-1,1]
+            abs(x) < abs(y) ? \
+                hypot_compute(y, x/y) :
             hypot_compute(x, y/x) );
 }
 
-- 
2.43.0


From d43f0de66df031e40c4a0d2680973fadc1553e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 09/45] fix: log of a negative integer returned 0 instead of
 NaN

---
 include/gcem_incl/log.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/log.hpp b/include/gcem_incl/log.hpp
index 01b6a80..2a7f1d6 100644
--- a/include/gcem_incl/log.hpp
+++ b/include/gcem_incl/log.hpp
@@ -158,9 +158,9 @@ noexcept
     return( std::is_integral<T>::value ? \
                 x == T(0) ? \
                     - GCLIM<return_t<T>>::infinity() :
-                x > T(1) ? \
-                    log_check( static_cast<return_t<T>>(x) ) :
+                x == T(1) ? \
                     static_cast<return_t<T>>(0) :
+                    log_check( static_cast<return_t<T>>(x) ) :
             log_check( static_cast<return_t<T>>(x) ) );
 }
 
-- 
2.43.0


From dcc5469a46067bb7baa530ecb45bac12673b395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 10/45] fix: lcm(0,0) divided by zero

---
 include/gcem_incl/lcm.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index a7ca776..b2c2da6 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -30,7 +30,11 @@ T
 lcm_compute(const T a, const T b)
 noexcept
 {
-    return abs(a * (b / gcd(a,b)));
+    return( // zero check: gcd(0,0) = 0
+            (a == T(0) || b == T(0)) ? \
+                T(0) :
+            // else
+                abs(a * (b / gcd(a,b))) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>>
-- 
2.43.0


From c22ae84740b178c670f02db9f3ba6de01a0b3151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 11/45] fix: lcm of a negative and an unsigned argument

---
 include/gcem_incl/lcm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index b2c2da6..c3d10cb 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -43,7 +43,7 @@ TC
 lcm_type_check(const T1 a, const T2 b)
 noexcept
 {
-    return lcm_compute(static_cast<TC>(a),static_cast<TC>(b));
+    return lcm_compute(static_cast<TC>(abs(a)),static_cast<TC>(abs(b)));
 }
 
 }
-- 
2.43.0


From 1b478d534f912501766e971d27adb7d8f4f2aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 12/45] fix: pow with the largest or smallest value of an
 integral exponent type

---
 include/gcem_incl/pow_integral.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 4e67155..d9c1804 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -53,7 +53,10 @@ T1
 pow_integral_sgn_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return( exp_term < T2(0) ? \
+    return( // the smallest exponent cannot be negated
+            exp_term == GCLIM<T2>::min() ? \
+                pow_integral_sgn_check(base, T2(exp_term + 1)) / base :
+            exp_term < T2(0) ? \
             //
                 T1(1) / pow_integral_compute(base, - exp_term) : 
             //
@@ -83,11 +86,6 @@ noexcept
                 base :
             exp_term == T2(0) ? \
                 T1(1) :
-            // check for overflow
-            exp_term == GCLIM<T2>::min() ? \
-                T1(0) :
-            exp_term == GCLIM<T2>::max() ? \
-                GCLIM<T1>::infinity() :
             // else
             pow_integral_sgn_check(base,exp_term) );
 }
-- 
2.43.0


From d34145df958be8a962eb80f6e50a851f9be14f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 13/45] fix: pow of an integer to a negative power divided by
 zero when base^|n| overflowed to 0

---
 include/gcem_incl/pow_integral.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index d9c1804..b1b00ab 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -53,7 +53,10 @@ T1
 pow_integral_sgn_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return( // the smallest exponent cannot be negated
+    return( // the reciprocal of an integer larger than one truncates to zero
+            std::is_integral<T1>::value && exp_term < T2(0) && (base > T1(1) || base + T1(1) < T1(0)) ? \
+                T1(0) :
+            // the smallest exponent cannot be negated
             exp_term == GCLIM<T2>::min() ? \
                 pow_integral_sgn_check(base, T2(exp_term + 1)) / base :
             exp_term < T2(0) ? \
-- 
2.43.0


From c0c940aa85e78e2fa3d470f28a60f73ba83bd139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 14/45] fix: floor, ceil, trunc and round returned subnormal
 arguments unrounded

---
 include/gcem_incl/ceil.hpp  | 2 +-
 include/gcem_incl/floor.hpp | 2 +-
 include/gcem_incl/round.hpp | 2 +-
 include/gcem_incl/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/ceil.hpp b/include/gcem_incl/ceil.hpp
index ff1097b..6abe2b1 100644
--- a/include/gcem_incl/ceil.hpp
+++ b/include/gcem_incl/ceil.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 ceil_check_internal(x) );
diff --git a/include/gcem_incl/floor.hpp b/include/gcem_incl/floor.hpp
index 8b260ff..91bff75 100644
--- a/include/gcem_incl/floor.hpp
+++ b/include/gcem_incl/floor.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 floor_check_internal(x) );
diff --git a/include/gcem_incl/round.hpp b/include/gcem_incl/round.hpp
index 9ac4a09..e9e2d13 100644
--- a/include/gcem_incl/round.hpp
+++ b/include/gcem_incl/round.hpp
@@ -98,7 +98,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 sgn(x) * round_check_internal(abs(x)) );
diff --git a/include/gcem_incl/trunc.hpp b/include/gcem_incl/trunc.hpp
index af3f448..41564ab 100644
--- a/include/gcem_incl/trunc.hpp
+++ b/include/gcem_incl/trunc.hpp
@@ -94,7 +94,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 trunc_check_internal(x) );
-- 
2.43.0


From cfd9cc4c559b92c9500e3443d78876182618f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 15/45] fix: pow with an integral exponent wider than the base
 overflowed the narrower type

---
 include/gcem_incl/pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 3891ede..701314c 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -57,7 +57,7 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return pow_integral(base,exp_term);
+    return pow_integral(static_cast<TC>(base),exp_term);
 }
 
 }
-- 
2.43.0


From f51830a56672662da7cce9fd63ac20b4d74e2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 16/45] fix: pow with a zero real-valued exponent gave NaN for
 zero and infinite bases

---
 include/gcem_incl/pow.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 701314c..93e001b 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -44,7 +44,11 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return( base < T1(0) ? \
+    return( // x^0 = 1
+            exp_term == T2(0) ? \
+                TC(1) :
+            //
+            base < T1(0) ? \
                 GCLIM<TC>::quiet_NaN() :
             //
             pow_dbl(static_cast<TC>(base),static_cast<TC>(exp_term)) );
-- 
2.43.0


From 2fc0c5063ced69295f765c6c3e6b76dedd29e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 17/45] fix: sqrt lost all accuracy for very small arguments

---
 include/gcem_incl/sqrt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/sqrt.hpp b/include/gcem_incl/sqrt.hpp
index 1b2753c..893244f 100644
--- a/include/gcem_incl/sqrt.hpp
+++ b/include/gcem_incl/sqrt.hpp
@@ -51,7 +51,9 @@ T
 sqrt_simplify(const T x, const T m_val)
 noexcept
 {
-    return( x > T(1e+08) ? \
+    return( x < T(5e-20) ? \
+                sqrt_simplify(x * T(18446744073709551616.0L), m_val / T(4294967296.0L)) : // 2^64 and 2^32
+            x > T(1e+08) ? \
                 sqrt_simplify(x / T(1e+08), T(1e+04) * m_val) :
             x > T(1e+06) ? \
                 sqrt_simplify(x / T(1e+06), T(1e+03) * m_val) :
-- 
2.43.0


From d41a71e7902e9ff3c368fd024119151d774b4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 18/45] fix: inv_sqrt did not converge for very small and very
 large arguments

---
 include/gcem_incl/inv_sqrt.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/inv_sqrt.hpp b/include/gcem_incl/inv_sqrt.hpp
index d0e33fb..7d7a55d 100644
--- a/include/gcem_incl/inv_sqrt.hpp
+++ b/include/gcem_incl/inv_sqrt.hpp
@@ -43,6 +43,19 @@ noexcept
                 xn );
 }
 
+template<typename T>
+constexpr
+T
+inv_sqrt_simplify(const T x, const T m_val)
+noexcept
+{
+    return( x > T(65536) ? \
+                inv_sqrt_simplify(x / T(65536), m_val / T(256)) :
+            x < T(1)/T(65536) ? \
+                inv_sqrt_simplify(x * T(65536), m_val * T(256)) :
+                m_val * inv_sqrt_recur(x, x/T(2), 0) );
+}
+
 template<typename T>
 constexpr
 T
@@ -63,7 +76,7 @@ noexcept
             GCLIM<T>::min() > abs(T(1) - x) ? \
                 x :
             // else
-            inv_sqrt_recur(x, x/T(2), 0) );
+            inv_sqrt_simplify(x, T(1)) );
 }
 
 }
-- 
2.43.0


From 7230959322f462f558e70a3dd5a4e9fc61a1b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 19/45] fix: lgamma of small positive arguments and of infinity

---
 include/gcem_incl/lgamma.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index 507c6d4..2676edf 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -105,6 +105,12 @@ noexcept
                 T(0) :
             GCLIM<T>::min() > x ? \
                 GCLIM<T>::infinity() :
+            // else
+            is_posinf(x) ? \
+                GCLIM<T>::infinity() :
+            // small values: use lngamma(x) = lngamma(x+1) - log(x), as x - 1 is not accurate
+            x < T(0.5) ? \
+                lgamma_begin(x) - log(x) :
             // else
                 lgamma_begin(x - T(1)) );
 }
-- 
2.43.0


From 1dc5c63e4a293be5e800f0894781d3b8cf6aba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 20/45] fix: tgamma of large negative arguments (unbounded
 recursion, undefined conversion to integer)

---
 include/gcem_incl/tgamma.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/tgamma.hpp b/include/gcem_incl/tgamma.hpp
index deffd3a..922dcee 100644
--- a/include/gcem_incl/tgamma.hpp
+++ b/include/gcem_incl/tgamma.hpp
@@ -45,8 +45,11 @@ noexcept
             // negative numbers
             x < T(0) ? \
                 // check for integer
-                GCLIM<T>::min() > abs(x - find_whole(x)) ? \
+                is_neginf(x) || x == internal::floor_check(x) ? \
                     GCLIM<T>::quiet_NaN() :
+                // underflow
+                x < - T(GCLIM<T>::max_exponent / 3) ? \
+                    T(0) :
                 // else
                 tgamma_check(x+T(1)) / x :
 
-- 
2.43.0


From 8622bc889a93147637927e8a4c957384eb0e324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 21/45] fix: incomplete_gamma and its inverse were not constant
 expressions for a >= 10

---
 include/gcem_incl/quadrature/gauss_legendre_30.hpp | 4 ++--
 include/gcem_incl/quadrature/gauss_legendre_50.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/quadrature/gauss_legendre_30.hpp b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
index 295f43d..61f314b 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_30.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 30 points
  */
 
-static const long double gauss_legendre_30_points[30] = \
+static constexpr long double gauss_legendre_30_points[30] = \
 {
     -0.05147184255531769583302521316672L,
      0.05147184255531769583302521316672L,
@@ -56,7 +56,7 @@ static const long double gauss_legendre_30_points[30] = \
      0.99689348407464954027163005091870L\
 };
 
-static const long double gauss_legendre_30_weights[30] = \
+static constexpr long double gauss_legendre_30_weights[30] = \
 {
     0.10285265289355884034128563670542L,
     0.10285265289355884034128563670542L,
diff --git a/include/gcem_incl/quadrature/gauss_legendre_50.hpp b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
index d4e448c..89a9edc 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_50.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 50 points
  */
 
-static const long double gauss_legendre_50_points[50] = \
+static constexpr long double gauss_legendre_50_points[50] = \
 {
     -0.03109833832718887611232898966595L,
      0.03109833832718887611232898966595L,
@@ -76,7 +76,7 @@ static const long double gauss_legendre_50_points[50] = \
      0.99886640442007105018545944497422L\
 };
 
-static const long double gauss_legendre_50_weights[50] = \
+static constexpr long double gauss_legendre_50_weights[50] = \
 {
     0.06217661665534726232103310736061L,
     0.06217661665534726232103310736061L,
-- 
2.43.0


From 409e4b9acbb93697b4057d5d9d8e1a3215ffddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 22/45] fix: incomplete_beta_inv of integral arguments returned
 an integral type

---
 include/gcem_incl/incomplete_beta_inv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 9f575a3..745669d 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -310,7 +310,7 @@ noexcept
                     alpha_par,beta_par,p,lbeta(alpha_par,beta_par)) );
 }
 
-template<typename T1, typename T2, typename T3, typename TC = common_t<T1,T2,T3>>
+template<typename T1, typename T2, typename T3, typename TC = common_return_t<T1,T2,T3>>
 constexpr
 TC
 incomplete_beta_inv_type_check(const T1 a, const T2 b, const T3 p)
@@ -342,7 +342,7 @@ noexcept
 
 template<typename T1, typename T2, typename T3>
 constexpr
-common_t<T1,T2,T3>
+common_return_t<T1,T2,T3>
 incomplete_beta_inv(const T1 a, const T2 b, const T3 p)
 noexcept
 {
-- 
2.43.0


From f3b109c5272f11fd44ebbe3ddf2028f5dfa7b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 23/45] fix: incomplete_gamma at infinity

---
 include/gcem_incl/incomplete_gamma.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 9ee4146..6a77bc7 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -196,6 +196,8 @@ noexcept
             //
             GCLIM<T>::min() > z ? \
                 T(0) : 
+            is_posinf(z) ? \
+                T(1) :
             //
             GCLIM<T>::min() > a ? \
                 T(1) : 
-- 
2.43.0


From 97ee3811518268d08c12167ee066d79644494615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 24/45] fix: erf of very large arguments was not a constant
 expression (x*x overflowed)

---
 include/gcem_incl/erf.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/erf.hpp b/include/gcem_incl/erf.hpp
index ce920fb..bad48ac 100644
--- a/include/gcem_incl/erf.hpp
+++ b/include/gcem_incl/erf.hpp
@@ -137,7 +137,11 @@ T
 erf_begin(const T x)
 noexcept
 {
-    return( x > T(2.1) ? \
+    return( // indistinguishable from one; avoids overflow in x*x
+            x > T(7) ? \
+                T(1) :
+            //
+            x > T(2.1) ? \
             // if
                 erf_cf_large_main(x) :
             // else
-- 
2.43.0


From 247bccbbbdc5cf88fa00c012ce69c74edcb1bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 25/45] fix: atan2 of two infinities

---
 include/gcem_incl/atan2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/atan2.hpp b/include/gcem_incl/atan2.hpp
index 5ca55b7..efc911a 100644
--- a/include/gcem_incl/atan2.hpp
+++ b/include/gcem_incl/atan2.hpp
@@ -37,6 +37,9 @@ noexcept
     return( // NaN check
             any_nan(y,x) ? \
                 GCLIM<T>::quiet_NaN() :
+            // both infinite
+            all_inf(y,x) ? \
+                atan2_compute(T(sgn(y)),T(sgn(x))) :
             //
             GCLIM<T>::min() > abs(x) ? \
             //
-- 
2.43.0


From b31b3837576a9fee3b51b01156bc5183a676e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 26/45] fix: signbit and copysign were not constant expressions
 with Clang

---
 include/gcem_incl/gcem_options.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/gcem_options.hpp b/include/gcem_incl/gcem_options.hpp
index 4113738..acdb396 100644
--- a/include/gcem_incl/gcem_options.hpp
+++ b/include/gcem_incl/gcem_options.hpp
@@ -204,6 +204,9 @@ namespace gcem
         #define GCEM_COPYSIGN(x,y) _copysign(x,y)
     #endif
 #else
+    #if defined(__clang__) && !defined(GCEM_SIGNBIT) // __builtin_signbit is not constexpr with Clang
+        #define GCEM_SIGNBIT(x) (__builtin_copysignl(1.0L,x) < 0.0L)
+    #endif
     #ifndef GCEM_SIGNBIT
         #define GCEM_SIGNBIT(x) __builtin_signbit(x)
     #endif
-- 
2.43.0


From 689b6d5bd67aec714e51fd35dcaea997715d680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 27/45] fix: binomial_coef took a number of calls proportional
 to its result

---
 include/gcem_incl/binomial_coef.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/gcem_incl/binomial_coef.hpp b/include/gcem_incl/binomial_coef.hpp
index 0fc17f3..5a7cee6 100644
--- a/include/gcem_incl/binomial_coef.hpp
+++ b/include/gcem_incl/binomial_coef.hpp
@@ -24,6 +24,24 @@
 namespace internal
 {
 
+template<typename T>
+constexpr
+T
+binomial_coef_multiply(const T n, const T k, const T coef, const T common)
+noexcept
+{   // coef*n/k without overflow in coef*n, where common = gcd(coef,k)
+    return( (coef / common) * (n / (k / common)) );
+}
+
+template<typename T>
+constexpr
+T
+binomial_coef_update(const T n, const T k, const T coef)
+noexcept
+{
+    return binomial_coef_multiply(n,k,coef,gcd(coef,k));
+}
+
 template<typename T>
 constexpr
 T
@@ -32,9 +50,11 @@ noexcept
 {
     return( // edge cases
                 (k == T(0) || n == k) ? T(1) : // deals with 0 choose 0 case
-                n == T(0) ? T(0) :
-            // else
-                binomial_coef_recur(n-1,k-1) + binomial_coef_recur(n-1,k) );
+                n < k ? T(0) :
+            // symmetry
+                T(n-k) < k ? binomial_coef_recur(n,T(n-k)) :
+            // else: (n choose k) = (n-1 choose k-1) * n/k
+                binomial_coef_update(n,k,binomial_coef_recur(T(n-1),T(k-1))) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
-- 
2.43.0


From 343a756fe89d78b5cbe9ddac44469cb73241520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:37 +0000
Subject: [PATCH 28/45] fix: atan2 of negative zero and a negative number

---
 include/gcem_incl/atan2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/atan2.hpp b/include/gcem_incl/atan2.hpp
index efc911a..ae811bc 100644
--- a/include/gcem_incl/atan2.hpp
+++ b/include/gcem_incl/atan2.hpp
@@ -51,7 +51,7 @@ noexcept
                     T(GCEM_HALF_PI) : - T(GCEM_HALF_PI) :
             //
             x < T(0) ? \
-                y < T(0) ? \
+                y < T(0) || neg_zero(y) ? \
                     atan(y/x) - T(GCEM_PI) : 
                     atan(y/x) + T(GCEM_PI) :
             //
-- 
2.43.0


From 381dcf52f09a87dda054406c9671b5b8fd1ad42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 29/45] fix: incomplete_gamma lost accuracy for a < 10 and x
 between a+2 and a+10 (float results above 1)

---
 include/gcem_incl/incomplete_gamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 6a77bc7..adbe6f1 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -202,7 +202,7 @@ noexcept
             GCLIM<T>::min() > a ? \
                 T(1) : 
             // cf or quadrature
-            (a < T(10)) && (z - a < T(10)) ?
+            (a < T(10)) && (z - a < T(2)) ?
                 incomplete_gamma_cf_1(a,z) :
             (a < T(10)) || (z/a > T(3)) ?
                 incomplete_gamma_cf_2(a,z) :
-- 
2.43.0


From b71c248284b555f452d277de444c523480cb4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:16 +0000
Subject: [PATCH 30/45] fix: incomplete_gamma truncated the integral too early
 for 10 <= a <= 100 (errors up to 1e-4)

---
 include/gcem_incl/incomplete_gamma.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index adbe6f1..fa89a23 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -83,14 +83,8 @@ noexcept
             a > T(800)  ? max(T(0),min(z,a) - 11*sqrt(a)) :
             a > T(500)  ? max(T(0),min(z,a) - 10*sqrt(a)) :
             a > T(300)  ? max(T(0),min(z,a) - 10*sqrt(a)) : 
-            a > T(100)  ? max(T(0),min(z,a) -  9*sqrt(a)) :
-            a > T(90)   ? max(T(0),min(z,a) -  9*sqrt(a)) :
-            a > T(70)   ? max(T(0),min(z,a) -  8*sqrt(a)) :
-            a > T(50)   ? max(T(0),min(z,a) -  7*sqrt(a)) :
-            a > T(40)   ? max(T(0),min(z,a) -  6*sqrt(a)) :
-            a > T(30)   ? max(T(0),min(z,a) -  5*sqrt(a)) :
             // else
-                max(T(0),min(z,a)-4*sqrt(a)) );
+                max(T(0),min(z,a) - 9*sqrt(a)) );
 }
 
 template<typename T>
@@ -103,12 +97,8 @@ noexcept
             a > T(800)  ? min(z, a + 10*sqrt(a)) :
             a > T(500)  ? min(z, a + 9*sqrt(a))  :
             a > T(300)  ? min(z, a + 9*sqrt(a))  : 
-            a > T(100)  ? min(z, a + 8*sqrt(a))  :
-            a > T(90)   ? min(z, a + 8*sqrt(a))  :
-            a > T(70)   ? min(z, a + 7*sqrt(a))  :
-            a > T(50)   ? min(z, a + 6*sqrt(a))  :
             // else
-                min(z, a + 5*sqrt(a)) );
+                min(z, a + 12*sqrt(a)) );
 }
 
 template<typename T>
-- 
2.43.0


From 29c1a61162d57b006a0480d32ce02e41035311ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:51 +0000
Subject: [PATCH 31/45] fix: incomplete_gamma_inv stepped outside its domain
 and did not converge (NaN, residuals up to 1e-8)

---
 include/gcem_incl/incomplete_gamma_inv.hpp | 30 +++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index e5976d0..0345f71 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -137,37 +137,37 @@ noexcept
 template<typename T>
 constexpr
 T
-incomplete_gamma_inv_deriv_2(const T value, const T a, const T deriv_1)
+incomplete_gamma_inv_ratio_val_1(const T value, const T a, const T p, const T deriv_1)
 noexcept
-{ // second derivative of the incomplete gamma function w.r.t. x
-    return( deriv_1*((a - T(1))/value - T(1)) );
+{
+    return( incomplete_gamma_inv_err_val(value,a,p) / deriv_1 );
 }
 
 template<typename T>
 constexpr
 T
-incomplete_gamma_inv_ratio_val_1(const T value, const T a, const T p, const T deriv_1)
+incomplete_gamma_inv_ratio_val_2(const T value, const T a)
 noexcept
-{
-    return( incomplete_gamma_inv_err_val(value,a,p) / deriv_1 );
+{ // second derivative over the first (their product would overflow for small values)
+    return( (a - T(1))/value - T(1) );
 }
 
 template<typename T>
 constexpr
 T
-incomplete_gamma_inv_ratio_val_2(const T value, const T a, const T deriv_1)
+incomplete_gamma_inv_halley(const T ratio_val_1, const T ratio_val_2)
 noexcept
 {
-    return( incomplete_gamma_inv_deriv_2(value,a,deriv_1) / deriv_1 );
+    return( ratio_val_1 / max( T(0.8), min( T(1.2), T(1) - T(0.5)*ratio_val_1*ratio_val_2 ) ) );
 }
 
 template<typename T>
 constexpr
 T
-incomplete_gamma_inv_halley(const T ratio_val_1, const T ratio_val_2)
+incomplete_gamma_inv_step(const T value, const T direc)
 noexcept
-{
-    return( ratio_val_1 / max( T(0.8), min( T(1.2), T(1) - T(0.5)*ratio_val_1*ratio_val_2 ) ) );
+{ // a step that leaves the domain is replaced by bisection
+    return( value - direc > T(0) ? value - direc : value / T(2) );
 }
 
 template<typename T>
@@ -178,7 +178,7 @@ noexcept
 {
     return incomplete_gamma_inv_decision(value, a, p,
                 incomplete_gamma_inv_halley(incomplete_gamma_inv_ratio_val_1(value,a,p,deriv_1), 
-                incomplete_gamma_inv_ratio_val_2(value,a,deriv_1)),
+                incomplete_gamma_inv_ratio_val_2(value,a)),
                 lg_val, iter_count);
 }
 
@@ -191,11 +191,11 @@ noexcept
     // return( abs(direc) > GCEM_INCML_GAMMA_INV_TOL ? incomplete_gamma_inv_recur(value - direc, a, p, incomplete_gamma_inv_deriv_1(value,a,lg_val), lg_val) : value - direc );
     return( iter_count <= GCEM_INCML_GAMMA_INV_MAX_ITER ? \
             // if
-                incomplete_gamma_inv_recur(value-direc,a,p,
-                    incomplete_gamma_inv_deriv_1(value,a,lg_val),
+                incomplete_gamma_inv_recur(incomplete_gamma_inv_step(value,direc),a,p,
+                    incomplete_gamma_inv_deriv_1(incomplete_gamma_inv_step(value,direc),a,lg_val),
                     lg_val,iter_count+1) :
             // else 
-                value - direc );
+                incomplete_gamma_inv_step(value,direc) );
 }
 
 template<typename T>
-- 
2.43.0


From e2a94c7b171b953dbf41fffe2ae2d4766a4fef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:51 +0000
Subject: [PATCH 32/45] fix: incomplete_beta_inv did not converge for small
 shape parameters (wrong initial value, steps outside the unit interval)

---
 include/gcem_incl/incomplete_beta_inv.hpp | 35 ++++++++++++-----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 745669d..be9963d 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -153,7 +153,7 @@ incomplete_beta_inv_initial_val_2(const T alpha_par, const T beta_par, const T p
 noexcept
 {
     return( p <= s_1/(s_1 + s_2) ? pow(p*(s_1+s_2)*alpha_par,T(1)/alpha_par) :
-                                    T(1) - pow(p*(s_1+s_2)*beta_par,T(1)/beta_par) );
+                                    T(1) - pow((T(1)-p)*(s_1+s_2)*beta_par,T(1)/beta_par) );
 }
 
 // initial value
@@ -212,37 +212,40 @@ noexcept
 template<typename T>
 constexpr
 T
-incomplete_beta_inv_deriv_2(const T value, const T alpha_par, const T beta_par, const T deriv_1)
+incomplete_beta_inv_ratio_val_1(const T value, const T alpha_par, const T beta_par, const T p, const T deriv_1)
 noexcept
-{ // second derivative of the incomplete beta function w.r.t. x
-    return( deriv_1*((alpha_par - T(1))/value - (beta_par - T(1))/(T(1) - value)) );
+{
+    return( incomplete_beta_inv_err_val(value,alpha_par,beta_par,p) / deriv_1 );
 }
 
 template<typename T>
 constexpr
 T
-incomplete_beta_inv_ratio_val_1(const T value, const T alpha_par, const T beta_par, const T p, const T deriv_1)
+incomplete_beta_inv_ratio_val_2(const T value, const T alpha_par, const T beta_par)
 noexcept
-{
-    return( incomplete_beta_inv_err_val(value,alpha_par,beta_par,p) / deriv_1 );
+{ // second derivative over the first (their product would overflow for small values)
+    return( (alpha_par - T(1))/value - (beta_par - T(1))/(T(1) - value) );
 }
 
 template<typename T>
 constexpr
 T
-incomplete_beta_inv_ratio_val_2(const T value, const T alpha_par, const T beta_par, const T deriv_1)
+incomplete_beta_inv_halley(const T ratio_val_1, const T ratio_val_2)
 noexcept
 {
-    return( incomplete_beta_inv_deriv_2(value,alpha_par,beta_par,deriv_1) / deriv_1 );
+    return( ratio_val_1 / max( T(0.8), min( T(1.2), T(1) - T(0.5)*ratio_val_1*ratio_val_2 ) ) );
 }
 
 template<typename T>
 constexpr
 T
-incomplete_beta_inv_halley(const T ratio_val_1, const T ratio_val_2)
+incomplete_beta_inv_step(const T value, const T direc)
 noexcept
-{
-    return( ratio_val_1 / max( T(0.8), min( T(1.2), T(1) - T(0.5)*ratio_val_1*ratio_val_2 ) ) );
+{   // a step that leaves the unit interval is replaced by bisection
+    return( value - direc <= T(0) ? value / T(2) :
+            value - direc >= T(1) ? (value + T(1)) / T(2) :
+            // else
+                value - direc );
 }
 
 template<typename T>
@@ -260,7 +263,7 @@ noexcept
             incomplete_beta_inv_decision( value, alpha_par, beta_par, p,
                incomplete_beta_inv_halley(
                    incomplete_beta_inv_ratio_val_1(value,alpha_par,beta_par,p,deriv_1),
-                   incomplete_beta_inv_ratio_val_2(value,alpha_par,beta_par,deriv_1)
+                   incomplete_beta_inv_ratio_val_2(value,alpha_par,beta_par)
                ), lb_val, iter_count) );
 }
 
@@ -273,11 +276,11 @@ noexcept
 {
     return( iter_count <= GCEM_INCML_BETA_INV_MAX_ITER ?
             // if
-                incomplete_beta_inv_recur(value-direc,alpha_par,beta_par,p,
-                    incomplete_beta_inv_deriv_1(value,alpha_par,beta_par,lb_val),
+                incomplete_beta_inv_recur(incomplete_beta_inv_step(value,direc),alpha_par,beta_par,p,
+                    incomplete_beta_inv_deriv_1(incomplete_beta_inv_step(value,direc),alpha_par,beta_par,lb_val),
                     lb_val, iter_count+1) :
             // else
-                value - direc );
+                incomplete_beta_inv_step(value,direc) );
 }
 
 template<typename T>
-- 
2.43.0


From 3dd5e9671ad831916a5b1dbc28001a7f57c29c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:28 +0000
Subject: [PATCH 33/45] fix: erf lost accuracy between 1.7 and 2.1 (relative
 error 4e-4 in float)

---
 include/gcem_incl/erf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/erf.hpp b/include/gcem_incl/erf.hpp
index bad48ac..e4e2469 100644
--- a/include/gcem_incl/erf.hpp
+++ b/include/gcem_incl/erf.hpp
@@ -141,7 +141,7 @@ noexcept
             x > T(7) ? \
                 T(1) :
             //
-            x > T(2.1) ? \
+            x > T(1.7) ? \
             // if
                 erf_cf_large_main(x) :
             // else
-- 
2.43.0


From 75934b6deffd5006805c296582f6959cf80d3b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:55 +0000
Subject: [PATCH 34/45] fix: sin, cos and tan of an infinity were not constant
 expressions (inf - inf)

---
 include/gcem_incl/cos.hpp | 3 +++
 include/gcem_incl/sin.hpp | 3 +++
 include/gcem_incl/tan.hpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/gcem_incl/cos.hpp b/include/gcem_incl/cos.hpp
index 82f4c60..bff2415 100644
--- a/include/gcem_incl/cos.hpp
+++ b/include/gcem_incl/cos.hpp
@@ -46,6 +46,9 @@ noexcept
     return( // NaN check
             is_nan(x) ? \
                 GCLIM<T>::quiet_NaN() :
+            // not defined at +/- infinity
+            !is_finite(x) ? \
+                GCLIM<T>::quiet_NaN() :
             // indistinguishable from 0
             GCLIM<T>::min() > abs(x) ? 
                 T(1) :
diff --git a/include/gcem_incl/sin.hpp b/include/gcem_incl/sin.hpp
index 56c8dca..a2b32d2 100644
--- a/include/gcem_incl/sin.hpp
+++ b/include/gcem_incl/sin.hpp
@@ -48,6 +48,9 @@ noexcept
     return( // NaN check
             is_nan(x) ? \
                 GCLIM<T>::quiet_NaN() :
+            // not defined at +/- infinity
+            !is_finite(x) ? \
+                GCLIM<T>::quiet_NaN() :
             // indistinguishable from zero
             GCLIM<T>::min() > abs(x) ? \
                 T(0) :
diff --git a/include/gcem_incl/tan.hpp b/include/gcem_incl/tan.hpp
index 386cce0..1362ae2 100644
--- a/include/gcem_incl/tan.hpp
+++ b/include/gcem_incl/tan.hpp
@@ -106,6 +106,9 @@ noexcept
     return( // NaN check
             is_nan(x) ? \
                 GCLIM<T>::quiet_NaN() :
+            // not defined at +/- infinity
+            !is_finite(x) ? \
+                GCLIM<T>::quiet_NaN() :
             // indistinguishable from zero 
             GCLIM<T>::min() > abs(x) ? \
                 T(0) :
-- 
2.43.0


From 89bc667598d9599444cac718a8a72e06715af5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:36 +0000
Subject: [PATCH 35/45] fix: gcd and lcm of types narrower than int did not
 compile

---
 include/gcem_incl/gcd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/gcd.hpp b/include/gcem_incl/gcd.hpp
index 1e277fb..ffe9296 100644
--- a/include/gcem_incl/gcd.hpp
+++ b/include/gcem_incl/gcd.hpp
@@ -30,7 +30,7 @@ T
 gcd_recur(const T a, const T b)
 noexcept
 {
-    return( b == T(0) ? a : gcd_recur(b, a % b) );
+    return( b == T(0) ? a : gcd_recur(b, T(a % b)) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
-- 
2.43.0


From de9f33af06d949efba417a7b67bd1c83568a5f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:36 +0000
Subject: [PATCH 36/45] fix: pow of types narrower than int did not compile

---
 include/gcem_incl/pow_integral.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index b1b00ab..f5cc803 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -42,8 +42,8 @@ noexcept
 {
     return( exp_term > T2(1) ? \
                 (is_odd(exp_term) ? \
-                    pow_integral_compute_recur(base*base,val*base,exp_term/2) :
-                    pow_integral_compute_recur(base*base,val,exp_term/2)) :
+                    pow_integral_compute_recur(T1(base*base),T1(val*base),T2(exp_term/2)) :
+                    pow_integral_compute_recur(T1(base*base),val,T2(exp_term/2))) :
                 (exp_term == T2(1) ? val*base : val) );
 }
 
-- 
2.43.0


From 9d915eda9e264891bc5244f740d72e3c1ede0404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:17 +0000
Subject: [PATCH 37/45] fix: exp of large negative long double is a constant
 expression

The reciprocal of the power overflowed where the result is subnormal or zero, so GCC rejected
exp(-11380.L) and exp(-12000.L) as constant expressions.
---
 include/gcem_incl/exp.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index 0d89913..b96d661 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -103,10 +103,13 @@ noexcept
             is_posinf(x) ? \
                 GCLIM<T>::infinity() :
             // overflow and underflow (also keeps the whole part of x in the range of llint_t)
-            x > T(GCLIM<T>::max_exponent) ? \
+            x > T(GCEM_LOG_2) * T(GCLIM<T>::max_exponent) ? \
                 GCLIM<T>::infinity() :
-            x < T(GCLIM<T>::min_exponent - GCLIM<T>::digits) ? \
+            x < T(GCEM_LOG_2) * T(GCLIM<T>::min_exponent - GCLIM<T>::digits) ? \
                 T(0) :
+            // subnormal results, for which the reciprocal of the power would overflow
+            x < T(GCEM_LOG_2) * T(2 - GCLIM<T>::max_exponent) ? \
+                exp_split(x/T(2)) * exp_split(x/T(2)) :
             //
             abs(x) < T(2) ? \
                 exp_cf(x) : \
-- 
2.43.0


From 54afe3125713a4ff68160f63918019850716b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:17 +0000
Subject: [PATCH 38/45] fix: atan2 with an overflowing ratio is a constant
 expression

atan2(1e300,1e-300) divided to infinity, which GCC rejects in constant expressions.
---
 include/gcem_incl/atan2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gcem_incl/atan2.hpp b/include/gcem_incl/atan2.hpp
index ae811bc..18b5554 100644
--- a/include/gcem_incl/atan2.hpp
+++ b/include/gcem_incl/atan2.hpp
@@ -49,6 +49,10 @@ noexcept
                         neg_zero(x) ?   T(GCEM_PI) :   T(0) :
                 y > T(0) ? \
                     T(GCEM_HALF_PI) : - T(GCEM_HALF_PI) :
+            // y/x would overflow
+            abs(x) < T(1) && abs(y) > abs(x) * GCLIM<T>::max() ? \
+                y > T(0) ? \
+                    T(GCEM_HALF_PI) : - T(GCEM_HALF_PI) :
             //
             x < T(0) ? \
                 y < T(0) || neg_zero(y) ? \
-- 
2.43.0


From 17512216b35adc42336a91184a4950c293ec45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:13 +0000
Subject: [PATCH 39/45] fix: log of very large and very small long doubles
 exceeded the default constexpr depth

---
 include/gcem_incl/find_exponent.hpp | 4 ++++
 include/gcem_incl/mantissa.hpp      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/gcem_incl/find_exponent.hpp b/include/gcem_incl/find_exponent.hpp
index 200e4e9..7e7dafc 100644
--- a/include/gcem_incl/find_exponent.hpp
+++ b/include/gcem_incl/find_exponent.hpp
@@ -35,6 +35,8 @@ find_exponent(const T x, const llint_t exponent)
 noexcept
 {
     return( // < 1
+            x < T(1e-33)  ? \
+                find_exponent(x * T(1e+32), exponent - llint_t(32)) :
             x < T(1e-03)  ? \
                 find_exponent(x * T(1e+04), exponent - llint_t(4)) :
             x < T(1e-01)  ? \
@@ -42,6 +44,8 @@ noexcept
             x < T(1)  ? \
                 find_exponent(x * T(10), exponent - llint_t(1)) :
             // > 10
+            x > T(1e+33) ? \
+                find_exponent(x / T(1e+32), exponent + llint_t(32)) :
             x > T(10) ? \
                 find_exponent(x / T(10), exponent + llint_t(1)) :
             x > T(1e+02) ? \
diff --git a/include/gcem_incl/mantissa.hpp b/include/gcem_incl/mantissa.hpp
index 71f86b6..3b71768 100644
--- a/include/gcem_incl/mantissa.hpp
+++ b/include/gcem_incl/mantissa.hpp
@@ -35,12 +35,16 @@ mantissa(const T x)
 noexcept
 {
     return( // scale by the same sequence of powers of ten as find_exponent
+            x < T(1e-33) ? \
+                mantissa(x * T(1e+32)) :
             x < T(1e-03) ? \
                 mantissa(x * T(1e+04)) :
             x < T(1e-01) ? \
                 mantissa(x * T(1e+02)) :
             x < T(1) ? \
                 mantissa(x * T(10)) : 
+            x > T(1e+33) ? \
+                mantissa(x / T(1e+32)) :
             x > T(10) ? \
                 mantissa(x / T(10)) :
             // else
-- 
2.43.0


From 5d5f7e7ca1c6c2490fc7579e21c809000fd19263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:44 +0000
Subject: [PATCH 40/45] fix: sqrt and inv_sqrt of very large and very small
 long doubles exceeded the default constexpr depth

---
 include/gcem_incl/inv_sqrt.hpp | 6 +++++-
 include/gcem_incl/sqrt.hpp     | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/inv_sqrt.hpp b/include/gcem_incl/inv_sqrt.hpp
index 7d7a55d..952e3f0 100644
--- a/include/gcem_incl/inv_sqrt.hpp
+++ b/include/gcem_incl/inv_sqrt.hpp
@@ -49,7 +49,11 @@ T
 inv_sqrt_simplify(const T x, const T m_val)
 noexcept
 {
-    return( x > T(65536) ? \
+    return( x > T(1.8e+19) ? \
+                inv_sqrt_simplify(x / T(18446744073709551616.0L), m_val / T(4294967296.0L)) : // 2^64 and 2^32
+            x < T(5e-20) ? \
+                inv_sqrt_simplify(x * T(18446744073709551616.0L), m_val * T(4294967296.0L)) :
+            x > T(65536) ? \
                 inv_sqrt_simplify(x / T(65536), m_val / T(256)) :
             x < T(1)/T(65536) ? \
                 inv_sqrt_simplify(x * T(65536), m_val * T(256)) :
diff --git a/include/gcem_incl/sqrt.hpp b/include/gcem_incl/sqrt.hpp
index 893244f..dcb2e1e 100644
--- a/include/gcem_incl/sqrt.hpp
+++ b/include/gcem_incl/sqrt.hpp
@@ -53,6 +53,8 @@ noexcept
 {
     return( x < T(5e-20) ? \
                 sqrt_simplify(x * T(18446744073709551616.0L), m_val / T(4294967296.0L)) : // 2^64 and 2^32
+            x > T(1.8e+19) ? \
+                sqrt_simplify(x / T(18446744073709551616.0L), T(4294967296.0L) * m_val) :
             x > T(1e+08) ? \
                 sqrt_simplify(x / T(1e+08), T(1e+04) * m_val) :
             x > T(1e+06) ? \
-- 
2.43.0


From eec56f674c1c18f796f6c491319473844eb142fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:45 +0000
Subject: [PATCH 41/45] fix: tgamma of large negative long doubles exceeded the
 default constexpr depth

---
 include/gcem_incl/tgamma.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/gcem_incl/tgamma.hpp b/include/gcem_incl/tgamma.hpp
index 922dcee..f62f132 100644
--- a/include/gcem_incl/tgamma.hpp
+++ b/include/gcem_incl/tgamma.hpp
@@ -28,6 +28,15 @@
 namespace internal
 {
 
+template<typename T>
+constexpr
+T
+tgamma_rising(const T x)
+noexcept
+{   // x(x+1)...(x+7)
+    return( (x*(x+T(1))*(x+T(2))*(x+T(3))) * ((x+T(4))*(x+T(5))*(x+T(6))*(x+T(7))) );
+}
+
 template<typename T>
 constexpr
 T
@@ -50,6 +59,9 @@ noexcept
                 // underflow
                 x < - T(GCLIM<T>::max_exponent / 3) ? \
                     T(0) :
+                // sixteen steps at once, to limit the depth of the recursion
+                x < - T(32) ? \
+                    tgamma_check(x+T(16)) / (tgamma_rising(x) * tgamma_rising(x+T(8))) :
                 // else
                 tgamma_check(x+T(1)) / x :
 
-- 
2.43.0


From 84060030b4bb027a62e17021b4db65df46a79d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:39 +0000
Subject: [PATCH 42/45] fix: lbeta and beta of integral arguments overflowed
 the integral type

---
 include/gcem_incl/lbeta.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/lbeta.hpp b/include/gcem_incl/lbeta.hpp
index 60c87b4..6b3ac40 100644
--- a/include/gcem_incl/lbeta.hpp
+++ b/include/gcem_incl/lbeta.hpp
@@ -21,6 +21,29 @@
 #ifndef _gcem_lbeta_HPP
 #define _gcem_lbeta_HPP
 
+namespace internal
+{
+
+template<typename T>
+constexpr
+T
+lbeta_compute(const T a, const T b)
+noexcept
+{
+    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+}
+
+template<typename T1, typename T2, typename TC = common_return_t<T1,T2>>
+constexpr
+TC
+lbeta_type_check(const T1 a, const T2 b)
+noexcept
+{
+    return lbeta_compute(static_cast<TC>(a),static_cast<TC>(b));
+}
+
+}
+
 /**
  * Compile-time log-beta function
  *
@@ -36,7 +59,7 @@ common_return_t<T1,T2>
 lbeta(const T1 a, const T2 b)
 noexcept
 {
-    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+    return internal::lbeta_type_check(a,b);
 }
 
 #endif
-- 
2.43.0


From 283179a333e8c6bce6ed02838605160471a7bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:18 +0000
Subject: [PATCH 43/45] fix: sin, cos and tan of very large arguments were not
 constant expressions

The rounded multiple of pi can exceed the argument, leaving a large negative
remainder whose square overflows; reduce it like a positive one. Where the
tangent is NaN, sin and cos return NaN without computing with it.
---
 include/gcem_incl/cos.hpp | 6 +++++-
 include/gcem_incl/sin.hpp | 6 +++++-
 include/gcem_incl/tan.hpp | 3 +++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/cos.hpp b/include/gcem_incl/cos.hpp
index bff2415..d5a5b47 100644
--- a/include/gcem_incl/cos.hpp
+++ b/include/gcem_incl/cos.hpp
@@ -34,7 +34,11 @@ T
 cos_compute(const T x)
 noexcept
 {
-    return( T(1) - x*x)/(T(1) + x*x );
+    return( // the tangent of a very large argument is NaN
+            is_nan(x) ? \
+                GCLIM<T>::quiet_NaN() :
+            // else
+                (T(1) - x*x)/(T(1) + x*x) );
 }
 
 template<typename T>
diff --git a/include/gcem_incl/sin.hpp b/include/gcem_incl/sin.hpp
index a2b32d2..4924990 100644
--- a/include/gcem_incl/sin.hpp
+++ b/include/gcem_incl/sin.hpp
@@ -36,7 +36,11 @@ T
 sin_compute(const T x)
 noexcept
 {
-    return T(2)*x/(T(1) + x*x);
+    return( // the tangent of a very large argument is NaN
+            is_nan(x) ? \
+                GCLIM<T>::quiet_NaN() :
+            // else
+                T(2)*x/(T(1) + x*x) );
 }
 
 template<typename T>
diff --git a/include/gcem_incl/tan.hpp b/include/gcem_incl/tan.hpp
index 1362ae2..36b1f8c 100644
--- a/include/gcem_incl/tan.hpp
+++ b/include/gcem_incl/tan.hpp
@@ -93,6 +93,9 @@ noexcept
             // if
                 count > 1 ? GCLIM<T>::quiet_NaN() : // protect against undefined behavior
                 tan_begin( x - T(GCEM_PI) * internal::floor_check(x/T(GCEM_PI)), count+1 ) :
+            // the rounded product can exceed a very large x
+            x < - T(GCEM_PI) ? \
+                - tan_begin(-x, count) :
             // else 
                 tan_cf_main(x) );
 }
-- 
2.43.0


From f009bddbe85afd6b674cdf7928b8ad81137f8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 44/45] fix: binomial_coef of negative k; gcd, lcm and
 binomial_coef of NaN and out-of-range floating-point arguments

binomial_coef(5,-1) recursed until the stack overflowed.  Floating-point arguments that
unsigned long long int cannot hold (NaN, infinities, negative or large values) were converted
all the same, which is undefined, and could recurse without end too.
---
 include/gcem_incl/binomial_coef.hpp | 11 +++++++++--
 include/gcem_incl/gcd.hpp           |  6 +++++-
 include/gcem_incl/lcm.hpp           |  2 +-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/binomial_coef.hpp b/include/gcem_incl/binomial_coef.hpp
index 5a7cee6..dd5e901 100644
--- a/include/gcem_incl/binomial_coef.hpp
+++ b/include/gcem_incl/binomial_coef.hpp
@@ -50,7 +50,7 @@ noexcept
 {
     return( // edge cases
                 (k == T(0) || n == k) ? T(1) : // deals with 0 choose 0 case
-                n < k ? T(0) :
+                (n < k || k < T(0)) ? T(0) :
             // symmetry
                 T(n-k) < k ? binomial_coef_recur(n,T(n-k)) :
             // else: (n choose k) = (n-1 choose k-1) * n/k
@@ -75,7 +75,14 @@ noexcept
     return( // NaN check; removed due to MSVC problems; template not being ignored in <int> cases
             // (is_nan(n) || is_nan(k)) ? GCLIM<T>::quiet_NaN() :
             //
-            static_cast<T>(binomial_coef_recur(static_cast<ullint_t>(n),static_cast<ullint_t>(k))) );
+            // NaN check and range check: not convertible to ullint_t
+            !(n < T(18446744073709551616.0) && k < T(18446744073709551616.0)) ? \
+                GCLIM<T>::quiet_NaN() :
+            // edge cases
+            (k == T(0) || n == k) ? T(1) :
+            (n < k || k < T(0)) ? T(0) :
+            // else
+                static_cast<T>(binomial_coef_recur(static_cast<ullint_t>(n),static_cast<ullint_t>(k))) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>>
diff --git a/include/gcem_incl/gcd.hpp b/include/gcem_incl/gcd.hpp
index ffe9296..6c6d360 100644
--- a/include/gcem_incl/gcd.hpp
+++ b/include/gcem_incl/gcd.hpp
@@ -48,7 +48,11 @@ T
 gcd_int_check(const T a, const T b)
 noexcept
 {
-    return gcd_recur( static_cast<ullint_t>(a), static_cast<ullint_t>(b) );
+    return( // NaN check and range check: not convertible to ullint_t
+            !(a < T(18446744073709551616.0) && b < T(18446744073709551616.0)) ? \
+                GCLIM<T>::quiet_NaN() :
+            // else
+                T(gcd_recur( static_cast<ullint_t>(a), static_cast<ullint_t>(b) )) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>>
diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index c3d10cb..2c01e86 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -32,7 +32,7 @@ noexcept
 {
     return( // zero check: gcd(0,0) = 0
             (a == T(0) || b == T(0)) ? \
-                T(0) :
+                T(a * b) : // zero, or NaN
             // else
                 abs(a * (b / gcd(a,b))) );
 }
-- 
2.43.0


From 280fb759837528d84e6a9b736888e2c165cb577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 45/45] fix: incomplete_beta_inv starts below one

For a, b > 1 and p close to one the initial value could round to one, where the derivative
vanishes, and was returned as the result without taking a step: about 40 units of rounding
error, incomplete_beta_inv(1.03f,1.03f,0.999997f).
---
 include/gcem_incl/incomplete_beta_inv.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index be9963d..0cacbd3 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -105,7 +105,8 @@ T
 incomplete_beta_inv_initial_val_1_int_end(const T alpha_par, const T beta_par, const T w_term)
 noexcept
 {
-    return( alpha_par / (alpha_par + beta_par*exp(2*w_term)) );
+    // less than one, where the recursion could not take a step
+    return min( alpha_par / (alpha_par + beta_par*exp(2*w_term)), T(1) - GCLIM<T>::epsilon() );
 }
 
 template<typename T>
-- 
2.43.0

