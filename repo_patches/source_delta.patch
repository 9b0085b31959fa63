From 20fd1176b57538e04fca336529d09ea4355f8735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 01/15] fix: round integers down without negating them first

Negating an unsigned or most negative integer overflows before the conversion.
---
 include/boost/numeric/interval/rounded_arith.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index 4bb8691..b10b75e 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -91,6 +91,17 @@ struct rounded_arith_opp: Rounding {
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
   template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
+# define BOOST_NUMERIC_INTERVAL_conv_int(U) \
+  T conv_down(U const &v) { U volatile w = v; BOOST_DN(w); } // -v may overflow
+  BOOST_NUMERIC_INTERVAL_conv_int(int)
+  BOOST_NUMERIC_INTERVAL_conv_int(unsigned int)
+  BOOST_NUMERIC_INTERVAL_conv_int(long)
+  BOOST_NUMERIC_INTERVAL_conv_int(unsigned long)
+# ifdef BOOST_HAS_LONG_LONG
+  BOOST_NUMERIC_INTERVAL_conv_int(::boost::long_long_type)
+  BOOST_NUMERIC_INTERVAL_conv_int(::boost::ulong_long_type)
+# endif
+# undef BOOST_NUMERIC_INTERVAL_conv_int
   template<class U> T conv_up  (U const &v) { BOOST_UP(v); }
   T add_down(const T& x, const T& y) { BOOST_UP_NEG((-x) - y); }
   T sub_down(const T& x, const T& y) { BOOST_UP_NEG(y - x); }
-- 
2.43.0


From 7653d56c8e494be2aebfa98ce0fcc7c17e79a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 02/15] fix: median of finite bounds stays between them when
 their sum overflows

---
 .../boost/numeric/interval/rounded_arith.hpp  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index b10b75e..2ae4481 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -50,7 +50,6 @@ struct rounded_arith_exact: Rounding {
 template<class T, class Rounding>
 struct rounded_arith_std: Rounding {
 # define BOOST_DN(EXPR) this->downward();   return this->force_rounding(EXPR)
-# define BOOST_NR(EXPR) this->to_nearest(); return this->force_rounding(EXPR)
 # define BOOST_UP(EXPR) this->upward();     return this->force_rounding(EXPR)
   void init() { }
   template<class U> T conv_down(U const &v) { BOOST_DN(v); }
@@ -63,7 +62,13 @@ struct rounded_arith_std: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median(const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median(const T& x, const T& y) {
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if (!(x <= r && r <= y)) // x + y overflows
+      r = this->force_rounding(x / 2 + y / 2);
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -71,7 +76,6 @@ struct rounded_arith_std: Rounding {
   T int_down(const T& x) { this->downward(); return this->to_int(x); }
   T int_up  (const T& x) { this->upward();   return this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 };
   
@@ -83,11 +87,6 @@ struct rounded_arith_opp: Rounding {
     T r = this->force_rounding(EXPR); \
     this->upward(); \
     return r
-# define BOOST_NR(EXPR) \
-    this->to_nearest(); \
-    T r = this->force_rounding(EXPR); \
-    this->upward(); \
-    return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
   template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
@@ -111,7 +110,14 @@ struct rounded_arith_opp: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median  (const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median  (const T& x, const T& y) {
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if (!(x <= r && r <= y)) // x + y overflows
+      r = this->force_rounding(x / 2 + y / 2);
+    this->upward();
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -119,7 +125,6 @@ struct rounded_arith_opp: Rounding {
   T int_down(const T& x) { return -this->to_int(-x); }
   T int_up  (const T& x) { return  this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 # undef BOOST_UP_NEG
 };
-- 
2.43.0


From ad2a16c0ae3dfad731d18d3f3d23dc91d6b494f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 03/15] fix: integer root of an infinite bound is infinite, not
 NaN

---
 include/boost/numeric/interval/arith2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index eec87e0..e2aa908 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -229,6 +229,8 @@ template< class I > inline
 I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
 {
   typedef typename I::base_type T;
+  if (std::numeric_limits<T>::has_infinity && x == std::numeric_limits<T>::infinity())
+    return I(x, x, true);
   T tk(k);
   I y(static_cast<T>(1), x, true);
   for(;;) {
-- 
2.43.0


From 8ab0ca73db2ed802948e60dab332722c41cdbdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 04/15] fix: keep-upward policy rounds odd functions and acosh
 down, not up

-f(x) in upward mode was negated after the call; f(-x) is the value that must be rounded up.
---
 include/boost/numeric/interval/rounded_transc.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_transc.hpp b/include/boost/numeric/interval/rounded_transc.hpp
index ef6e28b..666eac1 100644
--- a/include/boost/numeric/interval/rounded_transc.hpp
+++ b/include/boost/numeric/interval/rounded_transc.hpp
@@ -100,7 +100,7 @@ struct rounded_transc_opp: Rounding
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
       return this->force_rounding(f(x)); }
@@ -119,17 +119,17 @@ struct rounded_transc_opp: Rounding
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
-  BOOST_NUMERIC_INTERVAL_new_func(asinh)
-  BOOST_NUMERIC_INTERVAL_new_func(atanh)
+  BOOST_NUMERIC_INTERVAL_new_func(acosh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
-  BOOST_NUMERIC_INTERVAL_new_func(acosh)
+  BOOST_NUMERIC_INTERVAL_new_func(asinh)
+  BOOST_NUMERIC_INTERVAL_new_func(atanh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 };
   
-- 
2.43.0


From 25037ff45830032b2bfee6528d0d66136a9c5f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 05/15] fix: long double is rounded to an integral value
 without going through double

---
 .../boost/numeric/interval/detail/c99sub_rounding_control.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
index a8684df..00084c9 100644
--- a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
@@ -18,7 +18,7 @@ namespace numeric {
 namespace interval_lib {
 namespace detail {
 
-extern "C" { double rint(double); }
+extern "C" { double rint(double); long double rintl(long double); }
 
 struct c99_rounding_control
 {
@@ -33,6 +33,7 @@ struct c99_rounding_control
 
   template<class T>
   static T to_int(const T& r) { return rint(r); }
+  static long double to_int(const long double& r) { return rintl(r); }
 };
 
 } // namespace detail
-- 
2.43.0


From a893f24791c4960c2b9357fe3e10e657d6f87e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 06/15] fix: numeric_limits<interval>::signaling_NaN misspelled
 a member of the base class

---
 include/boost/numeric/interval/limits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index ce080dd..7004ccc 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -36,7 +36,7 @@ public:
   static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
   static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
   static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
-  { return I(bl::signaling_NaN(), bl::signaling_Nan()); }
+  { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
   static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
   { return I(bl::denorm_min(), bl::denorm_min()); }
 private:
-- 
2.43.0


From 24b6a73a6d7331b601e5d2e7e8555aa2da0c445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 07/15] fix: integer operands that the base type cannot
 represent are enclosed

operator op(interval<float>, int) rounded the integer to nearest before the operation.
---
 include/boost/numeric/interval/ext/integer.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/numeric/interval/ext/integer.hpp b/include/boost/numeric/interval/ext/integer.hpp
index 628a343..a98301b 100644
--- a/include/boost/numeric/interval/ext/integer.hpp
+++ b/include/boost/numeric/interval/ext/integer.hpp
@@ -19,49 +19,49 @@ namespace numeric {
 template<class T, class Policies> inline
 interval<T, Policies> operator+ (const interval<T, Policies>& x, int y)
 {
-  return x + static_cast<T>(y);
+  return x + interval<T, Policies>(y);
 }
 
 template<class T, class Policies> inline
 interval<T, Policies> operator+ (int x, const interval<T, Policies>& y)
 {
-  return static_cast<T>(x) + y;
+  return interval<T, Policies>(x) + y;
 }
 
 template<class T, class Policies> inline
 interval<T, Policies> operator- (const interval<T, Policies>& x, int y)
 {
-  return x - static_cast<T>(y);
+  return x - interval<T, Policies>(y);
 }
 
 template<class T, class Policies> inline
 interval<T, Policies> operator- (int x, const interval<T, Policies>& y)
 {
-  return static_cast<T>(x) - y;
+  return interval<T, Policies>(x) - y;
 }
 
 template<class T, class Policies> inline
 interval<T, Policies> operator* (const interval<T, Policies>& x, int y)
 {
-  return x * static_cast<T>(y);
+  return x * interval<T, Policies>(y);
 }
 
 template<class T, class Policies> inline
 interval<T, Policies> operator* (int x, const interval<T, Policies>& y)
 {
-  return static_cast<T>(x) * y;
+  return interval<T, Policies>(x) * y;
 }
 
 template<class T, class Policies> inline
 interval<T, Policies> operator/ (const interval<T, Policies>& x, int y)
 {
-  return x / static_cast<T>(y);
+  return x / interval<T, Policies>(y);
 }
 
 template<class T, class Policies> inline
 interval<T, Policies> operator/ (int x, const interval<T, Policies>& y)
 {
-  return static_cast<T>(x) / y;
+  return interval<T, Policies>(x) / y;
 }
 
 } // namespace numeric
-- 
2.43.0


From 978ced9bd7cc004a1b616c69fa526f9da5adbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:18 +0000
Subject: [PATCH 08/15] fix: use the std overloads of asinh, acosh and atanh
 where they exist

With libstdc++ the names were always taken from the global namespace, so
long double (and float) intervals evaluated the double functions.
---
 include/boost/numeric/interval/detail/bugs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/bugs.hpp b/include/boost/numeric/interval/detail/bugs.hpp
index e15bd0c..6044a98 100644
--- a/include/boost/numeric/interval/detail/bugs.hpp
+++ b/include/boost/numeric/interval/detail/bugs.hpp
@@ -25,7 +25,7 @@
 #else
 #  define BOOST_NUMERIC_INTERVAL_using_math(a) using std::a
 #  if defined(BOOST_HAS_INV_HYPERBOLIC)
-#    if defined(__GLIBCPP__) || defined(__GLIBCXX__)
+#    if (defined(__GLIBCPP__) || defined(__GLIBCXX__)) && __cplusplus < 201103L // no overloads in std
 #    define BOOST_NUMERIC_INTERVAL_using_ahyp(a) using ::a
 #    else
 #    define BOOST_NUMERIC_INTERVAL_using_ahyp(a) using std::a
-- 
2.43.0


From c6388b0c07f292ba4125db7ce764f7c2391e4cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 09/15] fix: numeric_limits<interval>::quiet_NaN may throw
 through the checking policy

The function was declared noexcept, so with the default (strict) checking policy the
documented exception for an empty interval became a call to std::terminate.
---
 include/boost/numeric/interval/limits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index 7004ccc..8666230 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -34,8 +34,8 @@ public:
   BOOST_STATIC_CONSTANT(bool, is_iec559 = false);
 
   static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
-  static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
-  static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
+  static I quiet_NaN() { return I::empty(); }   // may throw, depending on the checking policy
+  static I signaling_NaN()
   { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
   static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
   { return I(bl::denorm_min(), bl::denorm_min()); }
-- 
2.43.0


From f6be79384c03dfd74c5cca235a45ba2ceb27631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 10/15] fix: pow with the most negative exponent negated it,
 which overflows and recursed without end

---
 include/boost/numeric/interval/arith2.hpp | 24 +++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index e2aa908..201cfec 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -124,7 +124,7 @@ interval<T, Policies> multiplicative_inverse(const interval<T, Policies>& x)
 namespace detail {
 
 template<class T, class Rounding> inline
-T pow_dn(const T& x_, int pwr, Rounding& rnd) // x and pwr are positive
+T pow_dn(const T& x_, unsigned pwr, Rounding& rnd) // x and pwr are positive
 {
   T x = x_;
   T y = (pwr & 1) ? x_ : static_cast<T>(1);
@@ -138,7 +138,7 @@ T pow_dn(const T& x_, int pwr, Rounding& rnd) // x and pwr are positive
 }
 
 template<class T, class Rounding> inline
-T pow_up(const T& x_, int pwr, Rounding& rnd) // x and pwr are positive
+T pow_up(const T& x_, unsigned pwr, Rounding& rnd) // x and pwr are positive
 {
   T x = x_;
   T y = (pwr & 1) ? x_ : static_cast<T>(1);
@@ -151,11 +151,8 @@ T pow_up(const T& x_, int pwr, Rounding& rnd) // x and pwr are positive
   return y;
 }
 
-} // namespace detail
-} // namespace interval_lib
-
 template<class T, class Policies> inline
-interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
+interval<T, Policies> pow_aux(const interval<T, Policies>& x, unsigned pwr)
 {
   BOOST_USING_STD_MAX();
   using interval_lib::detail::pow_dn;
@@ -171,8 +168,6 @@ interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
       return I::empty();
     else
       return I(static_cast<T>(1));
-  else if (pwr < 0)
-    return interval_lib::multiplicative_inverse(pow(x, -pwr));
 
   typename Policies::rounding rnd;
   
@@ -194,6 +189,19 @@ interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
   }
 }
 
+} // namespace detail
+} // namespace interval_lib
+
+template<class T, class Policies> inline
+interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
+{
+  // the magnitude of the most negative exponent does not fit in an int
+  if (pwr < 0)
+    return interval_lib::multiplicative_inverse(
+             interval_lib::detail::pow_aux(x, 0u - static_cast<unsigned>(pwr)));
+  return interval_lib::detail::pow_aux(x, static_cast<unsigned>(pwr));
+}
+
 template<class T, class Policies> inline
 interval<T, Policies> sqrt(const interval<T, Policies>& x)
 {
-- 
2.43.0


From 6e00e910967574abcefdbd17e6c58363a1dbe8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 11/15] fix: nth_root ran its unprotected iteration without
 setting the rounding mode, and left it changed

---
 include/boost/numeric/interval/arith2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 201cfec..7940dec 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -283,6 +283,8 @@ interval<T, Policies> nth_root(interval<T, Policies> const &x, int k)
   if (interval_lib::detail::test_input(x)) return I::empty();
   assert(k > 0);
   if (k == 1) return x;
+  typename Policies::rounding rnd; // the unprotected computations below need it
+  (void)rnd;
   typedef typename interval_lib::unprotect<I>::type R;
   if (!interval_lib::user::is_pos(x.upper())) {
     if (interval_lib::user::is_zero(x.upper())) {
-- 
2.43.0


From 2feae92cb06405503fdb4cad00720fed61ae958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 12/15] fix: fmod when the quotient overflows

The downward rounded quotient is -inf when it overflows or when lower(x) is
-inf, and x - n * y had the bounds [+inf,+inf] or NaN, which excluded every
remainder.  The remainders are non-negative: return [0,+inf].
---
 include/boost/numeric/interval/arith2.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 7940dec..4a48b82 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/interval/arith.hpp>
 #include <boost/numeric/interval/policies.hpp>
 #include <algorithm>
+#include <limits>
 #include <cassert>
 #include <boost/config/no_tr1/cmath.hpp>
 
@@ -38,6 +39,9 @@ interval<T, Policies> fmod(const interval<T, Policies>& x,
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T const &yb = interval_lib::user::is_neg(x.lower()) ? y.lower() : y.upper();
   T n = rnd.int_down(rnd.div_down(x.lower(), yb));
+  if (std::numeric_limits<T>::has_infinity &&
+      n == -std::numeric_limits<T>::infinity()) // the quotient is too big
+    return interval<T, Policies>(static_cast<T>(0), std::numeric_limits<T>::infinity(), true);
   return (const I&)x - n * (const I&)y;
 }
 
@@ -49,6 +53,9 @@ interval<T, Policies> fmod(const interval<T, Policies>& x, const T& y)
   typename Policies::rounding rnd;
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T n = rnd.int_down(rnd.div_down(x.lower(), y));
+  if (std::numeric_limits<T>::has_infinity &&
+      n == -std::numeric_limits<T>::infinity()) // the quotient is too big
+    return interval<T, Policies>(static_cast<T>(0), std::numeric_limits<T>::infinity(), true);
   return (const I&)x - n * I(y);
 }
 
@@ -61,6 +68,9 @@ interval<T, Policies> fmod(const T& x, const interval<T, Policies>& y)
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T const &yb = interval_lib::user::is_neg(x) ? y.lower() : y.upper();
   T n = rnd.int_down(rnd.div_down(x, yb));
+  if (std::numeric_limits<T>::has_infinity &&
+      n == -std::numeric_limits<T>::infinity()) // the quotient is too big
+    return interval<T, Policies>(static_cast<T>(0), std::numeric_limits<T>::infinity(), true);
   return x - n * (const I&)y;
 }
 
-- 
2.43.0


From 8f87b455b4d319cf8c64073281c463e070e62437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 13/15] fix: sqrt of an interval ending at zero called
 sqrt_up(0), outside its documented domain ]0;+inf]

---
 include/boost/numeric/interval/arith2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 4a48b82..d786524 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -220,7 +220,8 @@ interval<T, Policies> sqrt(const interval<T, Policies>& x)
     return I::empty();
   typename Policies::rounding rnd;
   T l = !interval_lib::user::is_pos(x.lower()) ? static_cast<T>(0) : rnd.sqrt_down(x.lower());
-  return I(l, rnd.sqrt_up(x.upper()), true);
+  T u = !interval_lib::user::is_pos(x.upper()) ? static_cast<T>(0) : rnd.sqrt_up(x.upper());
+  return I(l, u, true);
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From cf1c2c5fd6952ba2674d39ee497238264cafc618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 14/15] fix: assigning an interval from its own lower bound
 lost the upper bound argument

---
 include/boost/numeric/interval/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index e89af48..6bde921 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -259,8 +259,9 @@ void interval<T, Policies>::assign(const T& l, const T& u)
 template<class T, class Policies> inline
 void interval<T, Policies>::set(const T& l, const T& u)
 {
+  T const v(u); // u may be a reference to low
   low = l;
-  up  = u;
+  up = v;
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From 47e7fe790d8d53a8c6dcbb0ab7dddd6f563f4b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:11 +0000
Subject: [PATCH 15/15] fix: fmod takes the infinite bound from the checking
 policy when the quotient overflows

---
 include/boost/numeric/interval/arith2.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index d786524..01b46dc 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -41,7 +41,7 @@ interval<T, Policies> fmod(const interval<T, Policies>& x,
   T n = rnd.int_down(rnd.div_down(x.lower(), yb));
   if (std::numeric_limits<T>::has_infinity &&
       n == -std::numeric_limits<T>::infinity()) // the quotient is too big
-    return interval<T, Policies>(static_cast<T>(0), std::numeric_limits<T>::infinity(), true);
+    return interval<T, Policies>(static_cast<T>(0), Policies::checking::pos_inf(), true);
   return (const I&)x - n * (const I&)y;
 }
 
@@ -55,7 +55,7 @@ interval<T, Policies> fmod(const interval<T, Policies>& x, const T& y)
   T n = rnd.int_down(rnd.div_down(x.lower(), y));
   if (std::numeric_limits<T>::has_infinity &&
       n == -std::numeric_limits<T>::infinity()) // the quotient is too big
-    return interval<T, Policies>(static_cast<T>(0), std::numeric_limits<T>::infinity(), true);
+    return interval<T, Policies>(static_cast<T>(0), Policies::checking::pos_inf(), true);
   return (const I&)x - n * I(y);
 }
 
@@ -70,7 +70,7 @@ interval<T, Policies> fmod(const T& x, const interval<T, Policies>& y)
   T n = rnd.int_down(rnd.div_down(x, yb));
   if (std::numeric_limits<T>::has_infinity &&
       n == -std::numeric_limits<T>::infinity()) // the quotient is too big
-    return interval<T, Policies>(static_cast<T>(0), std::numeric_limits<T>::infinity(), true);
+    return interval<T, Policies>(static_cast<T>(0), Policies::checking::pos_inf(), true);
   return x - n * (const I&)y;
 }
 
-- 
2.43.0

