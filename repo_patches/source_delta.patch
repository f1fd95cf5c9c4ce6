From ae540173b32e45fbf357feed67457c397eba738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 01/21] fix: division of an interval ending at zero by a
 divisor starting at zero

[a,0]/[0,b] and [a,0]/[b,0] (a<0) returned the whole line instead of the
smallest enclosing half-line.
---
 include/boost/numeric/interval/detail/division.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/detail/division.hpp b/include/boost/numeric/interval/detail/division.hpp
index 24fb025..dc0b7a4 100644
--- a/include/boost/numeric/interval/detail/division.hpp
+++ b/include/boost/numeric/interval/detail/division.hpp
@@ -75,7 +75,7 @@ interval<T, Policies> div_positive(const interval<T, Policies>& x, const T& yu)
   const T& xl = x.lower();
   const T& xu = x.upper();
   typedef typename Policies::checking checking;
-  if (::boost::numeric::interval_lib::user::is_neg(xu))
+  if (!::boost::numeric::interval_lib::user::is_pos(xu))
     return I(checking::neg_inf(), rnd.div_up(xu, yu), true);
   else if (::boost::numeric::interval_lib::user::is_neg(xl))
     return I(checking::neg_inf(), checking::pos_inf(), true);
@@ -110,7 +110,7 @@ interval<T, Policies> div_negative(const interval<T, Policies>& x, const T& yl)
   const T& xl = x.lower();
   const T& xu = x.upper();
   typedef typename Policies::checking checking;
-  if (::boost::numeric::interval_lib::user::is_neg(xu))
+  if (!::boost::numeric::interval_lib::user::is_pos(xu))
     return I(rnd.div_down(xu, yl), checking::pos_inf(), true);
   else if (::boost::numeric::interval_lib::user::is_neg(xl))
     return I(checking::neg_inf(), checking::pos_inf(), true);
-- 
2.43.0


From 3a6099a5072b3722875cd7f1328ea6aaeefe7f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 02/21] fix: division_part1 reported two pieces for a dividend
 starting at zero

The quotient set of [0,b] by an interval with zero in its interior is the whole
line, as it already was for [a,0]; the flag said that a second piece was needed.
---
 include/boost/numeric/interval/detail/division.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/division.hpp b/include/boost/numeric/interval/detail/division.hpp
index dc0b7a4..ad93f9d 100644
--- a/include/boost/numeric/interval/detail/division.hpp
+++ b/include/boost/numeric/interval/detail/division.hpp
@@ -166,7 +166,7 @@ interval<T, Policies> div_zero_part1(const interval<T, Policies>& x,
   typedef typename Policies::checking checking;
   if (::boost::numeric::interval_lib::user::is_neg(xu))
     { b = true;  return I(checking::neg_inf(), rnd.div_up(xu, yu), true); }
-  else if (::boost::numeric::interval_lib::user::is_neg(xl))
+  else if (!::boost::numeric::interval_lib::user::is_pos(xl))
     { b = false; return I(checking::neg_inf(), checking::pos_inf(), true); }
   else
     { b = true;  return I(checking::neg_inf(), rnd.div_up(xl, yl), true); }
-- 
2.43.0


From dde77d19a3c5360fe98a14cb7a6a7b2d007e0626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 03/21] fix: integer power recursed forever for the smallest
 int exponent

-pwr overflows for INT_MIN (undefined behaviour, in practice endless recursion).
---
 include/boost/numeric/interval/arith2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index eec87e0..49e0375 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -23,6 +23,7 @@
 #include <boost/numeric/interval/policies.hpp>
 #include <algorithm>
 #include <cassert>
+#include <climits>
 #include <boost/config/no_tr1/cmath.hpp>
 
 namespace boost {
@@ -171,6 +172,8 @@ interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
       return I::empty();
     else
       return I(static_cast<T>(1));
+  else if (pwr < -INT_MAX) // -pwr is not representable
+    return interval_lib::multiplicative_inverse(square(pow(x, -(pwr / 2))));
   else if (pwr < 0)
     return interval_lib::multiplicative_inverse(pow(x, -pwr));
 
-- 
2.43.0


From 8db2ff0b02be1dbb9c63bb952db8c748405de354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 04/21] fix: nth_root of an interval with an infinite bound

The Newton iteration computed inf - inf and returned NaN bounds; the same
happened for arguments so small that their inverse overflows.
---
 include/boost/numeric/interval/arith2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 49e0375..1d84d29 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -15,6 +15,7 @@
 #define BOOST_NUMERIC_INTERVAL_ARITH2_HPP
 
 #include <boost/config.hpp>
+#include <boost/limits.hpp>
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 #include <boost/numeric/interval/detail/bugs.hpp>
@@ -234,6 +235,8 @@ I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
   typedef typename I::base_type T;
   T tk(k);
   I y(static_cast<T>(1), x, true);
+  if (std::numeric_limits<T>::has_infinity && x == std::numeric_limits<T>::infinity())
+    return y; // the iteration would compute inf - inf
   for(;;) {
     T y0 = median(y);
     I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
-- 
2.43.0


From 05779e5f2a874345333e3e1ef82f11b9b6b5a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 05/21] fix: nth_root ran unprotected code without setting the
 rounding mode

Results were rounded to nearest (roots lost) and the processor was left in
another rounding mode.
---
 include/boost/numeric/interval/arith2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 1d84d29..b7b528c 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -279,6 +279,8 @@ interval<T, Policies> nth_root(interval<T, Policies> const &x, int k)
   if (interval_lib::detail::test_input(x)) return I::empty();
   assert(k > 0);
   if (k == 1) return x;
+  typename Policies::rounding rnd; // the unprotected computations below need it
+  (void)&rnd;
   typedef typename interval_lib::unprotect<I>::type R;
   if (!interval_lib::user::is_pos(x.upper())) {
     if (interval_lib::user::is_zero(x.upper())) {
-- 
2.43.0


From d9157112ee1b2bf7c2e8fbda7d5b7a745bf046e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 06/21] fix: integer rounding of long double went through
 double

rint(double) was used for long double too, so int_down and int_up (and fmod)
were wrong for values that need more than 53 bits.
---
 .../boost/numeric/interval/detail/c99sub_rounding_control.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
index a8684df..00084c9 100644
--- a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
@@ -18,7 +18,7 @@ namespace numeric {
 namespace interval_lib {
 namespace detail {
 
-extern "C" { double rint(double); }
+extern "C" { double rint(double); long double rintl(long double); }
 
 struct c99_rounding_control
 {
@@ -33,6 +33,7 @@ struct c99_rounding_control
 
   template<class T>
   static T to_int(const T& r) { return rint(r); }
+  static long double to_int(const long double& r) { return rintl(r); }
 };
 
 } // namespace detail
-- 
2.43.0


From f9ffbb52ce427e15e6c34167cdf70d4949b306b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 07/21] fix: interval::assign with a bound of the target itself

x.assign(a, x.lower()) overwrote the lower bound before reading it.
---
 include/boost/numeric/interval/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index e89af48..53ae9a6 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -253,7 +253,7 @@ void interval<T, Policies>::assign(const T& l, const T& u)
 {
   if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u))
     set_empty();
-  else set(l, u);
+  else *this = interval(l, u, true); // l and u may be bounds of *this
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From bd679e790fd489477205ec032f667f7a0015ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:23 +0000
Subject: [PATCH 08/21] fix: subset and the set comparisons did not accept
 intervals of different policies

---
 include/boost/numeric/interval/utility.hpp     | 6 +++---
 include/boost/numeric/interval/utility_fwd.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 8e784b8..7a097b1 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -120,9 +120,9 @@ bool in(const T& x, const interval<T, Policies>& y)
   return y.lower() <= x && x <= y.upper();
 }
 
-template<class T, class Policies> inline
-bool subset(const interval<T, Policies>& x,
-            const interval<T, Policies>& y)
+template<class T, class Policies1, class Policies2> inline
+bool subset(const interval<T, Policies1>& x,
+            const interval<T, Policies2>& y)
 {
   if (empty(x)) return true;
   return !empty(y) && y.lower() <= x.lower() && x.upper() <= y.upper();
diff --git a/include/boost/numeric/interval/utility_fwd.hpp b/include/boost/numeric/interval/utility_fwd.hpp
index 5fce06c..368affd 100644
--- a/include/boost/numeric/interval/utility_fwd.hpp
+++ b/include/boost/numeric/interval/utility_fwd.hpp
@@ -58,11 +58,11 @@ namespace boost { namespace numeric {
     template <class T, class Policies>
     bool in(const T& x, const interval<T,Policies>& y);
 
-    template <class T, class Policies>
+    template <class T, class Policies1, class Policies2>
     bool
         subset(
-            const interval<T,Policies>& x
-          , const interval<T,Policies>& y
+            const interval<T,Policies1>& x
+          , const interval<T,Policies2>& y
         );
 
     template <class T, class Policies1, class Policies2>
-- 
2.43.0


From 2df4af434568ad7ba6182c8058f71d8d7bedac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:57 +0000
Subject: [PATCH 09/21] fix: median overflowed for large bounds and was not a
 number for the whole line

---
 .../boost/numeric/interval/rounded_arith.hpp  | 42 ++++++++++++++-----
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index 4bb8691..c7aeeb8 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -12,6 +12,7 @@
 
 #include <boost/numeric/interval/rounding.hpp>
 #include <boost/numeric/interval/detail/bugs.hpp>
+#include <boost/limits.hpp>
 #include <boost/config/no_tr1/cmath.hpp>
 
 namespace boost {
@@ -47,10 +48,21 @@ struct rounded_arith_exact: Rounding {
   { BOOST_NUMERIC_INTERVAL_using_math(ceil); return ceil(x); }
 };
 
+namespace detail {
+
+template<class T> inline
+bool is_infinite(const T& x)
+{
+  return std::numeric_limits<T>::has_infinity &&
+         (x ==  std::numeric_limits<T>::infinity() ||
+          x == -std::numeric_limits<T>::infinity());
+}
+
+} // namespace detail
+
 template<class T, class Rounding>
 struct rounded_arith_std: Rounding {
 # define BOOST_DN(EXPR) this->downward();   return this->force_rounding(EXPR)
-# define BOOST_NR(EXPR) this->to_nearest(); return this->force_rounding(EXPR)
 # define BOOST_UP(EXPR) this->upward();     return this->force_rounding(EXPR)
   void init() { }
   template<class U> T conv_down(U const &v) { BOOST_DN(v); }
@@ -63,7 +75,15 @@ struct rounded_arith_std: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median(const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median(const T& x, const T& y)
+  {
+    if (x == -y) return static_cast<T>(0); // including the whole line
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if (detail::is_infinite(r)) // the sum may have overflowed
+      r = this->force_rounding(x / 2 + y / 2);
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -71,7 +91,6 @@ struct rounded_arith_std: Rounding {
   T int_down(const T& x) { this->downward(); return this->to_int(x); }
   T int_up  (const T& x) { this->upward();   return this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 };
   
@@ -83,11 +102,6 @@ struct rounded_arith_opp: Rounding {
     T r = this->force_rounding(EXPR); \
     this->upward(); \
     return r
-# define BOOST_NR(EXPR) \
-    this->to_nearest(); \
-    T r = this->force_rounding(EXPR); \
-    this->upward(); \
-    return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
   template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
@@ -100,7 +114,16 @@ struct rounded_arith_opp: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median  (const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median  (const T& x, const T& y)
+  {
+    if (x == -y) return static_cast<T>(0); // including the whole line
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if (detail::is_infinite(r)) // the sum may have overflowed
+      r = this->force_rounding(x / 2 + y / 2);
+    this->upward();
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -108,7 +131,6 @@ struct rounded_arith_opp: Rounding {
   T int_down(const T& x) { return -this->to_int(-x); }
   T int_up  (const T& x) { return  this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 # undef BOOST_UP_NEG
 };
-- 
2.43.0


From f27e253ee9c27a83c2a43000239dd76cf9749215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:36 +0000
Subject: [PATCH 10/21] fix: conversion of unsigned numbers and of the smallest
 integers to an interval

---
 include/boost/numeric/interval/rounded_arith.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index c7aeeb8..0eb4ddf 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -104,7 +104,7 @@ struct rounded_arith_opp: Rounding {
     return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
-  template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
+  template<class U> T conv_down(U const &v) { BOOST_DN(v); }
   template<class U> T conv_up  (U const &v) { BOOST_UP(v); }
   T add_down(const T& x, const T& y) { BOOST_UP_NEG((-x) - y); }
   T sub_down(const T& x, const T& y) { BOOST_UP_NEG(y - x); }
-- 
2.43.0


From c1178be969dc5d1837c4b131e50234c5d6eeb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:44 +0000
Subject: [PATCH 11/21] fix: interval from a pair of numbers of different types
 compared them inexactly

---
 include/boost/numeric/interval/interval.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index 53ae9a6..474bf3c 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -156,11 +156,15 @@ interval<T, Policies>::interval(T1 const &v)
 template<class T, class Policies> template<class T1, class T2> inline
 interval<T, Policies>::interval(T1 const &l, T2 const &u)
 {
-  if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u)) set_empty();
+  if (checking::is_nan(l) || checking::is_nan(u)) set_empty();
   else {
+    // this may compare in a type that cannot hold both numbers (int/unsigned)
+    const bool ordered = l <= u;
     rounding rnd;
     low = rnd.conv_down(l);
     up  = rnd.conv_up  (u);
+    if (!(low <= up) || (!ordered && !(rnd.conv_up(l) < rnd.conv_down(u))))
+      set_empty();
   }
 }
 
-- 
2.43.0


From 5caf12e2d3ec499ccd261d0574aadca1d3c36190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:13 +0000
Subject: [PATCH 12/21] fix: widen did not check its number argument: a NaN
 gave a malformed interval

---
 include/boost/numeric/interval/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 7a097b1..f2661ff 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -82,7 +82,7 @@ T median(const interval<T, Policies>& x)
 template<class T, class Policies> inline
 interval<T, Policies> widen(const interval<T, Policies>& x, const T& v)
 {
-  if (interval_lib::detail::test_input(x))
+  if (interval_lib::detail::test_input(x, v))
     return interval<T, Policies>::empty();
   typename Policies::rounding rnd;
   return interval<T, Policies>(rnd.sub_down(x.lower(), v),
-- 
2.43.0


From 774a035bda42db6785af44651eba7c1af1460733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 13/21] fix: single-mode transcendental layer returned upper
 bounds as lower bounds for odd functions and acosh

---
 include/boost/numeric/interval/rounded_transc.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_transc.hpp b/include/boost/numeric/interval/rounded_transc.hpp
index ef6e28b..666eac1 100644
--- a/include/boost/numeric/interval/rounded_transc.hpp
+++ b/include/boost/numeric/interval/rounded_transc.hpp
@@ -100,7 +100,7 @@ struct rounded_transc_opp: Rounding
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
       return this->force_rounding(f(x)); }
@@ -119,17 +119,17 @@ struct rounded_transc_opp: Rounding
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
-  BOOST_NUMERIC_INTERVAL_new_func(asinh)
-  BOOST_NUMERIC_INTERVAL_new_func(atanh)
+  BOOST_NUMERIC_INTERVAL_new_func(acosh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
-  BOOST_NUMERIC_INTERVAL_new_func(acosh)
+  BOOST_NUMERIC_INTERVAL_new_func(asinh)
+  BOOST_NUMERIC_INTERVAL_new_func(atanh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 };
   
-- 
2.43.0


From 47b0c9a6ab48c36abe9260bc0c91086ffc5a0af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:50 +0000
Subject: [PATCH 14/21] fix: numeric_limits::signaling_NaN of an interval did
 not compile

---
 include/boost/numeric/interval/limits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index ce080dd..7004ccc 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -36,7 +36,7 @@ public:
   static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
   static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
   static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
-  { return I(bl::signaling_NaN(), bl::signaling_Nan()); }
+  { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
   static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
   { return I(bl::denorm_min(), bl::denorm_min()); }
 private:
-- 
2.43.0


From 697adfbf7fc09e9cac5cd2f70d0fa37018b6fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 15/21] fix: numeric_limits NaN members of an interval
 terminated under policies forbidding empty intervals

---
 include/boost/numeric/interval/limits.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index 7004ccc..f75cb35 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -34,8 +34,9 @@ public:
   BOOST_STATIC_CONSTANT(bool, is_iec559 = false);
 
   static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
-  static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
-  static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
+  // these create an empty interval: the checking policy may throw
+  static I quiet_NaN() { return I::empty(); }
+  static I signaling_NaN()
   { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
   static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
   { return I(bl::denorm_min(), bl::denorm_min()); }
-- 
2.43.0


From 03625e8668ff67ca485a1a9bd943946302c9226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 16/21] fix: integer rounding of long double went through
 double on Sparc

---
 .../boost/numeric/interval/detail/sparc_rounding_control.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/sparc_rounding_control.hpp b/include/boost/numeric/interval/detail/sparc_rounding_control.hpp
index 2b08bec..88e557e 100644
--- a/include/boost/numeric/interval/detail/sparc_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/sparc_rounding_control.hpp
@@ -77,6 +77,7 @@ struct sparc_rounding_control
 extern "C" {
   float rintf(float);
   double rint(double);
+  long double rintl(long double);
 }
 
 template<>
@@ -100,7 +101,7 @@ struct rounding_control<long double>:
   detail::sparc_rounding_control
 {
   static const long double& force_rounding(const long double& x) { return x; }
-  static long double to_int(const long double& x) { return rint(x); }
+  static long double to_int(const long double& x) { return rintl(x); }
 };
 
 } // namespace interval_lib
-- 
2.43.0


From f78e2d7a186a64c74c9a21b8243d6166c8fead92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 17/21] fix: integer rounding of long double went through
 double on PowerPC without C99 headers

---
 include/boost/numeric/interval/detail/ppc_rounding_control.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/ppc_rounding_control.hpp b/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
index 87fe8ee..a9ffa98 100644
--- a/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
@@ -57,6 +57,7 @@ struct ppc_rounding_control
 extern "C" {
   float rintf(float);
   double rint(double);
+  long double rintl(long double);
 }
 #endif
 
@@ -86,7 +87,7 @@ struct rounding_control<long double>:
   detail::ppc_rounding_control
 {
   static const long double & force_rounding(const long double& r) { return r; }
-  static long double to_int(const long double& r) { return rint(r); }
+  static long double to_int(const long double& r) { return rintl(r); }
 };
 
 } // namespace interval_lib
-- 
2.43.0


From 11f5666e633448a2a33da561344e814d0f0db000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 18/21] fix: PowerPC rounding mode constants were narrowed in
 braces, which C++11 forbids

---
 include/boost/numeric/interval/detail/ppc_rounding_control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/ppc_rounding_control.hpp b/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
index a9ffa98..2507128 100644
--- a/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
@@ -24,7 +24,7 @@ namespace interval_lib {
 namespace detail {
 
 typedef union {
-   ::boost::long_long_type imode;
+   ::boost::ulong_long_type imode;
   double dmode;
 } rounding_mode_struct;
 
-- 
2.43.0


From 4208ae7562744bb0fdcd63c50083c34862b5ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 19/21] fix: division, inverse, abs, sin and cos did not
 compile unless the other function headers were included too

---
 include/boost/numeric/interval/arith.hpp   | 1 +
 include/boost/numeric/interval/utility.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/arith.hpp b/include/boost/numeric/interval/arith.hpp
index 0d598be..c12b21c 100644
--- a/include/boost/numeric/interval/arith.hpp
+++ b/include/boost/numeric/interval/arith.hpp
@@ -16,6 +16,7 @@
 #include <boost/numeric/interval/detail/bugs.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 #include <boost/numeric/interval/detail/division.hpp>
+#include <boost/numeric/interval/utility.hpp>
 #include <algorithm>
 
 namespace boost {
diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index f2661ff..06cfe41 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -12,6 +12,7 @@
 #define BOOST_NUMERIC_INTERVAL_UTILITY_HPP
 
 #include <boost/numeric/interval/utility_fwd.hpp>
+#include <boost/numeric/interval/arith.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 #include <boost/numeric/interval/detail/bugs.hpp>
 #include <algorithm>
-- 
2.43.0


From 5001df44e5cd07f92b3f79b4f33aa1589e4de15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 20/21] fix: comparison headers threw an incomplete type when
 included before interval/interval.hpp

---
 include/boost/numeric/interval/compare/certain.hpp       | 1 +
 include/boost/numeric/interval/compare/lexicographic.hpp | 1 +
 include/boost/numeric/interval/compare/possible.hpp      | 1 +
 include/boost/numeric/interval/compare/set.hpp           | 1 +
 include/boost/numeric/interval/compare/tribool.hpp       | 1 +
 5 files changed, 5 insertions(+)

diff --git a/include/boost/numeric/interval/compare/certain.hpp b/include/boost/numeric/interval/compare/certain.hpp
index 9232d5c..576e892 100644
--- a/include/boost/numeric/interval/compare/certain.hpp
+++ b/include/boost/numeric/interval/compare/certain.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_COMPARE_CERTAIN_HPP
 
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/interval.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 
 namespace boost {
diff --git a/include/boost/numeric/interval/compare/lexicographic.hpp b/include/boost/numeric/interval/compare/lexicographic.hpp
index 03f6036..7139c19 100644
--- a/include/boost/numeric/interval/compare/lexicographic.hpp
+++ b/include/boost/numeric/interval/compare/lexicographic.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_COMPARE_LEXICOGRAPHIC_HPP
 
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/interval.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 
 namespace boost {
diff --git a/include/boost/numeric/interval/compare/possible.hpp b/include/boost/numeric/interval/compare/possible.hpp
index 59bec31..2849837 100644
--- a/include/boost/numeric/interval/compare/possible.hpp
+++ b/include/boost/numeric/interval/compare/possible.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_COMPARE_POSSIBLE_HPP
 
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/interval.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 
 namespace boost {
diff --git a/include/boost/numeric/interval/compare/set.hpp b/include/boost/numeric/interval/compare/set.hpp
index 44f4d6e..0f29ac6 100644
--- a/include/boost/numeric/interval/compare/set.hpp
+++ b/include/boost/numeric/interval/compare/set.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_COMPARE_SET_HPP
 
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/interval.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 #include <boost/numeric/interval/utility.hpp>
 
diff --git a/include/boost/numeric/interval/compare/tribool.hpp b/include/boost/numeric/interval/compare/tribool.hpp
index 6e4a83e..1486cb2 100644
--- a/include/boost/numeric/interval/compare/tribool.hpp
+++ b/include/boost/numeric/interval/compare/tribool.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_COMPARE_TRIBOOL_HPP
 
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/interval.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 #include <boost/logic/tribool.hpp>
 
-- 
2.43.0


From 35e58b1c6a160861e7cbedbfd524e044d6243849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 21/21] fix: a global variable or type named square hid the
 function that pow calls

---
 include/boost/numeric/interval/arith2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index b7b528c..58b9010 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -156,6 +156,9 @@ T pow_up(const T& x_, int pwr, Rounding& rnd) // x and pwr are positive
 } // namespace detail
 } // namespace interval_lib
 
+template<class T, class Policies>
+interval<T, Policies> square(const interval<T, Policies>& x);
+
 template<class T, class Policies> inline
 interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
 {
-- 
2.43.0

