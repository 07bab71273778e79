From e40ddf83c9c0b9b35390c77e088cabcb2031ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 01/89] fix: the decimal size of 0 is 1 at every precision

---
 source/int.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/int.c b/source/int.c
index 24c3773..7b66235 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1299,7 +1299,7 @@ size_t lllog10(long long int x) {
     ++n;
   }
 
-  return n;
+  return ((n == 0) ? 1 : n);
 }
 
 /**
-- 
2.43.0


From cef5ec3026faa37902be68b7c5179df592e2e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 02/89] fix: sizes of the most negative integer are computed on
 its magnitude

---
 source/int.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/int.c b/source/int.c
index 7b66235..bbbcf96 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1251,10 +1251,12 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
 }
 
 // log2 function for long long int
-size_t lllog2(long long int x) {
+size_t lllog2(const long long int value) {
   size_t n = 0;
 
-  x = llabs(x);
+  // The magnitude of LLONG_MIN does not fit in a long long int.
+  unsigned long long int x = value < 0 ? -(unsigned long long int)value
+                                       : (unsigned long long int)value;
 
   while (x) {
     x >>= 1;
@@ -1289,10 +1291,12 @@ size_t osl_int_size_in_base_2(const int precision, const osl_int_t value) {
 }
 
 // log10 function for long long int
-size_t lllog10(long long int x) {
+size_t lllog10(const long long int value) {
   size_t n = 0;
 
-  x = llabs(x);
+  // The magnitude of LLONG_MIN does not fit in a long long int.
+  unsigned long long int x = value < 0 ? -(unsigned long long int)value
+                                       : (unsigned long long int)value;
 
   while (x) {
     x /= 10;
-- 
2.43.0


From e739087ce078468e9c22ca13c90909bc707ed90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 03/89] fix: osl_int_init_set_long(_long) initialises the GMP
 integer it sets

---
 source/int.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/int.c b/source/int.c
index bbbcf96..5a32cc6 100644
--- a/source/int.c
+++ b/source/int.c
@@ -492,6 +492,7 @@ void osl_int_init_set_long(const int precision, osl_int_t* const variable,
 #ifdef OSL_GMP_IS_HERE
   if (precision == OSL_PRECISION_MP) {
     OSL_malloc(variable->mp, void*, sizeof(mpz_t));
+    mpz_init(*variable->mp);
   }
 #endif
   osl_int_set_long(precision, variable, i);
@@ -508,6 +509,7 @@ void osl_int_init_set_long_long(const int precision, osl_int_t* const variable,
 #ifdef OSL_GMP_IS_HERE
   if (precision == OSL_PRECISION_MP) {
     OSL_malloc(variable->mp, void*, sizeof(mpz_t));
+    mpz_init(*variable->mp);
   }
 #endif
   osl_int_set_long_long(precision, variable, i);
-- 
2.43.0


From c9e26a8c8477327b934227d245b2eac199a6bab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 04/89] fix: adding the most negative value to a negative one
 reports its overflow

---
 source/int.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/int.c b/source/int.c
index 5a32cc6..146ea55 100644
--- a/source/int.c
+++ b/source/int.c
@@ -764,7 +764,7 @@ void osl_int_add(const int precision, osl_int_t* const variable,
         if (LONG_MAX - val1.sp < val2.sp)
           OSL_overflow("osl_int_add overflow");
       } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.sp - LONG_MIN < -val2.sp)
+        if (val2.sp < LONG_MIN - val1.sp)
           OSL_overflow("osl_int_add overflow");
       }
 #endif
@@ -777,7 +777,7 @@ void osl_int_add(const int precision, osl_int_t* const variable,
         if (LLONG_MAX - val1.dp < val2.dp)
           OSL_overflow("osl_int_add overflow");
       } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.dp - LLONG_MIN < -val2.dp)
+        if (val2.dp < LLONG_MIN - val1.dp)
           OSL_overflow("osl_int_add overflow");
       }
 #endif
@@ -811,7 +811,7 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
         if (LONG_MAX - value.sp < i)
           OSL_overflow("osl_int_add_si overflow");
       } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.sp - LONG_MIN < -i)
+        if (i < LONG_MIN - value.sp)
           OSL_overflow("osl_int_add_si overflow");
       }
 #endif
@@ -824,7 +824,7 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
         if (LLONG_MAX - value.dp < i)
           OSL_overflow("osl_int_add_si overflow");
       } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.dp - LLONG_MIN < -i)
+        if (i < LLONG_MIN - value.dp)
           OSL_overflow("osl_int_add_si overflow");
       }
 #endif
-- 
2.43.0


From c86f8b5a5ffb1a109913a7eb6371043de33ae812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 05/89] fix: negating or subtracting the most negative value
 reports its overflow only when there is one

---
 source/int.c | 57 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/source/int.c b/source/int.c
index 146ea55..fa4e533 100644
--- a/source/int.c
+++ b/source/int.c
@@ -855,16 +855,33 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
  */
 void osl_int_sub(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
+  switch (precision) {
+    case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if ((val2.sp > 0 && val1.sp < LONG_MIN + val2.sp) ||
+          (val2.sp < 0 && val1.sp > LONG_MAX + val2.sp))
+        OSL_overflow("osl_int_sub overflow");
+#endif
+      variable->sp = val1.sp - val2.sp;
+      break;
+
+    case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if ((val2.dp > 0 && val1.dp < LLONG_MIN + val2.dp) ||
+          (val2.dp < 0 && val1.dp > LLONG_MAX + val2.dp))
+        OSL_overflow("osl_int_sub overflow");
+#endif
+      variable->dp = val1.dp - val2.dp;
+      break;
+
 #ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    mpz_sub(*variable->mp, *val1.mp, *val2.mp);
-  } else
-#endif
-  {
-    osl_int_t mval2;
-    osl_int_init(precision, &mval2);
-    osl_int_oppose(precision, &mval2, val2);
-    osl_int_add(precision, variable, val1, mval2);
+    case OSL_PRECISION_MP:
+      mpz_sub(*variable->mp, *val1.mp, *val2.mp);
+      break;
+#endif
+
+    default:
+      OSL_error("unknown precision");
   }
 }
 
@@ -1176,6 +1193,12 @@ void osl_int_lcm(const int precision, osl_int_t* const lcm, const osl_int_t a,
   osl_int_t gcd;
   osl_int_t pa, pb;
 
+  // The magnitude of the other operand may not fit, and is not needed.
+  if (osl_int_zero(precision, a) || osl_int_zero(precision, b)) {
+    osl_int_set_si(precision, lcm, 0);
+    return;
+  }
+
   osl_int_init(precision, &gcd);
   osl_int_init(precision, &pa);
   osl_int_init(precision, &pb);
@@ -1206,10 +1229,18 @@ void osl_int_oppose(const int precision, osl_int_t* const variable,
                     const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp == LONG_MIN)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->sp = -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp == LLONG_MIN)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->dp = -value.dp;
       break;
 
@@ -1234,10 +1265,18 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
                  const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp == LONG_MIN)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->sp = (value.sp > 0) ? value.sp : -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp == LLONG_MIN)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->dp = (value.dp > 0) ? value.dp : -value.dp;
       break;
 
-- 
2.43.0


From 83e24e9a5b1ff0bd90897bd909ba1b8e30f81bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 06/89] fix: detect multiplication overflow before multiplying

---
 source/int.c | 49 +++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/source/int.c b/source/int.c
index fa4e533..d38ba73 100644
--- a/source/int.c
+++ b/source/int.c
@@ -70,6 +70,8 @@
 #include <osl/macros.h>
 
 static long long int llgcd(long long int, long long int);
+static int llmul_overflows(long long int, long long int, long long int,
+                           long long int);
 static size_t lllog2(long long int);
 static size_t lllog10(long long int);
 
@@ -885,6 +887,17 @@ void osl_int_sub(const int precision, osl_int_t* const variable,
   }
 }
 
+// Tells whether a * b lies outside [min, max], without computing the product:
+// a signed product which overflows is undefined.
+int llmul_overflows(const long long int a, const long long int b,
+                    const long long int min, const long long int max) {
+  if (a == 0 || b == 0)
+    return 0;
+  if (a > 0)
+    return (b > 0) ? (a > max / b) : (b < min / a);
+  return (b > 0) ? (a < min / b) : (b < max / a);
+}
+
 /**
  * \brief variable = val1 * val2
  * \param[in] precision Precision of the osl int
@@ -896,25 +909,19 @@ void osl_int_mul(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = val1.sp * val2.sp;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->sp / val2.sp != val1.sp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+      if (llmul_overflows(val1.sp, val2.sp, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      variable->sp = val1.sp * val2.sp;
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = val1.dp * val2.dp;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->dp / val2.dp != val1.dp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+      if (llmul_overflows(val1.dp, val2.dp, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      variable->dp = val1.dp * val2.dp;
       break;
 
 #ifdef OSL_GMP_IS_HERE
@@ -939,25 +946,19 @@ void osl_int_mul_si(const int precision, osl_int_t* const variable,
                     const osl_int_t value, const int i) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = value.sp * (long int)i;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->sp / (long int)i != value.sp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+      if (llmul_overflows(value.sp, i, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      variable->sp = value.sp * (long int)i;
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = value.dp * (long long int)i;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->dp / (long long int)i != value.dp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+      if (llmul_overflows(value.dp, i, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      variable->dp = value.dp * (long long int)i;
       break;
 
 #ifdef OSL_GMP_IS_HERE
-- 
2.43.0


From ce182faac2c1edf24d83d5e1c1c9f2bdaed8aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 07/89] fix: remainders, gcd and divisibility by -1 of the most
 negative value

---
 source/int.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/source/int.c b/source/int.c
index d38ba73..774f3d3 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1060,11 +1060,19 @@ void osl_int_floor_div_r(const int precision, osl_int_t* const r,
                          const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+      if (b.sp == -1) {
+        r->sp = 0;
+        return;
+      }
       osl_int_floor_div_q(precision, r, a, b);
       r->sp = a.sp - r->sp * b.sp;
       return;
 
     case OSL_PRECISION_DP:
+      if (b.dp == -1) {
+        r->dp = 0;
+        return;
+      }
       osl_int_floor_div_q(precision, r, a, b);
       r->dp = a.dp - r->dp * b.dp;
       return;
@@ -1125,15 +1133,15 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      mod->sp = a.sp % b.sp;
+      mod->sp = (b.sp == -1) ? 0 : a.sp % b.sp;
       if (mod->sp < 0)
-        mod->sp += labs(b.sp);
+        mod->sp = (b.sp < 0) ? mod->sp - b.sp : mod->sp + b.sp;
       return;
 
     case OSL_PRECISION_DP:
-      mod->dp = a.dp % b.dp;
+      mod->dp = (b.dp == -1) ? 0 : a.dp % b.dp;
       if (mod->dp < 0)
-        mod->dp += llabs(b.dp);
+        mod->dp = (b.dp < 0) ? mod->dp - b.dp : mod->dp + b.dp;
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1149,7 +1157,8 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
 
 // gcd (greatest common divisor) for long long int
 long long int llgcd(const long long int a, const long long int b) {
-  return (b ? llgcd(b, a % b) : a);
+  // LLONG_MIN % -1 traps.
+  return (b ? llgcd(b, (b == -1) ? 0 : a % b) : a);
 }
 
 /**
@@ -1642,10 +1651,10 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
                       const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      return ((val1.sp % val2.sp) == 0);
+      return (val2.sp == -1 || (val1.sp % val2.sp) == 0);
 
     case OSL_PRECISION_DP:
-      return ((val1.dp % val2.dp) == 0);
+      return (val2.dp == -1 || (val1.dp % val2.dp) == 0);
 
 #ifdef OSL_GMP_IS_HERE
     case OSL_PRECISION_MP:
-- 
2.43.0


From 449fe447086c5af7f6a0356f46f48a03c70d5ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 08/89] fix: changing the precision of an integer keeps values
 wider than an int

---
 source/int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/int.c b/source/int.c
index 774f3d3..c60bdc0 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1679,8 +1679,8 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
 void osl_int_set_precision(const int precision, const int new_precision,
                            osl_int_t* const i) {
   if (i != NULL && precision != new_precision) {
-    int v = osl_int_get_si(precision, *i);  // TODO Fix to avoid overflow
+    const long long int v = osl_int_get_long_long(precision, *i);
     osl_int_clear(precision, i);
-    osl_int_init_set_si(new_precision, i, v);
+    osl_int_init_set_long_long(new_precision, i, v);
   }
 }
-- 
2.43.0


From a9f2ab082552f0568a12bf58b4ef7cfefeb1b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 09/89] fix: reading an integer consumes its text, and reports
 end of text and overflow

---
 source/int.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/int.c b/source/int.c
index c60bdc0..f04719a 100644
--- a/source/int.c
+++ b/source/int.c
@@ -58,6 +58,7 @@
  *                                                                            *
  ******************************************************************************/
 
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -685,19 +686,26 @@ void osl_int_sprint_txt(char* const string, const int precision,
 int osl_int_sscanf(const char* const string, const int precision,
                    osl_int_t* const i) {
   int nb_read = 0;
+  int length = 0;
 
   switch (precision) {
     case OSL_PRECISION_SP:
-      nb_read = sscanf(string, OSL_FMT_TXT_SP, &(i->sp));
+      errno = 0;
+      nb_read = sscanf(string, OSL_FMT_TXT_SP "%n", &(i->sp), &length);
+      if (errno == ERANGE)
+        OSL_overflow("osl_int_sscanf overflow");
       break;
 
     case OSL_PRECISION_DP:
-      nb_read = sscanf(string, OSL_FMT_TXT_DP, &(i->dp));
+      errno = 0;
+      nb_read = sscanf(string, OSL_FMT_TXT_DP "%n", &(i->dp), &length);
+      if (errno == ERANGE)
+        OSL_overflow("osl_int_sscanf overflow");
       break;
 
 #ifdef OSL_GMP_IS_HERE
     case OSL_PRECISION_MP: {
-      nb_read = gmp_sscanf(string, "%lZd", i->mp);
+      nb_read = gmp_sscanf(string, "%lZd%n", i->mp, &length);
       break;
     }
 #endif
@@ -706,11 +714,11 @@ int osl_int_sscanf(const char* const string, const int precision,
       OSL_error("unknown precision");
   }
 
-  if (nb_read == 0) {
+  if (nb_read != 1) {
     OSL_error("failed to read an integer");
   }
 
-  return nb_read;
+  return length;
 }
 
 /**
-- 
2.43.0


From 45c172e5ed0596b22bd093cb6b07de52b523f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 10/89] fix: comparing a vector with an absent one answers
 false instead of crashing

---
 source/vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/vector.c b/source/vector.c
index 7bce599..b456811 100644
--- a/source/vector.c
+++ b/source/vector.c
@@ -319,6 +319,9 @@ int osl_vector_equal(const osl_vector_t* const v1,
   if (v1 == v2)
     return 1;
 
+  if ((v1 == NULL) || (v2 == NULL))
+    return 0;
+
   if ((v1->size != v2->size) || (v1->precision != v2->precision))
     return 0;
 
-- 
2.43.0


From d638b1d68b339cf192c71e370a112b4fe1eb9360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 11/89] fix: skip the whole of a comment line longer than
 OSL_MAX_STRING

---
 source/util.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/util.c b/source/util.c
index 9e08028..52011a2 100644
--- a/source/util.c
+++ b/source/util.c
@@ -86,12 +86,18 @@
  */
 char* osl_util_skip_blank_and_comments(FILE* file, char* str) {
   char* start;
+  int c;
 
   do {
     start = fgets(str, OSL_MAX_STRING, file);
     while ((start != NULL) && isspace(*start) && (*start != '\n'))
       start++;
-  } while (start != NULL && (*start == '#' || *start == '\n'));
+    // The end of a comment which does not fit in str is a comment as well.
+    if ((start != NULL) && (*start == '#') && (strchr(start, '\n') == NULL))
+      while (((c = fgetc(file)) != EOF) && (c != '\n'))
+        ;
+  } while (start != NULL &&
+           (*start == '#' || *start == '\n' || *start == '\0'));
 
   return start;
 }
-- 
2.43.0


From 3f79c026505a9439902da8f47cc4ff558cc55311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 12/89] fix: ends of input and long words when reading
 integers, strings, lines and tags

---
 source/util.c | 82 +++++++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/source/util.c b/source/util.c
index 52011a2..5dccf7d 100644
--- a/source/util.c
+++ b/source/util.c
@@ -59,6 +59,8 @@
  ******************************************************************************/
 
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -136,9 +138,8 @@ void osl_util_sskip_blank_and_comments(char** str) {
  * \return The int that has been read.
  */
 int osl_util_read_int(FILE* file, char** str) {
-  char s[OSL_MAX_STRING], *start;
-  int res;
-  int i = 0;
+  char s[OSL_MAX_STRING], *start, *end;
+  long res;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
@@ -146,22 +147,25 @@ int osl_util_read_int(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %d", &res) != 1)
-      OSL_error("an int was expected");
+    if (start == NULL)
+      OSL_error("an int was expected, not the end of the file");
   } else {
     // Parse from a string.
     // Skip blank/commented lines.
     osl_util_sskip_blank_and_comments(str);
-
-    // Build the chain to analyze.
-    while (**str && !isspace(**str) && **str != '\n' && **str != '#')
-      s[i++] = *((*str)++);
-    s[i] = '\0';
-    if (sscanf(s, "%d", &res) != 1)
-      OSL_error("an int was expected");
+    start = *str;
+    while (**str && !isspace(**str) && **str != '#')
+      (*str)++;
   }
 
-  return res;
+  if (isspace(*start))
+    OSL_error("an int was expected");
+  errno = 0;
+  res = strtol(start, &end, 10);
+  if ((end == start) || (errno != 0) || (res < INT_MIN) || (res > INT_MAX))
+    OSL_error("an int was expected");
+
+  return (int)res;
 }
 
 /**
@@ -177,31 +181,33 @@ int osl_util_read_int(FILE* file, char** str) {
 char* osl_util_read_string(FILE* file, char** str) {
   char s[OSL_MAX_STRING], *start;
   char* res;
-  int i = 0;
+  size_t size = 0;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
 
-  OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %s", res) != 1)
-      OSL_error("a string was expected");
+    if (start == NULL)
+      OSL_error("a string was expected, not the end of the file");
+    while (start[size] && !isspace(start[size]))
+      size++;
   } else {
     // Parse from a string.
     // Skip blank/commented lines.
     osl_util_sskip_blank_and_comments(str);
-
-    // Build the chain to analyze.
-    while (**str && !isspace(**str) && **str != '\n' && **str != '#')
-      s[i++] = *((*str)++);
-    s[i] = '\0';
-    if (sscanf(s, "%s", res) != 1)
-      OSL_error("a string was expected");
+    start = *str;
+    while (start[size] && !isspace(start[size]) && start[size] != '#')
+      size++;
+    *str += size;
   }
+  if (size == 0)
+    OSL_error("a string was expected");
 
-  OSL_realloc(res, char*, strlen(res) + 1);
+  OSL_malloc(res, char*, (size + 1) * sizeof(char));
+  strncpy(res, start, size);
+  res[size] = '\0';
   return res;
 }
 
@@ -220,26 +226,30 @@ char* osl_util_read_string(FILE* file, char** str) {
 char* osl_util_read_line(FILE* file, char** str) {
   char s[OSL_MAX_STRING], *start;
   char* res;
-  int i = 0;
+  size_t size = 0;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
 
-  OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    while (*start && *start != '\n' && *start != '#' && i < OSL_MAX_STRING)
-      res[i++] = *start++;
+    if (start == NULL)
+      OSL_error("a line was expected, not the end of the file");
   } else {
     // Parse from a string.
     osl_util_sskip_blank_and_comments(str);
-    while (**str && **str != '\n' && **str != '#' && i < OSL_MAX_STRING)
-      res[i++] = *((*str)++);
+    start = *str;
   }
 
-  res[i] = '\0';
-  OSL_realloc(res, char*, strlen(res) + 1);
+  while (start[size] && start[size] != '\n' && start[size] != '#')
+    size++;
+  if (str != NULL)
+    *str += size;
+
+  OSL_malloc(res, char*, (size + 1) * sizeof(char));
+  strncpy(res, start, size);
+  res[size] = '\0';
   return res;
 }
 
@@ -274,7 +284,7 @@ char* osl_util_read_tag(FILE* file, char** str) {
   }
 
   // If the end of the input has been reached, return NULL.
-  if (((file != NULL) && (feof(file))) || ((str != NULL) && (**str == '\0')))
+  if ((*str == NULL) || (**str == '\0'))
     return NULL;
 
   // Pass the starting '<'.
@@ -284,9 +294,11 @@ char* osl_util_read_tag(FILE* file, char** str) {
 
   // Read the tag.
   OSL_malloc(res, char*, (OSL_MAX_STRING + 1) * sizeof(char));
-  res[OSL_MAX_STRING] = '\0';
+  res[0] = '\0';
 
   while (**str && **str != '>') {
+    if (i >= OSL_MAX_STRING)
+      OSL_error("tag name too long");
     if (((**str >= 'A') && (**str <= 'Z')) ||
         ((**str >= 'a') && (**str <= 'z')) || ((**str == '/') && (i == 0)) ||
         (**str == '_')) {
-- 
2.43.0


From d0b4ce806d44351d2ed2084f120a97e13cddd5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 13/89] fix: tag_content with an empty content or no newline
 after the tag

---
 source/util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/util.c b/source/util.c
index 5dccf7d..faa653b 100644
--- a/source/util.c
+++ b/source/util.c
@@ -445,6 +445,8 @@ char* osl_util_tag_content(const char* str, const char* name) {
     if (!*start)
       return NULL;
     start += lentag;
+    if (*start == '\n')
+      ++start;
     stop = start;
     lentag = strlen(endtag);
     for (size = 0; *stop && strncmp(stop, endtag, lentag); ++stop, ++size)
@@ -456,7 +458,7 @@ char* osl_util_tag_content(const char* str, const char* name) {
     OSL_malloc(res, char*, (size + 1) * sizeof(char));
 
     // Copy the chain between the two tags.
-    for (++start, i = 0; start != stop; ++start, ++i)
+    for (i = 0; start != stop; ++start, ++i)
       res[i] = *start;
     res[i] = '\0';
   }
-- 
2.43.0


From bbf0e5b9a6b3196c3bc12826fd61acf47b93b2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 14/89] fix: generics with a missing end tag, leak of the tag
 name

---
 source/generic.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index 8e878c4..8d823b1 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -264,10 +264,13 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   tag = osl_util_read_tag(NULL, input);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
   content = osl_util_read_uptoendtag(NULL, input, tag);
+  if (content == NULL)
+    OSL_error("the end tag of a generic is missing");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -306,10 +309,13 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   tag = osl_util_read_tag(file, NULL);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
   content = osl_util_read_uptoendtag(file, NULL, tag);
+  if (content == NULL)
+    OSL_error("the end tag of a generic is missing");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
-- 
2.43.0


From 5ae2fa7319173542c2263a6f6fb8527245ba4d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 15/89] fix: the content of a generic does not start with the
 newline of its tag

---
 source/generic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index 8d823b1..0212ca5 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -274,6 +274,8 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
+  if (*temp == '\n')  // The end of the line of the tag is not a part of the content.
+    temp++;
   if (interface == NULL) {
     OSL_warning("unsupported generic");
     fprintf(stderr, "[osl] Warning: unknown URI \"%s\".\n", tag);
-- 
2.43.0


From ceccbfd84bf8546639e873290102c34e251fe0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 16/89] fix: missing end tag of a scop

---
 source/generic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index 0212ca5..58567d4 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -350,6 +350,8 @@ osl_generic_t* osl_generic_read(FILE* const file,
   osl_generic_p generic_list;
 
   generic_string = osl_util_read_uptoendtag(file, NULL, OSL_URI_SCOP);
+  if (generic_string == NULL)
+    OSL_error("the end tag of the scop is missing");
   temp = generic_string;
   generic_list = osl_generic_sread(&temp, registry);
   free(generic_string);
-- 
2.43.0


From 0423b114c8a7c18f0f021c6c9399b7e87fcd187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 17/89] fix: printing strings longer than OSL_MAX_STRING

---
 source/strings.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 6885b3a..2483b0e 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -134,8 +134,7 @@ char* osl_strings_sprint(const osl_strings_t* strings) {
 
   if (strings != NULL) {
     for (i = 0; i < osl_strings_size(strings); i++) {
-      sprintf(buffer, "%s", strings->string[i]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, strings->string[i], &high_water_mark);
       if (i < osl_strings_size(strings) - 1)
         osl_util_safe_strcat(&string, " ", &high_water_mark);
     }
-- 
2.43.0


From 8960c604df6a7aae074f2508af9fa310fba40f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 18/89] fix: reading strings separated by several blanks, long
 ones or up to the end

---
 source/strings.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 2483b0e..a1d4c33 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -182,11 +182,10 @@ void osl_strings_print(FILE* const file, const osl_strings_t* const strings) {
  * \return A pointer to the strings structure that has been read.
  */
 osl_strings_t* osl_strings_sread(char** const input) {
-  char tmp[OSL_MAX_STRING];
   char* s;
   char** string = NULL;
   size_t i, nb_strings;
-  int count;
+  size_t count;
   osl_strings_p strings = NULL;
 
   // Skip blank/commented lines and spaces before the strings.
@@ -216,13 +215,17 @@ osl_strings_t* osl_strings_sread(char** const input) {
     // Read the desired number of strings.
     s = *input;
     for (i = 0; i < nb_strings; i++) {
-      for (count = 0; *s && !isspace(*s) && *s != '#'; count++)
-        tmp[count] = *(s++);
-      tmp[count] = '\0';
-      OSL_strdup(string[i], tmp);
-      if (*s != '#')
+      while (isspace(*s))
         s++;
+      for (count = 0; s[count] && !isspace(s[count]) && s[count] != '#';)
+        count++;
+      OSL_malloc(string[i], char*, (count + 1) * sizeof(char));
+      strncpy(string[i], s, count);
+      string[i][count] = '\0';
+      s += count;
     }
+    if (*s && *s != '#')
+      s++;
 
     // Update the input pointer to the end of the strings structure.
     *input = s;
-- 
2.43.0


From e072c2b42bce0d601537fd4d762018ecd4a996f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 19/89] fix: reading strings from a long line or at the end of
 a file

---
 source/strings.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index a1d4c33..22d865e 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -249,11 +249,24 @@ osl_strings_t* osl_strings_sread(char** const input) {
  * \return The strings structure that has been read.
  */
 osl_strings_t* osl_strings_read(FILE* const file) {
-  char buffer[OSL_MAX_STRING], *start;
+  size_t high_water_mark = OSL_MAX_STRING;
+  char buffer[OSL_MAX_STRING], *start, *line, *temp;
   osl_strings_p strings;
 
   start = osl_util_skip_blank_and_comments(file, buffer);
-  strings = osl_strings_sread(&start);
+  if (start == NULL)
+    return NULL;
+
+  // Get the whole line, even if it does not fit in the buffer.
+  OSL_malloc(line, char*, high_water_mark * sizeof(char));
+  strcpy(line, start);
+  while ((strchr(start, '\n') == NULL) &&
+         ((start = fgets(buffer, OSL_MAX_STRING, file)) != NULL))
+    osl_util_safe_strcat(&line, start, &high_water_mark);
+
+  temp = line;
+  strings = osl_strings_sread(&temp);
+  free(line);
 
   return strings;
 }
-- 
2.43.0


From e15185e8b4923f2fa80990c73e007778f363b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 20/89] fix: comments of relations with long names or many
 columns

---
 source/relation.c | 52 ++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 426343f..5609713 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -272,13 +272,14 @@ void osl_relation_dump(FILE* const file, const osl_relation_t* const relation) {
 char* osl_relation_expression_element(const osl_int_t val, int precision,
                                       int* const first, int cst,
                                       const char* const name) {
-  char *temp, *body, *sval;
+  char *temp, *sval;
 
-  OSL_malloc(temp, char*, OSL_MAX_STRING * sizeof(char));
-  OSL_malloc(body, char*, OSL_MAX_STRING * sizeof(char));
-  OSL_malloc(sval, char*, OSL_MAX_STRING * sizeof(char));
+  size_t size = strlen(name) +
+                (size_t)osl_int_size_in_base_10(precision, val) + 8;
+
+  OSL_malloc(temp, char*, size * sizeof(char));
+  OSL_malloc(sval, char*, size * sizeof(char));
 
-  body[0] = '\0';
   sval[0] = '\0';
 
   // statements for the 'normal' processing.
@@ -324,7 +325,6 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
     }
   }
   free(temp);
-  free(body);
 
   return (sval);
 }
@@ -418,8 +418,9 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
   int i, first = 1, constant;
   char* sval;
   char* sline;
+  size_t high_water_mark = OSL_MAX_STRING;
 
-  OSL_malloc(sline, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(sline, char*, high_water_mark * sizeof(char));
   sline[0] = '\0';
 
   // Create the expression. The constant is a special case.
@@ -441,7 +442,7 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
       osl_int_oppose(relation->precision, &relation->m[row][i],
                      relation->m[row][i]);
     }
-    strcat(sline, sval);
+    osl_util_safe_strcat(&sline, sval, &high_water_mark);
     free(sval);
   }
 
@@ -545,8 +546,8 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
 
     expression = osl_relation_subexpression(
         relation, row, 1, relation->nb_output_dims, sign < 0, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
@@ -555,20 +556,21 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
-      snprintf(buffer, OSL_MAX_STRING, " == %s", expression);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string, expression, &high_water_mark);
       free(expression);
     } else {
-      snprintf(buffer, OSL_MAX_STRING, " == %s",
-               arrays[osl_relation_get_array_id(relation) - 1]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string,
+                           arrays[osl_relation_get_array_id(relation) - 1],
+                           &high_water_mark);
     }
   } else {
     // Second case : general case.
 
     expression = osl_relation_expression(relation, row, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     if (osl_int_zero(relation->precision, relation->m[row][0]))
@@ -602,7 +604,10 @@ char* osl_relation_column_string(const osl_relation_t* relation,
   char* scolumn;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  i = 0;
+  while (strings[i] != NULL)
+    i++;
+  OSL_malloc(scolumn, char*, ((size_t)i + 2) * (OSL_FMT_LENGTH + 1));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -676,7 +681,10 @@ char* osl_relation_column_string_scoplib(const osl_relation_t* relation,
   char* scolumn;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  i = 0;
+  while (strings[i] != NULL)
+    i++;
+  OSL_malloc(scolumn, char*, ((size_t)i + 2) * (OSL_FMT_LENGTH + 1));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -835,8 +843,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
 
     if (relation->nb_rows > 0) {
       scolumn = osl_relation_column_string(relation, name_array);
-      snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, scolumn, &high_water_mark);
       free(scolumn);
     }
 
@@ -996,8 +1003,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // Print column names in comment
       if (relation->nb_rows > 0) {
         scolumn = osl_relation_column_string_scoplib(relation, name_array);
-        snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, scolumn, &high_water_mark);
         free(scolumn);
       }
 
-- 
2.43.0


From 851d4d6195dc4a2bf70b5bc20e05af81e202154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 21/89] fix: printing relations whose columns cannot be all
 named

---
 source/relation.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 5609713..b06f9c2 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -342,13 +342,39 @@ char** osl_relation_strings(const osl_relation_t* relation,
                             const osl_names_t* names) {
   char** strings;
   char temp[OSL_MAX_STRING];
-  int i, offset;
+  int i, offset, nb_iterators, nb_scattdims;
 
   if ((relation == NULL) || (names == NULL)) {
     OSL_debug("no names or relation to build the name array");
     return NULL;
   }
 
+  // Naming is possible only if the attributes describe all the columns and
+  // if there are enough names.
+  if (osl_relation_is_access(relation)) {
+    nb_scattdims = 0;
+    nb_iterators = relation->nb_input_dims;
+  } else if ((relation->type == OSL_TYPE_DOMAIN) ||
+             (relation->type == OSL_TYPE_CONTEXT)) {
+    nb_scattdims = 0;
+    nb_iterators = OSL_max(relation->nb_output_dims, relation->nb_input_dims);
+  } else {
+    nb_scattdims = relation->nb_output_dims;
+    nb_iterators = relation->nb_input_dims;
+  }
+  if ((relation->nb_output_dims < 0) || (relation->nb_input_dims < 0) ||
+      (relation->nb_local_dims < 0) || (relation->nb_parameters < 0) ||
+      ((long)relation->nb_output_dims + relation->nb_input_dims +
+           relation->nb_local_dims + relation->nb_parameters + 2 !=
+       relation->nb_columns) ||
+      ((size_t)nb_iterators > osl_strings_size(names->iterators)) ||
+      ((size_t)nb_scattdims > osl_strings_size(names->scatt_dims)) ||
+      ((size_t)relation->nb_local_dims > osl_strings_size(names->local_dims)) ||
+      ((size_t)relation->nb_parameters > osl_strings_size(names->parameters))) {
+    OSL_debug("cannot name all the dimensions of the relation");
+    return NULL;
+  }
+
   OSL_malloc(strings, char**,
              ((size_t)relation->nb_columns + 1) * sizeof(char*));
   strings[relation->nb_columns] = NULL;
@@ -360,7 +386,8 @@ char** osl_relation_strings(const osl_relation_t* relation,
   // 2. Output dimensions.
   if (osl_relation_is_access(relation)) {
     // The first output dimension is the array name.
-    OSL_strdup(strings[offset], "Arr");
+    if (relation->nb_output_dims > 0)
+      OSL_strdup(strings[offset], "Arr");
     // The other ones are the array dimensions [1]...[n]
     for (i = offset + 1; i < relation->nb_output_dims + offset; i++) {
       sprintf(temp, "[%d]", i - 1);
@@ -484,7 +511,7 @@ int osl_relation_is_simple_output(const osl_relation_t* relation, int row) {
       (relation->nb_output_dims == 0))
     return 0;
 
-  if ((row < 0) || (row > relation->nb_rows))
+  if ((row < 0) || (row >= relation->nb_rows))
     OSL_error("the specified row does not exist in the relation");
 
   // The constraint must be an equality.
@@ -841,7 +868,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
              relation->nb_parameters);
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    if (relation->nb_rows > 0) {
+    if ((relation->nb_rows > 0) && (name_array != NULL)) {
       scolumn = osl_relation_column_string(relation, name_array);
       osl_util_safe_strcat(&string, scolumn, &high_water_mark);
       free(scolumn);
@@ -1001,7 +1028,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       }
 
       // Print column names in comment
-      if (relation->nb_rows > 0) {
+      if ((relation->nb_rows > 0) && (name_array != NULL)) {
         scolumn = osl_relation_column_string_scoplib(relation, name_array);
         osl_util_safe_strcat(&string, scolumn, &high_water_mark);
         free(scolumn);
@@ -1096,9 +1123,9 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
                                               names->arrays->string);
         osl_util_safe_strcat(&string, comment, &high_water_mark);
         free(comment);
-        snprintf(buffer, OSL_MAX_STRING, "\n");
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
       }
+      snprintf(buffer, OSL_MAX_STRING, "\n");
+      osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
       // add the lines in the scattering if we need the fakeiter
       if (relation->nb_rows > 0 && add_fakeiter &&
-- 
2.43.0


From 2121cf02bec46a89b570854125dbc0b26e22cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 22/89] fix: comment of an access to an array without a known
 name

---
 source/relation.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index b06f9c2..9c2074e 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -554,7 +554,7 @@ int osl_relation_is_simple_output(const osl_relation_t* relation, int row) {
  */
 char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
                                   char** strings, char** arrays) {
-  int sign;
+  int sign, i, array_id;
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
   char* expression;
@@ -577,9 +577,14 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
-    // We don't print the right hand side if it's an array identifier.
-    if (!osl_relation_is_access(relation) ||
-        osl_int_zero(relation->precision, relation->m[row][1])) {
+    // We print the array name (if it is known) for an array identifier.
+    array_id = OSL_UNDEFINED;
+    if (osl_relation_is_access(relation) &&
+        !osl_int_zero(relation->precision, relation->m[row][1]))
+      array_id = osl_relation_get_array_id(relation);
+    for (i = 0; (i < array_id) && (arrays != NULL) && (arrays[i] != NULL);)
+      i++;
+    if ((array_id <= 0) || (i < array_id)) {
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
@@ -589,7 +594,7 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     } else {
       osl_util_safe_strcat(&string, " == ", &high_water_mark);
       osl_util_safe_strcat(&string,
-                           arrays[osl_relation_get_array_id(relation) - 1],
+                           arrays[array_id - 1],
                            &high_water_mark);
     }
   } else {
-- 
2.43.0


From 1ba2199dbe50875e0968768637ed988062d28aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 23/89] fix: printing an output defined with the smallest fixed
 size integer

---
 source/relation.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 9c2074e..3b38e57 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -59,6 +59,7 @@
  ******************************************************************************/
 
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -568,7 +569,16 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     return string;
   }
 
-  if ((sign = osl_relation_is_simple_output(relation, row))) {
+  sign = osl_relation_is_simple_output(relation, row);
+  // The smallest fixed size integers have no opposite.
+  for (i = relation->nb_output_dims + 1; i < relation->nb_columns; i++)
+    if (((relation->precision == OSL_PRECISION_SP) &&
+         (relation->m[row][i].sp == LONG_MIN)) ||
+        ((relation->precision == OSL_PRECISION_DP) &&
+         (relation->m[row][i].dp == LLONG_MIN)))
+      sign = 0;
+
+  if (sign) {
     // First case : output == expression.
 
     expression = osl_relation_subexpression(
-- 
2.43.0


From b749e93ac4d62c25d90431c9e5cb6aececf7828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 24/89] fix: reading relations with long lines, missing columns
 or at the end of a file

---
 include/osl/util.h |  1 +
 source/relation.c  | 91 ++++++++++++++++++++++++----------------------
 source/strings.c   | 14 ++-----
 source/util.c      | 26 +++++++++++++
 4 files changed, 77 insertions(+), 55 deletions(-)

diff --git a/include/osl/util.h b/include/osl/util.h
index 1668635..86940fd 100644
--- a/include/osl/util.h
+++ b/include/osl/util.h
@@ -71,6 +71,7 @@ extern "C" {
  *                            Utility functions                               *
  ******************************************************************************/
 char* osl_util_skip_blank_and_comments(FILE*, char*);
+char* osl_util_read_full_line(FILE*);
 void osl_util_sskip_blank_and_comments(char**);
 int osl_util_read_int(FILE*, char**);
 char* osl_util_read_string(FILE*, char**);
diff --git a/source/relation.c b/source/relation.c
index 3b38e57..a00d171 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1370,6 +1370,29 @@ return_type:
   return type;
 }
 
+/**
+ * osl_relation_sread_row internal function:
+ * this function reads the values of a row of a relation from a string.
+ * \param[in,out] input    The input string, updated to the end of the row.
+ * \param[in,out] relation The relation to fill.
+ * \param[in]     row      The row of the relation to read.
+ */
+static void osl_relation_sread_row(char** input, osl_relation_t* relation,
+                                   int row) {
+  int j;
+
+  for (j = 0; j < relation->nb_columns; j++) {
+    while (isspace(**input) && (**input != '\n'))
+      (*input)++;
+    if ((**input == '\0') || (**input == '#') || (**input == '\n'))
+      OSL_error("not enough columns");
+    osl_int_sread(input, relation->precision, &relation->m[row][j]);
+    // Skip what may remain of the word.
+    while (**input && !isspace(**input) && (**input != '#'))
+      (*input)++;
+  }
+}
+
 /**
  * osl_relation_pread function ("precision read"):
  * this function reads a relation into a file (foo, posibly stdin) and
@@ -1379,7 +1402,7 @@ return_type:
  * \return A pointer to the relation structure that has been read.
  */
 osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
-  int i, j, k, n, read = 0;
+  int i, k, read = 0;
   int nb_rows, nb_columns;
   int nb_output_dims, nb_input_dims, nb_local_dims, nb_parameters;
   int nb_union_parts = 1;
@@ -1387,7 +1410,7 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
   int read_attributes = 1;
   int first = 1;
   int type;
-  char *c, s[OSL_MAX_STRING], str[OSL_MAX_STRING], *tmp;
+  char *line, *tmp;
   osl_relation_p relation, relation_union = NULL, previous = NULL;
 
   type = osl_relation_read_type(foo, NULL);
@@ -1399,10 +1422,13 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
       read_attributes = 0;
 
       // Read relation attributes.
-      c = osl_util_skip_blank_and_comments(foo, s);
-      read = sscanf(c, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
+      line = osl_util_read_full_line(foo);
+      if (line == NULL)
+        OSL_error("no size or attributes of a relation");
+      read = sscanf(line, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
                     &nb_parameters);
+      free(line);
 
       if (((read != 1) && (read != 6)) ||
           ((read == 1) && (may_read_nb_union_parts != 1)))
@@ -1430,22 +1456,13 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
     relation->nb_parameters = nb_parameters;
 
     // Read the matrix of constraints.
-    for (i = 0; i < relation->nb_rows; i++) {
-      c = osl_util_skip_blank_and_comments(foo, s);
-      if (c == NULL)
+    for (i = 0; (i < relation->nb_rows) && (relation->nb_columns > 0); i++) {
+      line = osl_util_read_full_line(foo);
+      if (line == NULL)
         OSL_error("not enough rows");
-
-      for (j = 0; j < relation->nb_columns; j++) {
-        if (c == NULL || *c == '#' || *c == '\n')
-          OSL_error("not enough columns");
-        if (sscanf(c, "%s%n", str, &n) == 0)
-          OSL_error("not enough rows");
-
-        // TODO: remove this tmp (sread updates the pointer).
-        tmp = str;
-        osl_int_sread(&tmp, precision, &relation->m[i][j]);
-        c += n;
-      }
+      tmp = line;
+      osl_relation_sread_row(&tmp, relation, i);
+      free(line);
     }
 
     // Build the linked list of union parts.
@@ -1493,14 +1510,14 @@ osl_relation_t* osl_relation_psread(char** input, int precision) {
  * \return A pointer to the relation structure that has been read.
  */
 osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
-  int i, j, k, n, read = 0;
+  int i, k, read = 0;
   int nb_rows, nb_columns;
   int nb_output_dims, nb_input_dims, nb_local_dims, nb_parameters;
   int nb_union_parts = 1;
   int may_read_nb_union_parts = 1;
   int read_attributes = 1;
   int first = 1;
-  char str[OSL_MAX_STRING], *tmp;
+  char* str;
   osl_relation_p relation, relation_union = NULL, previous = NULL;
 
   // Read each part of the union (the number of parts may be updated inside)
@@ -1511,19 +1528,16 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
       // Read relation attributes.
       osl_util_sskip_blank_and_comments(input);
       // make a copy of the first row
-      size_t row_size = 0;
-      tmp = *input;
-      while ((*tmp != '\0') && (*tmp != '\n')) {
-        tmp++;
-        row_size += 1;
-      }
-      strncpy(str, *input, sizeof(char) * row_size);
-      str[(tmp - *input)] = '\0';
+      size_t row_size = strcspn(*input, "\n");
+      OSL_malloc(str, char*, (row_size + 1) * sizeof(char));
+      strncpy(str, *input, row_size);
+      str[row_size] = '\0';
 
       read = sscanf(str, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
                     &nb_parameters);
-      *input = tmp;
+      free(str);
+      *input += row_size;
 
       if (((read != 1) && (read != 6)) ||
           ((read == 1) && (may_read_nb_union_parts != 1)))
@@ -1550,22 +1564,11 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
     relation->nb_parameters = nb_parameters;
 
     // Read the matrix of constraints.
-    for (i = 0; i < relation->nb_rows; i++) {
+    for (i = 0; (i < relation->nb_rows) && (relation->nb_columns > 0); i++) {
       osl_util_sskip_blank_and_comments(input);
-      if (!(*input))
+      if (**input == '\0')
         OSL_error("not enough rows");
-
-      for (j = 0; j < relation->nb_columns; j++) {
-        if (*input == NULL || **input == '#' || **input == '\n')
-          OSL_error("not enough columns");
-        if (sscanf(*input, "%s%n", str, &n) == 0)
-          OSL_error("not enough rows");
-
-        // TODO: remove this tmp (sread updates the pointer).
-        tmp = str;
-        osl_int_sread(&tmp, precision, &relation->m[i][j]);
-        *input += n;
-      }
+      osl_relation_sread_row(input, relation, i);
     }
 
     // Build the linked list of union parts.
diff --git a/source/strings.c b/source/strings.c
index 22d865e..d999df3 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -249,21 +249,13 @@ osl_strings_t* osl_strings_sread(char** const input) {
  * \return The strings structure that has been read.
  */
 osl_strings_t* osl_strings_read(FILE* const file) {
-  size_t high_water_mark = OSL_MAX_STRING;
-  char buffer[OSL_MAX_STRING], *start, *line, *temp;
+  char *line, *temp;
   osl_strings_p strings;
 
-  start = osl_util_skip_blank_and_comments(file, buffer);
-  if (start == NULL)
+  line = osl_util_read_full_line(file);
+  if (line == NULL)
     return NULL;
 
-  // Get the whole line, even if it does not fit in the buffer.
-  OSL_malloc(line, char*, high_water_mark * sizeof(char));
-  strcpy(line, start);
-  while ((strchr(start, '\n') == NULL) &&
-         ((start = fgets(buffer, OSL_MAX_STRING, file)) != NULL))
-    osl_util_safe_strcat(&line, start, &high_water_mark);
-
   temp = line;
   strings = osl_strings_sread(&temp);
   free(line);
diff --git a/source/util.c b/source/util.c
index faa653b..04d0fc9 100644
--- a/source/util.c
+++ b/source/util.c
@@ -104,6 +104,32 @@ char* osl_util_skip_blank_and_comments(FILE* file, char* str) {
   return start;
 }
 
+/**
+ * osl_util_read_full_line function:
+ * this function skips blank/comment lines of the open file 'file' and returns
+ * the whole first line where there is some useful information, from its first
+ * useful character, whatever its length. It returns NULL if the end of the
+ * file is reached before such a line.
+ * \param[in] file The (opened) file to read.
+ * \return The first useful line (to be freed by the user) or NULL.
+ */
+char* osl_util_read_full_line(FILE* file) {
+  size_t high_water_mark = OSL_MAX_STRING;
+  char buffer[OSL_MAX_STRING], *start, *line;
+
+  start = osl_util_skip_blank_and_comments(file, buffer);
+  if (start == NULL)
+    return NULL;
+
+  OSL_malloc(line, char*, high_water_mark * sizeof(char));
+  strcpy(line, start);
+  while ((strchr(start, '\n') == NULL) &&
+         ((start = fgets(buffer, OSL_MAX_STRING, file)) != NULL))
+    osl_util_safe_strcat(&line, start, &high_water_mark);
+
+  return line;
+}
+
 /**
  * osl_util_sskip_blank_and_comments "string skip" function:
  * this function updates the str pointer, which initialy points to a string,
-- 
2.43.0


From 874e72796f5101a2f8d60ec338924dd77bf277f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 25/89] fix: type of all the parts of a union read from a
 string

---
 source/relation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index a00d171..bd60983 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1493,7 +1493,7 @@ osl_relation_t* osl_relation_psread(char** input, int precision) {
 
   type = osl_relation_read_type(NULL, input);
   relation = osl_relation_psread_polylib(input, precision);
-  relation->type = type;
+  osl_relation_set_type(relation, type);
 
   return relation;
 }
-- 
2.43.0


From 40122979e449ca568577c9090e8f885e6e74471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 26/89] fix: initialise the usr field of relations, statements
 and symbols

---
 source/extensions/symbols.c | 1 +
 source/relation.c           | 1 +
 source/statement.c          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 087d11c..09fa660 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -407,6 +407,7 @@ osl_symbols_t* osl_symbols_malloc(void) {
   symbols->datatype = NULL;
   symbols->scope = NULL;
   symbols->extent = NULL;
+  symbols->usr = NULL;
   symbols->next = NULL;
 
   return symbols;
diff --git a/source/relation.c b/source/relation.c
index bd60983..139c34b 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1675,6 +1675,7 @@ osl_relation_t* osl_relation_pmalloc(int precision, int nb_rows,
     }
   }
 
+  relation->usr = NULL;
   relation->next = NULL;
 
   return relation;
diff --git a/source/statement.c b/source/statement.c
index 6cf7ada..52462cb 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -494,6 +494,7 @@ osl_statement_t* osl_statement_malloc(void) {
   statement->scattering = NULL;
   statement->access = NULL;
   statement->extension = NULL;
+  statement->usr = NULL;
   statement->next = NULL;
 
   return statement;
-- 
2.43.0


From 0a87bb3f2cdf89fbed356fed1ef85d41283da553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 27/89] fix: number of printed extensions of a statement

---
 source/statement.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/statement.c b/source/statement.c
index 52462cb..1460f3a 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -194,6 +194,8 @@ void osl_statement_pprint(FILE* const file, const osl_statement_t* statement,
   int number = 1;
   int iterators_backedup = 0;
   int nb_ext = 0;
+  char* content;
+  osl_generic_p extension;
   osl_body_p body = NULL;
   osl_strings_p iterators_backup = NULL;
   osl_names_t* names = NULL;
@@ -248,7 +250,17 @@ void osl_statement_pprint(FILE* const file, const osl_statement_t* statement,
     fprintf(file, "# ---------------------------------------------- ");
     fprintf(file, "%2d.4 Statement Extensions\n", number);
     fprintf(file, "# Number of Statement Extensions\n");
-    nb_ext = osl_generic_number(statement->extension);
+    // Only the extensions with a textual form are printed.
+    nb_ext = 0;
+    for (extension = statement->extension; extension != NULL;
+         extension = extension->next) {
+      if (extension->interface != NULL) {
+        content = extension->interface->sprint(extension->data);
+        if (content != NULL)
+          nb_ext++;
+        free(content);
+      }
+    }
     fprintf(file, "%d\n", nb_ext);
     if (nb_ext > 0)
       osl_generic_print(file, statement->extension);
-- 
2.43.0


From 1fc02ea236407dba3a449eb055c76ffc204bd39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 28/89] fix: generating an undefined number of strings

---
 source/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/strings.c b/source/strings.c
index d999df3..b9acae7 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -467,7 +467,7 @@ osl_strings_t* osl_strings_generate(const char* prefix, int nb_strings) {
   int i;
   osl_strings_p generated;
 
-  if (nb_strings) {
+  if (nb_strings > 0) {
     OSL_malloc(strings, char**, sizeof(char*) * (size_t)(nb_strings + 1));
     strings[nb_strings] = NULL;
     for (i = 0; i < nb_strings; i++) {
-- 
2.43.0


From 8bf83a53c259bccacf440b0d02b587969ef42399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 29/89] fix: printing coordinates with a long file name

---
 source/extensions/coordinates.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index e9e9b44..68bcd33 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -159,8 +159,10 @@ char* osl_coordinates_sprint(const osl_coordinates_t* const coordinates) {
     string[0] = '\0';
 
     // Print the coordinates content.
-    sprintf(buffer, "# File name\n%s\n", coordinates->name);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "# File name\n", &high_water_mark);
+    if (coordinates->name != NULL)
+      osl_util_safe_strcat(&string, coordinates->name, &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Starting line and column\n%d %d\n",
             coordinates->line_start, coordinates->column_start);
-- 
2.43.0


From 09bd15ddf93dd1052e85196eea18b609c4af77b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 30/89] fix: comparing coordinates without a file name

---
 source/extensions/coordinates.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index 68bcd33..0cec2ce 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -306,7 +306,8 @@ bool osl_coordinates_equal(const osl_coordinates_t* const c1,
   if (((c1 == NULL) && (c2 != NULL)) || ((c1 != NULL) && (c2 == NULL)))
     return 0;
 
-  if (strcmp(c1->name, c2->name)) {
+  if ((c1->name == NULL) != (c2->name == NULL) ||
+      (c1->name != NULL && strcmp(c1->name, c2->name))) {
     OSL_info("file names are not the same");
     return 0;
   }
-- 
2.43.0


From 65d4588159f4e9baca650fda3e72ae79cba7f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 31/89] fix: printing and reading a comment longer than
 OSL_MAX_STRING

---
 source/extensions/comment.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 1798d15..387c553 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -138,15 +138,14 @@ void osl_comment_dump(FILE* const file, const osl_comment_t* const comment) {
 char* osl_comment_sprint(const osl_comment_t* const comment) {
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
   if (comment != NULL) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
     // Print the comment.
-    sprintf(buffer, "%s", comment->comment);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    if (comment->comment != NULL)
+      osl_util_safe_strcat(&string, comment->comment, &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
@@ -177,15 +176,12 @@ osl_comment_t* osl_comment_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("comment too long");
-
   // Build the comment structure
   comment = osl_comment_malloc();
   OSL_strdup(comment->comment, *input);
 
   // Update the input pointer (everything has been read).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return comment;
 }
-- 
2.43.0


From e0d85a637a464447eafa7c8801ac6607e763a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 32/89] fix: comparing and dumping a comment without text

---
 source/extensions/comment.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 387c553..3e766d3 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -104,10 +104,10 @@ void osl_comment_idump(FILE* const file, const osl_comment_t* const comment,
 
     // Display the comment message (without any carriage return).
     OSL_strdup(tmp, comment->comment);
-    for (l = 0; l < strlen(tmp); l++)
+    for (l = 0; tmp != NULL && l < strlen(tmp); l++)
       if (tmp[l] == '\n')
         tmp[l] = ' ';
-    fprintf(file, "comment: %s\n", tmp);
+    fprintf(file, "comment: %s\n", tmp != NULL ? tmp : "NULL");
     free(tmp);
   }
 
@@ -262,7 +262,8 @@ bool osl_comment_equal(const osl_comment_t* const c1,
     return 0;
   }
 
-  if (strcmp(c1->comment, c2->comment)) {
+  if ((c1->comment == NULL) != (c2->comment == NULL) ||
+      (c1->comment != NULL && strcmp(c1->comment, c2->comment))) {
     // Well, the test does not apply well on textual content but the idea
     // is here (see osl_generic_sprint if you want to understand the problem).
     // OSL_info("comments are not the same");
-- 
2.43.0


From c6da4258dff83226ca0554c3af239fc4892d7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 33/89] fix: printing and reading a clay script longer than
 OSL_MAX_STRING

---
 source/extensions/clay.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index b65cdc2..47f69c1 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -137,15 +137,14 @@ void osl_clay_dump(FILE* const file, const osl_clay_t* const clay) {
 char* osl_clay_sprint(const osl_clay_t* const clay) {
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
   if (clay != NULL) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
     // Print the clay.
-    sprintf(buffer, "%s", clay->script);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    if (clay->script != NULL)
+      osl_util_safe_strcat(&string, clay->script, &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
@@ -177,9 +176,6 @@ osl_clay_t* osl_clay_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("clay script too long");
-
   // Build the clay structure
   clay = osl_clay_malloc();
   script = *input;
@@ -191,7 +187,7 @@ osl_clay_t* osl_clay_sread(char** input) {
   OSL_strdup(clay->script, script);
 
   // Update the input pointer (everything has been read).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return clay;
 }
-- 
2.43.0


From e66253e38777fcc70c500f3e8b3dc514aa27dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 34/89] fix: comparing and dumping a clay without text

---
 source/extensions/clay.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index 47f69c1..71c8547 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -103,10 +103,10 @@ void osl_clay_idump(FILE* const file, const osl_clay_t* const clay, int level) {
 
     // Display the clay script (without any carriage return).
     OSL_strdup(tmp, clay->script);
-    for (l = 0; l < strlen(tmp); l++)
+    for (l = 0; tmp != NULL && l < strlen(tmp); l++)
       if (tmp[l] == '\n')
         tmp[l] = ' ';
-    fprintf(file, "script: %s\n", tmp);
+    fprintf(file, "script: %s\n", tmp != NULL ? tmp : "NULL");
     free(tmp);
   }
 
@@ -267,7 +267,8 @@ bool osl_clay_equal(const osl_clay_t* const c1, const osl_clay_t* const c2) {
     return 0;
   }
 
-  if (strcmp(c1->script, c2->script)) {
+  if ((c1->script == NULL) != (c2->script == NULL) ||
+      (c1->script != NULL && strcmp(c1->script, c2->script))) {
     OSL_info("clay scripts are not the same");
     return 0;
   }
-- 
2.43.0


From 628fbe90f300e96481ae1e1cf083fd7bd818ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 35/89] fix: reading a null extension consumes its text

---
 source/extensions/null.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/null.c b/source/extensions/null.c
index 20f012e..3b8f91a 100644
--- a/source/extensions/null.c
+++ b/source/extensions/null.c
@@ -156,7 +156,7 @@ osl_null_t* osl_null_sread(char** input) {
   null = osl_null_malloc();
 
   // Update the input pointer (everything has been read and ignored).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return null;
 }
-- 
2.43.0


From 51f43f2119ffbc7ade3d90dc07106b704a1bfa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 36/89] fix: dumping a textual without text

---
 source/extensions/textual.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/extensions/textual.c b/source/extensions/textual.c
index 1c6782d..1d1bbeb 100644
--- a/source/extensions/textual.c
+++ b/source/extensions/textual.c
@@ -98,6 +98,8 @@ void osl_textual_idump(FILE* const file, const osl_textual_t* const textual,
 
     // Display the textual message (without any carriage return).
     OSL_strdup(tmp, textual->textual);
+    if (tmp == NULL)
+      OSL_strdup(tmp, "NULL");
     for (j = 0; j < (int)strlen(tmp); j++)
       if (tmp[j] == '\n')
         tmp[j] = ' ';
-- 
2.43.0


From cc62982357f15f4bf5ce4e33877114aa629298ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 37/89] fix: printing loops with long names

---
 source/extensions/loop.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index f6ff067..1053fd5 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -204,8 +204,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Iterator name\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->iter);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, loop->iter != NULL ? loop->iter : "(null)",
+                         &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Number of stmts\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -223,8 +224,10 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Private variables\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->private_vars);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(
+        &string, loop->private_vars != NULL ? loop->private_vars : "(null)",
+        &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Directive\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -233,8 +236,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     // special case for OSL_LOOP_DIRECTIVE_USER
     if (loop->directive & OSL_LOOP_DIRECTIVE_USER) {
-      sprintf(buffer, " %s", loop->user);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " ", &high_water_mark);
+      osl_util_safe_strcat(&string, loop->user != NULL ? loop->user : "(null)",
+                           &high_water_mark);
     }
     sprintf(buffer, "\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-- 
2.43.0


From 69ccdb6bc6282b6be701448c972c81fbed62d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 38/89] fix: comparing loops with an absent string

---
 source/extensions/loop.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 1053fd5..562c2cd 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -469,7 +469,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
     return 0;
   }
 
-  if (strcmp(a1->iter, a2->iter)) {
+  if (a1->iter != a2->iter && (a1->iter == NULL || a2->iter == NULL ||
+                               strcmp(a1->iter, a2->iter))) {
     // OSL_info("loops are not the same (iter name)");
     return 0;
   }
@@ -491,7 +492,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
 
   // TODO: necessarily same ???
   if (a1->private_vars != a2->private_vars) {  // NULL check
-    if (strcmp(a1->private_vars, a2->private_vars)) {
+    if (a1->private_vars == NULL || a2->private_vars == NULL ||
+        strcmp(a1->private_vars, a2->private_vars)) {
       // OSL_info("loops are not the same (private vars)");
       return 0;
     }
@@ -504,7 +506,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
   }
 
   if (a1->user != a2->user) {  // NULL check
-    if (strcmp(a1->user, a2->user)) {
+    if (a1->user == NULL || a2->user == NULL ||
+        strcmp(a1->user, a2->user)) {
       return 0;
     }
   }
-- 
2.43.0


From 07cfef6f917fe298dc7531a1a510c5462ecb1afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 39/89] fix: comparing loops or lists of loops with repeated
 elements

---
 source/extensions/loop.c | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 562c2cd..07b9695 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -453,7 +453,7 @@ osl_loop_t* osl_loop_clone(const osl_loop_t* loop) {
  */
 bool osl_loop_equal_one(const osl_loop_t* const a1,
                         const osl_loop_t* const a2) {
-  size_t i, j, found;
+  size_t i, j, nb1, nb2;
 
   if (a1 == a2)
     return 1;
@@ -477,14 +477,13 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
   // We accept a different order of the names, as long as the identifiers
   // are the same.
   for (i = 0; i < a1->nb_stmts; i++) {
-    found = 0;
-    for (j = 0; j < a2->nb_stmts; j++) {
-      if (a1->stmt_ids[i] == a2->stmt_ids[j]) {
-        found = 1;
-        break;
-      }
+    // An identifier has to be present the same number of times in both.
+    nb1 = nb2 = 0;
+    for (j = 0; j < a1->nb_stmts; j++) {
+      nb1 += (a1->stmt_ids[i] == a1->stmt_ids[j]);
+      nb2 += (a1->stmt_ids[i] == a2->stmt_ids[j]);
     }
-    if (found != 1) {
+    if (nb1 != nb2) {
       // OSL_info("loop are not the same (stmt ids)");
       return 0;
     }
@@ -527,7 +526,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
  * \return        1 if a1 and a2 are the same (content-wise), 0 otherwise.
  */
 bool osl_loop_equal(const osl_loop_t* a1, const osl_loop_t* a2) {
-  int found = 0;
+  const osl_loop_t *head = a1, *temp;
+  int nb1, nb2;
 
   if (a1 == a2)
     return 1;
@@ -543,18 +543,14 @@ bool osl_loop_equal(const osl_loop_t* a1, const osl_loop_t* a2) {
   }
 
   while (a1) {
-    found = 0;
-    const osl_loop_t* temp = a2;
-
-    while (temp) {
-      if (osl_loop_equal_one(a1, temp) == 1) {
-        found = 1;
-        break;
-      }
-      temp = temp->next;
-    }
-
-    if (found != 1) {
+    // A loop has to be present the same number of times in both lists.
+    nb1 = nb2 = 0;
+    for (temp = head; temp != NULL; temp = temp->next)
+      nb1 += osl_loop_equal_one(a1, temp);
+    for (temp = a2; temp != NULL; temp = temp->next)
+      nb2 += osl_loop_equal_one(a1, temp);
+
+    if (nb1 != nb2) {
       OSL_info("list of loops are not the same");
       return 0;
     }
-- 
2.43.0


From 7dbc96095fc4bb1a16d8de2b3f86ba38b17f0942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 40/89] fix: comparing arrays with repeated elements

---
 source/extensions/arrays.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 71856a9..7c247b7 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -301,7 +301,7 @@ osl_arrays_t* osl_arrays_clone(const osl_arrays_t* const arrays) {
  */
 bool osl_arrays_equal(const osl_arrays_t* const a1,
                       const osl_arrays_t* const a2) {
-  int i, j, found;
+  int i, j, nb1, nb2;
 
   if (a1 == a2)
     return 1;
@@ -320,14 +320,13 @@ bool osl_arrays_equal(const osl_arrays_t* const a1,
   // We accept a different order of the names, as long as the identifiers
   // are the same.
   for (i = 0; i < a1->nb_names; i++) {
-    found = 0;
+    // A name has to be present the same number of times in both.
+    nb1 = nb2 = 0;
     for (j = 0; j < a2->nb_names; j++) {
-      if ((a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j]))) {
-        found = 1;
-        break;
-      }
+      nb1 += (a1->id[i] == a1->id[j]) && !strcmp(a1->names[i], a1->names[j]);
+      nb2 += (a1->id[i] == a2->id[j]) && !strcmp(a1->names[i], a2->names[j]);
     }
-    if (found != 1) {
+    if (nb1 != nb2) {
       OSL_info("arrays are not the same");
       return 0;
     }
-- 
2.43.0


From fe7ee52da0b9e7821020750c02aada86e6f17c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 41/89] fix: comparing extended bodies with repeated accesses

---
 source/extensions/extbody.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/source/extensions/extbody.c b/source/extensions/extbody.c
index f7d03eb..0bdf16d 100644
--- a/source/extensions/extbody.c
+++ b/source/extensions/extbody.c
@@ -311,7 +311,7 @@ osl_extbody_t* osl_extbody_clone(const osl_extbody_t* const ebody) {
  */
 bool osl_extbody_equal(const osl_extbody_t* const e1,
                        const osl_extbody_t* const e2) {
-  size_t i, j, found;
+  size_t i, j, nb1, nb2;
 
   if (e1 == e2)
     return 1;
@@ -330,14 +330,13 @@ bool osl_extbody_equal(const osl_extbody_t* const e1,
   // We accept a different order of the start/length, as long as the
   // identifiers are the same.
   for (i = 0; i < e1->nb_access; i++) {
-    found = 0;
+    // An access has to be present the same number of times in both.
+    nb1 = nb2 = 0;
     for (j = 0; j < e2->nb_access; j++) {
-      if ((e1->start[i] == e2->start[j]) && (e1->length[i] == e2->length[j])) {
-        found = 1;
-        break;
-      }
+      nb1 += (e1->start[i] == e1->start[j]) && (e1->length[i] == e1->length[j]);
+      nb2 += (e1->start[i] == e2->start[j]) && (e1->length[i] == e2->length[j]);
     }
-    if (found != 1) {
+    if (nb1 != nb2) {
       OSL_info("extbody are not the same");
       return 0;
     }
-- 
2.43.0


From baa9ba5c50929ac76fce13322b07c34da8476c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 42/89] fix: printing arrays with long names

---
 source/extensions/arrays.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 7c247b7..e24db3b 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -160,8 +160,10 @@ char* osl_arrays_sprint(const osl_arrays_t* const arrays) {
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
     }
     for (i = 0; i < arrays->nb_names; i++) {
-      sprintf(buffer, "%d %s\n", arrays->id[i], arrays->names[i]);
+      sprintf(buffer, "%d ", arrays->id[i]);
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, arrays->names[i], &high_water_mark);
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);
     }
 
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
-- 
2.43.0


From 888f1ff7b50620dc16c7746cb9bac60a3ee8b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 43/89] fix: names of arrays whose identifier is not positive

---
 source/extensions/arrays.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index e24db3b..b5bc01c 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -364,6 +364,8 @@ osl_strings_t* osl_arrays_to_strings(const osl_arrays_t* const arrays) {
   // Build a strings structure for this number of ids.
   strings = osl_strings_generate("Dummy", max_id);
   for (i = 0; i < arrays->nb_names; i++) {
+    if (arrays->id[i] < 1)
+      continue;
     free(strings->string[arrays->id[i] - 1]);
     OSL_strdup(strings->string[arrays->id[i] - 1], arrays->names[i]);
   }
-- 
2.43.0


From c95fd4d1692d636ab81cde26cc333bb66d52c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 44/89] fix: printing regions with long lines

---
 source/extensions/region.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index b73632d..1b9ca50 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -273,8 +273,9 @@ char* osl_region_sprint(const osl_region_t* region) {
     for (size_t i = 0; i < region->field.count; ++i) {         \
       sprintf(buffer, "%d ", region->field.types[i]);          \
       osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", region->field.lines[i]);         \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
+      osl_util_safe_strcat(&string, region->field.lines[i],    \
+                           &high_water_mark);                  \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);   \
     }                                                          \
   } while (0)
 
-- 
2.43.0


From 1e1fc04374f090add3d2dec76518eda7cb07d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 45/89] fix: printing annotations with long lines

---
 source/extensions/annotation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index bb41a58..6703319 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -231,8 +231,9 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
     for (size_t i = 0; i < annotation->field.count; ++i) {     \
       sprintf(buffer, "%d ", annotation->field.types[i]);      \
       osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", annotation->field.lines[i]);     \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
+      osl_util_safe_strcat(&string, annotation->field.lines[i],\
+                           &high_water_mark);                  \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);   \
     }                                                          \
   } while (0)
 
-- 
2.43.0


From 253935561362181b378a684c978ba3c0a5aa7089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 46/89] fix: comparing equal regions

---
 source/extensions/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index 1b9ca50..21bd685 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -432,7 +432,7 @@ bool osl_region_equal_one(const osl_region_t* r1, const osl_region_t* r2) {
 bool osl_region_equal(const osl_region_t* r1, const osl_region_t* r2) {
   bool equal = osl_region_equal_one(r1, r2);
 
-  if (equal)
+  if (equal && r1 != r2)
     return osl_region_equal(r1->next, r2->next);
   else
     return equal;
-- 
2.43.0


From 4351bbf8d6e515a7cf4a5efe04d967196eeea71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 47/89] fix: freeing, cloning, dumping and printing an absent
 annotation

---
 source/extensions/annotation.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index 6703319..e23e70d 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -198,8 +198,10 @@ void osl_annotation_idump(FILE* const file, const osl_annotation_t* annotation,
   osl_annotation_idump_indent(file, level);
   fprintf(file, "\n");
 
-  osl_annotation_text_idump(file, &annotation->prefix, level + 2);
-  osl_annotation_text_idump(file, &annotation->suffix, level + 2);
+  if (annotation != NULL) {
+    osl_annotation_text_idump(file, &annotation->prefix, level + 2);
+    osl_annotation_text_idump(file, &annotation->suffix, level + 2);
+  }
 
   /* Last line. */
   osl_annotation_idump_indent(file, level);
@@ -214,6 +216,9 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
   char* string = NULL;
   size_t high_water_mark = OSL_MAX_STRING;
 
+  if (annotation == NULL)
+    return NULL;
+
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
 
@@ -292,6 +297,9 @@ osl_annotation_t* osl_annotation_malloc(void) {
 }
 
 void osl_annotation_free(osl_annotation_t* annotation) {
+  if (annotation == NULL)
+    return;
+
   osl_annotation_text_clean(&annotation->prefix);
   osl_annotation_text_clean(&annotation->suffix);
   free(annotation);
@@ -302,6 +310,9 @@ void osl_annotation_free(osl_annotation_t* annotation) {
  *****************************************************************************/
 
 osl_annotation_t* osl_annotation_clone(const osl_annotation_t* const source) {
+  if (source == NULL)
+    return NULL;
+
   osl_annotation_t* const clone = osl_annotation_malloc();
 
   clone->prefix = osl_annotation_text_clone(&source->prefix);
-- 
2.43.0


From 305e49f26317c5de97fe86ecec798dd3ca883253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 48/89] fix: printing absent scatnames

---
 source/extensions/scatnames.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/scatnames.c b/source/extensions/scatnames.c
index 68ad02e..f9d908f 100644
--- a/source/extensions/scatnames.c
+++ b/source/extensions/scatnames.c
@@ -132,6 +132,9 @@ void osl_scatnames_dump(FILE* const file,
  * \return A string containing the OpenScop dump of the scatnames structure.
  */
 char* osl_scatnames_sprint(const osl_scatnames_t* const scatnames) {
+  if (scatnames == NULL)
+    return NULL;
+
   return osl_strings_sprint(scatnames->names);
 }
 
-- 
2.43.0


From 27a73eeebf95069045426f3db675f3aa71719ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 49/89] fix: printing pluto_unrolls longer than OSL_MAX_STRING

---
 source/extensions/pluto_unroll.c | 38 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/source/extensions/pluto_unroll.c b/source/extensions/pluto_unroll.c
index d5f4190..f808439 100644
--- a/source/extensions/pluto_unroll.c
+++ b/source/extensions/pluto_unroll.c
@@ -164,38 +164,46 @@ void osl_pluto_unroll_dump(FILE* const file,
  * \return a string containing the OpenScop dump of the loop structure.
  */
 char* osl_pluto_unroll_sprint(const osl_pluto_unroll_t* pluto_unroll) {
+  size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING] = {0};
+  char buffer[OSL_MAX_STRING];
 
-  strcat(buffer, "# Pluto unroll\n");
+  OSL_malloc(string, char*, high_water_mark * sizeof(char));
+  string[0] = '\0';
+
+  osl_util_safe_strcat(&string, "# Pluto unroll\n", &high_water_mark);
   if (pluto_unroll != NULL) {
-    strcat(buffer, "1\n");
+    osl_util_safe_strcat(&string, "1\n", &high_water_mark);
   } else {
-    strcat(buffer, "0\n");
+    osl_util_safe_strcat(&string, "0\n", &high_water_mark);
   }
 
   while (pluto_unroll != NULL) {
-    strcat(buffer, "# Iterator name\n");
-    sprintf(buffer + strlen(buffer), "%s\n", pluto_unroll->iter);
+    osl_util_safe_strcat(&string, "# Iterator name\n", &high_water_mark);
+    osl_util_safe_strcat(
+        &string, pluto_unroll->iter != NULL ? pluto_unroll->iter : "(null)",
+        &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
-    strcat(buffer, "# Jam\n");
-    sprintf(buffer + strlen(buffer), "%i\n", pluto_unroll->jam);
+    osl_util_safe_strcat(&string, "# Jam\n", &high_water_mark);
+    sprintf(buffer, "%i\n", pluto_unroll->jam);
+    osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    strcat(buffer, "# Factor\n");
-    sprintf(buffer + strlen(buffer), "%u\n", pluto_unroll->factor);
+    osl_util_safe_strcat(&string, "# Factor\n", &high_water_mark);
+    sprintf(buffer, "%u\n", pluto_unroll->factor);
+    osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
     pluto_unroll = pluto_unroll->next;
 
-    strcat(buffer, "# Next\n");
+    osl_util_safe_strcat(&string, "# Next\n", &high_water_mark);
     if (pluto_unroll != NULL) {
-      strcat(buffer, "1\n");
+      osl_util_safe_strcat(&string, "1\n", &high_water_mark);
     } else {
-      strcat(buffer, "0\n");
+      osl_util_safe_strcat(&string, "0\n", &high_water_mark);
     }
   }
 
-  OSL_realloc(string, char*, (strlen(buffer) + 1) * sizeof(char));
-  strcpy(string, buffer);
+  OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
 
   return string;
 }
-- 
2.43.0


From 0582059b066989a0d0acbd6615eb0399a05f142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 50/89] fix: reading symbols longer than OSL_MAX_STRING

---
 source/extensions/symbols.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 09fa660..4c38b50 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -326,9 +326,6 @@ osl_symbols_t* osl_symbols_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("symbols too long");
-
   // Find the number of names provided.
   nb_symbols = osl_util_read_int(NULL, input);
 
-- 
2.43.0


From d5eb6458cb142e020aa13bc4dace3d3af96138f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 51/89] fix: comparing symbols beyond the first one

---
 source/extensions/symbols.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 4c38b50..be00cc4 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -510,7 +510,7 @@ bool osl_symbols_equal(const osl_symbols_t* c1, const osl_symbols_t* c2) {
       if (osl_generic_equal(c1->datatype, c2->datatype)) {
         if (osl_generic_equal(c1->scope, c2->scope)) {
           if (osl_generic_equal(c1->extent, c2->extent)) {
-            return 1;
+            return osl_symbols_equal(c1->next, c2->next);
           }
         }
       }
-- 
2.43.0


From 5e307b18d8e97ce26cca5887db469b21df632c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 52/89] fix: comparing dependences with absent ones

---
 source/extensions/dependence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 306a651..2460eb9 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -578,6 +578,9 @@ bool osl_dependence_equal(const osl_dependence_t* d1,
   if (d1 == d2)
     return 1;
 
+  if (d1 == NULL || d2 == NULL)
+    return 0;
+
   if ((d1->next != NULL && d2->next == NULL) ||
       (d1->next == NULL && d2->next != NULL))
     return 0;
-- 
2.43.0


From 1619587fc70c430d2e39d92fdee86d69c44dfb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 53/89] fix: dumping dependences without statement pointers

---
 source/extensions/dependence.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 2460eb9..7f5fb28 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -175,19 +175,27 @@ void osl_dependence_idump(FILE* const file, const osl_dependence_t* dependence,
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Statement label: %d\n", dependence->label_source);
-    tmp = dependence->stmt_source_ptr->next;
-    dependence->stmt_source_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_source_ptr, level + 1);
-    dependence->stmt_source_ptr->next = tmp;
+    if (dependence->stmt_source_ptr != NULL) {
+      tmp = dependence->stmt_source_ptr->next;
+      dependence->stmt_source_ptr->next = NULL;
+      osl_statement_idump(file, dependence->stmt_source_ptr, level + 1);
+      dependence->stmt_source_ptr->next = tmp;
+    } else {
+      osl_statement_idump(file, NULL, level + 1);
+    }
 
     /* Print the target statement. */
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Target label: %d\n", dependence->label_target);
-    tmp = dependence->stmt_target_ptr->next;
-    dependence->stmt_target_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_target_ptr, level + 1);
-    dependence->stmt_target_ptr->next = tmp;
+    if (dependence->stmt_target_ptr != NULL) {
+      tmp = dependence->stmt_target_ptr->next;
+      dependence->stmt_target_ptr->next = NULL;
+      osl_statement_idump(file, dependence->stmt_target_ptr, level + 1);
+      dependence->stmt_target_ptr->next = tmp;
+    } else {
+      osl_statement_idump(file, NULL, level + 1);
+    }
 
     /* Print the dependence polyhedron. */
     for (j = 0; j <= level; j++)
-- 
2.43.0


From 43ad4e9f7b753c2f0dedc13eb49f34f1eb684977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 54/89] fix: cloning the access pointers of dependences

---
 source/extensions/dependence.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 7f5fb28..dc4a9f9 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -527,6 +527,8 @@ static osl_dependence_t* osl_dependence_nclone(const osl_dependence_t* dep,
     node = osl_dependence_malloc();
     node->stmt_source_ptr = dep->stmt_source_ptr;
     node->stmt_target_ptr = dep->stmt_target_ptr;
+    node->ref_source_access_ptr = dep->ref_source_access_ptr;
+    node->ref_target_access_ptr = dep->ref_target_access_ptr;
     node->depth = dep->depth;
     node->type = dep->type;
     node->label_source = dep->label_source;
-- 
2.43.0


From 91d3f812b55e84b6cf3fdd346468fe7c6930d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 55/89] fix: reading a dependence with a long line

---
 source/extensions/dependence.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index dc4a9f9..de2a398 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -377,13 +377,14 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
   /* Read dimension information */
   osl_util_sskip_blank_and_comments(input);
   /* - make a copy of the first row */
-  char str[OSL_MAX_STRING];
+  char* str;
   size_t row_size = 0;
   char* tmp = *input;
   while ((*tmp != '\0') && (*tmp != '\n')) {
     tmp++;
     row_size += 1;
   }
+  OSL_malloc(str, char*, sizeof(char) * (row_size + 1));
   strncpy(str, *input, sizeof(char) * row_size);
   str[(tmp - *input)] = '\0';
   /* - Read the information */
@@ -396,6 +397,7 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
                     &dep->source_nb_local_dims_access,
                     &dep->target_nb_local_dims_domain,
                     &dep->target_nb_local_dims_access);
+  free(str);
   *input = tmp;
   /* - Check we got what we want */
   if (read != 8) {
-- 
2.43.0


From 32442fea00fdc4f2018f82bef451f2641e6b5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 56/89] fix: cloning the bodies of an irregular

---
 source/extensions/irregular.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 8fde9e1..eea4534 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -459,7 +459,7 @@ osl_irregular_t* osl_irregular_clone(const osl_irregular_t* irregular) {
     }
     for (j = 0; j < copy->nb_iterators[i]; j++)
       OSL_strdup(copy->iterators[i][j], irregular->iterators[i][j]);
-    OSL_strdup(copy->iterators[i][j], irregular->body[i]);
+    OSL_strdup(copy->body[i], irregular->body[i]);
   }
 
   return copy;
-- 
2.43.0


From 283993222a50a8dea008c21d71315bdd665c1e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 57/89] fix: comparing the predicates of irregulars

---
 source/extensions/irregular.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index eea4534..98b9180 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -488,6 +488,11 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
   i = 0;
   while (comp == 0 && i < c1->nb_statements) {
     comp = c1->nb_predicates[i] != c2->nb_predicates[i] ? 1 : 0;
+    j = 0;
+    while (comp == 0 && j < c1->nb_predicates[i]) {
+      comp = c1->predicates[i][j] != c2->predicates[i][j] ? 1 : 0;
+      j++;
+    }
     i++;
   }
   if (comp != 0)
@@ -496,10 +501,10 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
   i = 0;
   while (comp == 0 && i < c1->nb_control + c1->nb_exit) {
     comp += c1->nb_iterators[i] != c2->nb_iterators[i] ? 1 : 0;
-    comp += strcmp(c1->body[i], c2->body[i]);
+    comp += strcmp(c1->body[i], c2->body[i]) != 0 ? 1 : 0;
     j = 0;
     while (comp == 0 && j < c1->nb_iterators[i]) {
-      comp += strcmp(c1->iterators[i][j], c2->iterators[i][j]);
+      comp += strcmp(c1->iterators[i][j], c2->iterators[i][j]) != 0 ? 1 : 0;
       j++;
     }
     i++;
-- 
2.43.0


From 3801361b2be37048d8699ed103b9b5523eba2de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 58/89] fix: printing irregulars longer than OSL_MAX_STRING

---
 source/extensions/irregular.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 98b9180..a37f318 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -154,9 +154,10 @@ static void
 printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
               ...) {
   va_list va;
-  va_start(va, fmt);
   do {
+    va_start(va, fmt);
     int printed = vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);
+    va_end(va);
     if (printed < 0)
       OSL_error(
           "snprintf encountered an error while writing inside a local buffer");
@@ -168,7 +169,6 @@ printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
     OSL_realloc(*buf, char*, *buf_size * 2);
     *buf_size *= 2;
   } while (1);
-  va_end(va);
 }
 
 /**
-- 
2.43.0


From 96dca34acf021ecf4855c83e68b0b4ad964a522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 59/89] fix: the text of an irregular does not contain its own
 tags

---
 source/extensions/irregular.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index a37f318..cc361bb 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -189,14 +189,12 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
-    // Print the begin tag.
-    osl_util_safe_strcat(&string, OSL_TAG_IRREGULAR_START, &high_water_mark);
     size_t buf_offset = 0;
     size_t buf_size = OSL_MAX_STRING;
     OSL_malloc(buffer, char*, OSL_MAX_STRING * sizeof(char));
 
     // Print the content.
-    printf_in_buf(&buffer, &buf_size, &buf_offset, "\n%d\n",
+    printf_in_buf(&buffer, &buf_size, &buf_offset, "%d\n",
                   irregular->nb_statements);
     for (i = 0; i < irregular->nb_statements; i++) {
       printf_in_buf(&buffer, &buf_size, &buf_offset, "%d ",
@@ -234,10 +232,6 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
 
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    // Print the end tag.
-    osl_util_safe_strcat(&string, OSL_TAG_IRREGULAR_STOP "\n",
-                         &high_water_mark);
-
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
     free(buffer);
-- 
2.43.0


From 145cb77d0129386dbfa6735b76b6c3584ad80ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 60/89] fix: reading an irregular keeps its text, consumes it
 and accepts any length

---
 source/extensions/irregular.c | 42 +++++++++++++----------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index cc361bb..12540fb 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -252,29 +252,21 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
  * \param  extensions The input string where to find a irregular structure.
  * \return A pointer to the irregular structure that has been read.
  */
-osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
-  char *content, *tok;
+osl_irregular_t* osl_irregular_sread(char** input) {
   int i, j;
   osl_irregular_p irregular;
 
-  // FIXME: this is a quick and dirty thing to accept char ** instead
-  //        of char * in the parameter: really do it and update the
-  //        pointer to after what has been read.
-  content = *extensions_fixme;
-
-  if (content == NULL) {
+  if (*input == NULL) {
     OSL_debug("no irregular optional tag");
     return NULL;
   }
 
-  if (strlen(content) > OSL_MAX_STRING)
-    OSL_error("irregular too long");
-
   irregular = osl_irregular_malloc();
 
   // nb statements
-  tok = strtok(content, " \n");
-  irregular->nb_statements = atoi(tok);
+  irregular->nb_statements = osl_util_read_int(NULL, input);
+  if (irregular->nb_statements < 0)
+    OSL_error("negative number of statements");
   OSL_malloc(irregular->predicates, int**,
              sizeof(int*) * irregular->nb_statements);
   OSL_malloc(irregular->nb_predicates, int*,
@@ -283,21 +275,18 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
   // get predicats
   for (i = 0; i < irregular->nb_statements; i++) {
     // nb conditions
-    tok = strtok(NULL, " \n");
-    irregular->nb_predicates[i] = atoi(tok);
+    irregular->nb_predicates[i] = osl_util_read_int(NULL, input);
     OSL_malloc(irregular->predicates[i], int*,
                sizeof(int) * irregular->nb_predicates[i]);
-    for (j = 0; j < irregular->nb_predicates[i]; j++) {
-      tok = strtok(NULL, " \n");
-      irregular->predicates[i][j] = atoi(tok);
-    }
+    for (j = 0; j < irregular->nb_predicates[i]; j++)
+      irregular->predicates[i][j] = osl_util_read_int(NULL, input);
   }
   // Get nb predicat
   // control and exits :
-  tok = strtok(NULL, " \n");
-  irregular->nb_control = atoi(tok);
-  tok = strtok(NULL, " \n");
-  irregular->nb_exit = atoi(tok);
+  irregular->nb_control = osl_util_read_int(NULL, input);
+  irregular->nb_exit = osl_util_read_int(NULL, input);
+  if (irregular->nb_control < 0 || irregular->nb_exit < 0)
+    OSL_error("negative number of predicates");
 
   int nb_predicates = irregular->nb_control + irregular->nb_exit;
 
@@ -307,16 +296,15 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
 
   for (i = 0; i < nb_predicates; i++) {
     // Get number of iterators
-    tok = strtok(NULL, " \n");
-    irregular->nb_iterators[i] = atoi(tok);
+    irregular->nb_iterators[i] = osl_util_read_int(NULL, input);
     OSL_malloc(irregular->iterators[i], char**,
                sizeof(char*) * irregular->nb_iterators[i]);
 
     // Get iterators
     for (j = 0; j < irregular->nb_iterators[i]; j++)
-      OSL_strdup(irregular->iterators[i][j], strtok(NULL, " \n"));
+      irregular->iterators[i][j] = osl_util_read_string(NULL, input);
     // Get predicat string
-    OSL_strdup(irregular->body[i], strtok(NULL, "\n"));
+    irregular->body[i] = osl_util_read_line(NULL, input);
   }
 
   return irregular;
-- 
2.43.0


From 75b85d5707bb7b90b36e90369689371f97ddcfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 61/89] fix: read the data before a comment longer than
 OSL_MAX_STRING

Only the comments which start their line were skipped to their end: the
end of a long comment after some data was read as data.
---
 source/util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/util.c b/source/util.c
index 04d0fc9..4fa45d6 100644
--- a/source/util.c
+++ b/source/util.c
@@ -95,9 +95,13 @@ char* osl_util_skip_blank_and_comments(FILE* file, char* str) {
     while ((start != NULL) && isspace(*start) && (*start != '\n'))
       start++;
     // The end of a comment which does not fit in str is a comment as well.
-    if ((start != NULL) && (*start == '#') && (strchr(start, '\n') == NULL))
+    if ((start != NULL) && (strchr(start, '#') != NULL) &&
+        (strchr(start, '\n') == NULL)) {
       while (((c = fgetc(file)) != EOF) && (c != '\n'))
         ;
+      if (c == '\n')
+        start[strlen(start) - 1] = '\n';
+    }
   } while (start != NULL &&
            (*start == '#' || *start == '\n' || *start == '\0'));
 
-- 
2.43.0


From 9d9d96d9d1b9245d29827610fb202ebbd2b4d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 62/89] fix: comparing statements with an absent statement list

---
 source/statement.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/statement.c b/source/statement.c
index 1460f3a..b229d3c 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -684,6 +684,11 @@ int osl_statement_equal(const osl_statement_t* const s1,
   if (s1 == s2)
     return 1;
 
+  if ((s1 == NULL) || (s2 == NULL)) {
+    OSL_info("number of statements is not the same");
+    return 0;
+  }
+
   if (((s1->next != NULL) && (s2->next == NULL)) ||
       ((s1->next == NULL) && (s2->next != NULL))) {
     OSL_info("statements are not the same");
-- 
2.43.0


From 9ae90ff0158ddf691fc5b35cc07096e6b18609ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 63/89] fix: comparing scops without language

---
 source/scop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/scop.c b/source/scop.c
index a1d9ac9..2499a82 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -709,7 +709,8 @@ bool osl_scop_equal(const osl_scop_t* s1, const osl_scop_t* s2) {
       return 0;
     }
 
-    if (strcmp(s1->language, s2->language) != 0) {
+    if ((s1->language == NULL) != (s2->language == NULL) ||
+        (s1->language != NULL && strcmp(s1->language, s2->language) != 0)) {
       OSL_info("languages are not the same");
       return 0;
     }
-- 
2.43.0


From 1f3d76cb52c9451569eda68e5e2a48b6736a3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 64/89] fix: free the first part of a union when it is removed,
 as the others

---
 source/relation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/relation.c b/source/relation.c
index 139c34b..176390d 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -3010,6 +3010,8 @@ void osl_relation_remove_part(osl_relation_t** relation_list,
 
   if (*relation_list == part) {
     *relation_list = (*relation_list)->next;
+    part->next = NULL;
+    osl_relation_free(part);
     return;
   }
 
-- 
2.43.0


From 5063c1a353dbd121bff1f57e2c3e74ca01c29ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 65/89] fix: set the type of all the parts of the relations of
 a list

---
 source/relation_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation_list.c b/source/relation_list.c
index ec373ba..7b4a7c2 100644
--- a/source/relation_list.c
+++ b/source/relation_list.c
@@ -651,7 +651,7 @@ int osl_relation_list_integrity_check(const osl_relation_list_t* list, int type,
 void osl_relation_list_set_type(osl_relation_list_t* list, int type) {
   while (list != NULL) {
     if (list->elt != NULL) {
-      list->elt->type = type;
+      osl_relation_set_type(list->elt, type);
     }
     list = list->next;
   }
-- 
2.43.0


From 7f0632477bbdc31b1905cba81d602727c37b3b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 66/89] fix: extract registered extensions from the textual
 form

The extension looked up was the one of the interface, and its content
was used as if it were a generic holding a textual form.
---
 source/scop.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 2499a82..0100c55 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -878,15 +878,16 @@ int osl_scop_get_nb_parameters(const osl_scop_t* scop) {
  * \param interface The extension interface to register within the scop.
  */
 void osl_scop_register_extension(osl_scop_t* scop, osl_interface_t* interface) {
-  osl_generic_p textual, new;
+  osl_textual_p textual;
+  osl_generic_p new;
   char* extension_string;
 
   if ((interface != NULL) && (scop != NULL)) {
     osl_interface_add(&scop->registry, interface);
 
-    textual = osl_generic_lookup(scop->extension, interface->URI);
-    if (textual != NULL) {
-      extension_string = ((osl_textual_p)textual->data)->textual;
+    textual = osl_generic_lookup(scop->extension, OSL_URI_TEXTUAL);
+    if ((textual != NULL) && (textual->textual != NULL)) {
+      extension_string = textual->textual;
       new = osl_generic_sread(&extension_string, interface);
       osl_generic_add(&scop->extension, new);
     }
-- 
2.43.0


From 1387c249ee5b9e63732af07fa6347c5eeedad011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 67/89] fix: keep all the statements when removing unions from
 a scop

The statement after one with several parts replaced all its parts but
the first ones.
---
 source/scop.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 0100c55..1c8d158 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -666,9 +666,11 @@ osl_scop_t* osl_scop_remove_unions(const osl_scop_t* scop) {
         scop_statement_ptr->next = new_statement;
         scop_statement_ptr = scop_statement_ptr->next;
       }
+
+      // A statement may be replaced with several ones.
+      while (scop_statement_ptr && scop_statement_ptr->next != NULL)
+        scop_statement_ptr = scop_statement_ptr->next;
     }
-    while (scop_statement_ptr && scop_statement_ptr->next != NULL)
-      scop_statement_ptr = scop_statement_ptr->next;
 
     new_scop->context = osl_relation_clone(scop->context);
     new_scop->extension = osl_generic_clone(scop->extension);
-- 
2.43.0


From 2f9da7b70e67608c74638dc4ff05a6533c5c97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 68/89] fix: printing an integer longer than OSL_MAX_STRING

---
 source/int.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/int.c b/source/int.c
index f04719a..99ab6c8 100644
--- a/source/int.c
+++ b/source/int.c
@@ -604,10 +604,13 @@ void osl_int_free(const int precision, osl_int_t* const variable) {
  */
 void osl_int_print(FILE* const file, const int precision,
                    const osl_int_t value) {
-  char string[OSL_MAX_STRING];
+  char* string;
 
+  // room for the digits, the sign, the padding and the final '\0'
+  OSL_malloc(string, char*, osl_int_size_in_base_10(precision, value) + 8);
   osl_int_sprint(string, precision, value);
   fprintf(file, "%s", string);
+  free(string);
 }
 
 /**
-- 
2.43.0


From c7ba73eb9b1b286fc7fe3a3a91a57413cc7ce5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 69/89] fix: printing relations with integers longer than
 OSL_MAX_STRING

---
 source/relation.c | 53 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 176390d..b97e034 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -824,6 +824,27 @@ int osl_relation_nb_components(const osl_relation_t* relation) {
   return nb_components;
 }
 
+/**
+ * osl_relation_safe_strcat_int function:
+ * this function concatenates the printing of an integer, whatever its length,
+ * to a string (see osl_util_safe_strcat).
+ * \param[in,out] string    The destination string (may be reallocated).
+ * \param[in]     precision The precision of the integer.
+ * \param[in]     value     The integer to print.
+ * \param[in,out] hwm       The size of the destination string (high water
+ *                          mark, may be updated).
+ */
+static void osl_relation_safe_strcat_int(char** string, int precision,
+                                         const osl_int_t value, size_t* hwm) {
+  char* buffer;
+
+  // room for the digits, the sign, the padding and the final '\0'
+  OSL_malloc(buffer, char*, osl_int_size_in_base_10(precision, value) + 8);
+  osl_int_sprint(buffer, precision, value);
+  osl_util_safe_strcat(string, buffer, hwm);
+  free(buffer);
+}
+
 /**
  * osl_relation_spprint_polylib function:
  * this function pretty-prints the content of an osl_relation_t structure
@@ -891,8 +912,8 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
 
     for (i = 0; i < relation->nb_rows; i++) {
       for (j = 0; j < relation->nb_columns; j++) {
-        osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_relation_safe_strcat_int(&string, relation->precision,
+                                     relation->m[i][j], &high_water_mark);
         snprintf(buffer, OSL_MAX_STRING, " ");
         osl_util_safe_strcat(&string, buffer, &high_water_mark);
       }
@@ -1063,20 +1084,20 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // First column
       if (!is_access_array) {
         // array index name for scoplib
-        osl_int_sprint(buffer, relation->precision, relation->m[i][0]);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_relation_safe_strcat_int(&string, relation->precision,
+                                     relation->m[i][0], &high_water_mark);
         snprintf(buffer, OSL_MAX_STRING, " ");
         osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
       } else {
         // The first column represents the array index name in openscop
         if (i == start_row)
-          osl_int_sprint(buffer, relation->precision,
-                         relation->m[0][relation->nb_columns - 1]);
+          osl_relation_safe_strcat_int(
+              &string, relation->precision,
+              relation->m[0][relation->nb_columns - 1], &high_water_mark);
         else
-          snprintf(buffer, OSL_MAX_STRING, "   0 ");
+          osl_util_safe_strcat(&string, "   0 ", &high_water_mark);
 
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
         snprintf(buffer, OSL_MAX_STRING, " ");
         osl_util_safe_strcat(&string, buffer, &high_water_mark);
       }
@@ -1084,16 +1105,16 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // Rest of the array
       if (relation->type == OSL_TYPE_DOMAIN) {
         for (j = 1; j < index_input_dims; j++) {
-          osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
-          osl_util_safe_strcat(&string, buffer, &high_water_mark);
+          osl_relation_safe_strcat_int(&string, relation->precision,
+                                       relation->m[i][j], &high_water_mark);
           snprintf(buffer, OSL_MAX_STRING, " ");
           osl_util_safe_strcat(&string, buffer, &high_water_mark);
         }
 
         // Jmp input_dims
         for (j = index_params; j < relation->nb_columns; j++) {
-          osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
-          osl_util_safe_strcat(&string, buffer, &high_water_mark);
+          osl_relation_safe_strcat_int(&string, relation->precision,
+                                       relation->m[i][j], &high_water_mark);
           snprintf(buffer, OSL_MAX_STRING, " ");
           osl_util_safe_strcat(&string, buffer, &high_water_mark);
         }
@@ -1106,8 +1127,8 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
             snprintf(buffer, OSL_MAX_STRING, "   0 ");
             osl_util_safe_strcat(&string, buffer, &high_water_mark);
           } else {
-            osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
-            osl_util_safe_strcat(&string, buffer, &high_water_mark);
+            osl_relation_safe_strcat_int(&string, relation->precision,
+                                         relation->m[i][j], &high_water_mark);
             snprintf(buffer, OSL_MAX_STRING, " ");
             osl_util_safe_strcat(&string, buffer, &high_water_mark);
           }
@@ -1124,8 +1145,8 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
             snprintf(buffer, OSL_MAX_STRING, "  0 ");
             osl_util_safe_strcat(&string, buffer, &high_water_mark);
           } else {
-            osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
-            osl_util_safe_strcat(&string, buffer, &high_water_mark);
+            osl_relation_safe_strcat_int(&string, relation->precision,
+                                         relation->m[i][j], &high_water_mark);
             snprintf(buffer, OSL_MAX_STRING, " ");
             osl_util_safe_strcat(&string, buffer, &high_water_mark);
           }
-- 
2.43.0


From e5a0870baac699409e83e5ce27e5174b28adbd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 70/89] fix: integrity of a union with undefined attributes in
 a later part

---
 source/relation.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/relation.c b/source/relation.c
index b97e034..92a3eb4 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2580,6 +2580,14 @@ int osl_relation_integrity_check(const osl_relation_t* relation,
   }
 
   while (relation != NULL) {
+    // All the attributes of all the union parts should be defined.
+    if ((relation->nb_output_dims < 0) || (relation->nb_input_dims < 0) ||
+        (relation->nb_local_dims < 0) || (relation->nb_parameters < 0)) {
+      OSL_warning("all attributes should be defined and non-negative");
+      osl_relation_dump(stderr, relation);
+      return 0;
+    }
+
     // Attributes (except the number of local dimensions) should be the same
     // in all parts of the union.
     if ((expected_nb_output_dims != relation->nb_output_dims) ||
-- 
2.43.0


From 3cb6ef54ccb7e17eeb2c1fccb564861aa2ea25c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 71/89] fix: array identifiers written with coefficients beyond
 int

---
 source/relation.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 92a3eb4..1a6dddc 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2705,6 +2705,7 @@ int osl_relation_get_array_id(const osl_relation_t* relation) {
   int nb_array_id;
   int row_id = 0;
   int precision;
+  osl_int_t id;
 
   if (relation == NULL)
     return OSL_UNDEFINED;
@@ -2756,13 +2757,21 @@ int osl_relation_get_array_id(const osl_relation_t* relation) {
       OSL_warning("rational array identifier");
       return OSL_UNDEFINED;
     }
-    array_id = -osl_int_get_si(precision,
-                               relation->m[row_id][relation->nb_columns - 1]);
-    array_id /= osl_int_get_si(precision, relation->m[row_id][1]);
-    if (array_id <= 0) {
+    if (osl_int_zero(precision,
+                     relation->m[row_id][relation->nb_columns - 1]) ||
+        (osl_int_pos(precision,
+                     relation->m[row_id][relation->nb_columns - 1]) ==
+         osl_int_pos(precision, relation->m[row_id][1]))) {
       OSL_warning("negative or 0 identifier in access function");
       return OSL_UNDEFINED;
     }
+    osl_int_init(precision, &id);
+    osl_int_div_exact(precision, &id,
+                      relation->m[row_id][relation->nb_columns - 1],
+                      relation->m[row_id][1]);
+    osl_int_oppose(precision, &id, id);
+    array_id = osl_int_get_si(precision, id);
+    osl_int_clear(precision, &id);
 
     // Unions of accesses are allowed, but they should refer at the same array.
     if (first) {
-- 
2.43.0


From 9c00652ba8d77633aed8351b19ea504a3fc79784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 72/89] fix: refuse a second generic with a given URI even
 without data

---
 source/generic.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/generic.c b/source/generic.c
index 58567d4..d19fb69 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -371,7 +371,7 @@ osl_generic_t* osl_generic_read(FILE* const file,
  * \param[in] generic The generic list to add to the initial list.
  */
 void osl_generic_add(osl_generic_t** list, osl_generic_t* generic) {
-  osl_generic_p tmp = *list, check;
+  osl_generic_p tmp, check;
 
   if (generic != NULL) {
     // First, check that the generic list is OK.
@@ -381,12 +381,14 @@ void osl_generic_add(osl_generic_t** list, osl_generic_t* generic) {
         OSL_error("no interface or URI in a generic to add to a list");
 
       // TODO: move this to the integrity check.
-      if (osl_generic_lookup(*list, check->interface->URI) != NULL)
-        OSL_error("only one generic with a given URI is allowed");
+      for (tmp = *list; tmp != NULL; tmp = tmp->next)
+        if (osl_generic_has_URI(tmp, check->interface->URI))
+          OSL_error("only one generic with a given URI is allowed");
       check = check->next;
     }
 
     if (*list != NULL) {
+      tmp = *list;
       while (tmp->next != NULL)
         tmp = tmp->next;
       tmp->next = generic;
-- 
2.43.0


From ef9019869980b28784ff48bbf98e70cc2635ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 73/89] fix: concatenate empty generated string lists

---
 source/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/strings.c b/source/strings.c
index b9acae7..d2b1667 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -499,7 +499,7 @@ void osl_strings_add_strings(osl_strings_t** const dest,
   unsigned int i = 0;
 
   res = osl_strings_clone(str1);
-  while (str2->string[i] != NULL) {
+  while (i < osl_strings_size(str2)) {
     osl_strings_add(res, str2->string[i]);
     i++;
   }
-- 
2.43.0


From 550c84870c957f6f05bfc48e7c3ed47b706c8d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 74/89] fix: check everything the SCoPLib format cannot
 represent

---
 source/scop.c | 99 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 71 insertions(+), 28 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 1c8d158..628f980 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -792,61 +792,104 @@ int osl_scop_integrity_check(const osl_scop_t* scop) {
   return 1;
 }
 
+/**
+ * osl_relation_is_scoplib_mapping function:
+ * this function returns 1 if a scattering or access relation may be written
+ * in the SCoPLib format, i.e., as a single matrix with one row per output
+ * dimension, 0 otherwise.
+ * \param[in] relation The relation to check.
+ * \return 1 if the relation is a SCoPLib mapping, 0 otherwise.
+ */
+static int osl_relation_is_scoplib_mapping(const osl_relation_t* relation) {
+  int i, j;
+
+  if (relation == NULL || relation->next != NULL) {
+    OSL_warning("Neither an absent mapping nor a union is supported");
+    return 0;
+  }
+
+  if (relation->nb_local_dims != 0) {
+    OSL_warning("Local dims in a mapping");
+    return 0;
+  }
+
+  // Check if there is only the -Identity in the output_dims
+  // and the lines MUST be in the right order
+  if (relation->nb_rows != relation->nb_output_dims) {
+    OSL_warning("Wrong -Identity");
+    return 0;
+  }
+  for (i = 0; i < relation->nb_rows; i++) {
+    if (!osl_int_zero(relation->precision, relation->m[i][0])) {
+      OSL_warning("Inequality in a mapping");
+      return 0;
+    }
+    for (j = 0; j < relation->nb_output_dims; j++) {
+      if ((i == j &&
+           !osl_int_mone(relation->precision, relation->m[i][j + 1])) ||
+          (i != j &&
+           !osl_int_zero(relation->precision, relation->m[i][j + 1]))) {
+        OSL_warning("Wrong -Identity");
+        return 0;
+      }
+    }
+  }
+
+  return 1;
+}
+
 /**
  * osl_scop_check_compatible_scoplib function:
- * This function checks that a scop is "well formed". It returns 0 if the
- * check failed or 1 if no problem has been detected.
+ * This function checks that a scop is "well formed" and may be written in
+ * the SCoPLib format. It returns 0 if the check failed or 1 if no problem has
+ * been detected.
  * \param scop  The scop we want to check.
- * \return 0 if the integrity check fails, 1 otherwise.
+ * \return 0 if the check fails, 1 otherwise.
  */
 int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
+  if (scop == NULL)
+    return 1;
   if (!osl_scop_integrity_check(scop))
     return 0;
   if (scop->next != NULL)
     return 0;
-  if (scop == NULL || scop->statement == NULL)
+
+  // The context is one set of constraints on the parameters only
+  if (scop->context == NULL || scop->context->next != NULL ||
+      scop->context->nb_local_dims != 0)
+    return 0;
+  if (scop->statement == NULL)
     return 1;
 
   osl_relation_p domain;
   osl_statement_p statement;
-  osl_relation_p scattering;
-  int precision = scop->statement->scattering->precision;
-  int i, j;
+  osl_relation_list_p access;
 
   statement = scop->statement;
   while (statement != NULL) {
-    scattering = statement->scattering;
-
-    if (scattering->nb_local_dims != 0) {
-      OSL_error("Local dims in scattering matrix");
+    if (statement->domain == NULL) {
+      OSL_warning("No domain");
       return 0;
     }
 
+    if (!osl_relation_is_scoplib_mapping(statement->scattering))
+      return 0;
+
     domain = statement->domain;
     while (domain != NULL) {
       if (domain->nb_local_dims != 0) {
-        OSL_error("Local dims in domain matrix");
+        OSL_warning("Local dims in domain matrix");
         return 0;
       }
       domain = domain->next;
     }
 
-    // Check if there is only the -Identity in the output_dims
-    // and the lines MUST be in the right order
-    for (i = 0; i < scattering->nb_rows; i++) {
-      for (j = 0; j < scattering->nb_output_dims; j++) {
-        if (i == j) {  // -1
-          if (!osl_int_mone(precision, scattering->m[i][j + 1])) {
-            OSL_error("Wrong -Identity");
-            return 0;
-          }
-        } else {  // 0
-          if (!osl_int_zero(precision, scattering->m[i][j + 1])) {
-            OSL_error("Wrong -Identity");
-            return 0;
-          }
-        }
-      }
+    for (access = statement->access; access != NULL; access = access->next) {
+      if (access->elt == NULL)
+        continue;
+      if (access->elt->type == OSL_TYPE_ACCESS ||
+          !osl_relation_is_scoplib_mapping(access->elt))
+        return 0;
     }
 
     statement = statement->next;
-- 
2.43.0


From 85be618facf822a018a448d9b6d0a39ae65fc1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 75/89] fix: SCoPLib export of may-write accesses

---
 source/relation.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 1a6dddc..4a4df7e 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -996,8 +996,10 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
   }
 
   is_access_array =
-      (relation->type == OSL_TYPE_READ || relation->type == OSL_TYPE_WRITE ? 1
-                                                                           : 0);
+      (relation->type == OSL_TYPE_READ || relation->type == OSL_TYPE_WRITE ||
+               relation->type == OSL_TYPE_MAY_WRITE
+           ? 1
+           : 0);
 
   // Print each part of the union.
 
-- 
2.43.0


From 941d72a94b3d59c2b61825ea7523ff8735afbee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 76/89] fix: no fake iterator for unconstrained iterators in
 SCoPLib export

---
 source/statement.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/statement.c b/source/statement.c
index b229d3c..174214c 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -315,8 +315,10 @@ void osl_statement_pprint_scoplib(FILE* const file,
       names->iterators = body->iterators;
     }
 
-    add_fakeiter =
-        statement->domain->nb_rows == 0 && statement->scattering->nb_rows == 1;
+    add_fakeiter = statement->domain->nb_output_dims == 0 &&
+                   statement->domain->nb_rows == 0 &&
+                   statement->domain->next == NULL &&
+                   statement->scattering->nb_rows == 1;
 
     fprintf(file, "# =============================================== ");
     fprintf(file, "Statement %d\n", number);
-- 
2.43.0


From a742ce104923c2e9deb365e095617dd0416edb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 77/89] fix: SCoPLib export of statements without accesses

---
 source/statement.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/statement.c b/source/statement.c
index 174214c..681d555 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -339,10 +339,13 @@ void osl_statement_pprint_scoplib(FILE* const file,
 
     fprintf(file, "# ---------------------------------------------- ");
     fprintf(file, "%2d.3 Access\n", number);
-    fprintf(file, "# Access informations are provided\n1\n");
-
-    osl_relation_list_pprint_access_array_scoplib(file, statement->access,
-                                                  names, add_fakeiter);
+    if (osl_relation_list_count(statement->access) > 0) {
+      fprintf(file, "# Access informations are provided\n1\n");
+      osl_relation_list_pprint_access_array_scoplib(file, statement->access,
+                                                    names, add_fakeiter);
+    } else {
+      fprintf(file, "# Access informations are not provided\n0\n");
+    }
     fprintf(file, "\n");
 
     fprintf(file, "# ---------------------------------------------- ");
-- 
2.43.0


From 780648888f53cb7ed20438117509671df4a59660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 78/89] fix: read unroll factors beyond the limit of int

---
 source/extensions/pluto_unroll.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/extensions/pluto_unroll.c b/source/extensions/pluto_unroll.c
index f808439..0095db8 100644
--- a/source/extensions/pluto_unroll.c
+++ b/source/extensions/pluto_unroll.c
@@ -58,6 +58,8 @@
  *                                                                            *
  ******************************************************************************/
 
+#include <errno.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -227,6 +229,8 @@ char* osl_pluto_unroll_sprint(const osl_pluto_unroll_t* pluto_unroll) {
  */
 osl_pluto_unroll_t* osl_pluto_unroll_sread(char** input) {
   osl_pluto_unroll_p p = NULL;
+  char *tmp, *end;
+  unsigned long factor;
   if (osl_util_read_int(NULL, input) == 1) {
     p = osl_pluto_unroll_malloc();
   }
@@ -238,7 +242,13 @@ osl_pluto_unroll_t* osl_pluto_unroll_sread(char** input) {
     // jam
     p->jam = osl_util_read_int(NULL, input);
     // factor
-    p->factor = (unsigned int)osl_util_read_int(NULL, input);
+    tmp = osl_util_read_string(NULL, input);
+    errno = 0;
+    factor = strtoul(tmp, &end, 10);
+    if ((end == tmp) || (tmp[0] == '-') || (errno != 0) || (factor > UINT_MAX))
+      OSL_error("an unsigned int was expected");
+    p->factor = (unsigned int)factor;
+    free(tmp);
     // Next
     if (osl_util_read_int(NULL, input) == 1) {
       p->next = osl_pluto_unroll_malloc();
-- 
2.43.0


From 60c8b4c784d21aa8ac6b2344062b69caa74eeb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 79/89] fix: endless reading of statement extensions at the end
 of a file

---
 source/statement.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/statement.c b/source/statement.c
index 681d555..7acffd0 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -468,6 +468,8 @@ osl_statement_t* osl_statement_pread(FILE* const file,
     nb_ext = osl_util_read_int(file, NULL);
     for (i = 0; i < nb_ext; i++) {
       new = osl_generic_read_one(file, registry);
+      if ((new == NULL) && feof(file))
+        OSL_error("not enough statement extensions");
       osl_generic_add(&stmt->extension, new);
     }
   }
-- 
2.43.0


From 9d7439f3ae4b0290a67c186dedb63ac97cc267a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 80/89] fix: comment right after a string read from a file

---
 source/util.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/util.c b/source/util.c
index 4fa45d6..95206bd 100644
--- a/source/util.c
+++ b/source/util.c
@@ -221,17 +221,17 @@ char* osl_util_read_string(FILE* file, char** str) {
     start = osl_util_skip_blank_and_comments(file, s);
     if (start == NULL)
       OSL_error("a string was expected, not the end of the file");
-    while (start[size] && !isspace(start[size]))
-      size++;
   } else {
     // Parse from a string.
     // Skip blank/commented lines.
     osl_util_sskip_blank_and_comments(str);
     start = *str;
-    while (start[size] && !isspace(start[size]) && start[size] != '#')
-      size++;
-    *str += size;
   }
+
+  while (start[size] && !isspace(start[size]) && start[size] != '#')
+    size++;
+  if (str != NULL)
+    *str += size;
   if (size == 0)
     OSL_error("a string was expected");
 
-- 
2.43.0


From 988523a5053a126b6014731f7453644523aeb828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 81/89] fix: sizes of relations and dependences beyond the int
 range

---
 include/osl/util.h             |  1 +
 source/extensions/dependence.c | 19 +++++++++--------
 source/relation.c              | 38 ++++++++++++++--------------------
 source/util.c                  | 29 ++++++++++++++++++++++++++
 4 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/include/osl/util.h b/include/osl/util.h
index 86940fd..57a7c0a 100644
--- a/include/osl/util.h
+++ b/include/osl/util.h
@@ -74,6 +74,7 @@ char* osl_util_skip_blank_and_comments(FILE*, char*);
 char* osl_util_read_full_line(FILE*);
 void osl_util_sskip_blank_and_comments(char**);
 int osl_util_read_int(FILE*, char**);
+int osl_util_scan_ints(const char*, int*, int);
 char* osl_util_read_string(FILE*, char**);
 char* osl_util_read_line(FILE*, char**);
 char* osl_util_read_tag(FILE*, char**);
diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index de2a398..505f71b 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -388,21 +388,22 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
   strncpy(str, *input, sizeof(char) * row_size);
   str[(tmp - *input)] = '\0';
   /* - Read the information */
-  int read = sscanf(str, " %d %d %d %d %d %d %d %d",
-                    &dep->source_nb_output_dims_domain,
-                    &dep->source_nb_output_dims_access,
-                    &dep->target_nb_output_dims_domain,
-                    &dep->target_nb_output_dims_access,
-                    &dep->source_nb_local_dims_domain,
-                    &dep->source_nb_local_dims_access,
-                    &dep->target_nb_local_dims_domain,
-                    &dep->target_nb_local_dims_access);
+  int dims[8];
+  int read = osl_util_scan_ints(str, dims, 8);
   free(str);
   *input = tmp;
   /* - Check we got what we want */
   if (read != 8) {
     OSL_error("not 8 integers to provide dimension information");
   }
+  dep->source_nb_output_dims_domain = dims[0];
+  dep->source_nb_output_dims_access = dims[1];
+  dep->target_nb_output_dims_domain = dims[2];
+  dep->target_nb_output_dims_access = dims[3];
+  dep->source_nb_local_dims_domain = dims[4];
+  dep->source_nb_local_dims_access = dims[5];
+  dep->target_nb_local_dims_domain = dims[6];
+  dep->target_nb_local_dims_access = dims[7];
 
   /* Read the osl_relation */
   dep->domain = osl_relation_psread(input, precision);
diff --git a/source/relation.c b/source/relation.c
index 4a4df7e..4e762b3 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1426,8 +1426,7 @@ static void osl_relation_sread_row(char** input, osl_relation_t* relation,
  */
 osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
   int i, k, read = 0;
-  int nb_rows, nb_columns;
-  int nb_output_dims, nb_input_dims, nb_local_dims, nb_parameters;
+  int sizes[6];
   int nb_union_parts = 1;
   int may_read_nb_union_parts = 1;
   int read_attributes = 1;
@@ -1448,9 +1447,7 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
       line = osl_util_read_full_line(foo);
       if (line == NULL)
         OSL_error("no size or attributes of a relation");
-      read = sscanf(line, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
-                    &nb_output_dims, &nb_input_dims, &nb_local_dims,
-                    &nb_parameters);
+      read = osl_util_scan_ints(line, sizes, 6);
       free(line);
 
       if (((read != 1) && (read != 6)) ||
@@ -1459,7 +1456,7 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
 
       if (read == 1) {
         // Only one number means a union and is the number of parts.
-        nb_union_parts = nb_rows;
+        nb_union_parts = sizes[0];
         if (nb_union_parts < 1)
           OSL_error("negative nb of union parts");
 
@@ -1471,12 +1468,12 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
     }
 
     // Allocate the union part and fill its properties.
-    relation = osl_relation_pmalloc(precision, nb_rows, nb_columns);
+    relation = osl_relation_pmalloc(precision, sizes[0], sizes[1]);
     relation->type = type;
-    relation->nb_output_dims = nb_output_dims;
-    relation->nb_input_dims = nb_input_dims;
-    relation->nb_local_dims = nb_local_dims;
-    relation->nb_parameters = nb_parameters;
+    relation->nb_output_dims = sizes[2];
+    relation->nb_input_dims = sizes[3];
+    relation->nb_local_dims = sizes[4];
+    relation->nb_parameters = sizes[5];
 
     // Read the matrix of constraints.
     for (i = 0; (i < relation->nb_rows) && (relation->nb_columns > 0); i++) {
@@ -1534,8 +1531,7 @@ osl_relation_t* osl_relation_psread(char** input, int precision) {
  */
 osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
   int i, k, read = 0;
-  int nb_rows, nb_columns;
-  int nb_output_dims, nb_input_dims, nb_local_dims, nb_parameters;
+  int sizes[6];
   int nb_union_parts = 1;
   int may_read_nb_union_parts = 1;
   int read_attributes = 1;
@@ -1556,9 +1552,7 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
       strncpy(str, *input, row_size);
       str[row_size] = '\0';
 
-      read = sscanf(str, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
-                    &nb_output_dims, &nb_input_dims, &nb_local_dims,
-                    &nb_parameters);
+      read = osl_util_scan_ints(str, sizes, 6);
       free(str);
       *input += row_size;
 
@@ -1568,7 +1562,7 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
 
       if (read == 1) {
         // Only one number means a union and is the number of parts.
-        nb_union_parts = nb_rows;
+        nb_union_parts = sizes[0];
         if (nb_union_parts < 1)
           OSL_error("negative nb of union parts");
 
@@ -1580,11 +1574,11 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
     }
 
     // Allocate the union part and fill its properties.
-    relation = osl_relation_pmalloc(precision, nb_rows, nb_columns);
-    relation->nb_output_dims = nb_output_dims;
-    relation->nb_input_dims = nb_input_dims;
-    relation->nb_local_dims = nb_local_dims;
-    relation->nb_parameters = nb_parameters;
+    relation = osl_relation_pmalloc(precision, sizes[0], sizes[1]);
+    relation->nb_output_dims = sizes[2];
+    relation->nb_input_dims = sizes[3];
+    relation->nb_local_dims = sizes[4];
+    relation->nb_parameters = sizes[5];
 
     // Read the matrix of constraints.
     for (i = 0; (i < relation->nb_rows) && (relation->nb_columns > 0); i++) {
diff --git a/source/util.c b/source/util.c
index 95206bd..2af6f98 100644
--- a/source/util.c
+++ b/source/util.c
@@ -198,6 +198,35 @@ int osl_util_read_int(FILE* file, char** str) {
   return (int)res;
 }
 
+/**
+ * osl_util_scan_ints function:
+ * this function reads at most nb ints, separated by blanks, from the beginning
+ * of the input string. It stops at the first item which is not a number and
+ * it exits with an error on a number which does not fit in an int.
+ * \param[in]  str  The string where to read ints.
+ * \param[out] ints The array where to store the ints that have been read.
+ * \param[in]  nb   The maximum number of ints to read.
+ * \return The number of ints that have been read.
+ */
+int osl_util_scan_ints(const char* str, int* ints, int nb) {
+  int read;
+  char* end;
+  long value;
+
+  for (read = 0; read < nb; read++) {
+    errno = 0;
+    value = strtol(str, &end, 10);
+    if (end == str)
+      break;
+    if ((errno != 0) || (value < INT_MIN) || (value > INT_MAX))
+      OSL_error("an int was expected");
+    ints[read] = (int)value;
+    str = end;
+  }
+
+  return read;
+}
+
 /**
  * osl_util_read_string function:
  * reads a string on the input 'file' or the input string 'str' depending on
-- 
2.43.0


From 559bb1a06f5f1deb43ffce51519bc5b57824115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:11 +0000
Subject: [PATCH 82/89] fix: refuse negative numbers of statements, statement
 extensions and iterators

---
 source/body.c      | 2 ++
 source/scop.c      | 2 ++
 source/statement.c | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/source/body.c b/source/body.c
index 701df30..e543eb8 100644
--- a/source/body.c
+++ b/source/body.c
@@ -246,6 +246,8 @@ osl_body_t* osl_body_sread(char** input) {
 
     // Read the number of iterators.
     nb_iterators = osl_util_read_int(NULL, input);
+    if (nb_iterators < 0)
+      OSL_error("negative number of iterators");
 
     // Read the iterator strings if any.
     if (nb_iterators > 0) {
diff --git a/source/scop.c b/source/scop.c
index 628f980..ac94616 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -466,6 +466,8 @@ osl_scop_t* osl_scop_pread(FILE* const file, osl_interface_t* const registry,
 
     // Read the number of statements.
     nb_statements = osl_util_read_int(file, NULL);
+    if (nb_statements < 0)
+      OSL_error("negative number of statements");
 
     for (i = 0; i < nb_statements; i++) {
       // Read each statement.
diff --git a/source/statement.c b/source/statement.c
index 7acffd0..cedc2d9 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -466,6 +466,8 @@ osl_statement_t* osl_statement_pread(FILE* const file,
 
     // Read the Extensions
     nb_ext = osl_util_read_int(file, NULL);
+    if (nb_ext < 0)
+      OSL_error("negative number of statement extensions");
     for (i = 0; i < nb_ext; i++) {
       new = osl_generic_read_one(file, registry);
       if ((new == NULL) && feof(file))
-- 
2.43.0


From 93f695858462c39d9140e591dc9702508c77bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:11 +0000
Subject: [PATCH 83/89] fix: refuse negative numbers of elements in the
 extensions

---
 source/extensions/annotation.c | 6 ++++--
 source/extensions/arrays.c     | 2 ++
 source/extensions/dependence.c | 2 ++
 source/extensions/irregular.c  | 4 ++++
 source/extensions/loop.c       | 9 +++++++--
 source/extensions/region.c     | 8 ++++++--
 source/extensions/scatinfos.c  | 6 +++++-
 source/extensions/symbols.c    | 2 ++
 8 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index e23e70d..98daa17 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -265,8 +265,10 @@ osl_annotation_t* osl_annotation_sread(char** input) {
 
 #define osl_annotation_sread_text(field)                           \
   do {                                                             \
-    size_t count = (size_t)osl_util_read_int(NULL, input);         \
-    for (size_t j = 0; j < count; ++j) {                           \
+    const int count = osl_util_read_int(NULL, input);              \
+    if (count < 0)                                                 \
+      OSL_error("negative number of lines");                       \
+    for (int j = 0; j < count; ++j) {                              \
       const int line_type = osl_util_read_int(NULL, input);        \
       char* const line = osl_util_read_line(NULL, input);          \
       osl_annotation_text_append(&output->field, line_type, line); \
diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index b5bc01c..7a1c88b 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -199,6 +199,8 @@ osl_arrays_t* osl_arrays_sread(char** input) {
 
   // Find the number of names provided.
   nb_names = osl_util_read_int(NULL, input);
+  if (nb_names < 0)
+    OSL_error("negative number of arrays");
 
   // Allocate the array of id and names.
   arrays = osl_arrays_malloc();
diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 505f71b..ff4efa8 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -436,6 +436,8 @@ osl_dependence_t* osl_dependence_psread(char** input, int precision) {
   int i;
   /* Get the number of dependences. */
   int nbdeps = osl_util_read_int(NULL, input);
+  if (nbdeps < 0)
+    OSL_error("negative number of dependences");
 
   /* For each of them, read 1 and shift of the read size. */
   for (i = 0; i < nbdeps; i++) {
diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 12540fb..677977a 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -276,6 +276,8 @@ osl_irregular_t* osl_irregular_sread(char** input) {
   for (i = 0; i < irregular->nb_statements; i++) {
     // nb conditions
     irregular->nb_predicates[i] = osl_util_read_int(NULL, input);
+    if (irregular->nb_predicates[i] < 0)
+      OSL_error("negative number of predicates");
     OSL_malloc(irregular->predicates[i], int*,
                sizeof(int) * irregular->nb_predicates[i]);
     for (j = 0; j < irregular->nb_predicates[i]; j++)
@@ -297,6 +299,8 @@ osl_irregular_t* osl_irregular_sread(char** input) {
   for (i = 0; i < nb_predicates; i++) {
     // Get number of iterators
     irregular->nb_iterators[i] = osl_util_read_int(NULL, input);
+    if (irregular->nb_iterators[i] < 0)
+      OSL_error("negative number of iterators");
     OSL_malloc(irregular->iterators[i], char**,
                sizeof(char*) * irregular->nb_iterators[i]);
 
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 07b9695..b2c9c2e 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -267,7 +267,7 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
  */
 osl_loop_t* osl_loop_sread(char** input) {
   size_t i;
-  int nb_loops;
+  int nb_loops, nb_stmts;
   osl_loop_p head;
   osl_loop_p loop;
 
@@ -278,6 +278,8 @@ osl_loop_t* osl_loop_sread(char** input) {
 
   // Find the number of names provided.
   nb_loops = osl_util_read_int(NULL, input);
+  if (nb_loops < 0)
+    OSL_error("negative number of loops");
   if (nb_loops == 0)
     return NULL;
 
@@ -286,7 +288,10 @@ osl_loop_t* osl_loop_sread(char** input) {
 
   while (nb_loops != 0) {
     loop->iter = osl_util_read_string(NULL, input);
-    loop->nb_stmts = (size_t)osl_util_read_int(NULL, input);
+    nb_stmts = osl_util_read_int(NULL, input);
+    if (nb_stmts < 0)
+      OSL_error("negative number of statements");
+    loop->nb_stmts = (size_t)nb_stmts;
 
     OSL_malloc(loop->stmt_ids, int*, loop->nb_stmts * sizeof(int));
     for (i = 0; i < loop->nb_stmts; i++)
diff --git a/source/extensions/region.c b/source/extensions/region.c
index 21bd685..cf6d181 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -304,6 +304,8 @@ osl_region_t* osl_region_sread(char** input) {
   }
 
   const int region_count = osl_util_read_int(NULL, input);
+  if (region_count < 0)
+    OSL_error("negative number of regions");
   if (!region_count)
     return NULL;
 
@@ -314,8 +316,10 @@ osl_region_t* osl_region_sread(char** input) {
 
 #define osl_region_sread_text(field)                            \
   do {                                                          \
-    size_t line_count = (size_t)osl_util_read_int(NULL, input); \
-    for (size_t j = 0; j < line_count; ++j) {                   \
+    const int line_count = osl_util_read_int(NULL, input);      \
+    if (line_count < 0)                                         \
+      OSL_error("negative number of lines");                    \
+    for (int j = 0; j < line_count; ++j) {                      \
       const int line_type = osl_util_read_int(NULL, input);     \
       char* const line = osl_util_read_line(NULL, input);       \
       osl_region_text_append(&current->field, line_type, line); \
diff --git a/source/extensions/scatinfos.c b/source/extensions/scatinfos.c
index 1b61ca6..0e0b77f 100644
--- a/source/extensions/scatinfos.c
+++ b/source/extensions/scatinfos.c
@@ -234,6 +234,7 @@ char* osl_scatinfos_sprint(const osl_scatinfos_t* const scatinfos) {
  * \return A pointer to the scatinfos structure that has been read.
  */
 osl_scatinfos_t* osl_scatinfos_sread(char** input) {
+  int nb_scatdims;
   osl_scatinfos_p scatinfos;
 
   if (*input == NULL) {
@@ -242,7 +243,10 @@ osl_scatinfos_t* osl_scatinfos_sread(char** input) {
   }
 
   scatinfos = osl_scatinfos_malloc();
-  scatinfos->nb_scatdims = (size_t)osl_util_read_int(NULL, input);
+  nb_scatdims = osl_util_read_int(NULL, input);
+  if (nb_scatdims < 0)
+    OSL_error("negative number of scattering dimensions");
+  scatinfos->nb_scatdims = (size_t)nb_scatdims;
 
   OSL_malloc(scatinfos->parallel, int*, scatinfos->nb_scatdims * sizeof(int));
   for (size_t i = 0; i < scatinfos->nb_scatdims; i++)
diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index be00cc4..bf62d14 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -328,6 +328,8 @@ osl_symbols_t* osl_symbols_sread(char** input) {
 
   // Find the number of names provided.
   nb_symbols = osl_util_read_int(NULL, input);
+  if (nb_symbols < 0)
+    OSL_error("negative number of symbols");
 
   if (nb_symbols == 0)
     return NULL;
-- 
2.43.0


From 06ac4a9b2cff2629f8117f311158aef7a2247b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:05 +0000
Subject: [PATCH 84/89] fix: print expressions without writing into the
 relation

---
 source/relation.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 4e762b3..108fba7 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -447,32 +447,31 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
   char* sval;
   char* sline;
   size_t high_water_mark = OSL_MAX_STRING;
+  osl_int_t val;
 
   OSL_malloc(sline, char*, high_water_mark * sizeof(char));
   sline[0] = '\0';
 
   // Create the expression. The constant is a special case.
+  osl_int_init(relation->precision, &val);
   for (i = start; i <= stop; i++) {
-    if (oppose) {
-      osl_int_oppose(relation->precision, &relation->m[row][i],
-                     relation->m[row][i]);
-    }
+    // The relation itself is only read, the opposition is done on a copy.
+    if (oppose)
+      osl_int_oppose(relation->precision, &val, relation->m[row][i]);
+    else
+      osl_int_assign(relation->precision, &val, relation->m[row][i]);
 
     if (i == relation->nb_columns - 1)
       constant = 1;
     else
       constant = 0;
 
-    sval = osl_relation_expression_element(
-        relation->m[row][i], relation->precision, &first, constant, strings[i]);
-
-    if (oppose) {
-      osl_int_oppose(relation->precision, &relation->m[row][i],
-                     relation->m[row][i]);
-    }
+    sval = osl_relation_expression_element(val, relation->precision, &first,
+                                           constant, strings[i]);
     osl_util_safe_strcat(&sline, sval, &high_water_mark);
     free(sval);
   }
+  osl_int_clear(relation->precision, &val);
 
   return sline;
 }
-- 
2.43.0


From ccf8c9001f644b8ed8eee10ad3457b5e414a85b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:55 +0000
Subject: [PATCH 85/89] fix: report memory overflows in the region extension

---
 source/extensions/region.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index cf6d181..882d433 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -83,16 +83,8 @@ static void osl_region_text_idump(FILE* file, const osl_region_text_t* text,
 int osl_region_text_append(osl_region_text_t* text, int line_type, char* line) {
   const size_t count = text->count + 1;
 
-  char** lines = realloc(text->lines, count * sizeof *lines);
-  if (!lines)
-    return 1;
-
-  int* types = realloc(text->types, count * sizeof *types);
-  if (!types)
-    return 1;
-
-  text->lines = lines;
-  text->types = types;
+  OSL_realloc(text->lines, char**, count * sizeof *text->lines);
+  OSL_realloc(text->types, int*, count * sizeof *text->types);
 
   text->lines[text->count] = line;
   text->types[text->count] = line_type;
@@ -118,7 +110,8 @@ osl_region_text_t osl_region_text_clone(const osl_region_text_t* source) {
       .lines = 0,
   };
   for (size_t i = 0; i < source->count; ++i) {
-    char* line = strdup(source->lines[i]);
+    char* line = NULL;
+    OSL_strdup(line, source->lines[i]);
     osl_region_text_append(&destination, source->types[i], line);
   }
   return destination;
-- 
2.43.0


From 980ae7638422cf302ac0d2c2a33cfc94469f37f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:55 +0000
Subject: [PATCH 86/89] fix: report memory overflows in the annotation
 extension

---
 source/extensions/annotation.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index 98daa17..0aa5eef 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -85,16 +85,8 @@ int osl_annotation_text_append(osl_annotation_text_t* text, int line_type,
                                char* line) {
   const size_t count = text->count + 1;
 
-  char** lines = realloc(text->lines, count * sizeof *lines);
-  if (!lines)
-    return 1;
-
-  int* types = realloc(text->types, count * sizeof *types);
-  if (!types)
-    return 1;
-
-  text->lines = lines;
-  text->types = types;
+  OSL_realloc(text->lines, char**, count * sizeof *text->lines);
+  OSL_realloc(text->types, int*, count * sizeof *text->types);
 
   text->lines[text->count] = line;
   text->types[text->count] = line_type;
@@ -120,7 +112,8 @@ osl_annotation_text_t osl_annotation_text_clone(
       .lines = 0,
   };
   for (size_t i = 0; i < source->count; ++i) {
-    char* line = strdup(source->lines[i]);
+    char* line = NULL;
+    OSL_strdup(line, source->lines[i]);
     osl_annotation_text_append(&destination, source->types[i], line);
   }
   return destination;
-- 
2.43.0


From 9191f9e48638000d8751a0234e6c928194a063be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:55 +0000
Subject: [PATCH 87/89] fix: report memory overflows when adding a string

---
 source/strings.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index d2b1667..759d11a 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -365,8 +365,7 @@ void osl_strings_add(osl_strings_t* const strings, char const* const string) {
   size_t original_size = osl_strings_size(strings);
   OSL_realloc(strings->string, char**, sizeof(char*) * (original_size + 1 + 1));
   strings->string[original_size + 1] = NULL;
-  strings->string[original_size] = malloc(sizeof(char) * (strlen(string) + 1));
-  strcpy(strings->string[original_size], string);
+  strings->string[original_size] = osl_util_strdup(string);
 }
 
 /**
-- 
2.43.0


From eb555b3227bb6eb77d6ce4023f794cf0ef3bafda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:55 +0000
Subject: [PATCH 88/89] fix: report memory overflows when removing unions

---
 source/scop.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index ac94616..3e1398a 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -677,8 +677,7 @@ osl_scop_t* osl_scop_remove_unions(const osl_scop_t* scop) {
     new_scop->context = osl_relation_clone(scop->context);
     new_scop->extension = osl_generic_clone(scop->extension);
     if (scop->language != NULL) {
-      new_scop->language = (char*)malloc(strlen(scop->language) + 1);
-      new_scop->language = strcpy(new_scop->language, scop->language);
+      OSL_strdup(new_scop->language, scop->language);
     }
     new_scop->parameters = osl_generic_clone(scop->parameters);
     new_scop->registry = osl_interface_clone(scop->registry);
-- 
2.43.0


From da66a7d6d775149ec0a804772fe3177485e31ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:55 +0000
Subject: [PATCH 89/89] fix: stop reading when a stream fails

---
 source/statement.c | 2 +-
 source/util.c      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/statement.c b/source/statement.c
index cedc2d9..21e343a 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -470,7 +470,7 @@ osl_statement_t* osl_statement_pread(FILE* const file,
       OSL_error("negative number of statement extensions");
     for (i = 0; i < nb_ext; i++) {
       new = osl_generic_read_one(file, registry);
-      if ((new == NULL) && feof(file))
+      if ((new == NULL) && (feof(file) || ferror(file)))
         OSL_error("not enough statement extensions");
       osl_generic_add(&stmt->extension, new);
     }
diff --git a/source/util.c b/source/util.c
index 2af6f98..3b0beeb 100644
--- a/source/util.c
+++ b/source/util.c
@@ -393,7 +393,7 @@ char* osl_util_read_uptoflag(FILE* file, char** str, const char* flag) {
   size_t high_water_mark = OSL_MAX_STRING;
   size_t nb_chars = 0;
   size_t lenflag = strlen(flag), lenstr;
-  int flag_found = 0;
+  int flag_found = 0, c = EOF;
   char* res;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
@@ -404,8 +404,8 @@ char* osl_util_read_uptoflag(FILE* file, char** str, const char* flag) {
   // Copy everything to the res string.
   lenstr = str != NULL ? strlen(*str) : 0;
   while (((str != NULL) && (nb_chars != lenstr)) ||
-         ((file != NULL) && (!feof(file)))) {
-    res[nb_chars++] = (str != NULL) ? *((*str)++) : (char)fgetc(file);
+         ((file != NULL) && ((c = fgetc(file)) != EOF))) {
+    res[nb_chars++] = (str != NULL) ? *((*str)++) : (char)c;
 
     if ((nb_chars >= lenflag) &&
         (!strncmp(&res[nb_chars - lenflag], flag, lenflag))) {
-- 
2.43.0

