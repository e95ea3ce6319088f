From 03570872602f163fa27e4e275a1fa01ef28afeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 01/51] fix: addition with an infinite or NaN right operand
 ignored it (efx, gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 7 ++++++-
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 39c99a3..fad9af2 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -421,7 +421,7 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
   if(isinf())
   {
-    if(v.isinf() && (isneg() != v.isneg()))
+    if(v.isnan() || (v.isinf() && (isneg() != v.isneg())))
     {
       *this = std::numeric_limits<e_float>::quiet_NaN();
     }
@@ -429,6 +429,11 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(!v.isfinite())
+  {
+    return operator=(v);
+  }
+
   if(iszero())
   {
     return operator=(v);
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index cb9d9ab..d1408bf 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -236,7 +236,7 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
 
   if(isinf())
   {
-    if(v.isinf() && (isneg() != v.isneg()))
+    if(v.isnan() || (v.isinf() && (isneg() != v.isneg())))
     {
       *this = std::numeric_limits<e_float>::quiet_NaN();
     }
@@ -244,6 +244,11 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(!v.isfinite())
+  {
+    return operator=(v);
+  }
+
   ::mpf_add(my_rop, my_rop, v.my_rop);
 
   // Check for overflow.
-- 
2.43.0


From 2c0f36a9391df8bdc9fcacd6b230bda1bf45db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 02/51] fix: x -= x returned 2x instead of zero (efx, gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 6 ++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index fad9af2..8f42bb1 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -664,6 +664,12 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
 efx::e_float& efx::e_float::operator-=(const e_float& v)
 {
+  if(this == &v)
+  {
+    // Negating *this would also negate v.
+    return operator-=(e_float(v));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index d1408bf..83f5e29 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -269,6 +269,12 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
 
 gmp::e_float& gmp::e_float::operator-=(const e_float& v)
 {
+  if(this == &v)
+  {
+    // Negating *this would also negate v.
+    return operator-=(e_float(v));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
-- 
2.43.0


From 123e1be0d7d0804ddc2b2b62955fd5064aa2cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 03/51] fix: zero divided by zero returned one instead of NaN
 (efx)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 8f42bb1..efd5475 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -801,6 +801,7 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 {
   const auto u_and_v_are_finite_and_identical =
     (   isfinite()
+     && (!iszero())
      && (my_fpclass == v.my_fpclass)
      && (my_exp     == v.my_exp)
      && (cmp_data(v.my_data) == static_cast<std::int32_t>(0)));
-- 
2.43.0


From cbc4f74127b06639444fd5c64b2ac9e6b8c0169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 04/51] fix: infinities and NaN were classified as zero and
 integer, breaking their multiplication and reciprocal (gmp)

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 83f5e29..2998bc0 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -582,7 +582,7 @@ std::int32_t gmp::e_float::cmp(const e_float& v) const
 
 bool gmp::e_float::iszero() const
 {
-  return (::mpf_sgn(my_rop) == 0);
+  return (isfinite() && (::mpf_sgn(my_rop) == 0));
 }
 
 bool gmp::e_float::isone() const
@@ -594,7 +594,7 @@ bool gmp::e_float::isone() const
 bool gmp::e_float::isint() const
 {
   // Check if the value of *this is pure integer or very close to pure integer.
-  return (::mpf_integer_p(my_rop) != 0);
+  return (isfinite() && (::mpf_integer_p(my_rop) != 0));
 }
 
 bool gmp::e_float::isneg() const
-- 
2.43.0


From 32684cec30ab235584309d586b47bdc67e5a069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 05/51] fix: isone() was false for one (efx); reading the
 smallest normal value does not rely on that any more

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 21 +++-----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index efd5475..4f6dc8d 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1314,7 +1314,7 @@ bool efx::e_float::isone() const
     if((my_data[0U] == static_cast<std::uint32_t>(1U)) && (my_exp == static_cast<std::int64_t>(0)))
     {
       const array_type::const_iterator it_non_zero =
-        std::find_if(my_data.cbegin(),
+        std::find_if(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
                      my_data.cend(),
                      [](const std::uint32_t& d) -> bool
                      {
@@ -2058,24 +2058,9 @@ bool efx::e_float::rd_string(const char* const s)
   }
 
   // ...and check for underflow.
-  if(my_exp <= std::numeric_limits<e_float>::min_exponent10)
+  if(my_exp < std::numeric_limits<e_float>::min_exponent10)
   {
-    if(my_exp == std::numeric_limits<e_float>::min_exponent10)
-    {
-      // Check for identity with the minimum value.
-      e_float test = *this;
-
-      test.my_exp = static_cast<std::int64_t>(0);
-
-      if(test.isone())
-      {
-        *this = ef::zero();
-      }
-    }
-    else
-    {
-      *this = ef::zero();
-    }
+    *this = ef::zero();
   }
 
   return true;
-- 
2.43.0


From b89a379c9d9957476ce6b904c57817d20f2fbf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 06/51] fix: the square root of infinity was NaN (efx, gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 5 +++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 4f6dc8d..f3a84e3 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1089,6 +1089,11 @@ efx::e_float& efx::e_float::calculate_sqrt()
 {
   // Compute the square root of *this.
 
+  if(isinf() && (!isneg()))
+  {
+    return *this;
+  }
+
   if(isneg() || (!isfinite()))
   {
     return (*this = std::numeric_limits<e_float>::quiet_NaN());
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 2998bc0..d56e4e4 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -509,6 +509,11 @@ gmp::e_float& gmp::e_float::calculate_sqrt()
 {
   // Compute the square root of *this.
 
+  if(isinf() && (!isneg()))
+  {
+    return *this;
+  }
+
   if(isneg() || !isfinite())
   {
     return (*this = std::numeric_limits<e_float>::quiet_NaN());
-- 
2.43.0


From 1aba5eff3b94a8a0f2b67f903523f1aa03ba02db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 07/51] fix: a negative value divided by the unsigned integer
 zero gave positive infinity (efx)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index f3a84e3..10277f7 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -940,8 +940,8 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
     }
     else
     {
-      *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
-                          : -std::numeric_limits<e_float>::infinity());
+      *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
+                        : -std::numeric_limits<e_float>::infinity());
 
       return *this;
     }
-- 
2.43.0


From 8ceec2bbd6c3cb2f01dde28d3b21e425fa22e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 08/51] fix: dividing by a small integer lost the last limb
 when the leading limb vanished (efx)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 10277f7..43ca6d4 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -974,7 +974,7 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
 
       // Shift result of the division one element to the left.
       std::copy(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
-                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem - 1),
+                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem),
                 my_data.begin());
 
       const array_type::size_type ip = static_cast<array_type::size_type>(my_prec_elem - 1);
-- 
2.43.0


From 9958a793e272f8c9cfc0333ca75ae07cacb5276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 09/51] fix: results and literals near the ends of the exponent
 range overflowed or underflowed too early or not at all (efx)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 115 +++++++++++--------
 libs/e_float/src/e_float/efx/e_float_efx.h   |   2 +
 2 files changed, 66 insertions(+), 51 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 43ca6d4..cd12991 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -412,6 +412,28 @@ e_float& efx::e_float::operator=(e_float&& other)
   return *this;
 }
 
+efx::e_float& efx::e_float::check_range()
+{
+  // Let the finite, non-zero value of *this overflow to infinity
+  // or underflow to zero if it is out of range.
+
+  if(my_exp < static_cast<std::int64_t>(ef_min_exp10))
+  {
+    *this = ef::zero();
+  }
+  else if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
+          && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)())
+         )
+  {
+    const bool b_result_is_neg = my_neg;
+
+    *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
+                                : -std::numeric_limits<e_float>::infinity());
+  }
+
+  return *this;
+}
+
 efx::e_float& efx::e_float::operator+=(const e_float& v)
 {
   if(isnan())
@@ -648,18 +670,8 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
   // Check for underflow.
   if(iszero()) { return (*this = ef::zero()); }
 
-  // Check for overflow.
-  if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
-     && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)())
-    )
-  {
-    const bool b_result_is_neg = my_neg;
-
-    *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
-                                : -std::numeric_limits<e_float>::infinity());
-  }
-
-  return *this;
+  // Check for overflow or underflow.
+  return check_range();
 }
 
 efx::e_float& efx::e_float::operator-=(const e_float& v)
@@ -709,35 +721,6 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
     return (*this = ef::zero());
   }
 
-  // Check for overflow or underflow.
-  const auto u_exp_is_neg = (  my_exp < static_cast<std::int64_t>(0));
-  const auto v_exp_is_neg = (v.my_exp < static_cast<std::int64_t>(0));
-
-  if(u_exp_is_neg == v_exp_is_neg)
-  {
-    // Get the unsigned base-10 exponents of *this and v and...
-    const std::int64_t u_exp = ((!u_exp_is_neg) ?   my_exp : static_cast<std::int64_t>(  -my_exp));
-    const std::int64_t v_exp = ((!v_exp_is_neg) ? v.my_exp : static_cast<std::int64_t>(-v.my_exp));
-
-    // Check the range of the upcoming multiplication.
-    const auto b_result_is_out_of_range = (v_exp >= static_cast<std::int64_t>(ef_max_exp10 - u_exp));
-
-    if(b_result_is_out_of_range)
-    {
-      if(u_exp_is_neg)
-      {
-        *this = ef::zero();
-      }
-      else
-      {
-        *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
-                                    : -std::numeric_limits<e_float>::infinity());
-      }
-
-      return *this;
-    }
-  }
-
   // Set the exponent of the result.
   my_exp += v.my_exp;
 
@@ -794,7 +777,8 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
   // Set the sign of the result.
   my_neg = b_result_is_neg;
 
-  return *this;
+  // Check for overflow or underflow.
+  return check_range();
 }
 
 efx::e_float& efx::e_float::operator/=(const e_float& v)
@@ -817,10 +801,29 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 
     return *this;
   }
-  else
+  else if(   (!isfinite())   || iszero()
+          || (!v.isfinite()) || v.iszero())
   {
     operator*=(e_float(v).calculate_inv());
   }
+  else
+  {
+    // Divide the significands and handle the exponents separately since
+    // the inverse of v might be out of range even if the quotient is not.
+    e_float w(v);
+
+    const std::int64_t ofs_exp = static_cast<std::int64_t>(my_exp - w.my_exp);
+
+    my_exp   = static_cast<std::int64_t>(0);
+    w.my_exp = static_cast<std::int64_t>(0);
+
+    operator*=(w.calculate_inv());
+
+    my_exp += ofs_exp;
+
+    // Check for overflow or underflow.
+    check_range();
+  }
 
   return *this;
 }
@@ -904,7 +907,8 @@ efx::e_float& efx::e_float::mul_unsigned_long_long(const unsigned long long n)
   // Set the sign.
   my_neg = b_neg;
 
-  return *this;
+  // Check for overflow.
+  return check_range();
 }
 
 efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
@@ -992,7 +996,8 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
   // Set the sign of the result.
   my_neg = b_neg;
 
-  return *this; 
+  // Check for underflow.
+  return check_range();
 }
 
 void efx::e_float::swap(e_float& other)
@@ -1040,6 +1045,11 @@ efx::e_float& efx::e_float::calculate_inv()
     return *this;
   }
 
+  // Invert the significand and handle the exponent separately.
+  const std::int64_t original_exp = my_exp;
+
+  my_exp = static_cast<std::int64_t>(0);
+
   // Use the original value of *this for iteration below.
   e_float x(*this);
 
@@ -1082,7 +1092,10 @@ efx::e_float& efx::e_float::calculate_inv()
 
   my_prec_elem = original_prec_elem;
 
-  return *this;
+  my_exp -= original_exp;
+
+  // Check for overflow or underflow.
+  return check_range();
 }
 
 efx::e_float& efx::e_float::calculate_sqrt()
@@ -2053,17 +2066,17 @@ bool efx::e_float::rd_string(const char* const s)
     my_data[i1] = Util::numeric_cast<array_type::value_type>(str_i1);
   }
 
-  // Check for overflow...
-  if(my_exp > std::numeric_limits<e_float>::max_exponent10)
+  // Check for overflow or underflow.
+  if(   (my_exp >  std::numeric_limits<e_float>::max_exponent10)
+     || (   (my_exp == std::numeric_limits<e_float>::max_exponent10)
+         && (my_data[0U] >= static_cast<std::uint32_t>(10U))))
   {
     const bool b_result_is_neg = my_neg;
 
     *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
                                 : -std::numeric_limits<e_float>::infinity());
   }
-
-  // ...and check for underflow.
-  if(my_exp < std::numeric_limits<e_float>::min_exponent10)
+  else if(my_exp < std::numeric_limits<e_float>::min_exponent10)
   {
     *this = ef::zero();
   }
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.h b/libs/e_float/src/e_float/efx/e_float_efx.h
index 5e5d0c8..46dc46e 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.h
+++ b/libs/e_float/src/e_float/efx/e_float_efx.h
@@ -250,6 +250,8 @@
 
       std::int32_t cmp_data(const array_type& vd) const;
 
+      e_float& check_range();
+
       static std::uint32_t mul_loop_uv (std::uint32_t* const u, const std::uint32_t* const v, const std::int32_t p);
       static std::uint32_t mul_loop_n  (std::uint32_t* const u,       std::uint32_t n,        const std::int32_t p);
       static std::uint32_t div_loop_n  (std::uint32_t* const u,       std::uint32_t n,        const std::int32_t p);
-- 
2.43.0


From 65d0a7e374b09b895fc7f3e80ea9b848dde88572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 10/51] fix: values next to a power of ten were printed with
 the wrong exponent and order (gmp, mpfr)

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 24 +++++++++++++++----
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp | 24 +++++++++++++++----
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index d56e4e4..65b844e 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -912,10 +912,16 @@ std::int64_t gmp::e_float::get_order_exact() const
   // Extract the base-10 exponent.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
 
-  const std::int64_t my_exp = ((pos_letter_e != std::string::npos)
+  std::int64_t my_exp = ((pos_letter_e != std::string::npos)
     ? Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)))
     : static_cast<std::int64_t>(0));
 
+  // The ten digits might have been rounded up to the next power of ten.
+  if((!iszero()) && (ef::fabs(*this) < e_float("1E" + Util::lexical_cast(my_exp))))
+  {
+    --my_exp;
+  }
+
   return my_exp;
 }
 
@@ -936,8 +942,15 @@ std::int64_t gmp::e_float::get_order_fast() const
     const double d2    = ::mpf_get_d_2exp(&n2, xx.my_rop);
     const double lg10x = static_cast<double>(log10(d2) + (static_cast<double>(n2) * local::value_log2));
 
-    return ((lg10x < 0.0) ? static_cast<std::int64_t>(lg10x - 0.5)
-                          : static_cast<std::int64_t>(lg10x + 0.5));
+    const double order10 = std::floor(lg10x);
+
+    // The logarithm does not decide the order of a value next to a power of ten.
+    if(((lg10x - order10) < 1.0e-6) || ((lg10x - order10) > (1.0 - 1.0e-6)))
+    {
+      return get_order_exact();
+    }
+
+    return static_cast<std::int64_t>(order10);
   }
 }
 
@@ -947,8 +960,6 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   // In other words, first obtain the string in scientific notation,
   // then reduce it to raw digits (perhaps this can be improved).
 
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99Fe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -973,6 +984,9 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
 
   if(pos_letter_e != std::string::npos)
   {
+    // Rounding might have increased the exponent.
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index e672225..d6c2eca 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -520,11 +520,17 @@ std::int64_t mpfr::e_float::get_order_exact() const
   // Extract the base-10 exponent.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
 
-  const std::int64_t my_exp =
+  std::int64_t my_exp =
     ((pos_letter_e != std::string::npos)
       ? Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)))
       : static_cast<std::int64_t>(0));
 
+  // The ten digits might have been rounded up to the next power of ten.
+  if((!iszero()) && (ef::fabs(*this) < e_float("1E" + Util::lexical_cast(my_exp))))
+  {
+    --my_exp;
+  }
+
   return my_exp;
 }
 
@@ -545,15 +551,20 @@ std::int64_t mpfr::e_float::get_order_fast() const
     const double d2    = ::mpfr_get_d_2exp(&n2, xx.my_rop, GMP_RNDN);
     const double lg10x = static_cast<double>(log10(d2) + (static_cast<double>(n2) * local::d_log2()));
 
-    return ((lg10x < 0.0) ? static_cast<std::int64_t>(lg10x - 0.5)
-                          : static_cast<std::int64_t>(lg10x + 0.5));
+    const double order10 = std::floor(lg10x);
+
+    // The logarithm does not decide the order of a value next to a power of ten.
+    if(((lg10x - order10) < 1.0e-6) || ((lg10x - order10) > (1.0 - 1.0e-6)))
+    {
+      return get_order_exact();
+    }
+
+    return static_cast<std::int64_t>(order10);
   }
 }
 
 void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, const std::size_t number_of_digits) const
 {
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99RNe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -587,6 +598,9 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
 
   if(pos_letter_e != std::string::npos)
   {
+    // Rounding might have increased the exponent.
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
-- 
2.43.0


From 0670f4ac0e179beae049d07d2fddd8dd98ba02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 11/51] fix: quotients of operands with equal magnitude ignored
 the sign of the dividend (efx)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index cd12991..0b8cf4d 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -792,9 +792,11 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 
   if(u_and_v_are_finite_and_identical)
   {
+    const bool b_result_is_neg = (my_neg != v.my_neg);
+
     *this = ef::one();
 
-    if(my_neg != v.my_neg)
+    if(b_result_is_neg)
     {
       negate();
     }
-- 
2.43.0


From 4f6c9c0368b35151c59df2fe43b5a33291ce2bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 12/51] fix: square root lost digits by stopping early, failed
 near the ends of the exponent range, and infinity over a huge value was NaN
 (efx)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 0b8cf4d..c3220d6 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -803,6 +803,11 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 
     return *this;
   }
+  else if(isinf() && v.isfinite())
+  {
+    // The inverse of v might underflow to zero.
+    my_neg = (my_neg != v.my_neg);
+  }
   else if(   (!isfinite())   || iszero()
           || (!v.isfinite()) || v.iszero())
   {
@@ -1119,6 +1124,14 @@ efx::e_float& efx::e_float::calculate_sqrt()
     return *this;
   }
 
+  // Take an even number of limbs out of the exponent. So the squares in
+  // the iteration below do not leave the range of the exponent.
+  const std::int64_t half_exp =
+    static_cast<std::int64_t>(  static_cast<std::int64_t>(my_exp / static_cast<std::int64_t>(ef_elem_digits10 * 2))
+                              * static_cast<std::int64_t>(ef_elem_digits10));
+
+  my_exp -= static_cast<std::int64_t>(half_exp * 2);
+
   // Use the original value of *this for iteration below.
   e_float x(*this);
 
@@ -1186,7 +1199,8 @@ efx::e_float& efx::e_float::calculate_sqrt()
 
     const std::int64_t order_check = order() - iteration_term.order();
 
-    if(   (digits      > static_cast<std::int32_t>(ef::tolerance() / 4))
+    // Do not stop before the precision of the terms has reached the full precision.
+    if(   (new_prec    > static_cast<std::int32_t>(ef::tolerance() + ef_elem_digits10))
        && (order_check > static_cast<std::int64_t>(ef::tolerance() / 2))
       )
     {
@@ -1194,6 +1208,8 @@ efx::e_float& efx::e_float::calculate_sqrt()
     }
   }
 
+  my_exp += half_exp;
+
   my_prec_elem = original_prec_elem;
 
   return *this;
-- 
2.43.0


From 37848a406dbaace6dd93cf5549ddb45b74162989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 13/51] fix: reading a literal leaked or kept the class of the
 old value and crashed or wrapped on exponents out of range (efx, gmp, mpfr)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp  |  9 +++-
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 50 +++++++++++++++++++
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp |  8 +--
 3 files changed, 63 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index c3220d6..08dd2fb 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1856,6 +1856,8 @@ bool efx::e_float::rd_string(const char* const s)
 {
   std::string str(s);
 
+  my_fpclass = ef_finite;
+
   // Get a possible exponent and remove it.
   my_exp = static_cast<std::int64_t>(0);
 
@@ -1865,9 +1867,14 @@ bool efx::e_float::rd_string(const char* const s)
      || ((pos = str.find('E')) != std::string::npos)
     )
   {
-    // Remove the exponent part from the string.
+    // Remove the exponent part from the string. An exponent far out of range
+    // is limited in order to leave headroom for the scaling steps below.
     my_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos + 1U)));
 
+    static const auto limit_exp = static_cast<std::int64_t>(INT64_C(0x4000000000000000));
+
+    my_exp = (std::max)(static_cast<std::int64_t>(-limit_exp), (std::min)(my_exp, limit_exp));
+
     str = str.substr(static_cast<std::size_t>(0U), pos);
   }
 
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 65b844e..c5439da 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <cfloat>
 #include <cmath>
+#include <cstdlib>
 #include <iomanip>
 #include <sstream>
 #include <vector>
@@ -48,6 +49,8 @@ gmp::e_float::e_float(const char* const s) : my_rop      (),
 {
   init();
 
+  ::mpf_init(my_rop);
+
   static_cast<void>(rd_string(s));
 }
 
@@ -57,6 +60,8 @@ gmp::e_float::e_float(const std::string& str) : my_rop      (),
 {
   init();
 
+  ::mpf_init(my_rop);
+
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -151,6 +156,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
   init();
 
+  ::mpf_init(my_rop);
+
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -1042,6 +1049,47 @@ bool gmp::e_float::rd_string(const char* const s)
     str.erase(static_cast<std::size_t>(0U), static_cast<std::size_t>(1U));
   }
 
+  // Find the decimal order of the number and let it overflow to infinity
+  // or underflow to zero if it is out of range.
+  const std::size_t pos_exp     = (std::min)(str.find_first_of("eE"), str.length());
+  const std::size_t pos_point   = (std::min)(str.find(static_cast<char>('.')), pos_exp);
+  const std::size_t pos_nonzero = str.find_first_of("123456789");
+
+  my_fpclass = ef_finite;
+
+  if(pos_nonzero < pos_exp)
+  {
+    const long long exp10 = ((pos_exp < str.length()) ? std::strtoll(str.c_str() + (pos_exp + 1U), nullptr, 10) : 0LL);
+
+    const long long order10 =
+        (std::max)(-4000000000LL, (std::min)(exp10, 4000000000LL))
+      + static_cast<long long>(pos_point)
+      - static_cast<long long>(pos_nonzero)
+      - ((pos_nonzero < pos_point) ? 1LL : 0LL);
+
+    if(order10 > static_cast<long long>(ef_max_exp10))
+    {
+      *this = ((!b_negate) ?  std::numeric_limits<e_float>::infinity()
+                           : -std::numeric_limits<e_float>::infinity());
+
+      return true;
+    }
+
+    if(order10 < static_cast<long long>(ef_min_exp10))
+    {
+      *this = ef::zero();
+
+      return true;
+    }
+  }
+  else if(pos_nonzero != std::string::npos)
+  {
+    // All the digits of the mantissa are zero.
+    *this = ef::zero();
+
+    return true;
+  }
+
   // Scale a very long pure integer input string.
   // Convert to a string with a decimal point and exponent.
 
@@ -1072,6 +1120,8 @@ bool gmp::e_float::rd_string(const char* const s)
   }
 
   // Set the e_float value.
+  ::mpf_clear(my_rop);
+
   const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_init_set_str(my_rop, str.c_str(), 10));
 
   if(b_negate)
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index d6c2eca..4709751 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -29,8 +29,8 @@ namespace local
   }
 }
 
-mpfr::e_float::e_float(const char* s)          { init(); static_cast<void>(rd_string(s)); }
-mpfr::e_float::e_float(const std::string& str) { init(); static_cast<void>(rd_string(str.c_str())); }
+mpfr::e_float::e_float(const char* s)          { init(); ::mpfr_init(my_rop); static_cast<void>(rd_string(s)); }
+mpfr::e_float::e_float(const std::string& str) { init(); ::mpfr_init(my_rop); static_cast<void>(rd_string(str.c_str())); }
 
 mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
 {
@@ -109,6 +109,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
   init();
 
+  ::mpfr_init(my_rop);
+
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -614,7 +616,7 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
   }
 }
 
-bool mpfr::e_float::rd_string(const char* const s) { return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 1); }
+bool mpfr::e_float::rd_string(const char* const s) { ::mpfr_clear(my_rop); return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 0); }
 
 e_float mpfr::e_float::my_own_cbrt         (const e_float& x) { e_float res; static_cast<void>(::mpfr_cbrt (res.my_rop, x.my_rop, GMP_RNDN)); return res; }
 e_float mpfr::e_float::my_own_rootn        (const e_float& x, const std::uint32_t p)
-- 
2.43.0


From 0a9eca01e42dc4501cfa777175dd9005602209f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 14/51] fix: mixed arithmetic with the most negative integer
 negated it in the signed type, and NaN times an integer became infinite

---
 libs/e_float/src/e_float/e_float_base.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index f834a6b..a06e8cc 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -100,7 +100,7 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
   if(n < static_cast<signed long long>(0))
   {
     negate();
-    add_unsigned_long_long(static_cast<unsigned long long>(-n));
+    add_unsigned_long_long(0ULL - static_cast<unsigned long long>(n));
     negate();
   }
   else
@@ -113,14 +113,23 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
 
 e_float& e_float_base::sub_signed_long_long(const signed long long n)
 {
-  return add_signed_long_long(static_cast<signed long long>(-n));
+  if(n < static_cast<signed long long>(0))
+  {
+    add_unsigned_long_long(0ULL - static_cast<unsigned long long>(n));
+  }
+  else
+  {
+    sub_unsigned_long_long(static_cast<unsigned long long>(n));
+  }
+
+  return static_cast<e_float&>(*this);
 }
 
 e_float& e_float_base::mul_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : 0ULL - static_cast<unsigned long long>(n));
 
   if(b_neg)
   {
@@ -128,7 +137,7 @@ e_float& e_float_base::mul_signed_long_long(const signed long long n)
   }
 
   // Check for overflow.
-  if(ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)())
+  if(isfinite() && (ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)()))
   {
     *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
                         : -std::numeric_limits<e_float>::infinity());
@@ -141,7 +150,7 @@ e_float& e_float_base::div_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : 0ULL - static_cast<unsigned long long>(n));
 
   if(b_neg)
   {
-- 
2.43.0


From c5749760cdd9fd45667c58c4d7ed068b2c96510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 15/51] fix: long double values above the range of double
 became infinite (efx, gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 8 ++++++--
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 08dd2fb..eef6396 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -151,9 +151,13 @@ void efx::e_float::from_long_double(const long double l)
 {
   const bool b_neg = (l < static_cast<long double>(0.0L));
 
-  if(!ef::isfinite(static_cast<double>(l)))
+  using std::isfinite;
+
+  if(!isfinite(l))
   {
-    operator=(ef::isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    using std::isnan;
+
+    operator=(isnan(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index c5439da..9938d3e 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -187,11 +187,11 @@ void gmp::e_float::from_long_double(const long double l)
 
   using std::isfinite;
 
-  if(isfinite(static_cast<double>(l)) == 0)
+  if(!isfinite(l))
   {
     using std::isnan;
 
-    operator=(isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    operator=(isnan(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
-- 
2.43.0


From 4d6ecda0813980ea4e8aa5338a9b92b5a04453ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 16/51] fix: conversion to integers missed the most negative
 value and could round up (gmp, mpfr)

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   |  4 ++--
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 9938d3e..750d8e8 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -786,8 +786,8 @@ signed long long gmp::e_float::extract_signed_long_long() const
 
   if(nx > ef::signed_long_long_max())
   {
-    return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+    return ((!b_neg) ? (std::numeric_limits<signed long long>::max)()
+                     : (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 4709751..cd13a74 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -408,12 +408,13 @@ signed long long mpfr::e_float::extract_signed_long_long() const
 {
   const bool b_neg = isneg();
 
-  const e_float nx = ef::fabs(*this);
+  // Use the integer part such that rounding to text can not carry into it.
+  const e_float nx = ef::fabs(extract_integer_part());
 
   if(nx > ef::signed_long_long_max())
   {
-    return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+    return ((!b_neg) ? (std::numeric_limits<signed long long>::max)()
+                     : (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
@@ -450,17 +451,20 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
     return static_cast<unsigned long long>(extract_signed_long_long());
   }
 
-  if(*this > ef::unsigned_long_long_max())
+  // Use the integer part such that rounding to text can not carry into it.
+  const e_float nx = extract_integer_part();
+
+  if(nx > ef::unsigned_long_long_max())
   {
     return (std::numeric_limits<unsigned long long>::max)();
   }
 
-  if(*this < ef::one())
+  if(nx < ef::one())
   {
     return static_cast<unsigned long long>(0U);
   }
 
-  if(isone())
+  if(nx.isone())
   {
     return static_cast<unsigned long long>(1U);
   }
@@ -469,7 +473,7 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
 
   mp_exp_t p10;
 
-  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, my_rop, GMP_RNDN));
+  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, nx.my_rop, GMP_RNDN));
 
   std::string str_ull(static_cast<std::size_t>(p10), static_cast<char>('0'));
 
-- 
2.43.0


From 61689d21b92a735cacb88952ddebb32ed421abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 17/51] fix: assigning to a moved-from value, or moving a value
 to itself, used freed or missing storage (efx)

---
 libs/e_float/src/utility/util_dynamic_array.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index d52a331..1618049 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -134,7 +134,14 @@
       // Assignment operator.
       dynamic_array& operator=(const dynamic_array& other)
       {
-        if(this != &other)
+        if((elem_count == 0U) && (other.elem_count > 0U))
+        {
+          // This array has been moved from. Give it elements again.
+          dynamic_array tmp(other);
+
+          swap(tmp);
+        }
+        else if(this != &other)
         {
           std::copy(other.elems,
                     other.elems + (std::min)(elem_count, other.elem_count),
@@ -147,6 +154,11 @@
       // Move assignment operator.
       dynamic_array& operator=(dynamic_array&& other)
       {
+        if(this == &other)
+        {
+          return *this;
+        }
+
         // Destroy the elements and deallocate the range.
         pointer p = elems;
 
-- 
2.43.0


From a5a11a5cede868a484d9d54aea589ac01dfc40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 18/51] fix: fixed and general format of small numbers lost
 digits or threw, showpoint with more digits than the precision threw

Fixed format with no significant digit in front of the last decimal place
printed a spurious digit (gmp, mpfr) or threw (efx); the general format wrote
fewer significant digits than the precision for numbers below one; showpoint
extended by a negative count when the integer part already has more digits.
---
 libs/e_float/src/e_float/e_float_base.cpp | 43 ++++++++++++++++++-----
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index a06e8cc..e22ce3c 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -257,12 +257,29 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
   // nor e_float's max_digits10.
   if(my_float_field == local::os_float_field_none)
   {
-    const std::size_t max_digits = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
-    the_number_of_digits_i_want_from_e_float = (std::min)(the_number_of_digits_i_want_from_e_float, max_digits);
+    // The leading zeros of a number less than one are not significant digits.
+    the_number_of_digits_i_want_from_e_float = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
   }
 
-  // Extract the rounded output string with the desired number of digits.
-  get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  if(use_fixed && (the_number_of_digits_i_want_from_e_float == static_cast<std::size_t>(0U)))
+  {
+    // There are no significant digits in front of the end of the decimal places.
+    // The number rounds either to zero or to one unit in the last decimal place.
+    get_output_string(str, the_exp, max10_plus_one);
+
+    const std::int64_t n_before_end = static_cast<std::int64_t>(the_exp + 1) + static_cast<std::int64_t>(os_precision);
+
+    const bool b_round_up =   (n_before_end >  static_cast<std::int64_t>(0))
+                           || ((n_before_end == static_cast<std::int64_t>(0)) && (str.at(static_cast<std::size_t>(0U)) >= static_cast<char>('5')));
+
+    str     = (b_round_up ? "1" : "0");
+    the_exp = (b_round_up ? -static_cast<std::int64_t>(os_precision) : static_cast<std::int64_t>(0));
+  }
+  else
+  {
+    // Extract the rounded output string with the desired number of digits.
+    get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  }
 
   // Obtain additional format information.
   const bool my_showpoint  = ((my_flags & std::ios::showpoint)  != static_cast<std::ios::fmtflags>(0U));
@@ -404,7 +421,7 @@ void local::wr_string_fixed(std::string& str,
     // The number is less than one in magnitude. Insert the decimal
     // point using "0." as well as the needed number of leading zeros.
     const std::size_t minus_exp_minus_one = static_cast<std::size_t>(-the_exp - 1);
-    const std::string str_zero_insert((std::min)(minus_exp_minus_one, os_precision), static_cast<char>('0'));
+    const std::string str_zero_insert(minus_exp_minus_one, static_cast<char>('0'));
 
     const std::int64_t n_pad = static_cast<std::int64_t>(static_cast<std::int64_t>(os_precision) - static_cast<std::int64_t>(str.length() + str_zero_insert.length()));
 
@@ -507,17 +524,25 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
 
       const std::size_t len_non_zero_part = static_cast<std::size_t>(str.cend() - it_non_zero);
 
-      const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_non_zero_part);
+      if(os_precision > len_non_zero_part)
+      {
+        const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_non_zero_part);
 
-      str.insert(str.cend(), u_pad, static_cast<char>('0'));
+        str.insert(str.cend(), u_pad, static_cast<char>('0'));
+      }
     }
   }
   else
   {
     // This is a number greater than or equal to 1 that needs zero extension.
-    const std::size_t u_pad = static_cast<std::size_t>(os_precision - static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U)));
+    const std::size_t len_digits = static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U));
+
+    if(os_precision > len_digits)
+    {
+      const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_digits);
 
-    str.insert(str.cend(), u_pad, static_cast<char>('0'));
+      str.insert(str.cend(), u_pad, static_cast<char>('0'));
+    }
   }
 }
 
-- 
2.43.0


From 8c8f2403fe91b2a4fca7cc4def542c6b7133670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 19/51] fix: efx integer and decimal part of numbers between
 10^99 and the limb capacity ignored the fraction held

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index eef6396..a400b18 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1657,7 +1657,7 @@ efx::e_float efx::e_float::extract_integer_part() const
     // Thus the integer part is zero.
     return ef::zero();
   }
-  else if(my_exp >= static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10 - 1))
+  else if(my_exp >= static_cast<std::int64_t>((ef_elem_number - 1) * ef_elem_digits10))
   {
     // The number is too large to resolve the integer part.
     // Thus it is already a pure integer part.
@@ -1698,7 +1698,7 @@ efx::e_float efx::e_float::extract_decimal_part() const
     // Thus it is already a pure decimal part.
     return *this;
   }
-  else if(my_exp >= static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10 - 1))
+  else if(my_exp >= static_cast<std::int64_t>((ef_elem_number - 1) * ef_elem_digits10))
   {
     // The number is too large to have a decimal part.
     // Thus the decimal part is zero.
-- 
2.43.0


From 601078abf82cb3312c810d295fd48a8cfc7aba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 20/51] fix: floor and ceil rounded their operand, frexp split
 off a power of ten, fmod was off by a divisor

---
 .../functions/elementary/elementary_math.cpp  | 46 ++++++++++++++++---
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 421bd06..5e250b0 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -44,7 +44,7 @@ e_float ef::floor(const e_float& x)
 {
   if(!ef::isfinite(x) || ef::isint(x)) { return x; }
 
-  return (ef::isneg(x) ? ef::integer_part(x - ef::one())
+  return (ef::isneg(x) ? ef::integer_part(x) - ef::one()
                        : ef::integer_part(x));
 }
 
@@ -53,7 +53,7 @@ e_float ef::ceil(const e_float& x)
   if(!ef::isfinite(x) || ef::isint(x)) { return x; }
 
   return (ef::isneg(x) ? ef::integer_part(x)
-                       : ef::integer_part(x + ef::one()));
+                       : ef::integer_part(x) + ef::one());
 }
 
 std::int32_t ef::sgn(const e_float& x)
@@ -75,21 +75,55 @@ e_float ef::ldexp(const e_float& v, int e)
 
 e_float ef::frexp(const e_float& v, int* expon)
 {
+  if((!ef::isfinite(v)) || ef::iszero(v))
+  {
+    *expon = 0;
+
+    return v;
+  }
+
   double d;
   std::int64_t i;
 
   v.extract_parts(d, i);
 
-  *expon = static_cast<int>(i);
+  // Estimate the power of two from the base-10 parts.
+  using std::fabs;
+  using std::floor;
+  using std::log;
+
+  const long double log2_of_v = static_cast<long double>((log(fabs(d)) + (static_cast<long double>(i) * 2.302585092994045684018L)) / 0.6931471805599453094172L);
+
+  std::int64_t n = static_cast<std::int64_t>(floor(log2_of_v)) + static_cast<std::int64_t>(1);
 
-  return v * ef::pow2(static_cast<std::int64_t>(-i));
+  // Split off the power of two in two steps because the power itself
+  // might be out of range, and correct the estimate if necessary.
+  const std::int64_t n_half = n / 2;
+
+  e_float result = (v * ef::pow2(static_cast<std::int64_t>(-n_half))) * ef::pow2(static_cast<std::int64_t>(n_half - n));
+
+  while(ef::fabs(result) >= ef::one())  { result = result * ef::half(); ++n; }
+  while(ef::fabs(result) <  ef::half()) { result = result * ef::two();  --n; }
+
+  *expon = static_cast<int>(n);
+
+  return result;
 }
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
 {
-  const e_float n = (ef::isneg(v1) ? ef::ceil(v1 / v2) : ef::floor(v1 / v2));
+  const e_float n = ef::integer_part(v1 / v2);
+
+  const e_float v2_abs = ef::fabs(v2);
+
+  // The remainder has the sign of the dividend.
+  e_float r = (ef::isneg(v1) ? -(v1 - (n * v2)) : v1 - (n * v2));
+
+  // The rounded quotient might be off by one.
+  if     (ef::isneg(r) && (!ef::iszero(r))) { r += v2_abs; }
+  else if(r >= v2_abs)                      { r -= v2_abs; }
 
-  return v1 - (n * v2);
+  return (ef::isneg(v1) ? -r : r);
 }
 
 bool ef::isfinite(const double x)
-- 
2.43.0


From 657c56c15aa50ace96ab32acaa0dc386e1379f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 21/51] fix: gmp assignment cut the value to the precision of
 the target's earlier contents

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 750d8e8..4ce2844 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -642,8 +642,15 @@ e_float& gmp::e_float::operator=(const e_float& v)
     my_fpclass   = v.my_fpclass;
     my_prec_elem = v.my_prec_elem;
 
+    // Take over all digits of the value, regardless of the precision
+    // that either of the operands has been using for calculations.
+    ::mpf_set_prec_raw(my_rop, my_default_prec);
     ::mpf_set         (my_rop, v.my_rop);
-    ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
+
+    if(my_prec_elem < ef_max_digits10)
+    {
+      ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
+    }
   }
 
   return *this;
@@ -652,13 +659,7 @@ e_float& gmp::e_float::operator=(const e_float& v)
 // Move assignment operator.
 e_float& gmp::e_float::operator=(e_float&& v)
 {
-  my_fpclass   = v.my_fpclass;
-  my_prec_elem = v.my_prec_elem;
-
-  ::mpf_set         (my_rop, v.my_rop);
-  ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
-
-  return *this;
+  return operator=(static_cast<const e_float&>(v));
 }
 
 void gmp::e_float::extract_parts(double& mantissa, std::int64_t& exponent) const
-- 
2.43.0


From c2a775bbc78eeb1ccd7dbbaf3484fa36e7c3e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 22/51] fix: efx products at a reduced precision had up to
 eighteen digits less than the precision set

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index a400b18..79b57e0 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -386,7 +386,11 @@ void efx::e_float::precision(const std::int32_t prec_digits)
     static_cast<std::int32_t>(    static_cast<std::int32_t>(prec_digits / ef_elem_digits10)
                               +                          (((prec_digits % ef_elem_digits10) != 0) ? 1 : 0));
 
-  my_prec_elem = (std::min)(ef_elem_number, (std::max)(elems, static_cast<std::int32_t>(2)));
+  // Use the same number of guard elements as the full precision does. A truncated
+  // product of n elements can be wrong in (almost) two of its least significant elements.
+  const std::int32_t guard = static_cast<std::int32_t>(ef_elem_number - ef_digits10_num_base);
+
+  my_prec_elem = (std::min)(ef_elem_number, (std::max)(static_cast<std::int32_t>((std::min)(elems, static_cast<std::int32_t>(ef_digits10_num_base)) + guard), static_cast<std::int32_t>(2)));
 }
 
 // Assignment operator.
-- 
2.43.0


From 6a27aad8d7314c751d54723b334210f1f0d14841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 23/51] verification hook: digits of the type from
 E_FLOAT_VERIF_DIGITS10

---
 libs/e_float/src/e_float/e_float_base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.h b/libs/e_float/src/e_float/e_float_base.h
index 6f5aea2..a32affb 100644
--- a/libs/e_float/src/e_float/e_float_base.h
+++ b/libs/e_float/src/e_float/e_float_base.h
@@ -25,7 +25,9 @@
   #define E_FLOAT_TEST_REAL_IMAG_TESTS
   #endif
 
-  #if defined(E_FLOAT_TEST_PI_ALGOS_TESTS)
+  #if defined(E_FLOAT_VERIF_DIGITS10)
+  #define E_FLOAT_DIGITS10 E_FLOAT_VERIF_DIGITS10
+  #elif defined(E_FLOAT_TEST_PI_ALGOS_TESTS)
   #define E_FLOAT_DIGITS10 1000001
   #elif defined(E_FLOAT_TEST_REAL_IMAG_TESTS)
   #define E_FLOAT_DIGITS10 101
-- 
2.43.0


From e814e1c6d6a1271e9dee72d67eb4c27ad281d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 24/51] fix: roots of zero hung, odd roots of negative numbers
 were NaN, inverse roots for p <= 1 and roots of high order were wrong

---
 .../functions/elementary/elementary_trans.cpp | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index d8c84cf..13d5671 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -44,15 +44,13 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
 
   ef::to_parts(x, dd, ne);
 
-  // Adjust exponent and mantissa such that ne is an even power of p.
-  while(ne % static_cast<std::int64_t>(p))
-  {
-    ++ne;
-    dd /= 10.0;
-  }
-  
+  // Split off the part of the exponent which is a multiple of p.
+  const std::int64_t ne_rem = ne % static_cast<std::int64_t>(p);
+
+  ne -= ne_rem;
+
   // Estimate the one over the root using simple manipulations.
-  const double one_over_rtn_d = ::pow(dd, -1.0 / static_cast<double>(p));
+  const double one_over_rtn_d = ::pow(10.0, -(::log10(dd) + static_cast<double>(ne_rem)) / static_cast<double>(p));
 
   // Set the result equal to the initial guess.
   e_float result(one_over_rtn_d, static_cast<std::int64_t>(-ne / p));
@@ -100,10 +98,22 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
     return ef::rootn(ef::one() / x, static_cast<std::int32_t>(-p));
   }
 
-  if((p == static_cast<std::int32_t>(0)) || ef::isneg(x))
+  if(p == static_cast<std::int32_t>(0))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
+
+  if(ef::iszero(x))
+  {
+    return ef::zero();
+  }
+
+  if(ef::isneg(x))
+  {
+    // There are real-valued roots of negative numbers for odd p only.
+    return (((p % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0)) ? -ef::rootn(-x, p)
+                                                                                 : std::numeric_limits<e_float>::quiet_NaN());
+  }
   else if(p == static_cast<std::int32_t>(1))
   {
     return x;
@@ -132,16 +142,28 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
 
   if(p < static_cast<std::int32_t>(0))
   {
-    return detail::pown_template(x, static_cast<std::int32_t>(-p));
+    return ef::rootn(x, static_cast<std::int32_t>(-p));
   }
 
-  if((p == static_cast<std::int32_t>(0)) || ef::isneg(x))
+  if(p == static_cast<std::int32_t>(0))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
+
+  if(ef::iszero(x))
+  {
+    return ef::one() / x;
+  }
+
+  if(ef::isneg(x))
+  {
+    // There are real-valued roots of negative numbers for odd p only.
+    return (((p % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0)) ? -ef::rootn_inverse(-x, p)
+                                                                                 : std::numeric_limits<e_float>::quiet_NaN());
+  }
   else if(p == static_cast<std::int32_t>(1))
   {
-    return x;
+    return ef::one() / x;
   }
   else if(p == static_cast<std::int32_t>(2))
   {
-- 
2.43.0


From d3c01f8a8d2d382e1b7947f0ec1424a4b1b0c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 25/51] fix: log1p was NaN or inaccurate outside the
 convergence region of its series

---
 .../e_float/src/functions/elementary/elementary_trans.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 13d5671..d361d91 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -381,7 +381,13 @@ e_float ef::log(const e_float& x)
 
 e_float ef::log10(const e_float& x)                   { return ef::log(x) / ef::ln10(); }
 e_float ef::loga (const e_float& a, const e_float& x) { return ef::log(x) / ef::log(a); }
-e_float ef::log1p(const e_float& x)                   { return Log_Series::AtOne(x); }
+
+e_float ef::log1p(const e_float& x)
+{
+  // The series converges quickly for small arguments only.
+  return ((ef::isfinite(x) && (x.order() < static_cast<std::int64_t>(-1))) ? Log_Series::AtOne(x)
+                                                                            : ef::log(ef::one() + x));
+}
 
 e_float ef::log1p1m2(const e_float& x)
 {
-- 
2.43.0


From 66c944c4d74b9a95efa5d6b0200a554827d64389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 26/51] fix: real powers of zero and of infinity, and with
 exponents beyond the built-in integers

---
 .../functions/elementary/elementary_trans.cpp | 38 ++++++++++++++++---
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index d361d91..b8b69e9 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -437,23 +437,41 @@ e_float ef::log1p1m2(const e_float& x)
 
 e_float ef::pow(const e_float& x, const e_float& a)
 {
-  if((ef::isfinite(x) == false) || ef::isone(a))
+  if(ef::isnan(x) || ef::isnan(a))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
   }
 
-  if(ef::iszero(x))
+  if(ef::iszero(a))
   {
     return ef::one();
   }
-  
-  if(ef::iszero(a))
+
+  if(ef::isone(a))
   {
-    return ef::one();
+    return x;
+  }
+
+  if(ef::isinf(a))
+  {
+    const e_float xa = ef::fabs(x);
+
+    return (ef::isone(xa) ? ef::one()
+                          : (((xa > ef::one()) == ef::ispos(a)) ? std::numeric_limits<e_float>::infinity() : ef::zero()));
   }
 
   const bool bo_a_isint = ef::isint(a);
 
+  if(ef::isinf(x) || ef::iszero(x))
+  {
+    // The result is zero or infinity, and negative for odd powers of a negative base.
+    const bool b_odd = (bo_a_isint && (!ef::isint(a / static_cast<std::int32_t>(2))));
+
+    const e_float result = ((ef::isinf(x) == ef::ispos(a)) ? std::numeric_limits<e_float>::infinity() : ef::zero());
+
+    return ((b_odd && ef::isneg(x) && ef::isinf(result)) ? -result : result);
+  }
+
   if(ef::isneg(x) && !bo_a_isint)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
@@ -468,6 +486,14 @@ e_float ef::pow(const e_float& x, const e_float& a)
   const std::int64_t an    = ef::to_int64(a_int);
   const e_float      da    = a - a_int;
 
+  if(a.order() > static_cast<std::int64_t>(17))
+  {
+    // The integer part of a does not fit in a built-in integer.
+    const e_float result = ef::exp(a * ef::log(ef::fabs(x)));
+
+    return ((ef::isneg(x) && (!ef::isint(a / static_cast<std::int32_t>(2)))) ? -result : result);
+  }
+
   if(bo_a_isint)
   {
     return ef::detail::pown_template(x, an);
-- 
2.43.0


From 5e92e75577b0ffa61a778c2ba668ffa2021a854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 27/51] fix: hyperbolic functions and inverses of small, large
 and special arguments

---
 .../functions/elementary/elementary_trans.cpp | 54 ++++++++++++++-----
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index b8b69e9..a4dac69 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -585,7 +585,7 @@ e_float ef::cosh(const e_float& x)
 
   if(ef::isfinite(x) == false)
   {
-    return x;
+    return ef::fabs(x);
   }
 
   e_float c;
@@ -618,7 +618,13 @@ void ef::sinhcosh(const e_float& x, e_float* const p_sinh, e_float* const p_cosh
   const e_float e_px = ef::exp(x);
   const e_float e_mx = ef::one() / e_px;
 
-  if(p_sinh != nullptr) { *p_sinh  = (e_px - e_mx) / static_cast<std::int32_t>(2); }
+  if(p_sinh != nullptr)
+  {
+    // Avoid the cancellation for small arguments.
+    *p_sinh = ((x.order() < static_cast<std::int64_t>(0)) ? x * ef::hypergeometric_0f1(ef::three_half(), (x * x) / static_cast<std::int32_t>(4))
+                                                          : (e_px - e_mx) / static_cast<std::int32_t>(2));
+  }
+
   if(p_cosh != nullptr) { *p_cosh  = (e_px + e_mx) / static_cast<std::int32_t>(2); }
 }
 
@@ -629,6 +635,17 @@ e_float ef::tanh(const e_float& x)
     return e_float::my_own_tanh(x);
   }
 
+  if(ef::isnan(x))
+  {
+    return x;
+  }
+
+  // The result is one for large arguments.
+  if(ef::fabs(x) > e_float(static_cast<std::int32_t>(ef::tolerance() * 2)))
+  {
+    return (ef::ispos(x) ? ef::one() : ef::one_minus());
+  }
+
   e_float c, s;
   ef::sinhcosh(x, &s, &c);
   return s * c.calculate_inv();
@@ -652,7 +669,17 @@ e_float ef::asinh(const e_float& x)
   }
   else
   {
-    const e_float value = ef::log(ef::fabs(x) + ef::sqrt((x * x) + ef::one()));
+    // Avoid the cancellation for small arguments.
+    if(x.order() < static_cast<std::int64_t>(-1))
+    {
+      return x * ef::hypergeometric_2f1(ef::half(), ef::half(), ef::three_half(), -(x * x));
+    }
+
+    const e_float xx = ef::fabs(x);
+
+    // Avoid the overflow of the square for large arguments.
+    const e_float value = ((xx.order() > ef::tolerance()) ? ef::log(xx) + ef::ln2()
+                                                          : ef::log(xx + ef::sqrt((xx * xx) + ef::one())));
 
     return ((ef::isneg(x) == false) ? value : -value);
   }
@@ -677,7 +704,13 @@ e_float ef::acosh(const e_float& x)
 
   if(ef::isone(x))
   {
-    return ef::one();
+    return ef::zero();
+  }
+
+  // Avoid the overflow of the square for large arguments.
+  if(x.order() > ef::tolerance())
+  {
+    return ef::log(x) + ef::ln2();
   }
 
   const e_float x_minus_one = x - ef::one();
@@ -705,18 +738,15 @@ e_float ef::atanh(const e_float& x)
 
   if(!ef::isfinite(x))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
   }
 
-  const e_float xx = ef::fabs(x);
-  
-  if(xx >= ef::one())
+  if(ef::fabs(x) >= ef::one())
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
-  const e_float value = (ef::small_arg(x) ?  ef::log1p1m2(x)
-                                          : (ef::log((ef::one() + x) / (ef::one() - x)) / static_cast<std::int32_t>(2)));
-
-  return ((!ef::isneg(xx)) ? value : -value);
+  // Avoid the cancellation for small arguments.
+  return ((x.order() < static_cast<std::int64_t>(-1)) ? ef::log1p1m2(x)
+                                                      : (ef::log((ef::one() + x) / (ef::one() - x)) / static_cast<std::int32_t>(2)));
 }
-- 
2.43.0


From cd3598bd2c422b7cbe890185057fcfcfbd078c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 28/51] fix: arcsine of small negative and arctangent of large
 negative arguments had the wrong sign, arctangent of infinity

---
 .../functions/elementary/elementary_trig.cpp  | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index c3e2077..79bd9ef 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -300,12 +300,10 @@ e_float ef::asin(const e_float& x)
   if(ef::small_arg(xx))
   {
     // http://functions.wolfram.com/ElementaryFunctions/ArcSin/26/01/01/
-    const e_float asin_value = x * ef::hypergeometric_2f1(ef::half(),
-                                                          ef::half(),
-                                                          ef::three_half(),
-                                                          (x * x));
-
-    return !b_neg ? asin_value : -asin_value;
+    return x * ef::hypergeometric_2f1(ef::half(),
+                                      ef::half(),
+                                      ef::three_half(),
+                                      (x * x));
   }
   else if(ef::near_one(xx))
   {
@@ -404,7 +402,7 @@ static e_float Atan_Series::AtInfinity(const e_float& x)
 
 e_float ef::atan(const e_float& x)
 {
-  if(ef::isfinite(x) == false)
+  if(ef::isnan(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
@@ -430,15 +428,15 @@ e_float ef::atan(const e_float& x)
     return Atan_Series::AtZero(x);
   }
 
-  if(ef::large_arg(x))
-  {
-    return Atan_Series::AtInfinity(x);
-  }
-
   const bool b_neg = ef::isneg(x);
 
   const e_float xx = ((!b_neg) ? x : -x);
 
+  if(ef::large_arg(x))
+  {
+    return ((!b_neg) ? Atan_Series::AtInfinity(xx) : -Atan_Series::AtInfinity(xx));
+  }
+
   // Get initial estimate using standard math function atan or a series
   // expansion for rather large arguments having order 3 or larger.
   double       dd;
-- 
2.43.0


From aab7a7e41d94eba377e0340ee3c8782785e085da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 29/51] fix: terminating hypergeometric series and those with
 underflowing terms were NaN

---
 .../elementary/elementary_hyper_g.cpp         | 42 +++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp b/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
index f3e3c28..3ae8f2d 100644
--- a/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
@@ -32,6 +32,12 @@ e_float ef::hypergeometric_0f0(const e_float& x)
     x_pow_n_div_n_fact *= x;
     x_pow_n_div_n_fact /= n;
 
+    if(ef::iszero(x_pow_n_div_n_fact))
+    {
+      // The series terminates.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(x_pow_n_div_n_fact.order() - H0F0.order());
@@ -72,6 +78,12 @@ e_float ef::hypergeometric_0f1(const e_float& b, const e_float& x)
 
     const e_float term = x_pow_n_div_n_fact / pochham_b;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H0F1.order());
@@ -113,6 +125,12 @@ e_float ef::hypergeometric_1f0(const e_float& a, const e_float& x)
 
     const e_float term = pochham_a * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H1F0.order());
@@ -156,6 +174,12 @@ e_float ef::hypergeometric_1f1(const e_float& a, const e_float& b, const e_float
 
     const e_float term = (pochham_a / pochham_b) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H1F1.order());
@@ -198,6 +222,12 @@ e_float ef::hypergeometric_2f0(const e_float& a, const e_float& b, const e_float
 
     const e_float term = (pochham_a * pochham_b) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F0.order());
@@ -244,6 +274,12 @@ e_float ef::hypergeometric_2f1(const e_float& a, const e_float& b, const e_float
 
     const e_float term = ((pochham_a * pochham_b) / pochham_c) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F1.order());
@@ -299,6 +335,12 @@ e_float ef::hypergeometric_pfq(const std::deque<e_float>& a, const  std::deque<e
 
     const e_float term = (pochham_a / pochham_b) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - HPFQ.order());
-- 
2.43.0


From bd90e73da6bcb993086d0faa66b8bbf9d01c88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 30/51] fix: exp overflowed and underflowed at less than half
 of the exponent range of efx

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index a4dac69..1a7027d 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -205,7 +205,7 @@ e_float ef::exp(const e_float& x)
   const e_float xx = ((!bo_x_is_neg) ? x : -x);
 
   // Check the range of the argument.
-  static const e_float maximum_arg_for_exp = std::numeric_limits<e_float>::max_exponent;
+  static const e_float maximum_arg_for_exp = ef::ln10() * (e_float(std::numeric_limits<e_float>::max_exponent10) + ef::one());
 
   if(xx > maximum_arg_for_exp)
   {
-- 
2.43.0


From e7345160d366758fad0eb446c120043c74c564ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 31/51] fix: overflowing negative powers of negative numbers
 had the wrong sign

---
 .../src/functions/elementary/elementary_trans.cpp   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 1a7027d..1f8b215 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -479,7 +479,10 @@ e_float ef::pow(const e_float& x, const e_float& a)
 
   if(a <= ef::one_minus())
   {
-    return ef::one() / ef::pow(x, -a);
+    // Take the absolute value, because the power might underflow to the one (unsigned) zero.
+    const e_float result = ef::one() / ef::pow(ef::fabs(x), -a);
+
+    return ((ef::isneg(x) && (!ef::isint(a / static_cast<std::int32_t>(2)))) ? -result : result);
   }
 
   const e_float      a_int = ef::integer_part(a);
@@ -533,7 +536,13 @@ e_float ef::pow(const e_float& b, const std::int64_t p)
 
   floating_point_type result;
 
-  if     (p <  0) { result = 1 / pow(b, -p); }
+  if(p < 0)
+  {
+    // Take the absolute value, because the power might underflow to the one (unsigned) zero.
+    result = 1 / pow(ef::fabs(b), -p);
+
+    if(ef::isneg(b) && ((p % 2) != 0)) { result.negate(); }
+  }
   else if(p == 0) { result = floating_point_type(1U); }
   else if(p == 1) { result = b; }
   else if(p == 2) { result = b; result *= b; }
-- 
2.43.0


From 71b0cb88f307adf35e6b26d1dd1cd7de10ce2104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 32/51] fix: roots of numbers next to the largest one were
 wrong

---
 .../src/functions/elementary/elementary_trans.cpp        | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 1f8b215..2e9f48e 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -49,11 +49,14 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
 
   ne -= ne_rem;
 
+  // Scale the argument with the power of ten.
+  const e_float x_scaled = x * e_float(1.0, -ne);
+
   // Estimate the one over the root using simple manipulations.
   const double one_over_rtn_d = ::pow(10.0, -(::log10(dd) + static_cast<double>(ne_rem)) / static_cast<double>(p));
 
   // Set the result equal to the initial guess.
-  e_float result(one_over_rtn_d, static_cast<std::int64_t>(-ne / p));
+  e_float result(one_over_rtn_d);
 
   static const std::int32_t double_digits10_minus_a_few = static_cast<std::int32_t>(static_cast<std::int32_t>(std::numeric_limits<double>::digits10) - static_cast<std::int32_t>(3));
 
@@ -65,7 +68,7 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
     result.precision(new_prec);
 
     // Perform the next iteration.
-    e_float term = (((-ef::detail::pown_template(result, p) * x) + ef::one()) / p) + ef::one();
+    e_float term = (((-ef::detail::pown_template(result, p) * x_scaled) + ef::one()) / p) + ef::one();
 
     term.precision(new_prec);
 
@@ -75,7 +78,7 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
 
   result.precision(static_cast<std::int32_t>(ef::tolerance()));
 
-  return result;
+  return result * e_float(1.0, static_cast<std::int64_t>(-ne / p));
 }
 
 e_float ef::inv (const e_float& x) { return e_float(x).calculate_inv(); }
-- 
2.43.0


From a14cc710ec6507255ec911794f5d7554c93c78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 33/51] fix: roots of negative order of numbers next to the
 largest one were zero

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 2e9f48e..be2b68f 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -98,7 +98,7 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
 
   if(p < static_cast<std::int32_t>(0))
   {
-    return ef::rootn(ef::one() / x, static_cast<std::int32_t>(-p));
+    return ef::rootn_inverse(x, static_cast<std::int32_t>(-p));
   }
 
   if(p == static_cast<std::int32_t>(0))
-- 
2.43.0


From 0dd5996e800829d389d6dd701cac44a4cd3a68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 34/51] fix: zero mantissa with zero exponent made the number
 one

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp   | 2 +-
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 9 +--------
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 9 +--------
 3 files changed, 3 insertions(+), 17 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 79b57e0..ce5d8af 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -44,7 +44,7 @@ efx::e_float::e_float(const double mantissa,
 
   if(mantissa_is_iszero)
   {
-    operator=((exponent == static_cast<std::int64_t>(0)) ? ef::one() : ef::zero());
+    operator=(ef::zero());
     return;
   }
 
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 4ce2844..434f08b 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -78,14 +78,7 @@ gmp::e_float::e_float(const double mantissa,
 
   if(mantissa_is_iszero)
   {
-    if(exponent == static_cast<std::int64_t>(0))
-    {
-      ::mpf_init_set_ui(my_rop, 1U);
-    }
-    else
-    {
-      ::mpf_init_set_ui(my_rop, 0U);
-    }
+    ::mpf_init_set_ui(my_rop, 0U);
   }
   else
   {
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index cd13a74..f4b55c6 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -42,14 +42,7 @@ mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
 
   if(mantissa_is_iszero)
   {
-    if(exponent == static_cast<std::int64_t>(0))
-    {
-      mpfr_init_set(my_rop, (ef::one()).my_rop, GMP_RNDN);
-    }
-    else
-    {
-      mpfr_init_set(my_rop, (ef::zero()).my_rop, GMP_RNDN);
-    }
+    mpfr_init_set(my_rop, (ef::zero()).my_rop, GMP_RNDN);
   }
   else
   {
-- 
2.43.0


From 26a4961d151449fd2407a53d5489b9bbf63b410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 35/51] fix: conj of a complex number was the number times the
 imaginary unit

---
 libs/e_float/src/e_float/e_float_complex.h | 29 +++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index da6c0e0..da391b4 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1095,7 +1095,7 @@
 
     template<typename T> complex<T> conj(const complex<T>& c__my_z)
     {
-      return complex<T>(-c__my_z.imag(), c__my_z.real());
+      return complex<T>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<typename T> complex<T> proj(const complex<T>& c__my_z)
@@ -1126,19 +1126,20 @@
 
     template<typename T> complex<T> asin(const complex<T>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(T(1U) - (c__my_z * c__my_z))));
+      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
+
+      const complex<T> z__result = log(__iz + sqrt(T(1U) - (c__my_z * c__my_z)));
+
+      return complex<T>(z__result.imag(), -z__result.real());
     }
 
     template<typename T> complex<T> atan(const complex<T>& c__my_z)
     {
-      const complex<T> __z_conj = conj(c__my_z);
+      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
 
-      complex<T> z__result = conj(log(T(1) - __z_conj) - log(T(1) + __z_conj));
-
-      z__result.real(z__result.real() / 2U);
-      z__result.imag(z__result.imag() / 2U);
+      const complex<T> z__result = log(T(1) - __iz) - log(T(1) + __iz);
 
-      return z__result;
+      return complex<T>(-z__result.imag() / 2U, z__result.real() / 2U);
     }
 
     template<typename T> complex<T> acosh(const complex<T>& c__my_z)
@@ -1687,7 +1688,7 @@
 
     template<> inline complex<e_float> conj(const complex<e_float>& c__my_z)
     {
-      return complex<e_float>(-c__my_z.imag(), c__my_z.real());
+      return complex<e_float>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<> inline complex<e_float> proj(const complex<e_float>& c__my_z)
@@ -1713,14 +1714,18 @@
 
     template<> inline complex<e_float> asin(const complex<e_float>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(ef::one() - (c__my_z * c__my_z))));
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
+
+      const complex<e_float> c__my_log(log(c__my_iz + sqrt(ef::one() - (c__my_z * c__my_z))));
+
+      return complex<e_float>(c__my_log.imag(), -c__my_log.real());
     }
 
     template<> inline complex<e_float> atan(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_z_conj(conj(c__my_z));
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
 
-      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_z_conj) - log(ef::one() + c__my_z_conj));
+      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_iz) - log(ef::one() + c__my_iz));
 
       return complex<e_float>(-c__my_pre_result.imag() / 2U,
                                c__my_pre_result.real() / 2U);
-- 
2.43.0


From 6e4a3a82de694e4f9e36710b7e66d0fcc8139159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 36/51] fix: complex asin and asinh of large arguments lost all
 digits in half of the plane

---
 libs/e_float/src/e_float/e_float_complex.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index da391b4..667f9d8 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1714,6 +1714,12 @@
 
     template<> inline complex<e_float> asin(const complex<e_float>& c__my_z)
     {
+      if((c__my_z.imag() > 0U) || (iszero(c__my_z.imag()) && (c__my_z.real() < 0U)))
+      {
+        // Use the odd symmetry, since the terms of the sum below would cancel.
+        return -asin(-c__my_z);
+      }
+
       const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
 
       const complex<e_float> c__my_log(log(c__my_iz + sqrt(ef::one() - (c__my_z * c__my_z))));
@@ -1741,6 +1747,12 @@
 
     template<> complex<e_float> asinh(const complex<e_float>& c__my_z)
     {
+      if(c__my_z.real() < 0U)
+      {
+        // Use the odd symmetry, since the terms of the sum below would cancel.
+        return -asinh(-c__my_z);
+      }
+
       return log(c__my_z + sqrt((c__my_z * c__my_z) + ef::one()));
     }
 
-- 
2.43.0


From 77ce93ea94ddb5cb5d8ec3c025dffaeec9bd9b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 37/51] fix: complex square root of zero was NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 667f9d8..e51f05b 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1864,6 +1864,11 @@
       const e_float c__my_real_part_fabs((c__my_real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
       const e_float c__my_sqrt_part     (ef::sqrt((c__my_real_part_fabs + abs(c__my_z)) / 2U));
 
+      if(iszero(c__my_sqrt_part))
+      {
+        return complex<e_float>(c__my_sqrt_part);
+      }
+
       if(c__my_real_part_is_neg == false)
       {
         return complex<e_float>(c__my_sqrt_part,
-- 
2.43.0


From edbd2e589979b482b5c80a196b60a23ca549258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 38/51] fix: complex power of a negative real base and of zero
 was NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index e51f05b..3dc1a4a 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1821,12 +1821,17 @@
 
     template<> inline complex<e_float> pow(const complex<e_float>& c__my_z, const complex<e_float>& c__my_a)
     {
+      if(iszero(c__my_z.real()) && iszero(c__my_z.imag()) && (c__my_a.real() > 0U))
+      {
+        return complex<e_float>(ef::zero());
+      }
+
       return exp(c__my_a * log(c__my_z));
     }
 
     template<> inline complex<e_float> pow(const e_float& c__my_z, const complex<e_float>& c__my_a)
     {
-      return exp(c__my_a * log(c__my_z));
+      return pow(complex<e_float>(c__my_z), c__my_a);
     }
 
     template<> inline complex<e_float> sin(const complex<e_float>& c__my_z)
-- 
2.43.0


From f52ecba642da49b1caca3df4ae3b16394961fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 39/51] fix: gamma of a complex number with integer real part
 ignored the imaginary part

---
 libs/e_float/src/functions/gamma/gamma.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 5d1f60c..8cd585a 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -76,6 +76,7 @@ namespace GammaTemplate
     using ef::tolerance;
     using ef::exp;
     using ef::log;
+    using ef::imag;
     using ef::real;
     using ef::sin;
     using ef::factorial;
@@ -97,7 +98,7 @@ namespace GammaTemplate
 
     const bool b_neg = isneg(real(x));
 
-    if(isint(real(x)))
+    if(isint(real(x)) && iszero(imag(x)))
     {
       if(b_neg || iszero(real(x)))
       {
-- 
2.43.0


From 8a41af883e7f0b082fae252d8b61f018d42007c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 40/51] fix: pochhammer of non-positive integers was NaN from
 fifty factors on

---
 .../src/functions/gamma/pochhammer.cpp        | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/pochhammer.cpp b/libs/e_float/src/functions/gamma/pochhammer.cpp
index ede5a5c..d576c37 100644
--- a/libs/e_float/src/functions/gamma/pochhammer.cpp
+++ b/libs/e_float/src/functions/gamma/pochhammer.cpp
@@ -18,11 +18,13 @@ namespace Pochhammer_Series
            typename TR>
   T Pochhammer_Template(const T& x, const std::uint32_t n)
   {
-    using ef::real;
-    using ef::real;
-    using ef::gamma;
     using ef::gamma;
+    using ef::imag;
+    using ef::isint;
+    using ef::iszero;
     using ef::one;
+    using ef::real;
+    using ef::zero;
 
     if(n == static_cast<std::uint32_t>(0U))
     {
@@ -52,6 +54,19 @@ namespace Pochhammer_Series
       {
         const TR nr(n);
 
+        if(isint(real(x)) && iszero(imag(x)) && (real(x) <= zero()))
+        {
+          // The quotient of gamma functions below does not exist here.
+          if(real(x) + nr > zero())
+          {
+            return zero();
+          }
+
+          const T pr = Pochhammer_Template<T, TR>((one() - nr) - x, n);
+
+          return ((static_cast<std::uint32_t>(n % static_cast<std::uint32_t>(2U)) != static_cast<std::uint32_t>(0U)) ? -pr : pr);
+        }
+
         return gamma(x + nr) / gamma(x);
       }
     }
-- 
2.43.0


From 6ab5f8964d58936753f1141fe7b3793ff82193fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 41/51] fix: binomial of a negative or small integer with
 integer count was NaN

---
 libs/e_float/src/functions/gamma/factorial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/gamma/factorial.cpp b/libs/e_float/src/functions/gamma/factorial.cpp
index e0396e5..cb032cd 100644
--- a/libs/e_float/src/functions/gamma/factorial.cpp
+++ b/libs/e_float/src/functions/gamma/factorial.cpp
@@ -99,7 +99,7 @@ e_float ef::binomial(const std::uint32_t n, const e_float& y)
 
 e_float ef::binomial(const e_float& x, const std::uint32_t k)
 {
-  return ef::gamma(x + ef::one()) / (ef::factorial(k) * ef::gamma((x - e_float(k)) + ef::one()));
+  return ef::pochhammer((x - e_float(k)) + ef::one(), k) / ef::factorial(k);
 }
 
 e_float ef::binomial(const e_float& x, const e_float& y)
-- 
2.43.0


From 4962cd8cdeb485c8ddc4c5fb6fd0483f0f2b1a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 42/51] fix: one was reported among the prime factors

---
 libs/e_float/src/functions/integer/prime_factor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/integer/prime_factor.cpp b/libs/e_float/src/functions/integer/prime_factor.cpp
index 5072e60..e605689 100644
--- a/libs/e_float/src/functions/integer/prime_factor.cpp
+++ b/libs/e_float/src/functions/integer/prime_factor.cpp
@@ -64,7 +64,10 @@ namespace Primes
 
       if(static_cast<std::uint32_t>(np / p) <= p)
       {
-        pf.push_back(Util::point<std::uint32_t>(np, static_cast<std::uint32_t>(1U)));
+        if(np != static_cast<std::uint32_t>(1U))
+        {
+          pf.push_back(Util::point<std::uint32_t>(np, static_cast<std::uint32_t>(1U)));
+        }
 
         break;
       }
-- 
2.43.0


From 2381ff6a92622c57df2ef6c25596bbf955c77c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 43/51] fix: bernoulli_table of length zero wrote out of bounds

---
 libs/e_float/src/functions/integer/bernoulli_b.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/e_float/src/functions/integer/bernoulli_b.cpp b/libs/e_float/src/functions/integer/bernoulli_b.cpp
index babc2a0..1737947 100644
--- a/libs/e_float/src/functions/integer/bernoulli_b.cpp
+++ b/libs/e_float/src/functions/integer/bernoulli_b.cpp
@@ -73,6 +73,13 @@ void ef::bernoulli_table(std::vector<e_float>& bn, const std::uint32_t n)
   // Also see "Modern Computer Arithmetic", Richard P. Brent and Paul Zimmermann,
   // Cambridge University Press, 2010, 237 pp.
 
+  if(n == static_cast<std::uint32_t>(0U))
+  {
+    bn.assign(static_cast<std::vector<e_float>::size_type>(1U), ef::one());
+
+    return;
+  }
+
   const std::uint32_t nn = (((n % static_cast<std::uint32_t>(2)) != static_cast<std::uint32_t>(0U)) ? static_cast<std::uint32_t>(n + 1U) : n);
 
   const std::int32_t m = static_cast<std::int32_t>(nn / static_cast<std::uint32_t>(2U));
-- 
2.43.0


From da1f6c3f85453aa4d0f791b93b0594ffac556a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 44/51] fix: zeta of small negative arguments lost digits

---
 libs/e_float/src/functions/zeta/zeta.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index f7d6c72..3924f38 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -76,7 +76,6 @@ namespace Zeta_Series
     using ef::real;
     using ef::tolerance;
     using ef::prime;
-    using ef::isneg;
     using ef::iszero;
     using ef::isint;
     using ef::to_int32;
@@ -87,6 +86,7 @@ namespace Zeta_Series
     using ef::one;
     using ef::two;
     using ef::four;
+    using ef::half;
     using ef::hundred;
     using ef::million;
 
@@ -105,10 +105,10 @@ namespace Zeta_Series
       }
     }
 
-    if(isneg(real(s)))
+    if(real(s) < -half())
     {
-      // Support negative arguments using the reflection formula.
-      // Support arguments with a real part which is less than 1/2.
+      // Support negative arguments using the reflection formula. This is not used
+      // near zero, since 1 - s would be too close to the pole there.
       return Zeta_Series::Reflection<T, TR>(s);
     }
 
@@ -141,7 +141,7 @@ namespace Zeta_Series
     static const double td             = static_cast<double>(static_cast<std::int32_t>(tolerance()));
            const double sd             = to_double(real(s));
 
-    if(s_is_pure_real && ((td / sd) < lg10_max_prime))
+    if(s_is_pure_real && (sd > 0.0) && ((td / sd) < lg10_max_prime))
     {
       // Perform the product of primes.
       T product(1U);
-- 
2.43.0


From 03ba3a083996ad9ec055bbac6e6e06ae68579f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 45/51] fix: complex acosh of minus one was NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 3dc1a4a..6a224d6 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1147,7 +1147,7 @@
       const complex<T> __zp(c__my_z.real() + T(1U), c__my_z.imag());
       const complex<T> __zm(c__my_z.real() - T(1U), c__my_z.imag());
 
-      return log(c__my_z + (__zp * sqrt(__zm / __zp)));
+      return log(c__my_z + (sqrt(__zp) * sqrt(__zm)));
     }
 
     template<typename T> complex<T> asinh(const complex<T>& c__my_z)
@@ -1742,7 +1742,7 @@
       const complex<e_float> c__my_zp = c__my_z + ef::one();
       const complex<e_float> c__my_zm = c__my_z - ef::one();
 
-      return log(c__my_z + (c__my_zp * sqrt(c__my_zm / c__my_zp)));
+      return log(c__my_z + (sqrt(c__my_zp) * sqrt(c__my_zm)));
     }
 
     template<> complex<e_float> asinh(const complex<e_float>& c__my_z)
-- 
2.43.0


From df7ffc444b793fcc5963161d063fbf528ff2f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 46/51] fix: zeta of large arguments was NaN

---
 libs/e_float/src/functions/zeta/zeta.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index 3924f38..0dd5239 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -141,6 +141,13 @@ namespace Zeta_Series
     static const double td             = static_cast<double>(static_cast<std::int32_t>(tolerance()));
            const double sd             = to_double(real(s));
 
+    if((sd * 0.30102999566398120) > td)
+    {
+      // The result does not significantly differ from one. In addition, the powers
+      // used below might not be representable.
+      return T(1U);
+    }
+
     if(s_is_pure_real && (sd > 0.0) && ((td / sd) < lg10_max_prime))
     {
       // Perform the product of primes.
-- 
2.43.0


From db5df04e2025e4f553994f9fc0b6fac9c0168658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 47/51] fix: lowest() and denorm_min() of the numeric limits
 were zero

---
 libs/e_float/src/e_float/e_float.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float.h b/libs/e_float/src/e_float/e_float.h
index fd82ff4..2cde08e 100644
--- a/libs/e_float/src/e_float/e_float.h
+++ b/libs/e_float/src/e_float/e_float.h
@@ -75,13 +75,13 @@
 
       static const e_float& (min)        () noexcept { return ef::value_min(); }
       static const e_float& (max)        () noexcept { return ef::value_max(); }
-      static const e_float& lowest       () noexcept { return ef::zero(); }
+      static const e_float& lowest       () noexcept { static const e_float val(e_float(ef::value_max()).negate()); return val; }
       static const e_float& epsilon      () noexcept { return ef::value_eps(); }
       static const e_float& round_error  () noexcept { return ef::half(); }
       static const e_float& infinity     () noexcept { return ef::value_inf(); }
       static const e_float& quiet_NaN    () noexcept { return ef::value_nan(); }
       static const e_float& signaling_NaN() noexcept { return ef::zero(); }
-      static const e_float& denorm_min   () noexcept { return ef::zero(); }
+      static const e_float& denorm_min   () noexcept { return ef::value_min(); }
     };
   }
 
-- 
2.43.0


From 5a3415aa6188f5303929174d3b0b8b8e5c2b65ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 48/51] fix: assignment of arrays of another length, prefix
 comparison, elements constructed by assignment

---
 .../detail/e_float_detail_dynamic_array.h     |  6 ++-
 libs/e_float/src/utility/util_dynamic_array.h | 43 +++----------------
 2 files changed, 12 insertions(+), 37 deletions(-)

diff --git a/libs/e_float/src/e_float/detail/e_float_detail_dynamic_array.h b/libs/e_float/src/e_float/detail/e_float_detail_dynamic_array.h
index 3fdc8ba..7c3c028 100644
--- a/libs/e_float/src/e_float/detail/e_float_detail_dynamic_array.h
+++ b/libs/e_float/src/e_float/detail/e_float_detail_dynamic_array.h
@@ -54,7 +54,11 @@
 
     fixed_dynamic_array& operator=(const fixed_dynamic_array& other_array)
     {
-      base_class_type::operator=((const base_class_type&) other_array);
+      // An array that has been moved from has no elements to copy.
+      if(!other_array.empty())
+      {
+        base_class_type::operator=((const base_class_type&) other_array);
+      }
 
       return *this;
     }
diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 1618049..45aff59 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -69,7 +69,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(other.elems, other.elems + elem_count, elems);
+          std::uninitialized_copy(other.elems, other.elems + elem_count, elems);
         }
       }
 
@@ -86,7 +86,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(first, last, elems);
+          std::uninitialized_copy(first, last, elems);
         }
       }
 
@@ -101,7 +101,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(lst.begin(), lst.end(), elems);
+          std::uninitialized_copy(lst.begin(), lst.end(), elems);
         }
       }
 
@@ -134,18 +134,16 @@
       // Assignment operator.
       dynamic_array& operator=(const dynamic_array& other)
       {
-        if((elem_count == 0U) && (other.elem_count > 0U))
+        if(elem_count != other.elem_count)
         {
-          // This array has been moved from. Give it elements again.
+          // The lengths differ. This includes arrays that have been moved from.
           dynamic_array tmp(other);
 
           swap(tmp);
         }
         else if(this != &other)
         {
-          std::copy(other.elems,
-                    other.elems + (std::min)(elem_count, other.elem_count),
-                    elems);
+          std::copy(other.elems, other.elems + elem_count, elems);
         }
 
         return *this;
@@ -282,34 +280,7 @@
     bool operator<(const dynamic_array<ValueType, AllocatorType>& lhs,
                    const dynamic_array<ValueType, AllocatorType>& rhs)
     {
-      typedef typename dynamic_array<ValueType, AllocatorType>::size_type size_type;
-
-      const bool size_of_left_is_zero = (lhs.size() == size_type(0U));
-
-      if(size_of_left_is_zero)
-      {
-        const bool size_of_right_is_zero = (rhs.size() == size_type(0U));
-
-        return (size_of_right_is_zero ? false : true);
-      }
-      else
-      {
-        if(size_of_left_is_zero)
-        {
-          const bool size_of_right_is_zero = (rhs.size() == size_type(0U));
-
-          return (size_of_right_is_zero == false);
-        }
-        else
-        {
-          const size_type count = (std::min)(lhs.size(), rhs.size());
-
-          return std::lexicographical_compare(lhs.cbegin(),
-                                              lhs.cbegin() + count,
-                                              rhs.cbegin(),
-                                              rhs.cbegin() + count);
-        }
-      }
+      return std::lexicographical_compare(lhs.cbegin(), lhs.cend(), rhs.cbegin(), rhs.cend());
     }
 
     template<typename ValueType, typename AllocatorType>
-- 
2.43.0


From 79326df399750207784d63917b4b40ee677c14bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 49/51] fix: function objects of the helper algorithms did not
 compile; bisection without a bracket reported success

---
 .../e_float/src/utility/util_find_root_bisect.h | 17 ++++++++++++-----
 .../src/utility/util_function_derivative.h      |  8 ++++----
 libs/e_float/src/utility/util_noncopyable.h     |  5 +++++
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/libs/e_float/src/utility/util_find_root_bisect.h b/libs/e_float/src/utility/util_find_root_bisect.h
index 1bb0ec3..d637260 100644
--- a/libs/e_float/src/utility/util_find_root_bisect.h
+++ b/libs/e_float/src/utility/util_find_root_bisect.h
@@ -16,7 +16,7 @@
   namespace Util
   {
     template<typename T>
-    class FindRootBisect final : public FindRootBase<T>
+    class FindRootBisect : public FindRootBase<T>
     {
     public:
       virtual ~FindRootBisect() { }
@@ -38,13 +38,20 @@
         T lo = RangedFunctionOperation<T>::xlo;
         T hi = RangedFunctionOperation<T>::xhi;
 
-        const T f = function(lo);
+        const T f    = FindRootBase<T>::function(lo);
+        const T f_hi = FindRootBase<T>::function(hi);
 
         static const T t_zero = T(0);
 
+        // An end point of the interval might be a root already.
+        if(f    == t_zero) { return lo; }
+        if(f_hi == t_zero) { return hi; }
+
         // Make sure that there is at least one root in the interval.
-        if(f * function(RangedFunctionOperation<T>::xhi) >= t_zero)
+        if((f < t_zero) == (f_hi < t_zero))
         {
+          FunctionOperation<T>::op_ok = false;
+
           return t_zero;
         }
 
@@ -69,7 +76,7 @@
           dx /= static_cast<std::int32_t>(2);
 
           const T x_mid = rt + dx;
-          const T f_mid = function(x_mid);
+          const T f_mid = FindRootBase<T>::function(x_mid);
 
           if(f_mid <= t_zero)
           {
@@ -79,7 +86,7 @@
           // Check for convergence to within a tolerance.
           const T dx_abs = ((dx < t_zero) ? -dx : dx);
 
-          if(dx_abs < RangedFunctionOperation<T>::eps || ef::iszero(f_mid))
+          if(dx_abs < RangedFunctionOperation<T>::eps || (f_mid == t_zero))
           {
             // Return root.
             return rt;
diff --git a/libs/e_float/src/utility/util_function_derivative.h b/libs/e_float/src/utility/util_function_derivative.h
index 5e355c6..af78fd8 100644
--- a/libs/e_float/src/utility/util_function_derivative.h
+++ b/libs/e_float/src/utility/util_function_derivative.h
@@ -21,7 +21,7 @@
   namespace Util
   {
     template<typename T>
-    class FunctionDerivative final : public FunctionOperation<T>
+    class FunctionDerivative : public FunctionOperation<T>
     {
     public:
       virtual ~FunctionDerivative() { }
@@ -42,9 +42,9 @@
         const T dx2 = dx1 * static_cast<std::int32_t>(2);
         const T dx3 = dx1 * static_cast<std::int32_t>(3);
 
-        const T m1 = (function(my_x + dx1) - function(my_x - dx1)) / static_cast<std::int32_t>(2);
-        const T m2 = (function(my_x + dx2) - function(my_x - dx2)) / static_cast<std::int32_t>(4);
-        const T m3 = (function(my_x + dx3) - function(my_x - dx3)) / static_cast<std::int32_t>(6);
+        const T m1 = (FunctionOperation<T>::function(my_x + dx1) - FunctionOperation<T>::function(my_x - dx1)) / static_cast<std::int32_t>(2);
+        const T m2 = (FunctionOperation<T>::function(my_x + dx2) - FunctionOperation<T>::function(my_x - dx2)) / static_cast<std::int32_t>(4);
+        const T m3 = (FunctionOperation<T>::function(my_x + dx3) - FunctionOperation<T>::function(my_x - dx3)) / static_cast<std::int32_t>(6);
 
         const T fifteen_m1 = static_cast<std::int32_t>(15) * m1;
         const T six_m2     = static_cast<std::int32_t>( 6) * m2;
diff --git a/libs/e_float/src/utility/util_noncopyable.h b/libs/e_float/src/utility/util_noncopyable.h
index 3dabbaa..2c9dd04 100644
--- a/libs/e_float/src/utility/util_noncopyable.h
+++ b/libs/e_float/src/utility/util_noncopyable.h
@@ -30,4 +30,9 @@
     using noncopyable = my_noncopyable_namespace::noncopyable;
   }
 
+  namespace Util
+  {
+    using noncopyable = util::noncopyable;
+  }
+
 #endif // UTIL_NONCOPYABLE_2008_12_16_H_
-- 
2.43.0


From c58ed3ad4b59c85fef0e1c8b5597a555d01b0ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 50/51] fix: Newton-Raphson iteration without convergence
 reported success

---
 libs/e_float/src/utility/util_find_root_newton_raphson.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/utility/util_find_root_newton_raphson.h b/libs/e_float/src/utility/util_find_root_newton_raphson.h
index c0e8b54..3ec65dc 100644
--- a/libs/e_float/src/utility/util_find_root_newton_raphson.h
+++ b/libs/e_float/src/utility/util_find_root_newton_raphson.h
@@ -38,7 +38,7 @@
 
       virtual T my_operation() const
       {
-        FunctionOperation<T>::op_ok = true;
+        FunctionOperation<T>::op_ok = false;
 
         T x = (FindRootBase<T>::xlo + FindRootBase<T>::xhi) / static_cast<std::int32_t>(2);
 
@@ -53,7 +53,6 @@
 
           if((FindRootBase<T>::xlo - x) * (x - FindRootBase<T>::xhi) < ef::zero())
           {
-            FunctionOperation<T>::op_ok = false;
             break;
           }
 
@@ -61,6 +60,7 @@
           
           if(delta < FindRootBase<T>::eps)
           {
+            FunctionOperation<T>::op_ok = true;
             break;
           }
         }
-- 
2.43.0


From 302f30c52b3fc06698249a1072f9825e6c359f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 51/51] fix: numeric_cast of float read an integer

---
 libs/e_float/src/utility/util_numeric_cast.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index e4e7443..ca23579 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -8,6 +8,7 @@
 #ifndef UTIL_NUMERIC_CAST_2009_11_24_H
   #define UTIL_NUMERIC_CAST_2009_11_24_H
 
+  #include <limits>
   #include <sstream>
   #include <string>
   #include <type_traits>
@@ -20,8 +21,9 @@
       constexpr bool numeric_cast_is_signed = std::numeric_limits<T>::is_signed;
 
       constexpr bool numeric_cast_is_small_type =
-        (   (  numeric_cast_is_signed  && (std::numeric_limits<T>::digits <= 31))
-         || ((!numeric_cast_is_signed) && (std::numeric_limits<T>::digits <= 32)));
+        (   std::numeric_limits<T>::is_integer
+         && (   (  numeric_cast_is_signed  && (std::numeric_limits<T>::digits <= 31))
+             || ((!numeric_cast_is_signed) && (std::numeric_limits<T>::digits <= 32))));
 
       using value_type = typename std::conditional<numeric_cast_is_small_type,
                                                    typename std::conditional<numeric_cast_is_signed,
-- 
2.43.0

