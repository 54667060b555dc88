From b31ac6c1b15c3372c1b0b10efad9c8944b2b0bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:43 +0000
Subject: [PATCH 01/15] fix: drop the extra limb when adding the divisor back
 in long division

---
 src/math/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/div.rs b/src/math/div.rs
index 2a78581..38a857b 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -401,7 +401,7 @@ fn div_rem_knuth<const M: usize, const N: usize>(
             // Add back one multiple of divisor
             i = 0;
             c = false;
-            while i < n + 1 {
+            while i < n {
                 let x = numerator.get(i + j);
                 let y = divisor[i];
                 let (res1, overflow1) = y.overflowing_add(c as ULimb);
-- 
2.43.0


From ded49d06c5241996649f59fbe06fc4cc8928be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:43 +0000
Subject: [PATCH 02/15] fix: report signed overflow of carrying_add and
 borrowing_sub correctly

The two partial overflows of a signed addition or subtraction can cancel.
---
 src/shared/bigint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/bigint.rs b/src/shared/bigint.rs
index b5b613f..ed6845f 100644
--- a/src/shared/bigint.rs
+++ b/src/shared/bigint.rs
@@ -23,7 +23,7 @@ macro_rules! define {
         pub const fn carrying_add(self, rhs: Self, carry: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_add(rhs);
             let (c, d) = a.overflowing_add_ulimb(carry as $crate::ULimb);
-            (c, b | d)
+            (c, b != d)
         }
 
         /// Calculates `self` &minus; `rhs` &minus; `borrow` and returns a tuple
@@ -42,7 +42,7 @@ macro_rules! define {
         pub const fn borrowing_sub(self, rhs: Self, borrow: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_sub(rhs);
             let (c, d) = a.overflowing_sub_ulimb(borrow as $crate::ULimb);
-            (c, b | d)
+            (c, b != d)
         }
     };
 }
-- 
2.43.0


From 9ac6358dd9d9412cd0742ded1d6757a363c431c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:43 +0000
Subject: [PATCH 03/15] fix: accept the maximum value when converting from
 unsigned to signed

---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index e43bc7d..72afb4e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -132,7 +132,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn try_from(u: $u_t) -> Result<Self, $crate::TryFromIntError> {
-                if u < Self::MAX.as_unsigned() {
+                if u <= Self::MAX.as_unsigned() {
                     Ok(u.as_signed())
                 } else {
                     Err($crate::TryFromIntError {})
-- 
2.43.0


From a790d9d5372063ccba8cefb00f002c2a30bb8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:43 +0000
Subject: [PATCH 04/15] fix: allow in-range shifts by 8-bit amounts

The bit width does not fit in an 8-bit integer, so the range check compared
against a truncated width.
---
 src/shared/shift.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/shift.rs b/src/shared/shift.rs
index ae400c1..d2915cd 100644
--- a/src/shared/shift.rs
+++ b/src/shared/shift.rs
@@ -10,7 +10,7 @@ macro_rules! define {
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift left with overflow");
+                    assert!((other as u128) < Self::BITS as u128 && other >= 0, "attempt to shift left with overflow");
                 }
                 self.wrapping_shl(other as u32)
             }
@@ -24,7 +24,7 @@ macro_rules! define {
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift right with overflow");
+                    assert!((other as u128) < Self::BITS as u128 && other >= 0, "attempt to shift right with overflow");
                 }
                 self.wrapping_shr(other as u32)
             }
-- 
2.43.0


From c190393e6bd892c193811dccd83f5bc39f8177bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:55 +0000
Subject: [PATCH 05/15] fix: check the amount when shifting by a value of the
 same type

All other shift operators panic on an out-of-range amount when overflow
checks are enabled.
---
 src/shared/ops.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/shared/ops.rs b/src/shared/ops.rs
index c8e7ef7..475273b 100644
--- a/src/shared/ops.rs
+++ b/src/shared/ops.rs
@@ -153,6 +153,11 @@ macro_rules! traits {
             #[inline(always)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: Self) -> Self::Output {
+                if cfg!(have_overflow_checks) {
+                    let is_above = other.ge_const(Self::from_u32(Self::BITS));
+                    let is_below = other.lt_const(Self::from_u32(0));
+                    assert!(!is_above && !is_below, "attempt to shift left with overflow");
+                }
                 let shift = other.least_significant_limb() as u32 & u32::MAX;
                 self.wrapping_shl(shift)
             }
@@ -164,6 +169,11 @@ macro_rules! traits {
             #[inline(always)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: Self) -> Self::Output {
+                if cfg!(have_overflow_checks) {
+                    let is_above = other.ge_const(Self::from_u32(Self::BITS));
+                    let is_below = other.lt_const(Self::from_u32(0));
+                    assert!(!is_above && !is_below, "attempt to shift right with overflow");
+                }
                 let shift = other.least_significant_limb() as u32 & u32::MAX;
                 self.wrapping_shr(shift)
             }
-- 
2.43.0


From 76bff1082e39d1c2a0501513ca27e43c93d6e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:06 +0000
Subject: [PATCH 06/15] fix: report overflow when a negative product falls
 below the minimum

---
 src/math/mul.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/math/mul.rs b/src/math/mul.rs
index ae516ec..42e8049 100644
--- a/src/math/mul.rs
+++ b/src/math/mul.rs
@@ -463,10 +463,11 @@ macro_rules! signed_define {
                 // abs value. if our value is exactly `::MIN`, then it didn't
                 // wrap and it shouldn't be negative
                 // NOTE: We want to negate this, which will always work since
-                // `::MAX + 1` will wrap to min as expected.
-                let is_min = msl == <$s>::MIN;
+                // `::MAX + 1` will wrap to min as expected. Any larger abs value
+                // has the sign bit set before, but not after it's negated.
                 r = negate!(r, M, $u);
-                (r, overflowed | (r_is_negative ^ is_min))
+                let wrapped = r_is_negative && !is_negative!(r, $s);
+                (r, overflowed | wrapped)
             }
         }
 
-- 
2.43.0


From 597024f9ff45b634823fbce38752c1b8a10b2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:39 +0000
Subject: [PATCH 07/15] fix: panic on every division by zero

---
 src/math/div.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/math/div.rs b/src/math/div.rs
index 38a857b..14ec584 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -46,6 +46,8 @@ pub fn full<const M: usize, const N: usize>(
     numerator: &[ULimb; M],
     divisor: &[ULimb; N],
 ) -> ([ULimb; M], [ULimb; N]) {
+    assert!(!is_zero(divisor, 0), "attempt to divide by zero");
+
     if N == 1 {
         return limb_padded(numerator, divisor[0]);
     }
@@ -72,6 +74,8 @@ pub fn full<const M: usize, const N: usize>(
 #[inline]
 #[must_use]
 pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb; M], UWide) {
+    assert!(divisor != 0, "attempt to divide by zero");
+
     // NOTE: It's way better to keep this optimization outside the comparison.
     if M >= 2 && is_zero(numerator, 2) {
         // Can do as a scalar operation, simple.
@@ -104,6 +108,7 @@ pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb;
 #[allow(clippy::assertions_on_constants)]
 pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULimb; M], u128) {
     assert!(ULimb::BITS == 32);
+    assert!(divisor != 0, "attempt to divide by zero");
 
     // NOTE: It's way better to keep this optimization outside the comparison.
     if M >= 2 && is_zero(numerator, 2) {
@@ -132,6 +137,8 @@ pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULi
 #[inline]
 #[must_use]
 pub fn limb<const M: usize>(numerator: &[ULimb; M], divisor: ULimb) -> ([ULimb; M], ULimb) {
+    assert!(divisor != 0, "attempt to divide by zero");
+
     // quick path optinmization for small values
     if M >= 2 && is_zero(numerator, 2) {
         let lo = numerator[0] as UWide;
-- 
2.43.0


From 6386e8057ac647a9997d19ce8d2dec197ac61bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:27 +0000
Subject: [PATCH 08/15] fix: panic on overflowing Euclidean division without
 overflow checks

---
 src/int/ops.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/int/ops.rs b/src/int/ops.rs
index b79d712..2f875b2 100644
--- a/src/int/ops.rs
+++ b/src/int/ops.rs
@@ -88,13 +88,9 @@ macro_rules! define {
         #[inline(always)]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_euclid(self, rhs: Self) -> Self {
-            if cfg!(not(have_overflow_checks)) {
-                self.wrapping_div_euclid(rhs)
-            } else {
-                match self.checked_div_euclid(rhs) {
-                    Some(v) => v,
-                    _ => core::panic!("attempt to divide with overflow"),
-                }
+            match self.checked_div_euclid(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
             }
         }
 
@@ -110,13 +106,9 @@ macro_rules! define {
         #[inline(always)]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn rem_euclid(self, rhs: Self) -> Self {
-            if cfg!(not(have_overflow_checks)) {
-                self.wrapping_rem_euclid(rhs)
-            } else {
-                match self.checked_rem_euclid(rhs) {
-                    Some(v) => v,
-                    _ => core::panic!("attempt to divide with overflow"),
-                }
+            match self.checked_rem_euclid(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
             }
         }
 
-- 
2.43.0


From 7dbc19c6f3a1f8a5eed796555277d3b5f67f73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:27 +0000
Subject: [PATCH 09/15] fix: panic when div_floor or div_ceil overflows

---
 src/int/ops.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/int/ops.rs b/src/int/ops.rs
index 2f875b2..7ea1eac 100644
--- a/src/int/ops.rs
+++ b/src/int/ops.rs
@@ -121,7 +121,10 @@ macro_rules! define {
         #[inline]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_floor(self, rhs: Self) -> Self {
-            let (d, r) = self.wrapping_div_rem(rhs);
+            let (d, r) = match self.checked_div_rem(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
+            };
 
             // If the remainder is non-zero, we need to subtract one if the
             // signs of self and rhs differ, as this means we rounded upwards
@@ -146,7 +149,10 @@ macro_rules! define {
         #[inline]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_ceil(self, rhs: Self) -> Self {
-            let (d, r) = self.wrapping_div_rem(rhs);
+            let (d, r) = match self.checked_div_rem(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
+            };
 
             // When remainder is non-zero we have a.div_ceil(b) == 1 + a.div_floor(b),
             // so we can re-use the algorithm from div_floor, just adding 1.
-- 
2.43.0


From fa655ea3ef0b92311e4b561888c30355a01a03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:07 +0000
Subject: [PATCH 10/15] fix: order of the middle limbs when widening a 128-bit
 operand

---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index bb87e7b..9460bfb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -127,9 +127,9 @@ pub(crate) const fn u128_to_limb_n<const N: usize>(value: u128) -> [u32; N] {
 
     let mut result = [0; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
@@ -157,9 +157,9 @@ pub(crate) const fn i128_to_limb_n<const N: usize>(value: i128) -> [u32; N] {
     let value = value as u128;
     let mut result = [sign_bit; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
-- 
2.43.0


From 287e88629c78cbc696db1d9d2e09ee0805ba1915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:08 +0000
Subject: [PATCH 11/15] fix: panic when adding or subtracting a 128-bit operand
 with 32-bit limbs

---
 src/int/limb.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/int/limb.rs b/src/int/limb.rs
index 7f7363f..d281b67 100644
--- a/src/int/limb.rs
+++ b/src/int/limb.rs
@@ -1001,7 +1001,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1022,7 +1022,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1044,7 +1044,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1066,7 +1066,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1652,7 +1652,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1673,7 +1673,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1694,7 +1694,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1715,7 +1715,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
-- 
2.43.0


From 061bc98074a635cfc01e28e2690b58887f825d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:33 +0000
Subject: [PATCH 12/15] fix: return 0 for the logarithm of a value below the
 base, reject base 1

---
 src/uint/checked.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uint/checked.rs b/src/uint/checked.rs
index 27f454a..ede9b5d 100644
--- a/src/uint/checked.rs
+++ b/src/uint/checked.rs
@@ -54,9 +54,12 @@ macro_rules! define {
         #[inline(always)]
         pub fn checked_ilog(self, base: Self) -> Option<u32> {
             let zero = Self::from_u8(0);
-            if self == zero || base <= zero || self < base {
+            if self == zero || base <= Self::from_u8(1) {
                 return None;
             }
+            if self < base {
+                return Some(0);
+            }
 
             // Since base >= self, n >= 1
             let mut n = 1;
-- 
2.43.0


From 03ed7e723c9b7e76e79f92a3db7129c49d39b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:33 +0000
Subject: [PATCH 13/15] fix: reject a sign without digits when parsing

---
 src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index e3dcef8..05d0a9d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -143,6 +143,10 @@ macro_rules! define {
                 Some(&b'-') => return Err(ParseIntError::new(IntErrorKind::NegOverflow)),
                 _ => false,
             };
+            // a sign must be followed by at least 1 digit
+            if index == digits.len() {
+                return Err(ParseIntError::new(IntErrorKind::InvalidDigit));
+            }
             let overflow_digits = overflow_digits::<Self>(radix, $is_signed);
             let cannot_overflow = (digits.len() - index) <= overflow_digits;
 
-- 
2.43.0


From a6c47412d6735271a010c89c45a2305d5d654932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:03 +0000
Subject: [PATCH 14/15] fix: write the digits of the magnitude of negative
 integers

---
 src/write.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index adf1ff9..8b5b4d5 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -11,8 +11,19 @@ pub(crate) const fn digit_to_char(digit: u32, radix: u32) -> u8 {
     }
 }
 
+/// Get the magnitude of the value as an unsigned integer.
+macro_rules! magnitude {
+    ($value:expr, true) => {
+        $value.unsigned_abs()
+    };
+
+    ($value:expr, false) => {
+        $value
+    };
+}
+
 macro_rules! define {
-    ($is_signed:expr) => {
+    ($is_signed:tt) => {
         /// Write the integer to bytes for the given integer.
         ///
         /// Digits are a subset of these characters, depending on `radix`:
@@ -27,7 +38,7 @@ macro_rules! define {
         /// This function panics if `radix` is not in the range from 2 to 36,
         /// or the buffer isn't large enough to hold the significant digits.
         #[inline]
-        pub fn to_str_radix(mut self, buffer: &mut [u8], radix: u32) -> &[u8] {
+        pub fn to_str_radix(self, buffer: &mut [u8], radix: u32) -> &[u8] {
             if !(2..=36).contains(&radix) {
                 core::panic!("from_str_radix_int: must lie in the range `[2, 36]`");
             }
@@ -48,17 +59,18 @@ macro_rules! define {
             // This isn't optimized at all.
             let mut rem: $crate::ULimb;
             let mut index = buffer.len();
-            let limit = Self::from_u32(radix);
-            while self.ge_const(limit) && index > start_index {
+            let limit = $crate::write::magnitude!(Self::from_u32(radix), $is_signed);
+            let mut value = $crate::write::magnitude!(self, $is_signed);
+            while value.ge_const(limit) && index > start_index {
                 index -= 1;
-                (self, rem) = self.div_rem_ulimb(radix as $crate::ULimb);
+                (value, rem) = value.div_rem_ulimb(radix as $crate::ULimb);
                 buffer[index] = $crate::write::digit_to_char(rem as u32, radix);
             }
 
             // always have one trailing digit
-            assert!(self.lt_const(limit), "overflowed our buffer");
+            assert!(value.lt_const(limit), "overflowed our buffer");
             index -= 1;
-            buffer[index] = $crate::write::digit_to_char(self.get_limb(0) as u32, radix);
+            buffer[index] = $crate::write::digit_to_char(value.get_limb(0) as u32, radix);
 
             // write our negative sign, if required
             if is_negative {
@@ -72,3 +84,4 @@ macro_rules! define {
 }
 
 pub(crate) use define;
+pub(crate) use magnitude;
-- 
2.43.0


From 2adde8f83417c8e672cebd324954ae756dc26259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:02:06 +0000
Subject: [PATCH 15/15] fix: do not report zero as positive

---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index 72afb4e..9324f9e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -169,7 +169,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn is_positive(&self) -> bool {
-                *self >= <Self as ::num_traits::ConstZero>::ZERO
+                *self > <Self as ::num_traits::ConstZero>::ZERO
             }
 
             #[inline(always)]
-- 
2.43.0

