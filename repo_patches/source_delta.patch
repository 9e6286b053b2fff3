From fc8d8bcb3e34cc8202c4be6adf751013beb5613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 1/7] fix: is_one for wide integers must inspect the least
 significant digit

For widths above 64 bits the most significant digit was compared with one,
so Int/UInt::is_one was true for 2^(64*(n-1)) and false for 1.
---
 src/apint/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apint/utils.rs b/src/apint/utils.rs
index 7b9cf95..cdc66e8 100644
--- a/src/apint/utils.rs
+++ b/src/apint/utils.rs
@@ -403,9 +403,9 @@ impl ApInt {
         match self.access_data() {
             DataAccess::Inl(digit) => digit == Digit::ONE,
             DataAccess::Ext(digits) => {
-                let (last, rest) =
-                    digits.split_last().unwrap_or_else(|| unreachable!());
-                (*last == Digit::ONE)
+                let (first, rest) =
+                    digits.split_first().unwrap_or_else(|| unreachable!());
+                (*first == Digit::ONE)
                     && rest.iter().all(|digit| digit.is_zero())
             }
         }
-- 
2.43.0


From a87e18f33fa82c52fc49b6ab725aae7baf911739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 2/7] fix: is_all_set must check the most significant digit of
 full-digit widths

For bit widths that are a multiple of 64 there are no excess bits and the
most significant digit was not looked at at all.
---
 src/apint/bitwise.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/apint/bitwise.rs b/src/apint/bitwise.rs
index 8a8fe3c..25fcc54 100644
--- a/src/apint/bitwise.rs
+++ b/src/apint/bitwise.rs
@@ -182,10 +182,9 @@ impl ApInt {
     /// Returns``true` if all bits in the `ApInt` are set.
     pub fn is_all_set(&self) -> bool {
         let (msb, rest) = self.split_most_significant_digit();
-        if let Some(excess_bits) = self.width().excess_bits() {
-            if msb.repr().count_ones() as usize != excess_bits {
-                return false
-            }
+        let msb_bits = self.width().excess_bits().unwrap_or(Digit::BITS);
+        if msb.repr().count_ones() as usize != msb_bits {
+            return false
         }
         rest.iter().all(|d| *d == Digit::ONES)
     }
-- 
2.43.0


From eefbb12c7fde997439ca6ff70854b98517145920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:17 +0000
Subject: [PATCH 3/7] fix: signed division reports unmatching bit widths as an
 error

The four signed division entry points mutated their operands and then
panicked on an unwrap instead of returning the documented error.
---
 src/apint/arithmetic.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/apint/arithmetic.rs b/src/apint/arithmetic.rs
index a86df73..d061c71 100644
--- a/src/apint/arithmetic.rs
+++ b/src/apint/arithmetic.rs
@@ -1668,6 +1668,9 @@ impl ApInt {
         lhs: &mut ApInt,
         rhs: &mut ApInt,
     ) -> Result<()> {
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(
                 DivOp::SignedDivRem,
@@ -1713,6 +1716,9 @@ impl ApInt {
         lhs: &mut ApInt,
         rhs: &mut ApInt,
     ) -> Result<()> {
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(
                 DivOp::SignedRemDiv,
@@ -1754,6 +1760,9 @@ impl ApInt {
     /// - If `lhs` and `rhs` have unmatching bit widths.
     /// - If division by zero is attempted
     pub fn wrapping_sdiv_assign(&mut self, rhs: &ApInt) -> Result<()> {
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedDiv, self.clone()))
         }
@@ -1801,6 +1810,9 @@ impl ApInt {
     /// - If `lhs` and `rhs` have unmatching bit widths.
     /// - If division by zero is attempted
     pub fn wrapping_srem_assign(&mut self, rhs: &ApInt) -> Result<()> {
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedRem, self.clone()))
         }
-- 
2.43.0


From f7fd84f97b6fa30eafa120ff713b7111107b7aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:24 +0000
Subject: [PATCH 4/7] fix: deserializing an ApInt from an empty sequence is an
 error, not a panic

---
 src/apint/serde_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/apint/serde_impl.rs b/src/apint/serde_impl.rs
index 1d3c1b8..b4ad7df 100644
--- a/src/apint/serde_impl.rs
+++ b/src/apint/serde_impl.rs
@@ -262,7 +262,9 @@ impl<'de> Deserialize<'de> for ApInt {
             where
                 V: SeqAccess<'de>,
             {
-                let width: BitWidth = seq.next_element()?.unwrap();
+                let width: BitWidth = seq
+                    .next_element()?
+                    .ok_or_else(|| de::Error::invalid_length(0, &self))?;
                 let digits: Vec<Digit> = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-- 
2.43.0


From 01a71c27d97583e643855755a8c43d63bfbfd909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:35 +0000
Subject: [PATCH 5/7] fix: from_str_radix for radices that are not a power of
 two

Strings with more digits than fit in a single 64-bit digit silently parsed
to garbage because the multiply-and-add step was commented out.
---
 src/apint/serialization.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index 53e3cea..d913dff 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -270,12 +270,11 @@ impl ApInt {
         ApInt::from_iter(data).unwrap()
     }
 
-    // Read little-endian radix digits.
+    // Read big-endian radix digits.
     //
     // Forked from: https://github.com/rust-num/num/blob/master/bigint/src/biguint.rs#L177
     //
-    // TODO: This does not work, yet. Some parts of the algorithm are
-    //       commented-out since the required functionality does not exist, yet.
+    // TODO: Better document what happens here and why.
     fn from_radix_digits(v: &[u8], radix: Radix) -> ApInt {
         use crate::digit::DigitRepr;
 
@@ -291,7 +290,7 @@ impl ApInt {
         let big_digits = (bits / Digit::BITS) + 1;
         let mut data = Vec::with_capacity(big_digits as usize);
 
-        let (_base, power) = radix.get_radix_base();
+        let (base, power) = radix.get_radix_base();
         let radix = DigitRepr::from(radix.to_u8());
 
         let r = v.len() % power;
@@ -309,24 +308,19 @@ impl ApInt {
                 data.push(0);
             }
 
-            let carry = 0;
-            for _d in &mut data {
-                // *d = mac_with_carry(0, *d, base, &mut carry); // TODO! This
-                // was commented out.
-
-                // // fn carry_mul_add(a: Digit, b: Digit, c: Digit, carry:
-                // Digit) -> DigitAndCarry // Returns the result
-                // of `(a + (b * c)) + carry` and its implied carry value.
+            let n = chunk
+                .iter()
+                .fold(0, |acc, &d| acc * radix + DigitRepr::from(d));
 
-                // let DigitAndCarry(d, carry) = carry_mul_add(digit::ZERO, *d,
-                // base, carry); // TODO! This was commented out.
+            // Compute `data = data * base + n`.
+            let mut carry = n;
+            for d in &mut data {
+                let wide = u128::from(*d) * u128::from(base.repr())
+                    + u128::from(carry);
+                *d = wide as DigitRepr;
+                carry = (wide >> Digit::BITS) as DigitRepr;
             }
             debug_assert!(carry == 0);
-
-            let _n = chunk
-                .iter()
-                .fold(0, |acc, &d| acc * radix + DigitRepr::from(d));
-            // add2(&mut data, &[n]); // TODO: This was commented out.
         }
 
         ApInt::from_iter(data.into_iter().map(Digit)).unwrap()
-- 
2.43.0


From 0da055b80b77aa0c1934b6a678313c27e29b0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:46 +0000
Subject: [PATCH 6/7] fix: report position and character of an invalid
 character in a string

ErrorKind::InvalidStringRepr documents pos_char but it was never filled in,
and a non-ASCII character was reported as one of its bytes.
---
 src/apint/serialization.rs | 7 +++----
 src/errors.rs              | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index d913dff..78c9a8b 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -176,11 +176,10 @@ impl ApInt {
                 _ => ::core::u8::MAX,
             };
             if !radix.is_valid_byte(d) {
+                // All bytes before `i` are ASCII so `i` is a `char` boundary.
+                let ch = input[i..].chars().next().unwrap_or(char::from(b));
                 return Err(Error::invalid_char_in_string_repr(
-                    input,
-                    radix,
-                    i,
-                    char::from(b),
+                    input, radix, i, ch,
                 ))
             }
             v.push(d);
diff --git a/src/errors.rs b/src/errors.rs
index 8399b4e..8c968db 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -215,7 +215,7 @@ impl Error {
             kind: ErrorKind::InvalidStringRepr {
                 input,
                 radix,
-                pos_char: None,
+                pos_char: Some((pos, ch)),
             },
             message: format!(
                 "Encountered an invalid character (= '{:?}') at position {:?} within \
-- 
2.43.0


From 1478b9f4bc56aff15d8d46ff9ca1fe32feae29fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 7/7] fix: Int::try_to_i* decide representability on the signed
 value

They forwarded to the ApInt conversions that test whether the bits fit the
unsigned type of the same width, so a 16-bit Int of 200 converted to -56i8
and a 16-bit Int of -1 was refused.
---
 src/int.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 2f6fb4b..6275b2e 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -2,10 +2,12 @@
 //! `std_ops.rs`
 
 use crate::{
+    apint::PrimitiveTy,
     utils::{forward_bin_mut_impl, forward_mut_impl, try_forward_bin_mut_impl},
     ApInt,
     BitPos,
     BitWidth,
+    Error,
     Result,
     ShiftAmount,
     UInt,
@@ -445,6 +447,26 @@ impl Int {
 
 /// # To Primitive (Try-Cast)
 impl Int {
+    /// Returns an error if the value represented by this `Int` using signed
+    /// interpretation does not fit into the given signed primitive type.
+    fn check_representable(&self, prim_ty: PrimitiveTy) -> Result<()> {
+        let width = self.width().to_usize();
+        let target = prim_ty.associated_width().to_usize();
+        // All bits starting from the sign bit of the target type must be
+        // copies of the sign bit of this `Int`.
+        let sign = self.msb();
+        for pos in (target - 1)..width {
+            if self.get_bit_at(pos)? != sign {
+                return Error::encountered_unrepresentable_value(
+                    self.value.clone(),
+                    prim_ty,
+                )
+                .into()
+            }
+        }
+        Ok(())
+    }
+
     /// Tries to represent the value of this `Int` as a `bool`.
     ///
     /// # Note
@@ -473,7 +495,8 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `u8`.
     pub fn try_to_i8(&self) -> Result<i8> {
-        self.value.try_to_i8()
+        self.check_representable(PrimitiveTy::I8)?;
+        Ok(self.resize_to_i8())
     }
 
     /// Tries to represent the value of this `Int` as a `i16`.
@@ -488,7 +511,8 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i16`.
     pub fn try_to_i16(&self) -> Result<i16> {
-        self.value.try_to_i16()
+        self.check_representable(PrimitiveTy::I16)?;
+        Ok(self.resize_to_i16())
     }
 
     /// Tries to represent the value of this `Int` as a `i32`.
@@ -503,7 +527,8 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i32`.
     pub fn try_to_i32(&self) -> Result<i32> {
-        self.value.try_to_i32()
+        self.check_representable(PrimitiveTy::I32)?;
+        Ok(self.resize_to_i32())
     }
 
     /// Tries to represent the value of this `Int` as a `i64`.
@@ -518,7 +543,8 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i64`.
     pub fn try_to_i64(&self) -> Result<i64> {
-        self.value.try_to_i64()
+        self.check_representable(PrimitiveTy::I64)?;
+        Ok(self.resize_to_i64())
     }
 
     /// Tries to represent the value of this `Int` as a `i128`.
@@ -537,7 +563,8 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i128`.
     pub fn try_to_i128(&self) -> Result<i128> {
-        self.value.try_to_i128()
+        self.check_representable(PrimitiveTy::I128)?;
+        Ok(self.resize_to_i128())
     }
 }
 
-- 
2.43.0

