From 38828156072b7473b80ef59ae11938885d0cff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 01/56] fix: div, sdiv, mod and smod by zero yield zero, and
 sdiv by -1 wraps

---
 src/yul2ir/instruction.rs | 144 ++++++++++++++++++++++++++++++++------
 1 file changed, 123 insertions(+), 21 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f848a75..eb12bd0 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use ethereum_types::U256;
 use inkwell::types::StringRadix;
-use inkwell::values::{BasicValue, BasicValueEnum, PointerValue};
+use inkwell::values::{BasicValue, BasicValueEnum, IntValue, PointerValue};
 use inkwell::IntPredicate;
 
 use super::yul_instruction::{YulLowLevelValue, YulLowLevelValueType};
@@ -530,6 +530,124 @@ impl<'a> Yul2IRContext<'a> {
         args
     }
 
+    /// Replace a zero divisor by one, so that the LLVM division instructions are always defined.
+    /// Returns the divisor to use and whether the original divisor was zero.
+    fn non_zero_divisor(
+        &self,
+        divisor: IntValue<'a>,
+    ) -> Result<(IntValue<'a>, IntValue<'a>), ASTLoweringError> {
+        let ty = divisor.get_type();
+        let is_zero = self.builder.borrow_mut().build_int_compare(
+            IntPredicate::EQ,
+            divisor,
+            ty.const_zero(),
+            "divisor_is_zero",
+        )?;
+        let safe = self.builder.borrow_mut().build_select(
+            is_zero,
+            ty.const_int(1, false),
+            divisor,
+            "safe_divisor",
+        )?;
+        Ok((safe.into_int_value(), is_zero))
+    }
+
+    /// Replace a divisor of -1 by one, so that dividing the smallest signed value does not overflow.
+    /// Returns the divisor to use and whether the original divisor was -1.
+    fn non_minus_one_divisor(
+        &self,
+        divisor: IntValue<'a>,
+    ) -> Result<(IntValue<'a>, IntValue<'a>), ASTLoweringError> {
+        let ty = divisor.get_type();
+        let is_minus_one = self.builder.borrow_mut().build_int_compare(
+            IntPredicate::EQ,
+            divisor,
+            ty.const_all_ones(),
+            "divisor_is_minus_one",
+        )?;
+        let safe = self.builder.borrow_mut().build_select(
+            is_minus_one,
+            ty.const_int(1, false),
+            divisor,
+            "safe_divisor",
+        )?;
+        Ok((safe.into_int_value(), is_minus_one))
+    }
+
+    /// div(x, 0) == 0
+    fn build_evm_div(
+        &self,
+        lhs: IntValue<'a>,
+        rhs: IntValue<'a>,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let (divisor, is_zero) = self.non_zero_divisor(rhs)?;
+        let quotient =
+            self.builder
+                .borrow_mut()
+                .build_int_unsigned_div(lhs, divisor, "div_result")?;
+        let result = self.builder.borrow_mut().build_select(
+            is_zero,
+            lhs.get_type().const_zero(),
+            quotient,
+            "",
+        )?;
+        Ok(result.into_int_value())
+    }
+
+    /// sdiv(x, 0) == 0 and sdiv(x, -1) wraps
+    fn build_evm_sdiv(
+        &self,
+        lhs: IntValue<'a>,
+        rhs: IntValue<'a>,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let (divisor, is_zero) = self.non_zero_divisor(rhs)?;
+        let (divisor, is_minus_one) = self.non_minus_one_divisor(divisor)?;
+        let quotient =
+            self.builder
+                .borrow_mut()
+                .build_int_signed_div(lhs, divisor, "sdiv_result")?;
+        let zero = lhs.get_type().const_zero();
+        let negated = self.builder.borrow_mut().build_int_sub(zero, lhs, "")?;
+        let result = self
+            .builder
+            .borrow_mut()
+            .build_select(is_minus_one, negated, quotient, "")?;
+        let result =
+            self.builder
+                .borrow_mut()
+                .build_select(is_zero, zero, result.into_int_value(), "")?;
+        Ok(result.into_int_value())
+    }
+
+    /// mod(x, 0) == 0
+    fn build_evm_mod(
+        &self,
+        lhs: IntValue<'a>,
+        rhs: IntValue<'a>,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        // any value modulo the replacement divisor one is zero
+        let (divisor, _) = self.non_zero_divisor(rhs)?;
+        Ok(self
+            .builder
+            .borrow_mut()
+            .build_int_unsigned_rem(lhs, divisor, "mod_result")?)
+    }
+
+    /// smod(x, 0) == 0
+    fn build_evm_smod(
+        &self,
+        lhs: IntValue<'a>,
+        rhs: IntValue<'a>,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        // any value modulo the replacement divisor one is zero
+        let (divisor, _) = self.non_zero_divisor(rhs)?;
+        let (divisor, _) = self.non_minus_one_divisor(divisor)?;
+        Ok(self
+            .builder
+            .borrow_mut()
+            .build_int_signed_rem(lhs, divisor, "smod_result")?)
+    }
+
     pub(crate) fn walk_yul_instruction(
         &self,
         yul_func_name: &str,
@@ -713,11 +831,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_div(arg0, arg1, "div_result")?
-                        .into(),
+                    value: self.build_evm_div(arg0, arg1)?.into(),
                 })
             }
             YulInstructionName::SDiv => {
@@ -729,11 +843,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_div(arg0, arg1, "sdiv_result")?
-                        .into(),
+                    value: self.build_evm_sdiv(arg0, arg1)?.into(),
                 })
             }
             YulInstructionName::Mod => {
@@ -745,11 +855,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_rem(arg0, arg1, "mod_result")?
-                        .into(),
+                    value: self.build_evm_mod(arg0, arg1)?.into(),
                 })
             }
             YulInstructionName::SMod => {
@@ -761,11 +867,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_rem(arg0, arg1, "smod_result")?
-                        .into(),
+                    value: self.build_evm_smod(arg0, arg1)?.into(),
                 })
             }
             YulInstructionName::Exp => {
-- 
2.43.0


From 77be72b565f440b1bcbca40ff5112c99a9b1ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 02/56] fix: byte, shl, shr and sar with an index or shift
 beyond the word

---
 src/yul2ir/context.rs     | 22 +++++++++++++++++
 src/yul2ir/instruction.rs | 51 ++++++++++++++++++++++++---------------
 2 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index df88f63..bf8267f 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -925,6 +925,28 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
+    /// Convert to i32, with every value above `max` (as an unsigned number) becoming `max`.
+    pub fn try_into_i32_saturated(
+        &self,
+        value: &BasicValueEnum<'ctx>,
+        max: u32,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        let mut value = self.try_into_int(value)?;
+        if value.get_type().get_bit_width() < 32 {
+            value = self.int_as_i32(value)?;
+        }
+        let max_value = value.get_type().const_int(max as u64, false);
+        let too_large =
+            self.builder
+                .borrow_mut()
+                .build_int_compare(IntPredicate::UGT, value, max_value, "")?;
+        let saturated = self
+            .builder
+            .borrow_mut()
+            .build_select(too_large, max_value, value, "")?;
+        self.int_as_i32(saturated.into_int_value())
+    }
+
     pub fn try_into_u256(
         &self,
         value: &BasicValueEnum<'ctx>,
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index eb12bd0..220509f 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1227,8 +1227,19 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::Byte => {
                 check_args_count(&instr, &args, 2)?;
-                let nth_byte_i32 =
-                    self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
+                // every index above 31 is out of the value
+                let nth_byte_i32 = self.try_into_i32_saturated(args.first().unwrap(), 32)?;
+                let out_of_range = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::EQ,
+                    nth_byte_i32,
+                    self.i32_type().const_int(32, false),
+                    "",
+                )?;
+                let nth_byte_i32 = self
+                    .builder
+                    .borrow_mut()
+                    .build_select(out_of_range, self.i32_type().const_zero(), nth_byte_i32, "")?
+                    .into_int_value();
                 let value = self.try_into_int(args.get(1).unwrap())?;
                 let value = self.int_as_u256(value)?;
                 let shift_amount_tmp = self.builder.borrow_mut().build_int_sub(
@@ -1249,15 +1260,17 @@ impl<'a> Yul2IRContext<'a> {
                     "shifted_value",
                 )?;
                 // get last byte
-                let result = self
-                    .builder
-                    .borrow_mut()
-                    .build_and(
-                        shifted_value,
-                        self.u256_type().const_int(0xff, false),
-                        "byte_result",
-                    )?
-                    .into();
+                let byte = self.builder.borrow_mut().build_and(
+                    shifted_value,
+                    self.u256_type().const_int(0xff, false),
+                    "byte_result",
+                )?;
+                let result = self.builder.borrow_mut().build_select(
+                    out_of_range,
+                    self.u256_type().const_zero(),
+                    byte,
+                    "",
+                )?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::U256,
                     value: result,
@@ -1272,7 +1285,7 @@ impl<'a> Yul2IRContext<'a> {
                 // so we use bytes32 version
                 if self.is_bytes32_value(value) {
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.try_into_i32_saturated(shift, 256)?;
                     let value = self.try_into_bytes32_pointer(value)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shl_result")?;
                     self.build_void_call(
@@ -1288,7 +1301,7 @@ impl<'a> Yul2IRContext<'a> {
                 // because llvm shl not work well for shift>=256, so we use c wrapper
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.try_into_i32_saturated(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shl_result")?;
                 self.build_void_call(
@@ -1305,10 +1318,10 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::Sar => {
                 // Signed Arithmetic Right Shift
                 check_args_count(&instr, &args, 2)?;
-                let (arg0, arg1) = self.unify_to_u256(
-                    self.try_into_int(args.first().unwrap())?,
-                    self.try_into_int(args.get(1).unwrap())?,
-                )?;
+                // a shift of 255 or more leaves only the sign
+                let arg0 = self.try_into_i32_saturated(args.first().unwrap(), 255)?;
+                let arg1 = self.try_into_int(args.get(1).unwrap())?;
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 let result = self
                     .builder
                     .borrow_mut()
@@ -1333,7 +1346,7 @@ impl<'a> Yul2IRContext<'a> {
                 if self.is_bytes32_value(value) {
                     let value = self.try_into_bytes32_pointer(value)?;
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.try_into_i32_saturated(shift, 256)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shr_result")?;
                     self.build_void_call(
                         "wrapper_bytes32_shr",
@@ -1346,7 +1359,7 @@ impl<'a> Yul2IRContext<'a> {
                 }
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.try_into_i32_saturated(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shr_result")?;
                 self.build_void_call(
-- 
2.43.0


From b1c6bb9a4edc6563e3dde5146d771290899d3f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 03/56] fix: signextend for byte positions of 4 and more

---
 src/yul2ir/instruction.rs | 3 +--
 stdlib/chain.c            | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 220509f..e950545 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -807,8 +807,7 @@ impl<'a> Yul2IRContext<'a> {
                 // signextend(b, x) extends a smaller signed integer x to 256 bits while preserving its sign bit.
                 // The bits before the specified byte count (b) are extended according to the sign of the most significant bit.
                 check_args_count(&instr, &args, 2)?;
-                let b = self.try_into_int(args.first().unwrap())?;
-                let b = self.int_as_i32(b)?;
+                let b = self.try_into_i32_saturated(args.first().unwrap(), 32)?;
                 let x = self.try_into_u256(args.get(1).unwrap())?;
                 let x_ptr = self.get_value_pointer(x)?;
                 let tmp_result = self.fast_alloca(self.u256_type(), "")?;
diff --git a/stdlib/chain.c b/stdlib/chain.c
index 327c232..98b88d1 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -889,15 +889,15 @@ void wrapper_sign_extend(uint32_t bits, uint256_t *value_ptr,
   // the original value's sign bit, and extends the bits preceding the specified
   // byte count (b) according to the most significant bit's sign.
   uint256_t value = *value_ptr;
-  if (bits > 31) {
+  if (bits >= 31) {
     *result = value;
-    return; // If b is greater than 31, return the original value
+    return; // The sign bit is already the top bit, return the original value
   }
   // Calculate the number of bits to extend
   unsigned int bits_to_extend = (bits + 1) * 8;
 
   // Create the mask for the sign bit
-  uint256_t sign_bit_mask = 1ULL << (bits_to_extend - 1);
+  uint256_t sign_bit_mask = ((uint256_t)1) << (bits_to_extend - 1);
   uint256_t extension_mask = ~((((uint256_t)1) << bits_to_extend) - 1);
 
   // Check the sign bit
-- 
2.43.0


From ad3c3243cc7537fa1f7d5561a57e29b37b6ce1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 04/56] fix: variables without an initial value and return
 variables start as zero

---
 src/yul2ir/transform.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 203ba31..1b3b43f 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -603,6 +603,9 @@ impl<'a> Yul2IRContext<'a> {
                 .borrow_mut()
                 .build_store(llvm_var, init_val)
                 .unwrap();
+        } else {
+            // a variable declared without a value is zero
+            self.build_store(llvm_var, ty.const_zero())?;
         }
         self.ok_result()
     }
@@ -1794,7 +1797,12 @@ impl<'a> Yul2IRContext<'a> {
                     )
                 };
 
-            // TODO: Set initial value for the return variable
+            // a return variable is zero until it is assigned
+            if ret_var_low_level_value_type == YulLowLevelValueType::Bytes32 {
+                self.build_store(ret_var_pointer, self.bytes32_type().const_zero())?;
+            } else {
+                self.build_store(ret_var_pointer, ret_ty.const_zero())?;
+            }
             self.set_var(
                 ret_name,
                 ret_ty,
-- 
2.43.0


From f4e30ec47b8a794431650f82e64dc9550fb012f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 05/56] fix: slt and sgt of two narrow integers

---
 src/yul2ir/instruction.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index e950545..860205a 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1017,7 +1017,8 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                // narrower integers are never negative, so the sign is that of the whole word
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension,
                 // otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
@@ -1052,7 +1053,8 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                // narrower integers are never negative, so the sign is that of the whole word
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension, otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
                     IntPredicate::SGT,
-- 
2.43.0


From f2a82317b37604e280276399c2fb376584dbb40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 06/56] fix: sdiv and smod by a constant power of two no longer
 abort the code generator

---
 src/yul2ir/instruction.rs | 84 ++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 860205a..e4a5412 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -552,26 +552,36 @@ impl<'a> Yul2IRContext<'a> {
         Ok((safe.into_int_value(), is_zero))
     }
 
-    /// Replace a divisor of -1 by one, so that dividing the smallest signed value does not overflow.
-    /// Returns the divisor to use and whether the original divisor was -1.
-    fn non_minus_one_divisor(
+    /// The magnitude of a signed value and whether it is negative.
+    fn magnitude_and_sign(
         &self,
-        divisor: IntValue<'a>,
+        value: IntValue<'a>,
     ) -> Result<(IntValue<'a>, IntValue<'a>), ASTLoweringError> {
-        let ty = divisor.get_type();
-        let is_minus_one = self.builder.borrow_mut().build_int_compare(
-            IntPredicate::EQ,
-            divisor,
-            ty.const_all_ones(),
-            "divisor_is_minus_one",
+        let is_negative = self.builder.borrow_mut().build_int_compare(
+            IntPredicate::SLT,
+            value,
+            value.get_type().const_zero(),
+            "is_negative",
         )?;
-        let safe = self.builder.borrow_mut().build_select(
-            is_minus_one,
-            ty.const_int(1, false),
-            divisor,
-            "safe_divisor",
+        let magnitude = self.negate_if(is_negative, value)?;
+        Ok((magnitude, is_negative))
+    }
+
+    fn negate_if(
+        &self,
+        condition: IntValue<'a>,
+        value: IntValue<'a>,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let negated = self.builder.borrow_mut().build_int_sub(
+            value.get_type().const_zero(),
+            value,
+            "negated",
         )?;
-        Ok((safe.into_int_value(), is_minus_one))
+        let result = self
+            .builder
+            .borrow_mut()
+            .build_select(condition, negated, value, "")?;
+        Ok(result.into_int_value())
     }
 
     /// div(x, 0) == 0
@@ -600,23 +610,18 @@ impl<'a> Yul2IRContext<'a> {
         lhs: IntValue<'a>,
         rhs: IntValue<'a>,
     ) -> Result<IntValue<'a>, ASTLoweringError> {
-        let (divisor, is_zero) = self.non_zero_divisor(rhs)?;
-        let (divisor, is_minus_one) = self.non_minus_one_divisor(divisor)?;
-        let quotient =
-            self.builder
-                .borrow_mut()
-                .build_int_signed_div(lhs, divisor, "sdiv_result")?;
-        let zero = lhs.get_type().const_zero();
-        let negated = self.builder.borrow_mut().build_int_sub(zero, lhs, "")?;
-        let result = self
-            .builder
-            .borrow_mut()
-            .build_select(is_minus_one, negated, quotient, "")?;
-        let result =
-            self.builder
-                .borrow_mut()
-                .build_select(is_zero, zero, result.into_int_value(), "")?;
-        Ok(result.into_int_value())
+        // The wasm code generator has no 256 bits signed division by a constant power of two,
+        // so the magnitudes are divided.
+        let (lhs, lhs_negative) = self.magnitude_and_sign(lhs)?;
+        let (rhs, rhs_negative) = self.magnitude_and_sign(rhs)?;
+        let quotient = self.build_evm_div(lhs, rhs)?;
+        let result_negative = self.builder.borrow_mut().build_int_compare(
+            IntPredicate::NE,
+            lhs_negative,
+            rhs_negative,
+            "",
+        )?;
+        self.negate_if(result_negative, quotient)
     }
 
     /// mod(x, 0) == 0
@@ -633,19 +638,16 @@ impl<'a> Yul2IRContext<'a> {
             .build_int_unsigned_rem(lhs, divisor, "mod_result")?)
     }
 
-    /// smod(x, 0) == 0
+    /// smod(x, 0) == 0, the result has the sign of the dividend
     fn build_evm_smod(
         &self,
         lhs: IntValue<'a>,
         rhs: IntValue<'a>,
     ) -> Result<IntValue<'a>, ASTLoweringError> {
-        // any value modulo the replacement divisor one is zero
-        let (divisor, _) = self.non_zero_divisor(rhs)?;
-        let (divisor, _) = self.non_minus_one_divisor(divisor)?;
-        Ok(self
-            .builder
-            .borrow_mut()
-            .build_int_signed_rem(lhs, divisor, "smod_result")?)
+        let (lhs, lhs_negative) = self.magnitude_and_sign(lhs)?;
+        let (rhs, _) = self.magnitude_and_sign(rhs)?;
+        let remainder = self.build_evm_mod(lhs, rhs)?;
+        self.negate_if(lhs_negative, remainder)
     }
 
     pub(crate) fn walk_yul_instruction(
-- 
2.43.0


From 2f22138432a049d51ff210093a99ccd691856742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 07/56] fix: evaluate call arguments from the last to the first
 as Yul prescribes

---
 src/yul2ir/instruction.rs |  6 ++++--
 src/yul2ir/transform.rs   | 16 +++++++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index e4a5412..f1dc8d2 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -513,10 +513,11 @@ impl<'a> Yul2IRContext<'a> {
         args_exprs: &[Expression],
         arg_expected_types: &[ExpectedType],
     ) -> Vec<YulLowLevelValue<'a>> {
-        // Evaluate each argument with its expected type
-        let args: Vec<YulLowLevelValue<'a>> = args_exprs
+        // Evaluate each argument with its expected type, the last argument first as Yul prescribes
+        let mut args: Vec<YulLowLevelValue<'a>> = args_exprs
             .iter()
             .enumerate()
+            .rev()
             .map(|(i, arg)| {
                 let arg_expected_type = if i < arg_expected_types.len() {
                     arg_expected_types[i]
@@ -527,6 +528,7 @@ impl<'a> Yul2IRContext<'a> {
                     .unwrap()
             })
             .collect();
+        args.reverse();
         args
     }
 
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 1b3b43f..23965b7 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -818,24 +818,24 @@ impl<'a> Yul2IRContext<'a> {
             if (func_call.id.name == "fun_transfer" || func_call.id.name == "fun__transfer")
                 && func_call.arguments.len() == 3
             {
-                let from_arg = self.walk_expr_with_type(
+                let value_arg = self.walk_expr_with_type(
                     yul_func_name,
-                    &func_call.arguments[0],
+                    &func_call.arguments[2],
                     ExpectedType::Bytes32Pointer,
                 )?;
-                let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
+                let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
                 let to_arg = self.walk_expr_with_type(
                     yul_func_name,
                     &func_call.arguments[1],
                     ExpectedType::Bytes32Pointer,
                 )?;
                 let to_arg = self.try_into_bytes32_pointer(&to_arg.get_value())?;
-                let value_arg = self.walk_expr_with_type(
+                let from_arg = self.walk_expr_with_type(
                     yul_func_name,
-                    &func_call.arguments[2],
+                    &func_call.arguments[0],
                     ExpectedType::Bytes32Pointer,
                 )?;
-                let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
+                let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
                 self.build_void_call(
                     "wrapper_optimized_erc20_fun_transfer",
                     &[from_arg, to_arg, value_arg],
@@ -885,7 +885,8 @@ impl<'a> Yul2IRContext<'a> {
             .clone();
 
         let mut call_args = vec![];
-        for (i, arg) in func_call.arguments.iter().enumerate() {
+        // Yul evaluates the last argument first
+        for (i, arg) in func_call.arguments.iter().enumerate().rev() {
             // Try to get the expected parameter type from function declaration
             let expected_param_type =
                 if let Some(func_decl) = self.current_func_decls.borrow().get(&func_name) {
@@ -913,6 +914,7 @@ impl<'a> Yul2IRContext<'a> {
                 e => return e,
             }
         }
+        call_args.reverse();
 
         let func_def = self.current_func_decls.borrow().get(&func_name).unwrap();
 
-- 
2.43.0


From f89691acb6dd9fca54eef3e683e2e87d9f62904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 08/56] fix: the body of an if is a scope of its own

---
 src/yul2ir/transform.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 23965b7..b9c540f 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -298,8 +298,9 @@ impl<'a> Yul2IRContext<'a> {
             self.i32_type().const_zero(),
             "nop",
         )?;
-        for stmt in &r#if.body.statements {
-            self.walk_stmt(yul_func_name, stmt)?;
+        // the body is a scope of its own
+        self.walk_block(yul_func_name, &r#if.body)?;
+        if let Some(stmt) = r#if.body.statements.last() {
             unreachableflag = self.is_unreachable_node(stmt);
         }
         // The internal then block should branch to the end block
-- 
2.43.0


From 7da70526ae6dec55e022d369bf521da7f2095c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 09/56] fix: switch compares whole 256-bit values, reports
 errors in its bodies and handles a lone default

---
 src/yul2ir/transform.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index b9c540f..c98a283 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -93,15 +93,20 @@ impl<'a> Yul2IRContext<'a> {
         let cur_func = self.current_function.borrow().clone().unwrap();
         let cur_func_value = *cur_func.clone();
 
-        // For switch condition, we ideally want the type to match case values (typically u256)
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::I32)?;
-        let cond_value = cond_value.get_value();
-        let cond_value = if cond_value.is_int_value() {
-            cond_value.into_int_value()
-        } else {
-            self.try_into_u256(&cond_value)?
-        };
+            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::U256)?;
+        let mut cond_value = self.try_into_int(&cond_value.get_value())?;
+        // The condition keeps a narrow type only if every case value fits into that type
+        if let ast::SwitchOptions::Cases(cases, _) = &switch.opt {
+            let cond_bits = cond_value.get_type().get_bit_width() as usize;
+            let all_cases_fit = cases.iter().all(|case| {
+                self.fetch_not_string_literal_constant(&Expression::Literal(case.case.clone()))
+                    .is_some_and(|value| value.bits() <= cond_bits)
+            });
+            if !all_cases_fit {
+                cond_value = self.int_as_u256(cond_value)?;
+            }
+        }
         let cond_value_ty = cond_value.get_type();
 
         // Determine the expected type for case values based on the condition value type
@@ -148,7 +153,7 @@ impl<'a> Yul2IRContext<'a> {
 
                 for (_, bb) in jump_tbl {
                     self.builder.borrow_mut().position_at_end(bb.0);
-                    self.walk_block(yul_func_name, &bb.1);
+                    self.walk_block(yul_func_name, &bb.1)?;
                     self.builder
                         .borrow_mut()
                         .build_unconditional_branch(end_block);
@@ -156,7 +161,7 @@ impl<'a> Yul2IRContext<'a> {
 
                 self.builder.borrow_mut().position_at_end(otherwise_block);
                 if let Some(default) = default {
-                    self.walk_block(yul_func_name, &default.body);
+                    self.walk_block(yul_func_name, &default.body)?;
                 }
                 self.builder
                     .borrow_mut()
@@ -167,8 +172,11 @@ impl<'a> Yul2IRContext<'a> {
                 let otherwise_block = self
                     .llvm_context
                     .append_basic_block(cur_func_value, "switch_otherwise");
+                self.builder
+                    .borrow_mut()
+                    .build_unconditional_branch(otherwise_block)?;
                 self.builder.borrow_mut().position_at_end(otherwise_block);
-                self.walk_block(yul_func_name, &default.body);
+                self.walk_block(yul_func_name, &default.body)?;
                 self.builder
                     .borrow_mut()
                     .build_unconditional_branch(end_block);
-- 
2.43.0


From b0c32f38322df4e29b9a4cdfc1d68c8c9c55a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 10/56] fix: a for condition is tested over all 256 bits

---
 src/yul2ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index c98a283..2a31748 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -237,7 +237,7 @@ impl<'a> Yul2IRContext<'a> {
         self.builder.borrow_mut().position_at_end(cond_block);
         // For conditions, we prefer boolean (i32) results
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::I32)?;
+            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::Bool)?;
         let cond_value = cond_value.get_value();
         let cond_value = if cond_value.is_int_value() {
             cond_value.into_int_value()
-- 
2.43.0


From d7e6f3fde4d06d836c3f515c898db2e789ab6072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 11/56] fix: add(calldatasize(), not(3)) is negative for less
 than four bytes of calldata

---
 src/yul2ir/instruction.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f1dc8d2..dfacde9 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -291,10 +291,16 @@ impl<'a> Yul2IRContext<'a> {
                         // else return negative result.
                         // Optimize by directly calling a specialized wrapper
                         if let Ok(result) = self.build_call("wrapper_calldata_size_minus_4", &[]) {
+                            // the difference is negative if there are less than 4 bytes
+                            let result = self
+                                .builder
+                                .borrow_mut()
+                                .build_int_s_extend(result.into_int_value(), self.u256_type(), "")
+                                .unwrap();
                             return (
                                 Some(YulLowLevelValue {
-                                    value_type: YulLowLevelValueType::I32,
-                                    value: result,
+                                    value_type: YulLowLevelValueType::U256,
+                                    value: result.into(),
                                 }),
                                 None,
                             );
-- 
2.43.0


From 6fd5d998c0d10142ed6e277d0d373625ce853c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 12/56] fix: a reassigned variable keeps all 256 bits and never
 shares its buffer with another value

---
 src/yul2ir/transform.rs | 111 +++++++++-------------------------------
 1 file changed, 23 insertions(+), 88 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 2a31748..e36c75b 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -522,100 +522,35 @@ impl<'a> Yul2IRContext<'a> {
             None => None,
         };
 
-        // If the right-hand value is bytes32*, declare a bytes32* variable and copy the value
-        if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            let var_low_level_value_type = YulLowLevelValueType::Bytes32Pointer;
-            let ty = self.bytes32_pointer_type().as_basic_type_enum();
-            let llvm_var = self.fast_alloca(ty, &format!("var_{name}"))?;
-            self.set_var(&name, ty, var_low_level_value_type, llvm_var, false)?;
-            self.build_store(llvm_var, init_val_low_level.unwrap().value)?;
-            return self.ok_result();
-        }
-
-        // TODO: Simplify the following code
-
-        // if init_val is bytes32 pointer, convert to bytes32 to store in variable pointer
-        let init_val = if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            // is bytes32 pointer
-
-            // now load bytes32 pointer target is to copy data to variable pointer
-            // TODO: (alloca bytes32*) in stack to store bytes32 pointer
-            let init_val_content = self.build_load(
-                self.bytes32_type(),
-                init_val_low_level.unwrap().get_value().into_pointer_value(),
-                "",
-            )?;
-            Some(init_val_content)
-        } else if init_val_low_level.is_some() {
-            Some(init_val_low_level.unwrap().get_value())
-        } else {
-            None
-        };
-
-        let ty = if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            self.bytes32_type().as_basic_type_enum()
-        } else if init_val_low_level.is_some() {
-            init_val_low_level.unwrap().get_value().get_type()
-        } else {
-            self.default_primitive_type()
-        };
-
-        // if not specified type, infer type from init value
-        // let ty: BasicTypeEnum<'a> = if var_decl.identifiers[0].type_name.is_some() {
-        //     ty
-        // } else if init_val.is_some() {
-        //     let res = {
-        //         let this = &self;
-        //         let value: &BasicValueEnum<'a> = &init_val.unwrap();
-        //         self.is_bytes32_value(value)
-        //     };
-        //     if res {
-        //         self.bytes32_type().into()
-        //     } else {
-        //         init_val.unwrap().into_int_value().get_type().into()
-        //     }
-        // } else {
-        //     self.default_primitive_type()
-        // };
-
-        let var_low_level_value_type = if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            YulLowLevelValueType::Bytes32
-        } else if init_val_low_level.is_some() {
-            init_val_low_level.unwrap().value_type
-        } else {
-            self.default_primitive_type_low_level()
+        // A variable that is assigned again may receive any 256-bit value later on
+        let assigned_again = self
+            .get_variable_usage(yul_func_name, &name)
+            .map_or(true, |usage_info| usage_info.writes > 1);
+
+        let (ty, var_low_level_value_type) = match init_val_low_level {
+            // A bytes32 value is copied into the variable, which must not share the buffer of another value
+            Some(init_val) if init_val.value_type == YulLowLevelValueType::Bytes32Pointer => (
+                self.bytes32_type().as_basic_type_enum(),
+                YulLowLevelValueType::Bytes32,
+            ),
+            Some(init_val) if !assigned_again => {
+                (init_val.get_value().get_type(), init_val.value_type)
+            }
+            _ => (
+                self.default_primitive_type(),
+                self.default_primitive_type_low_level(),
+            ),
         };
 
         let llvm_var = self.fast_alloca(ty, &format!("var_{name}"))?;
         self.set_var(&name, ty, var_low_level_value_type, llvm_var, false)?;
 
-        if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            // bytes32 pointer allocated in memory now, load content of pointer to variable
-            // init_val bytes32 loaded yet
-            self.builder
-                .borrow_mut()
-                .build_store(llvm_var, init_val.unwrap())
-                .unwrap();
-        } else if let Some(init_val) = init_val {
-            let init_val = self.try_cast(init_val, ty)?;
-            self.builder
-                .borrow_mut()
-                .build_store(llvm_var, init_val)
-                .unwrap();
-        } else {
+        let init_val = match init_val_low_level {
+            Some(init_val) => self.try_cast(init_val.get_value(), ty)?,
             // a variable declared without a value is zero
-            self.build_store(llvm_var, ty.const_zero())?;
-        }
+            None => ty.const_zero(),
+        };
+        self.build_store(llvm_var, init_val)?;
         self.ok_result()
     }
 
-- 
2.43.0


From 840b9a8c406fb23dfdc4c2a4e9b6270db77cfaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 13/56] fix: a variable holding a linker symbol is kept when it
 is assigned later or used outside functions

---
 src/yul2ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index e36c75b..3d24f5b 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -501,7 +501,7 @@ impl<'a> Yul2IRContext<'a> {
                 .is_some()
             {
                 let usage_info = self.get_variable_usage(yul_func_name, &name);
-                if usage_info.is_none() || usage_info.unwrap().reads == 0 {
+                if usage_info.is_some_and(|usage| usage.reads == 0 && usage.writes == 1) {
                     // the variable not used, so we can optimize this variable declaration
                     return self.ok_result();
                 }
-- 
2.43.0


From ccd59d0e97a3a500c95565b883c49b109e1ccd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 14/56] fix: reserve stack space in the function entry, not
 once per loop iteration

---
 src/yul2ir/context.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index bf8267f..89a1117 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -1309,10 +1309,23 @@ impl<'ctx> Yul2IRContext<'ctx> {
         ty: T,
         name: &str,
     ) -> Result<PointerValue<'ctx>, ASTLoweringError> {
-        self.builder
-            .borrow_mut()
-            .build_alloca(ty, name)
-            .map_err(|e| ASTLoweringError::BuilderError(e.to_string()))
+        // Allocate in the entry block, otherwise every iteration of a loop takes more stack
+        let builder = self.builder.borrow_mut();
+        let current_block = builder.get_insert_block();
+        let entry_block = current_block
+            .and_then(|block| block.get_parent())
+            .and_then(|function| function.get_first_basic_block());
+        if let Some(entry_block) = entry_block {
+            match entry_block.get_first_instruction() {
+                Some(first_instruction) => builder.position_before(&first_instruction),
+                None => builder.position_at_end(entry_block),
+            }
+        }
+        let result = builder.build_alloca(ty, name);
+        if let Some(current_block) = current_block {
+            builder.position_at_end(current_block);
+        }
+        result.map_err(|e| ASTLoweringError::BuilderError(e.to_string()))
     }
 
     #[allow(dead_code)]
-- 
2.43.0


From 27a912bd836eb06edbaa96fe1074166858ee3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 15/56] fix: a call of a merged revert function evaluates its
 arguments and has a value of the right type

---
 src/yul2ir/transform.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 3d24f5b..ca499ec 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -727,18 +727,6 @@ impl<'a> Yul2IRContext<'a> {
         let func_name = func_call.id.name.clone();
         let qualifier_func_name = self.get_func_decl_qualifier_name_by_str(&func_name);
 
-        if self
-            .revert_zero_functions
-            .borrow()
-            .contains(&qualifier_func_name)
-        {
-            self.build_void_call(UNIFIED_REVERT_ERROR_ZERO, &[])?;
-            return Ok(YulLowLevelValue {
-                value_type: YulLowLevelValueType::I32,
-                value: self.i32_type().const_zero().into(),
-            });
-        }
-
         if let Some(instr) = parse_intrinsic_func_name(&func_name) {
             let yul_generated_expr = self.walk_yul_instruction(
                 yul_func_name,
@@ -862,8 +850,21 @@ impl<'a> Yul2IRContext<'a> {
 
         let func_def = self.current_func_decls.borrow().get(&func_name).unwrap();
 
+        let is_revert_zero = self
+            .revert_zero_functions
+            .borrow()
+            .contains(&qualifier_func_name);
+        if is_revert_zero {
+            // The arguments are evaluated above for their effects, the function itself never returns
+            self.build_void_call(UNIFIED_REVERT_ERROR_ZERO, &[])?;
+        }
+
         if has_ret {
-            let result = self.build_call(&qualifier_func_name, &call_args)?;
+            let result = if is_revert_zero {
+                ret_ty.const_zero()
+            } else {
+                self.build_call(&qualifier_func_name, &call_args)?
+            };
             // TODO: Set the return value type based on the function's inferred return type from self.yul_func_infer_types
             let func_result_low_level_value_ty = if has_ret && is_tuple_ret_ty {
                 YulLowLevelValueType::Tuple
@@ -878,7 +879,9 @@ impl<'a> Yul2IRContext<'a> {
                 value: result,
             })
         } else {
-            self.build_void_call(&qualifier_func_name, &call_args);
+            if !is_revert_zero {
+                self.build_void_call(&qualifier_func_name, &call_args)?;
+            }
             Ok(YulLowLevelValue {
                 value_type: YulLowLevelValueType::I32,
                 value: self.i32_type().const_zero().into(),
-- 
2.43.0


From 104b02b539d7486b43492287bae938294bc3cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 16/56] fix: EVM memory reads expand it, growth never overlaps
 other memory, msize counts bytes

mload, keccak256, return, revert, logs, calls and creates read whatever was
behind the EVM memory, or trapped, beyond its current size. Growing it ran into
the pages of memory_alloca_bytes32, or, from the static buffer, into other
static data. Offsets close to 2^32 wrapped around to addresses below it.
msize returned the number of wasm pages.
---
 stdlib/chain.c      | 83 ++++++++++++++++++++-------------------------
 stdlib/evm_memory.c | 79 ++++++++++++++++++++++++++++++------------
 stdlib/evm_memory.h | 24 ++++++++-----
 3 files changed, 109 insertions(+), 77 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 98b88d1..004658a 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -229,15 +229,14 @@ void wrapper_self_balance(uint256_t *result) {
 }
 
 void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
-  uint8_t *error_msg_ptr = evm_get_memory_addr(error_msg_evm_mem);
+  uint8_t *error_msg_ptr = evm_access_memory(error_msg_evm_mem, size);
   revert((ADDRESS_UINT)error_msg_ptr, size);
 }
 
 void wrapper_stop() { finish(0, 0); }
 void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
                       uint32_t size) {
-  evm_make_sure_memory(target_evm_mem_offset + size);
-  uint8_t *target_mem_ptr = evm_get_memory_addr(target_evm_mem_offset);
+  uint8_t *target_mem_ptr = evm_access_memory(target_evm_mem_offset, size);
   // For Yul, codecopy is sometimes used to copy actual calldata during contract
   // deployment (since in EVM, when deploying a contract, the contract bytecode
   // is init_code + calldata) However, this is different from WASM design. In
@@ -287,24 +286,19 @@ uint32_t wrapper_memory_guard(uint32_t size) {
 }
 
 void wrapper_mstore_bytes32(int32_t evm_mem, bytes32 *value_ptr) {
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
   memcpy(memory_ptr, value_ptr, 32);
 }
 void wrapper_mstore_u256(int32_t evm_mem, uint256_t *value_ptr) {
   uint256_t value = *value_ptr;
-  // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
   u256_to_big_endian(value, memory_ptr);
 }
 void wrapper_mstore_u32(int32_t evm_mem, uint32_t value) {
   // This is an optimized version of wrapper_mstore_u256 for u32 type
   // Although it writes 32 bytes, the first 28 bytes can be directly set to 0
 
-  // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
 
   // mstore(64, value) in Solidity reads/writes memptr value, not using the
   // front part
@@ -329,9 +323,7 @@ void wrapper_mstore_u64(int32_t evm_mem, uint64_t value) {
   // This is an optimized version of wrapper_mstore_u256 for u64 type
   // Although it writes 32 bytes, the first 24 bytes can be directly set to 0
 
-  // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
 
   // Write 0 to first 24 bytes (3 i64)
   uint64_t *memory_ptr_u64 = (uint64_t *)memory_ptr;
@@ -348,19 +340,17 @@ void wrapper_mstore_u64(int32_t evm_mem, uint64_t value) {
 }
 
 void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
-  // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 1);
   *memory_ptr = value & 0xff;
 }
 
 void wrapper_mload_u256(int32_t evm_mem, uint256_t *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
   u256_from_big_endian_bytes(memory_ptr, result);
 }
 
 uint32_t wrapper_mload_u32(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
   // Read 4 bytes in big-endian order from the last 4 bytes of the 32-byte slot
   uint32_t result = 0;
   for (int i = 0; i < 4; i++) {
@@ -370,7 +360,7 @@ uint32_t wrapper_mload_u32(int32_t evm_mem) {
 }
 
 uint64_t wrapper_mload_u64(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
   // Read 8 bytes in big-endian order from the last 8 bytes of the 32-byte slot
   uint64_t result = 0;
   for (int i = 0; i < 8; i++) {
@@ -380,15 +370,17 @@ uint64_t wrapper_mload_u64(int32_t evm_mem) {
 }
 
 void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
   // Copy all 32 bytes directly
   memcpy(result, memory_ptr, 32);
 }
 
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
-  evm_make_sure_memory(evm_dst + size);
-  uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
-  uint8_t *src_memory = evm_get_memory_addr(evm_src);
+  // the first expansion may move the memory, so the addresses are taken when it
+  // is large enough for both ranges
+  evm_access_memory(evm_src, size);
+  uint8_t *dst_memory = evm_access_memory(evm_dst, size);
+  uint8_t *src_memory = evm_access_memory(evm_src, size);
   memcpy(dst_memory, src_memory, size);
 }
 
@@ -493,12 +485,12 @@ void wrapper_loadimmutable(uint256_t *slot_ptr, uint256_t *result) {
 }
 
 void wrapper_keccak256(int32_t evm_mem, uint32_t size, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, size);
   keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
 }
 
 void wrapper_return(int32_t src_evm_mem, uint32_t size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(src_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(src_evm_mem, size);
   finish((ADDRESS_UINT)memory_ptr, size);
 }
 
@@ -508,14 +500,14 @@ void wrapper_decode_big_endian_i256_from_wasm_mem(uint8_t *wasm_mem,
 }
 
 void wrapper_log0(int32_t data_evm_mem, uint32_t data_size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(data_evm_mem, data_size);
   uint32_t num_topics = 0;
   emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics, 0, 0, 0, 0);
 }
 
 void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
                   bytes32 *topic0_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(data_evm_mem, data_size);
 
   uint32_t num_topics = 1;
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
@@ -526,7 +518,7 @@ void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
 
 void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -539,7 +531,7 @@ void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 
 void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -555,7 +547,7 @@ void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 void wrapper_log4(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr,
                   bytes32 *topic3_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -574,7 +566,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_access_memory(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -602,7 +594,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_access_memory(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -687,7 +679,8 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  evm_access_memory(out_evm_offset, out_length);
+  uint8_t *in_offset = evm_access_memory(in_evm_offset, in_length);
 
   int32_t retCode = callContract(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)&value_bytes,
@@ -704,7 +697,8 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
                          int32_t in_evm_offset, int32_t in_length,
                          int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  evm_access_memory(out_evm_offset, out_length);
+  uint8_t *in_offset = evm_access_memory(in_evm_offset, in_length);
   int32_t retCode = callDelegate(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)in_offset, in_length);
 
@@ -719,7 +713,8 @@ int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_staticcall(uint64_t gas, bytes32 *callee_addr_ptr,
                        int32_t in_evm_offset, int32_t in_length,
                        int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  evm_access_memory(out_evm_offset, out_length);
+  uint8_t *in_offset = evm_access_memory(in_evm_offset, in_length);
   int32_t retCode = callStatic(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                (ADDRESS_UINT)in_offset, in_length);
   if (retCode != 0 && is_precompiled_contract(callee_addr_ptr)) {
@@ -777,9 +772,7 @@ void wrapper_exp(uint256_t *base_ptr, uint256_t *exp_ptr, uint256_t *result) {
   *result = result_u256;
 }
 
-uint64_t wrapper_memory_size() {
-  return (uint64_t)__builtin_wasm_memory_size(0);
-}
+uint64_t wrapper_memory_size() { return (uint64_t)evm_get_memory_size(); }
 
 uint64_t wrapper_gas() { return (uint64_t)getGasLeft(); }
 
@@ -799,8 +792,7 @@ uint32_t wrapper_returndata_size() { return (uint32_t)getReturnDataSize(); }
 
 void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
                            uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst_memory_ptr = evm_get_memory_addr(dst_evm);
+  uint8_t *dst_memory_ptr = evm_access_memory(dst_evm, len);
 
   // For out of bound bytes, 0s will be copied.
   uint32_t calldata_size = cachedCallDataSize();
@@ -817,8 +809,7 @@ void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
 
 void wrapper_returndata_copy(int32_t dst_evm, uint32_t return_data_offset,
                              uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst_memory_ptr = evm_get_memory_addr(dst_evm);
+  uint8_t *dst_memory_ptr = evm_access_memory(dst_evm, len);
 
   returnDataCopy((ADDRESS_UINT)dst_memory_ptr, (uint32_t)return_data_offset,
                  len);
@@ -852,8 +843,7 @@ uint32_t wrapper_extcode_size(bytes32 *addr_ptr) {
 
 void wrapper_extcode_copy(bytes32 *addr_ptr, int32_t dst_evm, uint32_t offset,
                           uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst = evm_get_memory_addr(dst_evm);
+  uint8_t *dst = evm_access_memory(dst_evm, len);
   externalCodeCopy(12 + (ADDRESS_UINT)addr_ptr, (ADDRESS_UINT)dst, offset, len);
 }
 
@@ -877,8 +867,7 @@ void wrapper_extcode_hash(bytes32 *addr_ptr, bytes32 *result) {
 }
 
 void wrapper_data_copy(int32_t dst_evm, int32_t src_evm, uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst = evm_get_memory_addr(dst_evm);
+  uint8_t *dst = evm_access_memory(dst_evm, len);
   uint8_t *src = evm_get_memory_addr(src_evm);
   memcpy(dst, src, len);
 }
diff --git a/stdlib/evm_memory.c b/stdlib/evm_memory.c
index bdafd56..990f85e 100644
--- a/stdlib/evm_memory.c
+++ b/stdlib/evm_memory.c
@@ -3,14 +3,18 @@
 
 #include "evm_memory.h"
 #include "debug.h"
+#include "stdlib.h"
 
 static int32_t inited_before = 0; // 1 is true, 0 is false
 
 // EVM memory start address,
-// Once set, it remains unchanged. This is possible because after the WASM
-// instance starts (before optimization), the newly grown memory area is treated
-// as EVM memory, preventing conflicts with the LLVM constant pool.
+// After the WASM instance starts (before optimization), the newly grown memory
+// area is treated as EVM memory, preventing conflicts with the LLVM constant
+// pool. It changes when the memory has to grow and cannot grow in place.
 static uint8_t *evm_memory_begin = 0;
+// The first value of evm_memory_begin, which never changes. The offsets of the
+// data segments are relative to it.
+static uint8_t *evm_data_base = 0;
 static uint8_t *evm_memory_end = 0;
 static uint32_t evm_memory_size = 0; // accessible memory range
 static uint32_t evm_memory_full_size = 0;
@@ -19,9 +23,11 @@ static uint32_t evm_memory_full_size = 0;
 // instead use the remaining space after the constant data segment on the stack.
 // Another approach is to use static allocation(current choice)
 // Allocate a data segment and point to it, allowing space without needing to
-// grow; in most cases, 16384 (16k) is sufficient.
-// TODO: Implement memory relocation and growth when exceeding limits
+// grow; in most cases, 16384 (16k) is sufficient. Beyond it the memory is moved
+// into new wasm pages.
 #define EVM_MEMORY_MAX_SIZE 16384 // 16KB
+// Beyond this no wasm memory can be had
+#define EVM_MEMORY_LIMIT 0x7fffffff
 static uint8_t evm_memory_init_buffer[EVM_MEMORY_MAX_SIZE] = {0};
 
 void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool) {
@@ -54,32 +60,63 @@ void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool) {
     evm_memory_full_size = EVM_MEMORY_MAX_SIZE;
   }
 
+  evm_data_base = evm_memory_begin;
   inited_before = 1;
 }
 
-uint8_t *evm_make_sure_memory(uint32_t size) {
+// Grow the EVM memory in place when nothing was allocated behind it, otherwise
+// (it lies in the static buffer, or other wasm pages follow) move it into new
+// pages.
+static void evm_grow_memory(uint32_t size) {
+  uint32_t target_evm_pages = (size + WASM_PAGE_SIZE - 1) / WASM_PAGE_SIZE;
+  uint32_t before_pages = __builtin_wasm_memory_size(0);
+  BOOL is_last_of_wasm_memory =
+      evm_memory_begin != evm_memory_init_buffer &&
+      (uint32_t)evm_memory_end == before_pages * WASM_PAGE_SIZE;
+  uint32_t grow_pages = target_evm_pages;
+  if (is_last_of_wasm_memory) {
+    grow_pages -= evm_memory_full_size / WASM_PAGE_SIZE;
+  }
+  if (__builtin_wasm_memory_grow(0, grow_pages) == -1) {
+    __abort("wasm memory grow failed");
+  }
+  if (!is_last_of_wasm_memory) {
+    uint8_t *new_begin = (uint8_t *)(before_pages * WASM_PAGE_SIZE);
+    memcpy(new_begin, evm_memory_begin, evm_memory_full_size);
+    evm_memory_begin = new_begin;
+  }
+  evm_memory_full_size = target_evm_pages * WASM_PAGE_SIZE;
+  evm_memory_end = evm_memory_begin + evm_memory_full_size;
+}
+
+void evm_make_sure_memory(uint32_t size) {
   if (evm_memory_full_size < size) {
-    uint32_t target_evm_pages = (size + WASM_PAGE_SIZE - 1) / WASM_PAGE_SIZE;
-    uint32_t grow_pages =
-        target_evm_pages - evm_memory_full_size / WASM_PAGE_SIZE;
-    if (__builtin_wasm_memory_grow(0, grow_pages) == -1) {
-      __abort("__malloc: failed");
-    };
-    evm_memory_end += (grow_pages * WASM_PAGE_SIZE);
-    evm_memory_size = size;
-    evm_memory_full_size = target_evm_pages * WASM_PAGE_SIZE;
-    return evm_memory_begin;
+    evm_grow_memory(size);
   }
-  if (evm_memory_size < size) {
-    // EVM memory is allocated but not accessible for the requested size
-    evm_memory_size = size;
+  // EVM memory grows by words
+  uint32_t word_size = (size + 31) & ~31u;
+  if (evm_memory_size < word_size) {
+    evm_memory_size = word_size;
   }
+}
 
-  return evm_memory_begin;
+uint8_t *evm_access_memory(int32_t offset, uint32_t size) {
+  if (size == 0) {
+    // nothing is accessed, whatever the offset
+    return evm_memory_begin;
+  }
+  uint64_t end = (uint64_t)(uint32_t)offset + size;
+  if (end > EVM_MEMORY_LIMIT) {
+    __abort("evm memory out of range");
+  }
+  evm_make_sure_memory((uint32_t)end);
+  return evm_memory_begin + (uint32_t)offset;
 }
 
+uint32_t evm_get_memory_size() { return evm_memory_size; }
+
 uint8_t *evm_get_memory_addr(int32_t offset) {
-  return evm_memory_begin + offset;
+  return evm_data_base + offset;
 }
 
 int32_t is_available_evm_memory(uint8_t *ptr, uint32_t size) {
diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index b96cf31..ad3c08b 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -8,19 +8,25 @@
 #define WASM_PAGE_SIZE (65536)
 
 // TODO: use revert with not malloc for abort
-#define __abort(x) __builtin_unreachable()
+#define __abort(x) __builtin_trap()
 
 void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool);
 
-// Ensures there is memory space of specified size available for EVM use
-// Memory beyond the specified size requires additional checks to prevent access
-// Returns the starting address of the EVM memory region
-// The starting address of the EVM memory region remains unchanged after
-// modifications
-uint8_t *evm_make_sure_memory(uint32_t size);
+// Ensures there is memory space of specified size available for EVM use.
+// The starting address of the EVM memory region may change.
+void evm_make_sure_memory(uint32_t size);
 
-// Returns the memory address at the given offset
-// If offset < 0, copies data from non-EVM memory region
+// Expands the EVM memory to hold size bytes at the given offset, and returns
+// their address, which is valid until the next expansion. Aborts when the range
+// can't be addressed. A size of 0 accesses nothing.
+uint8_t *evm_access_memory(int32_t offset, uint32_t size);
+
+// Returns the size of the EVM memory in use, a multiple of 32
+uint32_t evm_get_memory_size();
+
+// Returns the memory address at the given offset from the initial start of the
+// EVM memory. If offset < 0, it is in the non-EVM memory region, which holds the
+// data segments.
 uint8_t *evm_get_memory_addr(int32_t offset);
 
 // Checks if ptr is within the accessible memory range of EVM
-- 
2.43.0


From bf11724b0a3fa787fe507149b80a8856c336ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 17/56] fix: memory offsets and lengths of 2^32 and more are
 not taken modulo 2^32

---
 src/yul2ir/context.rs     | 29 +++++++----------------------
 src/yul2ir/instruction.rs |  7 ++++---
 stdlib/chain.c            | 12 ++++++++++++
 3 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 89a1117..0d1aede 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -868,6 +868,8 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
+    /// Convert a memory offset or length to i32. One that is too large becomes u32::MAX, which
+    /// no memory holds, instead of being taken modulo 2^32.
     pub fn try_into_i32_value(
         &self,
         value: &BasicValueEnum<'ctx>,
@@ -878,30 +880,10 @@ impl<'ctx> Yul2IRContext<'ctx> {
             if constant_value <= U256::from(i32::MAX) {
                 Ok(self.i32_type().const_int(constant_value.as_u64(), false))
             } else {
-                self.try_into_i32_across_int(value)
+                self.try_into_i32_saturated(value, u32::MAX)
             }
         } else {
-            self.try_into_i32_across_int(value)
-        }
-    }
-
-    pub fn try_into_i32_across_int(
-        &self,
-        value: &BasicValueEnum<'ctx>,
-    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
-        // This function is equivalent to try_into_int followed by int_cast to i32
-        // For bytes32 type, we can directly take the last 4 bytes and convert to i32 using big endian
-        // For bytes32 pointer type, we can first convert to u8*, then take the content starting from offset +28 and convert to i32 using big endian
-        if self.is_bytes32_value(value) {
-            let value_ptr = self.get_value_pointer(*value)?;
-            let i32_val = self.build_call("i32_from_big_endian_bytes32", &[value_ptr.into()])?;
-            Ok(i32_val.into_int_value())
-        } else if value.is_pointer_value() {
-            // is bytes32 pointer
-            let i32_val = self.build_call("i32_from_big_endian_bytes32", &[*value])?;
-            Ok(i32_val.into_int_value())
-        } else {
-            self.int_as_i32(self.try_into_int(value)?)
+            self.try_into_i32_saturated(value, u32::MAX)
         }
     }
 
@@ -935,6 +917,9 @@ impl<'ctx> Yul2IRContext<'ctx> {
         if value.get_type().get_bit_width() < 32 {
             value = self.int_as_i32(value)?;
         }
+        if value.get_type().get_bit_width() == 32 && max == u32::MAX {
+            return Ok(value);
+        }
         let max_value = value.get_type().const_int(max as u64, false);
         let too_large =
             self.builder
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index dfacde9..f7ab592 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -103,7 +103,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::MCopy => {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
             }
-            YulInstructionName::MStore8 => vec![ExpectedType::I32, ExpectedType::I32],
+            YulInstructionName::MStore8 => vec![ExpectedType::I32, ExpectedType::U256],
             YulInstructionName::CallDataLoad => vec![ExpectedType::I32],
             YulInstructionName::CallDataCopy => {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
@@ -320,7 +320,7 @@ impl<'a> Yul2IRContext<'a> {
                 let offset_val = self
                     .walk_expr_with_type(yul_func_name, offset, ExpectedType::I32)
                     .unwrap();
-                self.try_into_i32_across_int(&offset_val.get_value())
+                self.try_into_i32_value(&offset_val.get_value(), offset)
                     .unwrap()
                     .into()
             };
@@ -1577,7 +1577,8 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::MStore8 => {
                 check_args_count(&instr, &args, 2)?;
-                let evm_mem = self.try_into_i32_across_int(args.first().unwrap())?;
+                let evm_mem =
+                    self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
 
                 let value = self.try_into_int(args.get(1).unwrap())?;
                 let u8_value = self.int_cast(value, self.i8_type())?;
diff --git a/stdlib/chain.c b/stdlib/chain.c
index 004658a..94df847 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -351,6 +351,12 @@ void wrapper_mload_u256(int32_t evm_mem, uint256_t *result) {
 
 uint32_t wrapper_mload_u32(int32_t evm_mem) {
   uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
+  // A value beyond u32 is read as the largest one
+  for (int i = 0; i < 28; i++) {
+    if (memory_ptr[i] != 0) {
+      return UINT32_MAX;
+    }
+  }
   // Read 4 bytes in big-endian order from the last 4 bytes of the 32-byte slot
   uint32_t result = 0;
   for (int i = 0; i < 4; i++) {
@@ -361,6 +367,12 @@ uint32_t wrapper_mload_u32(int32_t evm_mem) {
 
 uint64_t wrapper_mload_u64(int32_t evm_mem) {
   uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
+  // A value beyond u64 is read as the largest one
+  for (int i = 0; i < 24; i++) {
+    if (memory_ptr[i] != 0) {
+      return UINT64_MAX;
+    }
+  }
   // Read 8 bytes in big-endian order from the last 8 bytes of the 32-byte slot
   uint64_t result = 0;
   for (int i = 0; i < 8; i++) {
-- 
2.43.0


From 03797b22f1b85dc579e29467a72d4a1cbf45f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 18/56] fix: calldataload and calldatacopy from behind the end
 of the calldata yield zeros

---
 stdlib/chain.c | 50 +++++++++++++++++---------------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 94df847..cb1d704 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -92,34 +92,27 @@ static void cachedCallDataCopy(int32_t /* uint8_t* */ memory_ptr,
   }
   memcpy((void *)memory_ptr, cached_calldata + offset, size);
 }
-void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
+// Copies from the calldata; the bytes behind its end are zero
+static void calldata_copy_padded(uint8_t *target, uint32_t offset,
+                                 uint32_t size) {
   uint32_t calldata_size = cachedCallDataSize();
-  uint8_t data[32] = {0};
-  if ((calldata_offset + 32 > calldata_size)) {
-    // If calldata is insufficient, read remaining part to the front of data
-    // array The rest is already padded with zeros
-    uint32_t read_count = calldata_size - calldata_offset;
-    cachedCallDataCopy((ADDRESS_UINT)&data, calldata_offset, read_count);
-  } else {
-    cachedCallDataCopy((ADDRESS_UINT)&data, calldata_offset, 32);
+  uint32_t read_count = 0;
+  if (offset < calldata_size) {
+    read_count = calldata_size - offset;
+    if (read_count > size) {
+      read_count = size;
+    }
+    cachedCallDataCopy((ADDRESS_UINT)target, offset, read_count);
   }
+  __memset(target + read_count, 0, size - read_count);
+}
+void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
+  uint8_t data[32];
+  calldata_copy_padded(data, calldata_offset, 32);
   u256_from_big_endian_bytes(data, result);
 }
 void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result) {
-  uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + 32 > calldata_size)) {
-    // If calldata is insufficient, read remaining part to the front of data
-    // array The rest is already padded with zeros
-    uint32_t read_count = calldata_size - calldata_offset;
-    cachedCallDataCopy((ADDRESS_UINT)result, calldata_offset, read_count);
-    // Pad remaining bytes with zeros
-    uint8_t *result_bytes_ptr = (uint8_t *)result;
-    for (int i = read_count; i < 32; i++) {
-      result_bytes_ptr[i] = 0;
-    }
-  } else {
-    cachedCallDataCopy((ADDRESS_UINT)result, calldata_offset, 32);
-  }
+  calldata_copy_padded((uint8_t *)result, calldata_offset, 32);
 }
 
 // Optimized function to load just the function selector (first 4 bytes) from
@@ -807,16 +800,7 @@ void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
   uint8_t *dst_memory_ptr = evm_access_memory(dst_evm, len);
 
   // For out of bound bytes, 0s will be copied.
-  uint32_t calldata_size = cachedCallDataSize();
-  if (calldata_offset >= calldata_size) {
-    __memset(dst_memory_ptr, 0, len);
-  } else if (calldata_offset + len > calldata_size) {
-    uint32_t data_len = calldata_size - calldata_offset;
-    cachedCallDataCopy((ADDRESS_UINT)dst_memory_ptr, calldata_offset, data_len);
-    __memset(dst_memory_ptr + data_len, 0, len - data_len);
-  } else {
-    cachedCallDataCopy((ADDRESS_UINT)dst_memory_ptr, calldata_offset, len);
-  }
+  calldata_copy_padded(dst_memory_ptr, calldata_offset, len);
 }
 
 void wrapper_returndata_copy(int32_t dst_evm, uint32_t return_data_offset,
-- 
2.43.0


From 3ed8b3db44a3a2d965b649664688e6d0d7ddc601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 19/56] fix: codecopy and datacopy across or behind the end of
 the code yield the calldata during deployment, or zeros

Copying up to exactly the end of the code, across it, or behind it ran into
__builtin_unreachable or read the calldata of a contract that is not being
deployed.
---
 stdlib/chain.c | 62 ++++++++++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index cb1d704..8b60413 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -227,6 +227,32 @@ void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
 }
 
 void wrapper_stop() { finish(0, 0); }
+
+// This flag is set when the contract deployment entry point is called,
+// allowing us to determine if the current contract is being deployed.
+static int32_t is_deploying_tx_flag = 0; // 1 (true), 0 (false)
+
+// Copies from the contract bytecode, which the actual calldata follows during
+// deployment; the bytes behind are zero
+static void code_copy_padded(uint8_t *target, uint32_t offset, uint32_t size) {
+  uint32_t code_size = getCodeSize();
+  if (offset < code_size) {
+    uint32_t read_count = code_size - offset;
+    if (read_count > size) {
+      read_count = size;
+    }
+    codeCopy((ADDRESS_UINT)target, offset, read_count);
+    target += read_count;
+    offset += read_count;
+    size -= read_count;
+  }
+  if (is_deploying_tx_flag) {
+    calldata_copy_padded(target, offset - code_size, size);
+  } else {
+    __memset(target, 0, size);
+  }
+}
+
 void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
                       uint32_t size) {
   uint8_t *target_mem_ptr = evm_access_memory(target_evm_mem_offset, size);
@@ -239,7 +265,8 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
   // memory addresses relative to evm_memory_begin offset, so dataoffset returns
   // a 32-bit negative number, indicating it's part of the contract bytecode
 
-  if ((int32_t)evm_memory_offset < 0) {
+  // an offset that is too large for any code is passed as -1
+  if (evm_memory_offset < 0 && evm_memory_offset != -1) {
     // Copy from EVM contract bytecode, actually copying from WASM data segment
     // (linear memory) e.g. for codecopy(xxx, dataoffset(xxx), xxx)
     uint8_t *src_ptr = evm_get_memory_addr(evm_memory_offset);
@@ -247,25 +274,7 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
     return;
   }
 
-  int32_t cur_code_size = getCodeSize();
-
-  if ((evm_memory_offset + size) < cur_code_size) {
-    // Copy current WASM contract bytecode
-    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, size);
-    return;
-  }
-  // Copy actual calldata, input parameter is wasm code size + calldata_offset
-  int32_t calldata_offset = evm_memory_offset - cur_code_size;
-
-  if (calldata_offset < 0) {
-    __builtin_unreachable();
-  }
-  uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + size) > calldata_size) {
-    // Only 4 bytes larger might be the input size
-    __builtin_unreachable();
-  }
-  cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset, size);
+  code_copy_padded(target_mem_ptr, evm_memory_offset, size);
 }
 uint32_t wrapper_memory_guard(uint32_t size) {
   evm_make_sure_memory(size);
@@ -811,10 +820,6 @@ void wrapper_returndata_copy(int32_t dst_evm, uint32_t return_data_offset,
                  len);
 }
 
-// This flag is set when the contract deployment entry point is called,
-// allowing us to determine if the current contract is being deployed.
-static int32_t is_deploying_tx_flag = 0; // 1 (true), 0 (false)
-
 void set_is_deploying_tx() { is_deploying_tx_flag = 1; }
 
 // 1(true), 0(false)
@@ -840,6 +845,11 @@ uint32_t wrapper_extcode_size(bytes32 *addr_ptr) {
 void wrapper_extcode_copy(bytes32 *addr_ptr, int32_t dst_evm, uint32_t offset,
                           uint32_t len) {
   uint8_t *dst = evm_access_memory(dst_evm, len);
+  if (offset > INT32_MAX) {
+    // behind the end of any code
+    __memset(dst, 0, len);
+    return;
+  }
   externalCodeCopy(12 + (ADDRESS_UINT)addr_ptr, (ADDRESS_UINT)dst, offset, len);
 }
 
@@ -863,9 +873,7 @@ void wrapper_extcode_hash(bytes32 *addr_ptr, bytes32 *result) {
 }
 
 void wrapper_data_copy(int32_t dst_evm, int32_t src_evm, uint32_t len) {
-  uint8_t *dst = evm_access_memory(dst_evm, len);
-  uint8_t *src = evm_get_memory_addr(src_evm);
-  memcpy(dst, src, len);
+  wrapper_codecopy(dst_evm, src_evm, len);
 }
 
 void wrapper_sign_extend(uint32_t bits, uint256_t *value_ptr,
-- 
2.43.0


From c7415247a896469072495558b556407cd01b1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 20/56] fix: prevrandao keeps all 32 bytes and writes nothing
 behind them

---
 stdlib/chain.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 8b60413..8dac5a3 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -184,8 +184,7 @@ void wrapper_block_coin_base(bytes32 *result) {
 }
 
 void wrapper_block_prevRandao(bytes32 *result) {
-  getBlockPrevRandao(12 + (ADDRESS_UINT)result); // 32 bytes
-  clear_first_12_bytes(result);
+  getBlockPrevRandao((ADDRESS_UINT)result); // 32 bytes
 }
 
 void wrapper_callvalue(uint256_t *result) {
-- 
2.43.0


From db663328ca68d9422b1adf7d787307086dee8fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 21/56] fix: a failed call or creation yields zero instead of
 reverting the caller

The result of a creation kept whatever was in its first 12 bytes.
---
 stdlib/chain.c      | 96 ++++++++++++++++-----------------------------
 stdlib/evm_memory.c |  4 +-
 stdlib/evm_memory.h |  4 +-
 3 files changed, 37 insertions(+), 67 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 8dac5a3..bdcc24c 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -573,13 +573,19 @@ void wrapper_log4(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                (ADDRESS_UINT)topic0, (ADDRESS_UINT)topic1, (ADDRESS_UINT)topic2,
                (ADDRESS_UINT)topic3);
 }
-void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
-                    bytes32 *result) {
-  uint256_t value_u256 = *value;
+static void create_contract(uint256_t *value, int32_t code_evm_mem,
+                            int32_t code_length, uint8_t *salt_bytes,
+                            int32_t is_create2, bytes32 *result) {
+  // The result of a failed creation
+  __memset(result, 0, sizeof(bytes32));
+
   uint8_t value_bytes[32];
-  u256_to_big_endian(value_u256, value_bytes);
+  u256_to_big_endian(*value, value_bytes);
 
   uint8_t *code_mem = evm_access_memory(code_evm_mem, code_length);
+  if (code_length < 4) {
+    return;
+  }
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -587,50 +593,31 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
   for (int i = 0; i < 4; i++) {
     wasm_code_length = (wasm_code_length << 8) | ((uint32_t)code_mem[i] & 0xFF);
   }
-
-  uint32_t calldata_length = code_length - 4 - wasm_code_length;
-  uint8_t *calldata_mem = code_mem + 4 + wasm_code_length;
-
-  // Use ABI format (4 bytes wasm length + wasm code)
-  int32_t ret_code =
-      createContract((ADDRESS_UINT)&value_bytes, (ADDRESS_UINT)code_mem,
-                     wasm_code_length + 4, (ADDRESS_UINT)calldata_mem,
-                     calldata_length, 0, 0, 12 + (ADDRESS_UINT)result);
-  if (ret_code == 0) {
+  if (wasm_code_length > (uint32_t)code_length - 4) {
     return;
   }
-  revert((ADDRESS_UINT) "create contract failed", 22);
-}
-void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
-                     int32_t code_length, uint256_t *salt, bytes32 *result) {
-  uint256_t value_u256 = *value;
-  uint8_t value_bytes[32];
-  u256_to_big_endian(value_u256, value_bytes);
-
-  uint8_t *code_mem = evm_access_memory(code_evm_mem, code_length);
 
-  // The first 4 bytes of code_mem is a big-endian uint32_t representing the
-  // wasm bytecode length The remaining bytes are calldata
-  uint32_t wasm_code_length = 0;
-  for (int i = 0; i < 4; i++) {
-    wasm_code_length = (wasm_code_length << 8) | ((uint32_t)code_mem[i] & 0xFF);
-  }
   uint32_t calldata_length = code_length - 4 - wasm_code_length;
   uint8_t *calldata_mem = code_mem + 4 + wasm_code_length;
 
-  uint256_t salt_u256 = *salt;
-  uint8_t salt_bytes[32];
-  u256_to_big_endian(salt_u256, salt_bytes);
-
   // Use ABI format (4 bytes wasm length + wasm code)
   int32_t ret_code = createContract(
       (ADDRESS_UINT)&value_bytes, (ADDRESS_UINT)code_mem, wasm_code_length + 4,
-      (ADDRESS_UINT)calldata_mem, calldata_length, (ADDRESS_UINT)&salt_bytes, 1,
-      12 + (ADDRESS_UINT)result);
-  if (ret_code == 0) {
-    return;
+      (ADDRESS_UINT)calldata_mem, calldata_length, (ADDRESS_UINT)salt_bytes,
+      is_create2, 12 + (ADDRESS_UINT)result);
+  if (ret_code != 0) {
+    __memset(result, 0, sizeof(bytes32));
   }
-  revert((ADDRESS_UINT) "create2 contract failed", 23);
+}
+void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
+                    bytes32 *result) {
+  create_contract(value, code_evm_mem, code_length, NULL, 0, result);
+}
+void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
+                     int32_t code_length, uint256_t *salt, bytes32 *result) {
+  uint8_t salt_bytes[32];
+  u256_to_big_endian(*salt, salt_bytes);
+  create_contract(value, code_evm_mem, code_length, salt_bytes, 1, result);
 }
 
 BOOL write_call_data(int32_t call_status, int32_t out_evm_offset,
@@ -638,31 +625,16 @@ BOOL write_call_data(int32_t call_status, int32_t out_evm_offset,
   if (call_status == 2) {
     revert((ADDRESS_UINT) "call contract failed", 20);
     return 0;
-  } else if (out_length == 0) {
-    return call_status == 0 ? 1 : 0;
-  } else {
-    int32_t ret_data_size = getReturnDataSize();
-    if (ret_data_size < out_length) {
-      if (call_status == 0) {
-        // success call
-        wrapper_returndata_copy(out_evm_offset, 0, ret_data_size);
-        return 1; // true
-      }
-#define MAX_REVERT_LENGTH 1024
-      static uint8_t tmp_revert_data[MAX_REVERT_LENGTH] = {0};
-      if (ret_data_size == 0) {
-        revert((ADDRESS_UINT) "call failed with no revert data", 31);
-      } else if (ret_data_size <= MAX_REVERT_LENGTH) {
-        returnDataCopy((ADDRESS_UINT)&tmp_revert_data, 0, ret_data_size);
-        revert((ADDRESS_UINT)&tmp_revert_data, ret_data_size);
-      } else {
-        revert((ADDRESS_UINT) "out length is not enough", 24);
-      }
-    } else {
-      wrapper_returndata_copy(out_evm_offset, 0, out_length);
-    }
-    return call_status == 0 ? 1 : 0; // true or false
   }
+  // The output area keeps its content behind the end of the return data
+  int32_t ret_data_size = getReturnDataSize();
+  int32_t copy_length = (uint32_t)ret_data_size < (uint32_t)out_length
+                            ? ret_data_size
+                            : out_length;
+  if (copy_length != 0) {
+    wrapper_returndata_copy(out_evm_offset, 0, copy_length);
+  }
+  return call_status == 0 ? 1 : 0; // true or false
 }
 
 static BOOL is_precompiled_contract(bytes32 *callee_addr_ptr) {
diff --git a/stdlib/evm_memory.c b/stdlib/evm_memory.c
index 990f85e..0dd8d69 100644
--- a/stdlib/evm_memory.c
+++ b/stdlib/evm_memory.c
@@ -115,9 +115,7 @@ uint8_t *evm_access_memory(int32_t offset, uint32_t size) {
 
 uint32_t evm_get_memory_size() { return evm_memory_size; }
 
-uint8_t *evm_get_memory_addr(int32_t offset) {
-  return evm_data_base + offset;
-}
+uint8_t *evm_get_memory_addr(int32_t offset) { return evm_data_base + offset; }
 
 int32_t is_available_evm_memory(uint8_t *ptr, uint32_t size) {
   return ptr >= evm_memory_begin && size <= evm_memory_size;
diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index ad3c08b..b405744 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -25,8 +25,8 @@ uint8_t *evm_access_memory(int32_t offset, uint32_t size);
 uint32_t evm_get_memory_size();
 
 // Returns the memory address at the given offset from the initial start of the
-// EVM memory. If offset < 0, it is in the non-EVM memory region, which holds the
-// data segments.
+// EVM memory. If offset < 0, it is in the non-EVM memory region, which holds
+// the data segments.
 uint8_t *evm_get_memory_addr(int32_t offset);
 
 // Checks if ptr is within the accessible memory range of EVM
-- 
2.43.0


From 598b5ecbe1db125cc3b0663874c6794a9e854762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 22/56] fix: mcopy of overlapping ranges

---
 stdlib/chain.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index bdcc24c..62f9490 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -394,7 +394,14 @@ void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
   evm_access_memory(evm_src, size);
   uint8_t *dst_memory = evm_access_memory(evm_dst, size);
   uint8_t *src_memory = evm_access_memory(evm_src, size);
-  memcpy(dst_memory, src_memory, size);
+  if (dst_memory <= src_memory) {
+    memcpy(dst_memory, src_memory, size);
+    return;
+  }
+  // the ranges may overlap, so copy from the end
+  while (size--) {
+    dst_memory[size] = src_memory[size];
+  }
 }
 
 void wrapper_sstore_u256(uint256_t *slot_ptr, uint256_t *value_ptr) {
-- 
2.43.0


From 929a8fdaf92393d4cb8d1c1ddc1693c1d73aa9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 23/56] fix: scratch cells never overlap EVM memory that has
 grown in between

---
 stdlib/chain.c | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 62f9490..75d69f9 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -904,8 +904,12 @@ bytes32 *memory_alloca_bytes32() {
         [memory_alloca_bytes32_buffer_used_count++];
   }
   // If the predefined memory is insufficient, use additional allocated memory
-  if (extra_memory_alloca_bytes32_memory_begin == NULL) {
-    // grow new wasm memory page as extra alloca memory buffer
+  if (extra_memory_alloca_bytes32_memory_begin == NULL ||
+      (extra_memory_alloca_bytes32_memory_begin +
+       extra_memory_alloca_bytes32_memory_used_size + sizeof(bytes32)) >
+          extra_memory_alloca_bytes32_memory_end) {
+    // grow new wasm memory page as extra alloca memory buffer. It does not
+    // follow the one before when the EVM memory has grown in between.
     uint32_t before_pages = __builtin_wasm_memory_size(0);
     extra_memory_alloca_bytes32_memory_begin =
         (uint8_t *)(before_pages * WASM_PAGE_SIZE);
@@ -916,31 +920,8 @@ bytes32 *memory_alloca_bytes32() {
     }
     extra_memory_alloca_bytes32_memory_end =
         (uint8_t *)(after_pages * WASM_PAGE_SIZE);
-    // allocate one bytes32 memory for return
     extra_memory_alloca_bytes32_memory_used_size = 0;
-    bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
-                                  extra_memory_alloca_bytes32_memory_used_size);
-    extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
-    return result;
   }
-  if ((extra_memory_alloca_bytes32_memory_begin +
-       extra_memory_alloca_bytes32_memory_used_size + sizeof(bytes32)) >=
-      extra_memory_alloca_bytes32_memory_end) {
-    // if extra memory buffer is not enough, allocate new memory buffer
-    uint32_t before_pages = __builtin_wasm_memory_size(0);
-    __builtin_wasm_memory_grow(0, 1);
-    uint32_t after_pages = __builtin_wasm_memory_size(0);
-    if (after_pages == before_pages) {
-      __abort("wasm memory grow failed");
-    }
-    extra_memory_alloca_bytes32_memory_end =
-        (uint8_t *)(after_pages * WASM_PAGE_SIZE);
-    bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
-                                  extra_memory_alloca_bytes32_memory_used_size);
-    extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
-    return result;
-  }
-  // have enough extra alloca memory buffer
   bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                                 extra_memory_alloca_bytes32_memory_used_size);
   extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
-- 
2.43.0


From e8f32a97efa57c39b7b711fc401dc66b04a9098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 24/56] fix: wrapper_bytes32_slt and wrapper_bytes32_sgt
 compare the bytes of their operands

---
 stdlib/chain_math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 2643626..0f53ebe 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -58,9 +58,9 @@ BOOL wrapper_bytes32_slt(const bytes32 *a, const bytes32 *b) {
   // If signs are the same, perform comparison based on magnitude
   // For signed comparison, the rest of the bytes are compared normally
   for (int i = 0; i < 32; i++) {
-    if (a[i] < b[i]) {
+    if (a_bytes[i] < b_bytes[i]) {
       return 1; // a is smaller
-    } else if (a[i] > b[i]) {
+    } else if (a_bytes[i] > b_bytes[i]) {
       return 0; // a is larger
     }
   }
@@ -81,9 +81,9 @@ BOOL wrapper_bytes32_sgt(const bytes32 *a, const bytes32 *b) {
 
   // If signs are the same, perform comparison based on magnitude
   for (int i = 0; i < 32; i++) {
-    if (a[i] > b[i]) {
+    if (a_bytes[i] > b_bytes[i]) {
       return 1; // a is larger
-    } else if (a[i] < b[i]) {
+    } else if (a_bytes[i] < b_bytes[i]) {
       return 0; // a is smaller
     }
   }
-- 
2.43.0


From a996a7bc0c4dd4e61b23cb12097c32677df59cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 25/56] fix: wrapper_bytes32_shl of a small value

Its fast path took the big endian words for little endian ones.
---
 stdlib/chain_math.c | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 0f53ebe..4e79870 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -152,27 +152,11 @@ void wrapper_bytes32_shl(const bytes32 *value, int32_t shift, bytes32 *result) {
     return;
   }
   if (shift <= 64) {
-    // when shift <= 32 and value top 3*64 + 32 bits are all 0
-    uint64_t *value_as_u64_array = (uint64_t *)value;
-    uint32_t *value_as_u32_array = (uint32_t *)value;
-    if (shift <= 32 && value_as_u64_array[0] == 0 &&
-        value_as_u64_array[1] == 0 && value_as_u64_array[2] == 0 &&
-        value_as_u32_array[6] == 0) {
-      uint64_t last_u64 = ((uint64_t)value_as_u32_array[7]) << shift;
-      uint64_t *result_as_u64_array = (uint64_t *)result;
-      result_as_u64_array[0] = 0;
-      result_as_u64_array[1] = 0;
-      result_as_u64_array[2] = 0;
-      result_as_u64_array[3] = last_u64;
-      return;
-    } else {
-      // TODO: optimize this
-      uint256_t value_as_uint256;
-      u256_from_big_endian_bytes((uint8_t *)value, &value_as_uint256);
-      uint256_t result_as_uint256 = value_as_uint256 << shift;
-      u256_to_big_endian_bytes(&result_as_uint256, (uint8_t *)result);
-    }
-
+    // TODO: optimize this
+    uint256_t value_as_uint256;
+    u256_from_big_endian_bytes((uint8_t *)value, &value_as_uint256);
+    uint256_t result_as_uint256 = value_as_uint256 << shift;
+    u256_to_big_endian_bytes(&result_as_uint256, (uint8_t *)result);
     return;
   }
   if (shift >= 256) {
-- 
2.43.0


From beb483731271bdd5d04f8215f9b9f91fae756917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 26/56] fix: debug output of the smallest int32

---
 stdlib/utils.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stdlib/utils.c b/stdlib/utils.c
index 936f37c..afe4440 100644
--- a/stdlib/utils.c
+++ b/stdlib/utils.c
@@ -12,19 +12,20 @@ int int32_to_str(int32_t value, char *str_buffer, int buffer_size) {
   // Handle negative numbers
   if (value < 0) {
     is_negative = 1;
-    value = -value; // Convert to positive for processing
   }
+  // Convert to positive for processing, which INT32_MIN has no int32 for
+  uint32_t magnitude = is_negative ? 0u - (uint32_t)value : (uint32_t)value;
 
   // Special case for zero
-  if (value == 0) {
+  if (magnitude == 0) {
     if (buffer_size > 0) {
       str_buffer[index++] = '0';
     }
   } else {
     // Convert from least significant digit to most significant
-    while (value > 0 && index < buffer_size - 1) {
-      str_buffer[index++] = '0' + (value % 10);
-      value /= 10;
+    while (magnitude > 0 && index < buffer_size - 1) {
+      str_buffer[index++] = '0' + (magnitude % 10);
+      magnitude /= 10;
     }
 
     // Add negative sign if needed
-- 
2.43.0


From bbd0945c2a4239b131916e3a8dab043ad18e7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 27/56] fix: wrapper_allocate_memory of zero bytes and from an
 unaligned free pointer

---
 stdlib/chain.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 75d69f9..baa88a1 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -952,8 +952,9 @@ int32_t wrapper_allocate_memory(uint32_t size) {
   //     mstore(64, newFreePtr)
   // }
   int32_t mem_ptr = wrapper_get_memptr_global();
-  int32_t new_free_ptr = mem_ptr + (size + 31) & ~31;
-  if (new_free_ptr <= mem_ptr) {
+  uint64_t new_free_ptr =
+      (uint64_t)(uint32_t)mem_ptr + (((uint64_t)size + 31) & ~(uint64_t)31);
+  if (new_free_ptr > INT32_MAX) {
     __abort("allocate memory failed");
   }
   wrapper_set_memptr_global(new_free_ptr);
-- 
2.43.0


From 674945fb99d18ba9adf059c09b86fde0f97b7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 28/56] fix: the optimized ERC20 transfer only looks at the low
 160 bits of the addresses

---
 stdlib/chain.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index baa88a1..ce2c345 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1020,6 +1020,15 @@ void wrapper_optimized_erc20_fun_transfer(bytes32 *from, bytes32 *to,
   //     0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _1,
   //     _3)
   // }
+  bytes32 from_address;
+  bytes32 to_address;
+  memcpy(from_address, from, sizeof(bytes32));
+  memcpy(to_address, to, sizeof(bytes32));
+  clear_first_12_bytes(&from_address);
+  clear_first_12_bytes(&to_address);
+  from = &from_address;
+  to = &to_address;
+
   if (is_zero_address(((uint8_t *)from) + 12)) {
     // shl(225, 0x4b637e8f) ==
     // 0x96c6fd1e00000000000000000000000000000000000000000000000000000000
-- 
2.43.0


From a038f4ba8b9b1cabffe43fc485916e592312ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 29/56] fix: immutables with long names that only differ in
 their tail have slots of their own

---
 src/yul2ir/instruction.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f7ab592..51354a8 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1646,7 +1646,7 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
@@ -1729,7 +1729,7 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
-- 
2.43.0


From 542c3e706d5841869ee36c1e0c4bb3ba12555b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 30/56] fix: number literals beyond 256 bits and string values
 beyond 32 bytes are rejected

---
 src/yul2ir/context.rs     | 66 ++++++++++++++++++++++++++-------------
 src/yul2ir/instruction.rs | 19 ++++++++++-
 src/yul2ir/transform.rs   | 14 +++++----
 3 files changed, 70 insertions(+), 29 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 0d1aede..749fd44 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -96,6 +96,17 @@ pub struct Yul2IRContext<'ctx> {
     pub default_ret_type: YulLowLevelValueType,
 }
 
+/// The value of a number literal, which is at most 256 bits wide but may have any number of leading zeros
+fn parse_literal_u256(literal: &str, digits: &str, radix: u32) -> Result<U256, ASTLoweringError> {
+    let digits = digits.trim_start_matches('0');
+    if digits.is_empty() {
+        return Ok(U256::zero());
+    }
+    U256::from_str_radix(digits, radix).map_err(|_| {
+        ASTLoweringError::BuilderError(format!("Number literal is not 256 bits: {}", literal))
+    })
+}
+
 static LLVM_INIT: OnceCell<()> = OnceCell::new();
 
 pub const FUNCTION_RETURN_VALUE_NOT_FOUND_MSG: &str = "Function return value is not found";
@@ -434,18 +445,23 @@ impl<'ctx> Yul2IRContext<'ctx> {
     }
 
     #[allow(unused)]
-    pub fn hex_literal(&self, value: &str) -> IntValue<'ctx> {
+    pub fn hex_literal(&self, value: &str) -> Result<IntValue<'ctx>, ASTLoweringError> {
         // TODO: Need to generate based on whether the type is u256 or some other type
         let value_without_prefix: String = value.chars().skip(2).collect();
-        self.u256_type()
+        parse_literal_u256(value, &value_without_prefix, 16)?;
+        Ok(self
+            .u256_type()
             .const_int_from_string(&value_without_prefix, StringRadix::Hexadecimal)
-            .unwrap()
+            .unwrap())
     }
 
     /// If the value is larger than i32 range, return bytes32 pointer
     #[allow(unused)]
-    pub fn hex_literal_or_bytes32_literal(&self, value: &str) -> YulLowLevelValue<'ctx> {
-        let u256_const = U256::from_str_radix(value, 16).unwrap();
+    pub fn hex_literal_or_bytes32_literal(
+        &self,
+        value: &str,
+    ) -> Result<YulLowLevelValue<'ctx>, ASTLoweringError> {
+        let u256_const = parse_literal_u256(value, value.trim_start_matches("0x"), 16)?;
         if u256_const > U256::from(i32::MAX) {
             // Must convert to 32 bytes, otherwise it is not convenient to use
             let mut value_bytes32 = [0u8; 32];
@@ -454,27 +470,32 @@ impl<'ctx> Yul2IRContext<'ctx> {
             let global_value =
                 self.add_global_constant_bytes32(&value_bytes32, &global_constant_name);
             let global_value_pointer = global_value.as_pointer_value();
-            YulLowLevelValue {
+            Ok(YulLowLevelValue {
                 value_type: YulLowLevelValueType::Bytes32Pointer,
                 value: global_value_pointer.into(),
-            }
+            })
         } else {
-            let value_int = self.hex_literal(value);
-            YulLowLevelValue {
+            let value_int = self.hex_literal(value)?;
+            Ok(YulLowLevelValue {
                 value: value_int.as_basic_value_enum(),
                 value_type: YulLowLevelValueType::from_int_type(value_int.get_type()),
-            }
+            })
         }
     }
 
-    pub fn dec_literal(&self, value: &str, expected_type: ExpectedType) -> IntValue<'ctx> {
+    pub fn dec_literal(
+        &self,
+        value: &str,
+        expected_type: ExpectedType,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        parse_literal_u256(value, value, 10)?;
         // Unless there's a clear expected type from context, or the variable is not used as u256 type,
         // always use u256 type. Otherwise, in cases like `let i := 0` followed by `i = add(i, 1)`,
         // overflow might occur within the i32 value range.
 
         // If the expected type is Untyped, choose i32, i64, or i256 based on the literal's size
         // If an expected type is provided, use that type instead
-        match expected_type {
+        Ok(match expected_type {
             // i32 is the most priority literal int type
             ExpectedType::I32 => {
                 if value.len() <= 9 {
@@ -506,16 +527,17 @@ impl<'ctx> Yul2IRContext<'ctx> {
                 .u256_type()
                 .const_int_from_string(value, StringRadix::Decimal)
                 .unwrap(),
-        }
+        })
     }
 
-    pub fn string_literal(&self, value: &str) -> IntValue<'ctx> {
+    /// The value of a string literal. The names in linkersymbol, dataoffset, datasize and the immutable
+    /// instructions are no values and are not processed here
+    pub fn string_literal(&self, value: &str) -> Result<IntValue<'ctx>, ASTLoweringError> {
         if value.len() > 32 {
-            // panic!("String literal length exceeds 32 bytes: {}", value);
-            // String literals used in linker symbol, data offset, and data size instructions
-            // don't need to be processed by string_literal function
-            // After modifying the logic in instruction.rs, we can restore the panic here
-            return self.u256_type().const_zero();
+            return Err(ASTLoweringError::BuilderError(format!(
+                "String literal length exceeds 32 bytes: {}",
+                value
+            )));
         }
         // Convert string to bytes and pad to 32 bytes
         let mut bytes = value.as_bytes().to_vec();
@@ -529,17 +551,17 @@ impl<'ctx> Yul2IRContext<'ctx> {
             .u256_type()
             .const_int_from_string(&be_bytes_hex, StringRadix::Hexadecimal)
             .unwrap();
-        int_value
+        Ok(int_value)
     }
 
     #[allow(unused)]
     pub fn fetch_not_string_literal_constant(&self, expr: &Expression) -> Option<U256> {
         match expr {
             Expression::Literal(Literal::DecimalNumberLiteral(dec, _)) => {
-                Some(U256::from_str_radix(&dec.dec, 10).unwrap())
+                parse_literal_u256(&dec.dec, &dec.dec, 10).ok()
             }
             Expression::Literal(Literal::HexNumberLiteral(hex, _)) => {
-                Some(U256::from_str_radix(&hex.hex, 16).unwrap())
+                parse_literal_u256(&hex.hex, hex.hex.trim_start_matches("0x"), 16).ok()
             }
             Expression::Literal(Literal::TrueLiteral(_)) => Some(U256::from(1)),
             Expression::Literal(Literal::FalseLiteral(_)) => Some(U256::from(0)),
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 51354a8..000d564 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -690,6 +690,23 @@ impl<'a> Yul2IRContext<'a> {
 
         let args_low_level = if let Some(optimized_args) = optimized_args {
             optimized_args
+        } else if matches!(
+            instr,
+            YulInstructionName::LinkerSymbol
+                | YulInstructionName::DataOffset
+                | YulInstructionName::DataSize
+                | YulInstructionName::LoadImmutable
+                | YulInstructionName::SetImmutable
+        ) {
+            // the string literals of these instructions are names of any length, not values
+            let value_exprs: Vec<Expression> = args_exprs
+                .iter()
+                .map(|arg| match self.read_string_literal(arg) {
+                    Some(_) => Expression::Literal(Literal::FalseLiteral(None)),
+                    None => arg.clone(),
+                })
+                .collect();
+            self.walk_args(yul_func_name, &value_exprs, &arg_expected_types)
         } else {
             self.walk_args(yul_func_name, args_exprs, &arg_expected_types)
         };
@@ -2597,7 +2614,7 @@ impl<'a> Yul2IRContext<'a> {
                 }
                 assert!(symbol_addr.is_some());
                 let symbol_addr = symbol_addr.unwrap();
-                let symbol_addr = self.hex_literal(&symbol_addr);
+                let symbol_addr = self.hex_literal(&symbol_addr)?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(symbol_addr.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index ca499ec..d04e6b4 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -121,11 +121,13 @@ impl<'a> Yul2IRContext<'a> {
                 let mut jump_blocks: Vec<(IntValue<'a>, BasicBlock<'a>)> = vec![];
                 for case in cases {
                     let case_int = match &case.case {
-                        ast::Literal::HexNumberLiteral(hex, _) => self.hex_literal(&hex.hex),
+                        ast::Literal::HexNumberLiteral(hex, _) => self.hex_literal(&hex.hex)?,
                         ast::Literal::DecimalNumberLiteral(dec, _) => {
-                            self.dec_literal(&dec.dec, expected_type)
+                            self.dec_literal(&dec.dec, expected_type)?
+                        }
+                        ast::Literal::StringLiteral(string, _) => {
+                            self.string_literal(&string.str)?
                         }
-                        ast::Literal::StringLiteral(string, _) => self.string_literal(&string.str),
                         ast::Literal::TrueLiteral(_) => self.bool_literal(true),
                         ast::Literal::FalseLiteral(_) => self.bool_literal(false),
                     };
@@ -1014,17 +1016,17 @@ impl<'a> Yul2IRContext<'a> {
                 value: self.bool_literal(false).into(),
             }),
             ast::Literal::HexNumberLiteral(hex, ty_name) => {
-                Ok(self.hex_literal_or_bytes32_literal(&hex.hex))
+                self.hex_literal_or_bytes32_literal(&hex.hex)
             }
             ast::Literal::DecimalNumberLiteral(dec, ty_name) => {
-                let value = self.dec_literal(&dec.dec, expected_type);
+                let value = self.dec_literal(&dec.dec, expected_type)?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::from_int_type(value.get_type()),
                     value: value.into(),
                 })
             }
             ast::Literal::StringLiteral(s, ty_name) => {
-                let value = self.string_literal(&s.str);
+                let value = self.string_literal(&s.str)?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::from_int_type(value.get_type()),
                     value: value.into(),
-- 
2.43.0


From 0d10cd6beff7e9662fd7df776562cf20d3a554a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 31/56] fix: a linker symbol address without 0x keeps all its
 digits, anything but an address is rejected

---
 src/yul2ir/instruction.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 000d564..e79f9e0 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -2614,7 +2614,17 @@ impl<'a> Yul2IRContext<'a> {
                 }
                 assert!(symbol_addr.is_some());
                 let symbol_addr = symbol_addr.unwrap();
-                let symbol_addr = self.hex_literal(&symbol_addr)?;
+                let address_digits = symbol_addr.strip_prefix("0x").unwrap_or(&symbol_addr);
+                if address_digits.is_empty()
+                    || address_digits.len() > 40
+                    || !address_digits.chars().all(|c| c.is_ascii_hexdigit())
+                {
+                    return Err(ASTLoweringError::BuilderError(format!(
+                        "Invalid address {} of linker symbol {}",
+                        symbol_addr, linkersymbol_name
+                    )));
+                }
+                let symbol_addr = self.hex_literal(&format!("0x{}", address_digits))?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(symbol_addr.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-- 
2.43.0


From 63a91b04227dceca9881828acf9e4ddfefb453ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 32/56] fix: comment removal knows escaped quotes, comments
 ending in several stars and comments between tokens

---
 src/yul2ir/utils.rs | 80 ++++++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 45 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 559962d..dadd5d0 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -355,64 +355,54 @@ pub fn merge_sub_wasm_with_length_prefix(wasm_bytes: &[u8]) -> Vec<u8> {
 /// notice than when in string, the '/' is not a comment
 pub fn remove_comments(code: &str) -> String {
     let mut result = String::new();
-    let mut chars = code.chars();
-    let mut in_multiline = false;
-    let mut in_string = false;
+    let mut chars = code.chars().peekable();
     let mut string_char = None;
 
     while let Some(c) = chars.next() {
         match c {
             '"' | '\'' => {
-                if !in_multiline {
-                    if let Some(sc) = string_char {
-                        if sc == c {
-                            in_string = false;
-                            string_char = None;
-                        }
-                    } else {
-                        in_string = true;
-                        string_char = Some(c);
-                    }
+                match string_char {
+                    Some(sc) if sc == c => string_char = None,
+                    None => string_char = Some(c),
+                    _ => {}
                 }
                 result.push(c);
             }
-            '/' if !in_string => {
-                if let Some(next) = chars.next() {
-                    match next {
-                        '/' => {
-                            // Skip until end of line and replace with empty line
-                            for c in chars.by_ref() {
-                                if c == '\n' {
-                                    result.push('\n');
-                                    break;
-                                }
-                            }
-                        }
-                        '*' => {
-                            in_multiline = true;
-                            // Skip until matching */
-                            while let Some(c) = chars.next() {
-                                if c == '*' {
-                                    if let Some('/') = chars.next() {
-                                        in_multiline = false;
-                                        break;
-                                    }
-                                }
-                            }
-                        }
-                        _ => {
-                            result.push(c);
-                            result.push(next);
-                        }
+            '\\' if string_char.is_some() => {
+                // An escaped quote does not end the string
+                result.push(c);
+                if let Some(escaped) = chars.next() {
+                    result.push(escaped);
+                }
+            }
+            '/' if string_char.is_none() && chars.peek() == Some(&'/') => {
+                // Skip until end of line and replace with empty line
+                for c in chars.by_ref() {
+                    if c == '\n' {
+                        result.push('\n');
+                        break;
                     }
-                } else {
-                    result.push(c);
                 }
             }
-            _ if !in_multiline => {
+            '/' if string_char.is_none() && chars.peek() == Some(&'*') => {
+                chars.next();
+                // Skip until matching */
+                let mut prev = ' ';
+                for c in chars.by_ref() {
+                    if prev == '*' && c == '/' {
+                        break;
+                    }
+                    prev = c;
+                }
+                // A comment separates the tokens around it
+                let joins_next = chars.peek().is_some_and(|next| !next.is_whitespace());
+                if joins_next && result.ends_with(|last: char| !last.is_whitespace()) {
+                    result.push(' ');
+                }
+            }
+            _ => {
                 result.push(c);
             }
-            _ => {}
         }
     }
 
-- 
2.43.0


From 36526fc1d96614ca21dd614774d2dd48994e20cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 33/56] fix: every string gap is dropped, byte escapes above 7F
 are bytes and invalid escapes are parse errors

---
 src/yul.lalrpop     | 10 ++++++----
 src/yul2ir/utils.rs | 26 ++++++++++++++++----------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 8a85e8e..4214317 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -4,6 +4,7 @@
 
 use crate::yul2ir::ast;
 use crate::yul2ir::utils;
+use lalrpop_util::ParseError;
 use regex::Regex;
 
 grammar;
@@ -235,12 +236,13 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
-pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
-    let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
-    let mut s = String::from(escape_ignore_reg.replace(s, ""));
+pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> =>? {
+    // drop the `\ \` gaps, but not the white space between two escaped backslashes
+    let escape_ignore_reg = Regex::new("(\\\\[^ \\n\\t\\r\\f])|\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
+    let mut s = String::from(escape_ignore_reg.replace_all(s, "$1"));
     s.remove(0);
     s.pop();
-    utils::unescape_str_wrap_error(s.as_str())
+    utils::unescape_str_wrap_error(s.as_str()).map_err(|error| ParseError::User { error })
 };
 
 pub SingleLineComment: String = <s:r"//[^\n]*\n"> => String::from(s);
diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index dadd5d0..9bbfbc5 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -268,23 +268,29 @@ fn is_ascii(x: u32) -> bool {
     x <= 0x7F
 }
 
-/// Unescape string wrapping errors
-pub fn unescape_str_wrap_error(s: &str) -> String {
+/// Unescape string. A `\x` escape is one byte, all bytes together have to be UTF-8
+pub fn unescape_str_wrap_error(s: &str) -> Result<String, &'static str> {
     if s.contains(&['\\', '\r'][..]) {
-        let mut buf = String::with_capacity(s.len());
+        let mut buf: Vec<u8> = Vec::with_capacity(s.len());
         let mut error = false;
-        unescape_str_or_byte_str(s, Mode::Str, &mut |_, unescaped_char| {
+        unescape_str_or_byte_str(s, Mode::Str, &mut |range, unescaped_char| {
             match unescaped_char {
-                Ok(c) => buf.push(c),
-                Err(e) => {
-                    error = true;
-                    buf = format!("<Lexer error: string: {e:?}>");
+                Ok(c) => buf.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
+                Err(EscapeError::OutOfRangeHexEscape) => {
+                    match u8::from_str_radix(&s[range][2..], 16) {
+                        Ok(byte) => buf.push(byte),
+                        Err(_) => error = true,
+                    }
                 }
+                Err(_) => error = true,
             };
         });
-        buf
+        if error {
+            return Err("invalid escape in string literal");
+        }
+        String::from_utf8(buf).map_err(|_| "string literal is not UTF-8")
     } else {
-        s.to_string()
+        Ok(s.to_string())
     }
 }
 
-- 
2.43.0


From ecd6f14183ca6fd0b944c2996d63ecb8b0e1b95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 34/56] fix: any white space may stand between data and the
 name of a segment

---
 src/yul.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 4214317..85dd149 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -234,7 +234,7 @@ pub HexNumberInner: String = <s:r"0x[0-9a-fA-F]+"> => String::from(s);
 
 pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches("hex").trim_matches('\"').to_string();
 
-pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
+pub DataSegmentWithNameInner: String =  <s:r#"data[ \t\r\n\f]+"[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim().trim_matches('\"').to_string();
 
 pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> =>? {
     // drop the `\ \` gaps, but not the white space between two escaped backslashes
-- 
2.43.0


From 14348df157e33cdaf8693c7d4daa0f48bdff0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 35/56] fix: the backslash closing a string gap does not escape
 the quote after it in comment removal

---
 src/yul2ir/utils.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 9bbfbc5..75f821d 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -375,10 +375,19 @@ pub fn remove_comments(code: &str) -> String {
                 result.push(c);
             }
             '\\' if string_char.is_some() => {
-                // An escaped quote does not end the string
+                // An escaped quote does not end the string, nor does the backslash that
+                // closes a gap escape the character after it
                 result.push(c);
                 if let Some(escaped) = chars.next() {
                     result.push(escaped);
+                    if escaped.is_ascii_whitespace() {
+                        for c in chars.by_ref() {
+                            result.push(c);
+                            if !c.is_ascii_whitespace() {
+                                break;
+                            }
+                        }
+                    }
                 }
             }
             '/' if string_char.is_none() && chars.peek() == Some(&'/') => {
-- 
2.43.0


From bbac3adc887e83c0471bf81d084069c72fcb524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 36/56] fix: a call with fewer arguments than the function has
 parameters is rejected

---
 src/yul2ir/transform.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index d04e6b4..336e7da 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -818,6 +818,16 @@ impl<'a> Yul2IRContext<'a> {
             })?
             .clone();
 
+        let param_count = infered_yul_func_ty.params_inkwell_type.len();
+        if func_call.arguments.len() != param_count {
+            return Err(ASTLoweringError::BuilderError(format!(
+                "Function '{}' expects {} arguments, but got {}",
+                func_name,
+                param_count,
+                func_call.arguments.len()
+            )));
+        }
+
         let mut call_args = vec![];
         // Yul evaluates the last argument first
         for (i, arg) in func_call.arguments.iter().enumerate().rev() {
-- 
2.43.0


From 8d773cbee5772f2b6bb2a40c0bb908ad81438e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 37/56] fix: a missing output directory is created before it is
 resolved

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a7c5bd4..d0fec44 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,10 +146,10 @@ fn main() {
     } else {
         output_dir
     };
-    let output_dir = output_dir.canonicalize().unwrap();
     if !output_dir.exists() {
-        fs::create_dir_all(&output_dir).unwrap();
+        fs::create_dir_all(output_dir).unwrap();
     }
+    let output_dir = output_dir.canonicalize().unwrap();
 
     opts.output_dir = output_dir.to_str().unwrap_or(".").to_string();
 
-- 
2.43.0


From e237e47510875044d2b3650ae869e74b23bb2547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 38/56] fix: a code offset of 2^31 and more that is no address
 is behind the end of the code

---
 stdlib/chain.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index ce2c345..14b7f83 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -264,13 +264,17 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
   // memory addresses relative to evm_memory_begin offset, so dataoffset returns
   // a 32-bit negative number, indicating it's part of the contract bytecode
 
-  // an offset that is too large for any code is passed as -1
+  // an offset that is too large for any code is passed as -1, and one that is
+  // no address of the linear memory is too large for any code as well
   if (evm_memory_offset < 0 && evm_memory_offset != -1) {
     // Copy from EVM contract bytecode, actually copying from WASM data segment
     // (linear memory) e.g. for codecopy(xxx, dataoffset(xxx), xxx)
-    uint8_t *src_ptr = evm_get_memory_addr(evm_memory_offset);
-    memcpy(target_mem_ptr, src_ptr, size);
-    return;
+    uint32_t distance = 0u - (uint32_t)evm_memory_offset;
+    if (distance <= (uint32_t)evm_get_memory_addr(0)) {
+      uint8_t *src_ptr = evm_get_memory_addr(evm_memory_offset);
+      memcpy(target_mem_ptr, src_ptr, size);
+      return;
+    }
   }
 
   code_copy_padded(target_mem_ptr, evm_memory_offset, size);
-- 
2.43.0


From 60bf07e7b798b05bd7ced6ae64d314e85e91446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 39/56] fix: a block number or an amount of gas of 2^64 and
 more is not taken modulo 2^64

---
 src/yul2ir/context.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 749fd44..8cf7514 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -870,24 +870,25 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
+    /// Convert to i64, with every value above u64::MAX becoming u64::MAX.
     pub fn try_into_i64(
         &self,
         value: &BasicValueEnum<'ctx>,
     ) -> Result<IntValue<'ctx>, ASTLoweringError> {
-        if value.get_type().is_int_type() {
-            self.int_cast(value.into_int_value(), self.i64_type())
-        } else if self.is_bytes32_value(value) {
-            let u256_value = self.bytes32_as_u256(value)?;
-            self.int_cast(u256_value, self.i64_type())
-        } else if value.is_pointer_value() {
-            // is bytes32 pointer
-            let bytes32_val = self.try_into_bytes32(value)?;
-            self.try_into_i64(&bytes32_val)
-        } else {
-            Err(ASTLoweringError::UnsupportedType(
-                value.get_type().to_string(),
-            ))
+        let value = self.try_into_int(value)?;
+        if value.get_type().get_bit_width() <= 64 {
+            return self.int_cast(value, self.i64_type());
         }
+        let max_value = value.get_type().const_int(u64::MAX, false);
+        let too_large =
+            self.builder
+                .borrow_mut()
+                .build_int_compare(IntPredicate::UGT, value, max_value, "")?;
+        let saturated = self
+            .builder
+            .borrow_mut()
+            .build_select(too_large, max_value, value, "")?;
+        self.int_cast(saturated.into_int_value(), self.i64_type())
     }
 
     /// Convert a memory offset or length to i32. One that is too large becomes u32::MAX, which
-- 
2.43.0


From 9e0aba75c9977ff75fabe55126275f57a257974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 40/56] fix: abi_encode.py accepts arrays of integers and empty
 arrays

---
 examples/scripts/abi_encode.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index 998f64b..1148a6e 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -22,15 +22,16 @@ def parse_signature(sig):
 
 def convert_param(param, param_type):
     # Convert string parameters to appropriate Python types
-    if param_type.startswith('uint') or param_type.startswith('int'):
+    if param_type.endswith('[]'):
+        # Convert comma-separated string to list for dynamic arrays
+        elements = param.split(',') if param.strip() else []
+        return [convert_param(p.strip(), param_type[:-2]) for p in elements]
+    elif param_type.startswith('uint') or param_type.startswith('int'):
         return int(param)
     elif param_type == 'address':
         return remove_0x_prefix(param)
     elif param_type == 'bool':
         return param.lower() == 'true'
-    elif param_type.endswith('[]'):
-        # Convert comma-separated string to list for dynamic arrays
-        return [convert_param(p.strip(), param_type[:-2]) for p in param.split(',')]
     return param
 
 def main():
-- 
2.43.0


From 4ab003f657e6f5b3293654f79de9fa26e31c5eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 41/56] fix: abi_encode.py rejects a bool that is neither true
 nor false

---
 examples/scripts/abi_encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index 1148a6e..3ac36da 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -31,6 +31,8 @@ def convert_param(param, param_type):
     elif param_type == 'address':
         return remove_0x_prefix(param)
     elif param_type == 'bool':
+        if param.lower() not in ('true', 'false'):
+            raise ValueError(f"Invalid bool: {param}")
         return param.lower() == 'true'
     return param
 
-- 
2.43.0


From 4ac83144565e6403f7d84290c3e9336dbde7dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 42/56] fix: abi_encode.py takes the selector of uint and int
 from their full names and rejects an unclosed signature

---
 examples/scripts/abi_encode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index 3ac36da..5ceec9a 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -6,13 +6,14 @@
 import sys
 import argparse
 from eth_abi import encode
+from eth_abi.grammar import normalize
 from eth_utils import function_signature_to_4byte_selector, to_hex
 from eth_utils.hexadecimal import remove_0x_prefix
 
 def parse_signature(sig):
     # Extract function name and param types from signature like "transfer(address,uint256)"
     name_end = sig.find('(')
-    if name_end == -1:
+    if name_end == -1 or not sig.endswith(')'):
         raise ValueError("Invalid function signature")
     
     name = sig[:name_end]
@@ -64,8 +65,9 @@ Examples:
         # Convert parameters to appropriate types
         converted_params = [convert_param(p, t) for p, t in zip(args.params, param_types)]
         
-        # Get function selector
-        selector = function_signature_to_4byte_selector(args.signature)
+        # Get function selector, of the signature with uint and int written in full
+        canonical_types = ','.join(normalize(t) for t in param_types)
+        selector = function_signature_to_4byte_selector(f"{func_name}({canonical_types})")
         
         # Encode parameters
         encoded_params = encode(param_types, converted_params)
-- 
2.43.0


From f8538ae330564450522c90633a7736712f67c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 43/56] fix: a data segment of several literals holds all of
 their bytes

---
 src/yul2ir/transform.rs | 56 +++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 336e7da..c62c256 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1456,6 +1456,7 @@ impl<'a> Yul2IRContext<'a> {
                 }
                 InnerSegment::Data(data_segment_name, data_literals) => {
                     // Compile data segments from object inner_segments into LLVM global constants
+                    let mut data_bytes: Vec<u8> = vec![];
                     for data_literal in data_literals {
                         match data_literal {
                             ast::DataLiteral::HexLiteral(hex_literal) => {
@@ -1463,47 +1464,30 @@ impl<'a> Yul2IRContext<'a> {
                                 if hex_literal.len() % 2 != 0 {
                                     bytes.push('0');
                                 }
-                                let data_bytes = hex::decode(bytes).unwrap();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(&data_bytes);
-
-                                let data_segment_qualified_name =
-                                    &format!("{}.{}", object.name, data_segment_name);
-                                let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
-                                    data_segment_qualified_name,
-                                );
-
-                                self.global_bytes_lengths.borrow_mut().insert(
-                                    data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
-                                );
-                                self.global_bytes_values
-                                    .borrow_mut()
-                                    .insert(data_segment_qualified_name.to_string(), global_var);
+                                data_bytes.extend(hex::decode(bytes).unwrap());
                             }
                             ast::DataLiteral::StringLiteral(string_literal) => {
-                                let data_bytes = string_literal.as_bytes();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(data_bytes);
-
-                                let data_segment_qualified_name =
-                                    &format!("{}.{}", object.name, data_segment_name);
-                                let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
-                                    data_segment_qualified_name,
-                                );
-
-                                self.global_bytes_lengths.borrow_mut().insert(
-                                    data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
-                                );
-                                self.global_bytes_values
-                                    .borrow_mut()
-                                    .insert(data_segment_qualified_name.to_string(), global_var);
+                                data_bytes.extend_from_slice(string_literal.as_bytes());
                             }
                         }
                     }
+                    let data_bytes_with_length_prefix =
+                        merge_sub_wasm_with_length_prefix(&data_bytes);
+
+                    let data_segment_qualified_name =
+                        &format!("{}.{}", object.name, data_segment_name);
+                    let global_var = self.add_global_constant_bytes32(
+                        &data_bytes_with_length_prefix,
+                        data_segment_qualified_name,
+                    );
+
+                    self.global_bytes_lengths.borrow_mut().insert(
+                        data_segment_qualified_name.to_string(),
+                        data_bytes_with_length_prefix.len(),
+                    );
+                    self.global_bytes_values
+                        .borrow_mut()
+                        .insert(data_segment_qualified_name.to_string(), global_var);
                 }
             }
         }
-- 
2.43.0


From 359708b4fd3c4a1a940288627f6c1251156ecbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 44/56] fix: a function of the contract may be named init

---
 src/yul2ir/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index c62c256..ded2100 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1614,7 +1614,8 @@ impl<'a> Yul2IRContext<'a> {
     fn transform_init_func(&self, object: &Object) -> (CompileFunctionResult<'a>, String) {
         let module_name = self.current_module_name.borrow().clone();
         let contract_name = self.current_contract_name.borrow().clone();
-        let qualifier_func_name = format!("{}.{}.init", module_name, contract_name,);
+        // The angle brackets keep it apart from a function of the contract with the name init
+        let qualifier_func_name = format!("{}.{}.<init>", module_name, contract_name,);
 
         let params_meta_types: Vec<BasicMetadataTypeEnum<'a>> = vec![];
         let func_ty: FunctionType<'a> = self
-- 
2.43.0


From 5e5c9cf5ac695746f3f98fcc5d53cfa28ca98efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 45/56] fix: an unused variable holding a linker symbol outside
 functions needs no address

---
 src/yul2ir/transform.rs | 1 +
 src/yul2ir/usage.rs     | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index ded2100..d4b496b 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1641,6 +1641,7 @@ impl<'a> Yul2IRContext<'a> {
 
         let _scope_guard = ScopeGuard::new(self);
 
+        self.analyze_init_usage(&qualifier_func_name, &object.code);
         for stmt in &object.code.statements {
             if let Err(err) = self.walk_stmt(&qualifier_func_name, stmt) {
                 return (Err(err), qualifier_func_name);
diff --git a/src/yul2ir/usage.rs b/src/yul2ir/usage.rs
index 021500e..b1b56cb 100644
--- a/src/yul2ir/usage.rs
+++ b/src/yul2ir/usage.rs
@@ -122,6 +122,15 @@ impl<'a> Yul2IRContext<'a> {
             .insert(func_qualifier, usage_map.clone());
     }
 
+    /// Usage of the variables outside of functions, the body of a function does not see them
+    pub fn analyze_init_usage(&self, func_qualifier: &str, code: &Block) {
+        let mut usage_map = HashMap::new();
+        self.analyze_block_usage(code, &mut usage_map);
+        self.variable_usage
+            .borrow_mut()
+            .insert(func_qualifier.to_string(), usage_map);
+    }
+
     #[allow(unused)]
     pub fn get_variable_usage(
         &self,
-- 
2.43.0


From 570a6c04295b523c30780947eecb07d705659111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 46/56] Revert "fix: prevrandao keeps all 32 bytes and writes
 nothing behind them"

This reverts commit c7415247a896469072495558b556407cd01b1233.
---
 stdlib/chain.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 14b7f83..9e877d0 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -184,7 +184,8 @@ void wrapper_block_coin_base(bytes32 *result) {
 }
 
 void wrapper_block_prevRandao(bytes32 *result) {
-  getBlockPrevRandao((ADDRESS_UINT)result); // 32 bytes
+  getBlockPrevRandao(12 + (ADDRESS_UINT)result); // 32 bytes
+  clear_first_12_bytes(result);
 }
 
 void wrapper_callvalue(uint256_t *result) {
-- 
2.43.0


From a1f1c895d5c0791eecbaf0bea55fccce97f89587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 47/56] fix: reading prevrandao writes nothing behind the
 result

---
 stdlib/chain.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 9e877d0..9bdf9e7 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -184,7 +184,9 @@ void wrapper_block_coin_base(bytes32 *result) {
 }
 
 void wrapper_block_prevRandao(bytes32 *result) {
-  getBlockPrevRandao(12 + (ADDRESS_UINT)result); // 32 bytes
+  uint8_t prev_randao[sizeof(bytes32)]; // 32 bytes
+  getBlockPrevRandao((ADDRESS_UINT)prev_randao);
+  memcpy((uint8_t *)result + 12, prev_randao, 20);
   clear_first_12_bytes(result);
 }
 
-- 
2.43.0


From b74155577db742e78c6a55c21f8f12fc15c05420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 48/56] Revert "fix: abi_encode.py takes the selector of uint
 and int from their full names and rejects an unclosed signature"

This reverts commit 4ac83144565e6403f7d84290c3e9336dbde7dc14.
---
 examples/scripts/abi_encode.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index 5ceec9a..3ac36da 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -6,14 +6,13 @@
 import sys
 import argparse
 from eth_abi import encode
-from eth_abi.grammar import normalize
 from eth_utils import function_signature_to_4byte_selector, to_hex
 from eth_utils.hexadecimal import remove_0x_prefix
 
 def parse_signature(sig):
     # Extract function name and param types from signature like "transfer(address,uint256)"
     name_end = sig.find('(')
-    if name_end == -1 or not sig.endswith(')'):
+    if name_end == -1:
         raise ValueError("Invalid function signature")
     
     name = sig[:name_end]
@@ -65,9 +64,8 @@ Examples:
         # Convert parameters to appropriate types
         converted_params = [convert_param(p, t) for p, t in zip(args.params, param_types)]
         
-        # Get function selector, of the signature with uint and int written in full
-        canonical_types = ','.join(normalize(t) for t in param_types)
-        selector = function_signature_to_4byte_selector(f"{func_name}({canonical_types})")
+        # Get function selector
+        selector = function_signature_to_4byte_selector(args.signature)
         
         # Encode parameters
         encoded_params = encode(param_types, converted_params)
-- 
2.43.0


From eddfefe372b655612a0455d6620b005b2077bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 49/56] Revert "fix: abi_encode.py rejects a bool that is
 neither true nor false"

This reverts commit 4ab003f657e6f5b3293654f79de9fa26e31c5eb4.
---
 examples/scripts/abi_encode.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index 3ac36da..1148a6e 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -31,8 +31,6 @@ def convert_param(param, param_type):
     elif param_type == 'address':
         return remove_0x_prefix(param)
     elif param_type == 'bool':
-        if param.lower() not in ('true', 'false'):
-            raise ValueError(f"Invalid bool: {param}")
         return param.lower() == 'true'
     return param
 
-- 
2.43.0


From 7c7175ad48093b47bbf42fce6d904f2d0c46e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 50/56] Revert "fix: abi_encode.py accepts arrays of integers
 and empty arrays"

This reverts commit 9e0aba75c9977ff75fabe55126275f57a257974d.
---
 examples/scripts/abi_encode.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index 1148a6e..998f64b 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -22,16 +22,15 @@ def parse_signature(sig):
 
 def convert_param(param, param_type):
     # Convert string parameters to appropriate Python types
-    if param_type.endswith('[]'):
-        # Convert comma-separated string to list for dynamic arrays
-        elements = param.split(',') if param.strip() else []
-        return [convert_param(p.strip(), param_type[:-2]) for p in elements]
-    elif param_type.startswith('uint') or param_type.startswith('int'):
+    if param_type.startswith('uint') or param_type.startswith('int'):
         return int(param)
     elif param_type == 'address':
         return remove_0x_prefix(param)
     elif param_type == 'bool':
         return param.lower() == 'true'
+    elif param_type.endswith('[]'):
+        # Convert comma-separated string to list for dynamic arrays
+        return [convert_param(p.strip(), param_type[:-2]) for p in param.split(',')]
     return param
 
 def main():
-- 
2.43.0


From e52eff11e2edb8051f72a8f7b255992f6301fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 51/56] fix: LLVM passes that leave the module as it is are no
 failure

---
 src/yul2ir/context.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 8cf7514..3f42533 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -237,19 +237,8 @@ impl<'ctx> Yul2IRContext<'ctx> {
         // Populate the module pass manager with the passes configured in the pass manager builder
         pass_manager_builder.populate_module_pass_manager(&mpm);
 
-        if !(mpm.run_on(&self.llvm_module.borrow_mut())) {
-            if self.opts.verbose {
-                let output_dir = &self.opts.output_dir;
-                // Output the LLVM IR file in case of an error
-                let ll_filepath = &format!("{output_dir}/error.out.ll");
-
-                self.llvm_module
-                    .borrow()
-                    .print_to_file(ll_filepath)
-                    .unwrap();
-            }
-            panic!("Failed to run llvm passes: ");
-        }
+        // This yields whether the passes changed the module, not whether they succeeded
+        mpm.run_on(&self.llvm_module.borrow_mut());
     }
 
     fn emit_code(&mut self, output_basename: &str) -> Result<String, Box<dyn Error>> {
-- 
2.43.0


From 52d9bd0019761b175b5523f2593d5a90c6ceedda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 52/56] fix: an identifier may start with a dollar sign

---
 src/yul.lalrpop         | 2 +-
 src/yul2ir/transform.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 85dd149..29307c1 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -226,7 +226,7 @@ pub Identifier: ast::Identifier = {
     }
 }
 
-pub Name: String = <s:r"[a-zA-Z_][a-zA-Z_0-9.$]*"> => String::from(s);
+pub Name: String = <s:r"[a-zA-Z_$][a-zA-Z_0-9.$]*"> => String::from(s);
 
 pub DecimalNumberInner: String = <s:r"[0-9]+"> => String::from(s);
 
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index d4b496b..86a0296 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -24,7 +24,7 @@ use inkwell::values::{BasicValue, BasicValueEnum, FunctionValue, IntValue, Point
 
 use super::yul_instruction::{YulLowLevelFunctionType, YulLowLevelValue, YulLowLevelValueType};
 
-pub const UNIFIED_REVERT_ERROR_ZERO: &str = "$unified_revert_error_zero";
+pub const UNIFIED_REVERT_ERROR_ZERO: &str = "#unified_revert_error_zero";
 
 /// Checks if an object contains any sub-contracts.
 /// A sub-contract is defined as any nested object that is not a deployed contract
-- 
2.43.0


From d93bf9789a1c65eb9f3b0819fc2ed5e28cc437e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 53/56] fix: storing a constant as the free memory pointer sets
 what mload(64) reads

---
 src/yul2ir/instruction.rs | 118 +++++++++++++++++++-------------------
 1 file changed, 59 insertions(+), 59 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index e79f9e0..352186a 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -310,6 +310,65 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
+        // Optimize mstore(64, value) and mload(64) operations to use wasm global variables
+        if self.opts.enable_all_optimizers {
+            if matches!(instr, YulInstructionName::MStore) && args_exprs.len() == 2 {
+                if let Some(offset_constant) =
+                    self.fetch_not_string_literal_constant(&args_exprs[0])
+                {
+                    if offset_constant == U256::from(64) {
+                        // mstore(64, value)
+                        // call wrapper_set_memptr_global(value)
+                        let value_expr = args_exprs[1].clone();
+                        let value = self
+                            .walk_expr_with_type(yul_func_name, &value_expr, ExpectedType::I32)
+                            .unwrap();
+                        let value = self.try_into_i32_value(&value.value, &value_expr).unwrap();
+                        self.build_void_call("wrapper_set_memptr_global", &[value.into()])
+                            .unwrap();
+
+                        // let memptr_global = self.memptr_global.borrow().unwrap();
+                        // self.build_store(
+                        //     memptr_global.as_pointer_value(),
+                        //     value.as_basic_value_enum(),
+                        // )
+                        // .unwrap();
+
+                        return (
+                            Some(YulLowLevelValue {
+                                value_type: YulLowLevelValueType::I32,
+                                value: self.i32_type().const_zero().into(),
+                            }),
+                            None,
+                        );
+                    }
+                }
+            }
+            if matches!(instr, YulInstructionName::MLoad) && args_exprs.len() == 1 {
+                if let Some(offset_constant) =
+                    self.fetch_not_string_literal_constant(&args_exprs[0])
+                {
+                    if offset_constant == U256::from(64) {
+                        // mload(64)
+                        // call wrapper_get_memptr_global()
+                        let result = self.build_call("wrapper_get_memptr_global", &[]).unwrap();
+
+                        // let memptr_global = self.memptr_global.borrow().unwrap();
+                        // let result = self
+                        //     .build_load(self.i32_type(), memptr_global.as_pointer_value(), "")
+                        //     .unwrap();
+                        return (
+                            Some(YulLowLevelValue {
+                                value_type: YulLowLevelValueType::I32,
+                                value: result,
+                            }),
+                            None,
+                        );
+                    }
+                }
+            }
+        }
+
         // optimize for mstore(offset, constant_value)
         if matches!(instr, YulInstructionName::MStore) && args_exprs.len() == 2 {
             let offset = &args_exprs[0].clone();
@@ -451,65 +510,6 @@ impl<'a> Yul2IRContext<'a> {
             return (None, Some(args));
         }
 
-        // Optimize mstore(64, value) and mload(64) operations to use wasm global variables
-        if self.opts.enable_all_optimizers {
-            if matches!(instr, YulInstructionName::MStore) && args_exprs.len() == 2 {
-                if let Some(offset_constant) =
-                    self.fetch_not_string_literal_constant(&args_exprs[0])
-                {
-                    if offset_constant == U256::from(64) {
-                        // mstore(64, value)
-                        // call wrapper_set_memptr_global(value)
-                        let value_expr = args_exprs[1].clone();
-                        let value = self
-                            .walk_expr_with_type(yul_func_name, &value_expr, ExpectedType::I32)
-                            .unwrap();
-                        let value = self.try_into_i32_value(&value.value, &value_expr).unwrap();
-                        self.build_void_call("wrapper_set_memptr_global", &[value.into()])
-                            .unwrap();
-
-                        // let memptr_global = self.memptr_global.borrow().unwrap();
-                        // self.build_store(
-                        //     memptr_global.as_pointer_value(),
-                        //     value.as_basic_value_enum(),
-                        // )
-                        // .unwrap();
-
-                        return (
-                            Some(YulLowLevelValue {
-                                value_type: YulLowLevelValueType::I32,
-                                value: self.i32_type().const_zero().into(),
-                            }),
-                            None,
-                        );
-                    }
-                }
-            }
-            if matches!(instr, YulInstructionName::MLoad) && args_exprs.len() == 1 {
-                if let Some(offset_constant) =
-                    self.fetch_not_string_literal_constant(&args_exprs[0])
-                {
-                    if offset_constant == U256::from(64) {
-                        // mload(64)
-                        // call wrapper_get_memptr_global()
-                        let result = self.build_call("wrapper_get_memptr_global", &[]).unwrap();
-
-                        // let memptr_global = self.memptr_global.borrow().unwrap();
-                        // let result = self
-                        //     .build_load(self.i32_type(), memptr_global.as_pointer_value(), "")
-                        //     .unwrap();
-                        return (
-                            Some(YulLowLevelValue {
-                                value_type: YulLowLevelValueType::I32,
-                                value: result,
-                            }),
-                            None,
-                        );
-                    }
-                }
-            }
-        }
-
         (None, None)
     }
 
-- 
2.43.0


From 2eeab6fe54a997e63f3505569f661786213f6b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 54/56] fix: in an address decoder only the check of the
 decoded address is taken as passed

---
 src/yul2ir/context.rs     | 12 ++++++++++++
 src/yul2ir/instruction.rs |  6 +++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 3f42533..5a990b3 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -686,6 +686,18 @@ impl<'ctx> Yul2IRContext<'ctx> {
         None
     }
 
+    /// Helper function to match the address check pattern: eq(value, and(value, sub(shl(160, 1), 1)))
+    pub fn matches_address_check_pattern(&self, expr: &Expression) -> bool {
+        if let Some(eq_args) = self.matches_yul_instruction(expr, "eq", 2) {
+            if let (Expression::Identifier(value), Some(Expression::Identifier(masked_value))) =
+                (&eq_args[0], self.matches_address_mask_pattern(&eq_args[1]))
+            {
+                return value.name == masked_value.name;
+            }
+        }
+        false
+    }
+
     pub fn add_global_constant_bytes32(
         &self,
         value: &[u8],
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 352186a..412ebc6 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -429,7 +429,11 @@ impl<'a> Yul2IRContext<'a> {
             || yul_func_name.contains("abi_decode_t_address")
         {
             // TODO: Since abi_decode_address only uses the last 20 bytes of the address, we can simply return false for the iszero check
-            if let YulInstructionName::IsZero = instr {
+            if matches!(instr, YulInstructionName::IsZero)
+                && args_exprs
+                    .first()
+                    .is_some_and(|arg| self.matches_address_check_pattern(arg))
+            {
                 return (
                     Some(YulLowLevelValue {
                         value_type: YulLowLevelValueType::I32,
-- 
2.43.0


From fc69b941ec651658aec033bd0e14f4168cd34247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 55/56] fix: the optimized ERC20 transfer only replaces a
 routine that does what it does

---
 src/yul2ir/transform.rs | 71 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 70 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 86a0296..46c4d61 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1249,7 +1249,76 @@ impl<'a> Yul2IRContext<'a> {
         if self.matches_function_call(&stmts[17], "log3", 5).is_none() {
             return false;
         }
-        true
+        // The C implementation uses the mapping at slot 0, moves the value without overflow checks,
+        // emits the standard event and returns nothing, so it only stands for functions doing just that
+        let data_slot = match self.matches_single_declare_instruction(&stmts[13]) {
+            Some((data_slot, _)) => data_slot,
+            None => return false,
+        };
+        let var_8 = match self.matches_single_declare_instruction(&stmts[15]) {
+            Some((var_8, _)) => var_8,
+            None => return false,
+        };
+        let (from, to, value) = (&_param0_iden, &_param1_iden, &_param2_iden);
+        let transfer_event = ethereum_types::U256::from_str_radix(
+            "ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef",
+            16,
+        )
+        .unwrap();
+        function.returns.is_empty()
+            && stmts.iter().map(|stmt| self.canonical_stmt(stmt)).eq([
+                "let _1 := sub(shl(160,1),1)".to_string(),
+                format!("let _2 := and({from},_1)"),
+                "if iszero(_2)".to_string(),
+                format!("let _4 := and({to},_1)"),
+                "if iszero(_4)".to_string(),
+                "mstore(0,_2)".to_string(),
+                "mstore(32,0)".to_string(),
+                "let _6 := sload(keccak256(0,64))".to_string(),
+                format!("if lt(_6,{value})"),
+                "mstore(0,_2)".to_string(),
+                "mstore(32,0)".to_string(),
+                format!("sstore(keccak256(0,64),sub(_6,{value}))"),
+                "mstore(0,_4)".to_string(),
+                format!("let {data_slot} := keccak256(0,64)"),
+                format!("sstore({data_slot},add(sload({data_slot}),{value}))"),
+                format!("let {var_8} := mload(64)"),
+                format!("mstore({var_8},{value})"),
+                format!("log3({var_8},32,{transfer_event},_2,_4)"),
+            ])
+    }
+
+    /// The statement without the body of an if, its constants in decimal
+    fn canonical_stmt(&self, stmt: &Statement) -> String {
+        if let Some((name, value)) = self.matches_single_declare_instruction(stmt) {
+            return format!("let {} := {}", name, self.canonical_expr(&value));
+        }
+        match stmt {
+            Statement::If(if_stmt) => format!("if {}", self.canonical_expr(&if_stmt.cond)),
+            Statement::FunctionCall(func_call) => {
+                self.canonical_expr(&Expression::FunctionCall(func_call.clone()))
+            }
+            _ => String::new(),
+        }
+    }
+
+    /// The expression with its constants in decimal
+    fn canonical_expr(&self, expr: &Expression) -> String {
+        if let Some(constant) = self.fetch_not_string_literal_constant(expr) {
+            return constant.to_string();
+        }
+        match expr {
+            Expression::Identifier(id) => id.name.clone(),
+            Expression::FunctionCall(func_call) => {
+                let args: Vec<String> = func_call
+                    .arguments
+                    .iter()
+                    .map(|arg| self.canonical_expr(arg))
+                    .collect();
+                format!("{}({})", func_call.id.name, args.join(","))
+            }
+            Expression::Literal(literal) => format!("{:?}", literal),
+        }
     }
 
     fn transform_func_llvm_ty(
-- 
2.43.0


From 7e73d3a53b05c5d2005ed4c54f9e31eaeda0354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 56/56] fix: a parameter passed as a bytes32 pointer is a
 variable of its own

An assignment to such a parameter stored the pointer of the assigned value, so
the parameter followed later changes of the variable it was assigned from.
---
 src/yul2ir/transform.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 46c4d61..28cc9af 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1777,8 +1777,14 @@ impl<'a> Yul2IRContext<'a> {
         // Declare parameter variables
         for (i, param) in function.params.iter().enumerate() {
             let param_name = &param.identifier.name.clone();
-            let param_ty = infered_yul_func_ty.params_inkwell_type[i];
-            let param_low_level_value_type = infered_yul_func_ty.params[i];
+            let (param_ty, param_low_level_value_type) = match infered_yul_func_ty.params[i] {
+                // The value is copied, an assignment must not make the parameter share the buffer of another value
+                YulLowLevelValueType::Bytes32Pointer => (
+                    self.bytes32_type().as_basic_type_enum(),
+                    YulLowLevelValueType::Bytes32,
+                ),
+                value_type => (infered_yul_func_ty.params_inkwell_type[i], value_type),
+            };
             let param_var_pointer = self.fast_alloca(param_ty, param_name)?;
             // Store the parameter value in this variable
             let param_value = func_value.get_nth_param(i as u32).unwrap();
-- 
2.43.0

