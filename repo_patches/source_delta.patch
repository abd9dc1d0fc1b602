From 07dd2e76c1d6daa02687e8a76e121260bfbf699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 1/7] fix: use InvShiftRows column order in the RV32 decryption
 rounds

aes32dsi/aes32dsmi were fed the columns in the order of ShiftRows, so dec,
dec_last, mc, imc and everything built on them were wrong on riscv32.
---
 src/aes_riscv32.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index fc26a38..77b67f1 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -37,6 +37,13 @@ macro_rules! outer {
             inner($msg.3, $msg.0, $msg.1, $msg.2, $rk.3),
         )
     }};
+    (inv $name:ident, $msg:ident, $rk:ident) => {{
+        // InvShiftRows rotates the rows the other way: swapping columns 1 and 3 on both sides of ShiftRows
+        let msg = AesBlock($msg.0, $msg.3, $msg.2, $msg.1);
+        let rk = AesBlock($rk.0, $rk.3, $rk.2, $rk.1);
+        let out = outer!($name, msg, rk);
+        AesBlock(out.0, out.3, out.2, out.1)
+    }};
 }
 
 impl From<[u8; 16]> for AesBlock {
@@ -146,7 +153,7 @@ impl AesBlock {
 
     #[inline(always)]
     pub(crate) fn pre_dec(self, round_key: Self) -> Self {
-        outer!(aes32dsmi, self, round_key)
+        outer!(inv aes32dsmi, self, round_key)
     }
 
     /// Performs one round of AES decryption function (`InvShiftRows`->`InvSubBytes`->`InvMixColumn`s->`AddRoundKey`)
@@ -157,7 +164,7 @@ impl AesBlock {
 
     #[inline(always)]
     fn pre_dec_last(self, round_key: Self) -> Self {
-        outer!(aes32dsi, self, round_key)
+        outer!(inv aes32dsi, self, round_key)
     }
 
     /// Performs one round of AES decryption function without `InvMixColumn`s (`InvShiftRows`->`InvSubBytes`->`AddRoundKey`)
-- 
2.43.0


From 1c01e96fa8dd7fc562d7bea19c13cce0370ad01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 2/7] fix: apply RotWord in the RV32 key expansion

aes32esi only substitutes; the word must be rotated first wherever FIPS-197
applies RotWord. Every expanded key on riscv32 was wrong.
---
 src/aes_riscv32.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index 77b67f1..e242df2 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -211,7 +211,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3]);
+        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3].rotate_right(8));
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -231,7 +231,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5]);
+        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5].rotate_right(8));
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -239,7 +239,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47]);
+    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47].rotate_right(8));
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -268,7 +268,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55]);
+    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55].rotate_right(8));
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0


From 93391bba3094be5fec30362c16935b331d1a76a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 3/7] fix: do not use the ARM chain formulation on RV32

pre_enc/pre_dec add the round key after the round on riscv32 (aes32esmi xors
into its accumulator) but before it on ARM, so chain_enc and chain_dec, and
with them every cipher, were wrong on riscv32.
---
 src/aes_riscv32.rs |  4 ++--
 src/lib.rs         | 22 ++++++++--------------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index e242df2..86ca582 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -130,7 +130,7 @@ impl AesBlock {
     }
 
     #[inline(always)]
-    pub(crate) fn pre_enc(self, round_key: Self) -> Self {
+    fn pre_enc(self, round_key: Self) -> Self {
         outer!(aes32esmi, self, round_key)
     }
 
@@ -152,7 +152,7 @@ impl AesBlock {
     }
 
     #[inline(always)]
-    pub(crate) fn pre_dec(self, round_key: Self) -> Self {
+    fn pre_dec(self, round_key: Self) -> Self {
         outer!(inv aes32dsmi, self, round_key)
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 7eaf1fe..3d60c91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -331,20 +331,14 @@ fn enc_round_keys<const N: usize>(dec_round_keys: &[AesBlock; N]) -> [AesBlock;
 }
 
 cfg_if! {
-    if #[cfg(any(
-        all(
-            any(
-                target_arch = "aarch64",
-                target_arch = "arm64ec",
-                all(feature = "nightly", target_arch = "arm", target_feature = "v8")
-            ),
-            target_feature = "aes",
-        ), all(
-                feature = "nightly",
-                target_arch = "riscv32",
-                target_feature = "zkne",
-                target_feature = "zknd"
-        )))] {
+    if #[cfg(all(
+        any(
+            target_arch = "aarch64",
+            target_arch = "arm64ec",
+            all(feature = "nightly", target_arch = "arm", target_feature = "v8")
+        ),
+        target_feature = "aes",
+    ))] {
         macro_rules! impl_pre_encdec {
             ($($name:ident),*) => {$(
                 impl $name {
-- 
2.43.0


From 4072257efc3be66d3bb5a6afa79b3d5c58a38cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 4/7] fix: build on big-endian AArch64 with the aes target
 feature

The Neon backend is not selected there, but the chain functions still expected
its pre_enc and pre_dec.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3d60c91..400b7c3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,6 +338,7 @@ cfg_if! {
             all(feature = "nightly", target_arch = "arm", target_feature = "v8")
         ),
         target_feature = "aes",
+        target_endian = "little"
     ))] {
         macro_rules! impl_pre_encdec {
             ($($name:ident),*) => {$(
-- 
2.43.0


From cee46ff385cf9c4a9246ec7cce1d65d534eaef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 5/7] fix: constant-time key expansion on big-endian targets

RotWord and Rcon assumed that the first byte of a word is the least significant
one, so every expanded key of the constant-time implementation was wrong on
big-endian targets.
---
 src/aes_bitslice.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/aes_bitslice.rs b/src/aes_bitslice.rs
index 2dda97a..9ca0982 100644
--- a/src/aes_bitslice.rs
+++ b/src/aes_bitslice.rs
@@ -335,7 +335,28 @@ impl AesBlock {
     }
 }
 
-const RCON: [u32; 10] = [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x1b, 0x36];
+#[inline(always)]
+const fn rot_word(x: u32) -> u32 {
+    // the first byte of a word is its least significant one only on little-endian targets
+    if cfg!(target_endian = "big") {
+        x.rotate_left(8)
+    } else {
+        x.rotate_right(8)
+    }
+}
+
+const RCON: [u32; 10] = [
+    0x01_u32.to_le(),
+    0x02_u32.to_le(),
+    0x04_u32.to_le(),
+    0x08_u32.to_le(),
+    0x10_u32.to_le(),
+    0x20_u32.to_le(),
+    0x40_u32.to_le(),
+    0x80_u32.to_le(),
+    0x1b_u32.to_le(),
+    0x36_u32.to_le(),
+];
 
 pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     let mut expanded_keys: [AesBlock; 11] = unsafe { mem::zeroed() };
@@ -346,7 +367,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = columns[i + 0] ^ sub_word(columns[i + 3]).rotate_right(8) ^ RCON[i / 4];
+        columns[i + 4] = columns[i + 0] ^ rot_word(sub_word(columns[i + 3])) ^ RCON[i / 4];
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -364,7 +385,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = columns[i + 0] ^ sub_word(columns[i + 5]).rotate_right(8) ^ RCON[i / 6];
+        columns[i + 6] = columns[i + 0] ^ rot_word(sub_word(columns[i + 5])) ^ RCON[i / 6];
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -372,7 +393,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = columns[42] ^ sub_word(columns[47]).rotate_right(8) ^ RCON[7];
+    columns[48] = columns[42] ^ rot_word(sub_word(columns[47])) ^ RCON[7];
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -389,7 +410,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
     }
 
     for i in (0..48).step_by(8) {
-        columns[i + 8] = columns[i + 0] ^ sub_word(columns[i + 7]).rotate_right(8) ^ RCON[i / 8];
+        columns[i + 8] = columns[i + 0] ^ rot_word(sub_word(columns[i + 7])) ^ RCON[i / 8];
         columns[i + 9] = columns[i + 1] ^ columns[i + 8];
         columns[i + 10] = columns[i + 2] ^ columns[i + 9];
         columns[i + 11] = columns[i + 3] ^ columns[i + 10];
@@ -399,7 +420,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = columns[48] ^ sub_word(columns[55]).rotate_right(8) ^ RCON[6];
+    columns[56] = columns[48] ^ rot_word(sub_word(columns[55])) ^ RCON[6];
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0


From 7ed76b49fbfe3b4412171cce776836693e26cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 6/7] fix: constant-time xtime without a 128-bit subtraction

Where there is no carry flag (RISC-V 32, for one), the borrow of the
subtraction is computed with a branch on the difference of two state
words, so the constant-time implementation took a path that depended on
the data. Every byte of b is 0x80 or 0, so 0x1b comes from shifts alone.
---
 src/aes_bitslice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aes_bitslice.rs b/src/aes_bitslice.rs
index 9ca0982..284f482 100644
--- a/src/aes_bitslice.rs
+++ b/src/aes_bitslice.rs
@@ -178,7 +178,8 @@ const fn invshiftrows(state: [u8; 16]) -> u128 {
 const fn xtime(a: u128) -> u128 {
     let b = a & rep(0x80);
     let a = a ^ b;
-    let b = b.wrapping_sub(b >> 7) & rep(0x1b);
+    // multiplies by 0x1b without a 128-bit subtraction, whose borrow some 32-bit targets compute with a branch
+    let b = (b >> 3) ^ (b >> 4) ^ (b >> 6) ^ (b >> 7);
     b ^ (a << 1)
 }
 
-- 
2.43.0


From df7b58feb392ce79129934a568b8b959c98ef10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 7/7] fix: RISC-V builds with a current nightly, which has no
 unadjusted ABI

The intrinsics take and return plain integers, for which the C ABI is the same.
---
 src/aes_riscv32.rs | 2 +-
 src/aes_riscv64.rs | 2 +-
 src/lib.rs         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index 86ca582..4baa547 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -6,7 +6,7 @@ use core::{mem, slice};
 #[must_use]
 pub struct AesBlock(u32, u32, u32, u32);
 
-extern "unadjusted" {
+extern "C" {
     #[link_name = "llvm.riscv.aes32esmi"]
     fn aes32esmi(rs1: u32, rs2: u32, bs: u32) -> u32;
     #[link_name = "llvm.riscv.aes32esi"]
diff --git a/src/aes_riscv64.rs b/src/aes_riscv64.rs
index f6e6520..f684ee6 100644
--- a/src/aes_riscv64.rs
+++ b/src/aes_riscv64.rs
@@ -1,7 +1,7 @@
 use core::mem;
 use core::ops::{BitAnd, BitOr, BitXor, Not};
 
-extern "unadjusted" {
+extern "C" {
     #[link_name = "llvm.riscv.aes64esm"]
     fn aes64esm(rs1: u64, rs2: u64) -> u64;
     #[link_name = "llvm.riscv.aes64es"]
diff --git a/src/lib.rs b/src/lib.rs
index 400b7c3..989628d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@
         target_feature = "zkne",
         target_feature = "zknd"
     ),
-    feature(link_llvm_intrinsics, abi_unadjusted)
+    feature(link_llvm_intrinsics)
 )]
 #![allow(
     internal_features,
-- 
2.43.0

