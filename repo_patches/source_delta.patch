From 282f4909fa2f1f94f546712d529f7b1f616f3005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 1/2] fix: legacy x86 compare_exchange clobbers ch without
 telling the compiler

The 16-bit and wider variants load the new value into cx/ecx/rcx, but only cl
was declared as an output. On 32-bit x86 the compiler may keep an unrelated
live value in ch, which was then overwritten.
---
 src/arch_legacy/x86.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arch_legacy/x86.rs b/src/arch_legacy/x86.rs
index bf1b920..d5075f6 100644
--- a/src/arch_legacy/x86.rs
+++ b/src/arch_legacy/x86.rs
@@ -186,7 +186,7 @@ macro_rules! atomic {
                 //
                 // Refs: https://www.felixcloutier.com/x86/cmpxchg
                 unsafe {
-                    let mut r: u8;
+                    let mut r: u32;
                     // compare_exchange is always SeqCst.
                     asm!(
                         // load from old/new to $cmpxchg_cmp_reg/$tmp_new_reg
@@ -205,11 +205,13 @@ macro_rules! atomic {
                         old = in(reg) old,
                         new = in(reg) new,
                         out = in(reg) out_ptr,
-                        out("cl") r,
+                        // Not cl, because $tmp_new_reg may also include ch.
+                        out("ecx") r,
                         out($cmpxchg_cmp_reg) _,
                         // Do not use `preserves_flags` because CMPXCHG modifies the ZF flag.
                         options(nostack),
                     );
+                    let r = r.to_ne_bytes()[0];
                     crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
                     (out, r != 0)
                 }
-- 
2.43.0


From 2e096054ef4fed5056a57b3b81973fffad048f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 2/2] fix: 32-bit compare_exchange on RV64, MIPS64 and
 LoongArch64 compares undefined upper register bits

The upper bits of an asm! input register wider than its value are undefined,
but lr.w/ll/ll.w sign-extend the loaded value and bne compares whole registers.
Truncating a 64-bit value for the comparison could therefore make a strong
compare_exchange fail although the stored value is equal to the expected one.
Sign-extend the expected value first.
---
 src/arch/loongarch.rs | 21 ++++++++++++++++++++-
 src/arch/mips.rs      | 21 ++++++++++++++++++++-
 src/arch/riscv.rs     | 22 +++++++++++++++++++++-
 3 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/src/arch/loongarch.rs b/src/arch/loongarch.rs
index e8fe47f..12ff137 100644
--- a/src/arch/loongarch.rs
+++ b/src/arch/loongarch.rs
@@ -21,6 +21,24 @@ use core::{
 
 use crate::raw::{AtomicCompareExchange, AtomicLoad, AtomicStore, AtomicSwap};
 
+// The upper bits of an input register wider than its value are undefined, but `ll.w` sign-extends
+// the loaded value, so the 32-bit value compared with it must be sign-extended on LoongArch64.
+#[cfg(target_arch = "loongarch32")]
+macro_rules! sign_extend_old {
+    ("w") => {
+        ""
+    };
+}
+#[cfg(target_arch = "loongarch64")]
+macro_rules! sign_extend_old {
+    ("w") => {
+        "slli.w {old}, {old}, 0"
+    };
+    ("d") => {
+        ""
+    };
+}
+
 #[rustfmt::skip]
 macro_rules! atomic_load {
     ($ty:ident, $size:tt) => {
@@ -137,6 +155,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($failure_fence:tt) => {
                             asm!(
+                                sign_extend_old!($size),                       // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("ll.", $size, " {out}, {dst}, 0"), // atomic { out = *dst; LL = dst }
                                     "bne {out}, {old}, 3f",                    // if out != old { jump 'cmp-fail }
@@ -149,7 +168,7 @@ macro_rules! atomic {
                                     "move {tmp}, $zero",                       // tmp = 0
                                 "4:", // 'success:
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 tmp = out(reg) r,
diff --git a/src/arch/mips.rs b/src/arch/mips.rs
index 63bec37..b08e63f 100644
--- a/src/arch/mips.rs
+++ b/src/arch/mips.rs
@@ -34,6 +34,24 @@ macro_rules! atomic_rmw {
     };
 }
 
+// The upper bits of an input register wider than its value are undefined, but `ll` sign-extends
+// the loaded value, so the 32-bit value compared with it must be sign-extended on MIPS64.
+#[cfg(not(any(target_arch = "mips64", target_arch = "mips64r6")))]
+macro_rules! sign_extend_old {
+    ("") => {
+        ""
+    };
+}
+#[cfg(any(target_arch = "mips64", target_arch = "mips64r6"))]
+macro_rules! sign_extend_old {
+    ("") => {
+        "sll {old}, {old}, 0"
+    };
+    ("d") => {
+        ""
+    };
+}
+
 #[rustfmt::skip]
 macro_rules! atomic_load_store {
     ($ty:ident, $size:tt, $l_u_suffix:tt) => {
@@ -168,6 +186,7 @@ macro_rules! atomic {
                             asm!(
                                 ".set push",
                                 ".set noat",
+                                sign_extend_old!($ll_sc_suffix),                      // old = sign_extend(old)
                                 $release,                                             // fence
                                 "2:", // 'retry:
                                     concat!("ll", $ll_sc_suffix, " {out}, 0({dst})"), // atomic { out = *dst; LL = dst }
@@ -182,7 +201,7 @@ macro_rules! atomic {
                                 $acquire,                                             // fence
                                 ".set pop",
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 tmp = out(reg) r,
diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index a7392e2..a64da79 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -57,6 +57,25 @@ macro_rules! w {
         "w"
     };
 }
+// The upper bits of an input register wider than its value are undefined, but `lr.w` sign-extends
+// the loaded value, so the 32-bit value compared with it must be sign-extended on RV64.
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv32")]
+macro_rules! sign_extend_old {
+    ("w") => {
+        ""
+    };
+}
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv64")]
+macro_rules! sign_extend_old {
+    ("w") => {
+        "sext.w {old}, {old}"
+    };
+    ("d") => {
+        ""
+    };
+}
 
 #[cfg(any(
     target_feature = "a",
@@ -227,6 +246,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($acquire:tt, $release:tt) => {
                             asm!(
+                                sign_extend_old!($size),                                      // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("lr.", $size, $acquire, " {out}, 0({dst})"),      // atomic { out = *dst; RS = dst }
                                     "bne {out}, {old}, 3f",                                   // if out != old { jump 'cmp-fail }
@@ -236,7 +256,7 @@ macro_rules! atomic {
                                 "xor {r}, {out}, {old}",                                      // r = out ^ old
                                 "seqz {r}, {r}",                                              // if r == 0 { r = 1 } else { r = 0 }
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 r = out(reg) r,
-- 
2.43.0

