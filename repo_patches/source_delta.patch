From c51a3e83bbcb3af8da3bba171fdc2e7f0b8e3eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 1/2] fix: do not overflow when packing complex matrices with a
 huge unused stride

pack_complex computed 2 * rsa / 2 * csa up front, so in a debug build cgemm and
zgemm panicked for a stride above isize::MAX / 2 on an axis of length 1, where
the stride is never stepped. sgemm and dgemm accept such strides.
---
 src/cgemm_common.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/cgemm_common.rs b/src/cgemm_common.rs
index 59d37d5..e0baf96 100644
--- a/src/cgemm_common.rs
+++ b/src/cgemm_common.rs
@@ -144,9 +144,8 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
           TReal: Element,
 {
     // use pointers as pointer to TReal
+    // (Offset `a` in units of T; `2 * rsa` could overflow for a stride that's never stepped.)
     let pack = pack.as_mut_ptr() as *mut TReal;
-    let areal = a as *const TReal;
-    let aimag = areal.add(1);
 
     assert_eq!(mem::size_of::<T>(), 2 * mem::size_of::<TReal>());
 
@@ -159,15 +158,15 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
         for j in 0..kc {
             // real row
             for i in 0..mr {
-                let a_elt = areal.stride_offset(2 * rsa, i + row_offset)
-                                 .stride_offset(2 * csa, j);
+                let a_elt = a.stride_offset(rsa, i + row_offset)
+                             .stride_offset(csa, j) as *const TReal;
                 copy_nonoverlapping(a_elt, pack.add(p), 1);
                 p += 1;
             }
             // imag row
             for i in 0..mr {
-                let a_elt = aimag.stride_offset(2 * rsa, i + row_offset)
-                                 .stride_offset(2 * csa, j);
+                let a_elt = (a.stride_offset(rsa, i + row_offset)
+                              .stride_offset(csa, j) as *const TReal).add(1);
                 copy_nonoverlapping(a_elt, pack.add(p), 1);
                 p += 1;
             }
@@ -184,8 +183,8 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
             // real row
             for i in 0..mr {
                 if i < rest {
-                    let a_elt = areal.stride_offset(2 * rsa, i + row_offset)
-                                     .stride_offset(2 * csa, j);
+                    let a_elt = a.stride_offset(rsa, i + row_offset)
+                                 .stride_offset(csa, j) as *const TReal;
                     copy_nonoverlapping(a_elt, pack.add(p), 1);
                 } else {
                     *pack.add(p) = zero;
@@ -195,8 +194,8 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
             // imag row
             for i in 0..mr {
                 if i < rest {
-                    let a_elt = aimag.stride_offset(2 * rsa, i + row_offset)
-                                     .stride_offset(2 * csa, j);
+                    let a_elt = (a.stride_offset(rsa, i + row_offset)
+                                  .stride_offset(csa, j) as *const TReal).add(1);
                     copy_nonoverlapping(a_elt, pack.add(p), 1);
                 } else {
                     *pack.add(p) = zero;
-- 
2.43.0


From 876ba2c8958da65b461aac3f067730180492f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 2/2] fix: reject constconf values that do not fit in usize

The constconf parser added the digits up with wrapping arithmetic, so for
example MATMUL_SGEMM_MC=18446744073709551680 (2^64 + 64) was silently taken
as 64 instead of failing the build like any other invalid value.
---
 src/constparse.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/constparse.rs b/src/constparse.rs
index f6de70a..37017ea 100644
--- a/src/constparse.rs
+++ b/src/constparse.rs
@@ -12,6 +12,7 @@
 #[derive(Clone, Copy)]
 pub(crate) enum ParseIntError {
     InvalidDigit,
+    Overflow,
 }
 
 const fn parse_byte(b: u8, pow10: usize) -> Result<usize, ParseIntError> {
@@ -20,7 +21,8 @@ const fn parse_byte(b: u8, pow10: usize) -> Result<usize, ParseIntError> {
     if r > 9 {
         Err(ParseIntError::InvalidDigit)
     } else {
-        Ok((r as usize) * pow10)
+        let (value, overflow) = (r as usize).overflowing_mul(pow10);
+        if overflow { Err(ParseIntError::Overflow) } else { Ok(value) }
     }
 }
 
@@ -78,7 +80,9 @@ pub(crate) const fn parse(b: &str) -> Result<usize, ParseIntError> {
             Ok(d) => d,
         };
 
-        result = result.wrapping_add(r);
+        let (sum, overflow) = result.overflowing_add(r);
+        if overflow { return Err(ParseIntError::Overflow); }
+        result = sum;
 
         index += 1;
         index_const_table += 1;
-- 
2.43.0

