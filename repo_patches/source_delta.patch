From c8af41c8b647a4809f803e656c46c08e0650af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 1/7] fix: Scalar::is_high is strict, (n-1)/2 is not high

---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 91615d2..79c86ac 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -282,7 +282,7 @@ impl Scalar {
         yes |= Choice::from((self.0[2] > SECP256K1_N_H_2) as u8) & !no;
         no |= Choice::from((self.0[1] < SECP256K1_N_H_1) as u8) & !yes;
         yes |= Choice::from((self.0[1] > SECP256K1_N_H_1) as u8) & !no;
-        yes |= Choice::from((self.0[0] >= SECP256K1_N_H_0) as u8) & !no;
+        yes |= Choice::from((self.0[0] > SECP256K1_N_H_0) as u8) & !no;
         yes.into()
     }
 
-- 
2.43.0


From cda562fba38498cc311eab73e5576a95b27b98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:24 +0000
Subject: [PATCH 2/7] fix: print Scalar hex most significant word first

---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 79c86ac..c35238a 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -1022,7 +1022,7 @@ impl<'a> Neg for &'a Scalar {
 
 impl core::fmt::LowerHex for Scalar {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for word in &self.0[..] {
+        for word in self.0.iter().rev() {
             for byte in word.to_be_bytes().iter() {
                 write!(f, "{:02x}", byte)?;
             }
-- 
2.43.0


From 4f5a0b492322135335bf5c5c5934c9af6dedcda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 3/7] fix: DER decoder accepts a zero integer at the end of the
 input

---
 core/src/der.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 7166a30..85a8b51 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek_slice(&self, len: usize) -> Result<&[u8], Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if self.1 + len > self.0.len() {
             Err(Error::InvalidSignature)
         } else {
             let v = &self.0[self.1..(self.1 + len)];
@@ -73,7 +73,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn skip(&mut self, len: usize) -> Result<(), Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if self.1 + len > self.0.len() {
             Err(Error::InvalidSignature)
         } else {
             self.1 += len;
-- 
2.43.0


From d2245c297894c1e2c5ecaf2dd27111e6db19f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 4/7] fix: DER decoder never reads the content of an oversized
 integer as the next element

---
 core/src/der.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/der.rs b/core/src/der.rs
index 85a8b51..5c6fc59 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -178,6 +178,9 @@ impl<'a> Decoder<'a> {
             self.skip(rlen)?;
 
             overflow |= bool::from(int.set_b32(&b32));
+        } else {
+            // Negative or too long. Its content must not be read as the next element.
+            return Err(Error::InvalidSignature);
         }
 
         if overflow {
@@ -257,6 +260,9 @@ impl<'a> Decoder<'a> {
             self.skip(len)?;
 
             overflow |= bool::from(int.set_b32(&b32));
+        } else {
+            // The content must not be read as the next element.
+            self.skip(len)?;
         }
 
         if overflow {
-- 
2.43.0


From b867a5bd8e28837bc82bf105189ad335a49cb1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 5/7] fix: gate the base64 import on std so that no_std
 configurations build

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8b09b0e..3c127a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@
 pub use libsecp256k1_core::*;
 
 use arrayref::{array_mut_ref, array_ref};
+#[cfg(feature = "std")]
 use base64::{engine::Engine as _, prelude::BASE64_STANDARD};
 use core::convert::TryFrom;
 use digest::{generic_array::GenericArray, Digest};
-- 
2.43.0


From 0e09f978dee3461e4ce44e03bdf4680fbe05b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:12 +0000
Subject: [PATCH 6/7] fix: accept empty slices in the batch table conversions

Both conversions computed r.len() - 1 before testing for an empty table,
which overflows (and panics in builds with overflow checks).
---
 core/src/group.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/group.rs b/core/src/group.rs
index e713a62..89b9020 100644
--- a/core/src/group.rs
+++ b/core/src/group.rs
@@ -217,10 +217,10 @@ impl Affine {
 pub fn set_table_gej_var(r: &mut [Affine], a: &[Jacobian], zr: &[Field]) {
     debug_assert!(r.len() == a.len());
 
-    let mut i = r.len() - 1;
     let mut zi: Field;
 
     if !r.is_empty() {
+        let mut i = r.len() - 1;
         zi = a[i].z.inv();
         r[i].set_gej_zinv(&a[i], &zi);
 
@@ -235,10 +235,10 @@ pub fn set_table_gej_var(r: &mut [Affine], a: &[Jacobian], zr: &[Field]) {
 pub fn globalz_set_table_gej(r: &mut [Affine], globalz: &mut Field, a: &[Jacobian], zr: &[Field]) {
     debug_assert!(r.len() == a.len() && a.len() == zr.len());
 
-    let mut i = r.len() - 1;
     let mut zs: Field;
 
     if !r.is_empty() {
+        let mut i = r.len() - 1;
         r[i].x = a[i].x;
         r[i].y = a[i].y;
         *globalz = a[i].z;
-- 
2.43.0


From 2479c90762ecc8b01a96a7c8ced282c8351c9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 7/7] fix: clear field elements with volatile stores

Field::clear, and with it Affine::clear and Jacobian::clear, used plain stores. In an
optimised build they are removed when the value is not used afterwards, so the nonce point
cleared at the end of ECMultGenContext::sign_raw and the table entry cleared at the end of
ecmult_gen stayed in memory. Scalar::clear already uses a volatile write.
---
 core/src/field.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/field.rs b/core/src/field.rs
index 7e1b39f..494e9ac 100644
--- a/core/src/field.rs
+++ b/core/src/field.rs
@@ -521,7 +521,11 @@ impl Field {
     pub fn clear(&mut self) {
         self.magnitude = 0;
         self.normalized = true;
-        self.n = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
+        // Volatile, as in Scalar::clear: a plain store to a value which is not used
+        // afterwards is removed by the optimiser.
+        unsafe {
+            core::ptr::write_volatile(&mut self.n, [0u32; 10]);
+        }
     }
 
     /// Set a field element equal to 32-byte big endian value. If
-- 
2.43.0

