From 9de7346eadf89a4b7b3f21603f11d76a5a8c29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 1/5] fix: let hkdf::expand produce its documented maximum
 output

The block counter was an open u8 range, which steps past 255 once the
254th block has been taken: with overflow checks on, expand panicked for
every okm of at least 254 * DIGEST_SIZE bytes although up to
255 * DIGEST_SIZE bytes are allowed.
---
 src/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hkdf.rs b/src/hkdf.rs
index c5ec08e..839f31b 100644
--- a/src/hkdf.rs
+++ b/src/hkdf.rs
@@ -40,7 +40,7 @@ pub fn expand<H: HashFunction>(prk: &[u8], info: &[u8], okm: &mut [u8]) {
     assert!(digest_size <= prk.len());
     assert!(255 * digest_size >= okm.len());
     let mut hmac: Hmac<H> = Hmac::new(prk);
-    for (i, chunk) in (1..).zip(okm.chunks_mut(digest_size)) {
+    for (i, chunk) in (1..=255).zip(okm.chunks_mut(digest_size)) {
         hmac.update(info);
         hmac.update(&[i]);
         let tag = hmac.tag();
-- 
2.43.0


From 45026347b6396a40fedb676fafc20c7b7581f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 2/5] fix: let GCM process its documented maximum message

A message of 2^32 - 2 blocks uses the counters 2..=u32::MAX, but the open
range steps past u32::MAX when the last one is taken and panics with
overflow checks on.
---
 src/gcm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcm.rs b/src/gcm.rs
index 5136370..6bd954d 100644
--- a/src/gcm.rs
+++ b/src/gcm.rs
@@ -87,7 +87,7 @@ impl<E: BlockCipher> Processor<E> {
 
     fn process(&self, counter: &mut [u8; 16], input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (2..).zip(input.chunks(16).zip(output.chunks_mut(16)))
+            (2..=u32::MAX).zip(input.chunks(16).zip(output.chunks_mut(16)))
         {
             let block = self.block(counter, i);
             for (block_byte, (input_byte, output_byte)) in
-- 
2.43.0


From e1d4a8c4a01c3e0c4514a5fdbd1dc9c5cda751cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 3/5] fix: refuse messages that exhaust the ChaCha20-Poly1305
 counter

Past 2^32 - 1 blocks the block counter wrapped around, so that the
one-time Poly1305 key block and then the message key stream were used a
second time (or, with overflow checks on, it panicked half-way through).
---
 src/poly1305.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index fce0a06..549d363 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -4,6 +4,9 @@ use crate::gcm::AeadCipher;
 use crate::util;
 use byteorder::{ByteOrder as _, LittleEndian};
 
+/// Length in bytes of the key stream left after the block that yields the Poly1305 key.
+const MAX_MESSAGE_LEN: u64 = (1 << 38) - 64;
+
 /// A ChaCha20-Poly1305 AEAD cipher.
 pub struct ChaCha20Poly1305 {
     key: [u8; 32],
@@ -26,9 +29,11 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `input.len()` is more than 2^38 - 64.
     fn encrypt(&self, input: &[u8], nonce: &[u8], data: &[u8], output: &mut [u8]) -> [u8; 16] {
         assert_eq!(input.len(), output.len());
+        assert!(MAX_MESSAGE_LEN >= input.len() as u64);
         let cipher = &ChaCha20::new(&self.key, nonce);
         self.process(cipher, input, output);
         self.tag(cipher, output, data)
@@ -38,7 +43,8 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `input.len()` is more than 2^38 - 64.
     fn decrypt(
         &self,
         input: &[u8],
@@ -48,6 +54,7 @@ impl AeadCipher for ChaCha20Poly1305 {
         output: &mut [u8],
     ) -> bool {
         assert_eq!(output.len(), input.len());
+        assert!(MAX_MESSAGE_LEN >= input.len() as u64);
         let cipher = &ChaCha20::new(&self.key, nonce);
         let expected_tag = self.tag(cipher, input, data);
         if util::verify_16(&expected_tag, tag) {
@@ -62,7 +69,7 @@ impl AeadCipher for ChaCha20Poly1305 {
 impl ChaCha20Poly1305 {
     fn process(&self, cipher: &ChaCha20, input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (1..).zip(input.chunks(64).zip(output.chunks_mut(64)))
+            (1..=u32::MAX).zip(input.chunks(64).zip(output.chunks_mut(64)))
         {
             let block = cipher.block(i);
             for (block_byte, (input_byte, output_byte)) in
-- 
2.43.0


From 976d3171dade2c935a0ac08d3267d8f940b219fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 4/5] fix: reject Ed25519 signatures whose scalar is not below
 the group order

RFC 8032 requires 0 <= S < L. Only the top three bits were checked, so
adding L to the scalar of a valid signature gave another valid signature
of the same message.
---
 src/ed25519.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 1353faf..73d3310 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -70,7 +70,7 @@ pub fn sign(message: &[u8], secret_key: &[u8]) -> [u8; 64] {
 /// Panics if `public_key.len()` is not equal to 32.
 pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
     assert_eq!(32, public_key.len());
-    if signature.len() != 64 || (signature[63] & 224 != 0) {
+    if signature.len() != 64 || !is_canonical_scalar(&signature[32..]) {
         return false;
     }
     let a = match GeP3::from_bytes_negate_vartime(public_key) {
@@ -94,6 +94,17 @@ pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
     verify_32(&rcheck, rcopy) == 0
 }
 
+/// The order of the base point, in little-endian order.
+const ORDER: [u8; 32] = [
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
+];
+
+/// Returns whether a scalar in little-endian order is less than the order of the base point.
+fn is_canonical_scalar(s: &[u8]) -> bool {
+    s.iter().rev().lt(ORDER.iter().rev())
+}
+
 const ZERO: [u8; 32] = [0; 32];
 
 impl Fe {
-- 
2.43.0


From 3202c9fa9e4539a15d60f64bf01b97a94f0e2793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 5/5] fix: poly1305: select the reduced accumulator when it is
 at least 2^130 - 5

freeze() computes h + 5 - 2^130 with the top limb kept in 32 bits, so
h >= 2^130 - 5 leaves 256 in it and the shift by 7 yields 2, not 0. The
mask was then all ones but the lowest bit, and the tag was wrong.
---
 src/poly1305.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index 549d363..c7deb23 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -216,7 +216,7 @@ impl PolyFunction {
             &[5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             252,
         );
-        let negative = (self.h[16] >> 7).wrapping_neg();
+        let negative = ((self.h[16] >> 7) & 1).wrapping_neg();
         for (h_j, &h_orig_j) in self.h.iter_mut().zip(h_orig.iter()) {
             *h_j ^= negative & (h_orig_j ^ *h_j);
         }
-- 
2.43.0

