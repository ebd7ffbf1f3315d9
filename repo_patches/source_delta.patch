From 62046c7b85bb6ba90a0d1310217fd7f73ad6e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 1/6] fix: hkdf::expand panics (debug) when okm needs block 255

The u8 block counter of `(1..).zip(..)` is advanced once past 255, which
overflows for every okm longer than 254 digests although up to 255 are
documented as allowed.
---
 src/hkdf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hkdf.rs b/src/hkdf.rs
index c5ec08e..cc6ba64 100644
--- a/src/hkdf.rs
+++ b/src/hkdf.rs
@@ -40,9 +40,9 @@ pub fn expand<H: HashFunction>(prk: &[u8], info: &[u8], okm: &mut [u8]) {
     assert!(digest_size <= prk.len());
     assert!(255 * digest_size >= okm.len());
     let mut hmac: Hmac<H> = Hmac::new(prk);
-    for (i, chunk) in (1..).zip(okm.chunks_mut(digest_size)) {
+    for (i, chunk) in okm.chunks_mut(digest_size).enumerate() {
         hmac.update(info);
-        hmac.update(&[i]);
+        hmac.update(&[i as u8 + 1]);
         let tag = hmac.tag();
         let chunk_len = chunk.len();
         if chunk_len < digest_size {
-- 
2.43.0


From 579c96fc69c9dae52b7479145cc3f475db9c5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 2/6] fix: ed25519::verify accepts signatures with S >= L

RFC 8032 (5.1.7) requires 0 <= S < L; without the check a valid signature
(R, S) can be turned into a second valid one (R, S + L).
---
 src/ed25519.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 1353faf..9cafd7d 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -70,7 +70,7 @@ pub fn sign(message: &[u8], secret_key: &[u8]) -> [u8; 64] {
 /// Panics if `public_key.len()` is not equal to 32.
 pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
     assert_eq!(32, public_key.len());
-    if signature.len() != 64 || (signature[63] & 224 != 0) {
+    if signature.len() != 64 || !sc_is_canonical(&signature[32..]) {
         return false;
     }
     let a = match GeP3::from_bytes_negate_vartime(public_key) {
@@ -335,6 +335,17 @@ impl Fe {
     }
 }
 
+/// The order of the base point, little-endian.
+const L: [u8; 32] = [
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
+];
+
+/// Returns whether a scalar is less than the order of the base point.
+fn sc_is_canonical(s: &[u8]) -> bool {
+    s.iter().rev().lt(L.iter().rev())
+}
+
 fn sc_muladd(s: &mut [u8], a: &[u8; 64], b: &[u8; 64], c: &[u8; 64]) {
     assert_eq!(32, s.len());
     let a0 = 2097151 & load_3(a) as i64;
-- 
2.43.0


From 291db16e78c4d0654891e496c3b5f0bbf8d335b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 3/6] fix: ed25519::verify accepts public keys that RFC 8032
 decoding refuses

Decoding (5.1.3) must fail when y >= p and when x = 0 with the sign bit
set; both were accepted as aliases of other keys.
---
 src/ed25519.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 9cafd7d..eeae93b 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -1347,6 +1347,12 @@ impl GeP3 {
         let check = &mut Fe::default();
 
         h.y.assign_from_bytes(s);
+        let y = &mut [0; 32];
+        h.y.write_bytes(y);
+        y[31] |= s[31] & 128;
+        if &y[..] != s {
+            return None;
+        }
         h.z.assign_one();
         u.assign_square(&h.y);
         v.assign_product(u, &Fe::from(D));
@@ -1373,6 +1379,9 @@ impl GeP3 {
             }
             h.x *= &Fe::from(SQRTM1);
         }
+        if h.x.is_nonzero() == 0 && s[31] >> 7 == 1 {
+            return None;
+        }
 
         if h.x.is_negative() == i32::from(s[31] >> 7) {
             h.x.neg();
-- 
2.43.0


From 1844b4ea62323fa9cfe625c48ea7b80b834eafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 4/6] fix: poly1305 tag is wrong when the accumulator is
 2^130-5 or more

h[16] holds 4 + 252 = 256 in freeze() in that case, so the sign mask
computed from h[16] >> 7 is -2 and not 0.  Keep eight bits, as the
reference implementation this is based on does.
---
 src/poly1305.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index fce0a06..1599c73 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -223,7 +223,7 @@ fn add(h: &mut [u32; 17], c: &[u8], last_byte: u8) {
         *h_j = u & 255;
         u >>= 8;
     }
-    h[16] += u + u32::from(last_byte);
+    h[16] = (h[16] + u + u32::from(last_byte)) & 255;
 }
 
 fn load_r(key: &[u8; 32]) -> [u8; 17] {
-- 
2.43.0


From 632c3e5dd55837239ee2f00f98aa63fc08c5aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:07 +0000
Subject: [PATCH 5/6] Guarded access to private curve operations (cfg
 crypto_pure_verif)

---
 src/curve25519.rs | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 src/ed25519.rs    | 44 ++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs        |  1 +
 3 files changed, 91 insertions(+)

diff --git a/src/curve25519.rs b/src/curve25519.rs
index 1d358ae..a53db68 100644
--- a/src/curve25519.rs
+++ b/src/curve25519.rs
@@ -1032,6 +1032,52 @@ impl<'a, 'b> SubAssign<&'a Fe> for &'b mut Fe {
     }
 }
 
+/// Access to the field operations for verification.
+#[cfg(crypto_pure_verif)]
+pub mod verif {
+    use super::Fe;
+
+    /// `op` 0..=9: f*g, f^2, 121666*f, f+g, f-g, 1/f, f^((p-5)/8), the first of f, g, the second swapped in, and
+    /// f as it is.  Returns the encoding of the result.
+    pub fn field(op: u8, f: [i32; 10], g: [i32; 10]) -> [u8; 32] {
+        let mut h = Fe::default();
+        let (mut f, mut g) = (Fe::from(f), Fe::from(g));
+        match op {
+            0 => h.assign_product(&f, &g),
+            1 => h.assign_square(&f),
+            2 => h.mul121666(&f),
+            3 => h.assign_sum(&f, &g),
+            4 => h.assign_difference(&f, &g),
+            5 => h = f.inverse(),
+            6 => {
+                h = f;
+                h.pow22523();
+            }
+            7 => {
+                f.cswap_with(&mut g, 0);
+                h = f;
+            }
+            8 => {
+                f.cswap_with(&mut g, 1);
+                h = f;
+            }
+            _ => h = f,
+        }
+        let mut s = [0; 32];
+        h.write_bytes(&mut s);
+        s
+    }
+
+    /// Decodes and encodes.
+    pub fn recode(s: &[u8; 32]) -> [u8; 32] {
+        let mut h = Fe::default();
+        h.assign_from_bytes(s);
+        let mut r = [0; 32];
+        h.write_bytes(&mut r);
+        r
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/ed25519.rs b/src/ed25519.rs
index eeae93b..9d65e21 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -1716,6 +1716,50 @@ fn ge_sub(r: &mut GeP1p1, p: &GeP3, q: &GeCached) {
     r.t += t0;
 }
 
+/// Access to the scalar and group operations for verification.
+#[cfg(crypto_pure_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Reduces 64 bytes modulo the order of the base point, in place.
+    pub fn reduce(s: &mut [u8; 64]) {
+        sc_reduce(s);
+    }
+
+    /// `a * b + c` modulo the order of the base point.
+    pub fn muladd(a: &[u8; 64], b: &[u8; 64], c: &[u8; 64]) -> [u8; 32] {
+        let mut s = [0; 32];
+        sc_muladd(&mut s, a, b, c);
+        s
+    }
+
+    /// The encoding of the negated point that `point` encodes times `a` plus the base point times `b`.
+    pub fn double_scalarmult(a: &[u8; 64], point: &[u8], b: &[u8]) -> Option<[u8; 32]> {
+        GeP3::from_bytes_negate_vartime(point).map(|g| GeP2::from_double_scalarmult_vartime(a, &g, b).to_bytes())
+    }
+
+    /// Twice the square of f (`op` 0), -f (1, 2), g if `op` is 4 and f if it is 3.  Returns the encoding of the result.
+    pub fn field(op: u8, f: [i32; 10], g: [i32; 10]) -> [u8; 32] {
+        let mut h = Fe::default();
+        let (mut f, g) = (Fe::from(f), Fe::from(g));
+        match op {
+            0 => h.assign_twice_square(&f),
+            1 => h.assign_neg(&f),
+            2 => {
+                f.neg();
+                h = f;
+            }
+            _ => {
+                f.cmov_from(&g, u32::from(op == 4));
+                h = f;
+            }
+        }
+        let mut s = [0; 32];
+        h.write_bytes(&mut s);
+        s
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 83dc000..40102a5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 #![cfg_attr(not(feature = "std"), no_std)]
 #[cfg(feature = "std")]
 extern crate core;
-- 
2.43.0


From ee2062b0f21468766cd900fe8cdd939ef71894ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 6/6] Guarded access to point decoding and scalar recoding (cfg
 crypto_pure_verif)

---
 src/ed25519.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 9d65e21..9f7a955 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -1738,6 +1738,25 @@ pub mod verif {
         GeP3::from_bytes_negate_vartime(point).map(|g| GeP2::from_double_scalarmult_vartime(a, &g, b).to_bytes())
     }
 
+    /// The encodings of x, y, z, t of the negated point that `point` encodes.
+    pub fn decode(point: &[u8]) -> Option<[[u8; 32]; 4]> {
+        GeP3::from_bytes_negate_vartime(point).map(|g| {
+            let mut s = [[0; 32]; 4];
+            g.x.write_bytes(&mut s[0]);
+            g.y.write_bytes(&mut s[1]);
+            g.z.write_bytes(&mut s[2]);
+            g.t.write_bytes(&mut s[3]);
+            s
+        })
+    }
+
+    /// The sliding-window digits of `a`.
+    pub fn recode(a: &[u8]) -> [i8; 256] {
+        let mut r = [0; 256];
+        slide(&mut r, a);
+        r
+    }
+
     /// Twice the square of f (`op` 0), -f (1, 2), g if `op` is 4 and f if it is 3.  Returns the encoding of the result.
     pub fn field(op: u8, f: [i32; 10], g: [i32; 10]) -> [u8; 32] {
         let mut h = Fe::default();
-- 
2.43.0

