From 48566b2facef2a548ad3d19ae5ec9ade9b102da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 1/7] fix: read SHA-384/512 hash values back as 8-byte words

bytes_to_u64s split the bytes into chunks of 4 and converted each into [u8; 8],
so converting any Hash384 or Hash512 back to words panicked.
---
 src/sha/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/hash.rs b/src/sha/hash.rs
index d914300..18c1f38 100644
--- a/src/sha/hash.rs
+++ b/src/sha/hash.rs
@@ -124,7 +124,7 @@ fn bytes_to_u32s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u32; W] {
 
 fn bytes_to_u64s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u64; W] {
     let mut words = [0; W];
-    for (i, chunk) in bytes.chunks_exact(4).enumerate() {
+    for (i, chunk) in bytes.chunks_exact(8).enumerate() {
         let chunk = <[u8; 8]>::try_from(chunk).unwrap();
         words[i] = u64::from_be_bytes(chunk);
     }
-- 
2.43.0


From 79afcbfe4ef10333fa19d972bae7988a9cb87d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:47 +0000
Subject: [PATCH 2/7] fix: refuse malformed ASN.1 lengths instead of panicking

A length of more than 16 bytes, a truncated length field and an empty bit
string all indexed out of bounds; a length above usize::MAX was truncated.
---
 src/pem/asn1.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 21e7255..c804f39 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -16,11 +16,15 @@ impl Asn1 {
         let tag = bytes[0];
         let (rest, length) = if bytes[1] & 0x80 != 0 {
             let length_bytes = (bytes[1] & !0x80) as usize;
+            if length_bytes > 16 || length_bytes > bytes.len() - 2 {
+                return Err(format!("tag ({tag}) had an invalid length"));
+            }
             let mut length = 0u128.to_be_bytes();
             length[(16 - length_bytes)..].copy_from_slice(&bytes[2..(2 + length_bytes)]);
             (
                 &bytes[(2 + length_bytes)..],
-                <u128>::from_be_bytes(length) as usize,
+                usize::try_from(<u128>::from_be_bytes(length))
+                    .map_err(|_| format!("tag ({tag}) had an invalid length"))?,
             )
         } else {
             (&bytes[2..], bytes[1] as usize)
@@ -36,6 +40,7 @@ impl Asn1 {
         let asn1 = match tag {
             0x02 => Asn1::Integer(rest[..length].to_owned()),
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
+            0x03 if length == 0 => return Err("bit string had no data".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
-- 
2.43.0


From db49a24a2b2c63ed44ab576da2dfdb82e034aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:47 +0000
Subject: [PATCH 3/7] fix: bound the nesting of ASN.1 sequences

The parser recursed once per nesting level of its input, so a few hundred
kilobytes of nested sequence headers overflowed the stack.
---
 src/pem/asn1.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index c804f39..0c7c09e 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -8,8 +8,14 @@ pub enum Asn1 {
     Sequence(Vec<Asn1>),
 }
 
+/// How deeply sequences may be nested, so that parsing cannot exhaust the stack.
+const MAX_DEPTH: usize = 64;
+
 impl Asn1 {
-    fn parse_from_bytes(bytes: &[u8]) -> Result<(Asn1, &[u8]), String> {
+    fn parse_from_bytes(bytes: &[u8], depth: usize) -> Result<(Asn1, &[u8]), String> {
+        if depth > MAX_DEPTH {
+            return Err("too deeply nested".to_string());
+        }
         if bytes.len() <= 1 {
             return Err("tag had no length".to_string());
         }
@@ -48,7 +54,7 @@ impl Asn1 {
                 let mut left = &*rest[..length].to_owned();
                 let mut elements = Vec::new();
                 while !left.is_empty() {
-                    let (asn1, rest) = Asn1::parse_from_bytes(left).map_err(|e| format!("failed to parse sequence: {}", e))?;
+                    let (asn1, rest) = Asn1::parse_from_bytes(left, depth + 1).map_err(|e| format!("failed to parse sequence: {}", e))?;
                     elements.push(asn1);
                     left = rest;
                 }
@@ -65,7 +71,7 @@ impl TryFrom<&[u8]> for Asn1 {
     type Error = String;
 
     fn try_from(bytes: &[u8]) -> Result<Self, Self::Error> {
-        let (asn1, left) = Asn1::parse_from_bytes(bytes)?;
+        let (asn1, left) = Asn1::parse_from_bytes(bytes, 1)?;
 
         if !left.is_empty() {
             return Err("extra bytes at the end".to_string());
-- 
2.43.0


From 27eb76c686125b0aeb401109e8caf4a7c6f67bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:16 +0000
Subject: [PATCH 4/7] fix: keep RSA messages at the length of the modulus

The ciphertext was shortened whenever its number had leading zero bytes, and
decryption took the ciphertext's length for the modulus length, so about one
message in 256 could not be decrypted.
---
 src/rsa/mod.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 5a94121..ae30a5f 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -119,17 +119,13 @@ impl TryFrom<PEM> for PublicKey {
 
 impl RsaEncryption {
     pub fn encrypt_message(&self, plaintext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let m = padding.encode(
-            b"",
-            plaintext,
-            (self.modulo.bits_used() - 1) as usize / 8 + 1,
-        );
+        let m = padding.encode(b"", plaintext, self.modulo_len());
         let m = BigUint::from_be_bytes(m);
         assert!(
             m < self.modulo,
             "the padding scheme did not put a zero as the first byte"
         );
-        self.encrypt(m).to_be_bytes()
+        self.to_modulo_len(self.encrypt(m))
     }
 
     pub fn encrypt(&self, m: BigUint) -> BigUint {
@@ -137,11 +133,7 @@ impl RsaEncryption {
     }
 
     pub fn decrypt_message(&self, ciphertext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let mut m: Vec<u8> = std::iter::repeat_n(0, ciphertext.len()).collect();
-        let d = self.decrypt(BigUint::from_be_bytes(ciphertext));
-        let dec = d.to_be_bytes();
-        let start = m.len() - dec.len();
-        m[start..].copy_from_slice(&dec);
+        let m = self.to_modulo_len(self.decrypt(BigUint::from_be_bytes(ciphertext)));
 
         padding.decode(b"", &m, m.len()).unwrap()
     }
@@ -149,6 +141,18 @@ impl RsaEncryption {
     pub fn decrypt(&self, c: BigUint) -> BigUint {
         pow_mod(&c, &self.exponent, &self.modulo)
     }
+
+    fn modulo_len(&self) -> usize {
+        (self.modulo.bits_used() - 1) as usize / 8 + 1
+    }
+
+    /// Big-endian bytes of a number below the modulus, with leading zeros up to the modulus length.
+    fn to_modulo_len(&self, num: BigUint) -> Vec<u8> {
+        let bytes = num.to_be_bytes();
+        let mut res = vec![0; self.modulo_len() - bytes.len()];
+        res.extend_from_slice(&bytes);
+        res
+    }
 }
 
 fn mul_mod(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
-- 
2.43.0


From 39c58127db160c7b407e3b9a62e76e9263d1b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:16 +0000
Subject: [PATCH 5/7] fix: refuse OAEP messages of the wrong length instead of
 panicking

---
 src/rsa/oaep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 0df957d..82a7a80 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -57,6 +57,9 @@ where
         encoded_message: &[u8],
         n_len: usize,
     ) -> Result<Vec<u8>, &'static str> {
+        if n_len < 2 * N + 2 || encoded_message.len() != n_len {
+            return Err("wrong length");
+        }
         if encoded_message[0] != 0 {
             return Err("first byte is not 0");
         }
-- 
2.43.0


From 6554a5065d86300c7c525ad7cacaad149db4cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:17 +0000
Subject: [PATCH 6/7] fix: accept the empty RC5 key

RC5 allows keys of 0 to 255 bytes, with one zero word for the empty key.
---
 src/rc/rc5.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rc/rc5.rs b/src/rc/rc5.rs
index a6aa350..bcc1045 100644
--- a/src/rc/rc5.rs
+++ b/src/rc/rc5.rs
@@ -16,13 +16,14 @@ impl RC5 {
     }
 
     fn expand_key(key: &[u8], r: u8) -> Vec<u32> {
-        let c = key.len().div_ceil(4);
+        let c = key.len().div_ceil(4).max(1);
         let mut l: Vec<u32> = Vec::with_capacity(c);
         for chunk in key.chunks(4) {
             let mut word = [0_u8; 4];
             word[..chunk.len()].copy_from_slice(chunk);
             l.push(u32::from_le_bytes(word));
         }
+        l.resize(c, 0);
 
         let t = 2 * (r as usize + 1);
         let mut s: Vec<u32> = Vec::with_capacity(t);
-- 
2.43.0


From 049205185ee82f0705772edbb4bdf2d0dafce189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:18 +0000
Subject: [PATCH 7/7] fix: shift BigUint correctly when the value is zero or is
 shifted out

Shifting zero left by whole bytes gave a zero that was not equal to zero, and
shifting right by more bytes than the number has panicked.
---
 src/big/uint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 0019e9a..15d727c 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -269,7 +269,7 @@ impl ShlAssign<u32> for BigUint {
             self.trim_trailing_zeroes()
         }
 
-        if steps > 0 {
+        if steps > 0 && !self.bytes.is_empty() {
             self.bytes
                 .splice(0..0, std::iter::repeat_n(0, steps as usize));
         }
@@ -281,7 +281,7 @@ impl ShrAssign<u32> for BigUint {
         if rhs >= 8 {
             let steps = rhs / 8;
 
-            self.bytes.splice(0..steps as usize, []);
+            self.bytes.splice(0..(steps as usize).min(self.bytes.len()), []);
 
             rhs -= steps * 8;
         }
-- 
2.43.0

