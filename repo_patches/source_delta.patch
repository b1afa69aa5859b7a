From ee98320302dec8cea9fbb36a6d2481fcf9f75673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 01/10] fix: read 64-bit hash words from 8-byte chunks

Converting a Hash384 or Hash512 to words always panicked.
---
 src/sha/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/hash.rs b/src/sha/hash.rs
index d914300..18c1f38 100644
--- a/src/sha/hash.rs
+++ b/src/sha/hash.rs
@@ -124,7 +124,7 @@ fn bytes_to_u32s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u32; W] {
 
 fn bytes_to_u64s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u64; W] {
     let mut words = [0; W];
-    for (i, chunk) in bytes.chunks_exact(4).enumerate() {
+    for (i, chunk) in bytes.chunks_exact(8).enumerate() {
         let chunk = <[u8; 8]>::try_from(chunk).unwrap();
         words[i] = u64::from_be_bytes(chunk);
     }
-- 
2.43.0


From 8f41ffbe54ff3f5de1a269a6b8373810a4dc54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 02/10] fix: refuse malformed PKCS#7 padding

A zero padding length and padding bytes that differ were accepted.
---
 src/pad.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pad.rs b/src/pad.rs
index 0c654da..35e20fb 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -44,10 +44,17 @@ impl<const N: usize> PkcsPadding<N> {
 
     pub fn unpad(&self, block: Block<N>) -> usize {
         let amt = block[N-1];
+        if amt == 0 {
+            panic!("padding byte is zero");
+        }
         if amt as usize > N {
             panic!("padding byte is too big");
         }
-        N - amt as usize
+        let len = N - amt as usize;
+        if block[len..].iter().any(|&b| b != amt) {
+            panic!("padding bytes are not all equal");
+        }
+        len
     }
 }
 
-- 
2.43.0


From 0190e9305a6e7eaa0ba453f2c610414726e4aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 03/10] fix: refuse bit padding with data after the marker

Only zero bytes may follow the marker byte.
---
 src/pad.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pad.rs b/src/pad.rs
index 35e20fb..73276ef 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -17,7 +17,8 @@ impl<const N: usize> BitPadding<N> {
     pub fn unpad(&self, last_block: Block<N>) -> (Block<N>, usize) {
         let len = last_block
             .iter()
-            .rposition(|&b| b == 0x80)
+            .rposition(|&b| b != 0)
+            .filter(|&i| last_block[i] == 0x80)
             .expect("missing marker byte (0x80)");
         let mut block = last_block;
         block[len..].fill(0);
-- 
2.43.0


From 166686f4f3cc25312975d1b12e001497bc0de602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 04/10] fix: return errors for malformed ASN.1 lengths

An incomplete or oversized length and an empty bit string made the parser
panic, a huge length was truncated, and the contents of a null were dropped.
---
 src/pem/asn1.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 21e7255..238f75a 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -16,11 +16,18 @@ impl Asn1 {
         let tag = bytes[0];
         let (rest, length) = if bytes[1] & 0x80 != 0 {
             let length_bytes = (bytes[1] & !0x80) as usize;
+            if length_bytes > 16 {
+                return Err(format!("tag ({tag}) had a length of {length_bytes} bytes"));
+            }
+            let Some(length_data) = bytes.get(2..(2 + length_bytes)) else {
+                return Err(format!("tag ({tag}) had an incomplete length"));
+            };
             let mut length = 0u128.to_be_bytes();
-            length[(16 - length_bytes)..].copy_from_slice(&bytes[2..(2 + length_bytes)]);
+            length[(16 - length_bytes)..].copy_from_slice(length_data);
             (
                 &bytes[(2 + length_bytes)..],
-                <u128>::from_be_bytes(length) as usize,
+                usize::try_from(<u128>::from_be_bytes(length))
+                    .map_err(|_| format!("tag ({tag}) had a too big length"))?,
             )
         } else {
             (&bytes[2..], bytes[1] as usize)
@@ -36,7 +43,9 @@ impl Asn1 {
         let asn1 = match tag {
             0x02 => Asn1::Integer(rest[..length].to_owned()),
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
+            0x03 if length == 0 => return Err("bit string had no data".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
+            0x05 if length != 0 => return Err("null had data".to_string()),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
             0x30 => {
-- 
2.43.0


From 7e64176d3146bc2445c25df51efabc09edf7a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 05/10] fix: limit the nesting depth of parsed ASN.1

Deeply nested sequences overflowed the stack and aborted the process.
---
 src/pem/asn1.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 238f75a..98b94b6 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -8,8 +8,14 @@ pub enum Asn1 {
     Sequence(Vec<Asn1>),
 }
 
+/// Limits the recursion of the parser, so that hostile input cannot overflow the stack
+const MAX_DEPTH: usize = 128;
+
 impl Asn1 {
-    fn parse_from_bytes(bytes: &[u8]) -> Result<(Asn1, &[u8]), String> {
+    fn parse_from_bytes(bytes: &[u8], depth: usize) -> Result<(Asn1, &[u8]), String> {
+        if depth > MAX_DEPTH {
+            return Err("too many nested sequences".to_string());
+        }
         if bytes.len() <= 1 {
             return Err("tag had no length".to_string());
         }
@@ -52,7 +58,7 @@ impl Asn1 {
                 let mut left = &*rest[..length].to_owned();
                 let mut elements = Vec::new();
                 while !left.is_empty() {
-                    let (asn1, rest) = Asn1::parse_from_bytes(left).map_err(|e| format!("failed to parse sequence: {}", e))?;
+                    let (asn1, rest) = Asn1::parse_from_bytes(left, depth + 1).map_err(|e| format!("failed to parse sequence: {}", e))?;
                     elements.push(asn1);
                     left = rest;
                 }
@@ -69,7 +75,7 @@ impl TryFrom<&[u8]> for Asn1 {
     type Error = String;
 
     fn try_from(bytes: &[u8]) -> Result<Self, Self::Error> {
-        let (asn1, left) = Asn1::parse_from_bytes(bytes)?;
+        let (asn1, left) = Asn1::parse_from_bytes(bytes, 0)?;
 
         if !left.is_empty() {
             return Err("extra bytes at the end".to_string());
-- 
2.43.0


From a94a52af3311082e62d2488a7ee40e3e55ba0782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 06/10] fix: size decrypted RSA messages by the modulus

A ciphertext that happens to begin with a zero byte is shorter than the
modulus; decrypting it panicked or gave the padding scheme a wrong length.
---
 src/rsa/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 5a94121..89cdadf 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -137,7 +137,8 @@ impl RsaEncryption {
     }
 
     pub fn decrypt_message(&self, ciphertext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let mut m: Vec<u8> = std::iter::repeat_n(0, ciphertext.len()).collect();
+        let n_len = (self.modulo.bits_used() - 1) as usize / 8 + 1;
+        let mut m: Vec<u8> = std::iter::repeat_n(0, n_len).collect();
         let d = self.decrypt(BigUint::from_be_bytes(ciphertext));
         let dec = d.to_be_bytes();
         let start = m.len() - dec.len();
-- 
2.43.0


From b84becd2325c33e7f58c089b95119711a5cd39ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 07/10] fix: return an error when OAEP decoding a block of the
 wrong length

Short blocks and blocks of another length than claimed caused a panic.
---
 src/rsa/oaep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 0df957d..04f8ec7 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -57,6 +57,9 @@ where
         encoded_message: &[u8],
         n_len: usize,
     ) -> Result<Vec<u8>, &'static str> {
+        if encoded_message.len() != n_len || n_len < 2 * N + 2 {
+            return Err("wrong length");
+        }
         if encoded_message[0] != 0 {
             return Err("first byte is not 0");
         }
-- 
2.43.0


From c59787d4c2cf64d56355c0566af2deba1ba53202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 08/10] fix: shift BigUint correctly when it is zero or becomes
 zero

Shifting zero left gave a non-canonical zero, and shifting right by more
bytes than there are panicked.
---
 src/big/uint.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 0019e9a..f953f76 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -269,7 +269,7 @@ impl ShlAssign<u32> for BigUint {
             self.trim_trailing_zeroes()
         }
 
-        if steps > 0 {
+        if steps > 0 && !self.bytes.is_empty() {
             self.bytes
                 .splice(0..0, std::iter::repeat_n(0, steps as usize));
         }
@@ -281,7 +281,8 @@ impl ShrAssign<u32> for BigUint {
         if rhs >= 8 {
             let steps = rhs / 8;
 
-            self.bytes.splice(0..steps as usize, []);
+            let num_bytes = self.bytes.len().min(steps as usize);
+            self.bytes.splice(0..num_bytes, []);
 
             rhs -= steps * 8;
         }
-- 
2.43.0


From 4197e9b912b5fdd6dd8bfe31e2ec249b1b44fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 09/10] fix: accept an empty RC5 key

RC5 allows keys of 0 to 255 bytes; an empty one caused a panic.
---
 src/rc/rc5.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rc/rc5.rs b/src/rc/rc5.rs
index a6aa350..610033e 100644
--- a/src/rc/rc5.rs
+++ b/src/rc/rc5.rs
@@ -16,13 +16,14 @@ impl RC5 {
     }
 
     fn expand_key(key: &[u8], r: u8) -> Vec<u32> {
-        let c = key.len().div_ceil(4);
+        let c = key.len().div_ceil(4).max(1); // an empty key gives one zero word
         let mut l: Vec<u32> = Vec::with_capacity(c);
         for chunk in key.chunks(4) {
             let mut word = [0_u8; 4];
             word[..chunk.len()].copy_from_slice(chunk);
             l.push(u32::from_le_bytes(word));
         }
+        l.resize(c, 0);
 
         let t = 2 * (r as usize + 1);
         let mut s: Vec<u32> = Vec::with_capacity(t);
-- 
2.43.0


From 658948db89c9716fde9e3f42175997f63a8a078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:27 +0000
Subject: [PATCH 10/10] fix: refuse negative and empty integers in RSA keys

---
 src/rsa/asn1.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/rsa/asn1.rs b/src/rsa/asn1.rs
index cf518f2..1090f98 100644
--- a/src/rsa/asn1.rs
+++ b/src/rsa/asn1.rs
@@ -122,6 +122,15 @@ impl AlgorithmIdentifier {
     }
 }
 
+/// The bytes of an INTEGER are in two's complement, but the numbers of a key are never negative
+fn non_negative(bytes: &[u8]) -> Result<BigUint, String> {
+    match bytes.first() {
+        None => Err("integer had no data".to_string()),
+        Some(b) if b & 0x80 != 0 => Err("expected a non-negative integer".to_string()),
+        Some(_) => Ok(BigUint::from_be_bytes(bytes)),
+    }
+}
+
 impl PrivateKey {
     fn from_asn1(asn: Asn1) -> Result<Self, String> {
         let Asn1::Sequence(seq) = asn else {
@@ -155,14 +164,14 @@ impl PrivateKey {
 
         Ok(Self {
             version: version[0],
-            modulus: BigUint::from_be_bytes(modulus),
-            public_exponent: BigUint::from_be_bytes(public_exponent),
-            private_exponent: BigUint::from_be_bytes(private_exponent),
-            prime1: BigUint::from_be_bytes(prime1),
-            prime2: BigUint::from_be_bytes(prime2),
-            exponent1: BigUint::from_be_bytes(exponent1),
-            exponent2: BigUint::from_be_bytes(exponent2),
-            coefficient: BigUint::from_be_bytes(coefficient),
+            modulus: non_negative(modulus)?,
+            public_exponent: non_negative(public_exponent)?,
+            private_exponent: non_negative(private_exponent)?,
+            prime1: non_negative(prime1)?,
+            prime2: non_negative(prime2)?,
+            exponent1: non_negative(exponent1)?,
+            exponent2: non_negative(exponent2)?,
+            coefficient: non_negative(coefficient)?,
         })
     }
 }
@@ -189,8 +198,8 @@ impl PublicKey {
         };
 
         Ok(Self {
-            modulus: BigUint::from_be_bytes(modulus),
-            public_exponent: BigUint::from_be_bytes(public_exponent),
+            modulus: non_negative(modulus)?,
+            public_exponent: non_negative(public_exponent)?,
         })
     }
 }
-- 
2.43.0

