From 788be4da340b11d3dda6487ecb1406abc7b37061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 01/21] fix: comparison masks of public signed integers are all
 ones when set

The documentation promises 0x0..0 or 0xF..F, but the signed types returned
max_value() (0x7F..F), which breaks every masked selection built on them.
---
 hacspec/src/machine_integers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 8572ef8..385e824 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -174,7 +174,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn not_equal_bm(self, other: Self) -> Self {
                 if self != other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -182,7 +182,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn equal_bm(self, other: Self) -> Self {
                 if self == other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -190,7 +190,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_bm(self, other: Self) -> Self {
                 if self > other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -198,7 +198,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_or_qual_bm(self, other: Self) -> Self {
                 if self >= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -206,7 +206,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_bm(self, other: Self) -> Self {
                 if self < other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -214,7 +214,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_or_equal_bm(self, other: Self) -> Self {
                 if self <= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
-- 
2.43.0


From 5d1d27b899df727c7dbb1b25f48383365ed10597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 02/21] fix: get_byte on 8-bit secret integers shifted by the
 full width and panicked

---
 hacspec/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index cc91343..5d634e7 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -265,7 +265,7 @@ pub trait UnsignedSecretInteger : UnsignedInteger + SecretInteger {
     #[inline]
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn get_byte(self, i: u32) -> Self {
-        (self >> (i * 8)) & ((Self::ONE << 8) - Self::ONE)
+        (self >> (i * 8)) & Self::from_literal(0xff)
     }
 }
 
-- 
2.43.0


From f7231a27b49584b3345522400e662f78d37a60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 03/21] fix: drop leftover debug prints that wrote (secret)
 operands to stdout

sub_mod, inv and the polynomial inverse printed their operands, including
declassified secret ones, on every call.
---
 hacspec/src/machine_integers.rs | 2 --
 hacspec/src/math_util.rs        | 1 -
 hacspec/src/poly.rs             | 1 -
 3 files changed, 4 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 385e824..e1f7dfd 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -17,12 +17,10 @@ macro_rules! implement_public_unsigned_mi {
             /// (self - rhs) % n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn sub_mod(self, rhs: Self, n: Self) -> Self {
-                println!("FOOOOOO {:?}, {:?}, {:?}", self, rhs, n);
                 let mut tmp = self;
                 while tmp < rhs {
                     tmp += n;
                 }
-                println!("{:?} = {:?} - {:?}", tmp, rhs, tmp-rhs);
                 (tmp - rhs) % n
             }
             /// `(self + rhs) % n`
diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 8516bdd..498beeb 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -28,7 +28,6 @@ pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T
     let mut new_t = T::ONE;
     let mut new_r = x;
 
-    println!("n: {:?}", n);
     while !new_r.equal(T::ZERO) {
         let q: T = r.div(new_r);
 
diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 980dcad..7e11970 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -420,7 +420,6 @@ macro_rules! poly {
             /// Invert this polynomial.
             /// **Panics** if the polynomial is not invertible.
             fn inv(self) -> Self {
-                println!("inv {:?}", self);
                 Self::from_vec(extended_euclid(&self.poly, &self.irr, self.n).unwrap())
             }
 
-- 
2.43.0


From 2e149b77342297910c2d809d0f19350fb7d7384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 04/21] fix: modular inverse looped once per multiple of the
 modulus

q * new_t can exceed t by up to q multiples of n, which were added back one by
one: inverting e.g. (n-1)/2 modulo 2^61-1 never finished. Reduce first.
---
 hacspec/src/math_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 498beeb..20cf648 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -43,7 +43,7 @@ pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T
 
         let tmp = new_t.clone();
         // XXX: a little hacky
-        let tmp_prod = q * new_t;
+        let tmp_prod = (q * new_t).modulo(n);
         let mut tmp_t = t;
         while tmp_t.less_than(tmp_prod) {
             tmp_t = tmp_t + n;
-- 
2.43.0


From d9d88c97c20112294e3f35214276a0c8a9fc2ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 05/21] fix: sub_mod on unsigned integers overflowed or looped
 for large operands

Adding n until the minuend is large enough overflows the type when n is more
than half its range and takes (rhs - self) / n steps for unreduced operands.
---
 hacspec/src/machine_integers.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index e1f7dfd..a15a5a3 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -17,11 +17,13 @@ macro_rules! implement_public_unsigned_mi {
             /// (self - rhs) % n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn sub_mod(self, rhs: Self, n: Self) -> Self {
-                let mut tmp = self;
-                while tmp < rhs {
-                    tmp += n;
+                let a = self % n;
+                let b = rhs % n;
+                if a >= b {
+                    a - b
+                } else {
+                    n - (b - a)
                 }
-                (tmp - rhs) % n
             }
             /// `(self + rhs) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
-- 
2.43.0


From 521cbb83b706f79ef941e0ead2b7c6e6cc280dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 06/21] fix: multiplication and division of polynomials over
 the integers

poly_mul reduced modulo 0 and so always panicked for n = 0, and poly_div
accepted a truncated leading-coefficient quotient, dropping part of the
dividend instead of panicking.
---
 hacspec/src/poly.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 7e11970..5730e85 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -148,7 +148,12 @@ pub fn poly_mul<T: Numeric>(x: &[T], y: &[T], n: T) -> Vec<T> {
             .map(|(i, x)| (i, x))
             .filter(|(_, &x)| !x.equal(T::default()))
         {
-            out[adx.0 + bdx.0] = out[adx.0 + bdx.0].add_mod(adx.1.mul_mod(*bdx.1, n), n);
+            let acc = out[adx.0 + bdx.0];
+            out[adx.0 + bdx.0] = if n.equal(T::default()) {
+                acc + *adx.1 * *bdx.1
+            } else {
+                acc.add_mod(adx.1.mul_mod(*bdx.1, n), n)
+            };
         }
     }
     out
@@ -181,6 +186,9 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
         if t.equal(T::default()) && !rem[idx].equal(T::default()) {
             panic!("Can't divide these two polynomials");
         }
+        if n.equal(T::default()) && !(t * c).equal(rem[idx]) {
+            panic!("Can't divide these two polynomials");
+        }
         let s = monomial(t, dist - i - 1);
         let sy = poly_mul(&s[..], &y[..], n);
         quo = poly_add(&quo[..], &s[..], n);
-- 
2.43.0


From 218c89778b4d665afd34d93d5ec2e6d242a1b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 07/21] fix: poly from_vec silently dropped the coefficient of
 x^l

---
 hacspec/src/poly.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 5730e85..a4280d4 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -433,8 +433,8 @@ macro_rules! poly {
 
             pub fn from_vec(v: Vec<$t>) -> $name {
                 let (d, _) = leading_coefficient(&v);
-                debug_assert!(d <= $l);
-                if d > $l {
+                debug_assert!(d < $l);
+                if d >= $l {
                     panic!("The vector is too long to fit this polynomial.");
                 }
                 let mut p = [<$t>::default(); $l];
-- 
2.43.0


From 563e0859ee4cbf643ba15e604b9763b969f9a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 08/21] fix: xor of public sequences always returned an empty
 sequence

---
 hacspec/src/vec_integers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/vec_integers.rs b/hacspec/src/vec_integers.rs
index 771d9b3..91d7a1d 100644
--- a/hacspec/src/vec_integers.rs
+++ b/hacspec/src/vec_integers.rs
@@ -1206,7 +1206,8 @@ impl<T: Numeric + PublicInteger> BitXor for PublicSeq<T> {
     type Output = PublicSeq<T>;
     #[cfg_attr(feature="use_attributes", library(hacspec))]
     fn bitxor(self, rhs: Self) -> Self::Output {
-        let mut out = Self::default();
+        debug_assert!(self.len() == rhs.len());
+        let mut out = Self::new(self.len());
         for (a, (b, c)) in out.b.iter_mut().zip(self.b.iter().zip(rhs.b.iter())) {
             *a = *b ^ *c;
         }
-- 
2.43.0


From 41c45e50c32d4847be04fe2cb42722927d809d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 09/21] fix: SHA-256 omitted the padding block for messages
 ending on a block boundary

---
 spec-examples/src/sha2/sha2.rs | 36 ++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/spec-examples/src/sha2/sha2.rs b/spec-examples/src/sha2/sha2.rs
index 737e69f..3d24b03 100644
--- a/spec-examples/src/sha2/sha2.rs
+++ b/spec-examples/src/sha2/sha2.rs
@@ -166,28 +166,30 @@ pub fn hash(msg: &ByteSeq) -> Digest {
         0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
         0x5be0cd19,
     ]);
+    let mut last_block = Block::new();
+    let mut last_block_len = 0;
     for i in 0..msg.num_chunks(BLOCK_SIZE) {
         let (block_len, block) = msg.get_chunk(BLOCK_SIZE, i);
+        let block = Block::new().update_start(&block);
         if block_len < BLOCK_SIZE {
-            // Add padding for last block
-            let mut last_block = Block::new();
-            let block = Block::new().update_start(&block);
-            last_block = last_block.update(0, &block);
-            last_block[block_len] = U8(0x80);
-            let len_bist: U64 = (msg.len() * 8).into();
-            if block_len < BLOCK_SIZE - LEN_SIZE {
-                last_block = last_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
-                h = compress(last_block, h);
-            } else {
-                let mut pad_block = Block::new();
-                pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
-                h = compress(last_block, h);
-                h = compress(pad_block, h);
-            }
+            last_block = block;
+            last_block_len = block_len;
         } else {
-            let compress_input = Block::new().update_start(&block);
-            h = compress(compress_input, h);
+            h = compress(block, h);
         }
     }
+    // Add padding. The last block is empty if the message ends on a block
+    // boundary.
+    last_block[last_block_len] = U8(0x80);
+    let len_bist: U64 = (msg.len() * 8).into();
+    if last_block_len < BLOCK_SIZE - LEN_SIZE {
+        last_block = last_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
+        h = compress(last_block, h);
+    } else {
+        let mut pad_block = Block::new();
+        pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
+        h = compress(last_block, h);
+        h = compress(pad_block, h);
+    }
     Digest::from_seq(&h.to_be_bytes())
 }
-- 
2.43.0


From e56953fc1ddd0334630d2562e0e58312e509f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 10/21] fix: BLAKE2b never finalised messages that are empty or
 end on a block boundary

---
 spec-examples/src/blake2/blake2b.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spec-examples/src/blake2/blake2b.rs b/spec-examples/src/blake2/blake2b.rs
index 04d4f2b..4e294c2 100644
--- a/spec-examples/src/blake2/blake2b.rs
+++ b/spec-examples/src/blake2/blake2b.rs
@@ -177,13 +177,18 @@ pub fn blake2<Word: UnsignedSecretInteger>(data: &ByteSeq, alg: BlakeVariant) ->
     h[0] = h[0] ^ Word::from_literal(0x0101_0000) ^ Word::from_literal(64);
 
     let mut t : Counter<Word::PublicVersion> = Counter::new();
-    for i in 0..data.num_chunks(128) {
+    if data.len() == 0 {
+        // The empty message is a single, final block of zeroes.
+        h = compress(h, &ByteSeq::new(128), t, true, alg);
+    }
+    let num_blocks = data.num_chunks(128);
+    for i in 0..num_blocks {
         let (block_len, block) = data.get_chunk(128, i);
-        if block_len == 128 {
+        if i < num_blocks - 1 {
             t = inc_counter(t, Word::PublicVersion::from_literal(128));
             h = compress(h, &ByteSeq::from_seq(&block), t, false, alg);
         } else {
-            // Pad last bits of data to a full block.
+            // Pad last bits of data to a full block (if it isn't one already).
             t = inc_counter(t, Word::PublicVersion::from_literal(block_len as u128));
             let compress_input = ByteSeq::new(128).update_start(&block);
             h = compress(h, &compress_input, t, true, alg);
-- 
2.43.0


From c3fd063fae2bb1cf3acbf7e88516a0685f38431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 11/21] fix: HKDF expand rejected the largest documented output
 length

---
 spec-examples/src/hkdf/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec-examples/src/hkdf/hkdf.rs b/spec-examples/src/hkdf/hkdf.rs
index 7066ea1..73af121 100644
--- a/spec-examples/src/hkdf/hkdf.rs
+++ b/spec-examples/src/hkdf/hkdf.rs
@@ -42,7 +42,7 @@ fn div_ceil(a: usize, b: usize) -> u64 {
 /// Output length l can be at most 255*HASH_LEN.
 pub fn expand(prk: &ByteSeq, info: &ByteSeq, l: usize) -> ByteSeq {
     let n = div_ceil(l, HASH_LEN);
-    debug_assert!(n < u8::max_value().into());
+    debug_assert!(n <= u8::max_value().into());
     let n = n as u8;
 
     let mut t_i = hmac::PRK::new();
-- 
2.43.0


From b661a143391bde3199db28ce62c262359a889e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 12/21] fix: Poly1305 added the key s modulo the prime instead
 of modulo 2^128

---
 spec-examples/src/chacha20_poly1305/poly1305.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/spec-examples/src/chacha20_poly1305/poly1305.rs b/spec-examples/src/chacha20_poly1305/poly1305.rs
index 894ca1d..6eb25e0 100644
--- a/spec-examples/src/chacha20_poly1305/poly1305.rs
+++ b/spec-examples/src/chacha20_poly1305/poly1305.rs
@@ -55,18 +55,19 @@ fn poly_inner(m: &ByteSeq, r: FieldElement) -> FieldElement {
 }
 
 pub fn poly(m: &ByteSeq, key: Key) -> Tag {
-    let s_elem = FieldElement::from_secret_literal(U128_from_le_bytes(U128Word::from_sub(
-        &key, BLOCKSIZE, BLOCKSIZE,
-    )));
+    let s = U128_from_le_bytes(U128Word::from_sub(&key, BLOCKSIZE, BLOCKSIZE));
     let r_elem = encode_r(Block::from_sub_range(&key, 0..BLOCKSIZE));
     let a = poly_inner(m, r_elem);
-    let n = a + s_elem;
-    // Note that n might be less than 16 byte -> zero-pad; but might also be
+    // Note that a might be less than 16 byte -> zero-pad; but might also be
     // larger than Tag::capacity().
-    let n_v = n.to_public_byte_seq_le();
+    let a_v = a.to_byte_seq_le();
+    let mut a_128 = U128Word::new();
+    a_128 = a_128.update_sub(0, &a_v, 0, min(BLOCKSIZE, a_v.len()));
+    // The key s is added modulo 2^128, not modulo the prime of the field.
+    let n = U128_to_le_bytes(U128_from_le_bytes(a_128) + s);
     let mut tag = Tag::new();
-    for i in 0..min(tag.len(), n_v.len()) {
-        tag[i] = n_v[i];
+    for i in 0..tag.len() {
+        tag[i] = n[i].declassify();
     }
     tag
 }
-- 
2.43.0


From b7f58faa82525a09f5473f9a41eab68793e19b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 13/21] fix: X25519 public-key derivation always panicked on
 its base point

---
 spec-examples/src/curve25519/curve25519.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spec-examples/src/curve25519/curve25519.rs b/spec-examples/src/curve25519/curve25519.rs
index f5911b6..2d0e95e 100644
--- a/spec-examples/src/curve25519/curve25519.rs
+++ b/spec-examples/src/curve25519/curve25519.rs
@@ -97,7 +97,8 @@ pub fn scalarmult(s: SerializedScalar, p: SerializedPoint) -> SerializedPoint {
 }
 
 pub fn secret_to_public(s: SerializedScalar) -> SerializedPoint {
-    let base = SerializedPoint::from_hex("09");
+    let mut base = SerializedPoint::new();
+    base[0] = U8(9);
     scalarmult(s, base)
 }
 
-- 
2.43.0


From 65867a186ae86672d56ac89fe3a10056e64049dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 14/21] fix: bounded integers rejected their maximum and
 accepted values below their minimum

---
 abstract-integers/src/abstract_int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index e077062..b1353e9 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -70,7 +70,8 @@ macro_rules! abstract_int {
         impl From<BigInt> for $name {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
-                assert!(x < max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x >= -max_value, "{} is too small for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From 118b1cbbd08a727c2895fa8a58c7b2ac7a63ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 15/21] fix: from_signed_literal turned negative literals into
 large positive numbers

---
 abstract-integers/src/abstract_int.rs | 2 +-
 abstract-integers/src/nat_mod.rs      | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index b1353e9..3f1f8bb 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -33,7 +33,7 @@ macro_rules! abstract_int {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigInt::from(x as u128);
+                let big_x = BigInt::from(x);
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index ed2d014..1ea5959 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -67,6 +67,9 @@ macro_rules! modular_integer {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
+                if x < 0 {
+                    panic!("literal {} too small for type {}", x, stringify!($name));
+                }
                 let big_x = BigUint::from(x as u128);
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
-- 
2.43.0


From 98ab23a7717a54de0b55af478f18219f4f7c78ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 16/21] fix: modular integers kept a literal equal to the
 modulus unreduced

---
 abstract-integers/src/nat_mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index 1ea5959..57507bd 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -62,7 +62,9 @@ macro_rules! modular_integer {
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let x: $base = big_x.into();
+                // Reduces: the modulus itself is accepted and is zero.
+                x.into()
             }
 
             #[allow(dead_code)]
@@ -74,7 +76,9 @@ macro_rules! modular_integer {
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let x: $base = big_x.into();
+                // Reduces: the modulus itself is accepted and is zero.
+                x.into()
             }
         }
     };
-- 
2.43.0


From 40dfe4de51b5497ac7aa3e998a6c5d49f1ff01e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 17/21] fix: pow panicked for exponents that do not fit the
 integer type

---
 abstract-integers/src/abstract_int.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 3f1f8bb..b410e1a 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -153,7 +153,10 @@ macro_rules! abstract_public {
             /// The exponent is a u128.
             #[allow(dead_code)]
             pub fn pow(self, exp: u128, modval: Self) -> Self {
-                self.pow_felem(BigInt::from(exp).into(), modval)
+                let a: BigInt = self.into();
+                let m: BigInt = modval.into();
+                let c: BigInt = a.modpow(&BigInt::from(exp), &m);
+                c.into()
             }
 
             fn rem(self, n: Self) -> Self {
-- 
2.43.0


From ec12bb8354e4d77043d1435cea3f36044c573c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 18/21] fix: generic rotation of negative signed integers
 smeared the sign bit

---
 hacspec/src/machine_integers.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index a15a5a3..f5850c2 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -97,6 +97,22 @@ macro_rules! implement_public_mi {
             fn from_literal(val: u128) -> Self {
                 val as $t
             }
+
+            // The default implementation is for unsigned integers only; the
+            // right shift of signed integers is arithmetic.
+            #[inline]
+            #[cfg_attr(feature="use_attributes", library(hacspec))]
+            fn rotate_left(self, n: u32) -> Self {
+                assert!(n < Self::NUM_BITS);
+                <$t>::rotate_left(self, n)
+            }
+
+            #[inline]
+            #[cfg_attr(feature="use_attributes", library(hacspec))]
+            fn rotate_right(self, n: u32) -> Self {
+                assert!(n < Self::NUM_BITS);
+                <$t>::rotate_right(self, n)
+            }
         }
         impl NumericBase for $t {
             /// Return largest value that can be represented.
@@ -341,6 +357,22 @@ macro_rules! implement_secret_mi {
             fn from_literal(val: u128) -> Self {
                 Self::classify(val as $base)
             }
+
+            // The default implementation is for unsigned integers only; the
+            // right shift of signed integers is arithmetic.
+            #[inline]
+            #[cfg_attr(feature="use_attributes", library(hacspec))]
+            fn rotate_left(self, n: u32) -> Self {
+                assert!(n < Self::NUM_BITS);
+                <$t>::rotate_left(self, n)
+            }
+
+            #[inline]
+            #[cfg_attr(feature="use_attributes", library(hacspec))]
+            fn rotate_right(self, n: u32) -> Self {
+                assert!(n < Self::NUM_BITS);
+                <$t>::rotate_right(self, n)
+            }
         }
         impl NumericBase for $t {
             /// Return largest value that can be represented.
-- 
2.43.0


From 277ce759af71fb2949db0e677f389d5e573ec1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 19/21] fix: hex parsers accepted a plus sign as the first of
 two hex digits

---
 abstract-integers/src/abstract_int.rs | 2 ++
 hacspec/src/array.rs                  | 2 ++
 hacspec/src/util.rs                   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index b410e1a..8a39df7 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -15,6 +15,8 @@ macro_rules! abstract_int {
 
             fn hex_string_to_bytes(s: &str) -> Vec<u8> {
                 assert!(s.len() % 2 == 0, "length of hex string {}: {}",s, s.len());
+                // `from_str_radix` accepts a leading `+`, which is not a hex digit.
+                assert!(!s.contains('+'), "Error parsing hex string");
                 let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
diff --git a/hacspec/src/array.rs b/hacspec/src/array.rs
index 4b63c8e..ee8db5c 100644
--- a/hacspec/src/array.rs
+++ b/hacspec/src/array.rs
@@ -247,6 +247,8 @@ macro_rules! _array_base {
             }
             fn hex_string_to_vec(s: &str) -> Vec<$t> {
                 debug_assert!(s.len() % std::mem::size_of::<$t>() == 0);
+                // `from_str_radix` accepts a leading `+`, which is not a hex digit.
+                assert!(!s.contains('+'), "Error parsing hex string");
                 let b: Result<Vec<$t>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map(<$t>::from))
diff --git a/hacspec/src/util.rs b/hacspec/src/util.rs
index 6895f48..8e25f6c 100644
--- a/hacspec/src/util.rs
+++ b/hacspec/src/util.rs
@@ -9,6 +9,8 @@ use crate::prelude::*;
 #[cfg_attr(feature="use_attributes", internal(hacspec))]
 pub fn hex_string_to_bytes(s: &str) -> Vec<u8> {
     debug_assert!(s.len() % 2 == 0);
+    // `from_str_radix` accepts a leading `+`, which is not a hex digit.
+    assert!(!s.contains('+'), "Error parsing hex string");
     let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
         .step_by(2)
         .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
-- 
2.43.0


From dd6c61b31a8e4f1f713aac0504d0eea3adc758db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 20/21] fix: inverses were wrong for moduli that are not prime

---
 abstract-integers/src/abstract_int.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 8a39df7..400b0dc 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -135,12 +135,29 @@ macro_rules! abstract_int {
 macro_rules! abstract_public {
     ($name:ident) => {
         impl $name {
+            /// Returns the inverse of self modulo the argument, and zero for zero.
+            /// **Panics** if self is not zero and has no inverse.
             #[allow(dead_code)]
             pub fn inv(self, modval: Self) -> Self {
-                let biguintmodval : BigInt = modval.into();
-                let m = &biguintmodval - BigInt::from(2u32);
-                let s: BigInt = (self).into();
-                s.modpow(&m, &biguintmodval).into()
+                let n: BigInt = modval.into();
+                let s: BigInt = self.into();
+                // Extended Euclid; r = t * s and new_r = new_t * s modulo n.
+                let (mut t, mut r) = (BigInt::zero(), n.clone());
+                let (mut new_t, mut new_r) = (BigInt::one(), ((s % &n) + &n) % &n);
+                if new_r.is_zero() {
+                    return BigInt::zero().into();
+                }
+                while !new_r.is_zero() {
+                    let q = &r / &new_r;
+                    let tmp = t - &q * &new_t;
+                    t = std::mem::replace(&mut new_t, tmp);
+                    let tmp = r - &q * &new_r;
+                    r = std::mem::replace(&mut new_r, tmp);
+                }
+                if !r.is_one() {
+                    panic!("{} has no inverse modulo {}", self, n);
+                }
+                (((t % &n) + &n) % &n).into()
             }
 
             #[allow(dead_code)]
-- 
2.43.0


From 1ca61f57f15a423d866e471a41a0a6cf55771c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 21/21] fix: signed hex parser turned values without a sign
 into zero

---
 abstract-integers/src/abstract_int.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 400b0dc..f1d59a6 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -364,9 +364,8 @@ macro_rules! abstract_signed {
             #[allow(dead_code)]
             pub fn from_hex(sign: &str, s: &str) -> Self {
                 let sign = match sign {
-                    "+" => Sign::Plus,
+                    "+" | "" => Sign::Plus,
                     "-" => Sign::Minus,
-                    "" => Sign::NoSign,
                     _ => panic!("from_hex requires the first argument to be + or -")
                 };
                 BigInt::from_bytes_be(sign, &Self::hex_string_to_bytes(s)).into()
-- 
2.43.0

