From 18f7c704b354b45ac1f8646600b5e71ebe46d118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 01/24] fix: check a push's length against the script before
 allocating for it

---
 bitcoin-cash/src/script.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 7cbc33d..547402a 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -214,6 +214,9 @@ pub fn deserialize_ops(bytes: &[u8]) -> error::Result<Vec<Op>> {
                 continue;
             }
         };
+        if push_len > bytes.len() - i {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let mut vec = vec![0; push_len];
         cur.read_exact(&mut vec)?;
         i += push_len;
-- 
2.43.0


From 766344dfc947fd33506d5277992b7831cb717b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 02/24] fix: don't allocate for a claimed item count larger
 than the input

---
 bitcoin-cash/src/bitcoin_code.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/bitcoin_code.rs b/bitcoin-cash/src/bitcoin_code.rs
index 0b7ba91..1b740d3 100644
--- a/bitcoin-cash/src/bitcoin_code.rs
+++ b/bitcoin-cash/src/bitcoin_code.rs
@@ -64,7 +64,8 @@ impl<T: BitcoinCode> BitcoinCode for Vec<T> {
 
     fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
         let (len, mut byte_array) = read_size(data)?;
-        let mut vec = Vec::with_capacity(len);
+        // `len` is untrusted, an item takes up at least one byte.
+        let mut vec = Vec::with_capacity(len.min(byte_array.len()));
         for _ in 0..len {
             let (item, rest) = T::deser_rest(byte_array)?;
             vec.push(item);
-- 
2.43.0


From 079b511303fd9a9a37af5589608369e88676db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 03/24] fix: reject variable length integers that are not in
 their shortest form

---
 bitcoin-cash-base/src/encoding_utils.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bitcoin-cash-base/src/encoding_utils.rs b/bitcoin-cash-base/src/encoding_utils.rs
index db3cc59..480b351 100644
--- a/bitcoin-cash-base/src/encoding_utils.rs
+++ b/bitcoin-cash-base/src/encoding_utils.rs
@@ -4,12 +4,19 @@ use std::io;
 
 pub fn read_var_int<R: io::Read>(read: &mut R) -> io::Result<u64> {
     let first_byte = read.read_u8()?;
-    match first_byte {
-        0..=0xfc => Ok(first_byte as u64),
-        0xfd => Ok(read.read_u16::<LittleEndian>()? as u64),
-        0xfe => Ok(read.read_u32::<LittleEndian>()? as u64),
-        0xff => Ok(read.read_u64::<LittleEndian>()? as u64),
+    let (number, min_number) = match first_byte {
+        0..=0xfc => (first_byte as u64, 0),
+        0xfd => (read.read_u16::<LittleEndian>()? as u64, 0xfd),
+        0xfe => (read.read_u32::<LittleEndian>()? as u64, 0x10000),
+        0xff => (read.read_u64::<LittleEndian>()? as u64, 0x1_0000_0000),
+    };
+    if number < min_number {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "Variable length integer is not encoded in its shortest form",
+        ));
     }
+    Ok(number)
 }
 
 pub fn write_var_int<W: io::Write>(write: &mut W, number: u64) -> io::Result<()> {
-- 
2.43.0


From 8d4cca8d0789097b11456518971cabff1aa99d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 04/24] fix: decode an empty byte array as no items

---
 bitcoin-cash/src/serializer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash/src/serializer.rs b/bitcoin-cash/src/serializer.rs
index db988f0..a496370 100644
--- a/bitcoin-cash/src/serializer.rs
+++ b/bitcoin-cash/src/serializer.rs
@@ -13,12 +13,10 @@ where
 
 pub fn decode_bitcoin_code_all<T: BitcoinCode>(mut byte_array: ByteArray) -> Result<Vec<T>> {
     let mut items = Vec::new();
-    loop {
+    while !byte_array.is_empty() {
         let (item, rest) = T::deser_rest(byte_array)?;
         byte_array = rest;
         items.push(item);
-        if byte_array.is_empty() {
-            return Ok(items);
-        }
     }
+    Ok(items)
 }
-- 
2.43.0


From 80f9561d73eda81ae1b861dbb07dc4ca6165c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 05/24] fix: decode a Tx into the transaction its bytes
 describe

---
 bitcoin-cash/src/tx.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bitcoin-cash/src/tx.rs b/bitcoin-cash/src/tx.rs
index a945abd..62b1275 100644
--- a/bitcoin-cash/src/tx.rs
+++ b/bitcoin-cash/src/tx.rs
@@ -1,5 +1,6 @@
 use crate::{
-    BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
+    error::Result, BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages,
+    TxPreimage,
 };
 use serde::{Deserialize, Serialize};
 
@@ -54,14 +55,11 @@ pub struct UnhashedTx {
     pub lock_time: u32,
 }
 
-#[bitcoin_code(crate = "crate")]
-#[derive(BitcoinCode, Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
 #[serde(rename_all = "camelCase")]
 pub struct Tx {
-    #[bitcoin_code(skip)]
     unhashed_tx: UnhashedTx,
 
-    #[bitcoin_code(skip)]
     hash: Sha256d,
 
     raw: ByteArray,
@@ -138,6 +136,17 @@ impl Tx {
     }
 }
 
+impl BitcoinCode for Tx {
+    fn ser(&self) -> ByteArray {
+        self.raw.ser().named("raw")
+    }
+
+    fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
+        let (raw, rest) = ByteArray::deser_rest(data)?;
+        Ok((UnhashedTx::deser(raw)?.hashed(), rest))
+    }
+}
+
 impl Default for UnhashedTx {
     fn default() -> Self {
         UnhashedTx {
-- 
2.43.0


From 1c9c14da590481d20083d2ce408fa743d05db29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 06/24] fix: reject addresses with a wrong payload length,
 non-zero padding or mixed case

---
 bitcoin-cash/src/address.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index 03a41ef..6d37656 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -8,6 +8,10 @@ use crate::{Hash160, Hashed, Pubkey, Script};
 
 const CHARSET: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
 
+// Number of base32 letters of the version byte and the 20 byte hash, and of the checksum.
+const PAYLOAD_LEN: usize = 34;
+const CHECKSUM_LEN: usize = 8;
+
 #[derive(Clone, Debug, Eq, PartialEq, Hash)]
 pub struct Address<'a> {
     addr_type: AddressType,
@@ -42,6 +46,12 @@ pub enum CashAddrError {
     InvalidBase32Letter(usize, u8),
     #[error("Invalid address type {0}")]
     InvalidAddressType(u8),
+    #[error("Address mixes upper and lower case")]
+    MixedCase,
+    #[error("Invalid payload length {0}")]
+    InvalidPayloadLength(usize),
+    #[error("Non-zero padding")]
+    InvalidPadding,
 }
 
 impl Prefix {
@@ -368,6 +378,11 @@ fn _from_cash_addr<'a>(
     addr_string: &str,
     default_prefix: &'a str,
 ) -> std::result::Result<([u8; 20], AddressType, Cow<'a, str>), CashAddrError> {
+    if addr_string.bytes().any(|x| x.is_ascii_lowercase())
+        && addr_string.bytes().any(|x| x.is_ascii_uppercase())
+    {
+        return Err(CashAddrError::MixedCase);
+    }
     let addr_string = addr_string.to_ascii_lowercase();
     let (prefix, payload_base32): (Cow<'a, _>, _) = if let Some(pos) = addr_string.find(':') {
         let (prefix, payload_base32) = addr_string.split_at(pos + 1);
@@ -382,9 +397,13 @@ fn _from_cash_addr<'a>(
     if !_verify_checksum(&prefix, decoded.iter().cloned()) {
         return Err(CashAddrError::InvalidChecksum);
     }
-    let converted = _convert_bits(decoded.iter().cloned(), 5, 8, true).unwrap();
+    if decoded.len() != PAYLOAD_LEN + CHECKSUM_LEN {
+        return Err(CashAddrError::InvalidPayloadLength(decoded.len()));
+    }
+    let converted = _convert_bits(decoded[..PAYLOAD_LEN].iter().cloned(), 5, 8, false)
+        .ok_or(CashAddrError::InvalidPadding)?;
     let mut addr = [0; 20];
-    addr.copy_from_slice(&converted[1..converted.len() - 6]);
+    addr.copy_from_slice(&converted[1..]);
     Ok((
         addr,
         match converted[0] {
-- 
2.43.0


From d4bdd68d1569cac01b87282d9c479368c266de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 07/24] fix: classify a template with a hash that is not 20
 bytes as unknown

---
 bitcoin-cash/src/destination.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/destination.rs b/bitcoin-cash/src/destination.rs
index 627595a..3e4096c 100644
--- a/bitcoin-cash/src/destination.rs
+++ b/bitcoin-cash/src/destination.rs
@@ -22,7 +22,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
 
     use PatternOp::Array;
     match pattern_ops.as_slice() {
-        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] => {
+        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
@@ -31,7 +31,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
                 ),
             )
         }
-        [OP_HASH160, Array(hash), OP_EQUAL] => {
+        [OP_HASH160, Array(hash), OP_EQUAL] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
-- 
2.43.0


From 6ec9d66e7beb5ab91597f0f7893ea2d39eddae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 08/24] fix: decode script numbers of 32 bit magnitude or
 padded past four bytes exactly

---
 bitcoin-cash-base/src/encoding_utils.rs | 36 +++++++++++--------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/bitcoin-cash-base/src/encoding_utils.rs b/bitcoin-cash-base/src/encoding_utils.rs
index 480b351..f0d4112 100644
--- a/bitcoin-cash-base/src/encoding_utils.rs
+++ b/bitcoin-cash-base/src/encoding_utils.rs
@@ -1,5 +1,6 @@
 use crate::InnerInteger;
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
+use std::convert::TryFrom;
 use std::io;
 
 pub fn read_var_int<R: io::Read>(read: &mut R) -> io::Result<u64> {
@@ -100,28 +101,21 @@ pub fn encode_bool(b: bool) -> Vec<u8> {
     }
 }
 
-fn try_shl(a: InnerInteger, b: u32, vec: &[u8]) -> Result<InnerInteger, String> {
-    a.checked_shl(b)
-        .ok_or_else(|| format!("Overflow for {}", hex::encode(vec)))
-}
-
 pub fn vec_to_int(vec: &[u8]) -> Result<InnerInteger, String> {
-    if vec.is_empty() {
-        return Ok(0);
-    }
-    let mut shift = 0;
-    let mut int = 0;
-    let sign_bit = vec[vec.len() - 1] & 0x80;
-    for (i, value) in vec.iter().enumerate() {
-        if i == vec.len() - 1 && sign_bit != 0 {
-            int += try_shl((*value ^ sign_bit) as InnerInteger, shift, vec)?;
-            int *= -1;
-        } else {
-            if *value != 0 {
-                int += try_shl(*value as InnerInteger, shift, vec)?;
-            }
-            shift += 8;
+    let overflow = || format!("Overflow for {}", hex::encode(vec));
+    let is_negative = vec.last().map_or(false, |last| last & 0x80 != 0);
+    let mut magnitude = 0i64;
+    for (i, &value) in vec.iter().enumerate() {
+        // The last byte's top bit is the sign.
+        let value = if i == vec.len() - 1 { value & 0x7f } else { value };
+        if value == 0 {
+            continue;
+        }
+        if i >= std::mem::size_of::<InnerInteger>() {
+            return Err(overflow());
         }
+        magnitude |= (value as i64) << (8 * i);
     }
-    Ok(int)
+    let int = if is_negative { -magnitude } else { magnitude };
+    InnerInteger::try_from(int).map_err(|_| overflow())
 }
-- 
2.43.0


From 3a2850048d173c9780dcce1aba0db1604808e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 09/24] fix: don't overflow computing the largest number for a
 huge width

---
 bitcoin-cash-base/src/byte_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 1ddd85e..8e3c07e 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -429,7 +429,7 @@ impl ByteArray {
         if inner_n_bytes <= 0 {
             return Err(ByteArrayError::FromIntegerError { int, n_bytes });
         }
-        let max_bits = (inner_n_bytes * 8 - 1).min(31) as u128;
+        let max_bits = (inner_n_bytes.min(4) * 8 - 1) as u128;
         let max_num: u128 = 1 << max_bits;
         let max_num = (max_num - 1) as InnerInteger;
         let min_num = -max_num;
-- 
2.43.0


From 8b9e4c14616d806943c0c6764e75b59b2cc7eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 10/24] fix: don't split a signature's preimage as if it were
 the signature's parts

---
 bitcoin-cash-base/src/byte_array.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 8e3c07e..546dcbc 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -320,7 +320,7 @@ impl ByteArray {
         let other = data.split_off(at);
         let mut function = Function::Plain;
         let (left_preimage, right_preimage) = match self.preimage {
-            Some(preimage) if !self.function.should_keep_intact() => {
+            Some(preimage) if self.function == Function::Plain => {
                 let mut left_preimage = Vec::new();
                 let mut right_preimage = Vec::new();
                 let mut is_left = true;
@@ -349,11 +349,12 @@ impl ByteArray {
                 }
                 (Some(left_preimage), Some(right_preimage))
             }
-            Some(_) => {
+            // The preimage is what the function was applied to, not the parts of the data.
+            Some(_) if self.function.should_keep_intact() => {
                 function = Function::UnexpectedSplit;
                 (None, None)
             }
-            None => (None, None),
+            _ => (None, None),
         };
         Ok((
             ByteArray {
-- 
2.43.0


From d520fd8e2485dce868e2661e0b75585c0bc6b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 11/24] fix: reject hex of the wrong length when loading a
 fixed size byte array

---
 bitcoin-cash-base/src/byte_array.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 546dcbc..1742e0b 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -725,6 +725,12 @@ where
                 data.reverse();
             }
             let mut array = T::default();
+            if data.len() != array.as_mut().len() {
+                return Err(serde::de::Error::custom(ByteArrayError::InvalidSlice {
+                    expected: array.as_mut().len(),
+                    actual: data.len(),
+                }));
+            }
             array.as_mut().copy_from_slice(&data);
             Ok(FixedByteArray::new_unnamed(array))
         } else {
-- 
2.43.0


From 91f2ca3e40c32ef75ea182d4606e2f9ae0f36b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 12/24] fix: reject transaction documents with dangling, cyclic
 or too deep byte array references

---
 bitcoin-cash/src/serialize_json.rs | 68 ++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/bitcoin-cash/src/serialize_json.rs b/bitcoin-cash/src/serialize_json.rs
index 3a6a2ab..90ca22e 100644
--- a/bitcoin-cash/src/serialize_json.rs
+++ b/bitcoin-cash/src/serialize_json.rs
@@ -19,8 +19,14 @@ struct JsonData {
 
     #[serde(skip)]
     data_indices: BiMap<Arc<[u8]>, usize>,
+
+    #[serde(skip)]
+    built_byte_arrays: Vec<ByteArray>,
 }
 
+/// Preimages nested deeper than this are not imported, as handling them could exhaust the stack.
+const MAX_PREIMAGE_DEPTH: usize = 1000;
+
 struct JsonByteArray {
     data_idx: usize,
     function: Function,
@@ -95,6 +101,12 @@ pub enum JsonError {
     #[error("Invalid data_idx: {idx}")]
     InvalidStringIdx { idx: usize },
 
+    #[error("Invalid byte array idx: {idx}")]
+    InvalidByteArrayIdx { idx: usize },
+
+    #[error("Byte array nested too deeply: {idx}")]
+    ByteArrayTooDeep { idx: usize },
+
     #[error("Invalid hash")]
     InvalidHash,
 
@@ -156,6 +168,7 @@ impl JsonTx {
             outputs: Vec::with_capacity(self.outputs.len()),
             lock_time: self.lock_time,
         };
+        self.data.build_byte_arrays()?;
         let JsonTx {
             data,
             inputs,
@@ -256,7 +269,7 @@ impl JsonTaggedOp {
         }
     }
 
-    fn to_tagged_op(&self, data: &mut JsonData) -> Result<TaggedOp, JsonError> {
+    fn to_tagged_op(&self, data: &JsonData) -> Result<TaggedOp, JsonError> {
         let op = match self.op {
             JsonOp::Code(code) => {
                 let opcode: Option<Opcode> = num::FromPrimitive::from_u8(code);
@@ -346,17 +359,39 @@ impl JsonData {
         }
     }
 
-    fn get_byte_array(&mut self, byte_array_idx: usize) -> Result<ByteArray, JsonError> {
-        let preimage = self.byte_arrays[byte_array_idx]
-            .preimage_indices
-            .clone()
-            .map(|preimage_indices| {
-                preimage_indices
-                    .iter()
-                    .map(|&idx| self.get_byte_array(idx))
-                    .collect::<Result<Vec<_>, _>>()
-            })
-            .map_or(Ok(None), |preimage| preimage.map(Some))?;
+    /// Builds every byte array once. Preimages always come before what they're the preimage of.
+    fn build_byte_arrays(&mut self) -> Result<(), JsonError> {
+        let mut depths = Vec::with_capacity(self.byte_arrays.len());
+        for byte_array_idx in 0..self.byte_arrays.len() {
+            let (preimage, depth) = match &self.byte_arrays[byte_array_idx].preimage_indices {
+                Some(preimage_indices) => {
+                    let mut depth = 0;
+                    let mut preimage = Vec::with_capacity(preimage_indices.len());
+                    for &idx in preimage_indices {
+                        preimage.push(self.get_byte_array(idx)?);
+                        depth = depth.max(depths[idx] + 1);
+                    }
+                    (Some(preimage), depth)
+                }
+                None => (None, 0),
+            };
+            if depth > MAX_PREIMAGE_DEPTH {
+                return Err(JsonError::ByteArrayTooDeep {
+                    idx: byte_array_idx,
+                });
+            }
+            let byte_array = self.build_byte_array(byte_array_idx, preimage)?;
+            self.built_byte_arrays.push(byte_array);
+            depths.push(depth);
+        }
+        Ok(())
+    }
+
+    fn build_byte_array(
+        &mut self,
+        byte_array_idx: usize,
+        preimage: Option<Vec<ByteArray>>,
+    ) -> Result<ByteArray, JsonError> {
         let json = &self.byte_arrays[byte_array_idx];
         let data = if let Some(data) = self.data_indices.get_by_right(&json.data_idx) {
             Arc::clone(data)
@@ -381,6 +416,15 @@ impl JsonData {
         ))
     }
 
+    fn get_byte_array(&self, byte_array_idx: usize) -> Result<ByteArray, JsonError> {
+        self.built_byte_arrays
+            .get(byte_array_idx)
+            .cloned()
+            .ok_or(JsonError::InvalidByteArrayIdx {
+                idx: byte_array_idx,
+            })
+    }
+
     #[allow(clippy::ptr_arg)]
     fn insert_string(&mut self, cow: &Cow<'static, str>) -> usize {
         if let Some(&string_idx) = self.string_indices.get(cow) {
-- 
2.43.0


From de52cd49f318534d6ae4a345754274dce5890751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 13/24] fix: describe OP_DEPTH as pushing a new number, not as
 copying an input it doesn't have

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 9047872..6823984 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -2920,7 +2920,7 @@ impl Opcode {
                 &[2, 3, 0, 1],
                 &[MovedIndirectly, MovedIndirectly, Moved, Moved],
             ),
-            OP_DEPTH => o(&[], &[Integer], &[0], &[Added]),
+            OP_DEPTH => u(&[], &[Integer], &[Added]),
             OP_DROP => o(&[T], &[], &[], &[]),
             OP_DUP => o(&[T], &[T, T], &[0, 0], &[Observed, Added]),
             OP_NIP => o(&[T, T], &[T], &[1], &[MovedIndirectly]),
-- 
2.43.0


From eb3696978769059e9eed8bb08bd2e1456b3a9ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 14/24] fix: keep operations after a nested OP_ENDIF in the
 branch of the enclosing OP_IF they were written in

---
 bitcoin-cash-script-macro/src/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index 60a8880..d836362 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -449,7 +449,6 @@ fn parse_opcode_inputs(
 fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::Error> {
     let mut new_stmts = Vec::new();
     let mut if_stack = Vec::new();
-    let mut is_then = true;
     struct If {
         if_opcode: ir::OpcodeStmt,
         if_token_stream: TokenStream,
@@ -473,11 +472,9 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                         then_stmts: vec![],
                         else_stmts: vec![],
                     });
-                    is_then = true;
                     continue;
                 }
                 "OP_ELSE" => {
-                    is_then = false;
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
@@ -514,7 +511,7 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
             new_stmts.push(stmt);
         } else {
             let top_if = if_stack.last_mut().unwrap();
-            if is_then {
+            if top_if.else_opcode.is_none() {
                 top_if.then_stmts.push(stmt);
             } else {
                 top_if.else_stmts.push(stmt);
-- 
2.43.0


From 00d5ac97136bf76e13198ccb60f44f522d46a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 15/24] fix: reject a second OP_ELSE for the same OP_IF instead
 of dropping the first one

---
 bitcoin-cash-script-macro/src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index d836362..819d3a4 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -478,6 +478,12 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
+                    if top_if.else_opcode.is_some() {
+                        return Err(syn::Error::new(
+                            opcode.expr_span,
+                            "OP_IF already has an OP_ELSE.",
+                        ));
+                    }
                     top_if.else_opcode = Some(opcode);
                     top_if.else_token_stream = Some(token_stream);
                     continue;
-- 
2.43.0


From 5396e2771b5058d7aeafa256ec0aacbbda40aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 16/24] fix: an unnamed item moved to or from the alt stack,
 picked or rolled takes the name it is given

---
 bitcoin-cash-script-macro/src/generate.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 3891030..ebcc810 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -850,6 +850,7 @@ impl GenerateScript {
                 ));
             }
             item.name = output_names[0].to_string();
+            item.has_generated_name = false;
         }
         Ok(())
     }
-- 
2.43.0


From 3a08f3de7feac65fa4cfd9c13a5d2e63646fc0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 17/24] fix: OP_PICK and OP_ROLL no longer move the variable of
 their depth, which other items may share

---
 bitcoin-cash-script-macro/src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index ebcc810..855ff7c 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -412,7 +412,7 @@ impl GenerateScript {
                     vec![],
                 );
                 Ok(quote_spanned! {expr_span=>
-                    #crate_ident::func::#ident(#input_name);
+                    #crate_ident::func::#ident(#input_name.clone());
                     #script_ident.push(#tagged_op);
                 })
             }
-- 
2.43.0


From 19c8c059a6016144c0bedfdcf13625f802856d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 18/24] fix: the size left by OP_SIZE no longer takes the name
 of the measured item

---
 bitcoin-cash-script-macro/src/generate.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 855ff7c..c788ce9 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -493,6 +493,15 @@ impl GenerateScript {
                 let name = ident.to_string();
                 if &name == "__" {
                     if opcode_type.retains_input() {
+                        if idx > 0 {
+                            pushed_stack_items.push(StackItem {
+                                name: new_ident.to_string(),
+                                ident: new_ident,
+                                has_generated_name: true,
+                                integer: None,
+                            });
+                            continue;
+                        }
                         let new_idx = 0;
                         pushed_stack_items.push(StackItem {
                             ident: new_ident,
@@ -535,9 +544,9 @@ impl GenerateScript {
                     }
                 }
                 None => {
-                    for _ in 0..behavior.output_types.len() {
+                    for idx in 0..behavior.output_types.len() {
                         let ident = self.make_ident(outputs_span);
-                        if opcode_type.retains_input() {
+                        if opcode_type.retains_input() && idx == 0 {
                             let new_idx = 0;
                             pushed_stack_items.push(StackItem {
                                 ident,
-- 
2.43.0


From 70dfb625fff057121407e59762b3666a3f010aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 19/24] fix: deriving BitcoinCode works for a struct with a
 field named data

---
 bitcoin-cash-code/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 93a412a..39fd86e 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -93,6 +93,7 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
     };
 
     let parts_ident = quote! {__serialize_parts};
+    let data_ident = quote! {__deserialize_data};
 
     let mut ser_calls = Vec::new();
     let mut deser_calls = Vec::new();
@@ -135,7 +136,7 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                 #parts_ident.push(self.#field_name.ser().named(#field_name_str));
             });
             deser_calls.push(quote! {
-                let (#field_name, data) = <#field_type as #crate_name::BitcoinCode>::deser_rest(data)?;
+                let (#field_name, #data_ident) = <#field_type as #crate_name::BitcoinCode>::deser_rest(#data_ident)?;
             })
         } else {
             deser_calls.push(quote! {
@@ -154,11 +155,11 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                 #crate_name::ByteArray::from_parts(#parts_ident)
             }
 
-            fn deser_rest(data: #crate_name::ByteArray) -> std::result::Result<(Self, #crate_name::ByteArray), #crate_name::error::Error> {
+            fn deser_rest(#data_ident: #crate_name::ByteArray) -> std::result::Result<(Self, #crate_name::ByteArray), #crate_name::error::Error> {
                 #(#deser_calls)*
                 Ok((
                     #struct_name { #(#field_idents),* },
-                    data,
+                    #data_ident,
                 ))
             }
         }
-- 
2.43.0


From 39503153e607743fbd1ad47a1a53168b1374c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 20/24] fix: only bitcoin_code(skip) skips a field in the
 derived encoding, not a skip of another attribute

---
 bitcoin-cash-code/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 39fd86e..e7aff9f 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -109,6 +109,9 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                 syn::Meta::NameValue(_) => {
                     return Err(syn::Error::new(attr.span(), "Invalid attribute"))
                 }
+                syn::Meta::List(list) if !list.path.is_ident("bitcoin_code") => {
+                    return Err(syn::Error::new(attr.span(), "Invalid attribute"))
+                }
                 syn::Meta::List(list) => {
                     let params = list
                         .nested
-- 
2.43.0


From c80d26d73f099042897488df0b0acd3ac61fd39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 21/24] fix: tag script operations with the line and column of
 their statement again, not those of the script attribute

---
 bitcoin-cash-script-macro/src/generate.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index c788ce9..aa435c5 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -87,6 +87,7 @@ impl GenerateScript {
                 }
             });
             impl_pushops.push(self.make_tagged_op(
+                span,
                 &crate_ident,
                 &quote!{self.#ident.to_pushop()},
                 src_code,
@@ -210,6 +211,7 @@ impl GenerateScript {
                         }
                     });
                     self.make_tagged_op(
+                        ident.span(),
                         &crate_ident,
                         &quote! {#ident.to_pushop()},
                         src_code,
@@ -315,6 +317,7 @@ impl GenerateScript {
         let script_ident = &self.script_ident;
         let expr = push.expr;
         let tagged_op = self.make_tagged_op(
+            span,
             crate_ident,
             &quote!{(#expr).to_pushop()},
             src,
@@ -346,6 +349,7 @@ impl GenerateScript {
                 let name = item.name_tokens();
                 self.push_alt(item);
                 let tagged_op = self.make_tagged_op(
+                    expr_span,
                     crate_ident,
                     &quote!{#crate_ident::Op::Code(#ident)},
                     src,
@@ -364,6 +368,7 @@ impl GenerateScript {
                 let name = item.name_tokens();
                 self.push(item);
                 let tagged_op = self.make_tagged_op(
+                    expr_span,
                     crate_ident,
                     &quote!{#crate_ident::Op::Code(#ident)},
                     src,
@@ -405,6 +410,7 @@ impl GenerateScript {
                 let ident = opcode.ident;
                 let input_name = stack_item.ident;
                 let tagged_op = self.make_tagged_op(
+                    expr_span,
                     crate_ident,
                     &quote!{#crate_ident::Op::Code(#ident)},
                     src,
@@ -614,6 +620,7 @@ impl GenerateScript {
             #(#input_idents),*
         };
         let tagged_op = self.make_tagged_op(
+            expr_span,
             crate_ident,
             &quote!{#crate_ident::Op::Code(#ident)},
             src,
@@ -675,6 +682,7 @@ impl GenerateScript {
                 let depth = depth.value();
                 let script_ident = &self.script_ident;
                 let tagged_op = self.make_tagged_op(
+                    span,
                     crate_ident,
                     &quote!{((#depth) + (#offset)).to_pushop()},
                     src,
@@ -891,6 +899,7 @@ impl GenerateScript {
     }
 
     fn make_tagged_op(&self,
+        span: Span,
         crate_ident: &TokenStream,
         op: &TokenStream,
         src_code: impl IntoIterator<Item=TokenStream>,
@@ -901,12 +910,16 @@ impl GenerateScript {
         let pushed_names = pushed_names.into_iter();
         let alt_pushed_names = alt_pushed_names.into_iter();
         if self.enable_debug {
+            // These macros report the location of their own tokens.
+            let file = quote_spanned! {span=> file!() };
+            let line = quote_spanned! {span=> line!() };
+            let column = quote_spanned! {span=> column!() };
             quote! {
                 #crate_ident::TaggedOp {
                     op: #op,
-                    src_file: file!().into(),
-                    src_line: line!(),
-                    src_column: column!(),
+                    src_file: #file.into(),
+                    src_line: #line,
+                    src_column: #column,
                     src_code: vec![#(#src_code),*],
                     pushed_names: Some(vec![#(#pushed_names),*]),
                     alt_pushed_names: Some(vec![#(#alt_pushed_names),*]),
-- 
2.43.0


From 30fafb81a282500c11fec5aebb157a1fa6afc52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 22/24] fix: the script code of the n-th code separator starts
 after it, like that of the first

---
 bitcoin-cash/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 547402a..71b26e5 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -54,7 +54,7 @@ impl Script {
                     _ => continue,
                 }
             }
-            codesep_idx.expect("Couldn't find OP_CODESEPARATOR")
+            codesep_idx.expect("Couldn't find OP_CODESEPARATOR") + 1
         } else {
             0
         };
-- 
2.43.0


From 5d34ca1debc8474801195fc098e9913867e4a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:08 +0000
Subject: [PATCH 23/24] fix: depth_of and transmute with another number of
 output names than one are an error, like for other operations

---
 bitcoin-cash-script-macro/src/generate.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index aa435c5..0d96198 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -643,6 +643,19 @@ impl GenerateScript {
     ) -> Result<TokenStream, Error> {
         use ir::OpcodeInput::*;
         let opcode_name = opcode.ident.to_string();
+        match opcode.output_names.as_deref() {
+            None | Some(&[_]) => {}
+            Some(output_names) => {
+                return Err(Error::new(
+                    opcode.outputs_span,
+                    format!(
+                        "Invalid number of output names. {} creates 1 item, but {} defined.",
+                        opcode_name,
+                        output_names.len(),
+                    ),
+                ));
+            }
+        }
         match opcode_name.as_str() {
             "depth_of" | "depth_of_offset" => {
                 let src = self.next_formatted_stmts();
-- 
2.43.0


From 7ab147024b404c4b7882873c05cf76796627f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:50 +0000
Subject: [PATCH 24/24] fix: OP_CHECKSIGVERIFY leaves no item, so its behavior
 has no item delta

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 6823984..9200c68 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -3012,7 +3012,7 @@ impl Opcode {
             OP_HASH160 => u(&[ByteArray(None)], &[ByteArray(Some(20))], &[Changed]),
             OP_HASH256 => u(&[ByteArray(None)], &[ByteArray(Some(32))], &[Changed]),
             OP_CHECKSIG => u(&[ByteArray(None), ByteArray(None)], &[Boolean], &[Changed]),
-            OP_CHECKSIGVERIFY => u(&[ByteArray(None), ByteArray(None)], &[], &[Changed]),
+            OP_CHECKSIGVERIFY => u(&[ByteArray(None), ByteArray(None)], &[], &[]),
 
             OP_CHECKDATASIG => u(
                 &[ByteArray(None), ByteArray(None), ByteArray(None)],
-- 
2.43.0

