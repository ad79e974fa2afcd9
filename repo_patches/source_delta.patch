From 9a825cbde40dea92520d55b67c45d285c1e14a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 01/30] fix: do not allocate for an unbacked vector length when
 decoding

---
 bitcoin-cash/src/bitcoin_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/bitcoin_code.rs b/bitcoin-cash/src/bitcoin_code.rs
index 0b7ba91..fc5d9f4 100644
--- a/bitcoin-cash/src/bitcoin_code.rs
+++ b/bitcoin-cash/src/bitcoin_code.rs
@@ -64,7 +64,7 @@ impl<T: BitcoinCode> BitcoinCode for Vec<T> {
 
     fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
         let (len, mut byte_array) = read_size(data)?;
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::new();
         for _ in 0..len {
             let (item, rest) = T::deser_rest(byte_array)?;
             vec.push(item);
-- 
2.43.0


From 4415fde8ab0dbe846ece84c7171e67a0d2cacda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 02/30] fix: encode a hashed transaction as its wire bytes and
 decode it with contents and hash

---
 bitcoin-cash/src/tx.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bitcoin-cash/src/tx.rs b/bitcoin-cash/src/tx.rs
index a945abd..39c2254 100644
--- a/bitcoin-cash/src/tx.rs
+++ b/bitcoin-cash/src/tx.rs
@@ -1,5 +1,5 @@
 use crate::{
-    BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
+    error::Result, BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
 };
 use serde::{Deserialize, Serialize};
 
@@ -54,19 +54,27 @@ pub struct UnhashedTx {
     pub lock_time: u32,
 }
 
-#[bitcoin_code(crate = "crate")]
-#[derive(BitcoinCode, Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
 #[serde(rename_all = "camelCase")]
 pub struct Tx {
-    #[bitcoin_code(skip)]
     unhashed_tx: UnhashedTx,
 
-    #[bitcoin_code(skip)]
     hash: Sha256d,
 
     raw: ByteArray,
 }
 
+impl BitcoinCode for Tx {
+    fn ser(&self) -> ByteArray {
+        self.raw.clone()
+    }
+
+    fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
+        let (unhashed_tx, rest) = UnhashedTx::deser_rest(data)?;
+        Ok((unhashed_tx.hashed(), rest))
+    }
+}
+
 impl TxInput {
     pub fn new(prev_out: TxOutpoint, script: Script, sequence: u32) -> Self {
         TxInput {
-- 
2.43.0


From 400a4655f5d899f6426b8ebccc99e4573b5f4824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 03/30] fix: decode an empty byte string as an empty list of
 items

---
 bitcoin-cash/src/serializer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash/src/serializer.rs b/bitcoin-cash/src/serializer.rs
index db988f0..a496370 100644
--- a/bitcoin-cash/src/serializer.rs
+++ b/bitcoin-cash/src/serializer.rs
@@ -13,12 +13,10 @@ where
 
 pub fn decode_bitcoin_code_all<T: BitcoinCode>(mut byte_array: ByteArray) -> Result<Vec<T>> {
     let mut items = Vec::new();
-    loop {
+    while !byte_array.is_empty() {
         let (item, rest) = T::deser_rest(byte_array)?;
         byte_array = rest;
         items.push(item);
-        if byte_array.is_empty() {
-            return Ok(items);
-        }
     }
+    Ok(items)
 }
-- 
2.43.0


From 84669db45f98b92be42bb4d9c757dfe7c4fafd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 04/30] fix: report an overflow instead of misreading a too
 large script number

---
 bitcoin-cash-base/src/encoding_utils.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitcoin-cash-base/src/encoding_utils.rs b/bitcoin-cash-base/src/encoding_utils.rs
index db3cc59..dcf6837 100644
--- a/bitcoin-cash-base/src/encoding_utils.rs
+++ b/bitcoin-cash-base/src/encoding_utils.rs
@@ -95,6 +95,7 @@ pub fn encode_bool(b: bool) -> Vec<u8> {
 
 fn try_shl(a: InnerInteger, b: u32, vec: &[u8]) -> Result<InnerInteger, String> {
     a.checked_shl(b)
+        .filter(|shifted| shifted >> b == a)
         .ok_or_else(|| format!("Overflow for {}", hex::encode(vec)))
 }
 
-- 
2.43.0


From aebd73b8021807746d243746be057dc59e4576cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 05/30] fix: let structs deriving BitcoinCode have a field
 named data

---
 bitcoin-cash-code/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 93a412a..39fd86e 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -93,6 +93,7 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
     };
 
     let parts_ident = quote! {__serialize_parts};
+    let data_ident = quote! {__deserialize_data};
 
     let mut ser_calls = Vec::new();
     let mut deser_calls = Vec::new();
@@ -135,7 +136,7 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                 #parts_ident.push(self.#field_name.ser().named(#field_name_str));
             });
             deser_calls.push(quote! {
-                let (#field_name, data) = <#field_type as #crate_name::BitcoinCode>::deser_rest(data)?;
+                let (#field_name, #data_ident) = <#field_type as #crate_name::BitcoinCode>::deser_rest(#data_ident)?;
             })
         } else {
             deser_calls.push(quote! {
@@ -154,11 +155,11 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                 #crate_name::ByteArray::from_parts(#parts_ident)
             }
 
-            fn deser_rest(data: #crate_name::ByteArray) -> std::result::Result<(Self, #crate_name::ByteArray), #crate_name::error::Error> {
+            fn deser_rest(#data_ident: #crate_name::ByteArray) -> std::result::Result<(Self, #crate_name::ByteArray), #crate_name::error::Error> {
                 #(#deser_calls)*
                 Ok((
                     #struct_name { #(#field_idents),* },
-                    data,
+                    #data_ident,
                 ))
             }
         }
-- 
2.43.0


From bab3752e88271fd185e581d9ff2bcf9ec4102d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 06/30] fix: splitting a signature no longer records the signed
 message as its parts

---
 bitcoin-cash-base/src/byte_array.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 1ddd85e..e9de1f1 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -320,7 +320,7 @@ impl ByteArray {
         let other = data.split_off(at);
         let mut function = Function::Plain;
         let (left_preimage, right_preimage) = match self.preimage {
-            Some(preimage) if !self.function.should_keep_intact() => {
+            Some(preimage) if self.function == Function::Plain => {
                 let mut left_preimage = Vec::new();
                 let mut right_preimage = Vec::new();
                 let mut is_left = true;
@@ -350,7 +350,10 @@ impl ByteArray {
                 (Some(left_preimage), Some(right_preimage))
             }
             Some(_) => {
-                function = Function::UnexpectedSplit;
+                // the preimage of a function's result is not made of parts of the result
+                if self.function.should_keep_intact() {
+                    function = Function::UnexpectedSplit;
+                }
                 (None, None)
             }
             None => (None, None),
-- 
2.43.0


From 696fa2a006f79ca1a03d8d19e84762d22e45dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 07/30] fix: number padding to a huge width overflowed the bit
 count

---
 bitcoin-cash-base/src/byte_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index e9de1f1..c8e0355 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -432,7 +432,7 @@ impl ByteArray {
         if inner_n_bytes <= 0 {
             return Err(ByteArrayError::FromIntegerError { int, n_bytes });
         }
-        let max_bits = (inner_n_bytes * 8 - 1).min(31) as u128;
+        let max_bits = (inner_n_bytes.saturating_mul(8) - 1).min(31) as u128;
         let max_num: u128 = 1 << max_bits;
         let max_num = (max_num - 1) as InnerInteger;
         let min_num = -max_num;
-- 
2.43.0


From 4ba3d07dd57bb2e384a6f6c1147a71201f418790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 08/30] fix: amounts and fees beyond 64 bits overflowed in the
 transaction builder

---
 bitcoin-cash/src/tx_builder.rs | 39 ++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/bitcoin-cash/src/tx_builder.rs b/bitcoin-cash/src/tx_builder.rs
index 5f4c6b6..8cb7a47 100644
--- a/bitcoin-cash/src/tx_builder.rs
+++ b/bitcoin-cash/src/tx_builder.rs
@@ -339,11 +339,12 @@ impl<'b> TxBuilder<'b> {
     }
 
     pub fn build(self) -> Result<UnsignedTx<'b>> {
-        let known_output_amount = self.known_output_sum();
-        let total_input_amount = self.input_sum();
+        // sums and fees of 64-bit amounts may need more than 64 bits
+        let known_output_amount = self.known_output_total();
+        let total_input_amount = self.input_total();
         if known_output_amount > total_input_amount {
             return Err(Error::InsufficientInputAmount {
-                amount: known_output_amount - total_input_amount,
+                amount: saturating_u64(known_output_amount - total_input_amount),
             });
         }
         let mut total_leftover = total_input_amount - known_output_amount;
@@ -366,21 +367,21 @@ impl<'b> TxBuilder<'b> {
                 ..
             } = self.outputs[idx]
             {
-                if total_leftover <= lower_bound {
+                if total_leftover <= lower_bound as u128 {
                     continue;
                 }
-                let max_leftover = total_leftover.min(upper_bound);
+                let max_leftover = saturating_u64(total_leftover).min(upper_bound);
                 leftover_amounts.insert(idx, max_leftover);
                 let new_size = self.estimate_size(self.make_outputs(&leftover_amounts));
-                let fee = new_size as u64 * self.fee_per_kb / 1000;
+                let fee = new_size as u128 * self.fee_per_kb as u128 / 1000;
                 if fee <= total_leftover {
-                    let leftover = (total_leftover - fee).min(upper_bound);
+                    let leftover = saturating_u64(total_leftover - fee).min(upper_bound);
                     if leftover <= lower_bound {
                         leftover_amounts.remove(&idx);
                         continue;
                     }
                     leftover_amounts.insert(idx, leftover);
-                    total_leftover -= leftover;
+                    total_leftover -= leftover as u128;
                     estimated_size = Some(new_size);
                 } else {
                     leftover_amounts.remove(&idx);
@@ -408,22 +409,34 @@ impl<'b> TxBuilder<'b> {
     }
 
     pub fn known_output_sum(&self) -> u64 {
+        saturating_u64(self.known_output_total())
+    }
+
+    pub fn input_sum(&self) -> u64 {
+        saturating_u64(self.input_total())
+    }
+
+    fn known_output_total(&self) -> u128 {
         self
             .outputs
             .iter()
-            .map(|output| output.get_value())
-            .sum::<u64>()
+            .map(|output| output.get_value() as u128)
+            .sum()
     }
 
-    pub fn input_sum(&self) -> u64 {
+    fn input_total(&self) -> u128 {
         self
             .inputs
             .iter()
-            .map(|input| input.input.value)
-            .sum::<u64>()
+            .map(|input| input.input.value as u128)
+            .sum()
     }
 }
 
+fn saturating_u64(amount: u128) -> u64 {
+    amount.min(std::u64::MAX as u128) as u64
+}
+
 impl TxBuilderOutput {
     fn get_value(&self) -> u64 {
         match self {
-- 
2.43.0


From 3e9a0af720b5cb1050ca553f8db2429042045326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 09/30] fix: classify scripts with a hash of another length as
 unknown instead of panicking

---
 bitcoin-cash/src/destination.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/destination.rs b/bitcoin-cash/src/destination.rs
index 627595a..3e4096c 100644
--- a/bitcoin-cash/src/destination.rs
+++ b/bitcoin-cash/src/destination.rs
@@ -22,7 +22,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
 
     use PatternOp::Array;
     match pattern_ops.as_slice() {
-        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] => {
+        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
@@ -31,7 +31,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
                 ),
             )
         }
-        [OP_HASH160, Array(hash), OP_EQUAL] => {
+        [OP_HASH160, Array(hash), OP_EQUAL] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
-- 
2.43.0


From 8c1d0234d50a8fb8d8e6be9fa99d20fd682e6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 10/30] fix: reject hex of a wrong length for fixed-size byte
 arrays instead of panicking

---
 bitcoin-cash-base/src/byte_array.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index c8e0355..f5ea1e3 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -727,6 +727,12 @@ where
                 data.reverse();
             }
             let mut array = T::default();
+            if data.len() != array.as_ref().len() {
+                return Err(serde::de::Error::custom(ByteArrayError::InvalidSlice {
+                    expected: array.as_ref().len(),
+                    actual: data.len(),
+                }));
+            }
             array.as_mut().copy_from_slice(&data);
             Ok(FixedByteArray::new_unnamed(array))
         } else {
-- 
2.43.0


From bd3dab7f4c088f280b6cb3d4a228a5ff7cbc665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 11/30] fix: reject CashAddr payloads that are not exactly one
 hash

---
 bitcoin-cash/src/address.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index 03a41ef..f922a4b 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -42,6 +42,8 @@ pub enum CashAddrError {
     InvalidBase32Letter(usize, u8),
     #[error("Invalid address type {0}")]
     InvalidAddressType(u8),
+    #[error("Invalid payload")]
+    InvalidPayload,
 }
 
 impl Prefix {
@@ -382,9 +384,14 @@ fn _from_cash_addr<'a>(
     if !_verify_checksum(&prefix, decoded.iter().cloned()) {
         return Err(CashAddrError::InvalidChecksum);
     }
-    let converted = _convert_bits(decoded.iter().cloned(), 5, 8, true).unwrap();
+    let payload = &decoded[..decoded.len().saturating_sub(8)];
+    let converted = _convert_bits(payload.iter().cloned(), 5, 8, false)
+        .ok_or(CashAddrError::InvalidPayload)?;
     let mut addr = [0; 20];
-    addr.copy_from_slice(&converted[1..converted.len() - 6]);
+    if converted.len() != addr.len() + 1 {
+        return Err(CashAddrError::InvalidPayload);
+    }
+    addr.copy_from_slice(&converted[1..]);
     Ok((
         addr,
         match converted[0] {
-- 
2.43.0


From eebb7f108a0cd8d4f92fc74eaaeba033972a29af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 12/30] fix: reject CashAddr texts of mixed letter case

---
 bitcoin-cash/src/address.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index f922a4b..e56b2cb 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -44,6 +44,8 @@ pub enum CashAddrError {
     InvalidAddressType(u8),
     #[error("Invalid payload")]
     InvalidPayload,
+    #[error("Mixed upper and lower case")]
+    MixedCase,
 }
 
 impl Prefix {
@@ -370,6 +372,11 @@ fn _from_cash_addr<'a>(
     addr_string: &str,
     default_prefix: &'a str,
 ) -> std::result::Result<([u8; 20], AddressType, Cow<'a, str>), CashAddrError> {
+    if addr_string.bytes().any(|c| c.is_ascii_lowercase())
+        && addr_string.bytes().any(|c| c.is_ascii_uppercase())
+    {
+        return Err(CashAddrError::MixedCase);
+    }
     let addr_string = addr_string.to_ascii_lowercase();
     let (prefix, payload_base32): (Cow<'a, _>, _) = if let Some(pos) = addr_string.find(':') {
         let (prefix, payload_base32) = addr_string.split_at(pos + 1);
-- 
2.43.0


From 2676a4780b6f9e7654d30ccc12d91094e06092d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 13/30] fix: reject out-of-range, cyclic or too deep byte array
 references in JSON transactions

---
 bitcoin-cash/src/serialize_json.rs | 63 ++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/bitcoin-cash/src/serialize_json.rs b/bitcoin-cash/src/serialize_json.rs
index 3a6a2ab..cbcfa92 100644
--- a/bitcoin-cash/src/serialize_json.rs
+++ b/bitcoin-cash/src/serialize_json.rs
@@ -19,8 +19,14 @@ struct JsonData {
 
     #[serde(skip)]
     data_indices: BiMap<Arc<[u8]>, usize>,
+
+    // byte arrays already decoded, with the height of their preimage tree
+    #[serde(skip)]
+    resolved: HashMap<usize, (ByteArray, usize)>,
 }
 
+const MAX_PREIMAGE_DEPTH: usize = 512;
+
 struct JsonByteArray {
     data_idx: usize,
     function: Function,
@@ -95,6 +101,12 @@ pub enum JsonError {
     #[error("Invalid data_idx: {idx}")]
     InvalidStringIdx { idx: usize },
 
+    #[error("Invalid byte_array_idx: {idx}")]
+    InvalidByteArrayIdx { idx: usize },
+
+    #[error("Preimages of byte array {idx} are nested too deeply or refer to themselves")]
+    PreimageTooDeep { idx: usize },
+
     #[error("Invalid hash")]
     InvalidHash,
 
@@ -347,16 +359,42 @@ impl JsonData {
     }
 
     fn get_byte_array(&mut self, byte_array_idx: usize) -> Result<ByteArray, JsonError> {
-        let preimage = self.byte_arrays[byte_array_idx]
+        self.resolve_byte_array(byte_array_idx, 0)
+            .map(|(byte_array, _)| byte_array)
+    }
+
+    fn resolve_byte_array(
+        &mut self,
+        byte_array_idx: usize,
+        depth: usize,
+    ) -> Result<(ByteArray, usize), JsonError> {
+        if let Some(resolved) = self.resolved.get(&byte_array_idx) {
+            return Ok(resolved.clone());
+        }
+        let preimage_indices = self
+            .byte_arrays
+            .get(byte_array_idx)
+            .ok_or(JsonError::InvalidByteArrayIdx { idx: byte_array_idx })?
             .preimage_indices
-            .clone()
-            .map(|preimage_indices| {
-                preimage_indices
-                    .iter()
-                    .map(|&idx| self.get_byte_array(idx))
-                    .collect::<Result<Vec<_>, _>>()
-            })
-            .map_or(Ok(None), |preimage| preimage.map(Some))?;
+            .clone();
+        let mut height = 0;
+        let mut preimage = None;
+        if let Some(preimage_indices) = preimage_indices {
+            // also ends cyclic references
+            if depth >= MAX_PREIMAGE_DEPTH {
+                return Err(JsonError::PreimageTooDeep { idx: byte_array_idx });
+            }
+            let mut parts = Vec::with_capacity(preimage_indices.len());
+            for idx in preimage_indices {
+                let (part, part_height) = self.resolve_byte_array(idx, depth + 1)?;
+                height = height.max(part_height + 1);
+                parts.push(part);
+            }
+            if height > MAX_PREIMAGE_DEPTH {
+                return Err(JsonError::PreimageTooDeep { idx: byte_array_idx });
+            }
+            preimage = Some(parts);
+        }
         let json = &self.byte_arrays[byte_array_idx];
         let data = if let Some(data) = self.data_indices.get_by_right(&json.data_idx) {
             Arc::clone(data)
@@ -373,12 +411,15 @@ impl JsonData {
             .name_idx
             .map(|name_idx| self.get_string(name_idx).map(Clone::clone).map(Arc::new))
             .map_or(Ok(None), |name| name.map(Some))?;
-        Ok(ByteArray::from_preimage(
+        let byte_array = ByteArray::from_preimage(
             data,
             name,
             json.function,
             preimage.map(Into::into),
-        ))
+        );
+        self.resolved
+            .insert(byte_array_idx, (byte_array.clone(), height));
+        Ok((byte_array, height))
     }
 
     #[allow(clippy::ptr_arg)]
-- 
2.43.0


From ef562dc015c05e5e726c848bbde1c60cb3624f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 14/30] fix: rust back end mistakes the highest low S value for
 a high one

---
 bitcoin-cash-ecc/src/rust_ecc.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-ecc/src/rust_ecc.rs b/bitcoin-cash-ecc/src/rust_ecc.rs
index a6ae199..959ef52 100644
--- a/bitcoin-cash-ecc/src/rust_ecc.rs
+++ b/bitcoin-cash-ecc/src/rust_ecc.rs
@@ -6,6 +6,19 @@ use secp256k1::{Message, PublicKey, PublicKeyFormat, SecretKey, Signature};
 
 pub struct RustECC;
 
+/// Half of the group order (rounded down), the highest S value considered low.
+const HALF_ORDER: [u8; 32] = [
+    0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0x5d, 0x57, 0x6e, 0x73, 0x57, 0xa4, 0x50, 0x1d, 0xdf, 0xe9, 0x2f, 0x46, 0x68, 0x1b, 0x20, 0xa0,
+];
+
+// Signature::normalize_s takes HALF_ORDER itself for a high value.
+fn normalize_s(sig: &mut Signature) {
+    if sig.s.b32() > HALF_ORDER {
+        sig.s = -sig.s.clone();
+    }
+}
+
 impl Default for RustECC {
     fn default() -> Self {
         RustECC
@@ -24,7 +37,7 @@ impl ECC for RustECC {
             actual: msg_array.len(),
         })?;
         let mut sig = secp256k1::sign(&msg, &sk).0;
-        sig.normalize_s();
+        normalize_s(&mut sig);
         let sig = sig.serialize_der().as_ref().to_vec();
         Ok(msg_array.apply_function(sig, Function::EcdsaSign))
     }
@@ -53,7 +66,7 @@ impl ECC for RustECC {
     fn normalize_sig(&self, sig_ser: &[u8]) -> Result<Vec<u8>> {
         let mut sig =
             Signature::parse_der_lax(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
-        sig.normalize_s();
+        normalize_s(&mut sig);
         Ok(sig.serialize_der().as_ref().to_vec())
     }
 }
-- 
2.43.0


From f3f23e16c9f85a4d6ab0f8e82f78cc2fd10f4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 15/30] fix: opcode descriptions of OP_DEPTH, OP_NOTIF and
 OP_CHECKSIGVERIFY disagree with their effect

---
 bitcoin-cash-base/src/opcode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 9047872..aa2c743 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -2920,7 +2920,7 @@ impl Opcode {
                 &[2, 3, 0, 1],
                 &[MovedIndirectly, MovedIndirectly, Moved, Moved],
             ),
-            OP_DEPTH => o(&[], &[Integer], &[0], &[Added]),
+            OP_DEPTH => u(&[], &[Integer], &[Added]),
             OP_DROP => o(&[T], &[], &[], &[]),
             OP_DUP => o(&[T], &[T, T], &[0, 0], &[Observed, Added]),
             OP_NIP => o(&[T, T], &[T], &[1], &[MovedIndirectly]),
@@ -3012,7 +3012,7 @@ impl Opcode {
             OP_HASH160 => u(&[ByteArray(None)], &[ByteArray(Some(20))], &[Changed]),
             OP_HASH256 => u(&[ByteArray(None)], &[ByteArray(Some(32))], &[Changed]),
             OP_CHECKSIG => u(&[ByteArray(None), ByteArray(None)], &[Boolean], &[Changed]),
-            OP_CHECKSIGVERIFY => u(&[ByteArray(None), ByteArray(None)], &[], &[Changed]),
+            OP_CHECKSIGVERIFY => u(&[ByteArray(None), ByteArray(None)], &[], &[]),
 
             OP_CHECKDATASIG => u(
                 &[ByteArray(None), ByteArray(None), ByteArray(None)],
@@ -3028,7 +3028,7 @@ impl Opcode {
             OP_0 | OP_1NEGATE | OP_1 | OP_2 | OP_3 | OP_4 | OP_5 | OP_6 | OP_7 | OP_8 | OP_9
             | OP_10 | OP_11 | OP_12 | OP_13 | OP_14 | OP_15 | OP_16 => u(&[], &[Integer], &[Added]),
 
-            OP_IF => u(&[T], &[], &[]),
+            OP_IF | OP_NOTIF => u(&[T], &[], &[]),
             OP_ELSE => u(&[], &[], &[]),
             OP_ENDIF => u(&[], &[], &[]),
 
-- 
2.43.0


From fc1d473896617ede3ca0fb8a864f7e1bd68d38d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 16/30] fix: statements after a nested OP_IF block end up in
 the wrong branch

---
 bitcoin-cash-script-macro/src/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index 60a8880..d836362 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -449,7 +449,6 @@ fn parse_opcode_inputs(
 fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::Error> {
     let mut new_stmts = Vec::new();
     let mut if_stack = Vec::new();
-    let mut is_then = true;
     struct If {
         if_opcode: ir::OpcodeStmt,
         if_token_stream: TokenStream,
@@ -473,11 +472,9 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                         then_stmts: vec![],
                         else_stmts: vec![],
                     });
-                    is_then = true;
                     continue;
                 }
                 "OP_ELSE" => {
-                    is_then = false;
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
@@ -514,7 +511,7 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
             new_stmts.push(stmt);
         } else {
             let top_if = if_stack.last_mut().unwrap();
-            if is_then {
+            if top_if.else_opcode.is_none() {
                 top_if.then_stmts.push(stmt);
             } else {
                 top_if.else_stmts.push(stmt);
-- 
2.43.0


From 420e5c6c2b694a2c9bdcfedff9e4ab694c9d4cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 17/30] fix: a second OP_ELSE in an OP_IF block silently
 replaced the first

---
 bitcoin-cash-script-macro/src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index d836362..819d3a4 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -478,6 +478,12 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
+                    if top_if.else_opcode.is_some() {
+                        return Err(syn::Error::new(
+                            opcode.expr_span,
+                            "OP_IF already has an OP_ELSE.",
+                        ));
+                    }
                     top_if.else_opcode = Some(opcode);
                     top_if.else_token_stream = Some(token_stream);
                     continue;
-- 
2.43.0


From 5c4f57ccb5f701471be6c6b5597d19cd9041cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 18/30] fix: naming the output of OP_TOALTSTACK,
 OP_FROMALTSTACK, OP_PICK or OP_ROLL left it unnamed

---
 bitcoin-cash-script-macro/src/generate.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 3891030..ebcc810 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -850,6 +850,7 @@ impl GenerateScript {
                 ));
             }
             item.name = output_names[0].to_string();
+            item.has_generated_name = false;
         }
         Ok(())
     }
-- 
2.43.0


From fb315fb66869fccd99b68f7a13b33e4d74d66dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 19/30] fix: unnamed OP_SIZE named the pushed size after the
 array it measures

---
 bitcoin-cash-script-macro/src/generate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index ebcc810..20e1061 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -492,7 +492,7 @@ impl GenerateScript {
                 let new_ident = self.make_ident(ident.span());
                 let name = ident.to_string();
                 if &name == "__" {
-                    if opcode_type.retains_input() {
+                    if opcode_type.retains_input() && idx == 0 {
                         let new_idx = 0;
                         pushed_stack_items.push(StackItem {
                             ident: new_ident,
@@ -535,9 +535,9 @@ impl GenerateScript {
                     }
                 }
                 None => {
-                    for _ in 0..behavior.output_types.len() {
+                    for idx in 0..behavior.output_types.len() {
                         let ident = self.make_ident(outputs_span);
-                        if opcode_type.retains_input() {
+                        if opcode_type.retains_input() && idx == 0 {
                             let new_idx = 0;
                             pushed_stack_items.push(StackItem {
                                 ident,
-- 
2.43.0


From 2f4ee1e2ef6822abb23d6be5c5062064e53abfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 20/30] fix: OP_PICK or OP_ROLL with the same depth item in
 both branches of an OP_IF did not compile

---
 bitcoin-cash-script-macro/src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 20e1061..fa023b9 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -412,7 +412,7 @@ impl GenerateScript {
                     vec![],
                 );
                 Ok(quote_spanned! {expr_span=>
-                    #crate_ident::func::#ident(#input_name);
+                    #crate_ident::func::#ident(#input_name.clone());
                     #script_ident.push(#tagged_op);
                 })
             }
-- 
2.43.0


From 1a41ae7beb0ec1f09aa5ae3d9319a899c0772f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 21/30] fix: BitcoinCode derive applied foreign field
 attributes such as serde(skip) as its own

---
 bitcoin-cash-code/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 39fd86e..307960e 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -102,6 +102,10 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
     for field in fields.named.iter() {
         let mut is_skipped = false;
         for attr in &field.attrs {
+            // attributes such as doc comments or #[serde(skip)] are not ours
+            if !attr.path.is_ident("bitcoin_code") {
+                continue;
+            }
             match attr.parse_meta()? {
                 syn::Meta::Path(_) => {
                     return Err(syn::Error::new(attr.span(), "Invalid attribute"))
-- 
2.43.0


From 1075f644b98490650ce97a8ba3e6daf647ef5c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:40 +0000
Subject: [PATCH 22/30] fix: the script code of a given code separator included
 the separator

---
 bitcoin-cash/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 7cbc33d..bf2cc23 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -54,7 +54,7 @@ impl Script {
                     _ => continue,
                 }
             }
-            codesep_idx.expect("Couldn't find OP_CODESEPARATOR")
+            codesep_idx.expect("Couldn't find OP_CODESEPARATOR") + 1
         } else {
             0
         };
-- 
2.43.0


From db6e56ac0a0074cb6de6b5ac2a462b278c10fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:42 +0000
Subject: [PATCH 23/30] fix: parsing a truncated OP_PUSHDATA4 reserved memory
 for the length it claims

deserialize_ops allocated and zeroed up to 4 GiB for five bytes before noticing
that the pushed data is not there.
---
 bitcoin-cash/src/script.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index bf2cc23..71b26e5 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -214,6 +214,9 @@ pub fn deserialize_ops(bytes: &[u8]) -> error::Result<Vec<Op>> {
                 continue;
             }
         };
+        if push_len > bytes.len() - i {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let mut vec = vec![0; push_len];
         cur.read_exact(&mut vec)?;
         i += push_len;
-- 
2.43.0


From 301dd405455e6372ed762c8c98f1486d241e9a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:42 +0000
Subject: [PATCH 24/30] fix: derived codecs of structs with foreign attributes
 did not compile

---
 bitcoin-cash-code/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 307960e..7a885c8 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -26,8 +26,12 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
     let mut crate_name = quote! {bitcoin_cash};
 
     for attr in &item_struct.attrs {
+        // attributes such as doc comments are not ours
+        if !attr.path.is_ident("bitcoin_code") {
+            continue;
+        }
         match attr.parse_meta()? {
-            syn::Meta::List(list) if list.path.to_token_stream().to_string() == "bitcoin_code" => {
+            syn::Meta::List(list) => {
                 for nested_attr in list.nested.iter() {
                     match nested_attr {
                         syn::NestedMeta::Meta(attr_meta) => match attr_meta {
-- 
2.43.0


From 274299e7ddf55a501d45d730cf8f3d4f3142fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:42 +0000
Subject: [PATCH 25/30] fix: the binary serde form of an address could not be
 read from a stream

---
 bitcoin-cash/src/address.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index e56b2cb..eb76e1a 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -215,7 +215,7 @@ impl<'a> Address<'a> {
 struct SerAddress<'a> {
     addr_type: AddressType,
     hash: [u8; 20],
-    prefix: &'a str,
+    prefix: Cow<'a, str>,
 }
 
 impl Serialize for Address<'_> {
@@ -229,7 +229,7 @@ impl Serialize for Address<'_> {
             SerAddress {
                 addr_type: self.addr_type,
                 hash: self.hash.as_slice().try_into().expect("Address hash not 20 bytes"),
-                prefix: self.prefix_str(),
+                prefix: self.prefix_str().into(),
             }.serialize(serializer)
         }
     }
@@ -245,7 +245,7 @@ impl<'de> Deserialize<'de> for Address<'static> {
             Address::from_cash_addr(s).map_err(serde::de::Error::custom)
         } else {
             let ser_address = SerAddress::deserialize(deserializer)?;
-            Ok(Address::from_hash(ser_address.prefix, ser_address.addr_type, Hash160::new(ser_address.hash)).into_owned_address())
+            Ok(Address::from_hash(ser_address.prefix.into_owned(), ser_address.addr_type, Hash160::new(ser_address.hash)))
         }
     }
 }
-- 
2.43.0


From aedecf37653aae66ce434fafa241e7427a6ea879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:42 +0000
Subject: [PATCH 26/30] fix: the binary serde form of a byte array could not be
 read from a stream

---
 bitcoin-cash-base/src/byte_array.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index f5ea1e3..116e7cf 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -648,9 +648,7 @@ impl<'de> serde::Deserialize<'de> for ByteArray {
             let data = hex::decode(&hex).map_err(serde::de::Error::custom)?;
             Ok(ByteArray::new_unnamed(data))
         } else {
-            Ok(ByteArray::from_slice_unnamed(
-                <&[u8] as serde::Deserialize<'de>>::deserialize(deserializer)?,
-            ))
+            Ok(ByteArray::new_unnamed(Vec::<u8>::deserialize(deserializer)?))
         }
     }
 }
-- 
2.43.0


From 7af3b54d13652c78f4b72cf10beb7c57c749066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:50 +0000
Subject: [PATCH 27/30] fix: dropping a byte array with a long derivation
 overflowed the stack

---
 bitcoin-cash-base/src/byte_array.rs | 32 ++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 116e7cf..517f6bc 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -257,12 +257,12 @@ impl ByteArray {
         new_data.extend_from_slice(&other.data);
         if self.function == Function::Plain && other.function == Function::Plain {
             let mut new_preimage = if self.preimage.is_some() {
-                self.preimage.unwrap().to_vec()
+                self.preimage.as_ref().unwrap().to_vec()
             } else {
                 vec![self]
             };
             new_preimage.append(&mut if other.preimage.is_some() {
-                other.preimage.unwrap().to_vec()
+                other.preimage.as_ref().unwrap().to_vec()
             } else {
                 vec![other]
             });
@@ -319,7 +319,7 @@ impl ByteArray {
         let mut data = self.data.to_vec();
         let other = data.split_off(at);
         let mut function = Function::Plain;
-        let (left_preimage, right_preimage) = match self.preimage {
+        let (left_preimage, right_preimage) = match &self.preimage {
             Some(preimage) if self.function == Function::Plain => {
                 let mut left_preimage = Vec::new();
                 let mut right_preimage = Vec::new();
@@ -408,11 +408,9 @@ impl ByteArray {
     }
 
     #[cfg(not(feature = "simple-bytearray"))]
-    pub fn named(self, name: impl Into<Cow<'static, str>>) -> ByteArray {
-        ByteArray {
-            name: Some(Arc::new(name.into())),
-            ..self
-        }
+    pub fn named(mut self, name: impl Into<Cow<'static, str>>) -> ByteArray {
+        self.name = Some(Arc::new(name.into()));
+        self
     }
 
     #[cfg(feature = "simple-bytearray")]
@@ -421,8 +419,9 @@ impl ByteArray {
     }
 
     #[cfg(not(feature = "simple-bytearray"))]
-    pub fn named_option(self, name: Option<Arc<Cow<'static, str>>>) -> ByteArray {
-        ByteArray { name, ..self }
+    pub fn named_option(mut self, name: Option<Arc<Cow<'static, str>>>) -> ByteArray {
+        self.name = name;
+        self
     }
 
     #[allow(clippy::comparison_chain)]
@@ -598,6 +597,19 @@ array_impls! {
     30 31 32
 }
 
+// long derivations are taken apart one by one, as dropping them recursively can overflow the stack
+#[cfg(not(feature = "simple-bytearray"))]
+impl Drop for ByteArray {
+    fn drop(&mut self) {
+        let mut preimages: Vec<_> = self.preimage.take().into_iter().collect();
+        while let Some(mut preimage) = preimages.pop() {
+            if let Some(parts) = Arc::get_mut(&mut preimage) {
+                preimages.extend(parts.iter_mut().filter_map(|part| part.preimage.take()));
+            }
+        }
+    }
+}
+
 impl Hash for ByteArray {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.data.hash(state)
-- 
2.43.0


From 9332563a6d68370cfbd28e8d56797f73933335c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:50 +0000
Subject: [PATCH 28/30] fix: joining n parts took time quadratic in n,
 serialising a long script took minutes

---
 bitcoin-cash-base/src/byte_array.rs | 51 +++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 517f6bc..d573f0c 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -174,13 +174,60 @@ impl ByteArray {
 
     pub fn from_parts(parts: impl IntoIterator<Item = ByteArray>) -> ByteArray {
         let mut byte_array: Option<ByteArray> = None;
+        let mut plain_parts = Vec::new();
         for part in parts {
             byte_array = Some(match byte_array {
-                Some(byte_array) => byte_array.concat(part),
+                Some(byte_array)
+                    if byte_array.function() == Function::Plain
+                        && part.function() == Function::Plain =>
+                {
+                    plain_parts.push(part);
+                    byte_array
+                }
+                Some(byte_array) => byte_array
+                    .concat_plain_parts(std::mem::take(&mut plain_parts))
+                    .concat(part),
                 None => part,
             })
         }
-        byte_array.unwrap_or_else(|| ByteArray::new_unnamed(Vec::new()))
+        byte_array
+            .unwrap_or_else(|| ByteArray::new_unnamed(Vec::new()))
+            .concat_plain_parts(plain_parts)
+    }
+
+    // same as one `concat` after the other, but copies every part only once
+    #[cfg(not(feature = "simple-bytearray"))]
+    fn concat_plain_parts(self, parts: Vec<ByteArray>) -> ByteArray {
+        if parts.is_empty() {
+            return self;
+        }
+        let mut data = self.data.to_vec();
+        let mut preimage = match self.preimage() {
+            Some(preimage) => preimage.to_vec(),
+            None => vec![self],
+        };
+        for part in parts {
+            data.extend_from_slice(&part.data);
+            match part.preimage() {
+                Some(preimages) => preimage.extend_from_slice(preimages),
+                None => preimage.push(part),
+            }
+        }
+        ByteArray {
+            data: data.into(),
+            name: None,
+            function: Function::Plain,
+            preimage: Some(preimage.into()),
+        }
+    }
+
+    #[cfg(feature = "simple-bytearray")]
+    fn concat_plain_parts(self, parts: Vec<ByteArray>) -> ByteArray {
+        let mut data = self.data.to_vec();
+        for part in parts {
+            data.extend_from_slice(&part.data);
+        }
+        ByteArray { data: data.into() }
     }
 
     #[cfg(not(feature = "simple-bytearray"))]
-- 
2.43.0


From 5252221531531fbfe5b8d9bd238a59ab5231df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:50 +0000
Subject: [PATCH 29/30] fix: parsing a script took time quadratic in its length

---
 bitcoin-cash/src/script.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 71b26e5..d76a617 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -1,5 +1,5 @@
 use crate::error::{self, ScriptSerializeError};
-use crate::{encoding_utils::encode_int, BitcoinCode, ByteArray, Op, Opcode, Ops, TaggedOp};
+use crate::{encoding_utils::encode_int, BitcoinCode, ByteArray, Function, Op, Opcode, Ops, TaggedOp};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::borrow::Cow;
@@ -234,6 +234,10 @@ pub fn deserialize_ops(bytes: &[u8]) -> error::Result<Vec<Op>> {
 pub fn deserialize_ops_byte_array(byte_array: ByteArray) -> error::Result<Vec<Op>> {
     use std::convert::TryInto;
     use Opcode::*;
+    if byte_array.function() == Function::Plain && byte_array.preimage().is_none() {
+        // no derivation to keep, so the remainder needn't be copied after each operation
+        return deserialize_ops(&byte_array);
+    }
     let mut ops = Vec::new();
     let mut byte_array = Some(byte_array);
     while byte_array.as_ref().map_or(false, |array| array.len() > 0) {
-- 
2.43.0


From b8877857e78a41168e63ce7b0f7f86594d9d2db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:50 +0000
Subject: [PATCH 30/30] fix: signature preimages took time quadratic in the
 number of inputs

---
 bitcoin-cash/src/tx_preimage.rs | 44 ++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/bitcoin-cash/src/tx_preimage.rs b/bitcoin-cash/src/tx_preimage.rs
index 1027ee4..6e60c32 100644
--- a/bitcoin-cash/src/tx_preimage.rs
+++ b/bitcoin-cash/src/tx_preimage.rs
@@ -4,6 +4,7 @@ use crate::{
 };
 use serde::{Deserialize, Serialize};
 use bitflags::bitflags;
+use std::iter::once;
 
 bitflags! {
     #[derive(Deserialize, Serialize, Default)]
@@ -44,37 +45,34 @@ impl SigHashFlags {
 impl TxPreimage {
     pub fn build_preimages(tx: &impl ToPreimages) -> Vec<Vec<TxPreimage>> {
         let hash_all_prevouts = {
-            let mut outpoints_serialized = ByteArray::from_slice_unnamed(&[]);
-            for input_idx in 0..tx.num_inputs() {
-                outpoints_serialized = outpoints_serialized.concat(
-                    tx.input_outpoint_at(input_idx)
-                        .ser()
-                        .named(format!("outpoint_{}", input_idx)),
-                );
-            }
+            let outpoints = (0..tx.num_inputs()).map(|input_idx| {
+                tx.input_outpoint_at(input_idx)
+                    .ser()
+                    .named(format!("outpoint_{}", input_idx))
+            });
+            let empty = ByteArray::from_slice_unnamed(&[]);
+            let outpoints_serialized = ByteArray::from_parts(once(empty).chain(outpoints));
             Sha256d::digest(outpoints_serialized.named("prevouts")).named("hashPrevouts")
         };
         let hash_all_sequences = {
-            let mut sequences_serialized = ByteArray::from_slice_unnamed(&[]);
-            for input_idx in 0..tx.num_inputs() {
-                sequences_serialized = sequences_serialized.concat(
-                    tx.input_sequence_at(input_idx)
-                        .ser()
-                        .named(format!("sequence_{}", input_idx)),
-                );
-            }
+            let sequences = (0..tx.num_inputs()).map(|input_idx| {
+                tx.input_sequence_at(input_idx)
+                    .ser()
+                    .named(format!("sequence_{}", input_idx))
+            });
+            let empty = ByteArray::from_slice_unnamed(&[]);
+            let sequences_serialized = ByteArray::from_parts(once(empty).chain(sequences));
             Sha256d::digest(sequences_serialized.named("sequences")).named("hashSequence")
         };
 
         let hash_all_outputs = {
-            let mut outputs_serialized = ByteArray::from_slice_unnamed(&[]);
-            for output_idx in 0..tx.num_outputs() {
-                let byte_array = tx
-                    .output_at(output_idx)
+            let outputs = (0..tx.num_outputs()).map(|output_idx| {
+                tx.output_at(output_idx)
                     .ser()
-                    .named(format!("output_{}", output_idx));
-                outputs_serialized = outputs_serialized.concat(byte_array);
-            }
+                    .named(format!("output_{}", output_idx))
+            });
+            let empty = ByteArray::from_slice_unnamed(&[]);
+            let outputs_serialized = ByteArray::from_parts(once(empty).chain(outputs));
             Sha256d::digest(outputs_serialized.named("outputs")).named("hashOutputs")
         };
         let mut inputs_preimages = Vec::with_capacity(tx.num_inputs());
-- 
2.43.0

