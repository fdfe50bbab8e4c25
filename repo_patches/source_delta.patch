From c9bc8f808cb77b91b43da0d397dc369dc5f99201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 01/51] fix: reject an empty transaction instead of panicking
 while decoding it

---
 protocol/src/codec/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 513a841..2bc310c 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -312,7 +312,7 @@ impl Encodable for UnverifiedTransaction {
 impl Decodable for UnverifiedTransaction {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         let raw = r.as_raw();
-        let header = raw[0];
+        let header = *raw.first().ok_or(DecoderError::RlpIsTooShort)?;
 
         if (header & 0x80) != 0x00 {
             return LegacyTransaction::rlp_decode(r);
-- 
2.43.0


From e0f9ab8c0c2887d957f50d5ae3753628965d1696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 02/51] fix: report an interoperation signature with an empty r
 instead of panicking

---
 protocol/src/types/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/types/transaction.rs b/protocol/src/types/transaction.rs
index 20d2c06..73783e4 100644
--- a/protocol/src/types/transaction.rs
+++ b/protocol/src/types/transaction.rs
@@ -406,7 +406,7 @@ impl SignatureComponents {
 
     pub(crate) fn extract_interoperation_tx_sender(&self) -> ProtocolResult<H160> {
         // Only call CKB-VM mode is supported now
-        if self.r[0] == 0 {
+        if *self.r.first().ok_or(TypesError::SignatureRIsEmpty)? == 0 {
             let r = rlp::decode::<CellDepWithPubKey>(&self.r[1..])
                 .map_err(TypesError::DecodeInteroperationSigR)?;
 
-- 
2.43.0


From 95c05c2d2b5031cda5dbc2d235c152e9b16ed8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 03/51] fix: encode every field of a transaction response
 inside its list

---
 protocol/src/codec/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/codec/executor.rs b/protocol/src/codec/executor.rs
index 24621f2..c698fac 100644
--- a/protocol/src/codec/executor.rs
+++ b/protocol/src/codec/executor.rs
@@ -4,7 +4,7 @@ use crate::types::TxResp;
 
 impl Encodable for TxResp {
     fn rlp_append(&self, s: &mut RlpStream) {
-        s.begin_list(7)
+        s.begin_list(8)
             .append(&bincode::serialize(&self.exit_reason).unwrap())
             .append(&self.ret)
             .append(&self.gas_used)
@@ -19,7 +19,7 @@ impl Encodable for TxResp {
 impl Decodable for TxResp {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         match r.prototype()? {
-            Prototype::List(7) => Ok(TxResp {
+            Prototype::List(8) => Ok(TxResp {
                 exit_reason:  {
                     let tmp: Vec<u8> = r.val_at(0)?;
                     bincode::deserialize(&tmp)
-- 
2.43.0


From c90dcd679f738f96fa44a775e6318e4478c326eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 04/51] fix: accept only one 0x prefix in hex strings and
 addresses

---
 protocol/src/codec/mod.rs       | 10 ++++------
 protocol/src/types/primitive.rs |  6 +++---
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/protocol/src/codec/mod.rs b/protocol/src/codec/mod.rs
index 19529c1..e683233 100644
--- a/protocol/src/codec/mod.rs
+++ b/protocol/src/codec/mod.rs
@@ -73,16 +73,14 @@ pub fn hex_encode<T: AsRef<[u8]>>(src: T) -> String {
 }
 
 pub fn hex_decode(src: &str) -> ProtocolResult<Vec<u8>> {
+    hex_decode_unprefixed(src.strip_prefix("0x").unwrap_or(src))
+}
+
+pub(crate) fn hex_decode_unprefixed(src: &str) -> ProtocolResult<Vec<u8>> {
     if src.is_empty() {
         return Ok(Vec::new());
     }
 
-    let src = if src.starts_with("0x") {
-        src.split_at(2).1
-    } else {
-        src
-    };
-
     let src = src.as_bytes();
     let mut ret = vec![0u8; src.len() / 2];
     faster_hex::hex_decode(src, &mut ret).map_err(TypesError::FromHex)?;
diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index 085bb81..8b3a705 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -17,7 +17,7 @@ use serde::{de, ser, Deserialize, Serialize};
 use common_crypto::Secp256k1PublicKey;
 use common_hasher::keccak256;
 
-use crate::codec::{deserialize_address, hex_decode, hex_encode, serialize_uint};
+use crate::codec::{deserialize_address, hex_decode_unprefixed, hex_encode, serialize_uint};
 use crate::types::{BlockNumber, Bytes, BytesMut, TypesError};
 use crate::{ProtocolError, ProtocolResult};
 
@@ -144,7 +144,7 @@ impl FromStr for Hex {
             return Err(TypesError::HexPrefix.into());
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        Ok(Hex(hex_decode_unprefixed(&s[2..])?.into()))
     }
 }
 
@@ -251,7 +251,7 @@ impl Address {
 
     pub fn from_hex(s: &str) -> ProtocolResult<Self> {
         let s = clean_0x(s)?;
-        let bytes = Bytes::from(hex_decode(s)?);
+        let bytes = Bytes::from(hex_decode_unprefixed(s)?);
         Self::from_bytes(bytes)
     }
 
-- 
2.43.0


From ee58d91e1d139b2868e62a908aa8d38d4b92181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 05/51] fix: reject an over-long address string instead of
 panicking in its checksum

---
 protocol/src/types/primitive.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index 8b3a705..b5fbf4f 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -264,11 +264,12 @@ impl FromStr for Address {
     type Err = ProtocolError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if checksum(s) != s {
+        let address = Address::from_hex(&s.to_lowercase())?;
+        if address.eip55() != s {
             return Err(TypesError::InvalidCheckSum.into());
         }
 
-        Address::from_hex(&s.to_lowercase())
+        Ok(address)
     }
 }
 
-- 
2.43.0


From dd98a726044d00f2c5982bf26c54d27596e9671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 06/51] fix: return an error for an unexpected result of a CKB
 RPC call instead of panicking

---
 core/rpc-client/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/rpc-client/src/client.rs b/core/rpc-client/src/client.rs
index 4c31647..395bc94 100644
--- a/core/rpc-client/src/client.rs
+++ b/core/rpc-client/src/client.rs
@@ -60,7 +60,8 @@ macro_rules! jsonrpc {
 
             match output {
                 jsonrpc_core::response::Output::Success(success) => {
-                    Ok(serde_json::from_value::<$return>(success.result).unwrap())
+                    serde_json::from_value::<$return>(success.result)
+                        .map_err::<ProtocolError, _>(|e| ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(e)))
                 }
                 jsonrpc_core::response::Output::Failure(e) => {
                     Err(ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(io::Error::new(io::ErrorKind::InvalidData, format!("{:?}", e)))))
-- 
2.43.0


From fc7d6df0f04d919dd9a7172284534dad63f731ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 07/51] fix: keep earlier archives when a log rolls twice in
 one second

---
 common/logger/src/date_fixed_roller.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/logger/src/date_fixed_roller.rs b/common/logger/src/date_fixed_roller.rs
index e4ccc91..f9e9cca 100644
--- a/common/logger/src/date_fixed_roller.rs
+++ b/common/logger/src/date_fixed_roller.rs
@@ -53,7 +53,15 @@ impl DateFixedWindowRoller {
         let archived_log = {
             let pattern = self.pattern.clone();
             let partial_log = pattern.replace("{date}", date);
-            partial_log.replace("{timestamp}", timestamp)
+            // never overwrite a log archived in the same second
+            let mut archived_log = partial_log.replace("{timestamp}", timestamp);
+            let mut index = 0;
+            while Path::new(&archived_log).exists() {
+                index += 1;
+                archived_log =
+                    partial_log.replace("{timestamp}", &format!("{}-{}", timestamp, index));
+            }
+            archived_log
         };
 
         if let Some(parent) = Path::new(&archived_log).parent() {
-- 
2.43.0


From 65ff30cdc1ccd7a7613cea3557d41fe49974ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 08/51] fix: charge CKB-VM programs for the cycles they run, so
 that max_cycles holds

---
 core/interoperation/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/interoperation/src/lib.rs b/core/interoperation/src/lib.rs
index 8267268..1f4ffb3 100644
--- a/core/interoperation/src/lib.rs
+++ b/core/interoperation/src/lib.rs
@@ -2,6 +2,7 @@ use std::error::Error;
 
 use ckb_traits::CellDataProvider;
 use ckb_types::packed;
+use ckb_vm::cost_model::estimate_cycles;
 use ckb_vm::machine::{asm::AsmCoreMachine, DefaultMachineBuilder, SupportMachine, VERSION1};
 use ckb_vm::{Error as VMError, ISA_B, ISA_IMC, ISA_MOP};
 
@@ -53,7 +54,9 @@ impl Interoperation for InteroperationImpl {
             .get_cell_data(&data_cell_dep.out_point())
             .ok_or_else(|| InteroperationError::GetProgram((&data_cell_dep.out_point()).into()))?;
         let mut vm = ckb_vm::machine::asm::AsmMachine::new(
-            DefaultMachineBuilder::new(AsmCoreMachine::new(ISA, VERSION1, max_cycles)).build(),
+            DefaultMachineBuilder::new(AsmCoreMachine::new(ISA, VERSION1, max_cycles))
+                .instruction_cycle_func(Box::new(estimate_cycles))
+                .build(),
         );
         let _ = vm
             .load_program(&program, args)
-- 
2.43.0


From e8b27addf38d636bdf61c279128a64d3c8ecdd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 09/51] fix: reject malformed and out-of-range hex in
 axon-tools instead of panicking or truncating

---
 devtools/axon-tools/src/types.rs | 53 ++++++++------------------------
 1 file changed, 12 insertions(+), 41 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 11e6fc7..029f007 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -99,7 +99,7 @@ impl FromStr for Hex {
             return Err(crate::Error::HexPrefix);
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
@@ -632,46 +632,27 @@ mod encode {
 
 #[cfg(all(feature = "impl-serde", feature = "std"))]
 mod decode {
-    use ethereum_types::U256;
     use serde::de::{Deserialize, Deserializer};
 
-    pub fn from_hex(hex: &str) -> Result<Vec<u8>, &'static str> {
-        let mut bytes = Vec::with_capacity((hex.len() + 1) / 2);
-
-        let mut start_i = 0;
-        if hex.len() % 2 != 0 {
-            let byte =
-                u8::from_str_radix(&hex[0..1], 16).map_err(|_| "Failed to parse hex string")?;
-            bytes.push(byte);
-            start_i = 1;
+    fn from_hex(s: &str) -> Result<u64, &'static str> {
+        let digits = s.strip_prefix("0x").ok_or("Invalid format")?;
+        if !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err("Failed to parse hex string");
         }
 
-        for i in (start_i..hex.len()).step_by(2) {
-            let end_i = if i + 2 > hex.len() { i + 1 } else { i + 2 };
-            let byte =
-                u8::from_str_radix(&hex[i..end_i], 16).map_err(|_| "Failed to parse hex string")?;
-            bytes.push(byte);
+        match digits.trim_start_matches('0') {
+            "" => Ok(0),
+            digits => u64::from_str_radix(digits, 16).map_err(|_| "Number out of range"),
         }
-
-        Ok(bytes)
     }
 
     pub fn deserialize_hex_u32<'de, D>(deserializer: D) -> Result<u32, D::Error>
     where
         D: Deserializer<'de>,
     {
-        let s = String::deserialize(deserializer)?;
-        if s == "0x0" {
-            return Ok(0);
-        }
-
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
-            let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u32())
-        } else {
-            Err(serde::de::Error::custom("Invalid format"))
-        }
+        deserialize_hex_u64(deserializer)?
+            .try_into()
+            .map_err(|_| serde::de::Error::custom("Number out of range"))
     }
 
     pub fn deserialize_hex_u64<'de, D>(deserializer: D) -> Result<u64, D::Error>
@@ -679,17 +660,7 @@ mod decode {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        if s == "0x0" {
-            return Ok(0);
-        }
-
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
-            let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u64())
-        } else {
-            Err(serde::de::Error::custom("Invalid format"))
-        }
+        from_hex(&s).map_err(serde::de::Error::custom)
     }
 
     #[cfg(test)]
-- 
2.43.0


From 51cc45d2ce16312474bcb9bdc563ef76d65d465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 10/51] fix: accept a CKB Merkle proof only if it leads every
 leaf to the root

---
 devtools/axon-tools/src/precompile.rs | 34 +++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/devtools/axon-tools/src/precompile.rs b/devtools/axon-tools/src/precompile.rs
index ccfe4ca..88f3c28 100644
--- a/devtools/axon-tools/src/precompile.rs
+++ b/devtools/axon-tools/src/precompile.rs
@@ -1,3 +1,5 @@
+use std::collections::VecDeque;
+
 use ckb_types::utilities::{merkle_root, MerkleProof};
 use ckb_types::{packed, prelude::*};
 use ethers_contract::{EthAbiCodec, EthAbiType};
@@ -84,9 +86,41 @@ pub fn verify_proof(payload: VerifyProofPayload) -> Result<(), String> {
         witnesses_root
     };
 
+    if !is_complete(&payload.proof.indices, lemmas.len()) {
+        return Err(String::from("the proof does not lead each leaf to the root"));
+    }
+
     if MerkleProof::new(payload.proof.indices, lemmas).verify(&verifying_root, &leaves) {
         return Ok(());
     }
 
     Err(String::from("verify raw transactions root failed"))
 }
+
+/// `MerkleProof` drops a node that has no sibling left to merge with, so that a
+/// leaf which contributes nothing to the root would be accepted. Check that
+/// every node has its sibling, up to the root.
+fn is_complete(indices: &[u32], lemma_count: usize) -> bool {
+    let mut indices = indices.iter().map(|i| u64::from(*i)).collect::<Vec<_>>();
+    indices.sort_by(|a, b| b.cmp(a));
+
+    let mut lemmas = lemma_count;
+    let mut queue = VecDeque::from(indices);
+    while let Some(index) = queue.pop_front() {
+        if index == 0 {
+            return lemmas == 0 && queue.is_empty();
+        }
+
+        if queue.front() == Some(&(((index + 1) ^ 1) - 1)) {
+            queue.pop_front();
+        } else if lemmas > 0 {
+            lemmas -= 1;
+        } else {
+            return false;
+        }
+
+        queue.push_back((index - 1) >> 1);
+    }
+
+    false
+}
-- 
2.43.0


From 449a49089137380fe5a54c3e78865085e66a1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 11/51] fix: MemoryAdapter iterates from the prefix on in key
 order, like RocksAdapter

Storage reads the transactions and receipts of a block by iterating from the
block's prefix until the first key of another block. The memory adapter ignored
the prefix and had no order, so with more than one block stored most of them
were not found.
---
 core/db/src/memory.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/core/db/src/memory.rs b/core/db/src/memory.rs
index 3db9af8..840d46a 100644
--- a/core/db/src/memory.rs
+++ b/core/db/src/memory.rs
@@ -1,4 +1,4 @@
-use std::collections::{hash_map, HashMap};
+use std::collections::{btree_map, BTreeMap, HashMap};
 use std::{error::Error, marker::PhantomData, sync::Arc};
 
 use parking_lot::RwLock;
@@ -11,7 +11,7 @@ use protocol::{
     ProtocolResult,
 };
 
-type Category = HashMap<Vec<u8>, Vec<u8>>;
+type Category = BTreeMap<Vec<u8>, Vec<u8>>;
 
 #[derive(Debug)]
 pub struct MemoryAdapter {
@@ -33,7 +33,7 @@ impl Default for MemoryAdapter {
 }
 
 pub struct MemoryIterator<'a, S: StorageSchema> {
-    inner: hash_map::Iter<'a, Vec<u8>, Vec<u8>>,
+    inner: btree_map::Range<'a, Vec<u8>, Vec<u8>>,
     pin_s: PhantomData<S>,
 }
 
@@ -55,8 +55,9 @@ impl<'a, S: StorageSchema> Iterator for MemoryIterator<'a, S> {
 }
 
 pub struct MemoryIntoIterator<'a, S: StorageSchema> {
-    inner: parking_lot::RwLockReadGuard<'a, HashMap<String, Category>>,
-    pin_s: PhantomData<S>,
+    inner:  parking_lot::RwLockReadGuard<'a, HashMap<String, Category>>,
+    prefix: Vec<u8>,
+    pin_s:  PhantomData<S>,
 }
 
 impl<'a, 'b: 'a, S: StorageSchema> IntoIterator for &'b MemoryIntoIterator<'a, S> {
@@ -69,7 +70,7 @@ impl<'a, 'b: 'a, S: StorageSchema> IntoIterator for &'b MemoryIntoIterator<'a, S
                 .inner
                 .get(&S::category().to_string())
                 .expect("impossible, already ensure we have category in prepare_iter")
-                .iter(),
+                .range(self.prefix.clone()..),
             pin_s: PhantomData::<S>,
         })
     }
@@ -93,7 +94,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(Category::new);
 
         db.insert(key, val);
 
@@ -109,7 +110,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(Category::new);
 
         let opt_bytes = db.get(&key.to_vec()).cloned();
 
@@ -128,7 +129,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(Category::new);
 
         db.remove(&key);
 
@@ -141,7 +142,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(Category::new);
 
         Ok(db.get(&key).is_some())
     }
@@ -171,7 +172,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(Category::new);
 
         for (key, value) in pairs.into_iter() {
             match value {
@@ -185,18 +186,19 @@ impl StorageAdapter for MemoryAdapter {
 
     fn prepare_iter<'a, 'b: 'a, S: StorageSchema + 'static, P: AsRef<[u8]> + 'a>(
         &'b self,
-        _prefix: &P,
+        prefix: &P,
     ) -> ProtocolResult<Box<dyn IntoIteratorByRef<S> + 'a>> {
         {
             self.db
                 .write()
                 .entry(S::category().to_string())
-                .or_insert_with(HashMap::new);
+                .or_insert_with(Category::new);
         }
 
         Ok(Box::new(MemoryIntoIterator {
-            inner: self.db.read(),
-            pin_s: PhantomData::<S>,
+            inner:  self.db.read(),
+            prefix: prefix.as_ref().to_vec(),
+            pin_s:  PhantomData::<S>,
         }))
     }
 }
-- 
2.43.0


From 00248280996749499fe4fd5c4a037315b0cb93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 12/51] fix: a replaced or removed block, or a replaced
 receipt, is still read from the cache

The caches were filled on reads and never cleared by writes.
---
 core/storage/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/storage/src/lib.rs b/core/storage/src/lib.rs
index f4a697d..4d1c987 100644
--- a/core/storage/src/lib.rs
+++ b/core/storage/src/lib.rs
@@ -151,7 +151,7 @@ impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
         receipts: Vec<Receipt>,
         block_number: BlockNumber,
     ) -> ProtocolResult<()> {
-        let (hashes, heights) = receipts
+        let (hashes, heights): (Vec<_>, Vec<_>) = receipts
             .iter()
             .map(|item| (item.tx_hash, StorageBatchModify::Insert(block_number)))
             .unzip();
@@ -170,7 +170,12 @@ impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
             .batch_modify::<ReceiptSchema>(keys, batch_stxs)?;
 
         self.adapter
-            .batch_modify::<TxHashNumberSchema>(hashes, heights)?;
+            .batch_modify::<TxHashNumberSchema>(hashes.clone(), heights)?;
+
+        let mut cache = self.cache.receipts.lock();
+        for hash in hashes.iter() {
+            cache.pop(hash);
+        }
 
         Ok(())
     }
@@ -490,6 +495,7 @@ impl<Adapter: StorageAdapter> Storage for ImplStorage<Adapter> {
     }
 
     async fn set_block(&self, _ctx: Context, block: Block) -> ProtocolResult<()> {
+        let height = block.header.number;
         self.adapter
             .insert::<BlockSchema>(BlockKey::new(block.header.number), block.clone())?;
         self.adapter.insert::<BlockHeaderSchema>(
@@ -498,11 +504,15 @@ impl<Adapter: StorageAdapter> Storage for ImplStorage<Adapter> {
         )?;
         self.adapter
             .insert::<BlockHashNumberSchema>(block.hash(), block.header.number)?;
+        self.cache.blocks.lock().pop(&height);
+        self.cache.headers.lock().pop(&height);
         Ok(())
     }
 
     async fn remove_block(&self, _ctx: Context, height: u64) -> ProtocolResult<()> {
-        self.adapter.remove::<BlockSchema>(BlockKey::new(height))
+        self.adapter.remove::<BlockSchema>(BlockKey::new(height))?;
+        self.cache.blocks.lock().pop(&height);
+        Ok(())
     }
 
     async fn set_latest_block(&self, _ctx: Context, block: Block) -> ProtocolResult<()> {
-- 
2.43.0


From f9dfedd94c1021fd92a56952050955b60fef7e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 13/51] fix: a transaction or receipt asked for twice in one
 read is found only once

---
 core/storage/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/storage/src/lib.rs b/core/storage/src/lib.rs
index 4d1c987..cc335f2 100644
--- a/core/storage/src/lib.rs
+++ b/core/storage/src/lib.rs
@@ -291,10 +291,10 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         }
 
-        let mut found = {
+        let found = {
             if found.len() <= BATCH_VALUE_DECODE_NUMBER {
                 found
-                    .drain(..)
+                    .into_iter()
                     .map(|(k, v): (Hash, DBBytes)| SignedTransaction::decode(v).map(|v| (k, v)))
                     .collect::<ProtocolResult<Vec<_>>>()?
                     .into_iter()
@@ -325,7 +325,7 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         };
 
-        Ok(hashes.iter().map(|h| found.remove(h)).collect::<Vec<_>>())
+        Ok(hashes.iter().map(|h| found.get(h).cloned()).collect())
     }
 
     async fn get_code_by_hash(&self, _ctx: Context, hash: &Hash) -> ProtocolResult<Option<Bytes>> {
@@ -433,10 +433,10 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         }
 
-        let mut found = {
+        let found = {
             if found.len() <= BATCH_VALUE_DECODE_NUMBER {
                 found
-                    .drain(..)
+                    .into_iter()
                     .map(|(k, v): (Hash, DBBytes)| Receipt::decode(v).map(|v| (k, v)))
                     .collect::<ProtocolResult<Vec<_>>>()?
                     .into_iter()
@@ -467,7 +467,7 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         };
 
-        Ok(hashes.iter().map(|h| found.remove(h)).collect::<Vec<_>>())
+        Ok(hashes.iter().map(|h| found.get(h).cloned()).collect())
     }
 
     async fn get_latest_proof(&self, _ctx: Context) -> ProtocolResult<Proof> {
-- 
2.43.0


From 61ceedf6523fa222a73d9d349419ba4f38783606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 14/51] fix: the transactions asked for by hash come in another
 order when some are in storage

---
 core/mempool/src/lib.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 97165c2..d513698 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -247,28 +247,33 @@ where
     ) -> ProtocolResult<Vec<SignedTransaction>> {
         let len = tx_hashes.len();
         let mut missing_hashes = vec![];
+        let mut missing_places = vec![];
         let mut full_txs = Vec::with_capacity(len);
 
-        for tx_hash in tx_hashes.iter() {
-            if let Some(tx) = self.pool.get_by_hash(tx_hash) {
-                full_txs.push(tx);
-            } else {
+        for (place, tx_hash) in tx_hashes.iter().enumerate() {
+            let tx = self.pool.get_by_hash(tx_hash);
+            if tx.is_none() {
                 missing_hashes.push(*tx_hash);
+                missing_places.push(place);
             }
+            full_txs.push(tx);
         }
 
         // for push txs when local mempool is flushed, but the remote node still fetch
         // full block
         if !missing_hashes.is_empty() {
-            full_txs.extend(
-                self.adapter
-                    .get_transactions_from_storage(ctx, height, &missing_hashes)
-                    .await?
-                    .into_iter()
-                    .flatten(),
-            );
+            let stored_txs = self
+                .adapter
+                .get_transactions_from_storage(ctx, height, &missing_hashes)
+                .await?;
+            for (place, tx) in missing_places.into_iter().zip(stored_txs) {
+                full_txs[place] = tx;
+            }
         }
 
+        // The transactions are in the order of the hashes.
+        let full_txs: Vec<SignedTransaction> = full_txs.into_iter().flatten().collect();
+
         if full_txs.len() != len {
             Err(MemPoolError::MisMatch {
                 require:  len,
-- 
2.43.0


From 2471187abc421dc86d236e6b35d32d6bd2232bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 15/51] fix: removing system transactions of the same content
 counts only one of them

---
 core/mempool/src/pool.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 69606d8..5c31019 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -365,8 +365,11 @@ impl BuiltInContractTxBucket {
     pub fn flush(&self, hashes: &[Hash], reduce_len: &mut usize) {
         for hash in hashes.iter() {
             if let Some(data) = self.hash_data_map.remove(hash) {
-                if self.tx_buckets.remove(&data.1).is_some() {
-                    *reduce_len += 1;
+                if let Some((_, txs)) = self.tx_buckets.remove(&data.1) {
+                    *reduce_len += txs.len();
+                    for tx_hash in txs.keys() {
+                        self.hash_data_map.remove(tx_hash);
+                    }
                 }
             }
         }
-- 
2.43.0


From 16df16fbfb6ba410aa47e4a8cbba23b5d02e87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 16/51] fix: transactions pulled from another node are taken
 for those asked for

---
 core/mempool/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index d513698..bfd7772 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -296,6 +296,7 @@ where
         let unknown_hashes = self.show_unknown_txs(order_tx_hashes).await;
         if !unknown_hashes.is_empty() {
             let unknown_len = unknown_hashes.len();
+            let mut expect_hashes: HashSet<Hash> = unknown_hashes.iter().copied().collect();
             let txs = self
                 .adapter
                 .pull_txs(ctx.clone(), height, unknown_hashes)
@@ -310,6 +311,13 @@ where
                 .into());
             }
 
+            // Make sure response signed_txs are the requested ones.
+            for tx in txs.iter() {
+                if !expect_hashes.remove(&tx.transaction.hash) {
+                    return Err(MemPoolError::UnexpectedTx(tx.transaction.hash).into());
+                }
+            }
+
             let check_nonces = self.verify_tx_in_parallel(ctx.clone(), txs.clone()).await?;
 
             for (signed_tx, check_nonce) in txs.into_iter().zip(check_nonces.into_iter()) {
@@ -430,6 +438,9 @@ pub enum MemPoolError {
     #[display(fmt = "Pull txs, require: {}, response: {}", require, response)]
     EnsureBreak { require: usize, response: usize },
 
+    #[display(fmt = "Pull txs, response a tx {:?} not required", _0)]
+    UnexpectedTx(Hash),
+
     #[display(
         fmt = "There is duplication in order transactions. duplication tx_hash {:?}",
         _0
-- 
2.43.0


From 26766161766af7e98c4e5dd3c160212fe3790c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 17/51] fix: transactions of one sender can be packaged in the
 wrong order

---
 core/mempool/src/pool.rs       | 21 ++++++++++++++++++++-
 core/mempool/src/tx_wrapper.rs | 17 +----------------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 5c31019..2e32d7b 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -163,7 +163,7 @@ impl PriorityPool {
         }
         let mut q = self.real_queue.lock();
 
-        q.sort_unstable();
+        sort_for_package(&mut q);
 
         hashes.extend(
             q.iter()
@@ -391,6 +391,25 @@ impl BuiltInContractTxBucket {
     }
 }
 
+/// Sorts by gas price. The places that the transactions of one sender get are
+/// filled in order of their nonces.
+fn sort_for_package(txs: &mut [TxPtr]) {
+    txs.sort_unstable_by_key(|tx| tx.gas_price());
+
+    let mut places: HashMap<H160, Vec<usize>> = HashMap::new();
+    for (place, tx) in txs.iter().enumerate() {
+        places.entry(tx.sender()).or_default().push(place);
+    }
+
+    for places in places.into_values().filter(|places| places.len() > 1) {
+        let mut sender_txs: Vec<TxPtr> = places.iter().map(|i| Arc::clone(&txs[*i])).collect();
+        sender_txs.sort_unstable_by_key(|tx| *tx.nonce());
+        for (place, tx) in places.into_iter().zip(sender_txs) {
+            txs[place] = tx;
+        }
+    }
+}
+
 fn pop_all_item<T>(queue: Arc<ArrayQueue<T>>) -> impl Iterator<Item = T> {
     (0..queue.len()).map(move |_| queue.pop().unwrap())
 }
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 08c358c..3226647 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -1,4 +1,4 @@
-use std::cmp::{Eq, Ord, Ordering, PartialEq, PartialOrd};
+use std::cmp::{Eq, PartialEq};
 use std::collections::{btree_map::Entry, BTreeMap};
 use std::ops::Bound::{Included, Unbounded};
 use std::sync::atomic::{AtomicU8, Ordering as AtomicOrdering};
@@ -26,15 +26,6 @@ impl From<SignedTransaction> for TxWrapper {
     }
 }
 
-impl Ord for TxWrapper {
-    fn cmp(&self, other: &Self) -> Ordering {
-        if self.sender() != other.sender() {
-            return self.gas_price().cmp(&other.gas_price());
-        }
-        self.nonce().cmp(other.nonce())
-    }
-}
-
 impl PartialEq for TxWrapper {
     fn eq(&self, other: &Self) -> bool {
         self.hash() == other.hash()
@@ -43,12 +34,6 @@ impl PartialEq for TxWrapper {
 
 impl Eq for TxWrapper {}
 
-impl PartialOrd for TxWrapper {
-    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.cmp(other))
-    }
-}
-
 impl TxWrapper {
     pub fn hash(&self) -> Hash {
         self.tx.transaction.hash
-- 
2.43.0


From 93db18b9d65851efac6ade1dee084214dd46ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 18/51] fix: transactions are packaged, or never packaged,
 behind one that has timed out

---
 core/mempool/src/pool.rs       |  8 ++++----
 core/mempool/src/tx_wrapper.rs | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 2e32d7b..d40ce8b 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -296,12 +296,12 @@ impl PriorityPool {
 
         timeout_gap.entry(number).or_default().extend(retain_keys);
 
-        q.retain(|ptr| !ptr.is_dropped());
-
         self.pending_queue.retain(|_, v| {
-            v.clear_droped();
+            v.clear_droped(&mut q);
             !v.need_remove()
-        })
+        });
+
+        q.retain(|ptr| !ptr.is_dropped() && ptr.is_package());
     }
 
     pub fn real_queue_len(&self) -> usize {
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 3226647..0d6a7e7 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -67,7 +67,11 @@ impl TxWrapper {
         self.state.fetch_or(0x01, AtomicOrdering::AcqRel);
     }
 
-    fn is_package(&self) -> bool {
+    fn unset_package(&self) {
+        self.state.fetch_and(!0x01, AtomicOrdering::AcqRel);
+    }
+
+    pub fn is_package(&self) -> bool {
         self.state.load(AtomicOrdering::Acquire) & 0x01 == 0x01
     }
 }
@@ -133,11 +137,19 @@ impl PendingQueue {
         self.pop_tip_nonce = current;
     }
 
-    pub fn clear_droped(&mut self) {
+    pub fn clear_droped(&mut self, list: &mut Vec<TxPtr>) {
         if self.queue.is_empty() {
             self.need_remove = true
         }
         self.queue.retain(|_, v| !v.is_dropped());
+
+        // What comes after a transaction that has been dropped cannot be packaged
+        // until there is another one with the same nonce.
+        self.pop_tip_nonce = self.current_tip_nonce;
+        self.try_search_package_list(list);
+        for (_, tx) in self.queue.range((Included(self.pop_tip_nonce), Unbounded)) {
+            tx.unset_package();
+        }
     }
 
     pub fn set_drop_by_nonce_tip(&mut self, nonce: U64) {
-- 
2.43.0


From 6766b2a114d80203dc730e9d80dbb16d9ffac464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 19/51] fix: a transaction inserted again after its timeout is
 dropped too early

---
 core/mempool/src/pool.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index d40ce8b..7a5578c 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -290,6 +290,10 @@ impl PriorityPool {
             }
 
             v.set_dropped();
+            // It may come again.
+            for hashes in timeout_gap.values_mut() {
+                hashes.remove(hash);
+            }
             *reduce_len += 1;
             false
         });
-- 
2.43.0


From 37777e5ec45d4a45f1f5cc82be490cdae44e000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 20/51] fix: an interoperation signature is accepted whatever
 its verification says

---
 core/mempool/src/adapter/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/adapter/mod.rs b/core/mempool/src/adapter/mod.rs
index 01745c1..5d52ee7 100644
--- a/core/mempool/src/adapter/mod.rs
+++ b/core/mempool/src/adapter/mod.rs
@@ -308,7 +308,7 @@ where
 
         // Verify interoperation signature call CKB-VM mode
         let r = rlp::decode::<CellDepWithPubKey>(&signature.r[1..]).map_err(AdapterError::Rlp)?;
-        InteroperationImpl::call_ckb_vm(
+        let resp = InteroperationImpl::call_ckb_vm(
             Default::default(),
             &DataProvider::new(root),
             r.cell_dep,
@@ -317,6 +317,14 @@ where
         )
         .map_err(|e| AdapterError::VerifySignature(e.to_string()))?;
 
+        if resp.exit_code != 0 {
+            return Err(AdapterError::VerifySignature(format!(
+                "interoperation verification exits with code {}",
+                resp.exit_code
+            ))
+            .into());
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From af8e890e0a1d1d4a72595c5fe4767a4fb733e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 21/51] fix: an empty or cut-short newest consensus WAL file
 hangs the node at start

---
 core/consensus/src/wal.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index ed533d9..56612ae 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -262,14 +262,8 @@ impl ConsensusWal {
         file_names_timestamps.sort_by_key(|&b| std::cmp::Reverse(b));
 
         // 3rd, get a latest and valid wal if possible
-        let mut index = 0;
-        let content = loop {
-            if index >= file_names_timestamps.len() {
-                break None;
-            }
-
-            let file_name_timestamp = file_names_timestamps[index];
-
+        let mut content = None;
+        for file_name_timestamp in file_names_timestamps {
             let mut log_path = dir_path.clone();
             log_path.push(file_name_timestamp.to_string());
 
@@ -286,14 +280,13 @@ impl ConsensusWal {
                 continue;
             }
 
-            let content = info.split_off(Hash::default().as_bytes().len());
+            let body = info.split_off(Hash::default().as_bytes().len());
 
-            if info == Hasher::digest(&content).as_bytes() {
-                break Some(content);
-            } else {
-                index += 1;
+            if info == Hasher::digest(&body).as_bytes() {
+                content = Some(body);
+                break;
             }
-        };
+        }
 
         content.ok_or_else(|| ConsensusError::ConsensusWalNoWalFile.into())
     }
-- 
2.43.0


From 7c1215c08454c0e6fcc61c18474673a08c65e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 22/51] fix: the transactions WAL mixes up blocks whose hashes
 begin and end alike

---
 core/consensus/src/wal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index 56612ae..6aa5268 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -37,7 +37,7 @@ impl SignedTxsWAL {
             fs::create_dir(&wal_path).map_err(ConsensusError::WALErr)?;
         }
 
-        wal_path.push(ordered_signed_transactions_hash.to_string());
+        wal_path.push(format!("{:#x}", ordered_signed_transactions_hash));
         wal_path.set_extension("txt");
 
         let mut wal_file = match fs::OpenOptions::new()
@@ -89,7 +89,7 @@ impl SignedTxsWAL {
     ) -> ProtocolResult<Vec<SignedTransaction>> {
         let mut file_path = self.path.clone();
         file_path.push(number.to_string());
-        file_path.push(ordered_signed_transactions_hash.to_string());
+        file_path.push(format!("{:#x}", ordered_signed_transactions_hash));
         file_path.set_extension("txt");
 
         self.recover_stxs(file_path)
-- 
2.43.0


From af1a53b4eb4d7f173b897c8521256f54cf1df8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 23/51] fix: a transactions WAL file cut short by a crash is
 read as a block with fewer transactions

---
 core/consensus/src/wal.rs | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index 6aa5268..75ec6df 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -40,25 +40,12 @@ impl SignedTxsWAL {
         wal_path.push(format!("{:#x}", ordered_signed_transactions_hash));
         wal_path.set_extension("txt");
 
-        let mut wal_file = match fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .open(wal_path)
-        {
-            Ok(file) => file,
-            Err(err) => {
-                if err.kind() == ErrorKind::AlreadyExists {
-                    return Ok(());
-                } else {
-                    return Err(ConsensusError::WALErr(err).into());
-                }
-            }
-        };
-
-        wal_file
-            .write_all(BatchSignedTxs(txs).encode_msg()?.as_ref())
+        // A log cut short would be read as a block with fewer transactions, so that it gets
+        // its name only when it is whole.
+        let tmp_path = wal_path.with_extension("tmp");
+        fs::write(&tmp_path, BatchSignedTxs(txs).encode_msg()?.as_ref())
             .map_err(ConsensusError::WALErr)?;
+        fs::rename(tmp_path, wal_path).map_err(ConsensusError::WALErr)?;
         Ok(())
     }
 
-- 
2.43.0


From 0ea85b6b9a648a10f3986989fc6520343f8b7d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 24/51] fix: proposals and synchronized blocks are accepted
 with a wrong previous state root, gas limit, base fee or chain id

---
 core/consensus/src/adapter.rs         | 29 +++++++++++++++++++++++++-
 core/consensus/src/lib.rs             | 12 +++++++++++
 core/consensus/src/synchronization.rs | 30 +++++++++++++--------------
 3 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/core/consensus/src/adapter.rs b/core/consensus/src/adapter.rs
index 4b87158..de9964a 100644
--- a/core/consensus/src/adapter.rs
+++ b/core/consensus/src/adapter.rs
@@ -13,6 +13,7 @@ use core_network::{PeerId, PeerIdExt};
 use protocol::constants::endpoints::{
     BROADCAST_HEIGHT, RPC_SYNC_PULL_BLOCK, RPC_SYNC_PULL_PROOF, RPC_SYNC_PULL_TXS,
 };
+use protocol::constants::{BASE_FEE_PER_GAS, MAX_BLOCK_GAS_LIMIT};
 use protocol::traits::{
     CommonConsensusAdapter, ConsensusAdapter, Context, Executor, Gossip, MemPool, MessageTarget,
     Network, PeerTrust, Priority, Rpc, Storage, SynchronizationAdapter,
@@ -26,7 +27,9 @@ use protocol::{async_trait, tokio::task, trie, ProtocolResult};
 
 use crate::consensus::gen_overlord_status;
 use crate::util::{convert_hex_to_bls_pubkeys, OverlordCrypto};
-use crate::BlockHeaderField::{PreviousBlockHash, Version};
+use crate::BlockHeaderField::{
+    BaseFeePerGas, ChainId, GasLimit, PreviousBlockHash, PreviousStateRoot, Version,
+};
 use crate::BlockProofField::{BitMap, HashMismatch, HeightMismatch, Signature, WeightNotFound};
 use crate::{types::PullTxsRequest, BlockProofField, ConsensusError};
 
@@ -446,6 +449,30 @@ where
             );
         }
 
+        if previous_block.header.state_root != proposal.prev_state_root {
+            log::error!(
+                "[consensus] verify_block_header, previous state_root: {:#x}, prev_state_root: {:#x}",
+                previous_block.header.state_root,
+                proposal.prev_state_root
+            );
+            return Err(
+                ConsensusError::VerifyBlockHeader(proposal.number, PreviousStateRoot).into(),
+            );
+        }
+
+        if proposal.gas_limit != MAX_BLOCK_GAS_LIMIT.into() {
+            return Err(ConsensusError::VerifyBlockHeader(proposal.number, GasLimit).into());
+        }
+
+        // The base fee and the chain id are not covered by the proposal hash.
+        if proposal.base_fee_per_gas != BASE_FEE_PER_GAS.into() {
+            return Err(ConsensusError::VerifyBlockHeader(proposal.number, BaseFeePerGas).into());
+        }
+
+        if previous_block.header.chain_id != proposal.chain_id {
+            return Err(ConsensusError::VerifyBlockHeader(proposal.number, ChainId).into());
+        }
+
         Ok(())
     }
 
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index 429b4fc..e4d3930 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -220,6 +220,18 @@ pub enum BlockHeaderField {
 
     #[display(fmt = "The block version")]
     Version,
+
+    #[display(fmt = "The prev_state_root mismatch the state root of the previous block")]
+    PreviousStateRoot,
+
+    #[display(fmt = "The gas limit")]
+    GasLimit,
+
+    #[display(fmt = "The base fee per gas")]
+    BaseFeePerGas,
+
+    #[display(fmt = "The chain id mismatch the previous block")]
+    ChainId,
 }
 
 #[derive(Debug, Display)]
diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 6ad31ea..31e7e17 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -211,9 +211,20 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         consenting_rich_block: &RichBlock,
     ) -> ProtocolResult<Proof> {
         let consenting_number = consenting_rich_block.block.header.number;
+        let previous_block = self
+            .adapter
+            .get_block_by_number(ctx.clone(), consenting_number - 1)
+            .await
+            .map_err(|e| {
+                log::error!(
+                    "[synchronization] get previous block {} error",
+                    consenting_number - 1
+                );
+                e
+            })?;
         let proposal = Proposal::new_with_state_root(
             &consenting_rich_block.block.header,
-            self.status.inner().last_state_root,
+            previous_block.header.state_root,
             consenting_rich_block.block.tx_hashes.clone(),
         );
 
@@ -256,18 +267,6 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
                 e
             })?;
 
-        let previous_block = self
-            .adapter
-            .get_block_by_number(ctx.clone(), consenting_rich_block.block.header.number - 1)
-            .await
-            .map_err(|e| {
-                log::error!(
-                    "[synchronization] get previous block {} error",
-                    consenting_rich_block.block.header.number - 1
-                );
-                e
-            })?;
-
         self.adapter
             .verify_proof(
                 ctx.clone(),
@@ -310,14 +309,15 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
     ) -> ProtocolResult<()> {
         let block = &rich_block.block;
         let block_hash = block.hash();
+        let last_state_root = status_agent.inner().last_state_root;
         let resp = self
             .adapter
             .exec(
                 ctx.clone(),
-                status_agent.inner().last_state_root,
+                last_state_root,
                 &Proposal::new_with_state_root(
                     &block.header,
-                    self.status.inner().last_state_root,
+                    last_state_root,
                     block.tx_hashes.clone(),
                 ),
                 &rich_block.txs,
-- 
2.43.0


From 27c9dcae554c399e6258b91dff9791372edb084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 25/51] fix: after synchronization the proof of the block
 before is stored as the latest

---
 core/consensus/src/synchronization.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 31e7e17..cf662cd 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -360,6 +360,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             rich_block.txs.clone(),
             receipts,
             rich_block.block.clone(),
+            proof,
         )
         .await?;
 
@@ -455,6 +456,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         txs: Vec<SignedTransaction>,
         receipts: Vec<Receipt>,
         block: Block,
+        proof: Proof,
     ) -> ProtocolResult<()> {
         self.adapter
             .save_signed_txs(ctx.clone(), block.header.number, txs)
@@ -462,9 +464,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         self.adapter
             .save_receipts(ctx.clone(), block.header.number, receipts)
             .await?;
-        self.adapter
-            .save_proof(ctx.clone(), block.header.proof.clone())
-            .await?;
+        self.adapter.save_proof(ctx.clone(), proof).await?;
         self.adapter.save_block(ctx.clone(), block).await?;
         Ok(())
     }
-- 
2.43.0


From dcac1fbc6bbf118d98a5ad8e33ebef900f2fe048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 26/51] fix: a synchronized block is accepted with a wrong gas
 used or log bloom

---
 core/consensus/src/lib.rs             |  6 +++++
 core/consensus/src/synchronization.rs | 36 +++++++++++++++++++--------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index e4d3930..2442327 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -232,6 +232,12 @@ pub enum BlockHeaderField {
 
     #[display(fmt = "The chain id mismatch the previous block")]
     ChainId,
+
+    #[display(fmt = "The gas used mismatch the execution")]
+    GasUsed,
+
+    #[display(fmt = "The log bloom mismatch the execution")]
+    LogBloom,
 }
 
 #[derive(Debug, Display)]
diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index cf662cd..d914cd0 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -12,7 +12,7 @@ use protocol::{async_trait, ProtocolResult};
 
 use crate::status::{CurrentStatus, StatusAgent};
 use crate::util::digest_signed_transactions;
-use crate::ConsensusError;
+use crate::{BlockHeaderField, ConsensusError};
 
 const POLLING_BROADCAST: u64 = 2000;
 const ONCE_SYNC_BLOCK_LIMIT: u64 = 50;
@@ -310,18 +310,14 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         let block = &rich_block.block;
         let block_hash = block.hash();
         let last_state_root = status_agent.inner().last_state_root;
+        let proposal = Proposal::new_with_state_root(
+            &block.header,
+            last_state_root,
+            block.tx_hashes.clone(),
+        );
         let resp = self
             .adapter
-            .exec(
-                ctx.clone(),
-                last_state_root,
-                &Proposal::new_with_state_root(
-                    &block.header,
-                    last_state_root,
-                    block.tx_hashes.clone(),
-                ),
-                &rich_block.txs,
-            )
+            .exec(ctx.clone(), last_state_root, &proposal, &rich_block.txs)
             .await?;
 
         if resp.state_root != block.header.state_root {
@@ -340,6 +336,24 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .into());
         }
 
+        // The results of the execution are not covered by the proof.
+        let executed = Block::new(proposal, resp.clone());
+        if executed.header.gas_used != block.header.gas_used {
+            return Err(ConsensusError::VerifyBlockHeader(
+                block.header.number,
+                BlockHeaderField::GasUsed,
+            )
+            .into());
+        }
+
+        if executed.header.log_bloom != block.header.log_bloom {
+            return Err(ConsensusError::VerifyBlockHeader(
+                block.header.number,
+                BlockHeaderField::LogBloom,
+            )
+            .into());
+        }
+
         let (receipts, _logs) = rich_block.generate_receipts_and_logs(&resp);
 
         let metadata = self
-- 
2.43.0


From 6fb585b0370a4513b453e36436b82d98064a7c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 27/51] fix: the limits of transactions of a new consensus
 config do not come into force

---
 core/consensus/src/engine.rs          | 30 +++++++++++++--------------
 core/consensus/src/synchronization.rs | 27 +++++++++++++++---------
 2 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 37c7a28..4c828c7 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -707,15 +707,18 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             self.adapter.remove_hardfork_proposal(ctx.clone()).await?;
         }
 
+        let metadata = self
+            .adapter
+            .get_metadata_by_block_number(block_number + 1)
+            .await?;
+        let tx_num_limit = metadata.consensus_config.tx_num_limit;
+        let max_tx_size = metadata.consensus_config.max_tx_size;
+
         if self
             .adapter
             .is_last_block_in_current_epoch(block_number)
             .await?
         {
-            let metadata = self
-                .adapter
-                .get_metadata_by_block_number(block_number + 1)
-                .await?;
             let pub_keys = metadata
                 .verifier_list
                 .iter()
@@ -725,25 +728,20 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             self.update_overlord_crypto(metadata)?;
         }
 
-        let last_status = self.status.inner();
         let new_status = CurrentStatus {
-            prev_hash:       block_hash,
-            last_number:     block_number,
+            prev_hash: block_hash,
+            last_number: block_number,
             last_state_root: resp.state_root,
-            max_tx_size:     last_status.max_tx_size,
-            tx_num_limit:    last_status.tx_num_limit,
-            proof:           proof.clone(),
+            max_tx_size: max_tx_size.into(),
+            tx_num_limit,
+            proof: proof.clone(),
         };
 
         self.status.swap(new_status);
 
         // update timeout_gap of mempool
-        self.adapter.set_args(
-            ctx,
-            resp.state_root,
-            MAX_BLOCK_GAS_LIMIT,
-            last_status.max_tx_size.low_u64(),
-        );
+        self.adapter
+            .set_args(ctx, resp.state_root, MAX_BLOCK_GAS_LIMIT, max_tx_size);
 
         if block.header.number != proof.number {
             log::error!("[consensus] update_status for handle_commit error, before update, block number {}, proof number {}, proof {}",
diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index d914cd0..a358a10 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -5,6 +5,7 @@ use parking_lot::RwLock;
 
 use common_apm::Instant;
 use common_apm_derive::trace_span;
+use protocol::constants::MAX_BLOCK_GAS_LIMIT;
 use protocol::tokio::{sync::Mutex, time::sleep};
 use protocol::traits::{Context, Synchronization, SynchronizationAdapter};
 use protocol::types::{Block, Proof, Proposal, Receipt, RichBlock, SignedTransaction, U256};
@@ -356,17 +357,13 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
 
         let (receipts, _logs) = rich_block.generate_receipts_and_logs(&resp);
 
-        let metadata = self
-            .adapter
-            .get_metadata_by_block_number(block.header.number)
-            .await?;
+        // The limits of transactions are updated when the synchronization ends.
         let new_status = CurrentStatus {
-            prev_hash:       block.hash(),
-            last_number:     block.header.number,
+            prev_hash: block.hash(),
+            last_number: block.header.number,
             last_state_root: resp.state_root,
-            tx_num_limit:    metadata.consensus_config.tx_num_limit,
-            max_tx_size:     metadata.consensus_config.max_tx_size.into(),
-            proof:           proof.clone(),
+            proof: proof.clone(),
+            ..status_agent.inner()
         };
 
         self.save_chain_data(
@@ -517,13 +514,23 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         ctx: Context,
         sync_status_agent: StatusAgent,
     ) -> ProtocolResult<()> {
-        let sync_status = sync_status_agent.inner();
+        let mut sync_status = sync_status_agent.inner();
         self.status.swap(sync_status.clone());
         let metadata = self
             .adapter
             .get_metadata_by_block_number(sync_status.last_number + 1)
             .await?;
 
+        sync_status.tx_num_limit = metadata.consensus_config.tx_num_limit;
+        sync_status.max_tx_size = metadata.consensus_config.max_tx_size.into();
+        self.status.swap(sync_status.clone());
+        self.adapter.set_args(
+            ctx.clone(),
+            sync_status.last_state_root,
+            MAX_BLOCK_GAS_LIMIT,
+            metadata.consensus_config.max_tx_size,
+        );
+
         self.adapter.update_status(
             ctx,
             sync_status.last_number,
-- 
2.43.0


From 301e37228ff0f05d2ed753e2cb7275ef3d40c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 28/51] fix: a node that synchronizes into another epoch does
 not know its validators

---
 core/consensus/src/adapter.rs         | 6 ++++++
 core/consensus/src/synchronization.rs | 9 +++++++++
 protocol/src/traits/consensus.rs      | 5 +++++
 3 files changed, 20 insertions(+)

diff --git a/core/consensus/src/adapter.rs b/core/consensus/src/adapter.rs
index de9964a..34816e6 100644
--- a/core/consensus/src/adapter.rs
+++ b/core/consensus/src/adapter.rs
@@ -26,6 +26,7 @@ use protocol::types::{
 use protocol::{async_trait, tokio::task, trie, ProtocolResult};
 
 use crate::consensus::gen_overlord_status;
+use crate::engine::generate_new_crypto_map;
 use crate::util::{convert_hex_to_bls_pubkeys, OverlordCrypto};
 use crate::BlockHeaderField::{
     BaseFeePerGas, ChainId, GasLimit, PreviousBlockHash, PreviousStateRoot, Version,
@@ -165,6 +166,11 @@ where
         Ok(())
     }
 
+    fn update_crypto(&self, metadata: Metadata) -> ProtocolResult<()> {
+        self.crypto.update(generate_new_crypto_map(metadata)?);
+        Ok(())
+    }
+
     /// Pull some blocks from other nodes from `begin` to `end`.
     #[trace_span(kind = "consensus.adapter")]
     async fn get_block_from_remote(&self, ctx: Context, number: u64) -> ProtocolResult<Block> {
diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index a358a10..4e088cc 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -531,6 +531,15 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             metadata.consensus_config.max_tx_size,
         );
 
+        // The synchronized blocks may have gone into another epoch.
+        let pub_keys = metadata
+            .verifier_list
+            .iter()
+            .map(|v| v.pub_key.as_bytes())
+            .collect();
+        self.adapter.tag_consensus(ctx.clone(), pub_keys)?;
+        self.adapter.update_crypto(metadata.clone())?;
+
         self.adapter.update_status(
             ctx,
             sync_status.last_number,
diff --git a/protocol/src/traits/consensus.rs b/protocol/src/traits/consensus.rs
index 2783434..979ddd3 100644
--- a/protocol/src/traits/consensus.rs
+++ b/protocol/src/traits/consensus.rs
@@ -76,6 +76,11 @@ pub trait SynchronizationAdapter: CommonConsensusAdapter + Send + Sync {
         validators: Vec<ConsensusValidator>,
     ) -> ProtocolResult<()>;
 
+    /// Take the validators of the given metadata as those who sign from now on.
+    fn update_crypto(&self, _metadata: Metadata) -> ProtocolResult<()> {
+        Ok(())
+    }
+
     /// Pull some blocks from other nodes from `begin` to `end`.
     async fn get_block_from_remote(
         &self,
-- 
2.43.0


From 82a3e27c0fdc633db7bb59b0b4528d404be404f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 29/51] fix: checking a proposal of number 0 overflows

---
 core/consensus/src/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 4c828c7..e82ba48 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -159,9 +159,9 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
     ) -> Result<(), Box<dyn Error + Send>> {
         let time = Instant::now();
 
-        if proposal.number != proposal.proof.number + 1 {
+        if proposal.proof.number.checked_add(1) != Some(proposal.number) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
-                expect: proposal.number - 1,
+                expect: proposal.number.saturating_sub(1),
                 actual: proposal.proof.number,
             })
             .into());
-- 
2.43.0


From 1790752a7629daaa4396347df0a7f88a9bb8bc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 30/51] fix: a node that synchronized a hardfork goes on
 proposing it

---
 core/consensus/src/engine.rs | 77 +++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index e82ba48..de29085 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -24,7 +24,7 @@ use protocol::constants::endpoints::{
 use protocol::constants::{BASE_FEE_PER_GAS, MAX_BLOCK_GAS_LIMIT};
 use protocol::traits::{ConsensusAdapter, Context, MessageTarget, NodeInfo};
 use protocol::types::{
-    Block, BlockVersion, Bytes, ExecResp, ExtraData, Hash, Hex, Metadata, Proof, Proposal,
+    Block, BlockVersion, Bytes, ExecResp, ExtraData, Hash, Header, Hex, Metadata, Proof, Proposal,
     SignedTransaction, ValidatorExtend, VecDisplayHelper, RLP_NULL,
 };
 use protocol::{
@@ -86,6 +86,17 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
             RLP_NULL
         };
 
+        // The block that accepts the hardfork may have come by synchronization.
+        let has_proposal = self.node_info.hardfork_proposals.read().unwrap().is_some();
+        if has_proposal {
+            let header = self
+                .adapter
+                .get_block_header_by_number(ctx.clone(), status.last_number)
+                .await?;
+            self.remove_accepted_hardfork_proposal(ctx.clone(), &header)
+                .await?;
+        }
+
         let mut remove = false;
         let extra_data_hardfork = {
             let mut hardfork = self.node_info.hardfork_proposals.write().unwrap();
@@ -678,34 +689,8 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         // Save the block
         self.adapter.save_block(ctx.clone(), block.clone()).await?;
 
-        let root = self
-            .adapter
-            .get_metadata_root(
-                block.header.state_root,
-                &Proposal::new_without_state_root(&block.header),
-            )
+        self.remove_accepted_hardfork_proposal(ctx.clone(), &block.header)
             .await?;
-        let handle = MetadataHandle::new(root);
-        let hardforks = handle.hardfork_infos()?;
-
-        let mut remove = false;
-        if let Some(data) = hardforks.inner.last() {
-            let mut self_proposal = self.node_info.hardfork_proposals.write().unwrap();
-
-            if self_proposal
-                .as_ref()
-                .map(|v| data.flags & v.flags == v.flags)
-                .unwrap_or_default()
-            {
-                // remove self hardfork proposal
-                self_proposal.take();
-                remove = true;
-            }
-        }
-
-        if remove {
-            self.adapter.remove_hardfork_proposal(ctx.clone()).await?;
-        }
 
         let metadata = self
             .adapter
@@ -754,6 +739,42 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         Ok(())
     }
 
+    /// Remove the hardfork proposal of this node if it has been accepted up to
+    /// the given block.
+    async fn remove_accepted_hardfork_proposal(
+        &self,
+        ctx: Context,
+        header: &Header,
+    ) -> ProtocolResult<()> {
+        let root = self
+            .adapter
+            .get_metadata_root(header.state_root, &Proposal::new_without_state_root(header))
+            .await?;
+        let handle = MetadataHandle::new(root);
+        let hardforks = handle.hardfork_infos()?;
+
+        let mut remove = false;
+        if let Some(data) = hardforks.inner.last() {
+            let mut self_proposal = self.node_info.hardfork_proposals.write().unwrap();
+
+            if self_proposal
+                .as_ref()
+                .map(|v| data.flags & v.flags == v.flags)
+                .unwrap_or_default()
+            {
+                // remove self hardfork proposal
+                self_proposal.take();
+                remove = true;
+            }
+        }
+
+        if remove {
+            self.adapter.remove_hardfork_proposal(ctx).await?;
+        }
+
+        Ok(())
+    }
+
     fn update_overlord_crypto(&self, metadata: Metadata) -> ProtocolResult<()> {
         self.crypto.update(generate_new_crypto_map(metadata)?);
         Ok(())
-- 
2.43.0


From b166a8ae19dbaf65af0e791fe91837626678d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 31/51] fix: subscriptions send their notifications

---
 core/api/src/jsonrpc/ws_subscription.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index 46b197a..e3e8a29 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -134,7 +134,7 @@ where
                 let msg = SubscriptionMessage::from_json(&web3_header).unwrap();
 
                 for hub in self.header_hubs.iter_mut() {
-                    let _ignore = hub.sink.send(msg.clone());
+                    let _ignore = hub.sink.send(msg.clone()).await;
                 }
             }
 
@@ -142,7 +142,7 @@ where
             let msg = SubscriptionMessage::from_json(&latest_web3_header).unwrap();
 
             for hub in self.header_hubs.iter_mut() {
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.send(msg.clone()).await;
             }
         }
 
@@ -153,7 +153,7 @@ where
 
             for hub in self.sync_hubs.iter_mut() {
                 // unbound sender can ignore it's return
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.send(msg.clone()).await;
             }
         }
 
@@ -198,7 +198,7 @@ where
                         for log in logs.drain(..) {
                             let msg = SubscriptionMessage::from_json(&log).unwrap();
                             // unbound sender can ignore it's return
-                            let _ignore = hub.sink.send(msg);
+                            let _ignore = hub.sink.send(msg).await;
                         }
                     }
                     index += log_len;
-- 
2.43.0


From dbbf8ac04f4ce0f1ddf7d652593edff48bd5a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 32/51] fix: subscribed logs carry their transaction's index

---
 core/api/src/jsonrpc/ws_subscription.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index e3e8a29..0d0fa95 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -182,10 +182,8 @@ where
                     .await
                     .unwrap();
 
-                let mut index = 0;
                 let mut logs = Vec::new();
-                for receipt in receipts.into_iter().flatten() {
-                    let log_len = receipt.logs.len();
+                for (index, receipt) in receipts.into_iter().flatten().enumerate() {
                     for hub in self.log_hubs.iter_mut() {
                         from_receipt_to_web3_log(
                             index,
@@ -201,7 +199,6 @@ where
                             let _ignore = hub.sink.send(msg).await;
                         }
                     }
-                    index += log_len;
                 }
             }
         }
-- 
2.43.0


From 97158c59204d03fe50a39526d37f05e73fa85f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 33/51] fix: a log's index is its position in the block

---
 core/api/src/jsonrpc/impl/web3.rs  | 2 +-
 core/api/src/jsonrpc/web3_types.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 79361f8..daef2fa 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -1164,7 +1164,7 @@ pub fn from_receipt_to_web3_log(
                 block_number:      Some(receipt.block_number.into()),
                 transaction_hash:  Some(receipt.tx_hash),
                 transaction_index: Some(index.into()),
-                log_index:         Some(log_idex.into()),
+                log_index:         Some((receipt.log_index as usize + log_idex).into()),
                 removed:           false,
             };
             logs.push(web3_log);
diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index 07ed454..88c7a40 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -206,7 +206,7 @@ impl Web3Receipt {
                 block_hash:        receipt.block_hash,
                 transaction_hash:  receipt.tx_hash,
                 transaction_index: Some(receipt.tx_index.into()),
-                log_index:         idx.into(),
+                log_index:         (receipt.log_index as usize + idx).into(),
                 removed:           false,
             })
             .collect::<Vec<_>>();
-- 
2.43.0


From c48cf049314bb1c269f64c5bacd221817b640eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 34/51] fix: receipts show the gas price and the block's
 cumulative gas

---
 core/api/src/jsonrpc/impl/web3.rs  | 23 ++++++++++++++++++++++-
 core/api/src/jsonrpc/web3_types.rs |  6 +++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index daef2fa..6329afd 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -91,6 +91,26 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
             .await
     }
 
+    /// The gas used in the block up to and including the transaction.
+    async fn cumulative_gas_used(&self, receipt: &Receipt) -> Result<U64, RpcError> {
+        let block = self
+            .adapter
+            .get_block_by_number(Context::new(), Some(receipt.block_number))
+            .await
+            .map_err(|e| RpcError::Internal(e.to_string()))?
+            .ok_or(RpcError::CannotFindBlock)?;
+
+        Ok(self
+            .adapter
+            .get_receipts_by_hashes(Context::new(), receipt.block_number, &block.tx_hashes)
+            .await
+            .map_err(|e| RpcError::Internal(e.to_string()))?
+            .into_iter()
+            .flatten()
+            .filter(|r| r.tx_index <= receipt.tx_index)
+            .fold(U64::zero(), |sum, r| sum + r.used_gas))
+    }
+
     async fn calculate_rewards(
         &self,
         block_number: u64,
@@ -545,7 +565,8 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                 .await
                 .map_err(|e| RpcError::Internal(e.to_string()))?
             {
-                return Ok(Some(Web3Receipt::new(receipt, stx)));
+                let cumulative_gas_used = self.cumulative_gas_used(&receipt).await?;
+                return Ok(Some(Web3Receipt::new(receipt, stx, cumulative_gas_used)));
             }
         }
 
diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index 88c7a40..b374cc9 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -193,7 +193,7 @@ pub struct Web3ReceiptLog {
 }
 
 impl Web3Receipt {
-    pub fn new(receipt: Receipt, stx: SignedTransaction) -> Web3Receipt {
+    pub fn new(receipt: Receipt, stx: SignedTransaction, cumulative_gas_used: U64) -> Web3Receipt {
         let logs_list = receipt
             .logs
             .iter()
@@ -215,8 +215,8 @@ impl Web3Receipt {
             block_number:        receipt.block_number.into(),
             block_hash:          receipt.block_hash,
             contract_address:    receipt.code_address.map(Into::into),
-            cumulative_gas_used: receipt.used_gas,
-            effective_gas_price: receipt.used_gas,
+            cumulative_gas_used,
+            effective_gas_price: stx.transaction.unsigned.gas_price(),
             from:                receipt.sender,
             status:              receipt.status(),
             gas_used:            receipt.used_gas,
-- 
2.43.0


From 9846e7bb2b441125549e62a902c283cafcafe77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 35/51] fix: a state query for an unknown block hash does not
 answer from the latest block

---
 core/api/src/jsonrpc/impl/web3.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 6329afd..0eaa6c4 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -47,11 +47,13 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
         block_id: Option<BlockId>,
     ) -> Result<Option<BlockNumber>, RpcError> {
         match block_id {
-            Some(BlockId::Hash(ref hash)) => Ok(self
+            Some(BlockId::Hash(ref hash)) => self
                 .adapter
                 .get_block_number_by_hash(Context::new(), *hash)
                 .await
-                .map_err(|e| RpcError::Internal(e.to_string()))?),
+                .map_err(|e| RpcError::Internal(e.to_string()))?
+                .map(Some)
+                .ok_or(RpcError::CannotFindBlock),
             _ => Ok(block_id.unwrap_or_default().into()),
         }
     }
@@ -391,12 +393,8 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                     .map(|account| account.nonce + pending_tx_count)
                     .unwrap_or_default())
             }
-            BlockId::Hash(ref hash) => {
-                let number = self
-                    .adapter
-                    .get_block_number_by_hash(Context::new(), *hash)
-                    .await
-                    .map_err(|e| RpcError::Internal(e.to_string()))?;
+            b => {
+                let number = self.get_block_number_by_id(Some(b)).await?;
                 Ok(self
                     .adapter
                     .get_account(Context::new(), address, number)
@@ -404,12 +402,6 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                     .map(|account| account.nonce)
                     .unwrap_or_default())
             }
-            b => Ok(self
-                .adapter
-                .get_account(Context::new(), address, b.into())
-                .await
-                .map(|account| account.nonce)
-                .unwrap_or_default()),
         }
     }
 
-- 
2.43.0


From 7a8b2710cbfc5cfbb1dc3040ab55c6fb0081b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 36/51] fix: gas is estimated on the block that was asked for

---
 core/api/src/jsonrpc/impl/web3.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 0eaa6c4..ca20770 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -484,10 +484,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
             }
         }
 
-        let num = match number {
-            Some(BlockId::Num(n)) => Some(n.low_u64()),
-            _ => None,
-        };
+        let num = self.get_block_number_by_id(number).await?;
         let data_bytes = req
             .data
             .as_ref()
-- 
2.43.0


From fc6826f5f7046fd6c3f3608a0995fbfa53dd7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 37/51] fix: a block named by its hash is not taken for the
 latest one

---
 core/api/src/jsonrpc/impl/web3.rs | 34 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index ca20770..28aa71b 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -58,6 +58,22 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
         }
     }
 
+    async fn get_block_by_id(&self, block_id: BlockId) -> Result<Option<Block>, RpcError> {
+        match block_id {
+            BlockId::Hash(hash) => {
+                self.adapter
+                    .get_block_by_hash(Context::new(), hash)
+                    .await
+            }
+            id => {
+                self.adapter
+                    .get_block_by_number(Context::new(), id.into())
+                    .await
+            }
+        }
+        .map_err(|e| RpcError::Internal(e.to_string()))
+    }
+
     async fn call_evm(
         &self,
         req: Web3CallRequest,
@@ -289,11 +305,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         number: BlockId,
         show_rich_tx: bool,
     ) -> RpcResult<Option<Web3Block>> {
-        let block = self
-            .adapter
-            .get_block_by_number(Context::new(), number.into())
-            .await
-            .map_err(|e| RpcError::Internal(e.to_string()))?;
+        let block = self.get_block_by_id(number).await?;
 
         match block {
             Some(b) => {
@@ -526,11 +538,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
 
     #[metrics_rpc("eth_getBlockTransactionCountByNumber")]
     async fn get_block_transaction_count_by_number(&self, number: BlockId) -> RpcResult<U256> {
-        let block = self
-            .adapter
-            .get_block_by_number(Context::new(), number.into())
-            .await
-            .map_err(|e| RpcError::Internal(e.to_string()))?;
+        let block = self.get_block_by_id(number).await?;
         let count = match block {
             Some(bc) => bc.tx_hashes.len(),
             _ => 0,
@@ -962,11 +970,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         raw_index.copy_from_slice(&raw[..8]);
         let index = usize::from_le_bytes(raw_index);
 
-        let block = self
-            .adapter
-            .get_block_by_number(Context::new(), number.into())
-            .await
-            .map_err(|e| RpcError::Internal(e.to_string()))?;
+        let block = self.get_block_by_id(number).await?;
 
         if let Some(block) = block {
             if let Some(tx_hash) = block.tx_hashes.get(index) {
-- 
2.43.0


From 55db893a15d115f49c9e109129836b375b0e72b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 38/51] fix: asking for an unknown filter does not stop all
 filters

---
 core/api/src/jsonrpc/error.rs       | 6 +++---
 core/api/src/jsonrpc/impl/filter.rs | 2 +-
 core/api/src/jsonrpc/impl/web3.rs   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/api/src/jsonrpc/error.rs b/core/api/src/jsonrpc/error.rs
index ba0701c..b4ed80b 100644
--- a/core/api/src/jsonrpc/error.rs
+++ b/core/api/src/jsonrpc/error.rs
@@ -1,6 +1,6 @@
 use jsonrpsee::types::{error::ErrorObject, ErrorObjectOwned};
 
-use protocol::types::{ExitReason, TxResp};
+use protocol::types::{ExitReason, TxResp, U256};
 use protocol::{codec::hex_encode, Display};
 
 use core_executor::decode_revert_msg;
@@ -40,7 +40,7 @@ pub enum RpcError {
     #[display(fmt = "Invalid newest block {:?}", _0)]
     InvalidNewestBlock(BlockId),
     #[display(fmt = "Invalid position {}", _0)]
-    InvalidPosition(u64),
+    InvalidPosition(U256),
     #[display(fmt = "Cannot find the block")]
     CannotFindBlock,
     #[display(fmt = "Invalid reward percentiles {} {}", _0, _1)]
@@ -48,7 +48,7 @@ pub enum RpcError {
     #[display(fmt = "Invalid from block number and to block number union")]
     InvalidFromBlockAndToBlockUnion,
     #[display(fmt = "Invalid filter id {}", _0)]
-    CannotFindFilterId(u64),
+    CannotFindFilterId(U256),
     #[display(fmt = "Not allow to call system contract address")]
     CallSystemContract,
 
diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index bd9e727..acb533a 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -246,7 +246,7 @@ where
             sender.send(res).unwrap()
         } else {
             sender
-                .send(Err(RpcError::CannotFindFilterId(id.as_u64()).into()))
+                .send(Err(RpcError::CannotFindFilterId(id).into()))
                 .unwrap()
         }
     }
diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 28aa71b..4b38ca7 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -928,7 +928,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position).into());
         }
 
         let mut raw = [0u8; 32];
@@ -959,7 +959,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position).into());
         }
 
         let mut raw = [0u8; 32];
-- 
2.43.0


From bee77cf8868761d180464f688c76a8759d6799a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 39/51] fix: revert data that is no message does not panic

---
 core/executor/src/utils.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/executor/src/utils.rs b/core/executor/src/utils.rs
index cd5c0b9..8ce2687 100644
--- a/core/executor/src/utils.rs
+++ b/core/executor/src/utils.rs
@@ -62,14 +62,13 @@ pub fn decode_revert_msg(input: &[u8]) -> String {
         return decode_reason(input);
     }
 
-    let end_offset = REVERT_EFFECT_MSG_OFFSET
-        + U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]).as_usize();
+    let msg_len = U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]);
 
-    if input.len() < end_offset {
+    if U256::from(input.len() - REVERT_EFFECT_MSG_OFFSET) < msg_len {
         return decode_reason(input);
     }
 
-    decode_reason(&input[REVERT_EFFECT_MSG_OFFSET..end_offset])
+    decode_reason(&input[REVERT_EFFECT_MSG_OFFSET..REVERT_EFFECT_MSG_OFFSET + msg_len.as_usize()])
 }
 
 #[cfg(test)]
-- 
2.43.0


From 26c20f764c79e444e7b0429a53e07dec0c40f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 40/51] fix: transactions show their own maximal fee

---
 core/api/src/jsonrpc/web3_types.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index b374cc9..6bee566 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -6,8 +6,8 @@ use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
 use protocol::codec::ProtocolCodec;
 use protocol::types::{
-    AccessList, Block, Bloom, Bytes, Hash, Header, Hex, Public, Receipt, SignedTransaction, H160,
-    H256, H64, MAX_PRIORITY_FEE_PER_GAS, U256, U64,
+    AccessList, Block, Bloom, Bytes, Hash, Header, Hex, Public, Receipt, SignedTransaction,
+    UnsignedTransaction, H160, H256, H64, U256, U64,
 };
 
 pub const EMPTY_UNCLE_HASH: H256 = H256([
@@ -106,10 +106,9 @@ impl From<SignedTransaction> for Web3Transaction {
             public_key:               stx.public,
             gas:                      *stx.transaction.unsigned.gas_limit(),
             gas_price:                stx.transaction.unsigned.gas_price(),
-            max_fee_per_gas:          if is_eip1559 {
-                Some(U64::from(MAX_PRIORITY_FEE_PER_GAS))
-            } else {
-                None
+            max_fee_per_gas:          match &stx.transaction.unsigned {
+                UnsignedTransaction::Eip1559(tx) => Some(tx.gas_price),
+                _ => None,
             },
             max_priority_fee_per_gas: if is_eip1559 {
                 Some(*stx.transaction.unsigned.max_priority_fee_per_gas())
-- 
2.43.0


From 3422512e25ef3622da6680c8370382fd31293b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 41/51] fix: fee history starts at the right block, with ratios
 and one base fee per block

---
 core/api/src/jsonrpc/impl/web3.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 4b38ca7..72dfedf 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -185,8 +185,8 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
 
         let latest_block_number = latest_block.header.number;
         let oldest_block_number = latest_block_number
-            .saturating_sub(block_count.as_u64())
-            .saturating_add(1);
+            .saturating_add(1)
+            .saturating_sub(block_count.as_u64());
 
         let mut bash_fee_per_gases: Vec<U64> = Vec::new();
         let mut gas_used_ratios: Vec<f64> = Vec::new();
@@ -205,7 +205,6 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
             let gas_used_ratio = calculate_gas_used_ratio(&block);
             gas_used_ratios.push(gas_used_ratio);
             bash_fee_per_gases.push(block.header.base_fee_per_gas);
-            bash_fee_per_gases.push(next_block_base_fee_per_gas());
 
             if let Some(reward_percentiles) = reward_percentiles.clone() {
                 let txs = block.tx_hashes;
@@ -219,6 +218,7 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
                 .await?;
             }
         }
+        bash_fee_per_gases.push(next_block_base_fee_per_gas());
 
         Ok((
             oldest_block_number,
@@ -1088,7 +1088,7 @@ fn check_reward_percentiles(reward_percentiles: &Option<Vec<f64>>) -> RpcResult<
 fn calculate_gas_used_ratio(block: &Block) -> f64 {
     (block.header.gas_limit != U64::zero())
         .then(|| {
-            block.header.gas_used.low_u64() as f64 / block.header.gas_limit.as_u64() as f64 * 100f64
+            block.header.gas_used.low_u64() as f64 / block.header.gas_limit.as_u64() as f64
         })
         .unwrap_or(0f64)
 }
-- 
2.43.0


From 1b4a0db8ec8aa10a70721de8e109fe53ab8d3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 42/51] fix: the last reward percentile is checked too

---
 core/api/src/jsonrpc/impl/web3.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 72dfedf..55e7b22 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -1071,6 +1071,12 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
 // 1. checks for rewardPercentile's sorted-ness
 // 2. check if any of rewardPercentile is greater than 100 or less than 0
 fn check_reward_percentiles(reward_percentiles: &Option<Vec<f64>>) -> RpcResult<()> {
+    if let Some(last) = reward_percentiles.as_ref().and_then(|p| p.last()) {
+        if !(0.0..=100.0).contains(last) {
+            return Err(RpcError::InvalidRewardPercentiles(*last, *last).into());
+        }
+    }
+
     reward_percentiles
         .as_ref()
         .and_then(|percentiles| {
-- 
2.43.0


From e04c7c06cd735771cf23603af66c59b72b39f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 43/51] fix: a stored cell with an invalid hash type does not
 panic the light client RPC

---
 core/api/src/jsonrpc/impl/ckb_light_client.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/api/src/jsonrpc/impl/ckb_light_client.rs b/core/api/src/jsonrpc/impl/ckb_light_client.rs
index 8f7807f..ef3906e 100644
--- a/core/api/src/jsonrpc/impl/ckb_light_client.rs
+++ b/core/api/src/jsonrpc/impl/ckb_light_client.rs
@@ -1,8 +1,10 @@
+use std::iter;
 use std::sync::Arc;
 
 use ckb_jsonrpc_types::{CellData, CellInfo, HeaderView as CkbHeaderView, JsonBytes, OutPoint};
 use ckb_traits::HeaderProvider;
 use ckb_types::core::cell::{CellProvider, CellStatus};
+use ckb_types::core::ScriptHashType;
 use ckb_types::{packed, prelude::Pack};
 use jsonrpsee::core::RpcResult;
 
@@ -44,6 +46,13 @@ impl<Adapter: APIAdapter + 'static> CkbLightClientRpcServer for CkbLightClientRp
 
         match DataProvider::new(root).cell(&out_point, false) {
             CellStatus::Live(c) => {
+                // The image cell contract takes any byte, CKB's JSON types do not
+                if !has_valid_hash_types(&c.cell_output) {
+                    return Err(
+                        RpcError::Internal("Invalid script hash type in cell".to_string()).into(),
+                    );
+                }
+
                 let data = with_data.then_some(c.mem_cell_data).flatten();
                 Ok(Some(CellInfo {
                     output: c.cell_output.into(),
@@ -58,6 +67,12 @@ impl<Adapter: APIAdapter + 'static> CkbLightClientRpcServer for CkbLightClientRp
     }
 }
 
+fn has_valid_hash_types(output: &packed::CellOutput) -> bool {
+    iter::once(output.lock())
+        .chain(output.type_().to_opt())
+        .all(|script| ScriptHashType::try_from(script.hash_type()).is_ok())
+}
+
 impl<Adapter: APIAdapter> CkbLightClientRpcImpl<Adapter> {
     pub fn new(adapter: Arc<Adapter>) -> Self {
         Self { adapter }
-- 
2.43.0


From 1c8f2d402b6c8fd33d8e071500db2797a49058e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 44/51] fix: trace headers of a peer's message cannot stop the
 node

---
 core/network/src/message/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/network/src/message/mod.rs b/core/network/src/message/mod.rs
index 43647f7..addc59f 100644
--- a/core/network/src/message/mod.rs
+++ b/core/network/src/message/mod.rs
@@ -50,18 +50,18 @@ impl NetworkMessage {
     }
 
     pub fn trace_id(&self) -> Option<TraceId> {
-        self.headers.get("trace_id").and_then(|id| {
-            String::from_utf8(id.to_owned())
-                .ok()
-                .map(|s| AxonTracer::str_to_trace(&s).unwrap())
-        })
+        // The header comes from a remote peer: what is no trace id is left out.
+        self.headers
+            .get("trace_id")
+            .and_then(|id| std::str::from_utf8(id).ok())
+            .filter(|id| id.len() <= 32 && id.bytes().all(|b| b.is_ascii_hexdigit()))
+            .and_then(|id| AxonTracer::str_to_trace(id).ok())
     }
 
     pub fn span_id(&self) -> Option<u64> {
-        self.headers.get("span_id").map(|id| {
-            let mut buf = [0u8; 8];
-            buf.copy_from_slice(&id[..8]);
-            u64::from_be_bytes(buf)
+        self.headers.get("span_id").and_then(|id| {
+            let buf = id.get(..8)?.try_into().ok()?;
+            Some(u64::from_be_bytes(buf))
         })
     }
 
-- 
2.43.0


From 2533dfdd353aa54c45e5bda665ac4a12700cd0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 45/51] fix: a peer over the limits or banned is not let in

---
 core/network/src/peer_manager/mod.rs | 5 ++++-
 core/network/src/service.rs          | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 82f5fdc..733b4e5 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -232,7 +232,10 @@ impl PeerManager {
         let peer_id = extract_peer_id(addr).unwrap();
         self.bootstraps.contains_key(&peer_id)
             || self.consensus_list.read().contains(&peer_id)
-            || self.with_peer_store(|peer_store| !peer_store.is_addr_banned(addr))
+    }
+
+    pub fn is_addr_banned(&self, addr: &Multiaddr) -> bool {
+        self.with_peer_store(|peer_store| peer_store.is_addr_banned(addr))
     }
 
     pub fn local_listen_addrs(&self) -> Vec<Multiaddr> {
diff --git a/core/network/src/service.rs b/core/network/src/service.rs
index ac8c027..4a8b110 100644
--- a/core/network/src/service.rs
+++ b/core/network/src/service.rs
@@ -666,7 +666,9 @@ impl ServiceHandle for ServiceHandler {
                         }
                     };
 
-                if disable && !self.peer_store.always_allow(&session_context.address) {
+                let refuse = disable || self.peer_store.is_addr_banned(&session_context.address);
+
+                if refuse && !self.peer_store.always_allow(&session_context.address) {
                     let _ignore = control.disconnect(session_context.id).await;
                 } else {
                     self.peer_store.register(PeerInfo::new(session_context))
-- 
2.43.0


From 8cfc8484eb982556f75e01588174a48b00d46f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 46/51] fix: a ban until the end of time does not overflow

---
 core/network/src/peer_manager/peer_store/peer_store_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/peer_store/peer_store_impl.rs b/core/network/src/peer_manager/peer_store/peer_store_impl.rs
index 4640b94..224bb35 100644
--- a/core/network/src/peer_manager/peer_store/peer_store_impl.rs
+++ b/core/network/src/peer_manager/peer_store/peer_store_impl.rs
@@ -209,7 +209,7 @@ impl PeerStore {
         let now_ms = faketime::unix_time_as_millis();
         let ban_addr = BannedAddr {
             address: network,
-            ban_until: now_ms + timeout_ms,
+            ban_until: now_ms.saturating_add(timeout_ms),
             created_at: now_ms,
             ban_reason,
         };
-- 
2.43.0


From c5fe809fd9c399ce07bf71a5b6dc0c11941da4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:14 +0000
Subject: [PATCH 47/51] fix: a banned peer is disconnected

---
 core/network/src/peer_manager/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 733b4e5..7a7593a 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -252,12 +252,12 @@ impl PeerManager {
     }
 
     pub fn ban_id(&self, peer_id: &PeerId, timeout: u64, ban_reason: String) -> Option<SessionId> {
-        if let Some(info) = self.online.read().peers.get(peer_id) {
+        self.online.read().peers.get(peer_id).map(|info| {
             self.peer_store
                 .write()
-                .ban_addr(&info.addr, timeout, ban_reason)
-        }
-        None
+                .ban_addr(&info.addr, timeout, ban_reason);
+            info.session_id
+        })
     }
 
     pub fn ban_session_id(&self, session_id: SessionId, timeout: u64, ban_reason: String) {
-- 
2.43.0


From 435142d8c58fb81b94e5da43920f85eff4130845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:14 +0000
Subject: [PATCH 48/51] fix: inbound peers do not take the room of outbound
 ones

---
 core/network/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/src/service.rs b/core/network/src/service.rs
index 4a8b110..fed0961 100644
--- a/core/network/src/service.rs
+++ b/core/network/src/service.rs
@@ -430,7 +430,7 @@ where
             .peer_mgr_handle
             .with_registry(|reg| reg.connection_status());
         let count = (self.config.max_connections - self.config.inbound_conn_limit)
-            .saturating_sub(status.inbound);
+            .saturating_sub(status.outbound);
         if count == 0 {
             self.try_identify_count = 0;
             return;
-- 
2.43.0


From 8cda4dc0a568469d67bb0d1653b69d42210f39c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:15 +0000
Subject: [PATCH 49/51] fix: an address taken over by another peer does not
 stop the node

---
 core/network/src/peer_manager/peer_store/addr_manager.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/network/src/peer_manager/peer_store/addr_manager.rs b/core/network/src/peer_manager/peer_store/addr_manager.rs
index e87e120..2c661fc 100644
--- a/core/network/src/peer_manager/peer_store/addr_manager.rs
+++ b/core/network/src/peer_manager/peer_store/addr_manager.rs
@@ -107,13 +107,16 @@ impl Manager {
                 self.swap_random_id(random_id_pos, self.random_ids.len() - 1);
                 self.random_ids.pop();
 
-                if let Some(peer_id) = extract_peer_id(multiaddr) {
+                let info = self.id_to_info.remove(&id)?;
+
+                // the stored address may belong to another peer than the given one
+                if let Some(peer_id) = extract_peer_id(&info.addr) {
                     self.peer_id_to_id
                         .get_mut(&peer_id)
                         .map(|set| set.remove(&id));
                 }
 
-                self.id_to_info.remove(&id)
+                Some(info)
             })
         })
     }
-- 
2.43.0


From 2b94fb4e5aa24b4a97c6ac20bdb65234519b2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 50/51] fix: a proof needs more than two thirds of the vote
 weight

---
 devtools/axon-tools/src/proof.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/devtools/axon-tools/src/proof.rs b/devtools/axon-tools/src/proof.rs
index 2c7d796..01370c6 100644
--- a/devtools/axon-tools/src/proof.rs
+++ b/devtools/axon-tools/src/proof.rs
@@ -83,7 +83,11 @@ fn extract_pks(
 
     let bit_map = BitVec::from_bytes(&proof.bitmap);
     let mut pks = Vec::with_capacity(validator_list.len());
-    let mut count = 0usize;
+    let mut weight = 0u64;
+    let total_weight: u64 = validator_list
+        .iter()
+        .map(|v| u64::from(v.vote_weight))
+        .sum();
 
     for (v, bit) in validator_list.iter().zip(bit_map.iter()) {
         if !bit {
@@ -91,10 +95,10 @@ fn extract_pks(
         }
 
         pks.push(PublicKey::from_bytes(&v.bls_pub_key.as_bytes())?);
-        count += 1;
+        weight += u64::from(v.vote_weight);
     }
 
-    if count * 3 <= validator_list.len() * 2 {
+    if weight * 3 <= total_weight * 2 {
         return Err(Error::NotEnoughSignatures);
     }
 
-- 
2.43.0


From dfe6016db25a97d5326105e6b2871e1e851f90c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 51/51] fix: a restarted node starts with the validators of its
 next block

---
 core/run/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/run/src/lib.rs b/core/run/src/lib.rs
index 0c5763e..88a2504 100644
--- a/core/run/src/lib.rs
+++ b/core/run/src/lib.rs
@@ -212,7 +212,7 @@ async fn start<K: KeyProvider>(
     let metadata_handle = MetadataHandle::new(metadata_root);
     metadata_handle.init_hardfork(current_block.header.number)?;
 
-    let metadata = metadata_handle.get_metadata_by_block_number(current_block.header.number)?;
+    let metadata = metadata_handle.get_metadata_by_block_number(current_block.header.number + 1)?;
     let validators: Vec<ConsensusValidator> =
         metadata.verifier_list.iter().map(Into::into).collect();
 
-- 
2.43.0

