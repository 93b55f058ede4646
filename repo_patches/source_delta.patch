From d40cb4c9f0258d1032010456031bddf751d87862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 1/4] fix: reject byte strings whose declared length overflows
 when padded

The length of a byte string inside an encoding is arbitrary. restore_bytes and
restore_raw_bytes add the padding to it without a check, so a length close to
usize::MAX panicked instead of returning an error.
---
 src/decode.rs                    | 36 ++++++++++++++++++++++++++++++++
 src/lib.rs                       |  3 +++
 src/receipt/receipt_std.rs       |  6 +++---
 src/transaction/types/input.rs   | 12 ++++++-----
 src/transaction/types/script.rs  |  4 ++--
 src/transaction/types/witness.rs |  2 +-
 6 files changed, 52 insertions(+), 11 deletions(-)
 create mode 100644 src/decode.rs

diff --git a/src/decode.rs b/src/decode.rs
new file mode 100644
index 0000000..ac188db
--- /dev/null
+++ b/src/decode.rs
@@ -0,0 +1,36 @@
+//! Length checks for encodings of unknown origin.
+
+use fuel_types::bytes::{self, WORD_SIZE};
+
+use std::io;
+
+#[cfg(feature = "alloc")]
+use alloc::vec::Vec;
+
+/// [`bytes::restore_raw_bytes`] for a length that was read from the encoding.
+///
+/// The length is arbitrary, and adding the padding to it could overflow.
+pub(crate) fn restore_raw_bytes(buf: &[u8], len: usize) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if buf.len() < len {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_raw_bytes(buf, len)
+}
+
+/// [`bytes::restore_bytes`] for an encoding of unknown origin.
+///
+/// The encoded length is arbitrary, and adding the padding to it could overflow.
+pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if buf.len() < WORD_SIZE {
+        return Err(bytes::eof());
+    }
+
+    // Safety: buf len is checked
+    let (len, data) = unsafe { bytes::restore_usize_unchecked(buf) };
+    if data.len() < len {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_bytes(buf)
+}
diff --git a/src/lib.rs b/src/lib.rs
index 5bd0355..0c4431e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,9 @@ extern crate alloc;
 pub mod consts;
 mod tx_pointer;
 
+#[cfg(feature = "std")]
+mod decode;
+
 pub use fuel_asm::{InstructionResult, PanicReason};
 pub use fuel_types::{
     Address, AssetId, Bytes32, Bytes4, Bytes64, Bytes8, ContractId, MessageId, Salt, Word,
diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index 2e09c74..8094b7f 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -269,7 +269,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = crate::decode::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -329,7 +329,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = crate::decode::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -392,7 +392,7 @@ impl io::Write for Receipt {
                 let (nonce, buf) = unsafe { bytes::restore_array_unchecked(buf) };
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
-                let (count, data, _) = bytes::restore_bytes(buf)?;
+                let (count, data, _) = crate::decode::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
diff --git a/src/transaction/types/input.rs b/src/transaction/types/input.rs
index 6c3562b..a38852c 100644
--- a/src/transaction/types/input.rs
+++ b/src/transaction/types/input.rs
@@ -733,10 +733,11 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = crate::decode::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) =
+                    crate::decode::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let owner = owner.into();
@@ -817,13 +818,14 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, data, buf) = bytes::restore_raw_bytes(buf, data_len)?;
+                let (size, data, buf) = crate::decode::restore_raw_bytes(buf, data_len)?;
                 n += size;
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = crate::decode::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) =
+                    crate::decode::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let message_id = message_id.into();
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 666796d..02b86f5 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -630,10 +630,10 @@ impl io::Write for Script {
 
         let receipts_root = receipts_root.into();
 
-        let (size, script, buf) = bytes::restore_raw_bytes(buf, script_len)?;
+        let (size, script, buf) = crate::decode::restore_raw_bytes(buf, script_len)?;
         n += size;
 
-        let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
+        let (size, script_data, mut buf) = crate::decode::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
         let mut inputs = vec![Input::default(); inputs_len];
diff --git a/src/transaction/types/witness.rs b/src/transaction/types/witness.rs
index e7b5211..a256e82 100644
--- a/src/transaction/types/witness.rs
+++ b/src/transaction/types/witness.rs
@@ -89,7 +89,7 @@ impl io::Read for Witness {
 #[cfg(feature = "std")]
 impl io::Write for Witness {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        bytes::restore_bytes(buf).map(|(n, data, _)| {
+        crate::decode::restore_bytes(buf).map(|(n, data, _)| {
             self.data = data;
             n
         })
-- 
2.43.0


From 898f1bdd6f2a3f9c2cbfeb04ff642d730b18130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 2/4] fix: bound the element counts of a decoded transaction by
 its encoding

The inputs, outputs and witnesses were allocated from counts read from the
encoding, so a few bytes could panic with a capacity overflow or exhaust the
memory.
---
 src/decode.rs                   | 11 +++++++++++
 src/transaction/types/create.rs |  3 +++
 src/transaction/types/mint.rs   |  1 +
 src/transaction/types/script.rs |  3 +++
 4 files changed, 18 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index ac188db..96c8a1f 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -34,3 +34,14 @@ pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
 
     bytes::restore_bytes(buf)
 }
+
+/// Check that the buffer may hold the encodings of `count` elements, before they are allocated.
+///
+/// The encoding of an element takes at least a word.
+pub(crate) fn check_elements(buf: &[u8], count: usize) -> io::Result<()> {
+    if buf.len() / WORD_SIZE < count {
+        return Err(bytes::eof());
+    }
+
+    Ok(())
+}
diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index c6a2001..925c076 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -652,6 +652,7 @@ impl io::Write for Create {
             buf = &buf[StorageSlot::SLOT_SIZE..];
         }
 
+        crate::decode::check_elements(buf, inputs_len)?;
         let mut inputs = vec![Input::default(); inputs_len];
         for input in inputs.iter_mut() {
             let input_len = input.write(buf)?;
@@ -659,6 +660,7 @@ impl io::Write for Create {
             n += input_len;
         }
 
+        crate::decode::check_elements(buf, outputs_len)?;
         let mut outputs = vec![Output::default(); outputs_len];
         for output in outputs.iter_mut() {
             let output_len = output.write(buf)?;
@@ -666,6 +668,7 @@ impl io::Write for Create {
             n += output_len;
         }
 
+        crate::decode::check_elements(buf, witnesses_len)?;
         let mut witnesses = vec![Witness::default(); witnesses_len];
         for witness in witnesses.iter_mut() {
             let witness_len = witness.write(buf)?;
diff --git a/src/transaction/types/mint.rs b/src/transaction/types/mint.rs
index f52861a..b8a3a9e 100644
--- a/src/transaction/types/mint.rs
+++ b/src/transaction/types/mint.rs
@@ -287,6 +287,7 @@ impl io::Write for Mint {
         let buf = &buf[tx_pointer.serialized_size()..];
         let (outputs_len, mut buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
+        crate::decode::check_elements(buf, outputs_len)?;
         let mut outputs = vec![Output::default(); outputs_len];
         for output in outputs.iter_mut() {
             let output_len = output.write(buf)?;
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 02b86f5..051bf75 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -636,6 +636,7 @@ impl io::Write for Script {
         let (size, script_data, mut buf) = crate::decode::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
+        crate::decode::check_elements(buf, inputs_len)?;
         let mut inputs = vec![Input::default(); inputs_len];
         for input in inputs.iter_mut() {
             let input_len = input.write(buf)?;
@@ -643,6 +644,7 @@ impl io::Write for Script {
             n += input_len;
         }
 
+        crate::decode::check_elements(buf, outputs_len)?;
         let mut outputs = vec![Output::default(); outputs_len];
         for output in outputs.iter_mut() {
             let output_len = output.write(buf)?;
@@ -650,6 +652,7 @@ impl io::Write for Script {
             n += output_len;
         }
 
+        crate::decode::check_elements(buf, witnesses_len)?;
         let mut witnesses = vec![Witness::default(); witnesses_len];
         for witness in witnesses.iter_mut() {
             let witness_len = witness.write(buf)?;
-- 
2.43.0


From 2eab5b4b42ce373055a4b79e078326bdfaa0e9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 3/4] fix: report an overflow of the input amounts of an asset
 as an error

Inputs whose amounts of one asset exceed the maximum word panicked in debug
builds and wrapped in release builds.
---
 src/checked_transaction.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/checked_transaction.rs b/src/checked_transaction.rs
index 3a8ef7d..e86fda9 100644
--- a/src/checked_transaction.rs
+++ b/src/checked_transaction.rs
@@ -312,7 +312,11 @@ where
         }
         _ => None,
     }) {
-        *balances.entry(asset_id).or_default() += amount;
+        let balance = balances.entry(asset_id).or_default();
+
+        *balance = balance
+            .checked_add(*amount)
+            .ok_or(CheckError::ArithmeticOverflow)?;
     }
 
     // Deduct fee from base asset
-- 
2.43.0


From 548c95263310b4967af0aeba6b3792ea8ceed341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 4/4] fix: return an error for identifier texts split inside a
 character

Parsing a UTXO identifier or a transaction pointer sliced the text at byte
offsets, which panicked on text with multi-byte characters.
---
 src/transaction/types/utxo_id.rs | 4 ++--
 src/tx_pointer.rs                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transaction/types/utxo_id.rs b/src/transaction/types/utxo_id.rs
index c4c89b3..d2e06d8 100644
--- a/src/transaction/types/utxo_id.rs
+++ b/src/transaction/types/utxo_id.rs
@@ -89,8 +89,8 @@ impl str::FromStr for UtxoId {
             UtxoId::new(Bytes32::default(), 0)
         } else if s.len() > 2 {
             UtxoId::new(
-                Bytes32::from_str(&s[..s.len() - 2])?,
-                u8::from_str_radix(&s[s.len() - 2..], 16).map_err(|_| ERR)?,
+                Bytes32::from_str(s.get(..s.len() - 2).ok_or(ERR)?)?,
+                u8::from_str_radix(s.get(s.len() - 2..).ok_or(ERR)?, 16).map_err(|_| ERR)?,
             )
         } else {
             UtxoId::new(TxId::default(), u8::from_str_radix(s, 16).map_err(|_| ERR)?)
diff --git a/src/tx_pointer.rs b/src/tx_pointer.rs
index b0d66bf..5a7af18 100644
--- a/src/tx_pointer.rs
+++ b/src/tx_pointer.rs
@@ -72,8 +72,8 @@ impl str::FromStr for TxPointer {
             return Err(ERR);
         }
 
-        let block_height = u32::from_str_radix(&s[..8], 16).map_err(|_| ERR)?;
-        let tx_index = u16::from_str_radix(&s[8..12], 16).map_err(|_| ERR)?;
+        let block_height = u32::from_str_radix(s.get(..8).ok_or(ERR)?, 16).map_err(|_| ERR)?;
+        let tx_index = u16::from_str_radix(s.get(8..12).ok_or(ERR)?, 16).map_err(|_| ERR)?;
 
         Ok(Self::new(block_height, tx_index))
     }
-- 
2.43.0

