From 6cf97d342dca1fedf74da6fcc37312eff992f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 01/38] fix: refuse decimal amounts with more than 255
 fractional digits instead of panicking

---
 common/src/primitives/amount/decimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index b8ba9fd..f6deb22 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -153,7 +153,7 @@ impl std::str::FromStr for DecimalAmount {
         let int: UnsignedIntType = empty_to_zero(int_str).parse()?;
         let frac: UnsignedIntType = empty_to_zero(frac_str).parse()?;
 
-        let decimals: u8 = frac_str.len().try_into().expect("Checked string length above");
+        let decimals: u8 = frac_str.len().try_into().map_err(|_| ParseError::StringTooLong)?;
 
         let mantissa = if int == 0 {
             Some(0)
-- 
2.43.0


From 73f569e46bd927f8da60f17013b7db312839dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 02/38] fix: allow a zero decimal amount to be converted to any
 number of decimals

---
 common/src/primitives/amount/decimal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index f6deb22..038d038 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -73,7 +73,11 @@ impl DecimalAmount {
     /// Change the number of decimals. Can only increase decimals, otherwise we risk losing digits.
     pub fn with_decimals(self, decimals: u8) -> Option<Self> {
         let extra_decimals = decimals.checked_sub(self.decimals)?;
-        let mantissa = self.mantissa.checked_mul(TEN.checked_pow(extra_decimals as u32)?)?;
+        let mantissa = match self.mantissa {
+            // The multiplier below may overflow, but zero is zero with any number of decimals.
+            0 => 0,
+            mantissa => mantissa.checked_mul(TEN.checked_pow(extra_decimals as u32)?)?,
+        };
         Some(Self::from_uint_decimal(mantissa, decimals))
     }
 
-- 
2.43.0


From 58384f39a0663070faaeb890c2697718c3a28c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 03/38] fix: compare zero fractions with different denominators
 as equal

---
 common/src/primitives/rational.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/common/src/primitives/rational.rs b/common/src/primitives/rational.rs
index 0bc8b9e..3945817 100644
--- a/common/src/primitives/rational.rs
+++ b/common/src/primitives/rational.rs
@@ -54,10 +54,6 @@ impl<T: Into<Uint512> + ComparableType + Ord + Copy> Ord for Rational<T> {
             return self.numer.cmp(&other.numer);
         }
 
-        if self.numer == other.numer {
-            return other.denom.cmp(&self.denom);
-        }
-
         let self_numer_big: Uint512 = self.numer.into();
         let self_denom_big: Uint512 = self.denom.into();
 
-- 
2.43.0


From 4fa7b438b6ce1108520a97c1d227683010eaa6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 04/38] fix: accept amounts given as JSON integers

---
 common/src/primitives/amount/serde_support.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/common/src/primitives/amount/serde_support.rs b/common/src/primitives/amount/serde_support.rs
index 641c037..dcd1e19 100644
--- a/common/src/primitives/amount/serde_support.rs
+++ b/common/src/primitives/amount/serde_support.rs
@@ -17,13 +17,14 @@ use serde::de::Error;
 
 use rpc_description::{HasValueHint, ValueHint as VH};
 
-use super::{Amount, DecimalAmount, UnsignedIntType as UInt};
+use super::{Amount, DecimalAmount};
 
 #[derive(serde::Serialize, serde::Deserialize)]
 #[serde(untagged)]
 enum StringOrUInt {
     String(String),
-    UInt(UInt),
+    // Note: serde doesn't support 128-bit integers in untagged enums.
+    UInt(u64),
 }
 
 /// Atom-based string or int
@@ -39,7 +40,7 @@ impl<'de> serde::Deserialize<'de> for AtomsInner {
     fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
         let atoms = match StringOrUInt::deserialize(deserializer)? {
             StringOrUInt::String(s) => s.parse().map_err(D::Error::custom)?,
-            StringOrUInt::UInt(u) => u,
+            StringOrUInt::UInt(u) => u.into(),
         };
         Ok(Self(Amount::from_atoms(atoms)))
     }
@@ -70,7 +71,7 @@ impl<'de> serde::Deserialize<'de> for DecimalInner {
     fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
         let decimal = match StringOrUInt::deserialize(deserializer)? {
             StringOrUInt::String(s) => s.parse().map_err(D::Error::custom)?,
-            StringOrUInt::UInt(u) => DecimalAmount::from_uint_integral(u),
+            StringOrUInt::UInt(u) => DecimalAmount::from_uint_integral(u.into()),
         };
         Ok(Self(decimal))
     }
-- 
2.43.0


From b8209fdcb37413fdfabbec68a80c4a2a9f6e7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 05/38] fix: refuse bech32m text with invalid padding

---
 common/src/primitives/bech32_encoding/error.rs | 13 ++++++++++++-
 common/src/primitives/bech32_encoding/mod.rs   |  5 ++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/common/src/primitives/bech32_encoding/error.rs b/common/src/primitives/bech32_encoding/error.rs
index e8ada14..9fa1fd2 100644
--- a/common/src/primitives/bech32_encoding/error.rs
+++ b/common/src/primitives/bech32_encoding/error.rs
@@ -15,7 +15,10 @@
 
 use bech32::{
     self, DecodeError, EncodeError,
-    primitives::{decode::CheckedHrpstringError, hrp},
+    primitives::{
+        decode::{CheckedHrpstringError, PaddingError},
+        hrp,
+    },
 };
 
 #[derive(thiserror::Error, PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
@@ -51,6 +54,8 @@ pub enum Bech32Error {
     VariantCheckChecksumError(String),
     #[error("Unknown variant check error: `{0}`")]
     UnknownVariantCheckError(String),
+    #[error("Invalid padding: `{0}`")]
+    InvalidPadding(String),
 }
 
 impl From<DecodeError> for Bech32Error {
@@ -97,3 +102,9 @@ impl From<CheckedHrpstringError> for Bech32Error {
         }
     }
 }
+
+impl From<PaddingError> for Bech32Error {
+    fn from(e: PaddingError) -> Self {
+        Bech32Error::InvalidPadding(e.to_string())
+    }
+}
diff --git a/common/src/primitives/bech32_encoding/mod.rs b/common/src/primitives/bech32_encoding/mod.rs
index 6947562..d19edec 100644
--- a/common/src/primitives/bech32_encoding/mod.rs
+++ b/common/src/primitives/bech32_encoding/mod.rs
@@ -21,7 +21,10 @@ pub fn bech32m_decode(s: impl AsRef<str>) -> Result<DecodedBech32, Bech32Error>
     let (hrp, data) = bech32::decode(s.as_ref())?;
 
     // To ensure that the encoding is bech32m, this should be done separately, as bech32::decode() works for both bech32 and bech32m
-    let _checked_type = CheckedHrpstring::new::<Bech32m>(s.as_ref())?;
+    let checked = CheckedHrpstring::new::<Bech32m>(s.as_ref())?;
+
+    // bech32::decode() ignores the padding, so without this check different strings could decode to the same data
+    checked.validate_segwit_padding()?;
 
     let result = DecodedBech32::new(hrp.as_str().to_string(), data);
 
-- 
2.43.0


From 3268bb29c5dde707f48d88d12f3e1af91e90a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 06/38] fix: keep the existing delta when combining it with an
 inconsistent one fails

---
 accounting/src/delta/delta_data_collection/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/accounting/src/delta/delta_data_collection/mod.rs b/accounting/src/delta/delta_data_collection/mod.rs
index f8b2d4f..f5f43bf 100644
--- a/accounting/src/delta/delta_data_collection/mod.rs
+++ b/accounting/src/delta/delta_data_collection/mod.rs
@@ -16,7 +16,7 @@
 pub mod undo;
 use self::undo::*;
 
-use std::collections::{BTreeMap, btree_map::Entry};
+use std::collections::BTreeMap;
 
 use serialization::{Decode, Encode};
 
@@ -121,9 +121,10 @@ impl<K: Ord + Copy, T: Clone + Eq> DeltaDataCollection<K, T> {
     ) -> Result<DataDeltaUndo<T>, Error> {
         let undo = other.clone().invert();
 
-        let el = match self.data.entry(key) {
-            Entry::Occupied(e) => combine_delta_data(e.remove(), other)?,
-            Entry::Vacant(_) => other,
+        // Note: if the deltas can't be combined, the existing one must stay in place.
+        let el = match self.data.get(&key) {
+            Some(existing) => combine_delta_data(existing.clone(), other)?,
+            None => other,
         };
 
         self.data.insert(key, el);
-- 
2.43.0


From 7e602d3734aa60d1f4348d10ad4319844ee1034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 07/38] fix: print scripts in upper-case hexadecimal with {:X}

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index c8ffd0e..96057e8 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -89,7 +89,7 @@ impl fmt::LowerHex for Script {
 impl fmt::UpperHex for Script {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         for &ch in self.0.iter() {
-            write!(f, "{ch:02x}")?;
+            write!(f, "{ch:02X}")?;
         }
         Ok(())
     }
-- 
2.43.0


From dcc9c262bc9b746e69e1c682707f4342186af2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 08/38] fix: encode the smallest 64-bit integer as a script
 number without overflow

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index 96057e8..daab086 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -107,7 +107,7 @@ pub fn build_scriptint(n: i64) -> Vec<u8> {
 
     let neg = n < 0;
 
-    let mut abs = if neg { -n } else { n } as usize;
+    let mut abs = n.unsigned_abs();
     let mut v = vec![];
     while abs > 0xFF {
         v.push((abs & 0xFF) as u8);
-- 
2.43.0


From 9e03a48bc96dc8feeeada8c207737e5785f1005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 09/38] fix: show scripts with two- and four-byte push lengths
 correctly as assembly

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index daab086..ed8560f 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -370,7 +370,7 @@ impl Script {
                             f.write_str("<unexpected end>")?;
                             break;
                         }
-                        match read_uint(&script[index..], 1) {
+                        match read_uint(&script[index..], push_opc.data_size_bytes()) {
                             Ok(n) => {
                                 index += push_opc.data_size_bytes();
                                 n
-- 
2.43.0


From 10f7f5052330f9439d7be511b1db9be4a9e39a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 10/38] fix: post-order traversal from several roots emits a
 root reachable from an earlier root after its dependants, and repeats a
 repeated root

The roots were marked as visited before the traversal started, so a root that
is a descendant of another root was emitted after it rather than before.
---
 utils/src/graph_traversals.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/utils/src/graph_traversals.rs b/utils/src/graph_traversals.rs
index 2418201..5d120ad 100644
--- a/utils/src/graph_traversals.rs
+++ b/utils/src/graph_traversals.rs
@@ -29,20 +29,26 @@ pub fn dag_depth_postorder_multiroot<'a, T, RI, I, F>(
 ) -> impl Iterator<Item = T> + 'a
 where
     T: Clone + Ord + 'a,
-    RI::IntoIter: DoubleEndedIterator,
     RI: IntoIterator<Item = T> + 'a,
     I: IntoIterator<Item = T> + 'a,
     F: Fn(&T) -> I + 'a,
 {
+    let mut roots = roots.into_iter();
+
     // Stack of items paired with iterator over the item's children that have to be visited before
     // the item itself is emitted.
-    let mut stack: Vec<_> =
-        roots.into_iter().rev().map(|x| (children(&x).into_iter(), x)).collect();
+    let mut stack = Vec::new();
 
     // Keep track of already visited items
-    let mut visited: BTreeSet<T> = stack.iter().map(|x| x.1.clone()).collect();
+    let mut visited = BTreeSet::<T>::new();
 
     let iter_fn = move || {
+        if stack.is_empty() {
+            // Start from the next root, unless it has already been reached from the previous ones.
+            let root = roots.by_ref().find(|root| visited.insert(root.clone()))?;
+            stack.push((children(&root).into_iter(), root));
+        }
+
         stack.pop().map(|(mut top_children, mut top_item)| {
             // Keep pushing items onto the stack until we find one with no further children.
             while let Some(next_top_item) = top_children.next() {
-- 
2.43.0


From eae91d8e4419ce58dfb9d13c8fb71b82c61eed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 11/38] fix: subsystem: don't leave calls unanswered that race
 with the end of a subsystem

Dropping the receiver of a tokio channel can leave a message in it that is being sent at that
very moment. The message is then only dropped with the last sender, and the caller, which
normally holds one, waits for the response forever. Close the channel and drain it properly.
---
 subsystem/src/task.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/subsystem/src/task.rs b/subsystem/src/task.rs
index 2c87523..0da71db 100644
--- a/subsystem/src/task.rs
+++ b/subsystem/src/task.rs
@@ -40,6 +40,15 @@ pub fn handle_result(full_name: &str, task_type: &str, res: Result<(), tokio::ta
 }
 
 /// The subsystem worker task implementation
+/// Refuse any further calls and drop the ones that have not been served, so that their callers get an error.
+///
+/// Dropping the receiver alone is not enough: a call that is being submitted at that very moment could be left in
+/// the channel, where its caller (whose handle keeps the channel alive) would wait for the response forever.
+async fn refuse_calls<T: ?Sized>(mut action_rx: mpsc::UnboundedReceiver<Action<T>>) {
+    action_rx.close();
+    while action_rx.recv().await.is_some() {}
+}
+
 pub async fn subsystem<S, SF, E>(
     full_name: String,
     subsys_fut: SF,
@@ -68,12 +77,16 @@ pub async fn subsystem<S, SF, E>(
 
     // Initialize the subsystem.
     let subsys = match subsys_fut.await {
-        Ok(subsys) => Arc::new(RwLock::new(subsys)),
+        Ok(subsys) => Some(Arc::new(RwLock::new(subsys))),
         Err(err) => {
             log::error!("Subsystem {full_name} failed to initialize: {err}");
-            return;
+            None
         }
     };
+    let Some(subsys) = subsys else {
+        refuse_calls(action_rx).await;
+        return;
+    };
 
     // Set up a closure to check whether a subsystem has some background work to do.
     let background_work_signal = || async {
@@ -138,4 +151,5 @@ pub async fn subsystem<S, SF, E>(
         .map_err(|_| ())
         .expect("Something else still holds the subsystem reference");
     RwLock::into_inner(subsys).shutdown().await;
+    refuse_calls(action_rx).await;
 }
-- 
2.43.0


From 6451306b45d6716d1adc854ca2bcafd2cd5a311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 12/38] fix: truncate the temporary cookie file before writing
 it

A temporary file left behind by an interrupted run that was longer than the cookie left its tail in the
cookie file, so that clients loaded a wrong password.
---
 rpc/src/rpc_creds.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpc/src/rpc_creds.rs b/rpc/src/rpc_creds.rs
index 45a95aa..daf47b1 100644
--- a/rpc/src/rpc_creds.rs
+++ b/rpc/src/rpc_creds.rs
@@ -48,7 +48,12 @@ fn write_file_atomically(path: &Path, data: &str) -> Result<(), std::io::Error>
         options.mode(0o600);
     }
 
-    options.create(true).write(true).open(&path_tmp)?.write_all(data.as_bytes())?;
+    options
+        .create(true)
+        .write(true)
+        .truncate(true)
+        .open(&path_tmp)?
+        .write_all(data.as_bytes())?;
 
     std::fs::rename(path_tmp, path)
 }
-- 
2.43.0


From ee4f7e06af3889177318784ec5dcd6abf9e70503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 13/38] fix: keep the peeked byte when nothing is read from
 Peekable

---
 serialization/tagged/src/derive_support.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/serialization/tagged/src/derive_support.rs b/serialization/tagged/src/derive_support.rs
index d8961a0..5468edc 100644
--- a/serialization/tagged/src/derive_support.rs
+++ b/serialization/tagged/src/derive_support.rs
@@ -59,13 +59,17 @@ impl<I: Input> Input for Peekable<'_, I> {
     fn read(&mut self, into: &mut [u8]) -> Result<(), crate::Error> {
         match self.init.take() {
             None => self.inner.read(into),
-            Some(b) => {
-                if let Some((first, rest)) = into.split_first_mut() {
+            Some(b) => match into.split_first_mut() {
+                Some((first, rest)) => {
                     *first = b;
-                    self.inner.read(rest)?;
+                    self.inner.read(rest)
                 }
-                Ok(())
-            }
+                None => {
+                    // Nothing was read, so the peeked byte is still pending.
+                    self.init = Some(b);
+                    Ok(())
+                }
+            },
         }
     }
 
-- 
2.43.0


From bc49881fda9d324c26863fbf8eb2328c88810739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 14/38] fix: do not panic on a relative block lock near the
 signed limit

---
 mintscript/src/checker/timelock.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mintscript/src/checker/timelock.rs b/mintscript/src/checker/timelock.rs
index 0e6978b..cf7bc04 100644
--- a/mintscript/src/checker/timelock.rs
+++ b/mintscript/src/checker/timelock.rs
@@ -15,7 +15,7 @@
 
 use common::{
     chain::{block::timestamp::BlockTimestamp, timelock::OutputTimeLock},
-    primitives::{BlockDistance, BlockHeight},
+    primitives::BlockHeight,
 };
 
 pub trait TimelockChecker<C> {
@@ -80,8 +80,9 @@ impl<C: TimelockContext> TimelockChecker<C> for StandardTimelockChecker {
                 check_at_least(ctx.spending_time(), *required, E::TimestampLocked)
             }
             OutputTimeLock::ForBlockCount(d) => {
-                let distance = BlockDistance::new((*d).try_into().map_err(|_| E::HeightArith)?);
-                let required = (ctx.source_height()? + distance).ok_or(E::HeightArith)?;
+                // Block distances are signed, so a lock beyond the signed range is not a valid one.
+                let _: i64 = (*d).try_into().map_err(|_| E::HeightArith)?;
+                let required = ctx.source_height()?.checked_add(*d).ok_or(E::HeightArith)?;
                 check_at_least(ctx.spending_height(), required, E::HeightLocked)
             }
             OutputTimeLock::ForSeconds(dt) => {
-- 
2.43.0


From f963f52d175b8becd5ab87eccac4a2469e79dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 15/38] fix: do not blame a block for a failing read of outputs

---
 chainstate/src/detail/error_classification.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/chainstate/src/detail/error_classification.rs b/chainstate/src/detail/error_classification.rs
index bfe3245..eed44b3 100644
--- a/chainstate/src/detail/error_classification.rs
+++ b/chainstate/src/detail/error_classification.rs
@@ -477,9 +477,19 @@ impl BlockProcessingErrorClassification for DestinationSigError {
 
 impl BlockProcessingErrorClassification for utxo::Error {
     fn classify(&self) -> BlockProcessingErrorClass {
-        // Nothing other than BadBlock here.
-        // TODO: should we descend into inner errors just in case?
-        BlockProcessingErrorClass::BadBlock
+        match self {
+            // These two stand for a storage failure, which says nothing about the block.
+            utxo::Error::ViewRead | utxo::Error::StorageWrite => BlockProcessingErrorClass::General,
+
+            utxo::Error::OverwritingUtxo
+            | utxo::Error::FreshUtxoAlreadyExists
+            | utxo::Error::UtxoAlreadySpent(_)
+            | utxo::Error::NoUtxoFound
+            | utxo::Error::NoBlockchainHeightFound
+            | utxo::Error::MissingBlockRewardUndo(_)
+            | utxo::Error::InvalidBlockRewardOutputType(_)
+            | utxo::Error::TxInputAndUndoMismatch(_) => BlockProcessingErrorClass::BadBlock,
+        }
     }
 }
 
-- 
2.43.0


From d9c0bb6064ced0577ec5fea1a32057557f5cc6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 16/38] fix: never store an ok status for a block that was not
 persisted

---
 chainstate/src/detail/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/chainstate/src/detail/mod.rs b/chainstate/src/detail/mod.rs
index 7ee1be6..83a2ec1 100644
--- a/chainstate/src/detail/mod.rs
+++ b/chainstate/src/detail/mod.rs
@@ -490,6 +490,15 @@ impl<S: BlockchainStorage, V: TransactionVerificationStrategy> Chainstate<S, V>
                     // (Also, invalidate_block needs the block index to exist in order to be able to
                     // set the corresponding failure bit.)
                     debug_assert!(status.is_ok());
+                    // The index is saved with the failure bit already set, so that an "ok" status
+                    // of a block that hasn't been persisted is never stored, even if the
+                    // invalidation below doesn't happen.
+                    let mut status = status;
+                    if first_invalid_parent_id == block_id {
+                        status.set_validation_failed();
+                    } else {
+                        status.set_has_invalid_parent();
+                    }
                     // Ignore the result, because we already have an error to return.
                     let _result = self.set_new_block_index(&block_index.with_status(status));
 
-- 
2.43.0


From 37cc03f26805fa02aa5b5ce15843cdeaf3015853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 17/38] fix: leave bad blocks out of an exported bootstrap file

---
 chainstate/src/detail/bootstrap.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/chainstate/src/detail/bootstrap.rs b/chainstate/src/detail/bootstrap.rs
index 2753aa9..99a65a2 100644
--- a/chainstate/src/detail/bootstrap.rs
+++ b/chainstate/src/detail/bootstrap.rs
@@ -233,7 +233,18 @@ pub fn export_bootstrap_stream<'a, S: BlockchainStorageRead, V: TransactionVerif
 where
 {
     let blocks_list = if include_stale_blocks {
-        query_interface.get_block_id_tree_as_list()?
+        // Blocks that are known to be bad can't be imported back (and may not even be stored).
+        let block_ids = query_interface.get_block_id_tree_as_list()?;
+        let mut good_block_ids = Vec::with_capacity(block_ids.len());
+        for block_id in block_ids {
+            if query_interface
+                .get_block_index_for_persisted_block(&block_id)?
+                .is_some_and(|block_index| block_index.status().is_ok())
+            {
+                good_block_ids.push(block_id);
+            }
+        }
+        good_block_ids
     } else {
         query_interface.get_mainchain_blocks_list()?
     };
-- 
2.43.0


From aaff6a8e6d8819779c7b11c1423f544b62fa56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 18/38] fix: do not blame a block id for a body or signature it
 does not cover

---
 chainstate/src/detail/chainstateref/mod.rs    | 10 +++---
 chainstate/src/detail/error_classification.rs | 36 ++++++++++---------
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/chainstate/src/detail/chainstateref/mod.rs b/chainstate/src/detail/chainstateref/mod.rs
index 2efd036..9b050ee 100644
--- a/chainstate/src/detail/chainstateref/mod.rs
+++ b/chainstate/src/detail/chainstateref/mod.rs
@@ -907,10 +907,8 @@ impl<'a, S: BlockchainStorageRead, V: TransactionVerificationStrategy> Chainstat
 
         self.check_block_header_impl(&header_with_id)?;
 
-        self.check_block_size(block).map_err(CheckBlockError::BlockSizeError)?;
-
-        self.check_block_reward_maturity_settings(block)?;
-
+        // Note: the block id doesn't cover the body, so it must be verified that the body is the one
+        // that the header commits to before any other check may declare this block as bad.
         let merkle_proxy = block
             .body()
             .merkle_tree_proxy()
@@ -934,6 +932,10 @@ impl<'a, S: BlockchainStorageRead, V: TransactionVerificationStrategy> Chainstat
             );
         }
 
+        self.check_block_size(block).map_err(CheckBlockError::BlockSizeError)?;
+
+        self.check_block_reward_maturity_settings(block)?;
+
         let prev_block_height = self
             .get_gen_block_index(&block.prev_block_id())?
             .ok_or_else(|| PropertyQueryError::PrevBlockIndexNotFound {
diff --git a/chainstate/src/detail/error_classification.rs b/chainstate/src/detail/error_classification.rs
index eed44b3..49635d5 100644
--- a/chainstate/src/detail/error_classification.rs
+++ b/chainstate/src/detail/error_classification.rs
@@ -18,9 +18,7 @@ use chainstate_types::{
 };
 use common::{
     UintConversionError,
-    chain::{
-        IdCreationError, block::block_body::BlockMerkleTreeError, signature::DestinationSigError,
-    },
+    chain::{IdCreationError, signature::DestinationSigError},
 };
 use consensus::{
     BlockSignatureError, ConsensusPoSError, ConsensusPoWError, ConsensusVerificationError,
@@ -165,8 +163,7 @@ impl BlockProcessingErrorClassification for OrphanCheckError {
 impl BlockProcessingErrorClassification for CheckBlockError {
     fn classify(&self) -> BlockProcessingErrorClass {
         match self {
-            CheckBlockError::MerkleRootMismatch
-            | CheckBlockError::ParentBlockMissing { .. }
+            CheckBlockError::ParentBlockMissing { .. }
             | CheckBlockError::BlockTimeOrderInvalid(_, _)
             | CheckBlockError::InvalidBlockRewardOutputType(_)
             | CheckBlockError::CheckpointMismatch { .. }
@@ -180,9 +177,15 @@ impl BlockProcessingErrorClassification for CheckBlockError {
                 BlockProcessingErrorClass::TemporarilyBadBlock
             }
 
+            // The block id doesn't cover the body, so a body that the header doesn't commit to says
+            // nothing about the block with this id, which may still be received with its real body.
+            CheckBlockError::MerkleRootMismatch
+            | CheckBlockError::MerkleRootCalculationFailed(_, _) => {
+                BlockProcessingErrorClass::TemporarilyBadBlock
+            }
+
             CheckBlockError::StorageError(err) => err.classify(),
             CheckBlockError::PropertyQueryError(err) => err.classify(),
-            CheckBlockError::MerkleRootCalculationFailed(_, err) => err.classify(),
             CheckBlockError::BlockSizeError(err) => err.classify(),
             CheckBlockError::BlockRewardMaturityError(err) => err.classify(),
             CheckBlockError::TransactionVerifierError(err) => err.classify(),
@@ -216,14 +219,6 @@ impl BlockProcessingErrorClassification for InMemoryReorgError {
     }
 }
 
-impl BlockProcessingErrorClassification for BlockMerkleTreeError {
-    fn classify(&self) -> BlockProcessingErrorClass {
-        // Nothing other than BadBlock here.
-        // TODO: should we descend into inner errors just in case?
-        BlockProcessingErrorClass::BadBlock
-    }
-}
-
 impl BlockProcessingErrorClassification for BlockSizeError {
     fn classify(&self) -> BlockProcessingErrorClass {
         // Nothing other than BadBlock here.
@@ -725,9 +720,16 @@ impl BlockProcessingErrorClassification for PoSRandomnessError {
 
 impl BlockProcessingErrorClassification for BlockSignatureError {
     fn classify(&self) -> BlockProcessingErrorClass {
-        // Nothing other than BadBlock here.
-        // TODO: should we descend into inner errors just in case?
-        BlockProcessingErrorClass::BadBlock
+        match self {
+            // The block id doesn't cover the signature, so a missing or bad one says nothing about
+            // the block with this id, which may still be received with the real signature.
+            BlockSignatureError::BlockSignatureNotFound(_)
+            | BlockSignatureError::BadSignature(_) => {
+                BlockProcessingErrorClass::TemporarilyBadBlock
+            }
+
+            BlockSignatureError::WrongDestination(_) => BlockProcessingErrorClass::BadBlock,
+        }
     }
 }
 
-- 
2.43.0


From 9e0a8a55fa7d6a598ef1736bc99949f920782770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 19/38] fix: blocks on a bad block stay bad when their failure
 flags are reset

---
 .../src/detail/block_invalidation/mod.rs      | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/chainstate/src/detail/block_invalidation/mod.rs b/chainstate/src/detail/block_invalidation/mod.rs
index 084e16c..05edab3 100644
--- a/chainstate/src/detail/block_invalidation/mod.rs
+++ b/chainstate/src/detail/block_invalidation/mod.rs
@@ -269,18 +269,35 @@ impl<'a, S: BlockchainStorage, V: TransactionVerificationStrategy> BlockInvalida
 
     /// Reset fail flags in block indices for all blocks in the subtree that starts at the specified block.
     /// Block indices for which no block data exists in the db will be deleted.
+    /// If the parent of the specified block is bad, the blocks will still be marked as having
+    /// an invalid parent.
     #[log_error]
     pub fn reset_block_failure_flags(
         &mut self,
         block_id: &Id<Block>,
     ) -> Result<(), BlockInvalidatorError> {
-        let block_indices_to_clear = {
+        let (block_indices_to_clear, has_invalid_parent) = {
             let chainstate_ref =
                 self.chainstate.make_db_tx_ro().map_err(BlockInvalidatorError::from)?;
 
-            chainstate_ref
+            let block_indices = chainstate_ref
                 .collect_block_indices_in_branch(block_id)
-                .map_err(BlockInvalidatorError::BlockIndicesForBranchQueryError)?
+                .map_err(BlockInvalidatorError::BlockIndicesForBranchQueryError)?;
+
+            let parent_id = block_indices.first().and_then(|block_index| {
+                block_index
+                    .prev_block_id()
+                    .classify(&self.chainstate.chain_config)
+                    .chain_block_id()
+            });
+            let has_invalid_parent = match parent_id {
+                Some(parent_id) => {
+                    !get_existing_block_index(&chainstate_ref, &parent_id)?.status().is_ok()
+                }
+                None => false,
+            };
+
+            (block_indices, has_invalid_parent)
         };
 
         self.chainstate.with_rw_tx(
@@ -296,11 +313,13 @@ impl<'a, S: BlockchainStorage, V: TransactionVerificationStrategy> BlockInvalida
                                 )
                             })?;
                     } else {
-                        update_block_status(
-                            chainstate_ref,
-                            cur_index.clone(),
-                            cur_index.status().with_cleared_fail_bits(),
-                        )?;
+                        let mut status = cur_index.status().with_cleared_fail_bits();
+                        // The blocks can't become ok while they are built on top of a bad one.
+                        if has_invalid_parent {
+                            status.set_has_invalid_parent();
+                        }
+
+                        update_block_status(chainstate_ref, cur_index.clone(), status)?;
                     }
                 }
 
-- 
2.43.0


From 3b3ad507a49c06d9c60929529fce7999025c3463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 20/38] fix: do not fail when the last block before a PoW
 retarget is older than the first

---
 consensus/src/pow/work.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/consensus/src/pow/work.rs b/consensus/src/pow/work.rs
index c517bb9..3e81f3b 100644
--- a/consensus/src/pow/work.rs
+++ b/consensus/src/pow/work.rs
@@ -135,8 +135,8 @@ where
 impl PoW {
     /// The difference (in block time) between the current block and 2016th block before the current one.
     fn actual_timespan(&self, prev_block_blocktime: u64, retarget_blocktime: u64) -> u64 {
-        // TODO: this needs to be fixed because it could suffer from an underflow
-        let actual_timespan = prev_block_blocktime - retarget_blocktime;
+        // Block times need not increase, so the last block may be older than the first one.
+        let actual_timespan = prev_block_blocktime.saturating_sub(retarget_blocktime);
 
         num::clamp(
             actual_timespan,
-- 
2.43.0


From b69783775b3c51b2bc2315964f22c7edc4025df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 21/38] fix: refuse a block whose claimed proof overflows the
 chain trust instead of panicking

---
 chainstate/src/detail/chainstateref/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainstate/src/detail/chainstateref/mod.rs b/chainstate/src/detail/chainstateref/mod.rs
index 9b050ee..2921c7d 100644
--- a/chainstate/src/detail/chainstateref/mod.rs
+++ b/chainstate/src/detail/chainstateref/mod.rs
@@ -1077,8 +1077,10 @@ impl<'a, S: BlockchainStorageRead, V: TransactionVerificationStrategy> Chainstat
 
         // Set Chain Trust
         let prev_block_chaintrust: Uint256 = prev_block_index.chain_trust();
+        // Note: the proof is derived from the target that the block claims, which hasn't been
+        // checked yet, so the sum may overflow.
         let chain_trust = (prev_block_chaintrust + current_block_proof)
-            .expect("Chain trust growth is locally controlled. This can't happen.");
+            .ok_or_else(|| BlockError::BlockProofCalculationError(block.get_id()))?;
         let block_index = BlockIndex::new(
             block,
             chain_trust,
-- 
2.43.0


From 19c520cf9f419a3ce4fea486dec5573423c27274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 22/38] fix: do not drop one more input than needed when a
 random draw of coins is too heavy

---
 wallet/src/account/utxo_selector/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wallet/src/account/utxo_selector/mod.rs b/wallet/src/account/utxo_selector/mod.rs
index dc03b8b..afb155a 100644
--- a/wallet/src/account/utxo_selector/mod.rs
+++ b/wallet/src/account/utxo_selector/mod.rs
@@ -241,10 +241,10 @@ fn select_coins_srd(
         // are below max weight.
         if weight > max_weight {
             max_tx_weight_exceeded = true; // mark it in case we don't find any useful result.
-            while let Some(group) = heap.pop() {
-                if weight <= max_weight {
+            while weight > max_weight {
+                let Some(group) = heap.pop() else {
                     break;
-                }
+                };
                 selected_eff_value = (selected_eff_value - group.0.get_effective_value(pay_fees))
                     .ok_or(UtxoSelectorError::AmountArithmeticError)?;
                 weight -= group.0.weight;
-- 
2.43.0


From e7aadfc49b5a9c5470398b7c9dfe7a860edf46f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 23/38] fix: check a wallet password against all the stored
 secrets, not just the root keys

---
 wallet/storage/src/internal/mod.rs      |  2 +-
 wallet/storage/src/internal/store_tx.rs | 53 +++++++++++++++----------
 wallet/storage/src/lib.rs               |  2 +-
 3 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/wallet/storage/src/internal/mod.rs b/wallet/storage/src/internal/mod.rs
index a232aca..c8523dd 100644
--- a/wallet/storage/src/internal/mod.rs
+++ b/wallet/storage/src/internal/mod.rs
@@ -123,7 +123,7 @@ impl<B: storage::Backend> Store<B> {
         match challenge {
             Some(kdf_challenge) => {
                 let sym_key = challenge_to_sym_key(password, kdf_challenge)?;
-                self.transaction_ro()?.check_can_decrypt_all_root_keys(&sym_key)?;
+                self.transaction_ro()?.check_can_decrypt_all_secrets(&sym_key)?;
                 self.encryption_state = EncryptionState::Unlocked(Some(sym_key));
             }
             None => {
diff --git a/wallet/storage/src/internal/store_tx.rs b/wallet/storage/src/internal/store_tx.rs
index 9001193..a36f177 100644
--- a/wallet/storage/src/internal/store_tx.rs
+++ b/wallet/storage/src/internal/store_tx.rs
@@ -29,7 +29,7 @@ use crypto::{
     key::{PrivateKey, extended::ExtendedPublicKey},
     symkey::SymmetricKey,
 };
-use serialization::{Codec, DecodeAll, Encode, EncodeLike};
+use serialization::{Codec, Decode, DecodeAll, Encode, EncodeLike};
 use storage::{MakeMapRef, schema};
 use utils::{
     ensure,
@@ -525,27 +525,40 @@ impl<B: storage::Backend> WalletStorageEncryptionRead for StoreTxRo<'_, B> {
         self.read_value::<well_known::EncryptionKeyKdfChallenge>()
     }
 
-    /// Check if the provided encryption_key can decrypt all of the root keys
-    fn check_can_decrypt_all_root_keys(&self, encryption_key: &SymmetricKey) -> crate::Result<()> {
+    /// Check if the provided encryption_key can decrypt all of the stored secrets
+    fn check_can_decrypt_all_secrets(&self, encryption_key: &SymmetricKey) -> crate::Result<()> {
+        fn check<T: Encode + Decode>(
+            value: MaybeEncrypted<T>,
+            encryption_key: &SymmetricKey,
+            what: &str,
+        ) -> crate::Result<()> {
+            match value.try_decrypt_then_take(encryption_key) {
+                Ok(_decrypted_value) => Ok(()),
+                Err(MaybeEncryptedError::DecryptionError(_)) => {
+                    Err(crate::Error::WalletInvalidPassword)
+                }
+                Err(MaybeEncryptedError::DecodingError(err)) => {
+                    panic!("corrupted DB error in decoding of {what}: {err}")
+                }
+            }
+        }
+
         self.storage
             .get::<db::DBRootKeys, _>()
-            .prefix_iter_decoded(&())
-            .map_err(crate::Error::from)
-            .map(|mut item| {
-                item.try_for_each(|(_, v)| {
-                    let _decrypted_value =
-                        v.try_decrypt_then_take(encryption_key).map_err(|err| match err {
-                            MaybeEncryptedError::DecryptionError(_) => {
-                                crate::Error::WalletInvalidPassword
-                            }
-                            MaybeEncryptedError::DecodingError(err) => {
-                                panic!("corrupted DB error in decoding of root keys: {}", err)
-                            }
-                        })?;
-
-                    Ok(())
-                })
-            })?
+            .prefix_iter_decoded(&())?
+            .try_for_each(|(_, v)| check(v, encryption_key, "root keys"))?;
+
+        // A wallet doesn't necessarily have root keys (e.g. a hardware wallet doesn't), so
+        // the other secrets have to be checked too.
+        self.storage
+            .get::<db::DBSeedPhrase, _>()
+            .prefix_iter_decoded(&())?
+            .try_for_each(|(_, v)| check(v, encryption_key, "seed phrase"))?;
+
+        self.storage
+            .get::<db::DBStandalonePrivateKeys, _>()
+            .prefix_iter_decoded(&())?
+            .try_for_each(|(_, v)| check(v.private_key, encryption_key, "standalone private keys"))
     }
 }
 
diff --git a/wallet/storage/src/lib.rs b/wallet/storage/src/lib.rs
index c6f282c..b748b4b 100644
--- a/wallet/storage/src/lib.rs
+++ b/wallet/storage/src/lib.rs
@@ -135,7 +135,7 @@ pub trait WalletStorageReadUnlocked: WalletStorageReadLocked {
 /// Queries on persistent wallet data for encryption
 pub trait WalletStorageEncryptionRead {
     fn get_encryption_key_kdf_challenge(&self) -> Result<Option<KdfChallenge>>;
-    fn check_can_decrypt_all_root_keys(&self, encryption_key: &SymmetricKey) -> crate::Result<()>;
+    fn check_can_decrypt_all_secrets(&self, encryption_key: &SymmetricKey) -> crate::Result<()>;
 }
 
 /// Modifying operations on persistent wallet data
-- 
2.43.0


From 752336d2839f0bb1b91e1007ca5cb6145d0a9c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 24/38] fix: do not schedule a removed peer twice in the
 mempool work queue

---
 mempool/src/pool/work_queue/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mempool/src/pool/work_queue/mod.rs b/mempool/src/pool/work_queue/mod.rs
index c03929f..48f6176 100644
--- a/mempool/src/pool/work_queue/mod.rs
+++ b/mempool/src/pool/work_queue/mod.rs
@@ -93,9 +93,11 @@ impl<W: Ord> PeerQueue<W> {
 ///     requires a linear scan, so for efficiency reasons, it's done lazily when we pick the next
 ///     peer to process work for.
 ///   * Transitions to `Absent` when it's entry in the schedule set is processed.
+///   * Transitions to `Scheduled` on `insert`
 ///
-/// Note: Peer IDs that end up in the `Absent` state by disconnecting will be stuck there because
-/// peer IDs are effectively not reused.
+/// Note: Peer IDs that end up in the `Absent` state by disconnecting will normally be stuck there
+/// because peer IDs are effectively not reused. However, transactions received from a peer before
+/// it disconnected may still be submitted afterwards.
 ///
 /// The states are encoded implicitly by the data structure and can be detected like this:
 ///
@@ -150,10 +152,15 @@ impl<W: Ord> WorkQueue<W> {
                 // We insert the peer into the scheduled vec. Due to various lifetime and
                 // mutability issues, it's slightly awkward. We first push it at the end and then
                 // swap it with a random other element in the vec.
-                self.scheduled.push(peer);
-                let pos = randomness::make_pseudo_rng().random_range(0..self.scheduled.len());
-                let last = self.scheduled.len() - 1;
-                self.scheduled.swap(pos, last);
+                //
+                // If the peer has been removed recently, it may still be in the scheduled set.
+                // In that case it must not be put there for the second time.
+                if !self.scheduled.contains(&peer) {
+                    self.scheduled.push(peer);
+                    let pos = randomness::make_pseudo_rng().random_range(0..self.scheduled.len());
+                    let last = self.scheduled.len() - 1;
+                    self.scheduled.swap(pos, last);
+                }
 
                 // Insert a queue for this peer
                 e.insert(PeerQueue::new(item));
-- 
2.43.0


From 67dada8cdd922a9c3d7decab55755a57b5c62351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 25/38] fix: do not give out transactions for a block that
 spend outputs of the same block locked for seconds

---
 .../src/transaction_verifier/input_check/mod.rs     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs b/chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs
index 5c3b6f0..a1ff39a 100644
--- a/chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs
+++ b/chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs
@@ -418,6 +418,9 @@ struct VerifyContextTimelock<'a, S> {
     spending_time: BlockTimestamp,
     spending_height: BlockHeight,
 
+    // The time of the block that will contain the utxos that are not in the chain yet.
+    unconfirmed_source_time: BlockTimestamp,
+
     // Pre-calculated information about the inputs
     core_ctx: &'a CoreContext<'a>,
 }
@@ -429,6 +432,7 @@ impl<'a, S> VerifyContextTimelock<'a, S> {
         tip: Id<GenBlock>,
         spending_time: BlockTimestamp,
         spending_height: BlockHeight,
+        unconfirmed_source_time: BlockTimestamp,
         core_ctx: &'a CoreContext<'a>,
     ) -> Self {
         Self {
@@ -437,6 +441,7 @@ impl<'a, S> VerifyContextTimelock<'a, S> {
             tip,
             spending_time,
             spending_height,
+            unconfirmed_source_time,
             core_ctx,
         }
     }
@@ -464,6 +469,7 @@ impl<'a, S> VerifyContextTimelock<'a, S> {
             tip,
             spending_time,
             tx_source.expected_block_height(),
+            spending_time,
             core_ctx,
         )
     }
@@ -534,7 +540,7 @@ impl<S: TransactionVerifierStorageRef> TimelockContext for InputVerifyContextTim
 
                     Ok(source_block_index.block_timestamp())
                 }
-                utxo::UtxoSource::Mempool => Ok(self.ctx.spending_time),
+                utxo::UtxoSource::Mempool => Ok(self.ctx.unconfirmed_source_time),
             },
             InputInfo::Account { .. }
             | InputInfo::AccountCommand { .. }
@@ -712,12 +718,17 @@ where
     UV: utxo::UtxosView,
 {
     let core_ctx = CoreContext::new(utxos_view, transaction)?;
+    // Unlike the spending time (which is the median time past), the time of the block being made
+    // is not known here and is usually later. So an output that is created in that very block
+    // cannot be assumed to be as old as the spending time.
+    let unconfirmed_source_time = BlockTimestamp::from_int_seconds(u64::MAX);
     let ctx = VerifyContextTimelock::custom(
         chain_config,
         storage,
         tip,
         spending_time,
         spending_height,
+        unconfirmed_source_time,
         &core_ctx,
     );
 
-- 
2.43.0


From c763ac6e6e1f0d6c7adfd3ce2677a56d1e663106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 26/38] fix: sum up the fees of the collected transactions by
 the rules of the block being made

---
 mempool/src/pool/tx_pool/collect_txs.rs | 64 +++++++++++++++----------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/mempool/src/pool/tx_pool/collect_txs.rs b/mempool/src/pool/tx_pool/collect_txs.rs
index 85c4214..5b68159 100644
--- a/mempool/src/pool/tx_pool/collect_txs.rs
+++ b/mempool/src/pool/tx_pool/collect_txs.rs
@@ -25,7 +25,9 @@ use std::{
     ops::Deref,
 };
 
-use chainstate::tx_verifier::transaction_verifier::TransactionSourceForConnect;
+use chainstate::{
+    ConnectTransactionError, tx_verifier::transaction_verifier::TransactionSourceForConnect,
+};
 use common::{
     chain::transaction::Transaction,
     primitives::{Id, Idable},
@@ -98,6 +100,7 @@ pub fn collect_txs<M>(
         .call(|c| c.get_best_block_index())?
         .expect("best index to exist");
     let tx_source = TransactionSourceForConnect::for_mempool(&best_index);
+    let block_height = best_index.block_height().next_height();
 
     // Use transactions already in the Accumulator to check for uniqueness and to update the
     // verifier state to update UTXOs they consume / provide.
@@ -155,7 +158,7 @@ pub fn collect_txs<M>(
                 &utxo_view,
                 &chainstate,
                 mempool_tip,
-                best_index.block_height().next_height(),
+                block_height,
                 unlock_timestamp,
             )
             .ok()?;
@@ -194,29 +197,42 @@ pub fn collect_txs<M>(
             (None, None) => break,
         };
 
-        let verification_result =
-            tx_verifier.connect_transaction(&tx_source, next_tx.transaction(), &unlock_timestamp);
-
-        if let Err(err) = verification_result {
-            // Note: it's still possible to get here because:
-            // 1) Order V1 commands are not ordered with respect to each other, so it's possible
-            //    that e.g. a freeze will be selected before a fill, after which the fill will no
-            //    longer be valid.
-            // 2) Delegations are not ordered with respect to delegation withdrawals, so it's possible
-            //    that a withdrawal is selected first and fails because the delegation has insufficient
-            //    balance.
-            // TODO: the latter is a pathological case and probably isn't worth bothering about,
-            // but the former one should probably be fixed eventually, because otherwise blockprod
-            // may miss some lucrative transactions. One way to fix this is to introduce temporary
-            // pseudo-dependencies between transactions (e.g. where an order freeze depends on all its
-            // fills and a delegation withdrawal depends on all delegations); then, when a tx is selected
-            // but fails to be added to the tx verifier, this function may check if already selected txs
-            // have pseudo-dependencies on this tx and reorder the txs accordingly.
-            log::debug!("Selected tx {:x} failed validation: {err}", next_tx.tx_id());
-            continue;
-        }
+        // Note: the fee stored in the entry can't be used here, because it was calculated for the
+        // "effective height" used by the mempool, where different rules may be in effect.
+        let verification_result = tx_verifier
+            .connect_transaction(&tx_source, next_tx.transaction(), &unlock_timestamp)
+            .and_then(|fee| {
+                fee.map_into_block_fees(chain_config, block_height).map_err(|err| {
+                    ConnectTransactionError::ConstrainedValueAccumulatorError(
+                        err,
+                        (*next_tx.tx_id()).into(),
+                    )
+                })
+            });
+
+        let fee = match verification_result {
+            Ok(fee) => fee,
+            Err(err) => {
+                // Note: it's still possible to get here because:
+                // 1) Order V1 commands are not ordered with respect to each other, so it's possible
+                //    that e.g. a freeze will be selected before a fill, after which the fill will no
+                //    longer be valid.
+                // 2) Delegations are not ordered with respect to delegation withdrawals, so it's possible
+                //    that a withdrawal is selected first and fails because the delegation has insufficient
+                //    balance.
+                // TODO: the latter is a pathological case and probably isn't worth bothering about,
+                // but the former one should probably be fixed eventually, because otherwise blockprod
+                // may miss some lucrative transactions. One way to fix this is to introduce temporary
+                // pseudo-dependencies between transactions (e.g. where an order freeze depends on all its
+                // fills and a delegation withdrawal depends on all delegations); then, when a tx is selected
+                // but fails to be added to the tx verifier, this function may check if already selected txs
+                // have pseudo-dependencies on this tx and reorder the txs accordingly.
+                log::debug!("Selected tx {:x} failed validation: {err}", next_tx.tx_id());
+                continue;
+            }
+        };
 
-        if let Err(err) = tx_accumulator.add_tx(next_tx.transaction().clone(), next_tx.fee()) {
+        if let Err(err) = tx_accumulator.add_tx(next_tx.transaction().clone(), fee.into()) {
             log::error!(
                 "CRITICAL: Failed to add transaction {} from mempool. Error: {err}",
                 next_tx.tx_id(),
-- 
2.43.0


From 142c748a5b0ac272ba525bf7d13b832967c336f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 27/38] fix: let a token issuance be undone in the verifier
 that has seen it

---
 .../token_issuance_cache.rs                    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs b/chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs
index 9027b37..f094906 100644
--- a/chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs
+++ b/chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs
@@ -108,7 +108,10 @@ impl TokenIssuanceCache {
         ConnectTransactionError: From<E>,
     {
         if let Some(token_id) = has_tokens_issuance_to_cache(tx.outputs()) {
-            self.precache_token_issuance(token_data_getter, token_id)?;
+            // Note: the token may have been issued via this very cache.
+            if !self.data.contains_key(&token_id) {
+                self.precache_token_issuance(token_data_getter, token_id)?;
+            }
 
             self.write_undo_issuance(tx, token_id)?;
         }
@@ -157,9 +160,16 @@ impl TokenIssuanceCache {
         token_id: TokenId,
     ) -> Result<(), TokensError> {
         match self.data.entry(token_id) {
-            Entry::Occupied(mut e) => {
-                e.insert(CachedAuxDataOp::Erase);
-            }
+            Entry::Occupied(mut e) => match e.get() {
+                CachedOperation::Write(_) | CachedOperation::Read(_) => {
+                    e.insert(CachedAuxDataOp::Erase);
+                }
+                CachedOperation::Erase => {
+                    return Err(TokensError::InvariantBrokenUndoIssuanceOnNonexistentToken(
+                        token_id,
+                    ));
+                }
+            },
             Entry::Vacant(_) => {
                 return Err(TokensError::InvariantBrokenUndoIssuanceOnNonexistentToken(
                     token_id,
-- 
2.43.0


From eebfd7b0161aa5a77c718b78c7071bd46ad52526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 28/38] fix: see the outputs of the wallet among others that
 anyone can spend

---
 wallet/src/account/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/account/mod.rs b/wallet/src/account/mod.rs
index 59b3ca0..9b87a51 100644
--- a/wallet/src/account/mod.rs
+++ b/wallet/src/account/mod.rs
@@ -2063,7 +2063,7 @@ impl<K: AccountKeyChains> Account<K> {
                         return Ok(true);
                     }
                 }
-                Destination::AnyoneCanSpend => return Ok(false),
+                Destination::AnyoneCanSpend => {}
                 Destination::ClassicMultisig(_) => {
                     if self.key_chain.get_multisig_challenge(&destination).is_some() {
                         return Ok(true);
-- 
2.43.0


From dc66a1e32cb3144a1906122c3126fd06fb52a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 29/38] fix: let the wallet see every transaction that changes
 an account it keeps track of

---
 wallet/src/account/mod.rs              | 23 +++++++++++++++--------
 wallet/src/account/output_cache/mod.rs |  6 +++---
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/wallet/src/account/mod.rs b/wallet/src/account/mod.rs
index 9b87a51..cdc5d59 100644
--- a/wallet/src/account/mod.rs
+++ b/wallet/src/account/mod.rs
@@ -2231,6 +2231,9 @@ impl<K: AccountKeyChains> Account<K> {
         wallet_events: &impl WalletEvents,
         tx: WalletTx,
     ) -> WalletResult<bool> {
+        // Note: the output cache also contains delegations, tokens and orders that are not (or no longer)
+        // ours, e.g. if they were created by a tx that also paid to us. It needs to see every tx that
+        // changes them, because it relies on the continuity of their nonces.
         let relevant_inputs = tx.inputs().iter().any(|input| match input {
             TxInput::Utxo(outpoint) => self
                 .output_cache
@@ -2238,13 +2241,15 @@ impl<K: AccountKeyChains> Account<K> {
                 .is_some_and(|txo| self.is_mine_or_watched(txo)),
             TxInput::Account(outpoint) => match outpoint.account() {
                 AccountSpending::DelegationBalance(delegation_id, _) => {
-                    self.find_delegation(delegation_id).is_ok()
+                    self.output_cache.delegation_data(delegation_id).is_some()
                 }
             },
             TxInput::OrderAccountCommand(cmd) => match cmd {
-                OrderAccountCommand::FillOrder(order_id, _) => self.find_order(order_id).is_ok(),
-                OrderAccountCommand::FreezeOrder(order_id)
-                | OrderAccountCommand::ConcludeOrder(order_id) => self.find_order(order_id).is_ok(),
+                OrderAccountCommand::FillOrder(order_id, _)
+                | OrderAccountCommand::FreezeOrder(order_id)
+                | OrderAccountCommand::ConcludeOrder(order_id) => {
+                    self.output_cache.order_data(order_id).is_some()
+                }
             },
             TxInput::AccountCommand(_, op) => match op {
                 AccountCommand::MintTokens(token_id, _)
@@ -2253,15 +2258,17 @@ impl<K: AccountKeyChains> Account<K> {
                 | AccountCommand::FreezeToken(token_id, _)
                 | AccountCommand::UnfreezeToken(token_id)
                 | AccountCommand::ChangeTokenMetadataUri(token_id, _) => {
-                    self.find_token(token_id).is_ok()
+                    self.output_cache.token_data(token_id).is_some()
                 }
                 AccountCommand::ChangeTokenAuthority(token_id, address) => {
-                    self.find_token(token_id).is_ok()
+                    self.output_cache.token_data(token_id).is_some()
                         || self.is_destination_mine_or_watched(address)
                 }
-                AccountCommand::ConcludeOrder(order_id) => self.find_order(order_id).is_ok(),
                 // Note: the destination in v0 FillOrder can be arbitrary, so we ignore it.
-                AccountCommand::FillOrder(order_id, _, _) => self.find_order(order_id).is_ok(),
+                AccountCommand::ConcludeOrder(order_id)
+                | AccountCommand::FillOrder(order_id, _, _) => {
+                    self.output_cache.order_data(order_id).is_some()
+                }
             },
         });
         let relevant_outputs = self.mark_outputs_as_seen(db_tx, tx.outputs())?;
diff --git a/wallet/src/account/output_cache/mod.rs b/wallet/src/account/output_cache/mod.rs
index f9c7660..d929ad0 100644
--- a/wallet/src/account/output_cache/mod.rs
+++ b/wallet/src/account/output_cache/mod.rs
@@ -1306,7 +1306,7 @@ impl OutputCache {
             .ok_or(WalletError::DelegationNonceOverflow(*delegation_id))?;
 
         ensure!(
-            delegation_nonce == next_nonce,
+            delegation_nonce >= next_nonce,
             OutputCacheInconsistencyError::InconsistentDelegationDuplicateNonce(
                 *delegation_id,
                 delegation_nonce
@@ -1340,7 +1340,7 @@ impl OutputCache {
             .ok_or(WalletError::TokenIssuanceNonceOverflow(*token_id))?;
 
         ensure!(
-            token_nonce == next_nonce,
+            token_nonce >= next_nonce,
             OutputCacheInconsistencyError::InconsistentTokenIssuanceDuplicateNonce(
                 *token_id,
                 token_nonce
@@ -1376,7 +1376,7 @@ impl OutputCache {
                 .ok_or(WalletError::OrderNonceOverflow(*order_id))?;
 
             ensure!(
-                nonce == next_nonce,
+                nonce >= next_nonce,
                 OutputCacheInconsistencyError::InconsistentOrderDuplicateNonce(*order_id, nonce)
             );
 
-- 
2.43.0


From f21fb07fb93aae666f7af3815b2c9507284abe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 30/38] fix: give no effect to abandoned and conflicted
 transactions when a wallet is loaded

---
 wallet/src/account/output_cache/mod.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/wallet/src/account/output_cache/mod.rs b/wallet/src/account/output_cache/mod.rs
index d929ad0..62fec0d 100644
--- a/wallet/src/account/output_cache/mod.rs
+++ b/wallet/src/account/output_cache/mod.rs
@@ -1033,6 +1033,27 @@ impl OutputCache {
             return Ok(TxChanged::No);
         }
 
+        match tx.state() {
+            // These have no effect on the rest of the data (and when such a tx becomes active again,
+            // it's handled as a new one). But a conflicted tx can be abandoned along with its parent.
+            TxState::Abandoned => {
+                self.txs.insert(tx_id, tx);
+                return Ok(TxChanged::Yes);
+            }
+            TxState::Conflicted(_) => {
+                for outpoint in tx.inputs().iter().filter_map(TxInput::utxo_outpoint) {
+                    if let Some(descendants) =
+                        self.unconfirmed_descendants.get_mut(&outpoint.source_id())
+                    {
+                        descendants.insert(tx_id.clone());
+                    }
+                }
+                self.txs.insert(tx_id, tx);
+                return Ok(TxChanged::Yes);
+            }
+            TxState::Confirmed(_, _, _) | TxState::InMempool(_) | TxState::Inactive(_) => {}
+        }
+
         let already_present = existing_tx.is_some_and(|tx| match tx.state() {
             TxState::Abandoned | TxState::Conflicted(_) => false,
             TxState::Confirmed(_, _, _) | TxState::InMempool(_) | TxState::Inactive(_) => true,
@@ -1917,6 +1938,8 @@ fn wallet_tx_order(x: &WalletTx, y: &WalletTx) -> std::cmp::Ordering {
         (TxState::InMempool(idx1), TxState::Inactive(idx2)) => idx1.cmp(&idx2),
         (TxState::Inactive(idx1), TxState::Inactive(idx2)) => idx1.cmp(&idx2),
         (TxState::Inactive(idx1), TxState::InMempool(idx2)) => idx1.cmp(&idx2),
+        (TxState::InMempool(_) | TxState::Inactive(_), _) => std::cmp::Ordering::Less,
+        (_, TxState::InMempool(_) | TxState::Inactive(_)) => std::cmp::Ordering::Greater,
         (_, _) => std::cmp::Ordering::Equal,
     }
 }
-- 
2.43.0


From ae47a40bfcbfa8d0ff133f0f398f3b5aa2d5c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 31/38] fix: keep what is pending for an order when its
 creation is confirmed

---
 wallet/src/account/output_cache/mod.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/wallet/src/account/output_cache/mod.rs b/wallet/src/account/output_cache/mod.rs
index 62fec0d..1931205 100644
--- a/wallet/src/account/output_cache/mod.rs
+++ b/wallet/src/account/output_cache/mod.rs
@@ -1168,15 +1168,20 @@ impl OutputCache {
                         .ok_or(WalletError::TokenV0(tx.id()))?;
                     let initially_given = RpcOutputValue::from_output_value(order_data.give())
                         .ok_or(WalletError::TokenV0(tx.id()))?;
-                    self.orders.insert(
-                        order_id,
-                        OrderData::new(
-                            order_data.conclude_key().clone(),
-                            initially_asked,
-                            initially_given,
-                            block_info.map(|info| info.timestamp),
-                        ),
-                    );
+                    let creation_timestamp = block_info.map(|info| info.timestamp);
+                    // Note: the order may already be present as an unconfirmed one (and there may be
+                    // unconfirmed commands for it, whose effect must be kept).
+                    self.orders
+                        .entry(order_id)
+                        .and_modify(|data| data.creation_timestamp = creation_timestamp)
+                        .or_insert_with(|| {
+                            OrderData::new(
+                                order_data.conclude_key().clone(),
+                                initially_asked,
+                                initially_given,
+                                creation_timestamp,
+                            )
+                        });
                 }
             };
         }
-- 
2.43.0


From b3eb74403afbf2e9f795135786a37f72e1a8a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 32/38] fix: let a confirmed token freeze not conflict with
 itself in the wallet

---
 wallet/src/account/output_cache/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wallet/src/account/output_cache/mod.rs b/wallet/src/account/output_cache/mod.rs
index 1931205..98a1201 100644
--- a/wallet/src/account/output_cache/mod.rs
+++ b/wallet/src/account/output_cache/mod.rs
@@ -862,6 +862,7 @@ impl OutputCache {
                 match unconfirmed_tx {
                     WalletTx::Tx(tx) => {
                         if let Some(frozen_token_id) = conflict_check.frozen_token_id
+                            && confirmed_tx.get_id() != tx.get_transaction().get_id()
                             && self.violates_frozen_token(unconfirmed_tx, &frozen_token_id)
                         {
                             conflicting_txs.insert(tx.get_transaction().get_id());
-- 
2.43.0


From 830d3f300c64974074193fde9c1d313e282ab626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 33/38] fix: restore the authority of a token when its change
 is undone in the wallet

---
 wallet/src/account/output_cache/mod.rs | 79 +++++++++++++++++++++++++-
 1 file changed, 77 insertions(+), 2 deletions(-)

diff --git a/wallet/src/account/output_cache/mod.rs b/wallet/src/account/output_cache/mod.rs
index 98a1201..e582ade 100644
--- a/wallet/src/account/output_cache/mod.rs
+++ b/wallet/src/account/output_cache/mod.rs
@@ -1681,6 +1681,65 @@ impl OutputCache {
         all_txs
     }
 
+    // Find the authority that a token had before the command with the specified nonce, according
+    // to the transactions that are still in effect. Return None if they don't tell.
+    fn find_token_authority_before(
+        &self,
+        chain_config: &ChainConfig,
+        token_id: &TokenId,
+        nonce: AccountNonce,
+    ) -> WalletResult<Option<Destination>> {
+        let mut latest_change: Option<(AccountNonce, &Destination)> = None;
+        let mut issued_authority = None;
+
+        for tx in self.txs.values() {
+            match tx.state() {
+                TxState::Confirmed(_, _, _) | TxState::InMempool(_) | TxState::Inactive(_) => {}
+                TxState::Conflicted(_) | TxState::Abandoned => continue,
+            }
+
+            for input in tx.inputs() {
+                if let TxInput::AccountCommand(
+                    tx_nonce,
+                    AccountCommand::ChangeTokenAuthority(id, authority),
+                ) = input
+                    && id == token_id
+                    && *tx_nonce < nonce
+                    && latest_change.is_none_or(|(latest_nonce, _)| latest_nonce < *tx_nonce)
+                {
+                    latest_change = Some((*tx_nonce, authority));
+                }
+            }
+
+            for output in tx.outputs() {
+                if let TxOutput::IssueFungibleToken(issuance) = output {
+                    let TokenIssuance::V1(data) = issuance.as_ref();
+                    let issues_this_token = match get_block_info(tx) {
+                        Some(info) => {
+                            make_token_id(chain_config, info.height, tx.inputs())? == *token_id
+                        }
+                        None => {
+                            let id_v0 = make_token_id_with_version(
+                                TokenIdGenerationVersion::V0,
+                                tx.inputs(),
+                            )?;
+                            let id_v1 = make_token_id_with_version(
+                                TokenIdGenerationVersion::V1,
+                                tx.inputs(),
+                            )?;
+                            id_v0 == *token_id || id_v1 == *token_id
+                        }
+                    };
+                    if issues_this_token {
+                        issued_authority = Some(&data.authority);
+                    }
+                }
+            }
+        }
+
+        Ok(latest_change.map(|(_, authority)| authority).or(issued_authority).cloned())
+    }
+
     // After tx is removed as a result of reorg, abandoning or marking as conflicted
     // its effect on OutputCache's data fields should be rolled back
     fn rollback_tx_data(&mut self, chain_config: &ChainConfig, tx: &WalletTx) -> WalletResult<()> {
@@ -1709,14 +1768,30 @@ impl OutputCache {
                     | AccountCommand::LockTokenSupply(token_id)
                     | AccountCommand::FreezeToken(token_id, _)
                     | AccountCommand::UnfreezeToken(token_id)
-                    | AccountCommand::ChangeTokenMetadataUri(token_id, _)
-                    | AccountCommand::ChangeTokenAuthority(token_id, _) => {
+                    | AccountCommand::ChangeTokenMetadataUri(token_id, _) => {
                         if let Some(data) = self.token_issuance.get_mut(token_id) {
                             data.last_nonce = nonce.decrement();
                             data.last_parent = find_parent(&self.unconfirmed_descendants, &tx_id);
                             data.unconfirmed_txs.remove(&tx_id);
                         }
                     }
+                    AccountCommand::ChangeTokenAuthority(token_id, _) => {
+                        let previous_authority =
+                            self.find_token_authority_before(chain_config, token_id, *nonce)?;
+                        if let Entry::Occupied(mut entry) = self.token_issuance.entry(*token_id) {
+                            if let Some(authority) = previous_authority {
+                                let data = entry.get_mut();
+                                data.authority = authority;
+                                data.last_nonce = nonce.decrement();
+                                data.last_parent =
+                                    find_parent(&self.unconfirmed_descendants, &tx_id);
+                                data.unconfirmed_txs.remove(&tx_id);
+                            } else {
+                                // The wallet only learned about the token from this tx.
+                                entry.remove();
+                            }
+                        }
+                    }
                     AccountCommand::ConcludeOrder(order_id)
                     | AccountCommand::FillOrder(order_id, _, _) => {
                         if let Some(data) = self.orders.get_mut(order_id) {
-- 
2.43.0


From 49b4aba7469fe3b3b434ba0d2d5d5e02ca1a83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 34/38] fix: undo pending transactions of the wallet after all
 that depend on them, and only those still pending

---
 wallet/src/account/output_cache/mod.rs | 32 ++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/wallet/src/account/output_cache/mod.rs b/wallet/src/account/output_cache/mod.rs
index e582ade..e0b74e6 100644
--- a/wallet/src/account/output_cache/mod.rs
+++ b/wallet/src/account/output_cache/mod.rs
@@ -15,7 +15,7 @@
 
 use std::{
     cmp::Reverse,
-    collections::{BTreeMap, BTreeSet, VecDeque, btree_map::Entry},
+    collections::{BTreeMap, BTreeSet, btree_map::Entry},
     ops::Add,
 };
 
@@ -1663,21 +1663,35 @@ impl OutputCache {
         &mut self,
         tx_id: Id<Transaction>,
     ) -> Vec<Id<Transaction>> {
+        let root: OutPointSourceId = tx_id.into();
+        // Descendants go before the transactions that they depend on here.
         let mut all_txs = Vec::new();
-        let mut all_txs_as_set = BTreeSet::new();
-        let mut to_update: VecDeque<OutPointSourceId> = [tx_id.into()].into();
+        let mut visited = BTreeSet::new();
+        let mut to_visit = vec![(root.clone(), false)];
 
-        while let Some(outpoint_source_id) = to_update.pop_front() {
-            let tx_id = *outpoint_source_id.get_tx_id().expect("must be a transaction");
-            if all_txs_as_set.insert(tx_id) {
-                all_txs.push(tx_id);
+        while let Some((outpoint_source_id, descendants_done)) = to_visit.pop() {
+            if descendants_done {
+                all_txs.push(*outpoint_source_id.get_tx_id().expect("must be a transaction"));
+                continue;
             }
 
-            if let Some(descendants) = self.unconfirmed_descendants.remove(&outpoint_source_id) {
-                to_update.extend(descendants)
+            // Note: a descendant may have been abandoned in the meantime (or even confirmed, if it
+            // only depends on its parent through an order), in which case it must be left alone.
+            let is_affected = outpoint_source_id == root
+                || self.txs.get(&outpoint_source_id).is_some_and(|tx| match tx.state() {
+                    TxState::Inactive(_) | TxState::InMempool(_) | TxState::Conflicted(_) => true,
+                    TxState::Confirmed(_, _, _) | TxState::Abandoned => false,
+                });
+
+            if is_affected && visited.insert(outpoint_source_id.clone()) {
+                let descendants =
+                    self.unconfirmed_descendants.remove(&outpoint_source_id).unwrap_or_default();
+                to_visit.push((outpoint_source_id, true));
+                to_visit.extend(descendants.into_iter().map(|id| (id, false)));
             }
         }
 
+        all_txs.reverse();
         all_txs
     }
 
-- 
2.43.0


From ba0c2cd8e87ae98f14a54a09d471ab06bac07442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 35/38] Let verification repeat pseudo-random choices

---
 randomness/src/lib.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/randomness/src/lib.rs b/randomness/src/lib.rs
index b235375..c2d8a7d 100644
--- a/randomness/src/lib.rs
+++ b/randomness/src/lib.rs
@@ -13,6 +13,9 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+// `mintlayer_verif` is set by verification only.
+#![allow(unexpected_cfgs)]
+
 pub mod adapters;
 
 use std::sync::Mutex;
@@ -49,11 +52,42 @@ pub fn make_true_rng() -> impl CryptoRng {
     rand::rngs::StdRng::try_from_rng(&mut rand::rngs::SysRng).expect("RNG creation failed")
 }
 
+#[cfg(not(mintlayer_verif))]
 #[must_use]
 pub fn make_pseudo_rng() -> impl Rng {
     rand::rngs::ThreadRng::default()
 }
 
+/// Only for verification: pseudo-random numbers that can be repeated.
+#[cfg(mintlayer_verif)]
+pub mod repeatable {
+    use std::cell::RefCell;
+
+    use rand::{RngExt, SeedableRng, rngs::StdRng};
+
+    thread_local! {
+        static SOURCE: RefCell<Option<StdRng>> = const { RefCell::new(None) };
+    }
+
+    /// From now on, the generators made in this thread depend on the seed only.
+    pub fn start(seed: u64) {
+        SOURCE.with(|s| *s.borrow_mut() = Some(StdRng::seed_from_u64(seed)));
+    }
+
+    pub(super) fn next() -> StdRng {
+        SOURCE.with(|s| match s.borrow_mut().as_mut() {
+            Some(source) => StdRng::seed_from_u64(source.random()),
+            None => StdRng::seed_from_u64(rand::rngs::ThreadRng::default().random()),
+        })
+    }
+}
+
+#[cfg(mintlayer_verif)]
+#[must_use]
+pub fn make_pseudo_rng() -> impl Rng {
+    repeatable::next()
+}
+
 /// A wrapper over `Mutex<Box<R>>` that implements `Rng` and `CryptoRng` if `R` does the same.
 ///
 /// This can be passed to a function that accept `impl Rng`, to avoid the need to lock the mutex
-- 
2.43.0


From 679abf9df6e4f475319faf05b62c504d9e7d32c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 36/38] fix: report the whole fee of a delegation spend of the
 wallet

---
 wallet/src/account/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wallet/src/account/mod.rs b/wallet/src/account/mod.rs
index cdc5d59..8d0e6b8 100644
--- a/wallet/src/account/mod.rs
+++ b/wallet/src/account/mod.rs
@@ -890,6 +890,7 @@ impl<K: AccountKeyChains> Account<K> {
         let mut req = SendRequest::new()
             .with_inputs_and_destinations([(tx_input, delegation_data.destination.clone())])
             .with_outputs(outputs);
+        let total_fee = (network_fee + total_fee).ok_or(WalletError::OutputAmountOverflow)?;
         req.add_fee(Currency::Coin, total_fee)?;
         Ok(req)
     }
-- 
2.43.0


From 5096da7118d44018cfc6cb6f88e822482fc4d013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 37/38] fix: let the wallet pay what is charged at the next
 height

---
 wallet/src/account/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wallet/src/account/mod.rs b/wallet/src/account/mod.rs
index 8d0e6b8..475b193 100644
--- a/wallet/src/account/mod.rs
+++ b/wallet/src/account/mod.rs
@@ -247,7 +247,7 @@ impl<K: AccountKeyChains> Account<K> {
             &request,
             fee_rates.current_fee_rate,
             &self.chain_config,
-            self.account_info.best_block_height(),
+            self.account_info.best_block_height().next_height(),
             Some(self),
             order_info,
         )?;
@@ -261,7 +261,7 @@ impl<K: AccountKeyChains> Account<K> {
             },
             Amount::ZERO,
             &self.chain_config,
-            self.account_info.best_block_height(),
+            self.account_info.best_block_height().next_height(),
         )?;
 
         // update output currency amount with burn requirements of preselected inputs
-- 
2.43.0


From d85ac9822993afe615d21ebeb981ef74d006ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:32 +0000
Subject: [PATCH 38/38] fix: let the minimum fee rate of a full mempool decay
 only from the first block after it was raised

---
 mempool/src/pool/tx_pool/reorg.rs            | 3 ++-
 mempool/src/pool/tx_pool/rolling_fee_rate.rs | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/mempool/src/pool/tx_pool/reorg.rs b/mempool/src/pool/tx_pool/reorg.rs
index c54aa1c..0b52943 100644
--- a/mempool/src/pool/tx_pool/reorg.rs
+++ b/mempool/src/pool/tx_pool/reorg.rs
@@ -132,7 +132,8 @@ pub fn handle_new_tip<M: MemoryUsageEstimator>(
     new_tip: Id<GenBlock>,
     finalizer: impl FnMut(TxAdditionOutcome, &TxPool<M>),
 ) -> Result<(), ReorgError> {
-    tx_pool.rolling_fee_rate.get_mut().set_block_since_last_rolling_fee_bump(true);
+    let now = tx_pool.clock.get_time();
+    tx_pool.rolling_fee_rate.get_mut().on_block(now);
 
     // Note: when chainstate receives multiple blocks in rapid succession, mempool may start lagging
     // behind it noticeably. If we allowed mempool to handle new tip events normally while it's
diff --git a/mempool/src/pool/tx_pool/rolling_fee_rate.rs b/mempool/src/pool/tx_pool/rolling_fee_rate.rs
index fdf7218..c785a7b 100644
--- a/mempool/src/pool/tx_pool/rolling_fee_rate.rs
+++ b/mempool/src/pool/tx_pool/rolling_fee_rate.rs
@@ -76,6 +76,15 @@ impl RollingFeeRate {
         self.block_since_last_rolling_fee_bump = block_since_last_rolling_fee_bump
     }
 
+    /// The rolling fee rate starts decaying with the first block after a bump, so the time before
+    /// that block must not count towards the decay.
+    pub fn on_block(&mut self, current_time: Time) {
+        if !self.block_since_last_rolling_fee_bump {
+            self.block_since_last_rolling_fee_bump = true;
+            self.last_rolling_fee_update = current_time;
+        }
+    }
+
     pub fn block_since_last_rolling_fee_bump(&self) -> bool {
         self.block_since_last_rolling_fee_bump
     }
-- 
2.43.0

