From 74d60db754008bbe05d981edc1cfbf81095e0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 01/31] fix: subtract the spending floor from the pool when
 refreshing the rewards rate

The rate was computed from pool balance plus minimum balance (plus residue)
instead of the amount above that floor, so the pool promised more than it may spend.
---
 src/data/bookkeeping/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 692859d..f8602d9 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -567,7 +567,7 @@ impl RewardsState {
             }
 
             // it is time to refresh the rewards rate
-            let new_rate = match incentive_pool_balance.0.checked_add(max_spent_over) {
+            let new_rate = match incentive_pool_balance.0.checked_sub(max_spent_over) {
                 Some(n) => n,
                 None => {
                     error!(
-- 
2.43.0


From 849cdbfada3748d90c505ace82a36e943ef893f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 02/31] fix: compute normalized balances with a 128-bit product

balance * reward_unit overflowed 64 bits, and panicked, for every online account
holding more than about 18.4 million Algos.
---
 src/data/basics/user_balance.rs | 37 +++++----------------------------
 1 file changed, 5 insertions(+), 32 deletions(-)

diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 26ae790..8936870 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -497,42 +497,15 @@ impl AccountData {
 
         // If this account had one RewardUnit of microAlgos in round 0,
         // it would have per_reward_unit microAlgos at the account's current rewards level.
-        let per_reward_unit = self.rewards_base + proto.reward_unit;
+        let per_reward_unit = self.rewards_base as u128 + proto.reward_unit as u128;
 
         // To normalize, we compute, mathematically,
         // `u.MicroAlgos / perRewardUnit * proto.RewardUnit`, as
         // `(u.MicroAlgos * proto.RewardUnit) / perRewardUnit`.
-        //norm, overflowed = Muldiv(self.micro_algos.to_u64(), proto.reward_unit, per_reward_unit)?
-        let norm = self.micro_algos.to_u64().checked_mul(proto.reward_unit);
-
-        // Mathematically should be impossible to overflow because `per_reward_unit >= proto.reward_unit`,
-        // as long as `self.reward_base` isn't huge enough to cause overflow.
-        if norm.is_none() {
-            // TODO use logger
-            panic!(
-                "overflow computing normalized balance {} * {} / ({} + {})",
-                self.micro_algos.to_u64(),
-                proto.reward_unit,
-                self.rewards_base,
-                proto.reward_unit
-            );
-        }
-
-        match norm.unwrap().checked_div(per_reward_unit) {
-            // Mathematically should be impossible to overflow because `per_reward_unit >= proto.reward_unit`,
-            // as long as `self.reward_base` isn't huge enough to cause overflow.
-            None => {
-                // TODO use logger
-                panic!(
-                    "overflow computing normalized balance {} * {} / ({} + {})",
-                    self.micro_algos.to_u64(),
-                    proto.reward_unit,
-                    self.rewards_base,
-                    proto.reward_unit
-                );
-            }
-            Some(n) => n,
-        }
+        // The product needs 128 bits; the result fits into 64 bits
+        // because `per_reward_unit >= proto.reward_unit`.
+        let norm = self.micro_algos.to_u64() as u128 * proto.reward_unit as u128 / per_reward_unit;
+        norm as u64
     }
 }
 
-- 
2.43.0


From fe65bcff43769586a8767d4507134a0e66aadeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 03/31] fix: require the minimum fee for every transaction
 except compact certs in fee_credit

---
 src/data/transactions/signed_tx.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/transactions/signed_tx.rs b/src/data/transactions/signed_tx.rs
index 9186ff9..be6b69b 100644
--- a/src/data/transactions/signed_tx.rs
+++ b/src/data/transactions/signed_tx.rs
@@ -109,7 +109,8 @@ pub fn fee_credit(tx_group: &[SignedTx], min_fee: u64) -> Result<u64, ()> {
     let mut min_fee_count = 0;
     let mut fees_paid = 0_u64;
     for stxn in tx_group {
-        if let TxFields::CompactCert(_) = stxn.tx.fields {
+        // Compact cert transactions are the only ones that do not need to pay a fee.
+        if !matches!(stxn.tx.fields, TxFields::CompactCert(_)) {
             min_fee_count += 1;
         }
         fees_paid = fees_paid.saturating_add(stxn.tx.header.fee.0);
-- 
2.43.0


From a639b25649569b4d2fe6700ab94b5297597fdc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 04/31] fix: accept transactions paying exactly the minimum fee

---
 src/data/transactions/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index abdcaea..ecec9fb 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -448,7 +448,7 @@ impl Transaction {
         }
         */
 
-        if !proto.enable_fee_pooling && self.header.fee <= basics::MicroAlgos(proto.min_tx_fee) {
+        if !proto.enable_fee_pooling && self.header.fee < basics::MicroAlgos(proto.min_tx_fee) {
             if let TxFields::CompactCert(_) = &self.fields {
                 // Zero fee allowed for compact cert txn.
             } else {
-- 
2.43.0


From 79d389070cdbfe8e35a53b33224814f98294d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 05/31] fix: reject transactions sent from the incentive pool
 instead of panicking

---
 src/data/transactions/errors.rs      | 2 ++
 src/data/transactions/transaction.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/transactions/errors.rs b/src/data/transactions/errors.rs
index e7c4234..8844222 100644
--- a/src/data/transactions/errors.rs
+++ b/src/data/transactions/errors.rs
@@ -44,6 +44,8 @@ pub enum InvalidTx {
     FeeLessThanMin(basics::MicroAlgos, basics::MicroAlgos),
     #[error("transaction sender not set (set to zero)")]
     ZeroSender,
+    #[error("transaction from incentive pool is invalid")]
+    SenderIsRewardsPool,
 
     #[error("bad validty range of {0}-{1}")]
     BadValidityRange(basics::Round, basics::Round),
diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index ecec9fb..c51c8bb 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -502,7 +502,7 @@ impl Transaction {
 
         if self.header.sender == spec.rewards_pool {
             // this check is just to be safe, but reaching here seems impossible, since it requires computing a preimage of rwpool
-            unreachable!("transaction from incentive pool");
+            Err(InvalidTx::SenderIsRewardsPool)
         } else if self.header.sender.is_zero() {
             Err(InvalidTx::ZeroSender)
         } else if !proto.support_transaction_leases && (self.header.lease != [0; 32]) {
-- 
2.43.0


From f53ad2552bf14c617055ee39494d0d842d3334f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 06/31] fix: do not overflow on a keyreg transaction that is
 valid until the last round

---
 src/data/transactions/keyreg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/keyreg.rs b/src/data/transactions/keyreg.rs
index ec6c419..149d7a2 100644
--- a/src/data/transactions/keyreg.rs
+++ b/src/data/transactions/keyreg.rs
@@ -45,7 +45,7 @@ impl KeyregFields {
             // going online
             if self.vote_last == basics::Round(0) {
                 return Err(InvalidTx::KeyregGoingOnlineWithZeroVoteLast);
-            } else if self.vote_first.0 > header.last_valid.0 + 1 {
+            } else if self.vote_first.0 > header.last_valid.0.saturating_add(1) {
                 return Err(InvalidTx::KeyregGoingOnlineWithFirstVoteAfterLastValid);
             }
         }
-- 
2.43.0


From 5a999600b4c5af8e292618826ddb07f33c3bb30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 07/31] fix: report addresses of any wrong length as
 WrongLength

---
 src/data/basics/address.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index 563888c..9f92f1b 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -85,7 +85,7 @@ impl FromStr for Address {
         };
 
         let mut short = Address([0; 32]);
-        if decoded.len() < short.0.len() {
+        if decoded.len() != short.0.len() + CHECKSUM_LEN {
             return Err(AddressError::WrongLength);
         }
 
-- 
2.43.0


From 2f6ed587eeb887012acae951ee594d942cea459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:20 +0000
Subject: [PATCH 08/31] fix: encode structs as maps, so that omitted fields
 cannot shift into each other

---
 src/protocol/codec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/codec.rs b/src/protocol/codec.rs
index c8cabef..4c21f79 100644
--- a/src/protocol/codec.rs
+++ b/src/protocol/codec.rs
@@ -4,7 +4,7 @@
 use serde::{Deserialize, Serialize};
 
 pub fn encode(x: &impl Serialize) -> Vec<u8> {
-    rmp_serde::to_vec(x).unwrap()
+    rmp_serde::to_vec_named(x).unwrap()
 }
 
 pub fn decode<'a, T: Deserialize<'a>>(bytes: &'a [u8]) -> Result<T, rmp_serde::decode::Error> {
-- 
2.43.0


From d57042f56829a6a3c35729c225e5137121ca4d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 09/31] fix: decode addresses from the byte strings they are
 encoded as

---
 src/data/basics/address.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index 9f92f1b..863bf99 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -1,11 +1,13 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::convert::TryInto;
 use std::fmt;
 use std::str::FromStr;
 
 use data_encoding::BASE32_NOPAD;
-use serde::{Deserialize, Serialize, Serializer};
+use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
+use serde_bytes::ByteBuf;
 use sha2::{Digest, Sha512Trunc256};
 use thiserror::Error;
 
@@ -23,7 +25,7 @@ pub enum AddressError {
     InvalidChecksum,
 }
 
-#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq, Deserialize)]
+#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq)]
 pub struct Address(pub [u8; 32]);
 
 impl Serialize for Address {
@@ -32,6 +34,17 @@ impl Serialize for Address {
     }
 }
 
+impl<'de> Deserialize<'de> for Address {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let bytes = ByteBuf::deserialize(deserializer)?.into_vec();
+        let len = bytes.len();
+        match bytes.try_into() {
+            Ok(addr) => Ok(Self(addr)),
+            Err(_) => Err(D::Error::invalid_length(len, &"32 bytes")),
+        }
+    }
+}
+
 impl Address {
     pub fn new(hash: crypto::CryptoHash) -> Self {
         Self(hash.0)
-- 
2.43.0


From d351607ec20307dac211f8c2a268a00d471a4256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 10/31] fix: decode signed transactions whose empty signature
 was omitted

---
 src/data/transactions/signed_tx.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/transactions/signed_tx.rs b/src/data/transactions/signed_tx.rs
index be6b69b..8d69440 100644
--- a/src/data/transactions/signed_tx.rs
+++ b/src/data/transactions/signed_tx.rs
@@ -16,13 +16,17 @@ fn is_empty(s: &crypto::Signature) -> bool {
     s.to_bytes() == [0; crypto::SIGNATURE_LENGTH]
 }
 
+fn empty_sig() -> crypto::Signature {
+    crypto::Signature::new([0; crypto::SIGNATURE_LENGTH])
+}
+
 /// Wraps a transaction and a signature.
 /// It exposes a `verify()` method that verifies the signature
 /// and checks that the underlying transaction is well-formed.
 // TODO: update this documentation now that there's multisig
 #[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub struct SignedTx {
-    #[serde(skip_serializing_if = "is_empty")]
+    #[serde(default = "empty_sig", skip_serializing_if = "is_empty")]
     pub sig: crypto::Signature,
     #[serde(default, skip_serializing_if = "is_default")]
     pub msig: Option<crypto::MultisigSignature>,
-- 
2.43.0


From 336a3b831b830b23cfc62daa70e01969deacbf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 11/31] fix: encode evaluation deltas in key order, so that all
 nodes commit to the same bytes

---
 src/data/basics/teal.rs       | 4 ++--
 src/data/transactions/teal.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data/basics/teal.rs b/src/data/basics/teal.rs
index 542a050..203cb9e 100644
--- a/src/data/basics/teal.rs
+++ b/src/data/basics/teal.rs
@@ -1,7 +1,7 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 
 use data_encoding::HEXLOWER;
@@ -45,7 +45,7 @@ impl ValueDelta {
 /// Map from key/value store keys to `ValueDelta`s, indicating what should happen for that key.
 //msgp:allocbound StateDelta config.MaxStateDeltaKeys
 #[derive(Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
-pub struct StateDelta(HashMap<String, ValueDelta>);
+pub struct StateDelta(BTreeMap<String, ValueDelta>);
 
 /*
 /// Equal checks whether two StateDeltas are equal. We don't check for nilness
diff --git a/src/data/transactions/teal.rs b/src/data/transactions/teal.rs
index 3444e8c..2450fdf 100644
--- a/src/data/transactions/teal.rs
+++ b/src/data/transactions/teal.rs
@@ -1,7 +1,7 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use serde::{Deserialize, Serialize};
 
@@ -16,7 +16,7 @@ pub struct EvalDelta {
 
     /// When decoding EvalDeltas, the integer key represents an offset into
     /// `[txn.Sender, txn.Accounts[0], txn.Accounts[1], ...]`.
-    pub local_deltas: HashMap<u64, basics::StateDelta>,
+    pub local_deltas: BTreeMap<u64, basics::StateDelta>,
 
     pub logs: Vec<String>,
 
-- 
2.43.0


From 994836921b27d4deefa1be090a4721144aeece36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 12/31] fix: include the upgrade state in the encoding and
 digest of block headers

---
 src/data/bookkeeping/block.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index f8602d9..f0201b2 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -96,7 +96,6 @@ pub struct BlockHeader {
     /// Once a block proposer determines its UpgradeVote, then UpdateState
     /// is updated deterministically based on the previous UpdateState and
     /// the new block's UpgradeVote.
-    #[serde(skip)]
     pub upgrade_state: UpgradeState,
     pub upgrade_vote: UpgradeVote,
 
@@ -155,7 +154,7 @@ pub struct UpgradeVote {
 /// strictly speaking, computable from the history of all UpgradeVotes
 /// but we keep it in the block for explicitness and convenience
 /// (instead of materializing it separately, like balances).
-#[derive(Clone, Default, PartialEq, Eq)]
+#[derive(Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
 pub struct UpgradeState {
     pub current_protocol: protocol::ConsensusVersion,
     pub next_protocol: Option<protocol::ConsensusVersion>,
-- 
2.43.0


From 57d8adeca8379b512e3ce248230d84eeacd54071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 13/31] fix: leave the previous header alone when computing the
 next upgrade state

---
 src/data/bookkeeping/block.rs | 53 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index f0201b2..3bc7a75 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -231,7 +231,7 @@ impl Block {
 
     /// Constructs a new valid block with an empty payset and an unset seed.
     // TODO document panics or work around unwraps
-    pub fn new(prev: &mut BlockHeader) -> Block {
+    pub fn new(prev: &BlockHeader) -> Block {
         let (upgrade_vote, upgrade_state) = process_upgrade_params(prev).unwrap();
 
         let params = &config::CONSENSUS.0[&upgrade_state.current_protocol];
@@ -352,7 +352,7 @@ impl BlockHeader {
     ///
     /// # Errors
     // TODO document possible errors
-    pub fn pre_check(&self, prev: &mut BlockHeader) -> Result<(), InvalidBlock> {
+    pub fn pre_check(&self, prev: &BlockHeader) -> Result<(), InvalidBlock> {
         // check protocol
         let params = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
 
@@ -620,10 +620,12 @@ impl UpgradeState {
     /// that is, if UpgradePropose shows up when there is already an active proposal,
     /// or if UpgradeApprove shows up if there is no active proposal being voted on.
     fn apply_upgrade_vote(
-        &mut self,
+        &self,
         round: basics::Round,
         vote: &UpgradeVote,
     ) -> Result<UpgradeState, InvalidBlock> {
+        let mut next = self.clone();
+
         // Locate the config parameters for current protocol
         let params = &config::CONSENSUS.0[&self.current_protocol];
 
@@ -652,10 +654,10 @@ impl UpgradeState {
                 upgrade_delay = params.default_upgrade_wait_rounds;
             }
 
-            self.next_protocol = Some(vote.upgrade_propose);
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(round.0 + params.upgrade_vote_rounds);
-            self.next_protocol_switch_on =
+            next.next_protocol = Some(vote.upgrade_propose);
+            next.next_protocol_approvals = 0;
+            next.next_protocol_vote_before = basics::Round(round.0 + params.upgrade_vote_rounds);
+            next.next_protocol_switch_on =
                 basics::Round(round.0 + params.upgrade_vote_rounds + upgrade_delay);
         } else if vote.upgrade_delay != basics::Round(0) {
             return Err(InvalidBlock::NonZeroDelayWithoutProposal);
@@ -663,47 +665,46 @@ impl UpgradeState {
 
         // Apply approval of existing protocol upgrade
         if vote.upgrade_approve {
-            if self.next_protocol == Some(self.current_protocol) {
+            if next.next_protocol == Some(next.current_protocol) {
                 return Err(InvalidBlock::ApprovalNoneActive);
             }
 
-            if round >= self.next_protocol_vote_before {
+            if round >= next.next_protocol_vote_before {
                 return Err(InvalidBlock::ApprovalAfterDeadline(
                     round,
-                    self.next_protocol_vote_before,
+                    next.next_protocol_vote_before,
                 ));
             }
 
-            self.next_protocol_approvals += 1;
+            next.next_protocol_approvals += 1;
         }
 
         // Clear out failed proposal
-        if round == self.next_protocol_vote_before
-            && self.next_protocol_approvals < params.upgrade_threshold
+        if round == next.next_protocol_vote_before
+            && next.next_protocol_approvals < params.upgrade_threshold
         {
-            self.next_protocol = None;
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(0);
-            self.next_protocol_switch_on = basics::Round(0);
+            next.next_protocol = None;
+            next.next_protocol_approvals = 0;
+            next.next_protocol_vote_before = basics::Round(0);
+            next.next_protocol_switch_on = basics::Round(0);
         }
 
         // Switch over to new approved protocol
-        if round == self.next_protocol_switch_on {
-            self.current_protocol = self.next_protocol.unwrap();
-            self.next_protocol = None;
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(0);
-            self.next_protocol_switch_on = basics::Round(0);
+        if round == next.next_protocol_switch_on {
+            next.current_protocol = next.next_protocol.unwrap();
+            next.next_protocol = None;
+            next.next_protocol_approvals = 0;
+            next.next_protocol_vote_before = basics::Round(0);
+            next.next_protocol_switch_on = basics::Round(0);
         }
 
-        Ok(self.clone())
+        Ok(next.clone())
     }
 }
 
 /// Determines our upgrade vote, applies it, and returns the generated `UpgradeVote` and the new `UpgradeState`.
-// TODO should `prev` be mut, ref, or mut ref
 pub fn process_upgrade_params(
-    prev: &mut BlockHeader,
+    prev: &BlockHeader,
 ) -> Result<(UpgradeVote, UpgradeState), InvalidBlock> {
     // Find parameters for current protocol; panic if not supported
     let prev_params = &config::CONSENSUS.0[&prev.upgrade_state.current_protocol];
-- 
2.43.0


From 7a71c640cbe7ba6e713d78a7cf84cbb094a3c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 14/31] fix: tell whether an upgrade proposal is active by
 whether there is a next protocol

---
 src/data/bookkeeping/block.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 3bc7a75..41f250b 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -631,7 +631,7 @@ impl UpgradeState {
 
         // Apply proposal of upgrade to new protocol
         if vote.upgrade_propose != self.current_protocol {
-            if self.next_protocol != Some(self.current_protocol) {
+            if self.next_protocol.is_some() {
                 return Err(InvalidBlock::CompetingProposal);
             }
 
@@ -665,7 +665,7 @@ impl UpgradeState {
 
         // Apply approval of existing protocol upgrade
         if vote.upgrade_approve {
-            if next.next_protocol == Some(next.current_protocol) {
+            if next.next_protocol.is_none() {
                 return Err(InvalidBlock::ApprovalNoneActive);
             }
 
@@ -710,7 +710,11 @@ pub fn process_upgrade_params(
     let prev_params = &config::CONSENSUS.0[&prev.upgrade_state.current_protocol];
 
     // Decide on the votes for protocol upgrades
-    let mut upgrade_vote = UpgradeVote::default();
+    // (proposing the current protocol stands for not proposing an upgrade)
+    let mut upgrade_vote = UpgradeVote {
+        upgrade_propose: prev.upgrade_state.current_protocol,
+        ..UpgradeVote::default()
+    };
 
     // If there is no upgrade proposal, see if we can make one
     if prev.upgrade_state.next_protocol.is_none() {
-- 
2.43.0


From 7daac6057a42d64c9fd9c63cadd6866a5cea12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 15/31] fix: hash a credential as often as its weight for tie
 breaking

---
 src/data/committee/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index fe2db50..7a0f178 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -170,7 +170,7 @@ impl Credential {
         // significant disadvantage because UnauthenticatedCredential.Verify
         // wants the hash to be large but tiebreaking between proposals wants
         // the hash to be small.
-        for i in 1..self.weight {
+        for i in 1..=self.weight {
             let h: crypto::CryptoHash;
             if self.domain_separation_enabled {
                 self.hashable.as_mut().unwrap().iter = i;
-- 
2.43.0


From e64438186841bc146f94b9fd0ea6a7a4079de711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 16/31] fix: let the VRF output contribute to the hash of a
 credential

---
 src/crypto/vrf.rs                | 20 +++++++++++++++++++-
 src/data/committee/credential.rs |  1 -
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index aa0477e..8e1dfe2 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -15,7 +15,8 @@ use curve25519_dalek::{
 use data_encoding::BASE64;
 use ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey};
 use generic_array::GenericArray;
-use serde::{Deserialize, Serialize};
+use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
+use serde_bytes::ByteBuf;
 use sha2::{Digest, Sha512};
 use thiserror::Error;
 
@@ -196,6 +197,23 @@ impl AsRef<[u8]> for VrfProof {
     }
 }
 
+impl Serialize for VrfOutput {
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        serializer.serialize_bytes(&self.0)
+    }
+}
+
+impl<'de> Deserialize<'de> for VrfOutput {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let bytes = ByteBuf::deserialize(deserializer)?.into_vec();
+        let len = bytes.len();
+        match bytes.try_into() {
+            Ok(out) => Ok(Self(out)),
+            Err(_) => Err(D::Error::invalid_length(len, &"64 bytes")),
+        }
+    }
+}
+
 impl Default for VrfOutput {
     fn default() -> Self {
         VrfOutput([0; 64])
diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index 7a0f178..c88cb66 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -49,7 +49,6 @@ pub struct Credential {
 #[derive(Serialize, Deserialize)]
 struct HashableCredential {
     //_struct struct{}         `codec:",omitempty,omitemptyarray"`
-    #[serde(skip)]
     raw_out: crypto::VrfOutput,
     member: basics::Address,
     iter: u64,
-- 
2.43.0


From b4ebd0d682af72312c74919485f78aff5f375c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 17/31] fix: reject trie elements of a different length when
 adding them

---
 src/crypto/merkletrie/trie.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto/merkletrie/trie.rs b/src/crypto/merkletrie/trie.rs
index ff0e65e..550d1df 100644
--- a/src/crypto/merkletrie/trie.rs
+++ b/src/crypto/merkletrie/trie.rs
@@ -85,6 +85,9 @@ impl Trie {
             self.element_length = d.len() as u32;
             return Ok(true);
         }
+        if d.len() != self.element_length as usize {
+            return Err(TrieError::ElementLengthMismatch);
+        }
 
         let pnode = self.cache.get_node(self.root.unwrap())?;
         if pnode.find(&mut self.cache, d)? {
-- 
2.43.0


From 33c6d5ea677e19b2585dcb79f92c928d4a3c0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 18/31] fix: fail to decode trie nodes which claim a longer
 hash than there is data

---
 src/crypto/merkletrie/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto/merkletrie/node.rs b/src/crypto/merkletrie/node.rs
index 4a70297..56cce27 100644
--- a/src/crypto/merkletrie/node.rs
+++ b/src/crypto/merkletrie/node.rs
@@ -236,6 +236,9 @@ impl Node {
         let mut cursor = std::io::Cursor::new(buf);
         let mut n = Node::default();
         let hash_length = cursor.read_varint().ok()?;
+        if hash_length > buf.len() {
+            return None;
+        }
         n.hash = vec![0; hash_length];
         cursor.read_exact(&mut n.hash).ok()?;
         let mut is_inner = 0_u8;
-- 
2.43.0


From 6993b836106d1d1c062b06f36db3660ea795a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 19/31] fix: leave the previous header alone when computing the
 next upgrade state (return it without a copy)

---
 src/data/bookkeeping/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 41f250b..c5bce5c 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -698,7 +698,7 @@ impl UpgradeState {
             next.next_protocol_switch_on = basics::Round(0);
         }
 
-        Ok(next.clone())
+        Ok(next)
     }
 }
 
-- 
2.43.0


From 39b43aed71942ab05475c0511878ee4c6947a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 20/31] fix: derive the root key pair from its seed instead of
 panicking

---
 src/data/account.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 5d145b2..b2cc1d8 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -74,7 +74,9 @@ impl Root {
 
     /// Instantiate a key based on the given seed.
     fn import(seed: [u8; 32]) -> Result<Root, Error> {
-        let kp = crypto::Keypair::from_bytes(&seed).unwrap();
+        let secret = ed25519_dalek::SecretKey::from_bytes(&seed).unwrap();
+        let public = (&secret).into();
+        let kp = crypto::Keypair { secret, public };
         let raw = protocol::encode(&kp);
 
         KEY_STORE.insert("root", raw)?;
-- 
2.43.0


From 842d71afd6d2e9c1f4d9ec7c1d936014f0f94bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 21/31] fix: delete old keys of accounts without compact cert
 state instead of panicking

---
 src/data/account_manager.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/data/account_manager.rs b/src/data/account_manager.rs
index 2bcdbe2..7159379 100644
--- a/src/data/account_manager.rs
+++ b/src/data/account_manager.rs
@@ -110,20 +110,20 @@ impl AccountManager {
             // We need a key for round r+1 for agreement.
             let mut next_round = latest_header.round + basics::Round(1);
 
-            if latest_header.compact_certs[&protocol::CompactCertType::Basic].compactcert_next_round
-                > basics::Round(0)
-            {
+            let next_cc_round = latest_header
+                .compact_certs
+                .get(&protocol::CompactCertType::Basic)
+                .map_or(basics::Round(0), |cc| cc.compactcert_next_round);
+            if next_cc_round > basics::Round(0) {
                 // We need a key for the next compact cert round.
                 // This would be CompactCertNextRound+1 (+1 because compact
                 // cert code uses the next round's ephemeral key), except
                 // if we already used that key to produce a signature (as
                 // reported in ccSigs).
-                let mut next_cc = latest_header.compact_certs[&protocol::CompactCertType::Basic]
-                    .compactcert_next_round
-                    + basics::Round(1);
-                if cc_sigs.get(&part.parent).unwrap() >= &next_cc {
-                    next_cc = *cc_sigs.get(&part.parent).unwrap()
-                        + basics::Round(latest_proto.compact_cert_rounds + 1);
+                let mut next_cc = next_cc_round + basics::Round(1);
+                let last_sig = cc_sigs.get(&part.parent).copied().unwrap_or_default();
+                if last_sig >= next_cc {
+                    next_cc = last_sig + basics::Round(latest_proto.compact_cert_rounds + 1);
                 }
 
                 if next_cc < next_round {
-- 
2.43.0


From 038def7e38b763cbff2da96a898a8c63586336a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 22/31] fix: recognise root key files, and strip exactly one
 key file suffix

---
 src/config/keyfile.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/config/keyfile.rs b/src/config/keyfile.rs
index ca2a63e..cddb983 100644
--- a/src/config/keyfile.rs
+++ b/src/config/keyfile.rs
@@ -33,7 +33,7 @@ pub fn matches_part_key_filename(account: &str, filename: &str) -> bool {
 
 /// Returns true iff the given filename is a valid root key filename.
 pub fn is_root_key_filename(filename: &str) -> bool {
-    let n = account_name_from_part_key_filename(filename);
+    let n = account_name_from_root_key_filename(filename);
     matches_root_key_filename(&n, filename)
 }
 
@@ -47,7 +47,10 @@ pub fn is_part_key_filename(filename: &str) -> bool {
 ///
 /// If filename is not a valid root key filename, this returns the filename unchanged.
 pub fn account_name_from_root_key_filename(filename: &str) -> String {
-    filename.trim_end_matches(".rootkey").to_owned()
+    filename
+        .strip_suffix(".rootkey")
+        .unwrap_or(filename)
+        .to_owned()
 }
 
 /// Returns the account name given a participation key filename.
@@ -56,7 +59,10 @@ pub fn account_name_from_root_key_filename(filename: &str) -> String {
 pub fn account_name_from_part_key_filename(filename: &str) -> String {
     if let Some((first, last)) = extract_part_valid_interval(filename) {
         let suffix = format!(".{}.{}.partkey", first.0, last.0);
-        filename.trim_end_matches(&suffix).to_owned()
+        filename
+            .strip_suffix(&suffix)
+            .unwrap_or(filename)
+            .to_owned()
     } else {
         filename.to_owned()
     }
-- 
2.43.0


From 311e2ecb19b3caa7419b2035be7f3b9bc4ff5a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 23/31] fix: merge consensus configurations that delete several
 versions

---
 src/config/consensus.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/config/consensus.rs b/src/config/consensus.rs
index 08e3ba0..1e33732 100644
--- a/src/config/consensus.rs
+++ b/src/config/consensus.rs
@@ -526,18 +526,10 @@ impl ConsensusProtocols {
             if params.approved_upgrades.is_empty() {
                 // if we were provided with an empty ConsensusParams,
                 // delete the existing reference to this consensus version
-                for (ver, par) in &self.0 {
-                    if *ver == version {
-                        static_consensus.0.remove(ver);
-                    } else if par.approved_upgrades.contains_key(&version) {
-                        // delete upgrade to deleted version
-                        static_consensus
-                            .0
-                            .get_mut(ver)
-                            .unwrap()
-                            .approved_upgrades
-                            .remove(&version);
-                    }
+                static_consensus.0.remove(&version);
+                for par in static_consensus.0.values_mut() {
+                    // delete upgrade to deleted version
+                    par.approved_upgrades.remove(&version);
                 }
             } else {
                 // need to add/update entry
-- 
2.43.0


From 3f335f2e10cde26dff9250c74992dc7a0cab466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 24/31] Verification hooks: wrappers for private items under
 cfg(verif)

---
 src/config/mod.rs                    | 22 +++++++
 src/crypto/mnemonic.rs               | 21 +++++++
 src/crypto/multisig.rs               | 64 ++++++++++++++++++++
 src/crypto/vrf.rs                    | 16 +++++
 src/data/account.rs                  |  8 +++
 src/data/account_manager.rs          | 35 +++++++++++
 src/data/basics/teal.rs              | 24 ++++++++
 src/data/basics/units.rs             | 12 ++++
 src/data/basics/user_balance.rs      | 54 +++++++++++++++++
 src/data/bookkeeping/block.rs        | 20 +++++++
 src/data/bookkeeping/genesis.rs      | 32 ++++++++++
 src/data/committee/credential.rs     | 87 ++++++++++++++++++++++++++++
 src/data/committee/sortition.rs      |  9 +++
 src/data/signed_tx_group.rs          |  6 ++
 src/data/transactions/application.rs | 12 ++++
 src/data/transactions/transaction.rs | 45 ++++++++++++++
 16 files changed, 467 insertions(+)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 09e2001..aa38e4f 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -708,3 +708,25 @@ pub fn get_default_config_file_path() -> io::Result<PathBuf> {
         )),
     }
 }
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+pub mod verif_keyfile {
+    pub use super::keyfile::*;
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl Local {
+    pub fn verif_load(&mut self, content: &str) -> io::Result<()> {
+        self.load(content)
+    }
+
+    pub fn verif_dns_bootstrap(&self, network: &str) -> String {
+        self.dns_bootstrap(network)
+    }
+
+    pub fn verif_dns_bootstrap_array(&self, network: &str) -> Vec<String> {
+        self.dns_bootsrap_array(network)
+    }
+}
diff --git a/src/crypto/mnemonic.rs b/src/crypto/mnemonic.rs
index 7fff7e6..3c9f48c 100644
--- a/src/crypto/mnemonic.rs
+++ b/src/crypto/mnemonic.rs
@@ -115,7 +115,10 @@ pub fn mnemonic_to_key(mnemonic: &[String]) -> Result<[u8; KEY_LEN_BYTES], Mnemo
 
 fn load_mnemonic_file() -> Vec<String> {
     let mut wordlist = Vec::new();
+    #[cfg(not(verif))]
     let f = File::open("./data/mnemonics_wordlist.txt").unwrap();
+    #[cfg(verif)]
+    let f = &include_bytes!("../../data/mnemonics_wordlist.txt")[..];
 
     for word in BufReader::new(f).lines() {
         if word.is_err() {
@@ -188,6 +191,24 @@ fn to_base8(base11_data: &[u32]) -> Vec<u8> {
     out
 }
 
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+pub fn verif_to_base11(base8_data: &[u8]) -> Vec<u32> {
+    to_base11(base8_data)
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+pub fn verif_to_base8(base11_data: &[u32]) -> Vec<u8> {
+    to_base8(base11_data)
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+pub fn verif_checksum(data: &[u8]) -> u32 {
+    checksum(data)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/crypto/multisig.rs b/src/crypto/multisig.rs
index ca46aa3..5f580d7 100644
--- a/src/crypto/multisig.rs
+++ b/src/crypto/multisig.rs
@@ -345,6 +345,70 @@ impl MultisigSignature {
     }
 }
 
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl MultisigAddr {
+    pub fn verif_new(addr: [u8; 32]) -> Self {
+        Self(addr)
+    }
+
+    pub fn verif_bytes(&self) -> [u8; 32] {
+        self.0
+    }
+
+    pub fn verif_from_pks(
+        version: u8,
+        threshold: u8,
+        pks: &[PublicKey],
+    ) -> Result<Self, MultisigError> {
+        Self::from_pks(version, threshold, pks)
+    }
+
+    pub fn verif_from_subsigs(
+        version: u8,
+        threshold: u8,
+        subsigs: &[MultisigSubsig],
+    ) -> Result<Self, MultisigError> {
+        Self::from_subsigs(version, threshold, subsigs)
+    }
+
+    pub fn verif_sign(
+        &self,
+        msg: &[u8],
+        version: u8,
+        threshold: u8,
+        pks: &[PublicKey],
+        kp: &Keypair,
+    ) -> Result<MultisigSignature, MultisigError> {
+        self.sign(msg, version, threshold, pks, kp)
+    }
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl MultisigSignature {
+    pub fn verif_assemble(unisig: &[Self]) -> Result<Self, MultisigError> {
+        Self::assemble(unisig)
+    }
+
+    pub fn verif_batch_verify(
+        &self,
+        msg: &[u8],
+        addr: &MultisigAddr,
+        batch_verifier: &mut BatchVerifier,
+    ) -> Result<bool, MultisigError> {
+        self.batch_verify(msg, addr, batch_verifier)
+    }
+
+    pub fn verif_add_sigs(&mut self, unisigs: Vec<Self>) -> Result<(), MultisigError> {
+        self.add_sigs(unisigs)
+    }
+
+    pub fn verif_merge(&self, other: &MultisigSignature) -> Result<Self, MultisigError> {
+        self.merge(other)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index 8e1dfe2..8bc5de5 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -301,6 +301,22 @@ fn hash_points(points: &[EdwardsPoint]) -> Scalar {
     Scalar::from_bytes_mod_order(out_bytes)
 }
 
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl VrfProof {
+    pub fn verif_new(bytes: [u8; 80]) -> Self {
+        Self(bytes)
+    }
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl VrfPublicKey {
+    pub fn verif_new(bytes: [u8; 32]) -> Self {
+        Self(bytes)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/data/account.rs b/src/data/account.rs
index b2cc1d8..1848516 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -297,3 +297,11 @@ impl Participation {
     }
     */
 }
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl Root {
+    pub fn verif_import(seed: [u8; 32]) -> Result<Root, Error> {
+        Self::import(seed)
+    }
+}
diff --git a/src/data/account_manager.rs b/src/data/account_manager.rs
index 7159379..4abb381 100644
--- a/src/data/account_manager.rs
+++ b/src/data/account_manager.rs
@@ -169,3 +169,38 @@ impl PartialEq for ParticipationKeyIdentity {
 }
 
 impl Eq for ParticipationKeyIdentity {}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+#[derive(Default)]
+pub struct VerifAccountManager(AccountManager);
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl VerifAccountManager {
+    pub fn keys(&self, round: basics::Round) -> Vec<&account::Participation> {
+        self.0.keys(round)
+    }
+
+    pub fn has_live_keys(&self, from: basics::Round, to: basics::Round) -> bool {
+        self.0.has_live_keys(from, to)
+    }
+
+    pub fn add_participation(&mut self, participation: account::Participation) -> bool {
+        self.0.add_participation(participation)
+    }
+
+    pub fn delete_old_keys(
+        &mut self,
+        latest_header: bookkeeping::BlockHeader,
+        cc_sigs: HashMap<basics::Address, basics::Round>,
+        agreement_proto: config::ConsensusParams,
+    ) {
+        self.0
+            .delete_old_keys(latest_header, cc_sigs, agreement_proto)
+    }
+
+    pub fn all(&self) -> Vec<&account::Participation> {
+        self.0.part_keys.values().collect()
+    }
+}
diff --git a/src/data/basics/teal.rs b/src/data/basics/teal.rs
index 203cb9e..3b4ce8c 100644
--- a/src/data/basics/teal.rs
+++ b/src/data/basics/teal.rs
@@ -250,3 +250,27 @@ impl TealKeyValue {
         schema
     }
 }
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl ValueDelta {
+    pub fn verif_to_teal_value(&self) -> Option<TealValue> {
+        self.to_teal_value()
+    }
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl StateDelta {
+    pub fn verif_new(entries: Vec<(String, ValueDelta)>) -> Self {
+        Self(entries.into_iter().collect())
+    }
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl TealKeyValue {
+    pub fn verif_new(entries: Vec<(String, TealValue)>) -> Self {
+        Self(entries.into_iter().collect())
+    }
+}
diff --git a/src/data/basics/units.rs b/src/data/basics/units.rs
index 3be9100..1f0eed4 100644
--- a/src/data/basics/units.rs
+++ b/src/data/basics/units.rs
@@ -100,6 +100,18 @@ impl Add for Round {
     }
 }
 
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl Round {
+    pub fn verif_sub_capped(&self, r: Self) -> Self {
+        self.sub_capped(r)
+    }
+
+    pub fn verif_round_up_to_multiple_of(&self, r: Self) -> Self {
+        self.round_up_to_multiple_of(r)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 8936870..c7f6014 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -524,6 +524,60 @@ impl Hashable for BalanceRecord {
     }
 }
 
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl AccountData {
+    pub fn verif_new(status: Status, algos: MicroAlgos) -> Self {
+        Self::new(status, algos)
+    }
+
+    pub fn verif_money(
+        &self,
+        proto: &config::ConsensusParams,
+        rewards_level: u64,
+    ) -> (MicroAlgos, MicroAlgos) {
+        self.money(proto, rewards_level)
+    }
+
+    pub fn verif_pending_rewards(
+        &self,
+        proto: &config::ConsensusParams,
+        micro_algos: MicroAlgos,
+        rewards_base: u64,
+        rewards_level: u64,
+    ) -> MicroAlgos {
+        self.pending_rewards(proto.clone(), micro_algos, rewards_base, rewards_level)
+    }
+
+    pub fn verif_with_updated_rewards(
+        &self,
+        proto: &config::ConsensusParams,
+        rewards_level: u64,
+    ) -> AccountData {
+        self.with_updated_rewards(proto, rewards_level)
+    }
+
+    pub fn verif_min_balance(&self, proto: &config::ConsensusParams) -> MicroAlgos {
+        self.min_balance(proto)
+    }
+
+    pub fn verif_key_dilution(&self, proto: &config::ConsensusParams) -> u64 {
+        self.key_dilution(proto.clone())
+    }
+
+    pub fn verif_normalized_online_balance(&self, proto: &config::ConsensusParams) -> u64 {
+        self.normalized_online_balance(proto.clone())
+    }
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl AppIndex {
+    pub fn verif_address(&self) -> Address {
+        self.address()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index c5bce5c..bf47094 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -777,3 +777,23 @@ impl Hashable for BlockHeader {
         (protocol::BLOCK_HEADER, protocol::encode(&self))
     }
 }
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl Block {
+    pub fn verif_contents_match_header(&self) -> bool {
+        self.contents_match_header()
+    }
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl UpgradeState {
+    pub fn verif_apply_upgrade_vote(
+        &self,
+        round: basics::Round,
+        vote: &UpgradeVote,
+    ) -> Result<UpgradeState, InvalidBlock> {
+        self.apply_upgrade_vote(round, vote)
+    }
+}
diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 12b0b70..f8c0460 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -193,3 +193,35 @@ impl GenesisBalances {
         }
     }
 }
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+pub fn verif_create_genesis_block(
+    proto: protocol::ConsensusVersion,
+    balances: HashMap<basics::Address, basics::AccountData>,
+    fee_sink: basics::Address,
+    rewards_pool: basics::Address,
+    timestamp: u64,
+    id: &str,
+    hash: crypto::CryptoHash,
+) -> Result<Block, ()> {
+    let gen_bal = GenesisBalances::with_timestamp(balances, fee_sink, rewards_pool, timestamp);
+    Genesis::create_block(proto, gen_bal, id, hash)
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+pub fn verif_genesis_id(network: &str, schema_id: &str) -> String {
+    Genesis {
+        schema_id: schema_id.to_owned(),
+        network: network.to_owned(),
+        proto: protocol::CURRENT_CONSENSUS_VERSION,
+        allocation: Vec::new(),
+        rewards_pool: String::new(),
+        fee_sink: String::new(),
+        timestamp: 0,
+        comment: String::new(),
+        dev_mode: false,
+    }
+    .id()
+}
diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index c88cb66..061e22b 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -229,3 +229,90 @@ impl Hashable for HashableCredential {
         (protocol::CREDENTIAL, protocol::encode(&self))
     }
 }
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl UnauthenticatedCredential {
+    pub fn verif_new(secrets: &crypto::VrfKeypair, sel: &impl Selector) -> Self {
+        Self::new(secrets, sel)
+    }
+
+    pub fn verif_from_proof(proof: crypto::VrfProof) -> Self {
+        Self { proof }
+    }
+
+    pub fn verif_verify<S: Selector>(
+        self,
+        proto: &config::ConsensusParams,
+        record: super::BalanceRecord,
+        selector: S,
+        total_money: basics::MicroAlgos,
+    ) -> Result<Credential, Error> {
+        self.verify(
+            proto,
+            &Membership {
+                record,
+                selector,
+                total_money,
+            },
+        )
+    }
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl Credential {
+    pub fn verif_new(
+        weight: u64,
+        vrf_out: crypto::CryptoHash,
+        hashable: Option<(crypto::VrfOutput, basics::Address)>,
+        proof: crypto::VrfProof,
+    ) -> Self {
+        Self {
+            weight,
+            vrf_out,
+            domain_separation_enabled: hashable.is_some(),
+            hashable: hashable.map(|(raw_out, member)| HashableCredential {
+                raw_out,
+                member,
+                iter: 0,
+            }),
+            inner: UnauthenticatedCredential { proof },
+        }
+    }
+
+    pub fn verif_weight(&self) -> u64 {
+        self.weight
+    }
+
+    pub fn verif_vrf_out(&self) -> crypto::CryptoHash {
+        self.vrf_out.clone()
+    }
+
+    pub fn verif_selected(&self) -> bool {
+        self.selected()
+    }
+
+    pub fn verif_lowest_output_digest(&mut self) -> crypto::CryptoHash {
+        self.lowest_output_digest()
+    }
+
+    pub fn verif_lt(&mut self, other: &mut Credential) -> bool {
+        self.lt(other)
+    }
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+pub fn verif_hashable_credential_hash_rep(
+    raw_out: crypto::VrfOutput,
+    member: basics::Address,
+    iter: u64,
+) -> Vec<u8> {
+    HashableCredential {
+        raw_out,
+        member,
+        iter,
+    }
+    .hash_rep()
+}
diff --git a/src/data/committee/sortition.rs b/src/data/committee/sortition.rs
index 5e70a73..2146bb7 100644
--- a/src/data/committee/sortition.rs
+++ b/src/data/committee/sortition.rs
@@ -23,6 +23,11 @@ pub fn select(
     expected_size: f64,
     vrf_output: &crypto::CryptoHash,
 ) -> u64 {
+    #[cfg(verif)]
+    if let Some(oracle) = unsafe { VERIF_SELECT } {
+        return oracle(money, total_money, expected_size, vrf_output);
+    }
+
     let p = expected_size / total_money as f64;
     let t = BigInt::from_bytes_be(Sign::Plus, &vrf_output.0);
 
@@ -46,6 +51,10 @@ fn sortition_binomial_cdf_walk(n: u64, p: f64, ratio: f64) -> u64 {
         .unwrap_or(n)
 }
 
+/// Lets a verification harness decide the outcome of `select`, compiled only under `--cfg verif`.
+#[cfg(verif)]
+pub static mut VERIF_SELECT: Option<fn(u64, u64, f64, &crypto::CryptoHash) -> u64> = None;
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/data/signed_tx_group.rs b/src/data/signed_tx_group.rs
index 73366d7..e125655 100644
--- a/src/data/signed_tx_group.rs
+++ b/src/data/signed_tx_group.rs
@@ -45,3 +45,9 @@ impl SignedTxVec {
 /// Represents an invalid GroupCounter value.
 /// It's being used to indicate the absence of an entry within a Vec<SignedTxGroup> with a particular GroupCounter value.
 const INVALID_SIGNED_TX_GROUP_COUNTER: u64 = u64::MAX;
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+pub fn verif_signed_tx_vec_id(txs: Vec<SignedTx>) -> TxID {
+    SignedTxVec(txs).id()
+}
diff --git a/src/data/transactions/application.rs b/src/data/transactions/application.rs
index edd80a6..efdeef1 100644
--- a/src/data/transactions/application.rs
+++ b/src/data/transactions/application.rs
@@ -236,3 +236,15 @@ impl AppCallFields {
         }
     }
 }
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl AppCallFields {
+    pub fn verif_address_by_index(
+        &self,
+        account_idx: u64,
+        sender: basics::Address,
+    ) -> Result<basics::Address, ()> {
+        self.address_by_index(account_idx, sender)
+    }
+}
diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index c51c8bb..23be2e7 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -612,3 +612,48 @@ impl TxContext for ExplicitTxContext {
         self.gen_hash.clone()
     }
 }
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl Header {
+    pub fn verif_alive(
+        &self,
+        round: basics::Round,
+        proto: &config::ConsensusParams,
+        genesis_id: &str,
+        genesis_hash: CryptoHash,
+    ) -> Result<(), InvalidTx> {
+        self.alive(&ExplicitTxContext {
+            explicit_round: round,
+            proto: proto.clone(),
+            gen_id: genesis_id.to_owned(),
+            gen_hash: genesis_hash,
+        })
+    }
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl Transaction {
+    pub fn verif_match_address(&self, addr: &basics::Address, spec: &SpecialAddresses) -> bool {
+        self.match_address(addr, spec)
+    }
+
+    pub fn verif_relevant_addrs(&self, spec: &SpecialAddresses) -> Vec<basics::Address> {
+        self.relevant_addrs(spec)
+    }
+
+    pub fn verif_tx_amount(&self) -> basics::MicroAlgos {
+        self.tx_amount()
+    }
+
+    pub fn verif_get_receiver_address(&self) -> Option<basics::Address> {
+        self.get_receiver_address()
+    }
+}
+
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+pub fn verif_tx_group_hash_rep(tx_group_hashes: Vec<CryptoHash>) -> Vec<u8> {
+    TxGroup { tx_group_hashes }.hash_rep()
+}
-- 
2.43.0


From 9c4a6c07738828a32fac0e98b11427efc1c64017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 25/31] fix: restoring absent participation keys reports
 NotFound instead of panicking

---
 src/data/account.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 1848516..c208fb0 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -178,20 +178,18 @@ impl Participation {
     }
 
     pub fn restore() -> Result<Self, Error> {
-        let raw_parent = KEY_STORE.get("part-parent")?;
-        let raw_vrf = KEY_STORE.get("part-vrf")?;
-        let raw_voting = KEY_STORE.get("part-voting")?;
-        let raw_first_valid = KEY_STORE.get("part-first_valid")?;
-        let raw_last_valid = KEY_STORE.get("part-last_valid")?;
-        let raw_key_dilution = KEY_STORE.get("part-key_dilution")?;
-
-        let parent = raw_parent.unwrap().as_ref().try_into().unwrap();
-        let vrf = protocol::decode(&raw_vrf.unwrap())?;
-        let voting = protocol::decode(&raw_voting.unwrap())?;
-        let first_valid = u64::from_be_bytes(raw_first_valid.unwrap().as_ref().try_into().unwrap());
-        let last_valid = u64::from_be_bytes(raw_last_valid.unwrap().as_ref().try_into().unwrap());
-        let key_dilution =
-            u64::from_be_bytes(raw_key_dilution.unwrap().as_ref().try_into().unwrap());
+        let load = |key: &str| KEY_STORE.get(key)?.ok_or(Error::NotFound);
+        let load_u64 = |key: &str| -> Result<u64, Error> {
+            let raw = load(key)?;
+            Ok(u64::from_be_bytes(raw.as_ref().try_into().unwrap()))
+        };
+
+        let parent = load("part-parent")?.as_ref().try_into().unwrap();
+        let vrf = protocol::decode(&load("part-vrf")?)?;
+        let voting = protocol::decode(&load("part-voting")?)?;
+        let first_valid = load_u64("part-first_valid")?;
+        let last_valid = load_u64("part-last_valid")?;
+        let key_dilution = load_u64("part-key_dilution")?;
 
         Ok(Self {
             parent: basics::Address(parent),
-- 
2.43.0


From 2324fa7834e479073f2e8b7341ff5f33f9d4a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 26/31] fix: persist participation keys atomically

---
 src/data/account.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index c208fb0..9ee3698 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -274,12 +274,15 @@ impl Participation {
         let voting = self.voting.snapshot();
         let voting_enc = protocol::encode(&voting);
 
-        KEY_STORE.insert("part-parent", &self.parent.0[..])?;
-        KEY_STORE.insert("part-vrf", vrf_enc)?;
-        KEY_STORE.insert("part-voting", voting_enc)?;
-        KEY_STORE.insert("part-first_valid", &self.first_valid.0.to_be_bytes()[..])?;
-        KEY_STORE.insert("part-last_valid", &self.last_valid.0.to_be_bytes()[..])?;
-        KEY_STORE.insert("part-key_dilution", &self.key_dilution.to_be_bytes()[..])?;
+        // A single batch, so that a crash leaves either all of these keys or none of them.
+        let mut batch = sled::Batch::default();
+        batch.insert("part-parent", &self.parent.0[..]);
+        batch.insert("part-vrf", vrf_enc);
+        batch.insert("part-voting", voting_enc);
+        batch.insert("part-first_valid", &self.first_valid.0.to_be_bytes()[..]);
+        batch.insert("part-last_valid", &self.last_valid.0.to_be_bytes()[..]);
+        batch.insert("part-key_dilution", &self.key_dilution.to_be_bytes()[..]);
+        KEY_STORE.apply_batch(batch)?;
         KEY_STORE.flush()?;
 
         Ok(())
-- 
2.43.0


From 770463beaa62ad0495ffb8a112517799058c7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:56 +0000
Subject: [PATCH 27/31] fix: reject VRF proofs for malformed public keys
 instead of panicking

---
 src/crypto/vrf.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index 8bc5de5..0d3522c 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -143,9 +143,10 @@ impl VrfPublicKey {
         }
 
         let (gamma, c, s) = decoded.unwrap();
+        let pk_point = self.to_point().ok_or(VrfError::InvalidProof)?;
         let hash_point = hash_to_curve(self, bytes);
 
-        let u = s * constants::ED25519_BASEPOINT_POINT - c * self.to_point();
+        let u = s * constants::ED25519_BASEPOINT_POINT - c * pk_point;
         let v = s * hash_point - c * gamma;
         let c_calculated = hash_points(&[hash_point, gamma, u, v]);
 
@@ -157,11 +158,9 @@ impl VrfPublicKey {
     }
 
     /// Converts the public key, which is a compressed point representation, to the curve point.
-    /// Panics if the public key does not correspond to a valid curve point.
-    fn to_point(&self) -> EdwardsPoint {
-        CompressedEdwardsY::from_slice(&self.0)
-            .decompress()
-            .unwrap()
+    /// Returns None if the public key does not correspond to a valid curve point.
+    fn to_point(&self) -> Option<EdwardsPoint> {
+        CompressedEdwardsY::from_slice(&self.0).decompress()
     }
 }
 
-- 
2.43.0


From 04f609290053e1cb41abbf58c55fb7db4cdb3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:29 +0000
Subject: [PATCH 28/31] fix: fail to commit to blocks with undecodable
 transactions instead of panicking

---
 src/crypto/merklearray/merkle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crypto/merklearray/merkle.rs b/src/crypto/merklearray/merkle.rs
index ca72f2c..5bc536f 100644
--- a/src/crypto/merklearray/merkle.rs
+++ b/src/crypto/merklearray/merkle.rs
@@ -42,7 +42,7 @@ impl Tree {
             .0
             .par_iter()
             .map(|stib| {
-                let stad = block.header.decode_signed_tx(stib).unwrap();
+                let stad = block.header.decode_signed_tx(stib).map_err(|_| ())?;
                 let txid = stad.tx.tx.id();
                 let stib = hash_obj(stib);
 
@@ -50,9 +50,9 @@ impl Tree {
                 buf[..HASH_LEN].copy_from_slice(&txid.0 .0);
                 buf[HASH_LEN..].copy_from_slice(&stib.0);
 
-                hash(&[protocol::TX_MERKLE_LEAF.as_bytes(), &buf].concat())
+                Ok(hash(&[protocol::TX_MERKLE_LEAF.as_bytes(), &buf].concat()))
             })
-            .collect();
+            .collect::<Result<_, ()>>()?;
 
         let mut tree = Self {
             levels: vec![Layer(leaves)],
-- 
2.43.0


From 8885e4676ab29d26efce7d3b8cb86d469a5d9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:31 +0000
Subject: [PATCH 29/31] fix: reject block headers of unsupported protocols
 instead of panicking

---
 src/data/bookkeeping/block.rs  | 6 +++++-
 src/data/bookkeeping/errors.rs | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index bf47094..33b3e7f 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -354,7 +354,11 @@ impl BlockHeader {
     // TODO document possible errors
     pub fn pre_check(&self, prev: &BlockHeader) -> Result<(), InvalidBlock> {
         // check protocol
-        let params = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let current_protocol = self.upgrade_state.current_protocol;
+        let params = config::CONSENSUS
+            .0
+            .get(&current_protocol)
+            .ok_or(InvalidBlock::UnsupportedProtocol(current_protocol))?;
 
         // check round
         let round = basics::Round(prev.round.0 + 1);
diff --git a/src/data/bookkeeping/errors.rs b/src/data/bookkeeping/errors.rs
index 7fc2aef..0be3ddd 100644
--- a/src/data/bookkeeping/errors.rs
+++ b/src/data/bookkeeping/errors.rs
@@ -5,6 +5,7 @@ use thiserror::Error;
 
 use crate::crypto::CryptoHash;
 use crate::data::basics;
+use crate::protocol;
 
 #[derive(Debug, PartialEq, Eq, Error)]
 pub enum InvalidBlock {
@@ -16,6 +17,8 @@ pub enum InvalidBlock {
         last_valid: basics::Round,
     },
 
+    #[error("protocol {0} not supported")]
+    UnsupportedProtocol(protocol::ConsensusVersion),
     #[error("block is for round {0}, expected round {1}")]
     WrongRound(basics::Round, basics::Round),
     #[error("block is following block with hash {0}, expected prev to be {1}")]
-- 
2.43.0


From 619e17c5aabdefe581b5b9d72d535a9e7beb52f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:51 +0000
Subject: [PATCH 30/31] Verification hooks: what one-time signature secrets
 still hold, under cfg(verif)

---
 src/crypto/ots.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/crypto/ots.rs b/src/crypto/ots.rs
index ce4002b..3ca0d44 100644
--- a/src/crypto/ots.rs
+++ b/src/crypto/ots.rs
@@ -373,6 +373,23 @@ impl Clone for EphemeralSubkey {
     }
 }
 
+/// Access for the verification harnesses, compiled only under `--cfg verif`.
+#[cfg(verif)]
+impl OTSSecrets {
+    /// The public halves of all secrets still held (whole batches, then offsets),
+    /// with the signatures that authenticate them.
+    pub fn verif_held(&self) -> (Vec<(PublicKey, Signature)>, Vec<(PublicKey, Signature)>) {
+        let list = |keys: &VecDeque<EphemeralSubkey>| {
+            keys.iter().map(|k| (k.kp.public, k.pk_sig_new)).collect()
+        };
+        (list(&self.batches), list(&self.offsets))
+    }
+
+    pub fn verif_offsets_pk2(&self) -> (PublicKey, Signature) {
+        (self.offsets_pk2, self.offsets_pk2_sig)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 64f4a02de4ec73a846cab70987d2f023d151b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:49 +0000
Subject: [PATCH 31/31] fix: merge consensus configurations independently of
 their order

---
 src/config/consensus.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/config/consensus.rs b/src/config/consensus.rs
index 1e33732..6b0830d 100644
--- a/src/config/consensus.rs
+++ b/src/config/consensus.rs
@@ -522,18 +522,21 @@ impl ConsensusProtocols {
     pub fn merge(&mut self, configurable_consensus: Self) -> Self {
         let mut static_consensus = self.clone();
 
-        for (version, params) in configurable_consensus.0 {
-            if params.approved_upgrades.is_empty() {
-                // if we were provided with an empty ConsensusParams,
-                // delete the existing reference to this consensus version
-                static_consensus.0.remove(&version);
-                for par in static_consensus.0.values_mut() {
-                    // delete upgrade to deleted version
-                    par.approved_upgrades.remove(&version);
-                }
-            } else {
-                // need to add/update entry
-                static_consensus.0.insert(version, params);
+        // an empty ConsensusParams stands for a version to be deleted
+        let (deleted, updated): (HashMap<_, _>, HashMap<_, _>) = configurable_consensus
+            .0
+            .into_iter()
+            .partition(|(_, params)| params.approved_upgrades.is_empty());
+
+        // need to add/update entries
+        static_consensus.0.extend(updated);
+
+        for version in deleted.keys() {
+            // delete the existing reference to this consensus version
+            static_consensus.0.remove(version);
+            for par in static_consensus.0.values_mut() {
+                // delete upgrade to deleted version
+                par.approved_upgrades.remove(version);
             }
         }
 
-- 
2.43.0

