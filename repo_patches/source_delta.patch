From 2a4e6f0778c2972e99047651873d5e4296ea8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 01/10] fix: random_u8_with_range overflows on the full range
 0..=255

The size of the range was computed in u8: 255 - 0 + 1 overflows (a panic in
debug builds, a division by zero in release builds).
---
 sdk/src/rnd.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/src/rnd.rs b/sdk/src/rnd.rs
index c98042c..db4c200 100644
--- a/sdk/src/rnd.rs
+++ b/sdk/src/rnd.rs
@@ -29,17 +29,17 @@ pub fn random_u8(bytes: &[u8; 32]) -> u8 {
 /// a value that falls within an evenly divisible range. If no such value is found,
 /// it falls back to a slightly biased approach using the last byte.
 pub fn random_u8_with_range(bytes: &[u8; 32], min_value: u8, max_value: u8) -> u8 {
-    let range = (max_value - min_value + 1) as u16;
-    let threshold = (256 / range * range) as u8;
+    let range = max_value as u16 - min_value as u16 + 1;
+    let threshold = 256 / range * range;
 
     // Try to find a byte that, when mapped, gives an unbiased result
     for &b in bytes.iter().rev() {
-        if b < threshold {
-            return min_value + (b % range as u8);
+        if (b as u16) < threshold {
+            return min_value + (b as u16 % range) as u8;
         }
     }
     // Fallback (slight bias, but rare fallback case)
-    min_value + (bytes[31] % range as u8)
+    min_value + (bytes[31] as u16 % range) as u8
 }
 
 /// Generates a random u32 value from a 32-byte random seed
-- 
2.43.0


From c0109d1b5a2ee38aed86d89becfd8ec3cb38e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 02/10] fix: request randomness only into an initialized oracle
 queue

The queue account was not validated: any account of the program with enough
room (the oracles registry, a partially created queue) was overwritten with
a queue record.
---
 program/src/request_randomness.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 616203a..181a02f 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -64,12 +64,15 @@ pub fn process_request_randomness(
     let slot = Clock::get()?.slot;
     let time = Clock::get()?.unix_timestamp;
 
+    // Only an initialized oracle queue can hold requests
+    oracle_queue_info
+        .is_writable()?
+        .has_owner(&ephemeral_vrf_api::ID)?;
+
     {
         // Borrow queue account data and load QueueAccount view
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
-        if data.len() < 8 {
-            return Err(ProgramError::InvalidAccountData);
-        }
+        Queue::try_from_bytes(&data)?;
         // Skip 8-byte discriminator
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
-- 
2.43.0


From bc453adb7f7145cf2d1288fdadcf2e23e5a755d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 03/10] fix: two pending requests of one queue never share an
 id

The id depends on the number of pending requests, which returns to an earlier
value when a request is fulfilled or purged: repeating a request in the same
slot then produced a second pending request with the same id, and both would
receive the same randomness.
---
 program/src/request_randomness.rs | 32 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 181a02f..7b76cab 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -77,17 +77,27 @@ pub fn process_request_randomness(
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
 
-        // Compute a combined hash that includes a logical insertion index hint
-        let idx = queue_acc.len() as u32;
-        let combined_hash = hashv(&[
-            &args.caller_seed,
-            &slot.to_le_bytes(),
-            &slothash,
-            &args.callback_discriminator,
-            &args.callback_program_id.to_bytes(),
-            &time.to_le_bytes(),
-            &idx.to_le_bytes(),
-        ]);
+        // Compute a combined hash that includes a logical insertion index hint. The hint is
+        // advanced past pending requests, so that two pending requests never share an id.
+        let mut idx = queue_acc.len() as u32;
+        let combined_hash = loop {
+            let combined_hash = hashv(&[
+                &args.caller_seed,
+                &slot.to_le_bytes(),
+                &slothash,
+                &args.callback_discriminator,
+                &args.callback_program_id.to_bytes(),
+                &time.to_le_bytes(),
+                &idx.to_le_bytes(),
+            ]);
+            if queue_acc
+                .find_item_by_id(&combined_hash.to_bytes())
+                .is_none()
+            {
+                break combined_hash;
+            }
+            idx = idx.wrapping_add(1);
+        };
 
         // Log to simplify gathering all the information needed to recreate the combined_hash.
         msg!("Idx: {}", idx);
-- 
2.43.0


From 5ef4a5f80a6eee354ba5560f8f80f9fa18602ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 04/10] fix: closing a partially created queue does not change
 open_queue

open_queue is incremented when the queue is initialized, but was decremented
when a queue that never got there was closed, so that an oracle could be
removed while it still had an open queue.
---
 program/src/close_oracle_queue.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/program/src/close_oracle_queue.rs b/program/src/close_oracle_queue.rs
index 05ed0d1..ac055cb 100644
--- a/program/src/close_oracle_queue.rs
+++ b/program/src/close_oracle_queue.rs
@@ -56,19 +56,25 @@ pub fn process_close_oracle_queue(accounts: &[AccountInfo], data: &[u8]) -> Prog
         )?;
 
     // Ensure the queue has no pending items before closing.
-    {
+    let initialized = {
         // Borrow data and load QueueAccount view to check emptiness
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
+        let initialized = Queue::try_from_bytes(&data).is_ok();
         let queue_data = &mut data[8..];
         let queue_acc = QueueAccount::load(queue_data)?;
         if !queue_acc.is_empty() {
             return Err(EphemeralVrfError::QueueNotEmpty.into());
         }
-    }
+        initialized
+    };
 
-    // Decrement oracle's open queue count
-    let mut oracle_data_mut = oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
-    oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_sub(1);
+    // Decrement oracle's open queue count; a queue whose allocation was never completed
+    // has not been counted
+    if initialized {
+        let mut oracle_data_mut =
+            oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
+        oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_sub(1);
+    }
 
     close_account(oracle_queue_info, oracle_info)?;
 
-- 
2.43.0


From be1fd414209056cf6cba5c851833c2da08023cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 05/10] fix: derive delegation program addresses with the
 delegation program id

---
 sdk/src/consts.rs |  3 +++
 sdk/src/pda.rs    | 26 +++++++++++++++-----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/sdk/src/consts.rs b/sdk/src/consts.rs
index b519d75..71abafa 100644
--- a/sdk/src/consts.rs
+++ b/sdk/src/consts.rs
@@ -12,5 +12,8 @@ pub const DEFAULT_EPHEMERAL_QUEUE: Pubkey = pubkey!("5hBR571xnXppuCPveTrctfTU7tJ
 /// Vrf program identity PDA
 pub const VRF_PROGRAM_IDENTITY: Pubkey = pubkey!("9irBy75QS2BN81FUgXuHcjqceJJRuc9oDkAe8TKVvvAw");
 
+/// Delegation program id
+pub const DELEGATION_PROGRAM_ID: Pubkey = pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
+
 /// Seed of the identity PDA
 pub const IDENTITY: &[u8] = b"identity";
diff --git a/sdk/src/pda.rs b/sdk/src/pda.rs
index 800203e..c909ab8 100644
--- a/sdk/src/pda.rs
+++ b/sdk/src/pda.rs
@@ -1,4 +1,5 @@
 use crate::compat::{Compat, Modern, Pubkey};
+use crate::consts::DELEGATION_PROGRAM_ID;
 
 /// NOTE: Copy/Pasted from delegation-program/src/pda.rs (modify there if needed)
 #[macro_export]
@@ -75,7 +76,7 @@ pub fn delegation_record_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -85,7 +86,7 @@ pub fn delegation_metadata_pda_from_delegated_account(delegated_account: &Pubkey
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_metadata_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -95,7 +96,7 @@ pub fn commit_state_pda_from_delegated_account(delegated_account: &Pubkey) -> Pu
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_state_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -105,7 +106,7 @@ pub fn commit_record_pda_from_delegated_account(delegated_account: &Pubkey) -> P
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -129,23 +130,26 @@ pub fn undelegate_buffer_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         undelegate_buffer_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
 }
 
 pub fn fees_vault_pda() -> Pubkey {
-    crate::compat::latest::Pubkey::find_program_address(fees_vault_seeds!(), &crate::id().modern())
-        .0
-        .compat()
+    crate::compat::latest::Pubkey::find_program_address(
+        fees_vault_seeds!(),
+        &DELEGATION_PROGRAM_ID.modern(),
+    )
+    .0
+    .compat()
 }
 
 pub fn validator_fees_vault_pda_from_validator(validator: &Pubkey) -> Pubkey {
     let validator = (*validator).modern();
     crate::compat::latest::Pubkey::find_program_address(
         validator_fees_vault_seeds_from_validator!(validator),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -155,7 +159,7 @@ pub fn program_config_from_program_id(program_id: &Pubkey) -> Pubkey {
     let program_id = (*program_id).modern();
     crate::compat::latest::Pubkey::find_program_address(
         program_config_seeds_from_program_id!(program_id),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -165,7 +169,7 @@ pub fn ephemeral_balance_pda_from_payer(payer: &Pubkey, index: u8) -> Pubkey {
     let payer = (*payer).modern();
     crate::compat::latest::Pubkey::find_program_address(
         ephemeral_balance_seeds_from_payer!(payer, index),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
-- 
2.43.0


From 8859d4bcf873fda4fbcebd33afbf8bbab5f3b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 06/10] fix: close-oracle-queue refuses a queue that is not the
 signer's instead of closing its own queue of the same index

---
 vrf-cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index 1d3f67e..d1737e4 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -185,6 +185,10 @@ async fn main() -> Result<()> {
             let queue = Pubkey::from_str(queue)?;
             let queue_account = rpc_client.get_account(&queue)?;
             let queue_struct = Queue::try_from_bytes(queue_account.data.as_slice())?;
+            // The close instruction re-derives the address from the signer and the index
+            if oracle_queue_pda(&signer.pubkey(), queue_struct.index).0 != queue {
+                anyhow::bail!("Queue {queue} does not belong to {}", signer.pubkey());
+            }
             println!(
                 "Closing oracle queue: {} with index: {}",
                 queue, queue_struct.index
-- 
2.43.0


From 07001ca3d9f020b368e15417b000bc38ee6498a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 07/10] fix: the oracle service retries when its node is down
 at start instead of ending in a panic

The first blockhash request was unwrapped, so run() panicked where main() expects an error to retry.
---
 vrf-oracle/src/blockhash_cache.rs | 6 +++---
 vrf-oracle/src/oracle/client.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrf-oracle/src/blockhash_cache.rs b/vrf-oracle/src/blockhash_cache.rs
index 2d405cf..86374d8 100644
--- a/vrf-oracle/src/blockhash_cache.rs
+++ b/vrf-oracle/src/blockhash_cache.rs
@@ -21,8 +21,8 @@ struct CacheData {
 }
 
 impl BlockhashCache {
-    pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> Self {
-        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await.unwrap();
+    pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> anyhow::Result<Self> {
+        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await?;
         let inner = Arc::new(RwLock::new(CacheData {
             blockhash,
             slot,
@@ -32,7 +32,7 @@ impl BlockhashCache {
         let cache = Self { inner, client };
 
         cache.spawn_refresh_task();
-        cache
+        Ok(cache)
     }
 
     fn spawn_refresh_task(&self) {
diff --git a/vrf-oracle/src/oracle/client.rs b/vrf-oracle/src/oracle/client.rs
index 8ff49fe..be9e076 100644
--- a/vrf-oracle/src/oracle/client.rs
+++ b/vrf-oracle/src/oracle/client.rs
@@ -102,7 +102,7 @@ impl OracleClient {
             self.rpc_url.clone(),
             CommitmentConfig::processed(),
         ));
-        let blockhash_cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc_client)).await);
+        let blockhash_cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc_client)).await?);
         fetch_and_process_program_accounts(
             &self,
             &rpc_client,
-- 
2.43.0


From fd2dd520f293386edf3d5cec80ccb4f2700fbe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 08/10] fix: an undelegation completes only from the delegation
 program's own buffer for the queue, as documented

---
 program/src/process_undelegation.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/program/src/process_undelegation.rs b/program/src/process_undelegation.rs
index f4d64f2..5b0bbe9 100644
--- a/program/src/process_undelegation.rs
+++ b/program/src/process_undelegation.rs
@@ -1,4 +1,5 @@
 use ephemeral_rollups_sdk::cpi::undelegate_account;
+use ephemeral_rollups_sdk::pda::undelegate_buffer_pda_from_delegated_account;
 use ephemeral_vrf_api::prelude::*;
 
 /// Process the undelegation of an Oracle queue from the delegation program
@@ -31,6 +32,12 @@ pub fn process_undelegation(accounts: &[AccountInfo<'_>], data: &[u8]) -> Progra
         return Err(ProgramError::NotEnoughAccountKeys);
     };
 
+    // Only the delegation program can sign for its undelegation buffer of this queue, while
+    // anyone can assign a (blank) account of their own to it
+    delegation_buffer.has_address(&undelegate_buffer_pda_from_delegated_account(
+        oracle_queue_info.key,
+    ))?;
+
     // Undelegate
     undelegate_account(
         oracle_queue_info,
-- 
2.43.0


From 2a2b5fcfc46171812c30e5d98c2e74ff85d2c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 09/10] fix: a purge leaves a queue that is still being
 allocated blank, so its creation can be completed

---
 program/src/purge_expired_requests.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/program/src/purge_expired_requests.rs b/program/src/purge_expired_requests.rs
index f49182e..b2003b9 100644
--- a/program/src/purge_expired_requests.rs
+++ b/program/src/purge_expired_requests.rs
@@ -32,6 +32,8 @@ pub fn process_purge_expired_requests(accounts: &[AccountInfo<'_>], data: &[u8])
 
     // Borrow queue data and scan/remove expired items using QueueAccount view
     let mut acc_data = oracle_queue_info.try_borrow_mut_data()?;
+    // A queue that is still being allocated must stay blank
+    Queue::try_from_bytes(&acc_data)?;
     let queue_data = &mut acc_data[8..];
     let mut queue_acc = QueueAccount::load(queue_data)?;
 
-- 
2.43.0


From e1bee9a47d5b7ec8affd5bba88580074e17a75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 10/10] fix: the oracle service tracks a request's task before
 anyone can find the request gone

A look at the queue that no longer found the request, between the request being
marked in flight and its task's handle being stored, left the task running with
nobody to cancel it.
---
 vrf-oracle/src/oracle/processor.rs | 31 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/vrf-oracle/src/oracle/processor.rs b/vrf-oracle/src/oracle/processor.rs
index 92a0ecf..fafa00e 100644
--- a/vrf-oracle/src/oracle/processor.rs
+++ b/vrf-oracle/src/oracle/processor.rs
@@ -189,18 +189,18 @@ pub async fn process_oracle_queue(
             let oracle_client_for_proc = Arc::clone(&oracle_client);
             let oracle_client_for_cleanup = Arc::clone(&oracle_client);
 
-            // Only spawn a task if this request is not already in-flight for this queue
-            let should_spawn = {
-                let mut inflight_all = oracle_client.inflight_requests.write().await;
-                let inflight_for_queue = inflight_all.entry(queue_key_spawn.clone()).or_default();
-                if let std::collections::hash_map::Entry::Vacant(e) =
-                    inflight_for_queue.entry(item.id)
-                {
-                    e.insert(item.slot);
-                    true
-                } else {
-                    false
-                }
+            // Only spawn a task if this request is not already in-flight for this queue. Both maps are held
+            // until the task is tracked, so that whoever finds the request gone also finds the task to cancel.
+            let mut inflight_all = oracle_client.inflight_requests.write().await;
+            let mut tasks_all = oracle_client.active_tasks.write().await;
+            let inflight_for_queue = inflight_all.entry(queue_key_spawn.clone()).or_default();
+            let should_spawn = if let std::collections::hash_map::Entry::Vacant(e) =
+                inflight_for_queue.entry(item.id)
+            {
+                e.insert(item.slot);
+                true
+            } else {
+                false
             };
 
             if !should_spawn {
@@ -300,11 +300,8 @@ pub async fn process_oracle_queue(
             });
 
             // Track the task handle for potential cancellation if the item disappears from the queue
-            {
-                let mut tasks_all = oracle_client.active_tasks.write().await;
-                let tasks_for_queue = tasks_all.entry(queue_key.clone()).or_default();
-                tasks_for_queue.insert(item.id, handle);
-            }
+            let tasks_for_queue = tasks_all.entry(queue_key.clone()).or_default();
+            tasks_for_queue.insert(item.id, handle);
         }
     }
 }
-- 
2.43.0

