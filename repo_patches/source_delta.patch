From 28e6e7592e2fe800623e2b18a1526c2b68ccd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:39 +0000
Subject: [PATCH 01/33] fix: cover the whole hash ring with table regions

---
 apps/tablet_cache/service/src/transaction/metadata.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 687df3e..31a9554 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -354,9 +354,11 @@ struct TableMetadata {
 impl TableMetadata {
     // Prefills table regions and marks them all as stale.
     fn create(table_name: String, region_size: u32) -> Self {
-        let regions_count = u32::MAX / region_size;
-        let mut regions = HashMap::with_capacity(regions_count as usize);
-        for region_idx in 0..regions_count {
+        // Regions cover the whole ring, hence the last region is the one the largest
+        // hash belongs to. It may be smaller than the others.
+        let last_region_idx = Self::map_table_region(region_size, u32::MAX);
+        let mut regions = HashMap::with_capacity(last_region_idx as usize + 1);
+        for region_idx in 0..=last_region_idx {
             // Regions are identified by the starting position on the consistent hashing ring.
             regions.insert(region_idx, TableRegion::create());
         }
-- 
2.43.0


From f735170bef3cacfc8a470ee30e0c83240bbac401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:42 +0000
Subject: [PATCH 02/33] fix: map every key to the first tablet clockwise
 instead of dropping keys

---
 .../service/src/transaction/metadata.rs       | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 31a9554..fd89441 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -455,24 +455,27 @@ impl TableMetadata {
             if let Some(fresh_tablet_ids) = table_region.maybe_fresh_tablet_ids() {
                 // Note that tablet ids must contain at least one entry. It may be the only entry on
                 // the whole consistent hashing ring.
-                let mut tablet_ids_it = fresh_tablet_ids.iter().cycle();
-                let mut curr_tablet_id = *tablet_ids_it.next().unwrap();
+                let first_tablet_id = *fresh_tablet_ids.first().unwrap();
+                let mut curr_tablet_id = first_tablet_id;
                 let mut curr_key_hashes = Vec::new();
-                // Merge two sorted lists of tablet ids and key hashes. Key hashes are handled by
-                // a tablet that is clockwise on the consistent hashing ring.
+                // Walk sorted list of key hashes. Key hashes are handled by a tablet that is
+                // clockwise on the consistent hashing ring, wrapping around to the first one.
                 let mut resolve_result = Vec::new();
                 for key_hash in table_query.get_key_hashes() {
-                    if *key_hash > curr_tablet_id {
+                    let tablet_id = *fresh_tablet_ids
+                        .range(*key_hash..)
+                        .next()
+                        .unwrap_or(&first_tablet_id);
+                    if tablet_id != curr_tablet_id {
                         if !curr_key_hashes.is_empty() {
                             resolve_result.push((
                                 table_query.create_from(mem::take(&mut curr_key_hashes)),
                                 self.tablets.get(&curr_tablet_id).unwrap().clone(),
                             ));
                         }
-                        curr_tablet_id = *tablet_ids_it.next().unwrap();
-                    } else {
-                        curr_key_hashes.push(*key_hash);
+                        curr_tablet_id = tablet_id;
                     }
+                    curr_key_hashes.push(*key_hash);
                 }
                 if !curr_key_hashes.is_empty() {
                     resolve_result.push((
-- 
2.43.0


From 2c0d9fba107cabad9ccc6bdb9835b6407f518d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:45 +0000
Subject: [PATCH 03/33] fix: resolve several queries waiting for the same table
 region

---
 .../service/src/transaction/metadata.rs       | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index fd89441..1c765b1 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -555,8 +555,8 @@ enum TableResolveNotification {
 // Tracks pending request to resolve tablets.
 struct TabletResolve {
     notification: TableResolveNotification,
-    // Maps table name and region index to a pending table query.
-    pending_table_queries: HashMap<(String, u32), TableQuery>,
+    // Maps table name and region index to pending table queries.
+    pending_table_queries: HashMap<(String, u32), Vec<TableQuery>>,
     // Maps table name and tablet id to resolve result builder.
     results: HashMap<(String, u32), TabletResolveResult>,
 }
@@ -596,11 +596,15 @@ impl TabletResolve {
             } else {
                 // Otherwise register pending query and wait for the corresponding region
                 // state to become fresh.
-                table_metadata.register_pending_query(resolve_request_id, table_region_idx);
-                tablet_resolve.pending_table_queries.insert(
-                    (table_query.get_table_name().clone(), table_region_idx),
-                    table_query,
-                );
+                let pending_table_queries = tablet_resolve
+                    .pending_table_queries
+                    .entry((table_query.get_table_name().clone(), table_region_idx))
+                    .or_insert(Vec::new());
+                // Several queries may wait for the same region, register only once.
+                if pending_table_queries.is_empty() {
+                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);
+                }
+                pending_table_queries.push(table_query);
             }
         }
         // Try to produce results if there are no more pending queries.
@@ -657,10 +661,11 @@ impl TabletResolve {
         table_region_idx: u32,
         table_metadata: &TableMetadata,
     ) {
-        // Remove pending query now that corresponding region state is fresh.
-        if let Some(pending_table_query) = self
+        // Remove pending queries now that corresponding region state is fresh.
+        for pending_table_query in self
             .pending_table_queries
             .remove(&(table_name.clone(), table_region_idx))
+            .unwrap_or(Vec::new())
         {
             // Resolve pending query into a number of sub-queries that are mapped
             // to particular tablets.
-- 
2.43.0


From 5fb9775e14b36243c9ac5f29cffa32e589de7765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:21 +0000
Subject: [PATCH 04/33] fix: complete a tablet batch only after all of its
 tablets

A batch that contained an already cached tablet counted its remaining
entries one by one, hence completed with that tablet alone. An empty batch
never completed.
---
 .../service/src/transaction/data.rs           | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 2261515..ed9c425 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -398,7 +398,7 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
 
         self.batch_counter += 1;
         let (mut tablet_batch, result_handle) =
-            TabletBatch::<T>::with_load_state(self.batch_counter);
+            TabletBatch::<T>::with_load_state(self.batch_counter, tablet_cache_keys.len());
 
         // Process immediately available tablet cache entries or register for the notification
         // on when the tablet cache entry is ready.
@@ -465,7 +465,7 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
         }
         self.batch_counter += 1;
         let (mut tablet_batch, result_handle) =
-            TabletBatch::<T>::with_store_state(self.batch_counter);
+            TabletBatch::<T>::with_store_state(self.batch_counter, tablet_cache_keys.len());
         // Process immediately available tablet cache entries or register for the notification
         // on when the tablet cache entry is ready.
         self.register_pending_cache_entries(&mut tablet_batch, &tablet_cache_keys);
@@ -739,33 +739,51 @@ struct TabletBatch<T> {
 }
 
 impl<T> TabletBatch<T> {
+    // Creates batch that completes once given number of cache entries is resolved, or
+    // immediately if there are none.
     fn with_load_state(
         batch_id: u64,
+        remaining_cache_entries: usize,
     ) -> (
         Self,
         ResultHandle<Vec<(TabletMetadata, TabletData<T>)>, TabletDataStorageStatus>,
     ) {
-        let (op_handle, op_source) = create_eventual_result::<
+        let (op_handle, mut op_source) = create_eventual_result::<
             Vec<(TabletMetadata, TabletData<T>)>,
             TabletDataStorageStatus,
         >();
+        let batch_state = if remaining_cache_entries == 0 {
+            op_source.set_result(Vec::new());
+            TabletBatchState::Completed
+        } else {
+            TabletBatchState::Load(Vec::new(), op_source)
+        };
         (
             Self {
                 batch_id,
-                batch_state: TabletBatchState::Load(Vec::new(), op_source),
-                remaining_cache_entries: 0,
+                batch_state,
+                remaining_cache_entries,
             },
             op_handle,
         )
     }
 
-    fn with_store_state(batch_id: u64) -> (Self, ResultHandle<(), TabletDataStorageStatus>) {
-        let (op_handle, op_source) = create_eventual_result::<(), TabletDataStorageStatus>();
+    fn with_store_state(
+        batch_id: u64,
+        remaining_cache_entries: usize,
+    ) -> (Self, ResultHandle<(), TabletDataStorageStatus>) {
+        let (op_handle, mut op_source) = create_eventual_result::<(), TabletDataStorageStatus>();
+        let batch_state = if remaining_cache_entries == 0 {
+            op_source.set_result(());
+            TabletBatchState::Completed
+        } else {
+            TabletBatchState::Store(op_source)
+        };
         (
             Self {
                 batch_id,
-                batch_state: TabletBatchState::Store(op_source),
-                remaining_cache_entries: 0,
+                batch_state,
+                remaining_cache_entries,
             },
             op_handle,
         )
@@ -776,7 +794,6 @@ impl<T> TabletBatch<T> {
     }
 
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-        self.remaining_cache_entries += 1;
         match tablet_cache_entry.get_state() {
             TabletCacheEntryState::Load | TabletCacheEntryState::Store(_) => {
                 tablet_cache_entry.register_waiting_batch(self.batch_id);
-- 
2.43.0


From bd25e12fd94c6a9cc39d5547c0ddaddd56e38105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:13 +0000
Subject: [PATCH 05/33] fix: treat unspecified tablet data storage status as a
 failure

The status comes from outside of the tablet cache, an unspecified or unknown
one panicked.
---
 apps/tablet_cache/service/src/transaction/data.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index ed9c425..824c970 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -680,11 +680,10 @@ impl<T> TabletCacheEntry<T> {
                         self.cache_entry_state = TabletCacheEntryState::Error;
                     }
                 }
-                Some(TabletDataStorageStatus::Failed) => {
-                    self.cache_entry_state = TabletCacheEntryState::Error;
-                }
+                // Anything but an explicit success is a failure, including statuses that
+                // are not specified or not known.
                 _ => {
-                    panic!("Unexpected load tablet status");
+                    self.cache_entry_state = TabletCacheEntryState::Error;
                 }
             }
         } else {
@@ -698,11 +697,10 @@ impl<T> TabletCacheEntry<T> {
                 Some(TabletDataStorageStatus::Succeeded) => {
                     self.cache_entry_state = TabletCacheEntryState::Cache(tablet_value.clone());
                 }
-                Some(TabletDataStorageStatus::Failed) => {
-                    self.cache_entry_state = TabletCacheEntryState::Error;
-                }
+                // Anything but an explicit success is a failure, including statuses that
+                // are not specified or not known.
                 _ => {
-                    panic!("Unexpected store tablet status");
+                    self.cache_entry_state = TabletCacheEntryState::Error;
                 }
             }
         } else {
-- 
2.43.0


From c07982f647f92c1e0b02bcaf8db8d3961a611091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:15 +0000
Subject: [PATCH 06/33] fix: verify loaded tablet contents against its metadata

Loaded tablet data is promised to be verified, yet the hash recorded when
the tablet was stored was never checked.
---
 apps/tablet_cache/service/src/transaction/data.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 824c970..1f9926b 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -314,6 +314,14 @@ impl<T> DefaultTabletDataCache<T> {
         tablet_metadata: &TabletMetadata,
         tablet_contents: Bytes,
     ) -> Result<T, ()> {
+        // Tablet data storage is not trusted, verify that tablet contents is what has been
+        // stored. Tablets that have never been stored have no hash.
+        if !tablet_metadata.blob_hash.is_empty()
+            && Sha256::digest(&tablet_contents)[..] != tablet_metadata.blob_hash[..]
+        {
+            return Err(());
+        }
+
         // Currently table name is not propagated to the serializer, will be
         // added later.
         let tablet_value = self
-- 
2.43.0


From 96c2365af05b3b41b2d44e13bd2730b17a0f7838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:18 +0000
Subject: [PATCH 07/33] fix: do not share a cache entry between tablets never
 stored

All tablets that have never been stored have the same empty uri, hence
loading any of them returned metadata and data of the first one.
---
 apps/tablet_cache/service/src/transaction/data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 1f9926b..7a057c5 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -572,6 +572,10 @@ impl<T> TabletDataCachePolicy<T> for DefaultTabletDataCachePolicy<T> {
 // Uniquely identifies tablet cache entry.
 #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash)]
 struct TabletCacheKey {
+    // Id and version of the tablet. Distinguish tablets that have never been stored, as
+    // all of those have empty uri.
+    tablet_id: u32,
+    tablet_version: u32,
     // Uri of the blob in Tablet Data Storage.
     uri: String,
 }
@@ -579,6 +583,8 @@ struct TabletCacheKey {
 impl TabletCacheKey {
     fn from(tablet_metadata: &TabletMetadata) -> Self {
         Self {
+            tablet_id: tablet_metadata.tablet_id,
+            tablet_version: tablet_metadata.tablet_version,
             uri: tablet_metadata.blob_uri.clone(),
         }
     }
-- 
2.43.0


From 30487497a80093502e76f37c1e77ed65f7d59c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 08/33] fix: allow storing the same tablet contents again

A transaction that stored its tablets and failed to commit left them in
the cache, and retrying it with the same outcome panicked.
---
 apps/tablet_cache/service/src/transaction/data.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 7a057c5..af30938 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -464,10 +464,10 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                     self.out_messages.push(store_tablet_request);
                     map_entry.insert(tablet_cache_entry);
                 }
-                Occupied(map_entry) => {
-                    // Any new tablet cache write must be unique as once created tablets
-                    // are immutable.
-                    panic!("Cache entry with given cache id already exists");
+                Occupied(_) => {
+                    // The same contents has been already written for this version of the
+                    // tablet, for example by a transaction that has failed to commit and is
+                    // being retried. Once created tablets are immutable, reuse the entry.
                 }
             }
         }
-- 
2.43.0


From 53b12f9b0a333ac96847c8303dddde9d95857918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:10 +0000
Subject: [PATCH 09/33] fix: do not consider failed tablet processing pending

A transaction with processing that failed to resolve, load or store its
tablets was forever pending and panicked when committed.
---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index acbfe95..eafb5d0 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -495,9 +495,11 @@ impl<T> PreparingTabletTransactionState<T> {
 
     fn is_active(&self) -> bool {
         for process_state in &self.process_requests {
-            let TabletProcessStatus::Completed = process_state.status else {
-                return true;
-            };
+            match process_state.status {
+                // Processing that has failed is not going to make any further progress.
+                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
+                _ => return true,
+            }
         }
         false
     }
-- 
2.43.0


From 7d41f64cf7a332a53a3158d8a1a381c7c5c39ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:47 +0000
Subject: [PATCH 10/33] fix: derive transaction outcome from all of its tablet
 ops

Metadata of individually successful updates of a failed transaction was
cached as if it was committed, ops without a result were considered
successful, and a failed op without existing tablet (any rpc error) or
without result panicked.
---
 .../service/src/transaction/coordinator.rs    | 115 ++++++++++--------
 1 file changed, 64 insertions(+), 51 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index eafb5d0..eaa2c56 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -541,61 +541,74 @@ impl CommittingTabletTransactionState {
         TabletTransactionOutcome,
         Vec<(String, TabletMetadata, bool)>,
     ) {
-        // Technically we need to check that tablet ops correspond to tablet results
-        // but for the time being we are doing a simple check of that all tablet ops
-        // succeeded.
+        // Transaction is committed only if every tablet op has succeeded. If any of the tablet
+        // ops has failed, or there is no matching result for it, then none of them has been
+        // applied.
+        let all_succeeded = self.tablet_ops.len() == tablet_op_results.len()
+            && self
+                .tablet_ops
+                .iter()
+                .zip(tablet_op_results.iter())
+                .all(|(tablet_op, tablet_op_result)| {
+                    tablet_op_result.status == TabletOpStatus::Succeeded as i32
+                        && match (&tablet_op.op, &tablet_op_result.op_result) {
+                            (
+                                Some(tablet_op::Op::CheckTablet(_)),
+                                Some(tablet_op_result::OpResult::CheckTablet(_)),
+                            ) => true,
+                            (
+                                Some(tablet_op::Op::UpdateTablet(_)),
+                                Some(tablet_op_result::OpResult::UpdateTablet(_)),
+                            ) => true,
+                            _ => false,
+                        }
+                });
+
         let mut metadata_to_update_cache = Vec::new();
-        let mut transaction_outcome = TabletTransactionOutcome::Succeeded;
-        for (tablet_op, tablet_op_result) in self.tablet_ops.iter().zip(tablet_op_results.iter()) {
-            let op_succeeded = tablet_op_result.status == TabletOpStatus::Succeeded as i32;
-            if !op_succeeded {
-                transaction_outcome = TabletTransactionOutcome::Failed;
-            }
-            match (&tablet_op.op, &tablet_op_result.op_result) {
-                (
-                    Some(tablet_op::Op::CheckTablet(check_tablet_op)),
-                    Some(tablet_op_result::OpResult::CheckTablet(check_tablet_op_result)),
-                ) => {
-                    if !op_succeeded {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            check_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
-                        ));
-                    }
-                }
-                (
-                    Some(tablet_op::Op::UpdateTablet(update_tablet_op)),
-                    Some(tablet_op_result::OpResult::UpdateTablet(update_tablet_op_result)),
-                ) => {
-                    if !op_succeeded {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            update_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
-                        ));
-                    } else {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            update_tablet_op.tablet_metadata.as_ref().unwrap().clone(),
-                            false,
-                        ));
-                    }
-                }
-                _ => {
-                    panic!("Unexpected tablet op and result combination");
+        if all_succeeded {
+            // Updated metadata becomes visible only once transaction is committed.
+            for tablet_op in &self.tablet_ops {
+                if let Some(tablet_op::Op::UpdateTablet(update_tablet_op)) = &tablet_op.op {
+                    metadata_to_update_cache.push((
+                        tablet_op.table_name.clone(),
+                        update_tablet_op.tablet_metadata.as_ref().unwrap().clone(),
+                        false,
+                    ));
                 }
             }
+            return (TabletTransactionOutcome::Succeeded, metadata_to_update_cache);
+        }
+
+        for (tablet_op_idx, tablet_op) in self.tablet_ops.iter().enumerate() {
+            let tablet_id = match &tablet_op.op {
+                Some(tablet_op::Op::CheckTablet(check_tablet_op)) => check_tablet_op.tablet_id,
+                Some(tablet_op::Op::UpdateTablet(update_tablet_op)) => update_tablet_op
+                    .tablet_metadata
+                    .as_ref()
+                    .map_or(0, |tablet_metadata| tablet_metadata.tablet_id),
+                _ => continue,
+            };
+            let tablet_op_result = tablet_op_results.get(tablet_op_idx);
+            if tablet_op_result.map_or(false, |r| r.status == TabletOpStatus::Succeeded as i32) {
+                continue;
+            }
+            let existing_tablet = match tablet_op_result.and_then(|r| r.op_result.as_ref()) {
+                Some(tablet_op_result::OpResult::CheckTablet(r)) => r.existing_tablet.clone(),
+                Some(tablet_op_result::OpResult::UpdateTablet(r)) => r.existing_tablet.clone(),
+                _ => None,
+            };
+            // Existing tablet may not be known, for example if the request has failed. In that
+            // case only mark cached metadata as stale.
+            metadata_to_update_cache.push((
+                tablet_op.table_name.clone(),
+                existing_tablet.unwrap_or(TabletMetadata {
+                    tablet_id,
+                    ..Default::default()
+                }),
+                true,
+            ));
         }
-        (transaction_outcome, metadata_to_update_cache)
+        (TabletTransactionOutcome::Failed, metadata_to_update_cache)
     }
 }
 
-- 
2.43.0


From 49eef31730f00ea936dde563df0c630971cd7393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:25 +0000
Subject: [PATCH 11/33] fix: tell apart tablets of different tables in a
 transaction

Tablets were tracked by id and version alone, hence a transaction touching
tablets with the same id and version in two tables lost one of them.
---
 .../service/src/transaction/coordinator.rs    | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index eaa2c56..d1ee231 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -392,7 +392,7 @@ impl<T> PreparingTabletTransactionState<T> {
                                 for (query, metadata) in resolve_values {
                                     // Start tracking state of the affected tablet.
                                     process_state.tablets.insert(
-                                        create_tablet_key(&metadata),
+                                        (query.get_table_name().clone(), metadata.tablet_id),
                                         TabletState::create(query, metadata.clone()),
                                     );
                                     resolved_metadata.push(metadata);
@@ -421,13 +421,13 @@ impl<T> PreparingTabletTransactionState<T> {
                                 let mut tablet_refs = Vec::with_capacity(load_values.len());
 
                                 for (metadata, data) in load_values {
-                                    // Set loaded tablet data in corresponding tablet state that we look up
-                                    // using metadata.
-                                    let tablet_state = process_state
-                                        .tablets
-                                        .get_mut(&create_tablet_key(&metadata))
-                                        .unwrap();
-                                    tablet_state.tablet_init(data);
+                                    // Set loaded tablet data in corresponding tablet states that we look up
+                                    // using metadata. Equal metadata refers to the same contents.
+                                    for tablet_state in process_state.tablets.values_mut() {
+                                        if *tablet_state.tablet.get_metadata() == metadata {
+                                            tablet_state.tablet_init(data.clone());
+                                        }
+                                    }
                                 }
 
                                 // Create collection of  mutable references that process handler will consume.
@@ -612,11 +612,6 @@ impl CommittingTabletTransactionState {
     }
 }
 
-// Creates tablet key that consists of tablet id and its version.
-fn create_tablet_key(metadata: &TabletMetadata) -> u64 {
-    (metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64)
-}
-
 // Tracks state of a tablet affected by a transaction.
 #[derive(Clone)]
 struct TabletState<T> {
@@ -684,8 +679,8 @@ struct TabletProcessState<T> {
     status: TabletProcessStatus<T>,
     // Handler that will be called to process tablets.
     handler: Box<ProcessHandler<T>>,
-    // Maps tablet key that of tablet id and its version to the tablet state.
-    tablets: HashMap<u64, TabletState<T>>,
+    // Maps table name and tablet id to the tablet state.
+    tablets: HashMap<(String, u32), TabletState<T>>,
 }
 
 enum TabletProcessStatus<T> {
-- 
2.43.0


From 1542921b1baeaae7c580c1e645436068be55d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:57 +0000
Subject: [PATCH 12/33] fix: deliver tablet op results without outcome to the
 transaction

A commit that had no ops, or whose ops all had no explicit outcome (unknown
table), was never completed, and partially missing outcomes shifted results
of other ops.
---
 .../service/src/transaction/manager.rs        | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/manager.rs b/apps/tablet_cache/service/src/transaction/manager.rs
index 1ddb701..80b3414 100644
--- a/apps/tablet_cache/service/src/transaction/manager.rs
+++ b/apps/tablet_cache/service/src/transaction/manager.rs
@@ -378,13 +378,13 @@ impl<T> TabletTransactionManagerCore<T> {
         let mut list_op_results = Vec::new();
         let mut execute_op_results = Vec::new();
 
+        // Results without explicit outcome, for example for an unknown table, are kept such
+        // that results still correspond to the requested ops.
         for tablet_op_result in tablets_response.tablet_results {
-            if let Some(op_result) = &tablet_op_result.op_result {
-                if let OpResult::ListTablet(_) = op_result {
-                    list_op_results.push(tablet_op_result);
-                } else {
-                    execute_op_results.push(tablet_op_result);
-                }
+            if let Some(OpResult::ListTablet(_)) = &tablet_op_result.op_result {
+                list_op_results.push(tablet_op_result);
+            } else {
+                execute_op_results.push(tablet_op_result);
             }
         }
 
@@ -394,17 +394,18 @@ impl<T> TabletTransactionManagerCore<T> {
                     correlation_id,
                     list_op_results,
                 ));
+            return;
         }
 
-        if !execute_op_results.is_empty() {
-            self.transaction_coordinator.process_in_message(
-                &mut *self.metadata_cache,
-                TabletTransactionCoordinatorInMessage::ExecuteTabletOpsResponse(
-                    correlation_id,
-                    execute_op_results,
-                ),
-            );
-        }
+        // Response may have no results at all, either because there were no ops or because they
+        // were not executed, transaction must learn about its outcome nevertheless.
+        self.transaction_coordinator.process_in_message(
+            &mut *self.metadata_cache,
+            TabletTransactionCoordinatorInMessage::ExecuteTabletOpsResponse(
+                correlation_id,
+                execute_op_results,
+            ),
+        );
     }
 }
 
-- 
2.43.0


From e75f0d702b267e1e5b82d9fe8da8dda7d8b2905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:17 +0000
Subject: [PATCH 13/33] fix: respect configured threshold before processing
 requests

The configuration was not kept, hence every known tablet was continuously
processed with no requests at all.
---
 apps/tablet_cache/service/src/store.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 3607eef..c4d8e6c 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -190,6 +190,7 @@ impl SimpleKeyValueStoreCore {
         self.table_accessor = TableAccessor::create(config.table_name.clone());
         self.request_tracker =
             RequestTracker::create(config.min_pending_before_resolve.try_into().unwrap());
+        self.config = config;
     }
 
     fn handle_query_resolve(
@@ -389,7 +390,7 @@ impl RequestTracker {
         // If minimum pending requests threshold has been reached, create
         // table query with these requests and resolve which tablets they
         // affect.
-        if self.pending_requests.len() >= self.min_pending {
+        if !self.pending_requests.is_empty() && self.pending_requests.len() >= self.min_pending {
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_resolution_requests
                 .insert(query.get_id(), mem::take(&mut self.pending_requests));
@@ -446,7 +447,10 @@ impl TabletTracker {
         // If minimum pending threshold has been reached and there is no
         // active transaction, create table query with these requests to
         // process within a transaction.
-        if self.pending_requests.len() >= self.min_pending && !self.has_transaction {
+        if !self.pending_requests.is_empty()
+            && self.pending_requests.len() >= self.min_pending
+            && !self.has_transaction
+        {
             self.has_transaction = true;
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_processing_requests
-- 
2.43.0


From 6b5b7efc8c014d4d57b462f27102eb6cc97cc058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:18 +0000
Subject: [PATCH 14/33] fix: associate every request with the tablet its key
 belongs to

When requests resolved together affected several tablets all of them were
associated with the first one, and some were never processed.
---
 apps/tablet_cache/service/src/store.rs | 46 ++++++++++++++++++++------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index c4d8e6c..c8d1be7 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -209,7 +209,7 @@ impl SimpleKeyValueStoreCore {
             // Move resolved requests as pending to the tablet they affect.
             tablet_tracker.append_pending_requests(
                 self.request_tracker
-                    .take_resolved_requests(table_query.get_id()),
+                    .take_resolved_requests(&self.table_accessor, &table_query),
             );
         }
     }
@@ -400,11 +400,32 @@ impl RequestTracker {
         queries
     }
 
-    fn take_resolved_requests(&mut self, table_query_id: u64) -> Vec<KeyValueRequest> {
-        // Resolved requests are taken for processing within a transaction.
-        self.waiting_resolution_requests
-            .remove(&table_query_id)
-            .unwrap_or(Vec::new())
+    fn take_resolved_requests(
+        &mut self,
+        table_accessor: &TableAccessor,
+        table_query: &transaction::TableQuery,
+    ) -> Vec<KeyValueRequest> {
+        // Resolved requests are taken for processing within a transaction. Table query may be
+        // split between several tablets, only take requests that affect this one.
+        let mut resolved_requests = Vec::new();
+        let waiting_requests = self
+            .waiting_resolution_requests
+            .remove(&table_query.get_id())
+            .unwrap_or(Vec::new());
+        let mut remaining_requests = Vec::new();
+        for request in waiting_requests {
+            let key_hash = hash_request_key(table_accessor, &request);
+            if table_query.get_key_hashes().contains(&key_hash) {
+                resolved_requests.push(request);
+            } else {
+                remaining_requests.push(request);
+            }
+        }
+        if !remaining_requests.is_empty() {
+            self.waiting_resolution_requests
+                .insert(table_query.get_id(), remaining_requests);
+        }
+        resolved_requests
     }
 }
 
@@ -643,6 +664,13 @@ impl TransactionTracker {
     }
 }
 
+fn hash_request_key(table_accessor: &TableAccessor, request: &KeyValueRequest) -> u32 {
+    match request {
+        KeyValueRequest::Put(_, put_request) => table_accessor.hash_key(&put_request.key),
+        KeyValueRequest::Get(_, get_request) => table_accessor.hash_key(&get_request.key),
+    }
+}
+
 fn create_table_query(
     table_accessor: &mut TableAccessor,
     requests: &Vec<KeyValueRequest>,
@@ -650,11 +678,7 @@ fn create_table_query(
     let mut hashes = Vec::new();
 
     for request in requests {
-        let hash = match &request {
-            KeyValueRequest::Put(_, put_request) => table_accessor.hash_key(&put_request.key),
-            KeyValueRequest::Get(_, get_request) => table_accessor.hash_key(&get_request.key),
-        };
-        hashes.push(hash);
+        hashes.push(hash_request_key(table_accessor, request));
     }
 
     transaction::TableQuery::create(
-- 
2.43.0


From 21f55b5c28f702c61dc8157c68203ade088ab158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:56 +0000
Subject: [PATCH 15/33] fix: retry requests of a failed transaction

Requests of a transaction that failed to commit, and requests that have not
been processed as the transaction failed early, were dropped without a
response.
---
 apps/tablet_cache/service/src/store.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index c8d1be7..4eb02af 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -307,10 +307,15 @@ impl SimpleKeyValueStoreCore {
         // against them.
         for tablet_id in affected_tablet_ids {
             if let Some(tablet_tracker) = self.tablet_trackers.get_mut(&tablet_id) {
-                tablet_tracker.complete_transaction();
+                failed_requests.append(&mut tablet_tracker.complete_transaction());
             }
         }
 
+        // Retry requests that were not processed or whose transaction failed to commit.
+        for failed_request in failed_requests {
+            self.request_tracker.append_pending_request(failed_request);
+        }
+
         // Clear all completed transactions and associated state.
         for transaction_id in completed_transactions {
             self.transaction_trackers.remove(&transaction_id);
@@ -588,8 +593,13 @@ impl TabletTracker {
         }
     }
 
-    fn complete_transaction(&mut self) {
+    // Completes current transaction and returns requests it has not processed.
+    fn complete_transaction(&mut self) -> Vec<KeyValueRequest> {
         self.has_transaction = false;
+        mem::take(&mut self.waiting_processing_requests)
+            .into_values()
+            .flatten()
+            .collect()
     }
 }
 
-- 
2.43.0


From 0eba73731c62f6663e739bc1e1bf217e0f7b7335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:58 +0000
Subject: [PATCH 16/33] fix: allow resolve handler to be called immediately

Once the region of a key was cached the next request panicked, as the
handler borrowed the state that was borrowed to initiate resolution.
---
 apps/tablet_cache/service/src/store.rs | 38 +++++++++++---------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 4eb02af..839f9c6 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -114,17 +114,20 @@ impl KeyValueStore for SimpleKeyValueStore {
         _instant: u64,
         transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
     ) {
-        let mut core = self.core.borrow_mut();
-
-        let mut core_clone = self.core.clone();
         // If enough pending requests have accumulated initiate resolution of
-        // the affected tablets.
-        core.maybe_resolve_tablets(
-            transaction_context,
-            Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
-        );
+        // the affected tablets. Note that provided handler is called immediately
+        // when tablets are already known, hence the state must not be borrowed.
+        let resolve_queries = self.core.borrow_mut().collect_resolve_queries();
+        if !resolve_queries.is_empty() {
+            let core_clone = self.core.clone();
+            transaction_context.resolve(
+                resolve_queries,
+                Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
+            );
+        }
 
-        core_clone = self.core.clone();
+        let mut core = self.core.borrow_mut();
+        let core_clone = self.core.clone();
         // If enough pending requests has accumulated on some tablets initiate a
         // transaction covering the tablets that passed the threshold.
         core.maybe_start_transaction(
@@ -237,19 +240,10 @@ impl SimpleKeyValueStoreCore {
         }
     }
 
-    fn maybe_resolve_tablets(
-        &mut self,
-        transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
-        handler: Box<transaction::ResolveHandler>,
-    ) {
-        // Initiate resolution of affected tablets if there are enough pending requests.
-        let resolve_queries = self
-            .request_tracker
-            .collect_resolve_queries(&mut self.table_accessor);
-
-        if !resolve_queries.is_empty() {
-            transaction_context.resolve(resolve_queries, handler);
-        }
+    // Collects queries to resolve if there are enough pending requests.
+    fn collect_resolve_queries(&mut self) -> Vec<transaction::TableQuery> {
+        self.request_tracker
+            .collect_resolve_queries(&mut self.table_accessor)
     }
 
     fn maybe_start_transaction(
-- 
2.43.0


From 85b668b37d9edfcda2662be380a13921b74975d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:25 +0000
Subject: [PATCH 17/33] fix: make progress on transactions of the tablet cache

Nothing ever advanced the transaction manager, hence no request sent to the
tablet cache was ever answered.
---
 apps/tablet_cache/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 5feca3d..c0c4bf3 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -187,6 +187,7 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         }
 
         let instant = self.get_context().instant();
+        self.transaction_manager.make_progress(instant);
         self.key_value_store
             .make_progress(instant, &mut self.transaction_manager);
 
-- 
2.43.0


From e434fba63a81cf6d8b555196c49ba3be447373e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:51 +0000
Subject: [PATCH 18/33] fix: tablet store: report add and remove tablet ops as
 invalid

AddTablet and RemoveTablet ops are accepted from clients and replicated, but
applying them hits todo!(), which brings down every replica and, as the entry
is in the log, does so again after each restart. Report them as invalid.
---
 apps/tablet_store/service/src/actor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 0a8f284..b0341a2 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -187,8 +187,12 @@ impl TableMetadata {
                 }
                 OpResult::UpdateTablet(update_tablet_result)
             }
-            Op::AddTablet(_add_tablet_op) => todo!(),
-            Op::RemoveTablet(_remove_tablet_op) => todo!(),
+            Op::AddTablet(_) | Op::RemoveTablet(_) => {
+                // Adding and removing of tablets is not supported yet. The op
+                // comes from the outside and must not bring down the replicas.
+                op_result.status = TabletOpStatus::Invalid.into();
+                return op_result;
+            }
         });
 
         op_result
-- 
2.43.0


From 6ae79cf5e7d9288ad81279044fc1048d48928860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 19/33] fix: tablet store: fail repeated updates of a tablet in
 one request

All ops of a request are judged against the state before it, so that two
updates of the same tablet with the same next version both succeeded and the
first one, although reported as applied, was lost.
---
 apps/tablet_store/service/src/actor.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index b0341a2..36a2068 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -306,8 +306,22 @@ impl<C: TabletConfigurator> TabletStoreActor<C> {
     fn on_apply_tablets_request(&mut self, request: TabletsRequest) -> (OutMsg, Bytes) {
         let mut all_succeeded = true;
         let mut tablet_op_prepare_results = Vec::new();
+        let mut updated_tablets = HashSet::new();
         for tablet_op in &request.tablet_ops {
-            let tablet_op_result = self.prepare_tablet_op(tablet_op);
+            let mut tablet_op_result = self.prepare_tablet_op(tablet_op);
+            // All ops are judged against the state before the request, hence only
+            // one update per tablet can succeed, as otherwise the later update would
+            // silently overwrite the earlier one.
+            if let Some(Op::UpdateTablet(UpdateTabletOp {
+                tablet_metadata: Some(updated_tablet),
+            })) = &tablet_op.op
+            {
+                if !updated_tablets.insert((tablet_op.table_name.clone(), updated_tablet.tablet_id))
+                    && tablet_op_result.status == TabletOpStatus::Succeeded as i32
+                {
+                    tablet_op_result.status = TabletOpStatus::Failed.into();
+                }
+            }
             all_succeeded &= tablet_op_result.status == TabletOpStatus::Succeeded as i32;
             tablet_op_prepare_results.push(tablet_op_result);
         }
-- 
2.43.0


From 489607a4f12796b2a28bc35a582e8c82975ff1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 20/33] fix: tablet store: do not overflow the tablet version

Updating a tablet that is at the maximum version panics or wraps the version
around to zero; such an update must fail instead.
---
 apps/tablet_store/service/src/actor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 36a2068..f416e13 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -179,7 +179,9 @@ impl TableMetadata {
                 let mut update_tablet_result = UpdateTabletResult::default();
                 if let Some(updated_tablet) = &update_tablet_op.tablet_metadata {
                     if let Some(existing_tablet) = self.tablets.get(&updated_tablet.tablet_id) {
-                        if updated_tablet.tablet_version == existing_tablet.tablet_version + 1 {
+                        if Some(updated_tablet.tablet_version)
+                            == existing_tablet.tablet_version.checked_add(1)
+                        {
                             op_result.status = TabletOpStatus::Succeeded.into();
                         }
                         update_tablet_result.existing_tablet = Some(existing_tablet.clone());
-- 
2.43.0


From 873359ef944faca27b062e8dbbecd16a60c2034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:27 +0000
Subject: [PATCH 21/33] fix: tablet store: generate the same initial tablets on
 all replicas

The initial tablets were drawn from the local random number generator by each
replica when it initializes its actor, so that replicas of the state machine
started from different states and never converged.
---
 apps/tablet_store/service/src/actor.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index f416e13..dbdbf4a 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -30,7 +30,6 @@ use oak_proto_rust::oak::attestation::v1::{
     ReferenceValues, RootLayerReferenceValues, SkipVerification, TextReferenceValue,
 };
 use prost::{bytes::Bytes, Message};
-use rand::{rngs::OsRng, RngCore};
 use slog::{debug, warn};
 use tcp_runtime::model::{
     Actor, ActorCommand, ActorContext, ActorError, ActorEvent, ActorEventContext, CommandOutcome,
@@ -235,8 +234,16 @@ impl TabletConfigurator for RandomTabletConfigurator {
     fn generate(&mut self, initial_tablet_count: u32) -> Vec<u32> {
         let tablet_count: usize = initial_tablet_count.try_into().unwrap();
         let mut tablet_ids = HashSet::with_capacity(tablet_count);
+        // Each replica generates the initial tablets on its own. All replicas must
+        // arrive at the same tablets, hence a pseudo random sequence (SplitMix64)
+        // from a fixed seed.
+        let mut state: u64 = 0;
         while tablet_ids.len() < tablet_count {
-            tablet_ids.insert(OsRng.next_u32());
+            state = state.wrapping_add(0x9e3779b97f4a7c15);
+            let mut z = state;
+            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
+            tablet_ids.insert((z ^ (z >> 31)) as u32);
         }
         tablet_ids.into_iter().collect()
     }
-- 
2.43.0


From 695dee3ccae393d4809c2ef6e4c75b9e6d647504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 22/33] fix: tablet cache: report a malformed tablets response
 as an error

An undecodable header is reported as an actor error, but an undecodable
payload of a tablets response panics.
---
 apps/tablet_cache/service/src/actor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index c0c4bf3..48c3248 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -164,7 +164,8 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
                             response,
                         )),
                     InMsg::ExecuteTabletOpsResponse(response) => {
-                        let tablets_response = TabletsResponse::decode(command.payload).unwrap();
+                        let tablets_response = TabletsResponse::decode(command.payload)
+                            .map_err(|_| ActorError::Internal)?;
                         self.transaction_manager.process_in_message(
                             transaction::InMessage::ExecuteTabletOpsResponse(
                                 command.correlation_id,
-- 
2.43.0


From 34b4a4233e7b8fc4a9e38b4462af046c639894d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 23/33] fix: tablet cache: tablets that have never been stored
 are empty

The contents of a tablet that has never been stored cannot be verified against
a hash, and whatever the untrusted tablet data storage answered was taken for
them. Such a tablet has no contents.
---
 apps/tablet_cache/service/src/transaction/data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index af30938..9ecd2f7 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -321,6 +321,13 @@ impl<T> DefaultTabletDataCache<T> {
         {
             return Err(());
         }
+        // Nor do they have any location or contents.
+        if tablet_metadata.blob_hash.is_empty()
+            && tablet_metadata.blob_uri.is_empty()
+            && !tablet_contents.is_empty()
+        {
+            return Err(());
+        }
 
         // Currently table name is not propagated to the serializer, will be
         // added later.
-- 
2.43.0


From ccb7126f1ea3933f079e5f021e119eff6d8af94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:25 +0000
Subject: [PATCH 24/33] fix: snapshot: reject chunks of another snapshot of the
 same sender

---
 runtime/src/snapshot.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 0544317..63a581f 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -768,8 +768,15 @@ impl ReceiverState {
         }
     }
 
-    fn accept_chunk(&mut self, sender_id: u64, index: u64, chunk_contents: Bytes) -> bool {
-        if sender_id != self.sender_id {
+    fn accept_chunk(
+        &mut self,
+        sender_id: u64,
+        snapshot_id: u32,
+        index: u64,
+        chunk_contents: Bytes,
+    ) -> bool {
+        // Reject late chunks of another snapshot, even if sent by the same sender.
+        if sender_id != self.sender_id || snapshot_id != self.snapshot_id {
             return false;
         }
 
@@ -904,6 +911,7 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
                                 // within range.
                                 if state.accept_chunk(
                                     request.sender_replica_id,
+                                    payload.snapshot_id,
                                     chunk.chunk_index.into(),
                                     chunk.chunk_contents,
                                 ) {
-- 
2.43.0


From a74ebc40d62b35223f6521f1597aa8fd461e7b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 25/33] fix: driver: ignore misrouted and malformed Raft
 messages

---
 runtime/src/driver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 8838820..f4c5bdb 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -359,6 +359,7 @@ impl<
                         "Ignoring incorectly routed Raft message: recipient id {}",
                         recipient_replica_id
                     );
+                    return Ok(());
                 }
                 if message.get_from() != sender_replica_id {
                     // Ignore malformed message
@@ -366,6 +367,7 @@ impl<
                         self.logger,
                         "Ignoring malformed Raft message: sender id {}", sender_replica_id
                     );
+                    return Ok(());
                 }
 
                 // Advance Raft internal state by one step.
-- 
2.43.0


From b9a50208760b3732cf69a45e5b4bcf1349bcd159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 26/33] fix: driver: messages that arrive before the start of a
 replica do not crash it

---
 runtime/src/driver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index f4c5bdb..074900d 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -942,6 +942,7 @@ impl<
         &mut self,
         deliver_snapshot_request: DeliverSnapshotRequest,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -982,6 +983,7 @@ impl<
         &mut self,
         deliver_snapshot_response: DeliverSnapshotResponse,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -1020,6 +1022,7 @@ impl<
         &mut self,
         deliver_snapshot_failure: DeliverSnapshotFailure,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         match self.snapshot.mut_processor(self.instant) {
             SnapshotProcessorRole::Sender(sender) => sender.process_response(
@@ -1339,7 +1342,7 @@ impl<
             self.communication.make_tick();
         }
 
-        if !self.is_ephemeral {
+        if !self.is_ephemeral && self.raft.initialized() {
             // Processes outputs from the actor to make raft proposals.
             self.process_actor_raft_proposals();
 
-- 
2.43.0


From c016eb342950a634b47c333f2a30aa0cc810c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:17 +0000
Subject: [PATCH 27/33] fix: driver: a dropped proposal does not crash the
 replica

---
 runtime/src/driver.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 074900d..853276c 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -384,10 +384,24 @@ impl<
         }
     }
 
-    fn make_raft_proposal(&mut self, proposal_contents: Bytes) {
+    fn make_raft_proposal(&mut self, proposal_contents: Bytes) -> Result<(), PalError> {
         debug!(self.logger, "Making Raft proposal");
 
-        self.raft.make_proposal(proposal_contents).unwrap();
+        match self.raft.make_proposal(proposal_contents) {
+            Ok(_) => Ok(()),
+            Err(RaftError::ProposalDropped) => {
+                // Leadership may be lost by the time the proposal is made.
+                warn!(self.logger, "Dropping Raft proposal");
+
+                Ok(())
+            }
+            Err(e) => {
+                error!(self.logger, "Raft experienced unrecoverable error: {}", e);
+
+                // Unrecoverable Raft errors must lead to termination.
+                Err(PalError::Raft)
+            }
+        }
     }
 
     fn make_raft_config_change_proposal(
@@ -1216,12 +1230,14 @@ impl<
         Ok(())
     }
 
-    fn process_actor_raft_proposals(&mut self) {
+    fn process_actor_raft_proposals(&mut self) -> Result<(), PalError> {
         let proposals = self.mut_core().take_outputs();
 
         for proposal in proposals {
-            self.make_raft_proposal(proposal);
+            self.make_raft_proposal(proposal)?;
         }
+
+        Ok(())
     }
 
     fn process_state_machine(&mut self) -> Result<(), PalError> {
@@ -1344,7 +1360,7 @@ impl<
 
         if !self.is_ephemeral && self.raft.initialized() {
             // Processes outputs from the actor to make raft proposals.
-            self.process_actor_raft_proposals();
+            self.process_actor_raft_proposals()?;
 
             // Process snapshot transfer completion or failures.
             self.process_snapshot_progress();
-- 
2.43.0


From e341d555de6171d9ecb2b15b35354bf1253bd400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 28/33] fix: driver: late messages of removed replicas and
 forwarded proposals do not terminate the replica

---
 runtime/src/driver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 853276c..b09c77b 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -372,6 +372,13 @@ impl<
 
                 // Advance Raft internal state by one step.
                 match self.raft.make_step(message) {
+                    Err(e @ (RaftError::StepPeerNotFound | RaftError::ProposalDropped)) => {
+                        // Response of a replica that has left the cluster, or a proposal
+                        // forwarded to a replica that is no longer the leader.
+                        warn!(self.logger, "Ignoring Raft message: {}", e);
+
+                        Ok(())
+                    }
                     Err(e) => {
                         error!(self.logger, "Raft experienced unrecoverable error: {}", e);
 
-- 
2.43.0


From e37839f3dd6e64b68024760a7bde30f536facbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:25 +0000
Subject: [PATCH 29/33] fix: driver: replicas that do not lead answer requests
 to check the cluster

---
 runtime/src/driver.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index b09c77b..64ee142 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -200,6 +200,8 @@ pub struct Driver<R: Raft, S: Store, P: SnapshotProcessor, A: Actor, C: Communic
     is_ephemeral: bool,
     default_clock: Arc<DefaultClock>,
     lameduck_mode: bool,
+    // Whether the state of the cluster must be reported even if it is unchanged.
+    check_cluster_requested: bool,
 }
 
 impl<
@@ -252,6 +254,7 @@ impl<
                 instant: AtomicI64::new(0),
             }),
             lameduck_mode: false,
+            check_cluster_requested: false,
         }
     }
 
@@ -696,6 +699,7 @@ impl<
 
     fn reset_leader_state(&mut self) {
         self.prev_raft_state = RaftState::new();
+        self.check_cluster_requested = true;
     }
 
     fn collect_config_state(&mut self, config_state: RaftConfigState) {
@@ -705,18 +709,19 @@ impl<
     fn stash_leader_state(&mut self) {
         self.raft_state = self.get_raft_state();
 
-        if self.prev_raft_state == self.raft_state {
-            return;
-        }
-
-        self.prev_raft_state = self.raft_state.clone();
+        let check_cluster_requested = mem::take(&mut self.check_cluster_requested);
+        if self.prev_raft_state != self.raft_state {
+            self.prev_raft_state = self.raft_state.clone();
 
-        // Update snapshot processor with the latest raft cluster state.
-        self.update_snapshot_cluster_change();
+            // Update snapshot processor with the latest raft cluster state.
+            self.update_snapshot_cluster_change();
 
-        // Update communication module with the latest set of known replicas.
-        self.communication
-            .process_cluster_change(&self.raft_progress.config_state.voters);
+            // Update communication module with the latest set of known replicas.
+            self.communication
+                .process_cluster_change(&self.raft_progress.config_state.voters);
+        } else if !check_cluster_requested {
+            return;
+        }
 
         // Sent out cluster check message with the update.
         self.stash_message(out_message::Msg::CheckCluster(CheckClusterResponse {
-- 
2.43.0


From c170d0c236e2979537fe75ed81aee995dc44e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:23 +0000
Subject: [PATCH 30/33] fix: communication: messages without a payload do not
 crash the replica

---
 runtime/src/communication.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 9759b4f..8ce0f4e 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -528,10 +528,13 @@ impl CommunicationState {
     }
 
     fn decrypt_message(&mut self, message: in_message::Msg) -> Option<in_message::Msg> {
+        // The payload is optional on the wire, a message without one decrypts as if it
+        // was empty, which fails.
+        let no_payload = Payload::default();
         let encryptor = self.encryptor.as_mut().unwrap();
         let result = match message {
             in_message::Msg::DeliverSystemMessage(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&no_payload))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -540,7 +543,7 @@ impl CommunicationState {
                     Ok(in_message::Msg::DeliverSystemMessage(msg))
                 }),
             in_message::Msg::DeliverSnapshotRequest(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&no_payload))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -549,7 +552,7 @@ impl CommunicationState {
                     Ok(in_message::Msg::DeliverSnapshotRequest(msg))
                 }),
             in_message::Msg::DeliverSnapshotResponse(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+                .decrypt(msg.payload.as_ref().unwrap_or(&no_payload))
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
-- 
2.43.0


From ed8752c067b31127a8577c721d2008ecadc8a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:34 +0000
Subject: [PATCH 31/33] fix: consensus: a leader that has been removed from the
 cluster steps down

---
 runtime/src/consensus.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index 797405e..5d7ee70 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -24,7 +24,7 @@ use raft::{
     eraftpb::Entry as RaftEntry, eraftpb::HardState as RaftHardState,
     eraftpb::Message as RaftMessage, eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig,
     Error as RaftError, RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
-    SoftState as RaftSoftState, StateRole as RaftStateRole, Storage as RaftStorage,
+    SoftState as RaftSoftState, StateRole as RaftStateRole, Storage as RaftStorage, INVALID_ID,
 };
 use slog::Logger;
 
@@ -328,8 +328,18 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         &mut self,
         config_change: &RaftConfigChange,
     ) -> Result<RaftConfigState, RaftError> {
-        let config_state = self.mut_raft_node().apply_conf_change(config_change);
-        config_state
+        let raft_node = self.mut_raft_node();
+        let config_state = raft_node.apply_conf_change(config_change)?;
+
+        let raft = &mut raft_node.raft;
+        if raft.state == RaftStateRole::Leader && !config_state.voters.contains(&raft.id) {
+            // A leader that has been removed from the cluster must step down, it no longer
+            // tracks its own progress and fails if it keeps committing entries.
+            let term = raft.term;
+            raft.become_follower(term, INVALID_ID);
+        }
+
+        Ok(config_state)
     }
 
     fn has_ready(&self) -> bool {
-- 
2.43.0


From a0ec0daa083853673c7bb36e225e442cc123a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:13 +0000
Subject: [PATCH 32/33] fix: consensus: reject changes of the cluster that
 cannot be made

---
 runtime/src/consensus.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index 5d7ee70..f36d6b2 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -20,7 +20,8 @@ use alloc::vec::Vec;
 use hashbrown::HashMap;
 use prost::bytes::Bytes;
 use raft::{
-    eraftpb::ConfChange as RaftConfigChange, eraftpb::ConfState as RaftConfigState,
+    eraftpb::ConfChange as RaftConfigChange, eraftpb::ConfChangeType as RaftConfigChangeType,
+    eraftpb::ConfState as RaftConfigState,
     eraftpb::Entry as RaftEntry, eraftpb::HardState as RaftHardState,
     eraftpb::Message as RaftMessage, eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig,
     Error as RaftError, RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
@@ -316,6 +317,19 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
         &mut self,
         config_change: RaftConfigChange,
     ) -> Result<(), RaftError> {
+        let raft = &self.raft_node().raft;
+        if raft.state != RaftStateRole::Leader || raft.has_pending_conf() {
+            // Only the leader changes the cluster, one change at a time. Raft itself would
+            // forward the proposal respectively silently ignore it.
+            return Err(RaftError::ProposalDropped);
+        }
+        if config_change.get_change_type() == RaftConfigChangeType::RemoveNode
+            && raft.prs().conf().to_conf_state().voters == [config_change.node_id]
+        {
+            // Applying a change that leaves the cluster empty is an unrecoverable error.
+            return Err(RaftError::ProposalDropped);
+        }
+
         self.mut_raft_node()
             .propose_conf_change(vec![], config_change)
     }
-- 
2.43.0


From f9f91e495920b5495d88fffdce54d82da096f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:49 +0000
Subject: [PATCH 33/33] fix: consensus: a snapshot received by a candidate does
 not take it back to the term zero

---
 runtime/src/consensus.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/runtime/src/consensus.rs b/runtime/src/consensus.rs
index f36d6b2..1f210d7 100644
--- a/runtime/src/consensus.rs
+++ b/runtime/src/consensus.rs
@@ -21,11 +21,12 @@ use hashbrown::HashMap;
 use prost::bytes::Bytes;
 use raft::{
     eraftpb::ConfChange as RaftConfigChange, eraftpb::ConfChangeType as RaftConfigChangeType,
-    eraftpb::ConfState as RaftConfigState,
-    eraftpb::Entry as RaftEntry, eraftpb::HardState as RaftHardState,
-    eraftpb::Message as RaftMessage, eraftpb::Snapshot as RaftSnapshot, Config as RaftConfig,
-    Error as RaftError, RawNode as RaftNode, RawNode, Ready, SnapshotStatus as RaftSnapshotStatus,
-    SoftState as RaftSoftState, StateRole as RaftStateRole, Storage as RaftStorage, INVALID_ID,
+    eraftpb::ConfState as RaftConfigState, eraftpb::Entry as RaftEntry,
+    eraftpb::HardState as RaftHardState, eraftpb::Message as RaftMessage,
+    eraftpb::MessageType as RaftMessageType, eraftpb::Snapshot as RaftSnapshot,
+    Config as RaftConfig, Error as RaftError, RawNode as RaftNode, RawNode, Ready,
+    SnapshotStatus as RaftSnapshotStatus, SoftState as RaftSoftState, StateRole as RaftStateRole,
+    Storage as RaftStorage, INVALID_ID,
 };
 use slog::Logger;
 
@@ -306,7 +307,17 @@ impl<S: Store + RaftStorage> Raft for RaftSimple<S> {
     }
 
     fn make_step(&mut self, message: RaftMessage) -> Result<(), RaftError> {
-        self.mut_raft_node().step(message)
+        let raft_node = self.mut_raft_node();
+        if message.term == 0
+            && message.msg_type() == RaftMessageType::MsgSnapshot
+            && raft_node.raft.state != RaftStateRole::Follower
+        {
+            // A snapshot received from a peer does not carry a term. Raft assumes that it comes
+            // from the leader of the current term, which makes a candidate adopt the term of
+            // the message, that is to go back to the term zero.
+            return Ok(());
+        }
+        raft_node.step(message)
     }
 
     fn make_proposal(&mut self, proposal: Bytes) -> Result<(), RaftError> {
-- 
2.43.0

