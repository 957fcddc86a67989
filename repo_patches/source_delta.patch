From 44209051dfe86a233f28ff340d4d939ee197fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:19 +0000
Subject: [PATCH 01/31] verif: guarded hooks exposing private state to runtime
 monitors (cfg tonbo_verif)

---
 src/db/mod.rs | 8 ++++++++
 src/lib.rs    | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 6b9c595..b987a63 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -32,6 +32,14 @@ mod error;
 mod scan;
 #[cfg(all(test, feature = "tokio"))]
 mod tests;
+/// Runtime-verification access to private state, compiled only under `--cfg tonbo_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(tonbo_verif)]
+#[doc(hidden)]
+#[allow(missing_docs, dead_code, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("TONBO_VERIF_DIR"), "/db.rs"));
+}
 mod wal;
 
 pub use builder::{
diff --git a/src/lib.rs b/src/lib.rs
index 3e0b47b..6e076ba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -280,3 +280,12 @@ pub(crate) mod ondisk;
 
 /// Simple compaction orchestrators.
 pub(crate) mod compaction;
+
+/// Runtime-verification drivers, compiled only under `--cfg tonbo_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(tonbo_verif)]
+#[doc(hidden)]
+#[allow(missing_docs, dead_code, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("TONBO_VERIF_DIR"), "/lib.rs"));
+}
-- 
2.43.0


From 7e62ca87ed19519719f3c0d5cce9274aa4dbd6e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 02/31] verif: guarded compaction hook (cfg tonbo_verif)

---
 src/compaction/driver.rs | 7 +++++++
 src/compaction/mod.rs    | 3 +++
 src/db/mod.rs            | 1 -
 src/lib.rs               | 2 +-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compaction/driver.rs b/src/compaction/driver.rs
index 9801450..935e7e5 100644
--- a/src/compaction/driver.rs
+++ b/src/compaction/driver.rs
@@ -1262,3 +1262,10 @@ where
         CompactionHandle::new(abort, Some(handle), Some(tick_tx))
     }
 }
+
+/// Runtime-verification access to private state, compiled only under `--cfg tonbo_verif`.
+#[cfg(tonbo_verif)]
+#[allow(missing_docs, dead_code, clippy::all)]
+pub(crate) mod verif {
+    include!(concat!(env!("TONBO_VERIF_DIR"), "/compaction.rs"));
+}
diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index be3772a..42e574b 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -21,6 +21,9 @@ pub mod planner;
 /// Scheduler scaffolding for background/remote compaction (native builds only for now).
 mod scheduler;
 
+#[allow(unused_imports)]
+#[cfg(tonbo_verif)]
+pub(crate) use driver::verif;
 pub(crate) use driver::{CompactionDriver, CompactionWorkerConfig};
 pub(crate) use handle::CompactionHandle;
 pub(crate) use minor::MinorCompactor;
diff --git a/src/db/mod.rs b/src/db/mod.rs
index b987a63..c37ef11 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -33,7 +33,6 @@ mod scan;
 #[cfg(all(test, feature = "tokio"))]
 mod tests;
 /// Runtime-verification access to private state, compiled only under `--cfg tonbo_verif`.
-#[allow(unexpected_cfgs)]
 #[cfg(tonbo_verif)]
 #[doc(hidden)]
 #[allow(missing_docs, dead_code, clippy::all)]
diff --git a/src/lib.rs b/src/lib.rs
index 6e076ba..e65557b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![deny(missing_docs)]
 #![deny(clippy::unwrap_used, dead_code)]
+#![allow(unexpected_cfgs)]
 //! Tonbo is an embedded database for serverless data-intensive applications.
 //!
 //! - **Arrow-native schemas** with rich, typed structures
@@ -282,7 +283,6 @@ pub(crate) mod ondisk;
 pub(crate) mod compaction;
 
 /// Runtime-verification drivers, compiled only under `--cfg tonbo_verif`.
-#[allow(unexpected_cfgs)]
 #[cfg(tonbo_verif)]
 #[doc(hidden)]
 #[allow(missing_docs, dead_code, clippy::all)]
-- 
2.43.0


From 548a5bdd2d957c6f6670217fce2c8978753b6eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:08 +0000
Subject: [PATCH 03/31] verif: guarded tuning hooks for memtable capacity and
 seal policy (cfg tonbo_verif)

---
 src/inmem/mutable/memtable.rs | 4 ++++
 src/inmem/policy.rs           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 654e707..594db6b 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -610,6 +610,10 @@ impl DynMem {
         extractor: Arc<dyn KeyProjection>,
         delete_projection: Arc<dyn KeyProjection>,
     ) -> Self {
+        #[cfg(tonbo_verif)]
+        if let Some(capacity) = crate::verif::tuning::mem_capacity() {
+            return Self::with_capacity(schema, extractor, delete_projection, capacity);
+        }
         Self::with_capacity(schema, extractor, delete_projection, DEFAULT_BATCH_CAPACITY)
     }
 
diff --git a/src/inmem/policy.rs b/src/inmem/policy.rs
index 9233f20..c2bf690 100644
--- a/src/inmem/policy.rs
+++ b/src/inmem/policy.rs
@@ -97,6 +97,10 @@ impl SealPolicy for NeverSeal {
 /// overly aggressive sealing for small workloads. Callers can override this
 /// policy via `DB::set_seal_policy`.
 pub fn default_policy() -> Arc<dyn SealPolicy + Send + Sync> {
+    #[cfg(tonbo_verif)]
+    if let Some(policy) = crate::verif::tuning::seal_policy() {
+        return policy;
+    }
     use std::time::Duration;
     Arc::new(AnyOf::new(vec![
         Arc::new(BytesThreshold {
-- 
2.43.0


From 7f66f163b10c37f46e2897aa4042cda01df67fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:08 +0000
Subject: [PATCH 04/31] fix: keep non-key predicates out of SST pruning and row
 filters when versions must be merged

A filter on a non-key column applied before the MVCC merge can drop the newest version of a row
and let an older version of the same key through, so a filtered scan returned stale rows. Only
primary-key predicates are pushed below the merge now, unless one single-commit SST is all there
is to read.
---
 src/db/scan.rs | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index b5b0987..e1cb209 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -32,6 +32,7 @@ use crate::{
         mutable::memtable::DynRowScanEntry,
     },
     key::{KeyOwned, KeyRow},
+    manifest::SstEntry,
     mode::fingerprint_schema,
     mutation::DynMutation,
     mvcc::{MVCC_COMMIT_COL, Timestamp},
@@ -206,9 +207,6 @@ impl TxSnapshot {
         let projection_schema = projected_schema.as_ref().unwrap_or(&db.schema);
         let predicate_scan_schema =
             projection_with_predicate(&db.schema, projection_schema, Some(predicate))?;
-        let split = split_predicate_for_row_filter(predicate, &predicate_scan_schema);
-        let mut pushdown_predicate = split.pushdown;
-        let mut residual_predicate = split.residual;
         let read_ts = self.read_view().read_ts();
         let key_schema = db.extractor().key_schema();
         let key_bounds = key_bounds_for_predicate(predicate, &key_schema);
@@ -261,6 +259,29 @@ impl TxSnapshot {
             executor: executor.clone(),
         };
         let has_non_sst = !mutable_row_set.is_empty() || !immutable_indexes.is_empty();
+        // Filtering an SST before the MVCC merge by anything but the primary key could drop the
+        // newest version of a row and expose an older one. Primary-key predicates treat all
+        // versions of a key alike; other columns only qualify when a single commit in a single
+        // SST is all there is to merge.
+        let single_version = !has_non_sst
+            && !force_predicate_columns
+            && self
+                .table_snapshot()
+                .latest_version
+                .as_ref()
+                .is_none_or(|version| holds_single_version(version.ssts()));
+        let split = if single_version {
+            split_predicate_for_row_filter(predicate, &predicate_scan_schema)
+        } else {
+            split_predicate_for_row_filter(predicate, &key_schema)
+        };
+        let sst_predicate = if single_version {
+            predicate.clone()
+        } else {
+            split.pushdown.clone().unwrap_or(Expr::True)
+        };
+        let mut pushdown_predicate = split.pushdown;
+        let mut residual_predicate = split.residual;
         let non_sst_residual = if force_predicate_columns && !matches!(predicate, Expr::True) {
             Some(predicate.clone())
         } else if has_non_sst {
@@ -300,7 +321,7 @@ impl TxSnapshot {
             let (mut selection, requires_residual) = prune_sst_selection(
                 &prune_ctx,
                 entry.data_path(),
-                predicate,
+                &sst_predicate,
                 read_ts,
                 &predicate_scan_schema,
                 &key_schema,
@@ -373,6 +394,18 @@ impl TxSnapshot {
     }
 }
 
+/// Whether the SSTs cannot hold two versions of the same key: one table written by one commit.
+fn holds_single_version(levels: &[Vec<SstEntry>]) -> bool {
+    let mut entries = levels.iter().flatten();
+    let (Some(entry), None) = (entries.next(), entries.next()) else {
+        return false;
+    };
+    entry.delete_path().is_none()
+        && entry
+            .stats()
+            .is_none_or(|stats| stats.min_commit_ts == stats.max_commit_ts)
+}
+
 async fn prune_sst_selection<E>(
     ctx: &PruneContext<E>,
     data_path: &fusio::path::Path,
-- 
2.43.0


From 85d9d0fc922999ce2befa5fa5a6a1cdeae29d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:08 +0000
Subject: [PATCH 05/31] fix: resolve Transaction::get through the snapshot scan

Point reads only looked at the mutable memtable and the sealed segments: rows already flushed to
SSTs were reported missing, and tombstones in a newer segment did not hide older rows.
---
 src/db/scan.rs         | 59 ++-----------------------------
 src/key/ts.rs          |  5 ---
 src/transaction/mod.rs | 79 ++++++++++++++++++++++++++----------------
 3 files changed, 52 insertions(+), 91 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index e1cb209..68c6163 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -27,11 +27,8 @@ use typed_arrow_dyn::DynRow;
 use crate::{
     db::DbInner,
     extractor::{KeyExtractError, KeyProjection, projection_for_columns},
-    inmem::{
-        immutable::{self, ImmutableSegment, memtable::ImmutableVisibleEntry},
-        mutable::memtable::DynRowScanEntry,
-    },
-    key::{KeyOwned, KeyRow},
+    inmem::immutable::{self, ImmutableSegment},
+    key::KeyOwned,
     manifest::SstEntry,
     mode::fingerprint_schema,
     mutation::DynMutation,
@@ -841,58 +838,6 @@ where
         Ok(streams)
     }
 
-    pub(crate) fn scan_immutable_rows_at(
-        &self,
-        read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
-        let mut rows = Vec::new();
-        let segments = self.seal_state_lock().immutables.clone();
-        for segment in segments {
-            let scan = segment.scan_visible(None, read_ts)?;
-            for result in scan {
-                match result {
-                    Ok(ImmutableVisibleEntry::Row(key_view, row_raw)) => {
-                        let row = row_raw.into_owned().map_err(|err| {
-                            KeyExtractError::Arrow(arrow_schema::ArrowError::ComputeError(
-                                err.to_string(),
-                            ))
-                        })?;
-                        let (key_row, _) = key_view.into_parts();
-                        rows.push((key_row, row));
-                    }
-                    Ok(ImmutableVisibleEntry::Tombstone(_)) => {}
-                    Err(err) => return Err(KeyExtractError::from(err)),
-                }
-            }
-        }
-        Ok(rows)
-    }
-
-    pub(crate) fn scan_mutable_rows_at(
-        &self,
-        read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
-        let mut rows = Vec::new();
-        let mem = self.mem.read();
-        let scan = mem.scan_visible(None, read_ts)?;
-        for entry in scan {
-            match entry {
-                Ok(DynRowScanEntry::Row(key_view, row_raw)) => {
-                    let row = row_raw.into_owned().map_err(|err| {
-                        KeyExtractError::Arrow(arrow_schema::ArrowError::ComputeError(
-                            err.to_string(),
-                        ))
-                    })?;
-                    let (key_row, _) = key_view.into_parts();
-                    rows.push((key_row, row));
-                }
-                Ok(DynRowScanEntry::Tombstone(_)) => {}
-                Err(err) => return Err(KeyExtractError::from(err)),
-            }
-        }
-        Ok(rows)
-    }
-
     /// Begin building a scan query with fluent API.
     #[cfg(test)]
     pub fn scan(&self) -> ScanBuilder<'_, FS, E> {
diff --git a/src/key/ts.rs b/src/key/ts.rs
index a5d77bf..b58b91b 100644
--- a/src/key/ts.rs
+++ b/src/key/ts.rs
@@ -38,11 +38,6 @@ impl KeyTsViewRaw {
     pub(crate) fn timestamp(&self) -> Timestamp {
         self.ts
     }
-
-    /// Decompose the view.
-    pub(crate) fn into_parts(self) -> (KeyRow, Timestamp) {
-        (self.key, self.ts)
-    }
 }
 
 impl PartialEq for KeyTsViewRaw {
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 7188f62..14163eb 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -8,7 +8,7 @@
 use std::{collections::BTreeMap, fmt, sync::Arc};
 
 use arrow_array::RecordBatch;
-use arrow_schema::{Fields, SchemaRef};
+use arrow_schema::{DataType, Fields, SchemaRef};
 use fusio::executor::{Executor, Timer};
 use lockable::AsyncLimit;
 use thiserror::Error;
@@ -389,11 +389,6 @@ where
         }
     }
 
-    /// Snapshot timestamp guarding conflict detection for this transaction.
-    pub(crate) fn read_ts(&self) -> Timestamp {
-        self.staged.snapshot_ts()
-    }
-
     /// Returns `true` when no mutations have been staged.
     pub fn is_empty(&self) -> bool {
         self.staged.is_empty()
@@ -464,8 +459,31 @@ where
                 DynMutation::Delete(_) => None,
             });
         }
-        let rows = self.read_mutable_rows(&*self.handle)?;
-        Ok(rows.get(key).map(clone_dyn_row))
+        // Point lookups resolve through the snapshot scan, so that every layer (including SSTs and
+        // the tombstones shadowing older versions) takes part in MVCC resolution.
+        let mut scan = ScanBuilder::from_snapshot(&self.handle, &self._snapshot);
+        if let Some(predicate) = Self::key_equality_predicate(&self.extractor.key_schema(), key) {
+            scan = scan.filter(predicate);
+        }
+        let dyn_schema = DynSchema::from_ref(Arc::clone(&self.schema));
+        let projection = DynProjection::from_schema(self.schema.as_ref(), self.schema.as_ref())
+            .map_err(TransactionError::DynKey)?;
+        for batch in scan.collect().await? {
+            let rows: Vec<usize> = (0..batch.num_rows()).collect();
+            let keys = self
+                .extractor
+                .project_view(&batch, &rows)
+                .map_err(TransactionError::KeyExtract)?;
+            for (row, found) in rows.into_iter().zip(keys) {
+                if found.to_owned() == *key {
+                    let raw = projection
+                        .project_row_raw(&dyn_schema, &batch, row)
+                        .map_err(TransactionError::DynKey)?;
+                    return raw.into_owned().map(Some).map_err(TransactionError::DynKey);
+                }
+            }
+        }
+        Ok(None)
     }
 
     /// Begin building a scan query with fluent API.
@@ -529,29 +547,32 @@ where
         Ok(())
     }
 
-    fn read_mutable_rows<C>(
-        &self,
-        db: &DbInner<C, E>,
-    ) -> Result<BTreeMap<KeyOwned, DynRow>, TransactionError>
-    where
-        C: crate::manifest::ManifestFs<E>,
-        <C as fusio::fs::Fs>::File: fusio::durability::FileCommit,
-    {
-        let read_ts = self.read_ts();
-        let mut out = BTreeMap::new();
-        let rows = db
-            .scan_mutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?;
-        for (key_row, row) in rows {
-            out.insert(key_row.to_owned(), row);
+    /// Predicate selecting exactly `key`, when every key component has a scalar literal form.
+    fn key_equality_predicate(
+        key_schema: &SchemaRef,
+        key: &KeyOwned,
+    ) -> Option<crate::query::Expr> {
+        use crate::query::{Expr, ScalarValue};
+
+        let cells = key.as_row().cells();
+        if cells.len() != key_schema.fields().len() {
+            return None;
         }
-        for (key, row) in db
-            .scan_immutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?
-        {
-            out.entry(key.to_owned()).or_insert(row);
+        let mut parts = Vec::with_capacity(cells.len());
+        for (field, cell) in key_schema.fields().iter().zip(cells) {
+            let value = match (field.data_type(), cell.as_ref()?) {
+                (DataType::Int64, DynCell::I64(v)) => ScalarValue::Int64(Some(*v)),
+                (DataType::UInt64, DynCell::U64(v)) => ScalarValue::UInt64(Some(*v)),
+                (DataType::Utf8, DynCell::Str(v)) => ScalarValue::Utf8(Some(v.clone())),
+                _ => return None,
+            };
+            parts.push(Expr::eq(field.name().clone(), value));
         }
-        Ok(out)
+        Some(if parts.len() == 1 {
+            parts.remove(0)
+        } else {
+            Expr::and(parts)
+        })
     }
 
     /// Commit the staged mutations into the supplied DB, ensuring WAL durability first.
-- 
2.43.0


From 23ace16c1bbe5bd6be85606e5288be0e7adcf233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:45 +0000
Subject: [PATCH 06/31] fix: resume WAL sequences from the newest segment that
 holds frames

When the active segment had no complete frame (a crash right after rotation, or a torn first
frame), frame sequences and provisional ids restarted at the initial value. New transactions
then reused the id of a logged but uncommitted one, and the next recovery replayed both as one
commit.
---
 src/wal/storage.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 9086ffb..29e1b39 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -271,13 +271,24 @@ impl WalStorage {
         let completed = segments;
         let TailScan {
             last,
+            max_provisional_id,
             file_len,
             truncated,
             buffer,
         } = self.scan_tail(&active.path).await?;
 
-        let last_frame_seq = last.as_ref().map(|meta| meta.seq);
-        let last_provisional_id = last.as_ref().and_then(|meta| meta.provisional_id);
+        let mut last_frame_seq = last.as_ref().map(|meta| meta.seq);
+        let mut last_provisional_id = max_provisional_id;
+        // A segment that was just opened (or lost its only frame) says nothing about the sequences
+        // already handed out: those continue from the newest completed segment holding a frame.
+        for segment in completed.iter().rev() {
+            if last_frame_seq.is_some() {
+                break;
+            }
+            let scan = self.scan_tail(&segment.path).await?;
+            last_frame_seq = scan.last.as_ref().map(|meta| meta.seq);
+            last_provisional_id = scan.max_provisional_id;
+        }
         let last_valid_offset = last.as_ref().map(|meta| meta.end_offset);
 
         let mut truncated_tail = truncated;
@@ -335,6 +346,7 @@ impl WalStorage {
         let file_len = data.len();
         let mut offset = 0usize;
         let mut last = None;
+        let mut max_provisional_id = None;
         let mut truncated = false;
         while offset < data.len() {
             let slice = &data[offset..];
@@ -371,9 +383,9 @@ impl WalStorage {
                 _ => None,
             };
 
+            max_provisional_id = max_provisional_id.max(provisional_id);
             last = Some(FrameTailMeta {
                 seq: header.seq,
-                provisional_id,
                 end_offset: payload_end,
             });
             offset = payload_end;
@@ -391,6 +403,7 @@ impl WalStorage {
 
         Ok(TailScan {
             last,
+            max_provisional_id,
             file_len,
             truncated,
             buffer,
@@ -460,12 +473,12 @@ impl WalStorage {
 
 struct FrameTailMeta {
     seq: u64,
-    provisional_id: Option<u64>,
     end_offset: usize,
 }
 
 struct TailScan {
     last: Option<FrameTailMeta>,
+    max_provisional_id: Option<u64>,
     file_len: usize,
     truncated: bool,
     buffer: Option<Vec<u8>>,
@@ -526,7 +539,7 @@ pub(crate) struct TailMetadata {
     pub(super) completed: Vec<SegmentDescriptor>,
     /// Sequence of the last fully decoded frame (if any).
     pub(super) last_frame_seq: Option<u64>,
-    /// Provisional ID carried by the last complete frame (if any).
+    /// Highest provisional ID carried by the newest segment that holds frames (if any).
     pub(super) last_provisional_id: Option<u64>,
 }
 
-- 
2.43.0


From 631554695e433f57380109e7a35f7ebf612d8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:45 +0000
Subject: [PATCH 07/31] fix: compare key predicates in the key column's own
 type

Integer literals became 64-bit keys whatever the key column's type, and keys of different types
order by type tag: range predicates over Int32/UInt32 keys (or mixed signedness) dropped or kept
the wrong rows. Literals are converted to the column type, and a literal that cannot be stays in
the residual filter.
---
 src/db/scan.rs    | 12 +++++++----
 src/query/scan.rs | 51 +++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 68c6163..a66bfb7 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -1235,11 +1235,12 @@ fn split_predicate_for_non_sst(predicate: &Expr, key_schema: &SchemaRef) -> NonS
             residual: Some(predicate.clone()),
         };
     };
-    split_predicate_for_non_sst_inner(predicate, key_field.name(), key_field.data_type())
+    split_predicate_for_non_sst_inner(predicate, key_schema, key_field.name(), key_field.data_type())
 }
 
 fn split_predicate_for_non_sst_inner(
     predicate: &Expr,
+    key_schema: &SchemaRef,
     key_column: &str,
     key_type: &DataType,
 ) -> NonSstPredicateSplit {
@@ -1253,7 +1254,10 @@ fn split_predicate_for_non_sst_inner(
             residual: None,
         },
         Expr::Cmp { column, op, .. } => {
-            if column != key_column || matches!(op, aisle::CmpOp::NotEq) {
+            if column != key_column
+                || matches!(op, aisle::CmpOp::NotEq)
+                || key_bounds_for_predicate(predicate, key_schema).is_none()
+            {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
@@ -1265,7 +1269,7 @@ fn split_predicate_for_non_sst_inner(
             }
         }
         Expr::Between { column, .. } => {
-            if column != key_column {
+            if column != key_column || key_bounds_for_predicate(predicate, key_schema).is_none() {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
@@ -1300,7 +1304,7 @@ fn split_predicate_for_non_sst_inner(
             let mut pushdown = Vec::new();
             let mut residual = Vec::new();
             for child in children {
-                let split = split_predicate_for_non_sst_inner(child, key_column, key_type);
+                let split = split_predicate_for_non_sst_inner(child, key_schema, key_column, key_type);
                 if let Some(expr) = split.pushdown {
                     pushdown.push(expr);
                 }
diff --git a/src/query/scan.rs b/src/query/scan.rs
index 2401a59..d69c9e0 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -487,8 +487,47 @@ pub(crate) fn key_bounds_for_predicate(
     bounds_from_expr(predicate, key_column, field.data_type())
 }
 
-fn scalar_to_key(value: &ScalarValue) -> Option<KeyOwned> {
-    <KeyOwned as KeyPredicateValue>::from_scalar(value)
+/// Convert a literal into a key of the column's own type; keys of different types do not compare.
+fn scalar_to_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
+    match key_type {
+        DataType::Int32 => i32::from_scalar(value).map(KeyOwned::from),
+        DataType::Int64 => i64::from_scalar(value).map(KeyOwned::from),
+        DataType::UInt32 => u32::try_from(i64::from_scalar(value)?)
+            .ok()
+            .map(KeyOwned::from),
+        DataType::UInt64 => match value {
+            ScalarValue::UInt64(Some(v)) => Some(KeyOwned::from(*v)),
+            other => u64::try_from(i64::from_scalar(other)?)
+                .ok()
+                .map(KeyOwned::from),
+        },
+        DataType::Float32 => match value {
+            ScalarValue::Float32(Some(v)) => Some(KeyOwned::from(*v)),
+            _ => None,
+        },
+        DataType::Float64 => match value {
+            ScalarValue::Float32(_) | ScalarValue::Float64(_) => KeyOwned::from_scalar(value),
+            _ => None,
+        },
+        DataType::Boolean => match value {
+            ScalarValue::Boolean(_) => KeyOwned::from_scalar(value),
+            _ => None,
+        },
+        DataType::Utf8 | DataType::LargeUtf8 | DataType::Utf8View => match value {
+            ScalarValue::Utf8(_) | ScalarValue::LargeUtf8(_) | ScalarValue::Utf8View(_) => {
+                KeyOwned::from_scalar(value)
+            }
+            _ => None,
+        },
+        DataType::Binary | DataType::LargeBinary | DataType::BinaryView => match value {
+            ScalarValue::Binary(_)
+            | ScalarValue::LargeBinary(_)
+            | ScalarValue::BinaryView(_)
+            | ScalarValue::FixedSizeBinary(_, _) => KeyOwned::from_scalar(value),
+            _ => None,
+        },
+        _ => None,
+    }
 }
 
 fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Option<KeyBounds> {
@@ -496,7 +535,7 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
         Expr::True => None,
         Expr::False => Some(KeyBounds::empty()),
         Expr::Cmp { column, op, value } if column == key_column => {
-            let key = scalar_to_key(value)?;
+            let key = scalar_to_key(value, key_type)?;
             let bounds = match op {
                 aisle::CmpOp::Eq => KeyBounds::with_range((key.clone(), true), (key, true)),
                 aisle::CmpOp::NotEq => return None,
@@ -513,8 +552,8 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             high,
             inclusive,
         } if column == key_column => {
-            let low_key = scalar_to_key(low)?;
-            let high_key = scalar_to_key(high)?;
+            let low_key = scalar_to_key(low, key_type)?;
+            let high_key = scalar_to_key(high, key_type)?;
             Some(KeyBounds::with_range(
                 (low_key, *inclusive),
                 (high_key, *inclusive),
@@ -538,7 +577,7 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             }
             let mut keys = Vec::with_capacity(values.len());
             for value in values {
-                let key = scalar_to_key(value)?;
+                let key = scalar_to_key(value, key_type)?;
                 keys.push(key);
             }
             let min = keys.iter().min().cloned()?;
-- 
2.43.0


From ef3c2d1647ef2f28d700d42927658615f7699a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:38 +0000
Subject: [PATCH 08/31] fix: keep WAL frames pinned for data still in memory
 after a seal

The WAL floor published by a flush came from the mutable memtable's frame range alone. That range
is handed to the sealed segment when a full memtable is sealed inside an insert and when replay
seals, so the batch that landed in the fresh memtable pinned nothing; segments sealed while a
flush was under way were ignored as well. The flush then released WAL segments holding the only
durable copy of acknowledged rows.
---
 src/db/mod.rs          |  9 +++++++--
 src/db/wal.rs          | 32 ++++++++++++++++++++++++++++++++
 src/transaction/mod.rs |  3 +++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index c37ef11..a6e209c 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -800,10 +800,15 @@ where
         // Record WAL spans BEFORE insert that may trigger auto-seal.
         // If we record after, a sealed segment would miss the current batch's frames,
         // causing WAL GC to prematurely delete frames needed for recovery.
-        for (first, last) in wal_spans {
+        for &(first, last) in &wal_spans {
             self.observe_mutable_wal_span(first, last);
         }
         self.insert_into_mutable(batch, commit_ts)?;
+        // The insert seals a full memtable first, which takes the recorded spans away from the
+        // memtable now holding this batch.
+        for &(first, last) in &wal_spans {
+            self.observe_mutable_wal_span(first, last);
+        }
         self.maybe_seal_after_insert()?;
         self.maybe_run_minor_compaction().await.map_err(|err| {
             KeyExtractError::Arrow(ArrowError::ComputeError(format!(
@@ -1119,7 +1124,7 @@ where
             builder.add_immutable(seg)?;
         }
         let existing_floor = self.manifest_wal_floor().await;
-        let live_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
+        let live_floor = self.unflushed_wal_frame_floor(flush_count);
         let (wal_ids, wal_refs) = if let Some(cfg) = &self.wal_config {
             match manifest_ext::collect_wal_segment_refs(cfg, existing_floor.as_ref(), live_floor)
                 .await
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 1a7e49e..1dc3c68 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -214,6 +214,9 @@ where
     ) -> Result<Option<Timestamp>, KeyExtractError> {
         let mut last_commit_ts: Option<Timestamp> = None;
         let mut pending: PendingWalTxns = HashMap::new();
+        // Sealing during replay hands the range to the sealed segment; whatever is replayed after
+        // that still only exists in the same WAL frames and has to keep pinning them.
+        let replay_range = self.mutable_wal_range_snapshot();
         for event in events {
             match event {
                 WalEvent::TxnBegin { provisional_id } => {
@@ -271,7 +274,9 @@ where
                                         );
                                     }
                                     apply_dyn_wal_batch(self, batch, commit_ts_column, commit_ts)?;
+                                    self.retain_mutable_wal_range(replay_range);
                                     self.maybe_seal_after_insert()?;
+                                    self.retain_mutable_wal_range(replay_range);
                                 }
                                 PendingWalPayload::Delete {
                                     batch,
@@ -284,7 +289,9 @@ where
                                         );
                                     }
                                     apply_dyn_delete_wal_batch(self, batch, commit_ts)?;
+                                    self.retain_mutable_wal_range(replay_range);
                                     self.maybe_seal_after_insert()?;
+                                    self.retain_mutable_wal_range(replay_range);
                                 }
                             }
                         }
@@ -390,6 +397,29 @@ where
         seal.immutable_wal_ranges.push(wal_range);
     }
 
+    /// Lowest WAL frame needed by data that stays in memory once the oldest `flushed` sealed
+    /// segments are persisted.
+    pub(crate) fn unflushed_wal_frame_floor(&self, flushed: usize) -> Option<u64> {
+        let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
+        let sealed_floor = self
+            .seal_state_lock()
+            .immutable_wal_ranges
+            .iter()
+            .skip(flushed)
+            .filter_map(|range| range.as_ref().map(|r| r.first))
+            .min();
+        mutable_floor.into_iter().chain(sealed_floor).min()
+    }
+
+    /// Keep `range` pinned by the mutable memtable after an insert that may have auto-sealed: a
+    /// full memtable is sealed (taking the accumulated range with it) before the batch lands in
+    /// its replacement.
+    pub(crate) fn retain_mutable_wal_range(&self, range: Option<WalFrameRange>) {
+        if let Some(range) = range {
+            self.record_mutable_wal_range(range);
+        }
+    }
+
     fn record_mutable_wal_range(&self, range: WalFrameRange) {
         let mut guard = self
             .mutable_wal_range
@@ -497,12 +527,14 @@ where
         {
             let wal_range_take = db.take_mutable_wal_range();
             db.add_immutable(sealed, wal_range_take);
+            db.retain_mutable_wal_range(wal_range);
         }
         if let Some(batch) = delete_batch
             && let Some(sealed) = db.mem.insert_delete_batch(batch)?
         {
             let wal_range_take = db.take_mutable_wal_range();
             db.add_immutable(sealed, wal_range_take);
+            db.retain_mutable_wal_range(wal_range);
         }
         db.maybe_seal_after_insert()?;
         db.maybe_run_minor_compaction()
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 14163eb..326df7d 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -658,6 +658,9 @@ where
                         delete_payload.take(),
                         commit_ts,
                     )?;
+                    // Sealing a full memtable took the range along; the rows applied since then
+                    // still need it.
+                    publish_ctx.record_wal_range(&wal_range);
                     publish_ctx.finalize_manifest(wal_range).await?;
                 }
                 CommitAckMode::Fast => {
-- 
2.43.0


From e97a420a03b2d61a78c4ff0bf759e3cc116af137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:25 +0000
Subject: [PATCH 09/31] verif: guarded driver hooks in wal, manifest and
 transaction (cfg tonbo_verif)

---
 src/manifest/mod.rs    | 7 +++++++
 src/transaction/mod.rs | 7 +++++++
 src/wal/mod.rs         | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/src/manifest/mod.rs b/src/manifest/mod.rs
index e91e3c6..0ff4458 100644
--- a/src/manifest/mod.rs
+++ b/src/manifest/mod.rs
@@ -47,3 +47,10 @@ pub(crate) use domain::{
 pub use driver::ManifestError;
 pub(crate) use driver::ManifestResult;
 pub(crate) use version::VersionEdit;
+
+/// Runtime-verification drivers, compiled only under `--cfg tonbo_verif`.
+#[cfg(tonbo_verif)]
+#[allow(missing_docs, dead_code, clippy::all)]
+pub(crate) mod verif {
+    include!(concat!(env!("TONBO_VERIF_DIR"), "/manifest.rs"));
+}
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 326df7d..742e036 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -1498,3 +1498,10 @@ pub enum TransactionCommitError {
         index: usize,
     },
 }
+
+/// Runtime-verification drivers, compiled only under `--cfg tonbo_verif`.
+#[cfg(tonbo_verif)]
+#[allow(missing_docs, dead_code, clippy::all)]
+pub(crate) mod verif {
+    include!(concat!(env!("TONBO_VERIF_DIR"), "/transaction.rs"));
+}
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index e306ed1..1c029a3 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -1004,3 +1004,10 @@ where
         self.wal_handle()
     }
 }
+
+/// Runtime-verification drivers, compiled only under `--cfg tonbo_verif`.
+#[cfg(tonbo_verif)]
+#[allow(missing_docs, dead_code, clippy::all)]
+pub(crate) mod verif {
+    include!(concat!(env!("TONBO_VERIF_DIR"), "/wal.rs"));
+}
-- 
2.43.0


From e827f4452fa6bc2184d0eeed247ebc6cda399099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:51 +0000
Subject: [PATCH 10/31] fix: count delete sidecar timestamps in immutable
 memtable bounds

prune_segments skipped a sealed memtable whose rows are all newer than the
read timestamp even when it holds older deletes, resurrecting deleted rows.
---
 src/inmem/immutable/memtable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inmem/immutable/memtable.rs b/src/inmem/immutable/memtable.rs
index fae1e7e..de0f210 100644
--- a/src/inmem/immutable/memtable.rs
+++ b/src/inmem/immutable/memtable.rs
@@ -148,7 +148,7 @@ impl ImmutableMemTable {
     }
 
     pub(crate) fn commit_ts_bounds(&self) -> Option<(Timestamp, Timestamp)> {
-        let mut iter = self.mvcc.commit_ts.iter();
+        let mut iter = self.mvcc.commit_ts.iter().chain(&self.deletes.commit_ts);
         let first = iter.next()?;
         let mut min_ts = *first;
         let mut max_ts = *first;
-- 
2.43.0


From faf1e5f523f65e595901d8d5260e5837b34fa878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:51 +0000
Subject: [PATCH 11/31] fix: reject out-of-range key columns instead of
 panicking

---
 src/extractor/extractors.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/extractor/extractors.rs b/src/extractor/extractors.rs
index eefda74..cba767d 100644
--- a/src/extractor/extractors.rs
+++ b/src/extractor/extractors.rs
@@ -63,7 +63,14 @@ impl DynKeyProjection {
             )));
         }
         for &col in &columns {
-            ensure_supported_type(schema.field(col).data_type(), col)?;
+            let field = schema
+                .fields()
+                .get(col)
+                .ok_or(KeyExtractError::ColumnOutOfBounds(
+                    col,
+                    schema.fields().len(),
+                ))?;
+            ensure_supported_type(field.data_type(), col)?;
         }
 
         let projection =
-- 
2.43.0


From 6f0994ab33b747504d513637a457874cca758c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:51 +0000
Subject: [PATCH 12/31] fix: give float keys a total order and a hash that
 agrees with equality

---
 src/key/row.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/key/row.rs b/src/key/row.rs
index 30b7c10..c6cfb4c 100644
--- a/src/key/row.rs
+++ b/src/key/row.rs
@@ -323,18 +323,23 @@ fn floats_equal_f64(lhs: f64, rhs: f64) -> bool {
 }
 
 fn floats_cmp_f32(lhs: f32, rhs: f32) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN equals NaN and sorts after every other value.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn floats_cmp_f64(lhs: f64, rhs: f64) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN equals NaN and sorts after every other value.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
     } else {
-        value.to_bits().hash(state);
+        // `-0.0 == 0.0`, so both must hash alike.
+        (value + 0.0).to_bits().hash(state);
     }
 }
 
@@ -342,7 +347,8 @@ fn hash_float_f64<H: Hasher>(value: f64, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
     } else {
-        value.to_bits().hash(state);
+        // `-0.0 == 0.0`, so both must hash alike.
+        (value + 0.0).to_bits().hash(state);
     }
 }
 
-- 
2.43.0


From dd9253c80f30c85a37ac7ef8b2088869414b5160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 13/31] fix: reject bad keys and empty batches before they take
 a memtable slot

---
 src/inmem/mutable/memtable.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 594db6b..96c517f 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -143,6 +143,19 @@ impl DynMemInner {
         batch: RecordBatch,
         commit_ts_column: UInt64Array,
     ) -> Result<Result<(), KeyExtractError>, ()> {
+        // Nothing to index: taking a slot would let empty batches use up the capacity without
+        // leaving anything to seal.
+        if batch.num_rows() == 0 {
+            return Ok(Ok(()));
+        }
+
+        // Reject bad keys before a slot is taken or the caller seals to make room.
+        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
+        let key_rows = match extractor.project_view(&batch, &row_indices) {
+            Ok(rows) => rows,
+            Err(e) => return Ok(Err(e)),
+        };
+
         // Reserve a slot atomically - no global lock needed.
         let batch_id = self.batch_cursor.fetch_add(1, Ordering::SeqCst);
         if batch_id >= self.batch_slots.len() {
@@ -160,12 +173,6 @@ impl DynMemInner {
             ))
             .expect("batch slot already initialized - invariant violated");
 
-        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
-        let key_rows = match extractor.project_view(&batch, &row_indices) {
-            Ok(rows) => rows,
-            Err(e) => return Ok(Err(e)),
-        };
-
         for (row_idx, key_row) in key_rows.into_iter().enumerate() {
             let key_size = key_row.heap_size();
             let key_owned = key_row.to_owned();
@@ -237,13 +244,6 @@ impl DynMemInner {
             ))));
         }
 
-        // Reserve a delete slot atomically (lock-free).
-        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
-        if slot_idx >= self.delete_slots.len() {
-            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
-            return Err(()); // Capacity exhausted
-        }
-
         let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
         let key_rows = match delete_projection.project_view(&batch, &row_indices) {
             Ok(rows) => rows,
@@ -258,6 +258,13 @@ impl DynMemInner {
             Ok(b) => b,
             Err(e) => return Ok(Err(KeyExtractError::Arrow(e))),
         };
+        // Reserve a delete slot atomically (lock-free).
+        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
+        if slot_idx >= self.delete_slots.len() {
+            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
+            return Err(()); // Capacity exhausted
+        }
+
         let attachment = DeleteAttachment::new(key_batch, commit_array.clone());
 
         // Write once via OnceLock (no concurrent writes to same slot).
-- 
2.43.0


From 98561c5c10a33e1337254e68a434d6d4c57c9c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 14/31] fix: reject null keys before the batch reaches the WAL

---
 src/db/mod.rs |  1 +
 src/db/wal.rs | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index a6e209c..32eaee8 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -777,6 +777,7 @@ where
                 actual: batch.schema(),
             });
         }
+        wal::validate_key_columns_non_null(self, &batch)?;
 
         self.apply_l0_backpressure().await?;
 
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 1dc3c68..6173b3f 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -464,6 +464,7 @@ where
     <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
 {
     validate_record_batch_schema(db, &batch)?;
+    validate_key_columns_non_null(db, &batch)?;
     validate_vec_tombstone_bitmap(&batch, &tombstones)?;
 
     if batch.num_rows() == 0 {
@@ -640,6 +641,28 @@ where
     Ok(())
 }
 
+/// Reject null key values before anything reaches the WAL: a logged batch that can never be
+/// applied would also fail every later replay.
+pub(super) fn validate_key_columns_non_null<FS, E>(
+    db: &DbInner<FS, E>,
+    batch: &RecordBatch,
+) -> Result<(), KeyExtractError>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    for &col in db.extractor().key_indices() {
+        if batch.column(col).null_count() > 0 {
+            return Err(KeyExtractError::Arrow(ArrowError::ComputeError(format!(
+                "key column '{}' contained null",
+                batch.schema().field(col).name()
+            ))));
+        }
+    }
+    Ok(())
+}
+
 fn validate_vec_tombstone_bitmap(
     batch: &RecordBatch,
     tombstones: &[bool],
-- 
2.43.0


From 1eecb55753ac70bd0c50d9d7fc9410bd1394683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:39 +0000
Subject: [PATCH 15/31] fix: never reuse a transaction id the retained log
 still holds

---
 src/wal/storage.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 29e1b39..266d37d 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -281,13 +281,11 @@ impl WalStorage {
         let mut last_provisional_id = max_provisional_id;
         // A segment that was just opened (or lost its only frame) says nothing about the sequences
         // already handed out: those continue from the newest completed segment holding a frame.
+        // Concurrent transactions interleave, so the highest provisional id may sit in any segment.
         for segment in completed.iter().rev() {
-            if last_frame_seq.is_some() {
-                break;
-            }
             let scan = self.scan_tail(&segment.path).await?;
-            last_frame_seq = scan.last.as_ref().map(|meta| meta.seq);
-            last_provisional_id = scan.max_provisional_id;
+            last_frame_seq = last_frame_seq.or(scan.last.as_ref().map(|meta| meta.seq));
+            last_provisional_id = last_provisional_id.max(scan.max_provisional_id);
         }
         let last_valid_offset = last.as_ref().map(|meta| meta.end_offset);
 
@@ -370,8 +368,10 @@ impl WalStorage {
 
             let payload = &data[(offset + FRAME_HEADER_SIZE)..payload_end];
             let provisional_id = match header.frame_type {
-                crate::wal::frame::FrameType::TxnAppend
-                | crate::wal::frame::FrameType::TxnCommit => {
+                crate::wal::frame::FrameType::TxnBegin
+                | crate::wal::frame::FrameType::TxnAppend
+                | crate::wal::frame::FrameType::TxnCommit
+                | crate::wal::frame::FrameType::TxnAbort => {
                     if payload.len() < 8 {
                         truncated = true;
                         break;
@@ -539,7 +539,7 @@ pub(crate) struct TailMetadata {
     pub(super) completed: Vec<SegmentDescriptor>,
     /// Sequence of the last fully decoded frame (if any).
     pub(super) last_frame_seq: Option<u64>,
-    /// Highest provisional ID carried by the newest segment that holds frames (if any).
+    /// Highest provisional ID carried by any retained frame (if any).
     pub(super) last_provisional_id: Option<u64>,
 }
 
-- 
2.43.0


From 2c0e9b99a998975b84729d083b116d96e90a6113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:18 +0000
Subject: [PATCH 16/31] fix: trim a torn WAL tail in place so a crash cannot
 lose complete frames

---
 src/wal/storage.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 266d37d..2f1e9d6 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -2,6 +2,8 @@
 
 use std::{io, sync::Arc};
 
+#[cfg(not(target_arch = "wasm32"))]
+use fusio::path::path_to_local;
 use fusio::{
     DynFs, Read, Write,
     dynamic::fs::DynFile,
@@ -412,6 +414,27 @@ impl WalStorage {
 
     async fn overwrite_segment(&self, path: &Path, data: Vec<u8>) -> WalResult<()> {
         let path_display = path.to_string();
+        // On a local disk, drop the partial tail in place: truncating and rewriting would leave a
+        // window in which a crash loses the complete frames as well.
+        #[cfg(not(target_arch = "wasm32"))]
+        if matches!(self.fs.file_system(), FileSystemTag::Local) {
+            let trim = || -> Result<(), String> {
+                let local_path = path_to_local(path).map_err(|err| err.to_string())?;
+                let file = std::fs::OpenOptions::new()
+                    .write(true)
+                    .open(local_path)
+                    .map_err(|err| err.to_string())?;
+                file.set_len(data.len() as u64)
+                    .and_then(|()| file.sync_all())
+                    .map_err(|err| err.to_string())
+            };
+            return trim().map_err(|err| {
+                WalError::Storage(format!(
+                    "failed to trim wal segment {path_display}: {err}"
+                ))
+            });
+        }
+
         let mut file = self
             .fs
             .open_options(path, OpenOptions::default().truncate(true))
-- 
2.43.0


From 46515863bb3bbb89fbd77326209acd8d96b95f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:46 +0000
Subject: [PATCH 17/31] fix: store float key components losslessly

Key ranges of on-disk tables are stored in the JSON manifest. NaN and
infinite components became null, which made every later manifest read
fail; finite floats were not guaranteed to round-trip either.
---
 src/key/owned.rs | 57 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/src/key/owned.rs b/src/key/owned.rs
index e310566..35c4725 100644
--- a/src/key/owned.rs
+++ b/src/key/owned.rs
@@ -203,7 +203,11 @@ impl Serialize for KeyOwned {
                 .as_ref()
                 .ok_or_else(|| SerError::custom(format!("key component {idx} was null")))?;
             cell_data_type(value).map_err(|err| SerError::custom(err.to_string()))?;
-            seq.serialize_element(value)?;
+            match value {
+                DynCell::F32(v) => seq.serialize_element(&StoredKeyCell::F32Bits(v.to_bits()))?,
+                DynCell::F64(v) => seq.serialize_element(&StoredKeyCell::F64Bits(v.to_bits()))?,
+                other => seq.serialize_element(other)?,
+            }
         }
         seq.end()
     }
@@ -267,6 +271,53 @@ fn cell_data_type(cell: &DynCell) -> Result<DataType, KeyOwnedError> {
     }
 }
 
+/// Serialized form of a key component.
+///
+/// Every component except floats is stored exactly as [`DynCell`] stores it. Floats are stored as
+/// their bit pattern: JSON, which the manifest uses, turns NaN and infinities into `null` (which
+/// cannot be read back) and does not guarantee an exact round trip for finite values. The plain
+/// `F32`/`F64` forms are still accepted when reading.
+#[derive(Serialize, Deserialize)]
+enum StoredKeyCell {
+    Bool(bool),
+    I8(i8),
+    I16(i16),
+    I32(i32),
+    I64(i64),
+    U8(u8),
+    U16(u16),
+    U32(u32),
+    U64(u64),
+    F32(f32),
+    F64(f64),
+    Str(String),
+    Bin(Vec<u8>),
+    F32Bits(u32),
+    F64Bits(u64),
+}
+
+impl From<StoredKeyCell> for DynCell {
+    fn from(cell: StoredKeyCell) -> Self {
+        match cell {
+            StoredKeyCell::Bool(v) => DynCell::Bool(v),
+            StoredKeyCell::I8(v) => DynCell::I8(v),
+            StoredKeyCell::I16(v) => DynCell::I16(v),
+            StoredKeyCell::I32(v) => DynCell::I32(v),
+            StoredKeyCell::I64(v) => DynCell::I64(v),
+            StoredKeyCell::U8(v) => DynCell::U8(v),
+            StoredKeyCell::U16(v) => DynCell::U16(v),
+            StoredKeyCell::U32(v) => DynCell::U32(v),
+            StoredKeyCell::U64(v) => DynCell::U64(v),
+            StoredKeyCell::F32(v) => DynCell::F32(v),
+            StoredKeyCell::F64(v) => DynCell::F64(v),
+            StoredKeyCell::Str(v) => DynCell::Str(v),
+            StoredKeyCell::Bin(v) => DynCell::Bin(v),
+            StoredKeyCell::F32Bits(bits) => DynCell::F32(f32::from_bits(bits)),
+            StoredKeyCell::F64Bits(bits) => DynCell::F64(f64::from_bits(bits)),
+        }
+    }
+}
+
 struct DynCellSeqVisitor;
 
 impl<'de> Visitor<'de> for DynCellSeqVisitor {
@@ -281,8 +332,8 @@ impl<'de> Visitor<'de> for DynCellSeqVisitor {
         A: SeqAccess<'de>,
     {
         let mut cells = Vec::new();
-        while let Some(cell) = seq.next_element::<DynCell>()? {
-            cells.push(cell);
+        while let Some(cell) = seq.next_element::<StoredKeyCell>()? {
+            cells.push(cell.into());
         }
         Ok(cells)
     }
-- 
2.43.0


From 3e1e456f274c46164d62eaebfd59ce711e8af1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:46 +0000
Subject: [PATCH 18/31] fix: release the manifest session when edits do not
 apply

---
 src/manifest/driver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/manifest/driver.rs b/src/manifest/driver.rs
index 3fb9dd6..b176efd 100644
--- a/src/manifest/driver.rs
+++ b/src/manifest/driver.rs
@@ -244,7 +244,10 @@ where
             VersionState::empty(table)
         };
 
-        state.apply_edits(edits)?;
+        if let Err(err) = state.apply_edits(edits) {
+            session.end().await?;
+            return Err(err);
+        }
 
         // Update table version and commit timestamp
         let next_txn = state.commit_timestamp().next();
-- 
2.43.0


From 766a952188dbfd6b2e2cb67f211b6b398f337c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:26 +0000
Subject: [PATCH 19/31] fix: keep every row when merging tables with several
 read batches

---
 src/ondisk/merge.rs | 173 +++++++++++++++++++++-----------------------
 1 file changed, 82 insertions(+), 91 deletions(-)

diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index a7f3185..ce8d4fc 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -6,7 +6,7 @@
 //! surface focused while merge-specific plumbing evolves.
 
 use std::{
-    collections::BinaryHeap,
+    collections::{BinaryHeap, VecDeque},
     sync::{Arc, atomic::AtomicU64},
 };
 
@@ -136,13 +136,20 @@ impl PartialOrd for HeapEntry {
     }
 }
 
+/// Read position over the data rows and the delete rows of one source.
+///
+/// The two row kinds advance independently: a reader batch pairs data and delete rows by arrival,
+/// not by key range, so either side may run out of its current batch first.
 struct SourceCursor {
     source_idx: usize,
     extractor: Arc<dyn KeyProjection>,
     source: SsTableMergeSource,
-    batch: Option<SsTableStreamBatch>,
+    data: VecDeque<RecordBatch>,
+    deletes: VecDeque<RecordBatch>,
     data_idx: usize,
     delete_idx: usize,
+    exhausted: bool,
+    deletes_exhausted: bool,
 }
 
 impl SourceCursor {
@@ -155,19 +162,40 @@ impl SourceCursor {
             source_idx,
             extractor,
             source,
-            batch: None,
+            data: VecDeque::new(),
+            deletes: VecDeque::new(),
             data_idx: 0,
             delete_idx: 0,
+            exhausted: false,
+            deletes_exhausted: false,
         }
     }
 
-    async fn ensure_batch(&mut self) -> Result<(), SsTableError> {
-        if self.batch.is_none() {
-            self.batch = self.source.next().await?;
-            self.data_idx = 0;
-            self.delete_idx = 0;
+    /// Make sure the front batch for `kind` holds the next row, if the source still has one.
+    async fn ensure_batch(&mut self, kind: RowKind) -> Result<(), SsTableError> {
+        loop {
+            let ready = match kind {
+                RowKind::Data => !self.data.is_empty(),
+                RowKind::Delete => !self.deletes.is_empty() || self.deletes_exhausted,
+            };
+            if ready || self.exhausted {
+                return Ok(());
+            }
+            match self.source.next().await? {
+                Some(SsTableStreamBatch { data, delete }) => {
+                    if data.num_rows() > 0 {
+                        self.data.push_back(data);
+                    }
+                    match delete {
+                        Some(delete) if delete.num_rows() > 0 => self.deletes.push_back(delete),
+                        Some(_) => {}
+                        // Readers stop attaching delete batches once the sidecar is drained.
+                        None => self.deletes_exhausted = true,
+                    }
+                }
+                None => self.exhausted = true,
+            }
         }
-        Ok(())
     }
 
     async fn enqueue(
@@ -177,112 +205,77 @@ impl SourceCursor {
         skip_key: Option<&KeyOwned>,
     ) -> Result<(), SsTableError> {
         loop {
-            self.ensure_batch().await?;
-            let Some(batch) = self.batch.as_ref() else {
-                return Ok(());
-            };
-
-            match kind {
+            self.ensure_batch(kind).await?;
+            let (key, commit_ts, seq, row_idx) = match kind {
                 RowKind::Data => {
-                    if batch.data.num_rows() == 0 {
-                        self.data_idx = batch.data.num_rows();
+                    let Some(batch) = self.data.front() else {
                         return Ok(());
-                    }
-                    if self.data_idx >= batch.data.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_key_at(&batch.data, self.extractor.as_ref(), self.data_idx)?;
-                    if skip_key.is_some_and(|k| k == &key) {
-                        self.advance(kind);
-                        continue;
-                    }
-                    let commit_ts = commit_ts_at(&batch.data, self.data_idx)?;
-                    let seq = sequence_at(&batch.data, self.data_idx)?;
-                    heap.push(HeapEntry {
-                        key,
-                        commit_ts,
-                        seq,
-                        kind,
-                        source_idx: self.source_idx,
-                        row_idx: self.data_idx,
-                    });
-                    return Ok(());
+                    };
+                    let row = self.data_idx;
+                    (
+                        extract_key_at(batch, self.extractor.as_ref(), row)?,
+                        commit_ts_at(batch, row)?,
+                        sequence_at(batch, row)?,
+                        row,
+                    )
                 }
                 RowKind::Delete => {
-                    let Some(delete_batch) = batch.delete.as_ref() else {
+                    let Some(batch) = self.deletes.front() else {
                         return Ok(());
                     };
-                    if delete_batch.num_rows() == 0 {
-                        self.delete_idx = delete_batch.num_rows();
-                        return Ok(());
-                    }
-                    if self.delete_idx >= delete_batch.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_delete_key_at(
-                        delete_batch,
-                        self.extractor.as_ref(),
-                        self.delete_idx,
-                    )?;
-                    if skip_key.is_some_and(|k| k == &key) {
-                        self.advance(kind);
-                        continue;
-                    }
-                    let commit_ts = commit_ts_at_delete(delete_batch, self.delete_idx)?;
-                    let seq = sequence_at_delete(delete_batch, self.delete_idx)?;
-                    heap.push(HeapEntry {
-                        key,
-                        commit_ts,
-                        seq,
-                        kind,
-                        source_idx: self.source_idx,
-                        row_idx: self.delete_idx,
-                    });
-                    return Ok(());
+                    let row = self.delete_idx;
+                    (
+                        extract_delete_key_at(batch, self.extractor.as_ref(), row)?,
+                        commit_ts_at_delete(batch, row)?,
+                        sequence_at_delete(batch, row)?,
+                        row,
+                    )
                 }
+            };
+            if skip_key.is_some_and(|k| k == &key) {
+                self.advance(kind);
+                continue;
             }
+            heap.push(HeapEntry {
+                key,
+                commit_ts,
+                seq,
+                kind,
+                source_idx: self.source_idx,
+                row_idx,
+            });
+            return Ok(());
         }
     }
 
     fn advance(&mut self, kind: RowKind) {
-        match kind {
-            RowKind::Data => self.data_idx += 1,
-            RowKind::Delete => self.delete_idx += 1,
-        }
-
-        if let Some(batch) = &self.batch {
-            let data_done = self.data_idx >= batch.data.num_rows();
-            let delete_done = batch
-                .delete
-                .as_ref()
-                .is_none_or(|d| self.delete_idx >= d.num_rows());
-            if data_done && delete_done {
-                self.batch = None;
-                self.data_idx = 0;
-                self.delete_idx = 0;
-            }
+        let (batches, idx) = match kind {
+            RowKind::Data => (&mut self.data, &mut self.data_idx),
+            RowKind::Delete => (&mut self.deletes, &mut self.delete_idx),
+        };
+        *idx += 1;
+        if batches.front().is_some_and(|b| *idx >= b.num_rows()) {
+            batches.pop_front();
+            *idx = 0;
         }
     }
 
     fn append_data(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
+        let Some(batch) = self.data.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let data = take_record_batch(&batch.data, &index)?;
+        let data = take_record_batch(batch, &index)?;
         output.push_data(data);
         Ok(())
     }
 
     fn append_delete(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
-            return Ok(());
-        };
-        let Some(delete_batch) = batch.delete.as_ref() else {
+        let Some(batch) = self.deletes.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let delete = take_record_batch(delete_batch, &index)?;
+        let delete = take_record_batch(batch, &index)?;
         output.push_delete(delete);
         Ok(())
     }
@@ -689,9 +682,7 @@ impl SsTableMerger {
             let source =
                 SsTableMergeSource::new(Arc::clone(&self.config), descriptor, executor.clone())
                     .await?;
-            let mut cursor = SourceCursor::new(idx, Arc::clone(&extractor), source);
-            cursor.ensure_batch().await?;
-            sources.push(cursor);
+            sources.push(SourceCursor::new(idx, Arc::clone(&extractor), source));
         }
 
         let mut heap: BinaryHeap<HeapEntry> = BinaryHeap::new();
-- 
2.43.0


From 915ce545f5fa8c782d8cc7faa691f89dc0ef7de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:24 +0000
Subject: [PATCH 20/31] fix: a delete beats a row of the same commit in merges
 and scans

---
 src/ondisk/merge.rs       | 12 +++++-------
 src/query/stream/merge.rs |  9 ++++++++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index ce8d4fc..be45551 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -115,14 +115,12 @@ impl Ord for HeapEntry {
         match self.key.cmp(&other.key) {
             Ordering::Less => Ordering::Greater,
             Ordering::Greater => Ordering::Less,
+            // A delete beats a row of the same commit, as it does in the scan path.
             Ordering::Equal => match self.commit_ts.cmp(&other.commit_ts) {
-                Ordering::Equal => match self.seq.cmp(&other.seq) {
-                    Ordering::Equal => match (self.kind, other.kind) {
-                        (RowKind::Delete, RowKind::Data) => Ordering::Greater,
-                        (RowKind::Data, RowKind::Delete) => Ordering::Less,
-                        _ => Ordering::Equal,
-                    },
-                    other => other,
+                Ordering::Equal => match (self.kind, other.kind) {
+                    (RowKind::Delete, RowKind::Data) => Ordering::Greater,
+                    (RowKind::Data, RowKind::Delete) => Ordering::Less,
+                    _ => self.seq.cmp(&other.seq),
                 },
                 other => other,
             },
diff --git a/src/query/stream/merge.rs b/src/query/stream/merge.rs
index e266c9c..422bacf 100644
--- a/src/query/stream/merge.rs
+++ b/src/query/stream/merge.rs
@@ -150,7 +150,8 @@ impl HeapEntry {
 impl Ord for HeapEntry {
     fn cmp(&self, other: &Self) -> Ordering {
         // Entries are ordered by key, then commit timestamp (descending), followed by source
-        // priority (txn > mutable > immutable > SST), and finally stream index for determinism.
+        // priority (txn > mutable > immutable > SST). Within one source kind a tombstone beats a row of
+        // the same commit, and the stream index keeps the rest deterministic.
         // Uses zero-alloc key comparison for the common case.
         let ordering = self.order.unwrap_or(Order::Asc);
         let key_cmp = match ordering {
@@ -161,6 +162,12 @@ impl Ord for HeapEntry {
         key_cmp
             .then(ts_cmp)
             .then(self.source_priority.cmp(&other.source_priority))
+            .then_with(|| {
+                other
+                    .entry
+                    .is_tombstone()
+                    .cmp(&self.entry.is_tombstone())
+            })
             .then(self.stream_idx.cmp(&other.stream_idx))
     }
 }
-- 
2.43.0


From 07d111791d2776b753cb1402c6e7b77bc77a1666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:45 +0000
Subject: [PATCH 21/31] fix: an abandoned table write is an error, not a panic
 in debug builds

---
 src/ondisk/sstable.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/ondisk/sstable.rs b/src/ondisk/sstable.rs
index 9e24702..9563e7f 100644
--- a/src/ondisk/sstable.rs
+++ b/src/ondisk/sstable.rs
@@ -1116,18 +1116,6 @@ where
     }
 }
 
-impl<E> Drop for WriteContext<E>
-where
-    E: Executor + Clone,
-{
-    fn drop(&mut self) {
-        debug_assert!(
-            self.data_writer.is_none() && self.delete_writer.is_none(),
-            "WriteContext dropped without closing writers"
-        );
-    }
-}
-
 fn build_table_paths(
     config: &SsTableConfig,
     level: usize,
-- 
2.43.0


From f1ad6803f64b10de082ec35169b03ad99be3ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:50 +0000
Subject: [PATCH 22/31] fix: keep compaction outputs when a manifest commit may
 have succeeded

---
 src/compaction/driver.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compaction/driver.rs b/src/compaction/driver.rs
index 935e7e5..b17bfa8 100644
--- a/src/compaction/driver.rs
+++ b/src/compaction/driver.rs
@@ -621,7 +621,12 @@ where
                     continue;
                 }
                 Err(err) => {
-                    executor.cleanup_outputs(&outcome.outputs).await?;
+                    // A backend failure leaves it open whether the edit was published: its
+                    // segment may already be durable and adopted later. Outputs the manifest
+                    // may reference must stay.
+                    if !matches!(err, ManifestError::Backend(_)) {
+                        executor.cleanup_outputs(&outcome.outputs).await?;
+                    }
                     log_warn!(
                         component = "manifest",
                         event = "manifest_apply_failed",
@@ -846,7 +851,12 @@ where
                     continue;
                 }
                 Err(err) => {
-                    executor.cleanup_outputs(&outcome.outputs).await?;
+                    // A backend failure leaves it open whether the edit was published: its
+                    // segment may already be durable and adopted later. Outputs the manifest
+                    // may reference must stay.
+                    if !matches!(err, ManifestError::Backend(_)) {
+                        executor.cleanup_outputs(&outcome.outputs).await?;
+                    }
                     log_warn!(
                         component = "manifest",
                         event = "manifest_apply_failed",
-- 
2.43.0


From 85075c7215db00ba7a53a53b938510ae55c7368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 23/31] fix: read back key lists in the form the schema builder
 writes

---
 src/mode/dyn_config.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mode/dyn_config.rs b/src/mode/dyn_config.rs
index d4c3e86..f52fa2b 100644
--- a/src/mode/dyn_config.rs
+++ b/src/mode/dyn_config.rs
@@ -38,6 +38,10 @@ impl DynModeConfig {
         }
         fn parse_names_list(s: &str) -> Vec<String> {
             let t = s.trim();
+            // The form `SchemaBuilder::with_metadata` writes; names may hold any character.
+            if let Ok(names) = serde_json::from_str::<Vec<String>>(t) {
+                return names;
+            }
             if t.starts_with('[') && t.ends_with(']') {
                 let inner = &t[1..t.len() - 1];
                 inner
-- 
2.43.0


From 0cc7c79a30f108f2f0cb93bf61cfa8e2203553c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 24/31] fix: concurrent commits and flushes of one database no
 longer fail each other's manifest update

Each manifest update reads the table head, edits it and publishes with a
compare-and-swap. Two at once made one caller fail with 'precondition failed'
although its write was already logged and applied. Updates of one process now
take turns.
---
 src/manifest/bootstrap.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/manifest/bootstrap.rs b/src/manifest/bootstrap.rs
index 239b769..85d18f5 100644
--- a/src/manifest/bootstrap.rs
+++ b/src/manifest/bootstrap.rs
@@ -12,6 +12,7 @@ use fusio_manifest::{
     BackoffPolicy, CheckpointStoreImpl, HeadStoreImpl, LeaseStoreImpl, ManifestContext,
     SegmentStoreImpl, snapshot::Snapshot, types::Error as FusioManifestError,
 };
+use futures::lock::Mutex as AsyncMutex;
 use tracing::instrument;
 
 use super::{
@@ -81,6 +82,9 @@ where
     version: ManifestInstance<VersionCodec, FS, E>,
     catalog: ManifestInstance<CatalogCodec, FS, E>,
     gc_plan: ManifestInstance<GcPlanCodec, FS, E>,
+    /// Serialises this process's manifest updates: each one reads the current state, edits it and
+    /// publishes it with a compare-and-swap, so two at once would fail one of their callers.
+    update_lock: Arc<AsyncMutex<()>>,
 }
 
 impl<FS, E> Clone for TonboManifest<FS, E>
@@ -98,6 +102,7 @@ where
             version: self.version.clone(),
             catalog: self.catalog.clone(),
             gc_plan: self.gc_plan.clone(),
+            update_lock: Arc::clone(&self.update_lock),
         }
     }
 }
@@ -121,6 +126,7 @@ where
             version,
             catalog,
             gc_plan,
+            update_lock: Arc::new(AsyncMutex::new(())),
         }
     }
 
@@ -129,6 +135,7 @@ where
         table: TableId,
         edits: &[VersionEdit],
     ) -> ManifestResult<Timestamp> {
+        let _update = self.update_lock.lock().await;
         self.version.apply_version_edits(table, edits).await
     }
 
@@ -138,6 +145,7 @@ where
         expected_head: Option<Timestamp>,
         edits: &[VersionEdit],
     ) -> ManifestResult<Timestamp> {
+        let _update = self.update_lock.lock().await;
         self.version
             .apply_version_edits_cas(table, expected_head, edits)
             .await
@@ -219,6 +227,7 @@ where
         table: TableId,
         plan: GcPlanState,
     ) -> ManifestResult<()> {
+        let _update = self.update_lock.lock().await;
         self.gc_plan.put_gc_plan(table, plan).await
     }
 
-- 
2.43.0


From 04bff9cb98ee9660246a81270fb671978814467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:45 +0000
Subject: [PATCH 25/31] fix: pruning the log no longer fails commits and
 flushes that are listing its segments

A commit or flush lists the WAL segments to record them in the manifest;
another writer of the same database could prune one of them in between, and
the caller got 'not found' for a write that was logged and applied. Listing,
recording and pruning segments now exclude each other.
---
 src/compaction/driver.rs  |  1 +
 src/db/mod.rs             |  2 ++
 src/manifest/bootstrap.rs | 12 +++++++++++-
 src/transaction/mod.rs    |  1 +
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/compaction/driver.rs b/src/compaction/driver.rs
index b17bfa8..eb019e7 100644
--- a/src/compaction/driver.rs
+++ b/src/compaction/driver.rs
@@ -199,6 +199,7 @@ where
         let Some(cfg) = self.wal_config.as_ref() else {
             return;
         };
+        let _segments = self.manifest.wal_segments_guard().await;
         let Ok(Some(floor)) = self.manifest.wal_floor(self.table_id).await else {
             return;
         };
diff --git a/src/db/mod.rs b/src/db/mod.rs
index 32eaee8..7ac5c54 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -1124,6 +1124,7 @@ where
             // dedup remains deterministic across reopen/recovery boundaries.
             builder.add_immutable(seg)?;
         }
+        let wal_segments = self.manifest.wal_segments_guard().await;
         let existing_floor = self.manifest_wal_floor().await;
         let live_floor = self.unflushed_wal_frame_floor(flush_count);
         let (wal_ids, wal_refs) = if let Some(cfg) = &self.wal_config {
@@ -1189,6 +1190,7 @@ where
                 self.manifest
                     .apply_version_edits(self.manifest_table, &edits)
                     .await?;
+                drop(wal_segments);
 
                 self.prune_wal_segments_below_floor().await;
 
diff --git a/src/manifest/bootstrap.rs b/src/manifest/bootstrap.rs
index 85d18f5..b6af1ef 100644
--- a/src/manifest/bootstrap.rs
+++ b/src/manifest/bootstrap.rs
@@ -12,7 +12,7 @@ use fusio_manifest::{
     BackoffPolicy, CheckpointStoreImpl, HeadStoreImpl, LeaseStoreImpl, ManifestContext,
     SegmentStoreImpl, snapshot::Snapshot, types::Error as FusioManifestError,
 };
-use futures::lock::Mutex as AsyncMutex;
+use futures::lock::{Mutex as AsyncMutex, MutexGuard as AsyncMutexGuard};
 use tracing::instrument;
 
 use super::{
@@ -85,6 +85,8 @@ where
     /// Serialises this process's manifest updates: each one reads the current state, edits it and
     /// publishes it with a compare-and-swap, so two at once would fail one of their callers.
     update_lock: Arc<AsyncMutex<()>>,
+    /// Held while WAL segments are enumerated for, or pruned below, the manifest's WAL floor.
+    wal_segments_lock: Arc<AsyncMutex<()>>,
 }
 
 impl<FS, E> Clone for TonboManifest<FS, E>
@@ -103,6 +105,7 @@ where
             catalog: self.catalog.clone(),
             gc_plan: self.gc_plan.clone(),
             update_lock: Arc::clone(&self.update_lock),
+            wal_segments_lock: Arc::clone(&self.wal_segments_lock),
         }
     }
 }
@@ -127,6 +130,7 @@ where
             catalog,
             gc_plan,
             update_lock: Arc::new(AsyncMutex::new(())),
+            wal_segments_lock: Arc::new(AsyncMutex::new(())),
         }
     }
 
@@ -184,6 +188,12 @@ where
         self.version.wal_floor(table).await
     }
 
+    /// Keep the WAL directory still: whoever lists segments in order to reference them must not
+    /// have them pruned underneath by another writer of this database.
+    pub(crate) async fn wal_segments_guard(&self) -> AsyncMutexGuard<'_, ()> {
+        self.wal_segments_lock.lock().await
+    }
+
     async fn init_table_head(&self, table_id: TableId, head: TableHead) -> ManifestResult<()> {
         self.version.init_table_head(table_id, head).await
     }
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 742e036..8f23569 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -1363,6 +1363,7 @@ where
             return Ok(());
         };
 
+        let _segments = self.manifest.wal_segments_guard().await;
         let existing_floor = self
             .manifest
             .wal_floor(self.manifest_table)
-- 
2.43.0


From 5c9800bea7dce035b0e74f07c66bb5ba9977cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:48 +0000
Subject: [PATCH 26/31] fix: pruning the log keeps the frames of writes that
 are still on their way to a memtable

The WAL floor was computed from the frame ranges of memtables. A write whose
frames were in the log but which had not reached its memtable yet was not
counted, so a concurrent commit or flush could prune them, and a crash then
lost an acknowledged write. Writes now announce themselves before their first
frame, and a flush never moves the floor past frames still to be written.
---
 src/db/mod.rs          |  10 +++-
 src/db/wal.rs          | 101 +++++++++++++++++++++++++++++++++++------
 src/transaction/mod.rs |  15 +++---
 src/wal/mod.rs         |   1 +
 4 files changed, 106 insertions(+), 21 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 7ac5c54..b107d51 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -23,7 +23,7 @@ use fusio::{
 };
 use futures::lock::Mutex as AsyncMutex;
 use lockable::LockableHashMap;
-use wal::SealState;
+use wal::{InflightWalWrites, SealState};
 
 use crate::compaction::{CompactionHandle, MinorCompactor, metrics::CompactionBackpressureSignal};
 mod builder;
@@ -497,6 +497,8 @@ where
     metadata_cache: Arc<E::Mutex<ParquetMetadataCache>>,
     /// WAL frame bounds covering the current mutable memtable, if any.
     mutable_wal_range: Arc<Mutex<Option<WalFrameRange>>>,
+    /// Writes between the WAL and the memtable.
+    inflight_wal: Arc<Mutex<InflightWalWrites>>,
     /// Per-key transactional locks (wired once transactional writes arrive).
     _key_locks: LockMap<KeyOwned>,
     /// Optional background compaction worker handle.
@@ -558,6 +560,8 @@ where
     metadata_cache: Arc<E::Mutex<ParquetMetadataCache>>,
     /// WAL frame bounds covering the current mutable memtable, if any.
     mutable_wal_range: Arc<Mutex<Option<WalFrameRange>>>,
+    /// Writes between the WAL and the memtable.
+    inflight_wal: Arc<Mutex<InflightWalWrites>>,
     /// Per-key transactional locks (wired once transactional writes arrive).
     _key_locks: LockMap<KeyOwned>,
     /// Optional background compaction worker handle.
@@ -673,6 +677,7 @@ where
             pruner_cache: Arc::new(E::mutex(HashMap::new())),
             metadata_cache: default_parquet_metadata_cache::<E>(),
             mutable_wal_range: Arc::new(Mutex::new(None)),
+            inflight_wal: Arc::new(Mutex::new(InflightWalWrites::default())),
             _key_locks: Arc::new(LockableHashMap::new()),
             compaction_worker: None,
             compaction_metrics: None,
@@ -783,6 +788,7 @@ where
 
         let commit_ts = self.next_commit_ts();
         let mut wal_spans: Vec<(u64, u64)> = Vec::new();
+        let inflight = self.begin_wal_write();
         if let Some(handle) = self.wal_handle().cloned() {
             let provisional_id = handle.next_provisional_id();
             let append_ticket = handle
@@ -796,6 +802,7 @@ where
             for ticket in [append_ticket, commit_ticket] {
                 let ack = ticket.durable().await.map_err(KeyExtractError::from)?;
                 wal_spans.push((ack.first_seq, ack.last_seq));
+                inflight.durable_up_to(ack.last_seq);
             }
         }
         // Record WAL spans BEFORE insert that may trigger auto-seal.
@@ -810,6 +817,7 @@ where
         for &(first, last) in &wal_spans {
             self.observe_mutable_wal_span(first, last);
         }
+        drop(inflight);
         self.maybe_seal_after_insert()?;
         self.maybe_run_minor_compaction().await.map_err(|err| {
             KeyExtractError::Arrow(ArrowError::ComputeError(format!(
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 6173b3f..406d765 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -1,6 +1,6 @@
 use std::{
-    collections::HashMap,
-    sync::{Arc, Mutex},
+    collections::{BTreeMap, HashMap},
+    sync::{Arc, Mutex, MutexGuard},
 };
 
 use arrow_array::{Array, ArrayRef, RecordBatch, UInt32Array, UInt64Array};
@@ -69,7 +69,41 @@ impl WalRangeAccumulator {
     }
 }
 
-#[derive(Clone)]
+/// Writes whose frames may already be in the WAL although no memtable accounts for them yet.
+#[derive(Default)]
+pub(crate) struct InflightWalWrites {
+    /// Highest frame known to be durable; writes starting now can only get higher ones.
+    durable: u64,
+    /// Lowest frame each group of running writes may have been given, with the group's size.
+    floors: BTreeMap<u64, usize>,
+}
+
+/// Keeps the frames of one running write from being pruned until its memtable pins them.
+pub(crate) struct InflightWalWrite {
+    writes: Arc<Mutex<InflightWalWrites>>,
+    floor: u64,
+}
+
+impl InflightWalWrite {
+    /// Frames up to `seq` are durable: writes starting from now on get higher ones.
+    pub(crate) fn durable_up_to(&self, seq: u64) {
+        let mut writes = self.writes.lock().unwrap_or_else(|err| err.into_inner());
+        writes.durable = writes.durable.max(seq);
+    }
+}
+
+impl Drop for InflightWalWrite {
+    fn drop(&mut self) {
+        let mut writes = self.writes.lock().unwrap_or_else(|err| err.into_inner());
+        if let Some(count) = writes.floors.get_mut(&self.floor) {
+            *count -= 1;
+            if *count == 0 {
+                writes.floors.remove(&self.floor);
+            }
+        }
+    }
+}
+
 pub(crate) struct TxnWalPublishContext<FS, E>
 where
     FS: ManifestFs<E>,
@@ -81,6 +115,8 @@ where
     pub(crate) wal_config: Option<RuntimeWalConfig>,
     pub(crate) mutable_wal_range: Arc<Mutex<Option<WalFrameRange>>>,
     pub(crate) prev_live_floor: Option<u64>,
+    /// Held until a memtable pins the transaction's frames.
+    pub(crate) inflight: Option<InflightWalWrite>,
 }
 
 #[derive(Default)]
@@ -348,7 +384,35 @@ where
         Ok(())
     }
 
+    /// Announce a write before its first frame is handed to the WAL.
+    pub(crate) fn begin_wal_write(&self) -> InflightWalWrite {
+        let mut writes = self.inflight_wal_lock();
+        let floor = writes.durable.saturating_add(1);
+        *writes.floors.entry(floor).or_default() += 1;
+        InflightWalWrite {
+            writes: Arc::clone(&self.inflight_wal),
+            floor,
+        }
+    }
+
+    /// Frames up to `seq` were written before this writer started.
+    pub(crate) fn set_durable_frame(&self, seq: u64) {
+        self.inflight_wal_lock().durable = seq;
+    }
+
+    fn inflight_wal_floor(&self) -> Option<u64> {
+        self.inflight_wal_lock().floors.keys().next().copied()
+    }
+
+    fn inflight_wal_lock(&self) -> MutexGuard<'_, InflightWalWrites> {
+        self.inflight_wal
+            .lock()
+            .unwrap_or_else(|err| err.into_inner())
+    }
+
     pub(crate) fn wal_live_frame_floor(&self) -> Option<u64> {
+        // In-flight writes first: one that ends meanwhile has pinned its frames below.
+        let inflight_floor = self.inflight_wal_floor();
         let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
         let seal = self.seal_state_lock();
         let immutable_floor = seal
@@ -357,27 +421,26 @@ where
             .filter_map(|range| range.as_ref().map(|r| r.first))
             .min();
 
-        match (mutable_floor, immutable_floor) {
-            (Some(lhs), Some(rhs)) => Some(lhs.min(rhs)),
-            (Some(lhs), None) => Some(lhs),
-            (None, Some(rhs)) => Some(rhs),
-            (None, None) => None,
-        }
+        [inflight_floor, mutable_floor, immutable_floor]
+            .into_iter()
+            .flatten()
+            .min()
     }
 
-    pub(crate) fn txn_publish_context(
-        &self,
-        prev_live_floor: Option<u64>,
-    ) -> TxnWalPublishContext<FS, E>
+    /// Context of a transaction that is about to write to the WAL.
+    pub(crate) fn txn_publish_context(&self) -> TxnWalPublishContext<FS, E>
     where
         E: Clone,
     {
+        let inflight = self.begin_wal_write();
+        let prev_live_floor = self.wal_live_frame_floor();
         TxnWalPublishContext {
             manifest: self.manifest.clone(),
             manifest_table: self.manifest_table,
             wal_config: self.wal_config.clone(),
             mutable_wal_range: Arc::clone(&self.mutable_wal_range),
             prev_live_floor,
+            inflight: Some(inflight),
         }
     }
 
@@ -399,7 +462,11 @@ where
 
     /// Lowest WAL frame needed by data that stays in memory once the oldest `flushed` sealed
     /// segments are persisted.
+    ///
+    /// Frames yet to be written are never below it, even when nothing is unflushed now.
     pub(crate) fn unflushed_wal_frame_floor(&self, flushed: usize) -> Option<u64> {
+        let next_frame = self.inflight_wal_lock().durable.saturating_add(1);
+        let inflight_floor = self.inflight_wal_floor().or(Some(next_frame));
         let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
         let sealed_floor = self
             .seal_state_lock()
@@ -408,7 +475,10 @@ where
             .skip(flushed)
             .filter_map(|range| range.as_ref().map(|r| r.first))
             .min();
-        mutable_floor.into_iter().chain(sealed_floor).min()
+        [inflight_floor, mutable_floor, sealed_floor]
+            .into_iter()
+            .flatten()
+            .min()
     }
 
     /// Keep `range` pinned by the mutable memtable after an insert that may have auto-sealed: a
@@ -481,6 +551,7 @@ where
     }
 
     let mut wal_range: Option<WalFrameRange> = None;
+    let inflight = db.begin_wal_write();
     if let Some(handle) = db.wal_handle().cloned() {
         let provisional_id = handle.next_provisional_id();
         let mut append_tickets = Vec::new();
@@ -513,6 +584,7 @@ where
             .map_err(KeyExtractError::from)?;
         tracker.observe_range(commit_ack.first_seq, commit_ack.last_seq);
         wal_range = tracker.into_range();
+        inflight.durable_up_to(commit_ack.last_seq);
     }
 
     let mutated = upsert_batch.is_some() || delete_batch.is_some();
@@ -537,6 +609,7 @@ where
             db.add_immutable(sealed, wal_range_take);
             db.retain_mutable_wal_range(wal_range);
         }
+        drop(inflight);
         db.maybe_seal_after_insert()?;
         db.maybe_run_minor_compaction()
             .await
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 8f23569..27339df 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -638,7 +638,8 @@ where
 
         if let Some(wal) = db.wal_handle().cloned() {
             let provisional_id = wal.next_provisional_id();
-            let prev_live_floor = db.wal_live_frame_floor();
+            // Frames this transaction is about to write count as live from here on.
+            let mut publish_ctx = db.txn_publish_context();
             let upsert_refs = upsert_payload.as_ref();
             let delete_ref = delete_payload.as_ref();
             let tickets =
@@ -647,7 +648,6 @@ where
 
             match commit_ack_mode {
                 CommitAckMode::Strict => {
-                    let publish_ctx = db.txn_publish_context(prev_live_floor);
                     let wal_range = tickets.await_range().await?;
                     // Record WAL range BEFORE apply that may trigger auto-seal.
                     // If we record after, a sealed segment would miss this transaction's frames.
@@ -674,7 +674,6 @@ where
                         delete_payload.take(),
                         commit_ts,
                     )?;
-                    let publish_ctx = db.txn_publish_context(prev_live_floor);
                     let executor = Arc::clone(db.executor());
                     spawn_publish_task(executor, publish_ctx, tickets);
                 }
@@ -1303,7 +1302,7 @@ impl AckRange {
 
 fn spawn_publish_task<FS, E>(
     executor: Arc<E>,
-    publish_ctx: TxnWalPublishContext<FS, E>,
+    mut publish_ctx: TxnWalPublishContext<FS, E>,
     tickets: WalTxnTickets<E>,
 ) where
     FS: crate::manifest::ManifestFs<E>,
@@ -1335,6 +1334,9 @@ where
     /// This must be called BEFORE any operation that may trigger auto-seal,
     /// otherwise the sealed segment's WAL range would be incomplete.
     fn record_wal_range(&self, wal_range: &WalFrameRange) {
+        if let Some(inflight) = &self.inflight {
+            inflight.durable_up_to(wal_range.last);
+        }
         let mut guard = self
             .mutable_wal_range
             .lock()
@@ -1349,9 +1351,10 @@ where
     ///
     /// Call this after memtable operations to persist WAL segment metadata.
     async fn finalize_manifest(
-        &self,
+        &mut self,
         wal_range: WalFrameRange,
     ) -> Result<(), TransactionCommitError> {
+        self.inflight = None;
         let live_floor = match (self.prev_live_floor, Some(wal_range.first)) {
             (Some(prev), Some(current)) => Some(prev.min(current)),
             (Some(prev), None) => Some(prev),
@@ -1401,7 +1404,7 @@ where
     ///
     /// This is used by the Fast mode async task which handles both
     /// WAL range recording and manifest update together.
-    async fn finalize(&self, wal_range: WalFrameRange) -> Result<(), TransactionCommitError> {
+    async fn finalize(&mut self, wal_range: WalFrameRange) -> Result<(), TransactionCommitError> {
         self.record_wal_range(&wal_range);
         self.finalize_manifest(wal_range).await
     }
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 1c029a3..9e08cd1 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -991,6 +991,7 @@ where
             retention_bytes = ?cfg.retention_bytes,
         );
 
+        self.set_durable_frame(initial_frame_seq.saturating_sub(1));
         self.set_wal_config(Some(cfg.clone()));
         self.set_wal_handle(Some(handle.clone()));
         Ok(handle)
-- 
2.43.0


From 8875d87505b1f48eb6734baae8ba3b4c1597254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:20 +0000
Subject: [PATCH 27/31] fix: recovery restores the highest commit timestamp,
 not the last one logged

---
 src/db/mod.rs    | 3 ++-
 src/wal/state.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index b107d51..2d22ba0 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -766,7 +766,8 @@ where
         }
 
         let last_commit_ts = db.replay_wal_events(events)?;
-        let effective_commit = last_commit_ts.or(state_commit_hint);
+        // Replay does not see commits whose segments were pruned once they were flushed.
+        let effective_commit = last_commit_ts.max(state_commit_hint);
         if let Some(ts) = effective_commit {
             db.commit_clock.advance_to_at_least(ts.saturating_add(1));
         }
diff --git a/src/wal/state.rs b/src/wal/state.rs
index 4197b68..18ee8df 100644
--- a/src/wal/state.rs
+++ b/src/wal/state.rs
@@ -41,10 +41,10 @@ impl WalState {
         self.last_commit_ts.map(Timestamp::new)
     }
 
-    /// Record the latest durable commit timestamp.
+    /// Record a durable commit timestamp; commits may reach the log out of timestamp order.
     #[inline]
     pub(crate) fn set_commit_ts(&mut self, ts: Timestamp) {
-        self.last_commit_ts = Some(ts.get());
+        self.last_commit_ts = self.last_commit_ts.max(Some(ts.get()));
     }
 
     /// Update the tracked frame sequence.
-- 
2.43.0


From c330584c1b7e2b9ab7d79d4351a70f196e3fbf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:00 +0000
Subject: [PATCH 28/31] fix: sealing a memtable moves its log frames along with
 it, whatever other threads write meanwhile

---
 src/db/scan.rs |  14 +++----
 src/db/wal.rs  | 111 ++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 88 insertions(+), 37 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index a66bfb7..f11cbea 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -698,6 +698,13 @@ where
         }
         let scan_schema = Arc::clone(&plan.scan_schema);
         let key_schema = self.extractor().key_schema();
+        let immutables: Vec<Arc<ImmutableSegment>> = {
+            let seal = self.seal_state_lock();
+            plan.immutable_indexes
+                .iter()
+                .filter_map(|idx| seal.immutables.get(*idx).cloned())
+                .collect()
+        };
         if !plan.mutable_row_set.is_empty() {
             let mutable_scan = match &plan.mutable_selection {
                 ScanSelection::AllRows | ScanSelection::Sst(_) => OwnedMutableScan::from_guard(
@@ -716,13 +723,6 @@ where
             streams.push(ScanStream::from(mutable_scan));
         }
 
-        let immutables: Vec<Arc<ImmutableSegment>> = {
-            let seal = self.seal_state_lock();
-            plan.immutable_indexes
-                .iter()
-                .filter_map(|idx| seal.immutables.get(*idx).cloned())
-                .collect()
-        };
         for segment in immutables {
             let owned = match &plan.immutable_selection {
                 ScanSelection::AllRows | ScanSelection::Sst(_) => OwnedImmutableScan::from_arc(
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 406d765..4459cfa 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -76,6 +76,24 @@ pub(crate) struct InflightWalWrites {
     durable: u64,
     /// Lowest frame each group of running writes may have been given, with the group's size.
     floors: BTreeMap<u64, usize>,
+    /// Number of writes ever started.
+    started: u64,
+}
+
+impl InflightWalWrites {
+    /// No frame below this one belongs to a write that is running or yet to start.
+    fn next_floor(&self) -> u64 {
+        let running = self.floors.keys().next().copied().unwrap_or(u64::MAX);
+        running.min(self.durable.saturating_add(1))
+    }
+}
+
+/// Which writes could land in a memtable's replacement, taken before it is sealed.
+#[derive(Clone, Copy)]
+pub(crate) struct SealMark {
+    floor: u64,
+    started: u64,
+    running: bool,
 }
 
 /// Keeps the frames of one running write from being pruned until its memtable pins them.
@@ -171,20 +189,20 @@ where
         batch: RecordBatch,
         commit_ts: Timestamp,
     ) -> Result<(), KeyExtractError> {
+        let mark = self.seal_mark();
+        let mut seal = self.seal_state_lock();
         if let Some(sealed) = self.mem.insert_batch(batch, commit_ts)? {
-            let wal_range = self.take_mutable_wal_range();
-            self.add_immutable(sealed, wal_range);
-            let mut seal = self.seal_state_lock();
+            self.add_sealed(&mut seal, sealed, mark);
             seal.last_seal_at = Some(self.executor.now());
         }
         Ok(())
     }
 
     fn seal_mutable_now(&self) -> Result<(), KeyExtractError> {
+        let mark = self.seal_mark();
+        let mut seal = self.seal_state_lock();
         if let Some(seg) = self.mem.seal_now()? {
-            let wal_range = self.take_mutable_wal_range();
-            self.add_immutable(seg, wal_range);
-            let mut seal = self.seal_state_lock();
+            self.add_sealed(&mut seal, seg, mark);
             seal.last_seal_at = Some(self.executor.now());
         }
         Ok(())
@@ -204,10 +222,10 @@ where
         &self,
         batch: RecordBatch,
     ) -> Result<(), KeyExtractError> {
+        let mark = self.seal_mark();
+        let mut seal = self.seal_state_lock();
         if let Some(sealed) = self.mem.insert_delete_batch(batch)? {
-            let wal_range = self.take_mutable_wal_range();
-            self.add_immutable(sealed, wal_range);
-            let mut seal = self.seal_state_lock();
+            self.add_sealed(&mut seal, sealed, mark);
             seal.last_seal_at = Some(self.executor.now());
         }
         Ok(())
@@ -389,6 +407,7 @@ where
         let mut writes = self.inflight_wal_lock();
         let floor = writes.durable.saturating_add(1);
         *writes.floors.entry(floor).or_default() += 1;
+        writes.started = writes.started.wrapping_add(1);
         InflightWalWrite {
             writes: Arc::clone(&self.inflight_wal),
             floor,
@@ -404,6 +423,15 @@ where
         self.inflight_wal_lock().floors.keys().next().copied()
     }
 
+    pub(crate) fn seal_mark(&self) -> SealMark {
+        let writes = self.inflight_wal_lock();
+        SealMark {
+            floor: writes.next_floor(),
+            started: writes.started,
+            running: !writes.floors.is_empty(),
+        }
+    }
+
     fn inflight_wal_lock(&self) -> MutexGuard<'_, InflightWalWrites> {
         self.inflight_wal
             .lock()
@@ -413,8 +441,8 @@ where
     pub(crate) fn wal_live_frame_floor(&self) -> Option<u64> {
         // In-flight writes first: one that ends meanwhile has pinned its frames below.
         let inflight_floor = self.inflight_wal_floor();
-        let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
         let seal = self.seal_state_lock();
+        let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
         let immutable_floor = seal
             .immutable_wal_ranges
             .iter()
@@ -453,6 +481,7 @@ where
         self.record_mutable_wal_range(WalFrameRange { first, last });
     }
 
+    #[cfg(test)]
     #[allow(clippy::arc_with_non_send_sync)]
     pub(crate) fn add_immutable(&self, seg: ImmutableSegment, wal_range: Option<WalFrameRange>) {
         let mut seal = self.seal_state_lock();
@@ -460,16 +489,32 @@ where
         seal.immutable_wal_ranges.push(wal_range);
     }
 
+    /// Queue a sealed memtable together with the WAL range that accumulated for it.
+    ///
+    /// Writes that overlap the sealing may already have recorded their frames although their rows
+    /// are in the replacement, so the replacement keeps pinning everything from `mark` on.
+    #[allow(clippy::arc_with_non_send_sync)]
+    fn add_sealed(&self, seal: &mut SealState, seg: ImmutableSegment, mark: SealMark) {
+        let wal_range = self.take_mutable_wal_range();
+        seal.immutables.push(Arc::new(seg));
+        seal.immutable_wal_ranges.push(wal_range);
+        if mark.running || self.inflight_wal_lock().started != mark.started {
+            self.record_mutable_wal_range(WalFrameRange {
+                first: mark.floor,
+                last: mark.floor,
+            });
+        }
+    }
+
     /// Lowest WAL frame needed by data that stays in memory once the oldest `flushed` sealed
     /// segments are persisted.
     ///
     /// Frames yet to be written are never below it, even when nothing is unflushed now.
     pub(crate) fn unflushed_wal_frame_floor(&self, flushed: usize) -> Option<u64> {
-        let next_frame = self.inflight_wal_lock().durable.saturating_add(1);
-        let inflight_floor = self.inflight_wal_floor().or(Some(next_frame));
+        let inflight_floor = Some(self.inflight_wal_lock().next_floor());
+        let seal = self.seal_state_lock();
         let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
-        let sealed_floor = self
-            .seal_state_lock()
+        let sealed_floor = seal
             .immutable_wal_ranges
             .iter()
             .skip(flushed)
@@ -595,20 +640,24 @@ where
         if let Some(range) = wal_range {
             db.record_mutable_wal_range(range);
         }
-        if let Some(batch) = upsert_batch
-            && let Some(sealed) = db.mem.insert_batch(batch, commit_ts)?
-        {
-            let wal_range_take = db.take_mutable_wal_range();
-            db.add_immutable(sealed, wal_range_take);
-            db.retain_mutable_wal_range(wal_range);
-        }
-        if let Some(batch) = delete_batch
-            && let Some(sealed) = db.mem.insert_delete_batch(batch)?
+        let mark = db.seal_mark();
         {
-            let wal_range_take = db.take_mutable_wal_range();
-            db.add_immutable(sealed, wal_range_take);
-            db.retain_mutable_wal_range(wal_range);
+            let mut seal = db.seal_state_lock();
+            if let Some(batch) = upsert_batch
+                && let Some(sealed) = db.mem.insert_batch(batch, commit_ts)?
+            {
+                db.add_sealed(&mut seal, sealed, mark);
+                db.retain_mutable_wal_range(wal_range);
+            }
+            if let Some(batch) = delete_batch
+                && let Some(sealed) = db.mem.insert_delete_batch(batch)?
+            {
+                db.add_sealed(&mut seal, sealed, mark);
+                db.retain_mutable_wal_range(wal_range);
+            }
         }
+        // Another writer may have sealed the range away before the rows were in.
+        db.retain_mutable_wal_range(wal_range);
         drop(inflight);
         db.maybe_seal_after_insert()?;
         db.maybe_run_minor_compaction()
@@ -670,9 +719,10 @@ where
         )));
     }
 
+    let mark = db.seal_mark();
+    let mut seal = db.seal_state_lock();
     if let Some(sealed) = db.mem.insert_batch_with_mvcc(batch, commit_array)? {
-        let wal_range = db.take_mutable_wal_range();
-        db.add_immutable(sealed, wal_range);
+        db.add_sealed(&mut seal, sealed, mark);
     }
     Ok(())
 }
@@ -689,9 +739,10 @@ where
 {
     validate_delete_batch_schema(db, &batch)?;
     validate_delete_commit_ts(&batch, commit_ts)?;
+    let mark = db.seal_mark();
+    let mut seal = db.seal_state_lock();
     if let Some(sealed) = db.mem.insert_delete_batch(batch)? {
-        let wal_range = db.take_mutable_wal_range();
-        db.add_immutable(sealed, wal_range);
+        db.add_sealed(&mut seal, sealed, mark);
     }
     Ok(())
 }
-- 
2.43.0


From ed2d287723bc91f800131be74204932b634175e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:42 +0000
Subject: [PATCH 29/31] fix: refuse table definitions whose rows could not be
 written or read back

---
 src/db/builder.rs | 15 +++++++++++++++
 src/mode/mod.rs   | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/db/builder.rs b/src/db/builder.rs
index 701f7ca..13a6686 100644
--- a/src/db/builder.rs
+++ b/src/db/builder.rs
@@ -26,6 +26,7 @@ use crate::{
     },
     extractor::{KeyExtractError, KeyProjection, projection_for_columns},
     id::FileIdGenerator,
+    inmem::immutable::memtable::MVCC_TOMBSTONE_COL,
     manifest::{
         ManifestError, ManifestFs, TableMeta, TonboManifest, VersionState,
         bootstrap::{ensure_manifest_dirs, init_fs_manifest},
@@ -1041,6 +1042,20 @@ where
         FS: ManifestFs<E>,
         <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
     {
+        // The WAL and staged transaction rows reserve this name, so such a table could be opened
+        // but never written.
+        if self
+            .mode_config
+            .schema
+            .column_with_name(MVCC_TOMBSTONE_COL)
+            .is_some()
+        {
+            return Err(DbBuildError::Mode(KeyExtractError::Arrow(
+                arrow_schema::ArrowError::SchemaError(format!(
+                    "column name `{MVCC_TOMBSTONE_COL}` is reserved"
+                )),
+            )));
+        }
         if self.state.durability().is_durable() {
             return self.recover_or_init_with_executor(executor).await;
         }
diff --git a/src/mode/mod.rs b/src/mode/mod.rs
index 79c6a99..95daf83 100644
--- a/src/mode/mod.rs
+++ b/src/mode/mod.rs
@@ -6,9 +6,9 @@
 //! representation, so this module now only contains the configuration and
 //! helper utilities needed to build that layout.
 
-use std::sync::Arc;
+use std::{collections::HashSet, sync::Arc};
 
-use arrow_schema::{DataType, Field, Schema, SchemaRef};
+use arrow_schema::{ArrowError, DataType, Field, Schema, SchemaRef};
 use serde_json::Value;
 use sha2::{Digest, Sha256};
 
@@ -38,6 +38,7 @@ impl DynModeConfig {
         extractor: Box<dyn KeyProjection>,
     ) -> Result<Self, KeyExtractError> {
         extractor.validate_schema(&schema)?;
+        validate_table_columns(&schema, extractor.key_indices())?;
         let extractor: Arc<dyn KeyProjection> = extractor.into();
         Ok(Self {
             schema,
@@ -81,6 +82,35 @@ impl DynModeConfig {
     }
 }
 
+/// Columns are addressed by name from the WAL to the query path, so names must be unique and must
+/// not collide with the commit timestamps stored next to them; a key lists each column once.
+fn validate_table_columns(schema: &Schema, key_indices: &[usize]) -> Result<(), KeyExtractError> {
+    let mut names = HashSet::new();
+    for field in schema.fields() {
+        let name = field.name().as_str();
+        let problem = if name == MVCC_COMMIT_COL {
+            "is reserved"
+        } else if !names.insert(name) {
+            "is used more than once"
+        } else {
+            continue;
+        };
+        return Err(KeyExtractError::Arrow(ArrowError::SchemaError(format!(
+            "column name `{name}` {problem}"
+        ))));
+    }
+    let mut keys = HashSet::new();
+    for idx in key_indices {
+        if !keys.insert(*idx) {
+            return Err(KeyExtractError::Arrow(ArrowError::SchemaError(format!(
+                "key lists column `{}` more than once",
+                schema.field(*idx).name()
+            ))));
+        }
+    }
+    Ok(())
+}
+
 fn build_delete_schema(key_schema: &SchemaRef) -> SchemaRef {
     let mut fields = key_schema
         .fields()
-- 
2.43.0


From 3bebf798d770f19b2df16214547767818c503e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 30/31] fix: leave sibling objects out of a WAL segment listing

Stores other than the local file system list by raw string prefix, so
`wal-old/...` or a segment-like name next to the WAL directory was taken
for a segment of this log: replayed, counted and pruned. The fallback
listing already filters by path prefix.
---
 src/wal/storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 2f1e9d6..6e04226 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -137,6 +137,12 @@ impl WalStorage {
                     err
                 ))
             })?;
+            // Object stores list by string prefix, which also matches siblings such as `wal-old/`.
+            if !matches!(self.fs.file_system(), FileSystemTag::Local)
+                && !meta.path.prefix_matches(&self.root)
+            {
+                continue;
+            }
             if let Some(descriptor) = self.describe_segment(meta.path).await? {
                 entries.push(descriptor);
             }
-- 
2.43.0


From f779a5eba8af00c5ddad97c86432d516fe2daa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:37 +0000
Subject: [PATCH 31/31] fix: a steady stream of writes does not put the
 time-driven log sync off

---
 src/wal/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wal/writer.rs b/src/wal/writer.rs
index fd6d505..c2080a9 100644
--- a/src/wal/writer.rs
+++ b/src/wal/writer.rs
@@ -1067,6 +1067,10 @@ where
 
         match next_deadline {
             Some(deadline) => {
+                // A timer armed anew with every write would never get to fire under a steady load.
+                if timer_slot.is_some() && self.scheduled_deadline == Some(deadline) {
+                    return;
+                }
                 let now = self.now();
                 let duration = deadline.saturating_duration_since(now);
                 *timer_slot = Some(self.exec.sleep(duration).fuse());
-- 
2.43.0

