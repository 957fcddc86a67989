// Child module of `crate::db`: drives and observes the real DB internals.
pub use crate::transaction::Snapshot as TxSnapshot;
use super::*;
use crate::inmem::policy::{MemStats, SealDecision, SealReason};
use std::sync::atomic::AtomicU64;

/// Seal policy under harness control: seals when armed, or every `every` batches.
pub struct ManualSeal {
    pub armed: AtomicBool,
    pub every: AtomicU64,
    pub sealed: AtomicU64,
}
impl ManualSeal {
    pub fn new() -> Arc<Self> {
        Arc::new(Self {
            armed: AtomicBool::new(false),
            every: AtomicU64::new(0),
            sealed: AtomicU64::new(0),
        })
    }
}
impl SealPolicy for ManualSeal {
    fn evaluate(&self, stats: &MemStats) -> SealDecision {
        let every = self.every.load(Ordering::SeqCst);
        let hit = every > 0 && stats.dyn_batches.unwrap_or(0) as u64 >= every;
        if self.armed.swap(false, Ordering::SeqCst) || hit {
            self.sealed.fetch_add(1, Ordering::SeqCst);
            return SealDecision::Seal(SealReason::Manual);
        }
        SealDecision::NoOp
    }
}

/// Manifest-visible facts about one SST.
#[derive(Clone, Debug)]
pub struct SstInfo {
    pub level: usize,
    pub id: u64,
    pub rows: usize,
    pub tombstones: usize,
    pub bytes: usize,
    pub min_key: Option<String>,
    pub max_key: Option<String>,
    pub data_path: String,
    pub delete_path: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct VersionInfo {
    pub ssts: Vec<SstInfo>,
    pub wal_segments: Vec<(u64, u64, u64)>,
}

pub struct CompactOutcome {
    pub inputs: Vec<u64>,
    pub outputs: Vec<u64>,
    pub source: usize,
    pub target: usize,
}

impl<FS, E> DB<FS, E>
where
    FS: ManifestFs<E>,
    E: Executor + Timer + Clone + 'static,
    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
{
    /// Install a seal policy; only possible while no other handle exists.
    pub fn verif_set_policy(&mut self, policy: Arc<dyn SealPolicy + Send + Sync>) -> bool {
        match Arc::get_mut(&mut self.inner) {
            Some(inner) => {
                inner.policy = policy;
                true
            }
            None => false,
        }
    }
    pub fn verif_immutables(&self) -> usize {
        self.inner.num_immutable_segments()
    }
    /// Rows in the mutable memtable and the sealed segments.
    pub fn verif_memory_is_empty(&self) -> bool {
        self.inner.num_immutable_segments() == 0 && self.inner.mem.row_count() == 0
    }
    pub async fn verif_snapshot_at(&self, ts: u64) -> Result<TxSnapshot, String> {
        self.inner.snapshot_at(crate::mvcc::Timestamp::new(ts)).await.map_err(|e| e.to_string())
    }
    pub fn verif_next_ts(&self) -> u64 {
        self.inner.commit_clock.peek().get()
    }
    /// Run the minor compactor as ingest would (honours its threshold).
    pub async fn verif_minor(&self) -> Result<bool, String> {
        match self.inner.maybe_run_minor_compaction().await {
            Ok(t) => Ok(t.is_some()),
            Err(e) => Err(e.to_string()),
        }
    }
    /// Seal whatever is in the mutable memtable through the production path.
    pub fn verif_try_seal(&self) -> Result<(), String> {
        self.inner.maybe_seal_after_insert().map_err(|e| e.to_string())
    }
    pub async fn verif_version(&self) -> Result<VersionInfo, String> {
        let snap = self
            .inner
            .manifest
            .snapshot_latest_with_fallback(self.inner.manifest_table, &self.inner.table_meta)
            .await
            .map_err(|e| e.to_string())?;
        let mut out = VersionInfo::default();
        if let Some(v) = snap.latest_version.as_ref() {
            for (level, bucket) in v.ssts().iter().enumerate() {
                for e in bucket {
                    let st = e.stats();
                    out.ssts.push(SstInfo {
                        level,
                        id: e.sst_id().raw(),
                        rows: st.map(|s| s.rows).unwrap_or(0),
                        tombstones: st.map(|s| s.tombstones).unwrap_or(0),
                        bytes: st.map(|s| s.bytes).unwrap_or(0),
                        min_key: st.and_then(|s| s.min_key.as_ref()).map(|k| format!("{k:?}")),
                        max_key: st.and_then(|s| s.max_key.as_ref()).map(|k| format!("{k:?}")),
                        data_path: e.data_path().as_ref().to_string(),
                        delete_path: e.delete_path().map(|p| p.as_ref().to_string()),
                    });
                }
            }
            for w in v.wal_segments() {
                out.wal_segments.push((w.seq(), w.first_frame(), w.last_frame()));
            }
        }
        Ok(out)
    }
    /// Plan and execute one compaction through the production scheduler path.
    pub async fn verif_compact(
        &self,
        cfg: LeveledPlannerConfig,
        max_rows: Option<usize>,
        ids: Arc<AtomicU64>,
    ) -> Result<Option<CompactOutcome>, String> {
        let Some(minor) = self.inner.minor_compaction.as_ref() else {
            return Ok(None);
        };
        crate::compaction::verif::run_once(
            &self.inner.compaction_driver(),
            cfg,
            Arc::clone(&minor.config),
            ids,
            max_rows,
        )
        .await
        .map(|o| {
            o.map(|(inputs, outputs, source, target)| CompactOutcome {
                inputs,
                outputs,
                source,
                target,
            })
        })
    }
}
