// Child module of `crate::compaction::driver`.
use super::*;
use crate::compaction::{
    executor::{CompactionLease, LocalCompactionExecutor},
    planner::{LeveledCompactionPlanner, LeveledPlannerConfig},
};
use crate::ondisk::sstable::SsTableConfig;
use std::sync::atomic::AtomicU64;

pub(crate) async fn run_once<FS, E>(
    driver: &CompactionDriver<FS, E>,
    cfg: LeveledPlannerConfig,
    sst: Arc<SsTableConfig>,
    ids: Arc<AtomicU64>,
    max_rows: Option<usize>,
) -> Result<Option<(Vec<u64>, Vec<u64>, usize, usize)>, String>
where
    FS: crate::manifest::ManifestFs<E>,
    E: fusio::executor::Executor + fusio::executor::Timer + Clone + 'static,
    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
{
    let planner = LeveledCompactionPlanner::new(cfg);
    let Some(task) = driver
        .plan_compaction_task(&planner)
        .await
        .map_err(|e| e.to_string())?
    else {
        return Ok(None);
    };
    let head = driver
        .manifest
        .snapshot_latest(driver.table_id)
        .await
        .map_err(|e| e.to_string())?
        .head
        .last_manifest_txn;
    let inputs: Vec<u64> = task.input.iter().map(|i| i.sst_id.raw()).collect();
    let (source, target) = (task.source_level, task.target_level);
    let scheduled = ScheduledCompaction {
        task,
        manifest_head: head,
        lease: CompactionLease {
            id: ulid::Ulid::new(),
            owner: "verif".into(),
            ttl_ms: 1000,
        },
    };
    let mut exec = LocalCompactionExecutor::with_id_allocator(sst, ids);
    if let Some(r) = max_rows {
        exec = exec.with_max_output_rows(r);
    }
    match driver.run_scheduled_compaction(scheduled, &exec).await {
        Ok(Some(outcome)) => Ok(Some((
            inputs,
            outcome.outputs.iter().map(|o| o.id().raw()).collect(),
            source,
            target,
        ))),
        Ok(None) => Ok(None),
        Err(e) => Err(e.to_string()),
    }
}
