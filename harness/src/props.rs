//! Which workloads decide which property.
use std::collections::BTreeMap;

use crate::driver::{CaseFn, ProbeFn, Prop};
#[cfg(feature = "db")]
use crate::hist::{self, Focus};

pub fn registry() -> BTreeMap<&'static str, CaseFn> {
    let mut m: BTreeMap<&'static str, CaseFn> = BTreeMap::new();
    #[cfg(feature = "db")]
    {
        m.insert("db_local", crate::disk::local);
        m.insert("db_memory", crate::disk::memory);
        m.insert("db_defs", crate::defs::case);
        m.insert("db_reject", crate::reject::case);
        m.insert("hist_faults", crate::faults::case);
        m.insert("conc_memory", |s, r| crate::conc::case(s, r, crate::conc::Mode::Memory));
        m.insert("conc_moving", |s, r| crate::conc::case(s, r, crate::conc::Mode::Moving));
        m.insert("conc_threads", |s, r| crate::conc::case(s, r, crate::conc::Mode::Threads));
        m.insert("hist_crash", |s, r| hist::case(s, r, Focus::Crash));
        m.insert("hist_snap", crate::snap::case);
        m.insert("hist_query", |s, r| hist::case(s, r, Focus::Query));
        m.insert("hist_layers", |s, r| hist::case(s, r, Focus::Layers));
        m.insert("hist_reopen", |s, r| hist::case(s, r, Focus::Reopen));
        m.insert("hist_txn", |s, r| hist::case(s, r, Focus::Txn));
    }
    for (name, f) in tonbo::verif::all_workloads() {
        m.insert(name, f);
    }
    m
}

pub fn probes() -> BTreeMap<&'static str, ProbeFn> {
    #[allow(unused_mut)]
    let mut m: BTreeMap<&'static str, ProbeFn> = BTreeMap::new();
    #[cfg(feature = "db")]
    {
        use crate::probes::*;
        m.insert("empty_snapshot_sees_first_commit", empty_snapshot_sees_first_commit);
        m.insert("empty_txn_misses_first_commit", empty_txn_misses_first_commit);
        m.insert("snapshot_rows_vanish_after_flush", snapshot_rows_vanish_after_flush);
        m.insert("snapshot_sees_inflight_commit", snapshot_sees_inflight_commit);
        m.insert("txn_overwrites_inflight_commit", txn_overwrites_inflight_commit);
        m.insert("txn_overwrites_inflight_txn", txn_overwrites_inflight_txn);
        m.insert("flushed_conflict_is_missed", flushed_conflict_is_missed);
        m.insert("scan_misses_rows_during_flush", scan_misses_rows_during_flush);
        m.insert("open_scan_blocks_seal", open_scan_blocks_seal);
        m.insert("listed_version_reads_foreign_time", listed_version_reads_foreign_time);
    }
    m
}

/// What runs under the sanitizer builds (AddressSanitizer, ThreadSanitizer).
pub fn sanitizer_plan(kind: &str) -> Vec<(&'static str, u64)> {
    match kind {
        "thread" => vec![("mem_threads", 300), ("mem_live", 300), ("clock_threads", 200), ("plan_queue", 150), ("man_conc", 60), ("wal_writer", 30), ("wal_faults", 30), ("conc_threads", 30), ("conc_memory", 30), ("wal_local", 40), ("db_local", 4), ("db_memory", 10)],
        _ => vec![("mem_live", 300), ("mem_threads", 200), ("mem_versions", 200), ("mem_merge", 200), ("key_order", 150), ("key_maps", 100), ("key_cross", 100), ("txn_staged", 300), ("row_values", 300), ("sst_scan", 60), ("sst_merge", 10), ("qry_layers", 40), ("qry_rowset", 200), ("wal_frames", 40), ("wal_segments", 60), ("wal_writer", 20), ("man_edits", 60), ("plan_edits", 60), ("hist_query", 12), ("hist_txn", 16), ("hist_layers", 8), ("conc_threads", 12), ("conc_memory", 20), ("db_memory", 6), ("db_reject", 20)],
    }
}

const RULE_CASE: &str = "a situation is one monitor evaluation keyed by a fingerprint of the history, the operation and the state it was judged in; trivially empty states are not counted";

macro_rules! prop {
    ($id:literal, $level:literal, $rule:expr, [$($w:literal * $n:literal),* $(,)?]) => {
        Prop { id: $id, level: $level, rule: $rule, plan: vec![$(($w, $n)),*], assumptions: &[] }
    };
}

pub fn props() -> Vec<Prop> {
    vec![
        prop!("P01", "fault_enumeration", "a case is a seeded history of writes, seals, flushes and compactions over the real database on a journaling file system, re-opened after every (sampled) storage mutation including torn appends; a situation is distinct per (history, crash point, acked operations) and non-trivial because recovery ran on it",
            ["hist_crash" * 180, "hist_faults" * 150, "wal_writer" * 200, "wal_faults" * 200, "wal_segments" * 200, "wal_frames" * 200, "wal_local" * 150, "db_local" * 25, "conc_moving" * 60, "conc_memory" * 60, "conc_threads" * 30, "plan_edits" * 150, "man_edits" * 150, "wal_state" * 80]),
        prop!("P02", "fault_enumeration", RULE_CASE, ["hist_crash" * 120, "hist_faults" * 120, "hist_txn" * 120, "wal_ids" * 60, "wal_writer" * 300, "wal_frames" * 300, "wal_segments" * 200, "txn_staged" * 1500, "conc_memory" * 150, "conc_moving" * 80, "conc_threads" * 40, "mem_reject" * 300]),
        prop!("P03", "fault_enumeration", RULE_CASE, ["wal_frames" * 1500, "wal_payloads" * 400, "wal_ids" * 60, "wal_segments" * 800, "wal_writer" * 400, "wal_faults" * 400]),
        prop!("P04", "fault_enumeration", RULE_CASE, ["wal_segments" * 800, "wal_writer" * 250, "wal_state" * 200, "wal_faults" * 200, "man_edits" * 800, "man_hist" * 300, "plan_edits" * 600, "hist_crash" * 80, "hist_reopen" * 80, "hist_faults" * 60, "conc_moving" * 80, "conc_threads" * 40]),
        prop!("P05", "fault_enumeration", RULE_CASE, ["wal_state" * 600, "wal_writer" * 200, "wal_segments" * 200, "mem_versions" * 300, "hist_reopen" * 150, "hist_crash" * 60, "hist_txn" * 60, "clock_hist" * 2000, "clock_threads" * 600, "conc_memory" * 60, "conc_moving" * 50, "hist_snap" * 80, "sst_ties" * 200, "mem_merge" * 200]),
        prop!("P06", "exploration", RULE_CASE, ["mem_versions" * 1000, "mem_merge" * 800, "sst_scan" * 800, "sst_ties" * 400, "hist_txn" * 100, "hist_layers" * 60, "qry_layers" * 200, "conc_memory" * 120, "hist_snap" * 250, "man_hist" * 120, "sst_flush" * 40, "sst_merge" * 40, "mem_live" * 100]),
        prop!("P07", "exploration", RULE_CASE, ["hist_txn" * 300, "mem_versions" * 300, "qry_layers" * 120, "txn_staged" * 4000, "hist_snap" * 150, "mem_merge" * 300]),
        prop!("P08", "exploration", RULE_CASE, ["mem_versions" * 800, "hist_txn" * 100, "txn_staged" * 2000, "conc_memory" * 250, "hist_snap" * 200]),
        prop!("P09", "exploration", RULE_CASE, ["mem_versions" * 1500, "mem_merge" * 800, "mem_prune" * 800, "mem_threads" * 200, "mem_live" * 200, "sst_scan" * 400, "sst_ties" * 400, "qry_layers" * 120, "hist_snap" * 60]),
        prop!("P10", "exploration", RULE_CASE, ["sst_merge" * 250, "sst_ties" * 800, "sst_flush" * 80, "sst_scan" * 400, "sst_faults" * 80, "plan_edits" * 300, "plan_cascade" * 100, "hist_layers" * 120, "conc_moving" * 80, "hist_snap" * 80, "mem_versions" * 200]),
        prop!("P11", "exploration", RULE_CASE, ["hist_query" * 300, "mem_merge" * 600, "sst_scan" * 600, "sst_ties" * 300, "qry_layers" * 150, "qry_rowset" * 1500, "qry_prefix" * 1500, "qry_bounds" * 3000, "dsk_ranges" * 300, "db_memory" * 50, "conc_memory" * 80, "mem_versions" * 400, "mem_prune" * 300]),
        prop!("P12", "exploration", RULE_CASE, ["mem_prune" * 1500, "mem_versions" * 600, "sst_flush" * 120, "sst_scan" * 300, "hist_query" * 200, "qry_bounds" * 6000, "qry_rowset" * 1500, "qry_prefix" * 2000, "dsk_ranges" * 500, "dsk_cache" * 60, "dsk_bloom" * 80, "sst_merge" * 40]),
        prop!("P13", "exploration", RULE_CASE, ["key_order" * 1500, "key_maps" * 1000, "key_cross" * 1000, "row_values" * 1500, "mem_versions" * 800, "wal_frames" * 300, "sst_scan" * 300, "man_edits" * 200]),
        prop!("P14", "fault_enumeration", RULE_CASE, ["man_edits" * 1500, "man_hist" * 800, "man_conc" * 600, "man_crash" * 250, "man_faults" * 500, "conc_moving" * 40, "hist_snap" * 80]),
        prop!("P15", "fault_enumeration", RULE_CASE, ["man_edits" * 800, "man_hist" * 600, "plan_edits" * 600, "plan_cascade" * 200, "wal_segments" * 400, "sst_faults" * 120, "sst_merge" * 80, "hist_faults" * 100, "hist_layers" * 60, "db_local" * 15, "conc_moving" * 60, "hist_snap" * 60, "clock_threads" * 200]),
        prop!("P16", "exploration", RULE_CASE, ["plan_rules" * 3000, "plan_progress" * 1500, "plan_edits" * 800, "plan_queue" * 800, "plan_cascade" * 600, "hist_layers" * 60, "conc_moving" * 30]),
        prop!("P17", "exploration", RULE_CASE, ["mem_reject" * 1500, "key_maps" * 600, "key_cross" * 600, "mem_versions" * 300, "wal_frames" * 200, "schema_keys" * 800, "schema_print" * 600, "row_values" * 2500, "db_reject" * 150, "db_defs" * 200, "wal_payloads" * 200, "txn_staged" * 1000]),
        prop!("P18", "exploration", RULE_CASE, ["wal_writer" * 500, "wal_faults" * 800, "wal_state" * 800, "wal_local" * 500, "db_local" * 20, "wal_segments" * 200]),
        prop!("P19", "exploration", RULE_CASE, ["mem_threads" * 400, "mem_live" * 400, "mem_versions" * 400, "mem_merge" * 300, "key_order" * 300, "sst_scan" * 300, "sst_merge" * 50, "plan_queue" * 200, "wal_writer" * 150, "man_conc" * 150, "hist_query" * 60, "hist_faults" * 40, "clock_threads" * 500, "txn_staged" * 800, "row_values" * 600, "qry_layers" * 60, "conc_threads" * 60, "conc_memory" * 60, "conc_moving" * 30, "wal_local" * 60, "db_local" * 10, "db_memory" * 20, "wal_frames" * 150, "wal_payloads" * 100, "wal_segments" * 100, "wal_ids" * 20, "man_edits" * 150, "qry_bounds" * 400, "qry_prefix" * 400, "db_reject" * 40, "mem_prune" * 200]),
    ]
}
