//! Scripted histories of recorded findings (known_findings.txt). Each returns what it observed
//! while the finding still manifests, and `None` once the code behaves.
use std::{
    sync::{Arc, mpsc},
    time::Duration,
};

use futures::StreamExt;
use tonbo::verif::{report::yields, simfs::{OpKind, SimFs}};

use crate::{dbsim::*, model::*};

fn cfg() -> Cfg {
    Cfg {
        kind: Kind::I64,
        keys: 8,
        minor: Some(1),
        seg_bytes: None,
        seal_every: 0,
        mem_capacity: None,
        max_rows: None,
        l0_trigger: 9,
        level_threshold: 9,
        background: false,
        bg: 0,
        ack: tonbo::db::CommitAckMode::Strict,
    }
}
fn key(i: i64) -> K {
    vec![Cell::I(i)]
}
fn row(v: i64) -> Row {
    Row { v, s: None, g: None }
}
async fn put(s: &Sim, k: i64, v: i64) {
    s.db.ingest(Kind::I64.batch(&[(key(k), row(v))])).await.expect("ingest");
}
/// Values of column `v` in scan order.
fn vals(rows: &Rows) -> Vec<i64> {
    rows.iter()
        .map(|r| match r.iter().find(|c| c.0 == "v") {
            Some((_, Some(Cell::I(v)))) => *v,
            _ => -1,
        })
        .collect()
}
async fn all(s: &Sim) -> Vec<i64> {
    vals(&s.scan_all().await.expect("scan"))
}
macro_rules! snap_vals {
    ($snap:expr, $s:expr) => {
        vals(&decode(&$snap.scan(&$s.db).collect().await.expect("snapshot scan")))
    };
}
async fn fresh(c: &Cfg) -> Sim {
    open(Arc::new(SimFs::new()), c).await.expect("open")
}

/// A snapshot of a table without any commit later shows the first commit.
pub fn empty_snapshot_sees_first_commit() -> Option<String> {
    rt().block_on(async {
        let s = fresh(&cfg()).await;
        let snap = s.db.begin_snapshot().await.ok()?;
        put(&s, 1, 10).await;
        let got = snap_vals!(snap, s);
        (!got.is_empty()).then(|| format!("snapshot of the empty table reads {got:?} after the first ingest"))
    })
}

/// A transaction begun on an empty table overwrites the first commit without a conflict.
pub fn empty_txn_misses_first_commit() -> Option<String> {
    rt().block_on(async {
        let s = fresh(&cfg()).await;
        let mut tx = s.db.begin_transaction().await.ok()?;
        tx.upsert(Kind::I64.dyn_row(&key(1), &row(20))).ok()?;
        put(&s, 1, 10).await;
        tx.commit().await.is_ok().then(|| "commit succeeded over a key written after its snapshot".to_string())
    })
}

/// Rows of a held snapshot vanish when the data it reads is flushed.
pub fn snapshot_rows_vanish_after_flush() -> Option<String> {
    rt().block_on(async {
        let s = fresh(&cfg()).await;
        put(&s, 1, 10).await;
        put(&s, 2, 11).await;
        let snap = s.db.begin_snapshot().await.ok()?;
        let before = snap_vals!(snap, s);
        s.arm_seal();
        put(&s, 3, 12).await;
        s.db.verif_minor().await.ok()?;
        let after = snap_vals!(snap, s);
        (before != after).then(|| format!("snapshot read {before:?} before and {after:?} after a flush"))
    })
}

/// Delay appends to the log so that a write stays in flight while other tasks run.
fn hold_wal(s: &Sim, n: u32) {
    s.fs.set_gate(Some(Arc::new(move |k, p| if k == OpKind::Append && p.contains("wal") { n } else { 0 })));
}

/// A snapshot taken while a write is on its way to the log shows that write once it is applied.
pub fn snapshot_sees_inflight_commit() -> Option<String> {
    rt().block_on(async {
        let s = fresh(&cfg()).await;
        put(&s, 1, 10).await;
        hold_wal(&s, 20_000);
        let (_, snap) = futures::join!(put(&s, 1, 11), async {
            yields(60).await;
            let snap = s.db.begin_snapshot().await.ok()?;
            let first = snap_vals!(snap, s);
            Some((snap, first))
        });
        let (snap, first) = snap?;
        let second = snap_vals!(snap, s);
        (first != second).then(|| format!("same snapshot read {first:?}, then {second:?} after the in-flight ingest finished"))
    })
}

/// A transaction begun while a write of the same key is on its way to the log overwrites it unseen.
pub fn txn_overwrites_inflight_commit() -> Option<String> {
    rt().block_on(async {
        let s = fresh(&cfg()).await;
        put(&s, 1, 10).await;
        hold_wal(&s, 20_000);
        let (_, tx) = futures::join!(put(&s, 1, 11), async {
            yields(60).await;
            let mut tx = s.db.begin_transaction().await.ok()?;
            let read = vals(&decode(&tx.scan().collect().await.ok()?));
            tx.upsert(Kind::I64.dyn_row(&key(1), &row(read.first()? + 100))).ok()?;
            Some((tx, read))
        });
        let (tx, read) = tx?;
        s.fs.set_gate(None);
        let ok = tx.commit().await.is_ok();
        let got = all(&s).await;
        (ok && read == [10] && got == [110]).then(|| format!("transaction read {read:?}, a concurrent ingest wrote 11, commit succeeded with {got:?}"))
    })
}

/// A transaction begun while another one is committing the same key overwrites it unseen.
pub fn txn_overwrites_inflight_txn() -> Option<String> {
    rt().block_on(async {
        let s = fresh(&cfg()).await;
        put(&s, 1, 10).await;
        let mut first = s.db.begin_transaction().await.ok()?;
        first.upsert(Kind::I64.dyn_row(&key(1), &row(11))).ok()?;
        hold_wal(&s, 20_000);
        let (one, two) = futures::join!(first.commit(), async {
            yields(60).await;
            let mut tx = s.db.begin_transaction().await.ok()?;
            let read = vals(&decode(&tx.scan().collect().await.ok()?));
            tx.upsert(Kind::I64.dyn_row(&key(1), &row(read.first()? + 100))).ok()?;
            let ok = tx.commit().await.is_ok();
            Some((read, ok))
        });
        let (read, ok) = two?;
        let got = all(&s).await;
        (one.is_ok() && ok && read == [10] && got == [110]).then(|| format!("both transactions committed; the second read {read:?} and left {got:?}"))
    })
}

/// A conflicting version that was flushed to a table before the commit is not noticed.
pub fn flushed_conflict_is_missed() -> Option<String> {
    rt().block_on(async {
        let s = fresh(&cfg()).await;
        put(&s, 1, 10).await;
        let mut tx = s.db.begin_transaction().await.ok()?;
        tx.upsert(Kind::I64.dyn_row(&key(1), &row(20))).ok()?;
        s.arm_seal();
        put(&s, 1, 11).await;
        s.db.verif_minor().await.ok()?;
        if s.db.verif_immutables() != 0 {
            return None;
        }
        tx.commit().await.is_ok().then(|| "commit succeeded over a key whose newer version had been flushed".to_string())
    })
}

/// A scan that is being planned while a flush finishes misses the flushed rows.
pub fn scan_misses_rows_during_flush() -> Option<String> {
    rt().block_on(async {
        let mut c = cfg();
        c.minor = None;
        let s = {
            // One table on disk, then rows in an immutable segment.
            c.minor = Some(1);
            fresh(&c).await
        };
        s.arm_seal();
        put(&s, 1, 10).await;
        s.db.verif_minor().await.ok()?;
        put(&s, 2, 11).await;
        let slow = Arc::new(std::sync::atomic::AtomicBool::new(true));
        let flag = slow.clone();
        // The scan's first look at the table on disk takes long; the flush runs meanwhile.
        s.fs.set_gate(Some(Arc::new(move |k, p| {
            if k == OpKind::Open && p.contains("/sst") && p.ends_with(".parquet") && flag.swap(false, std::sync::atomic::Ordering::SeqCst) { 20_000 } else { 0 }
        })));
        let (got, _) = futures::join!(s.scan_all(), async {
            yields(300).await;
            s.arm_seal();
            put(&s, 3, 12).await;
            let _ = s.db.verif_minor().await;
        });
        let got = vals(&got.ok()?);
        (!got.contains(&11)).then(|| format!("scan returned {got:?}; value 11 was acknowledged before it started"))
    })
}

/// A scan stream held open blocks the next seal of the memtable, on the same thread for ever.
pub fn open_scan_blocks_seal() -> Option<String> {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        rt().block_on(async {
            let s = fresh(&cfg()).await;
            put(&s, 1, 10).await;
            put(&s, 2, 11).await;
            let mut stream = Box::pin(s.db.scan().stream().await.expect("stream"));
            s.arm_seal();
            put(&s, 3, 12).await;
            let n = stream.next().await.map(|b| b.expect("batch").num_rows());
            let _ = tx.send(n);
        });
    });
    match rx.recv_timeout(Duration::from_secs(3)) {
        Ok(_) => None,
        Err(_) => Some("an ingest that seals did not return within 3 s while a scan stream was open".to_string()),
    }
}

/// A version taken from `list_versions` reads other rows once later data is flushed, and not the
/// rows it holds: versions are numbered by manifest edits, reads by the commit clock.
pub fn listed_version_reads_foreign_time() -> Option<String> {
    rt().block_on(async {
        let s = fresh(&cfg()).await;
        for i in 0..3 {
            put(&s, i, 10 + i).await;
        }
        s.arm_seal();
        put(&s, 3, 13).await;
        s.db.verif_minor().await.ok()?;
        let version = s.db.list_versions(1).await.ok()?.first()?.timestamp;
        let snap = s.db.snapshot_at(version).await.ok()?;
        let got = snap_vals!(snap, s);
        (got != [10, 11, 12, 13]).then(|| format!("the only listed version holds the rows 10..=13; snapshot_at({}), its timestamp, reads {got:?}", version.get()))
    })
}
