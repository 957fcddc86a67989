//! The database on its real backends: a local disk (with the sync calls watched) and memory.
use std::{
    path::Path,
    sync::{Arc, atomic::{AtomicU64, Ordering}},
    time::Duration,
};

use arrow_array::RecordBatch;
use fusio::{disk::LocalFs, executor::tokio::TokioExecutor, mem::fs::InMemoryFs};
use tonbo::{
    db::{CommitAckMode, DB, DbBuilder, WalSyncPolicy},
    verif::{
        keys_pub::key_from_cells,
        report::{Report, Rng, fpn},
        syncs::{Scratch, watch},
        tuning,
    },
};

use crate::{dbsim::*, model::*};

type Staged = Vec<(K, Option<Row>)>;

trait Table {
    async fn put(&self, b: RecordBatch) -> Result<(), String>;
    async fn mixed(&self, b: RecordBatch, t: Vec<bool>) -> Result<(), String>;
    async fn commit(&self, kind: Kind, s: &Staged) -> Result<(), String>;
    async fn point(&self, kind: Kind, k: &K) -> Result<Option<String>, String>;
    async fn query(&self, kind: Kind, q: &Query) -> Result<Rows, String>;
    async fn compact(&self, cfg: &Cfg, ids: &Arc<AtomicU64>) -> Result<bool, String>;
    async fn files(&self) -> Result<Vec<String>, String>;
}
macro_rules! table {
    ($fs:ty) => {
        impl Table for DB<$fs, TokioExecutor> {
            async fn put(&self, b: RecordBatch) -> Result<(), String> {
                self.ingest(b).await.map_err(|e| e.to_string())
            }
            async fn mixed(&self, b: RecordBatch, t: Vec<bool>) -> Result<(), String> {
                self.ingest_with_tombstones(b, t).await.map_err(|e| e.to_string())
            }
            async fn commit(&self, kind: Kind, s: &Staged) -> Result<(), String> {
                let mut tx = self.begin_transaction().await.map_err(|e| e.to_string())?;
                for (k, r) in s {
                    match r {
                        Some(r) => tx.upsert(kind.dyn_row(k, r)).map_err(|e| e.to_string())?,
                        None => tx.delete(key_from_cells(kind.dyn_key(k))).map_err(|e| e.to_string())?,
                    }
                }
                tx.commit().await.map_err(|e| e.to_string())
            }
            async fn point(&self, kind: Kind, k: &K) -> Result<Option<String>, String> {
                let tx = self.begin_transaction().await.map_err(|e| e.to_string())?;
                let r = tx.get(&key_from_cells(kind.dyn_key(k))).await.map_err(|e| e.to_string())?;
                tx.abort();
                Ok(r.map(|r| format!("{:?}", r.0)))
            }
            async fn query(&self, kind: Kind, q: &Query) -> Result<Rows, String> {
                let s = apply_query!(self.scan(), q, kind);
                s.collect().await.map(|b| decode(&b)).map_err(|e| e.to_string())
            }
            async fn compact(&self, cfg: &Cfg, ids: &Arc<AtomicU64>) -> Result<bool, String> {
                self.verif_compact(cfg.planner(), cfg.max_rows, ids.clone()).await.map(|o| o.is_some())
            }
            async fn files(&self) -> Result<Vec<String>, String> {
                let v = self.verif_version().await?;
                Ok(v.ssts.into_iter().flat_map(|s| std::iter::once(s.data_path).chain(s.delete_path)).collect())
            }
        }
    };
}
table!(LocalFs);
table!(InMemoryFs);

fn builder(cfg: &Cfg) -> Result<DbBuilder, String> {
    let n = cfg.kind.cols().len();
    DbBuilder::from_schema_key_indices(cfg.kind.schema(), (0..n).collect()).map_err(|e| e.to_string())
}
macro_rules! tune {
    ($b:expr, $cfg:expr) => {{
        let mut b = $b;
        b = match $cfg.minor {
            Some(t) => b.with_minor_compaction(t, 0),
            None => b.disable_minor_compaction(),
        };
        b.with_commit_ack_mode($cfg.ack)
    }};
}
fn seal_policy(cfg: &Cfg) {
    let seal = tonbo::db::verif::ManualSeal::new();
    seal.every.store(cfg.seal_every, Ordering::SeqCst);
    tuning::set_seal_policy(Some(seal));
    tuning::set_mem_capacity(cfg.mem_capacity);
}
fn seal_default() {
    tuning::set_seal_policy(None);
    tuning::set_mem_capacity(None);
}
async fn open_disk(cfg: &Cfg, sync: &WalSyncPolicy, flush: Duration, root: &Path) -> Result<DB<LocalFs, TokioExecutor>, String> {
    seal_policy(cfg);
    let r = async {
        let mut b = tune!(builder(cfg)?.on_disk(root).map_err(|e| e.to_string())?, cfg);
        b = b.wal_sync_policy(sync.clone()).wal_flush_interval(flush);
        if let Some(n) = cfg.seg_bytes {
            b = b.wal_segment_bytes(n);
        }
        b.open().await.map_err(|e| e.to_string())
    }
    .await;
    seal_default();
    r
}
async fn open_mem(cfg: &Cfg, seed: u64) -> Result<DB<InMemoryFs, TokioExecutor>, String> {
    seal_policy(cfg);
    let r = async {
        let b = tune!(builder(cfg)?.in_memory(format!("verif-{seed}")).map_err(|e| e.to_string())?, cfg);
        b.open().await.map_err(|e| e.to_string())
    }
    .await;
    seal_default();
    r
}

struct Run<'a> {
    rep: &'a mut Report,
    rng: Rng,
    cfg: Cfg,
    state: State,
    next_v: i64,
    ids: Arc<AtomicU64>,
    tag: u64,
}

impl Run<'_> {
    fn rows(&mut self) -> Vec<(K, Row)> {
        let n = 1 + self.rng.idx(6);
        (0..n).map(|_| (self.cfg.kind.key(self.rng.idx(self.cfg.keys)), gen_row(&mut self.rng, &mut self.next_v))).collect()
    }
    async fn check<T: Table>(&mut self, db: &T, what: &str) -> bool {
        let all = Query { pred: None, proj: None, limit: None };
        let got = db.query(self.cfg.kind, &all).await;
        self.tag += 1;
        let f = fpn(&[self.state.len() as u64, self.next_v as u64, self.tag]);
        if !check_rows(self.rep, what, self.cfg.kind, &self.state, &got, f) {
            return false;
        }
        let cols: Vec<String> = self.cfg.kind.schema().fields().iter().map(|f| f.name().clone()).collect();
        for _ in 0..2 {
            let q = Query::generate(&mut self.rng, &self.cfg, self.next_v, &cols);
            let want = q.reference(self.cfg.kind, &self.state);
            let got = db.query(self.cfg.kind, &q).await;
            self.rep.count("queries", 1);
            if !self.rep.check(fpn(&[f, 1, self.rep_len()]), got.as_ref().is_ok_and(|g| diff(&want, g).is_none()), || {
                format!("{what}: {q:?}: {}", got.as_ref().map(|g| diff(&want, g).unwrap_or_default()).unwrap_or_else(|e| e.clone()))
            }) {
                return false;
            }
        }
        let k = self.cfg.kind.key(self.rng.idx(self.cfg.keys));
        let want = self.state.get(&k).map(|r| format!("{:?}", self.cfg.kind.dyn_row(&k, r).0));
        let got = db.point(self.cfg.kind, &k).await;
        self.rep.check(fpn(&[f, 2]), got.as_ref().is_ok_and(|g| *g == want), || format!("{what}: key {k:?}: want {want:?} got {got:?}"))
    }
    fn rep_len(&self) -> u64 {
        self.tag
    }
    async fn step<T: Table>(&mut self, db: &T) -> bool {
        let kind = self.cfg.kind;
        match self.rng.below(10) {
            0..=3 => {
                let rows = self.rows();
                self.rep.log(format!("ingest {rows:?}"));
                if let Err(e) = db.put(kind.batch(&rows)).await {
                    self.rep.violate(format!("ingest of a valid batch failed: {e}"));
                    return false;
                }
                self.state.extend(rows);
            }
            4 | 5 => {
                let rows = self.rows();
                let t: Vec<bool> = rows.iter().map(|_| self.rng.chance(1, 2)).collect();
                self.rep.log(format!("mixed {rows:?} {t:?}"));
                if let Err(e) = db.mixed(kind.batch(&rows), t.clone()).await {
                    self.rep.violate(format!("ingest_with_tombstones of a valid batch failed: {e}"));
                    return false;
                }
                let dead: Vec<K> = rows.iter().zip(&t).filter(|x| *x.1).map(|x| x.0.0.clone()).collect();
                self.state.extend(rows);
                for k in dead {
                    self.state.remove(&k);
                }
            }
            6 | 7 => {
                let n = 1 + self.rng.idx(4);
                let s: Staged = (0..n)
                    .map(|_| {
                        let k = kind.key(self.rng.idx(self.cfg.keys));
                        let r = self.rng.chance(2, 3).then(|| gen_row(&mut self.rng, &mut self.next_v));
                        (k, r)
                    })
                    .collect();
                self.rep.log(format!("txn {s:?}"));
                if let Err(e) = db.commit(kind, &s).await {
                    self.rep.violate(format!("commit without any concurrent writer failed: {e}"));
                    return false;
                }
                for (k, r) in s {
                    match r {
                        Some(r) => self.state.insert(k, r),
                        None => self.state.remove(&k),
                    };
                }
            }
            8 => match db.compact(&self.cfg, &self.ids).await {
                Ok(true) => {
                    self.rep.log("compacted".into());
                    self.rep.count("compactions", 1)
                }
                Ok(false) => {}
                Err(e) => {
                    self.rep.violate(format!("compaction failed: {e}"));
                    return false;
                }
            },
            _ => return self.check(db, "state").await,
        }
        if self.rng.chance(1, 3) {
            return self.check(db, "state").await;
        }
        true
    }
}

fn copy_tree(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = to.join(e.file_name());
        if e.file_type()?.is_dir() {
            if e.file_name() != "leases" {
                copy_tree(&e.path(), &t)?;
            }
        } else {
            std::fs::copy(e.path(), t)?;
        }
    }
    Ok(())
}
fn wal_dirs(root: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(d) = std::fs::read_dir(root) {
        for e in d.flatten() {
            if e.path().is_dir() {
                if !Scratch::segments_in(&e.path()).is_empty() {
                    out.push(e.path());
                }
                wal_dirs(&e.path(), out);
            }
        }
    }
}

pub fn memory(seed: u64, rep: &mut Report) {
    rt().block_on(async {
        let mut rng = Rng::new(seed);
        let cfg = Cfg::random(&mut rng);
        rep.log(format!("{cfg:?}"));
        let steps = 6 + rng.idx(20);
        let mut run = Run { rep, rng, cfg, state: State::new(), next_v: 0, ids: ids(), tag: seed };
        match open_mem(&run.cfg, seed).await {
            Ok(db) => {
                for _ in 0..steps {
                    if !run.step(&db).await {
                        return;
                    }
                }
                run.check(&db, "end").await;
            }
            Err(e) => run.rep.violate(format!("opening an in-memory table failed: {e}")),
        }
    });
}
fn ids() -> Arc<AtomicU64> {
    Arc::new(AtomicU64::new(EPOCH.fetch_add(1, Ordering::SeqCst) * 1_000_000))
}

pub fn local(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let cfg = Cfg::random(&mut rng);
    let scratch = match Scratch::new(seed) {
        Ok(s) => s,
        Err(e) => return rep.note(&format!("no scratch directory: {e}")),
    };
    let gens = 2 + rng.idx(3);
    let mut run = Run { rep, rng, cfg, state: State::new(), next_v: 0, ids: ids(), tag: seed };
    for generation in 0..=gens {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("rt");
        let go = rt.block_on(generation_on_disk(&mut run, &scratch, seed, generation, gens));
        // The process goes away without a word.
        rt.shutdown_timeout(Duration::from_secs(10));
        if !go {
            return;
        }
        // Carry on from the copy: table paths are absolute, so it takes the place of the original.
        let (root, next) = (scratch.0.join("table"), scratch.0.join("next"));
        if next.exists() {
            if std::fs::remove_dir_all(&root).is_err() || std::fs::rename(&next, &root).is_err() {
                return run.rep.note("scratch directory not usable");
            }
            let mut dirs = Vec::new();
            wal_dirs(&root, &mut dirs);
            for d in &dirs {
                for (_, (p, data, ..)) in Scratch::segments_in(d) {
                    watch(|w| w.len.insert(p, data.len() as u64));
                }
            }
            run.rep.count("reopens", 1);
        }
    }
    run.rep.sample(format!("{} rows on disk after {gens} generations", run.state.len()));
}

async fn generation_on_disk(run: &mut Run<'_>, scratch: &Scratch, seed: u64, generation: usize, gens: usize) -> bool {
    let c2 = Cfg::random(&mut run.rng);
    run.cfg.minor = c2.minor;
    run.cfg.seg_bytes = c2.seg_bytes;
    run.cfg.seal_every = c2.seal_every;
    run.cfg.mem_capacity = c2.mem_capacity;
    let sync = match run.rng.below(5) {
        0..=2 => WalSyncPolicy::Always,
        3 => WalSyncPolicy::IntervalBytes(400),
        _ => WalSyncPolicy::IntervalTime(Duration::from_millis(2)),
    };
    run.cfg.ack = CommitAckMode::Strict;
    let flush = *run.rng.pick(&[Duration::ZERO, Duration::from_millis(1), Duration::from_secs(5)]);
    run.rep.log(format!("generation {generation}: {sync:?} {flush:?} {:?}", run.cfg));
    let root = scratch.0.join("table");
    let db = match open_disk(&run.cfg, &sync, flush, &root).await {
        Ok(d) => d,
        Err(e) => {
            run.rep.violate(format!("opening the table on disk failed (generation {generation}): {e}"));
            return false;
        }
    };
    if !run.check(&db, "after open").await || generation == gens {
        return false;
    }
    let steps = 2 + run.rng.idx(8);
    for _ in 0..steps {
        if !run.step(&db).await {
            return false;
        }
    }
    match db.files().await {
        Ok(files) => {
            let gone: Vec<&String> = files.iter().filter(|f| !Path::new("/").join(f).exists()).collect();
            run.rep.count("table_files_seen", files.len() as u64);
            if !run.rep.check(fpn(&[seed, generation as u64, 3]), gone.is_empty(), || format!("the version names files that are not on disk: {gone:?}")) {
                return false;
            }
        }
        Err(e) => {
            run.rep.violate(format!("reading the version failed: {e}"));
            return false;
        }
    }
    // Power loss, or the process going away, while the database is open: a copy of what is on disk,
    // without what no sync covered.
    let next = scratch.0.join("next");
    if let Err(e) = copy_tree(&root, &next) {
        run.rep.note(&format!("copy failed: {e}"));
        return false;
    }
    if matches!(sync, WalSyncPolicy::Always) {
        let mut dirs = Vec::new();
        wal_dirs(&root, &mut dirs);
        let mut cut = 0;
        for d in &dirs {
            for (_, (p, data, synced, _)) in Scratch::segments_in(d) {
                if synced < data.len() as u64 {
                    if let Ok(f) = std::fs::OpenOptions::new().write(true).open(next.join(p.strip_prefix(&root).expect("below"))) {
                        let _ = f.set_len(synced);
                    }
                    cut += data.len() as u64 - synced;
                }
            }
        }
        run.rep.count("unsynced_log_bytes_dropped", cut);
        run.rep.count("power_losses", 1);
    }
    true
}
