// P14 (and the manifest side of P04/P15): the manifest against a model of versions.
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};

use fusio::{executor::tokio::TokioExecutor, path::Path};

use super::super::{
    ManifestError, TableDefinition, TableId, TableMeta, TonboManifest, VersionEdit, VersionState,
    GcPlanState, GcSstRef, SstEntry, WalSegmentRef,
    bootstrap::init_fs_manifest,
};
use crate::{
    id::{FileId, FileIdGenerator},
    mvcc::Timestamp,
    ondisk::sstable::{SsTableId, SsTableStats},
    verif::{
        c_lib_aval::*,
        report::{Report, Rng, fpn, fps, yields},
        simfs::{Fault, Image, Mutation, OpKind, SimFs},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[
    ("man_edits", man_edits),
    ("man_hist", man_hist),
    ("man_conc", man_conc),
    ("man_crash", man_crash),
    ("man_faults", man_faults),
];

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

// ---- model -------------------------------------------------------------------------------

#[derive(Clone, Default, Debug, PartialEq)]
struct MState {
    levels: BTreeMap<u32, BTreeMap<u64, String>>,
    wal: Vec<(u64, u64, u64, u128)>,
    watermark: Option<u64>,
}

#[derive(Clone)]
enum MEdit {
    Add(u32, Vec<SstEntry>),
    Remove(u32, Vec<u64>),
    Wal(Vec<WalSegmentRef>),
    Mark(u64),
}

impl MEdit {
    fn real(&self) -> VersionEdit {
        match self.clone() {
            MEdit::Add(level, entries) => VersionEdit::AddSsts { level, entries },
            MEdit::Remove(level, ids) => {
                VersionEdit::RemoveSsts { level, sst_ids: ids.into_iter().map(SsTableId::new).collect() }
            }
            MEdit::Wal(segments) => VersionEdit::SetWalSegments { segments },
            MEdit::Mark(watermark) => VersionEdit::SetTombstoneWatermark { watermark },
        }
    }
    fn show(&self) -> String {
        match self {
            MEdit::Add(l, e) => format!("add L{l} {:?}", e.iter().map(|x| x.sst_id().raw()).collect::<Vec<_>>()),
            MEdit::Remove(l, e) => format!("remove L{l} {e:?}"),
            MEdit::Wal(w) => format!("wal {:?}", w.iter().map(seg).collect::<Vec<_>>()),
            MEdit::Mark(w) => format!("mark {w}"),
        }
    }
}

/// Key values without field names (those are not part of a key's identity).
fn cells(k: &crate::key::KeyOwned) -> String {
    format!("{:?}", k.as_row().cells())
}
fn show_stats(s: &SsTableStats) -> String {
    format!(
        "rows={} bytes={} tomb={} key={:?}..{:?} ts={:?}..{:?}",
        s.rows,
        s.bytes,
        s.tombstones,
        s.min_key.as_ref().map(cells),
        s.max_key.as_ref().map(cells),
        s.min_commit_ts.map(|t| t.get()),
        s.max_commit_ts.map(|t| t.get())
    )
}
fn show_entry(e: &SstEntry) -> String {
    format!(
        "{} stats[{}] wal={:?} data={} del={:?}",
        e.sst_id().raw(),
        e.stats().map(show_stats).unwrap_or_else(|| "-".into()),
        e.wal_segments().map(|w| w.iter().map(|f| u128::from(*f)).collect::<Vec<_>>()),
        e.data_path().as_ref(),
        e.delete_path().map(|p| p.as_ref().to_string())
    )
}
fn seg(w: &WalSegmentRef) -> (u64, u64, u64, u128) {
    (w.seq(), w.first_frame(), w.last_frame(), u128::from(*w.file_id()))
}

impl MState {
    /// None: the edit list is not applicable (removing from a level that does not exist).
    fn apply(&self, edits: &[MEdit]) -> Option<MState> {
        let mut s = self.clone();
        // Levels exist while an edit list is applied even if it empties them on the way.
        let mut depth = s.levels.iter().filter(|(_, b)| !b.is_empty()).map(|(l, _)| l + 1).max().unwrap_or(0);
        for e in edits {
            match e {
                MEdit::Add(l, entries) => {
                    if entries.is_empty() {
                        continue;
                    }
                    depth = depth.max(l + 1);
                    let b = s.levels.entry(*l).or_default();
                    for x in entries {
                        b.insert(x.sst_id().raw(), show_entry(x));
                    }
                }
                MEdit::Remove(l, ids) => {
                    if ids.is_empty() {
                        continue;
                    }
                    if *l >= depth {
                        return None;
                    }
                    let b = s.levels.entry(*l).or_default();
                    for i in ids {
                        b.remove(i);
                    }
                }
                MEdit::Wal(w) => {
                    s.wal = w.iter().map(seg).collect();
                    s.wal.sort();
                }
                MEdit::Mark(w) => s.watermark = Some(*w),
            }
        }
        s.levels.retain(|_, b| !b.is_empty());
        Some(s)
    }
    fn floor(&self) -> Option<(u64, u64, u64, u128)> {
        self.wal.first().copied()
    }
    fn fpr(&self) -> u64 {
        fps(&format!("{self:?}"))
    }
    fn diff(&self, real: &VersionState) -> Option<String> {
        let mut levels: BTreeMap<u32, BTreeMap<u64, String>> = BTreeMap::new();
        for (l, bucket) in real.ssts().iter().enumerate() {
            let mut last = None;
            for e in bucket {
                let id = e.sst_id().raw();
                if last.is_some_and(|x| x >= id) {
                    return Some(format!("level {l} is not in strictly increasing table id order"));
                }
                last = Some(id);
                levels.entry(l as u32).or_default().insert(id, show_entry(e));
            }
        }
        if levels != self.levels {
            return Some(format!("tables differ\n   real  {levels:?}\n   model {:?}", self.levels));
        }
        let wal: Vec<_> = real.wal_segments().iter().map(seg).collect();
        if wal != self.wal {
            return Some(format!("log segments differ\n   real  {wal:?}\n   model {:?}", self.wal));
        }
        let floor = real.cloned_wal_floor().as_ref().map(seg);
        if floor != self.floor() {
            return Some(format!("log floor differs: real {floor:?} model {:?}", self.floor()));
        }
        if real.tombstone_watermark != self.watermark {
            return Some(format!("watermark differs: real {:?} model {:?}", real.tombstone_watermark, self.watermark));
        }
        None
    }
}

// ---- generation --------------------------------------------------------------------------

struct Gen {
    layout: Layout,
    files: Vec<FileId>,
    next_id: u64,
}

impl Gen {
    fn new(rng: &mut Rng) -> Self {
        let layout = Layout::random(rng, &ALL, 3);
        let files = (0..6).map(|i| FileId::from((u128::from(rng.next()) << 32) + i)).collect();
        Gen { layout, files, next_id: rng.below(3) }
    }
    fn entry(&mut self, rng: &mut Rng, id: u64) -> SstEntry {
        let stats = rng.chance(4, 5).then(|| {
            let mut key = |rng: &mut Rng| {
                rng.chance(5, 6).then(|| {
                    let row = self.layout.gen_row(rng);
                    self.layout.owned_key(&self.layout.key_of(&row))
                })
            };
            SsTableStats {
                rows: rng.idx(1000),
                bytes: rng.idx(1 << 40),
                tombstones: rng.idx(10),
                min_key: key(rng),
                max_key: key(rng),
                min_commit_ts: rng.chance(5, 6).then(|| Timestamp::new(rng.next())),
                max_commit_ts: rng.chance(5, 6).then(|| Timestamp::new(rng.next())),
            }
        });
        let wal = rng.chance(2, 3).then(|| {
            let n = rng.idx(4);
            (0..n).map(|_| *rng.pick(&self.files)).collect()
        });
        let tag = rng.below(100);
        let data = Path::parse(format!("db/sst/L{}/{id:020}-{tag}.parquet", rng.below(4))).unwrap();
        let del = rng.chance(1, 2).then(|| Path::parse(format!("db/sst/{id}-{tag}.delete.parquet")).unwrap());
        SstEntry::new(SsTableId::new(id), stats, wal, data, del)
    }
    fn edit(&mut self, rng: &mut Rng, state: &MState, bad: bool) -> MEdit {
        match rng.below(10) {
            0..=3 => {
                let level = if rng.chance(1, 2) { 0 } else { rng.below(5) as u32 };
                let n = [0, 1, 1, 2, 3][rng.idx(5)];
                let mut v = Vec::new();
                for _ in 0..n {
                    let id = if rng.chance(1, 8) && self.next_id > 0 {
                        rng.below(self.next_id)
                    } else {
                        // Ids need not arrive in order.
                        self.next_id += 1 + rng.below(2);
                        self.next_id
                    };
                    v.push(self.entry(rng, id));
                }
                rng.shuffle(&mut v);
                MEdit::Add(level, v)
            }
            4..=6 => {
                let have: Vec<u32> = state.levels.iter().filter(|(_, b)| !b.is_empty()).map(|(l, _)| *l).collect();
                if have.is_empty() || (bad && rng.chance(1, 3)) {
                    return MEdit::Remove(rng.below(8) as u32, if bad { vec![rng.below(20)] } else { vec![] });
                }
                let l = *rng.pick(&have);
                let mut ids: Vec<u64> = state.levels[&l].keys().copied().collect();
                rng.shuffle(&mut ids);
                let all = rng.chance(1, 3);
                if !all {
                    ids.truncate(1 + rng.idx(ids.len()));
                }
                if rng.chance(1, 6) {
                    ids.push(rng.below(50) + 1000);
                }
                MEdit::Remove(l, ids)
            }
            7..=8 => {
                let n = [0, 1, 2, 3, 5][rng.idx(5)];
                let mut v = Vec::new();
                for _ in 0..n {
                    let first = rng.below(40);
                    v.push(WalSegmentRef::new(rng.below(6), *rng.pick(&self.files), first, first + rng.below(20)));
                }
                MEdit::Wal(v)
            }
            _ => MEdit::Mark(rng.next() >> rng.below(64)),
        }
    }
    fn edits(&mut self, rng: &mut Rng, state: &MState, bad: bool) -> Vec<MEdit> {
        let n = 1 + rng.idx(4);
        let mut cur = state.clone();
        let mut out = Vec::new();
        for _ in 0..n {
            let e = self.edit(rng, &cur, bad);
            out.push(e);
            if let Some(s) = state.apply(&out) {
                cur = s;
            }
        }
        out
    }
}

fn real(edits: &[MEdit]) -> Vec<VersionEdit> {
    edits.iter().map(MEdit::real).collect()
}
fn show(edits: &[MEdit]) -> String {
    edits.iter().map(MEdit::show).collect::<Vec<_>>().join("; ")
}

// ---- pure edit application ------------------------------------------------------------------

fn man_edits(seed: u64, r: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut g = Gen::new(&mut rng);
    let table = TableId::from(FileId::from(u128::from(rng.next())));
    let mut model = MState::default();
    let mut st = VersionState::empty(table);
    for step in 0..(6 + rng.below(14)) {
        let edits = g.edits(&mut rng, &model, true);
        r.log(show(&edits));
        let mut next = st.clone();
        let res = next.apply_edits(&real(&edits));
        match (res, model.apply(&edits)) {
            (Ok(()), Some(m)) => {
                let d = m.diff(&next);
                r.check(fpn(&[m.fpr(), fps(&show(&edits))]), d.is_none(), || {
                    format!("step {step}: applying version edits gave a wrong version: {}", d.unwrap())
                });
                // The stored form of a version is the version.
                let text = serde_json::to_vec(&next).expect("serialize");
                let back: VersionState = match serde_json::from_slice(&text) {
                    Ok(b) => b,
                    Err(e) => return r.violate(format!("step {step}: a stored version cannot be read back: {e}")),
                };
                let d = m.diff(&back);
                r.check(fpn(&[m.fpr(), 7]), d.is_none(), || {
                    format!("step {step}: a version changed when stored and read back: {}", d.unwrap())
                });
                st = next;
                model = m;
            }
            (Err(_), None) => r.count("inapplicable edits", 1),
            (Err(e), Some(_)) => return r.violate(format!("step {step}: applicable edits were rejected: {e}")),
            // Accepting a no-op removal would be harmless; what it published must still be sane.
            (Ok(()), None) => {}
        }
        r.count("edit lists", 1);
    }
}

// ---- manifest histories ---------------------------------------------------------------------

type M = TonboManifest<SimFs, TokioExecutor>;

fn root() -> Path {
    Path::parse("db").unwrap()
}
async fn open(fs: &SimFs) -> Result<M, ManifestError> {
    init_fs_manifest(fs.clone(), &root(), TokioExecutor::default()).await
}
fn strip_leases(mut img: Image) -> Image {
    img.retain(|p, _| !p.contains("/leases/"));
    img
}

/// What the model knows of one table.
#[derive(Clone)]
struct MTable {
    def: TableDefinition,
    meta: TableMeta,
    /// Published versions, oldest first.
    versions: Vec<(u64, MState)>,
}
impl MTable {
    fn head(&self) -> Option<u64> {
        self.versions.last().map(|v| v.0)
    }
    fn state(&self) -> MState {
        self.versions.last().map(|v| v.1.clone()).unwrap_or_default()
    }
}

fn gen_def(rng: &mut Rng, name: &str) -> TableDefinition {
    TableDefinition {
        name: name.to_string(),
        schema_fingerprint: format!("fp{}", rng.below(3)),
        primary_key_columns: (0..1 + rng.idx(3)).map(|i| format!("k{i}")).collect(),
        retention: rng.chance(1, 2).then(Default::default),
        schema_version: rng.below(3) as u32,
    }
}
fn vary_def(rng: &mut Rng, d: &TableDefinition) -> TableDefinition {
    let mut d = d.clone();
    match rng.below(4) {
        0 => d.schema_fingerprint.push('x'),
        1 => {
            if rng.chance(1, 2) && d.primary_key_columns.len() > 1 {
                d.primary_key_columns.reverse();
            } else {
                d.primary_key_columns.push("z".into());
            }
        }
        2 => d.schema_version += 1,
        _ => {
            d.retention = match d.retention {
                None => Some(Default::default()),
                Some(mut r) => {
                    r.max_versions += 1;
                    Some(r)
                }
            }
        }
    }
    d
}
fn meta_ok(m: &TableMeta, d: &TableDefinition) -> bool {
    m.name == d.name
        && m.schema_fingerprint == d.schema_fingerprint
        && m.primary_key_columns == d.primary_key_columns
        && m.retention == d.retention
        && m.schema_version == d.schema_version
}

/// Compare everything the manifest shows about a table with the model.
async fn check_table(m: &M, t: &MTable, r: &mut Report, ctx: &str, rng: &mut Rng) -> bool {
    let id = t.meta.table_id;
    let f = fpn(&[t.state().fpr(), t.versions.len() as u64, fps(ctx)]);
    let snap = match m.snapshot_latest(id).await {
        Ok(s) => s,
        Err(e) => {
            r.violate(format!("{ctx}: the latest version cannot be read: {e}"));
            return false;
        }
    };
    let mut ok = true;
    ok &= r.check(f, snap.head.last_manifest_txn.map(|x| x.get()) == t.head(), || {
        format!("{ctx}: head is at {:?}, expected {:?}", snap.head.last_manifest_txn, t.head())
    });
    ok &= r.check(f ^ 1, snap._table_meta == t.meta && snap.head.table_id == id && snap.head.schema_version == t.meta.schema_version, || {
        format!("{ctx}: table metadata changed: {:?} vs {:?}", snap._table_meta, t.meta)
    });
    ok &= r.check(f ^ 2, snap.head.wal_floor.as_ref().map(seg) == t.state().floor(), || {
        format!("{ctx}: head log floor {:?}, expected {:?}", snap.head.wal_floor, t.state().floor())
    });
    match (&snap.latest_version, t.versions.last()) {
        (None, None) => {}
        (Some(v), Some((ts, s))) => {
            let d = if v.commit_timestamp().get() != *ts { Some(format!("timestamp {} not {ts}", v.commit_timestamp().get())) } else { s.diff(v) };
            ok &= r.check(f ^ 3, d.is_none(), || format!("{ctx}: latest version differs: {}", d.unwrap()));
        }
        (a, b) => {
            ok = false;
            r.violate(format!("{ctx}: latest version present={} expected={}", a.is_some(), b.is_some()));
        }
    }
    match m.snapshot_latest_with_fallback(id, &t.meta).await {
        Ok(s2) => {
            let same = s2.head == snap.head
                && match (&s2.latest_version, t.versions.last()) {
                    (None, None) => true,
                    (Some(v), Some((_, s))) => s.diff(v).is_none(),
                    _ => false,
                };
            ok &= r.check(f ^ 4, same, || format!("{ctx}: the fallback snapshot differs from the plain one"));
        }
        Err(e) => {
            ok = false;
            r.violate(format!("{ctx}: snapshot with fallback failed: {e}"))
        }
    }
    match m.wal_floor(id).await {
        Ok(fl) => {
            ok &= r.check(f ^ 5, fl.as_ref().map(seg) == t.state().floor(), || {
                format!("{ctx}: stored log floor {fl:?}, expected {:?}", t.state().floor())
            });
        }
        Err(e) => {
            ok = false;
            r.violate(format!("{ctx}: log floor cannot be read: {e}"))
        }
    }
    for limit in [0usize, 1, 1 + rng.idx(4)] {
        match m.list_versions(id, limit).await {
            Ok(list) => {
                let want: Vec<_> = t.versions.iter().rev().take(if limit == 0 { usize::MAX } else { limit }).collect();
                let got: Vec<u64> = list.iter().map(|v| v.commit_timestamp().get()).collect();
                let ws: Vec<u64> = want.iter().map(|v| v.0).collect();
                ok &= r.check(f ^ 6, got == ws, || format!("{ctx}: versions listed (limit {limit}) {got:?}, expected {ws:?}"));
                if got == ws {
                    for (v, w) in list.iter().zip(&want) {
                        let d = w.1.diff(v);
                        ok &= r.check(f ^ (8 + w.0), d.is_none(), || format!("{ctx}: listed version {} differs: {}", w.0, d.unwrap()));
                    }
                }
            }
            Err(e) => {
                ok = false;
                r.violate(format!("{ctx}: versions cannot be listed: {e}"))
            }
        }
    }
    for (ts, s) in &t.versions {
        match m.snapshot_at_version(id, Timestamp::new(*ts)).await {
            Ok(TS { latest_version: Some(v), .. }) => {
                let d = s.diff(&v);
                ok &= r.check(f ^ (16 + ts), d.is_none(), || format!("{ctx}: old version {ts} changed: {}", d.unwrap()));
            }
            Ok(_) => {
                ok = false;
                r.violate(format!("{ctx}: old version {ts} is gone"))
            }
            Err(e) => {
                ok = false;
                r.violate(format!("{ctx}: old version {ts} cannot be read: {e}"))
            }
        }
    }
    if let Ok(TS { latest_version: Some(_), .. }) = m.snapshot_at_version(id, Timestamp::new(t.head().unwrap_or(0) + 1)).await {
        ok = false;
        r.violate(format!("{ctx}: a version newer than the head exists"));
    }
    ok
}
type TS = super::super::TableSnapshot;

fn man_hist(seed: u64, r: &mut Report) {
    rt().block_on(async {
        let mut rng = Rng::new(seed);
        let mut g = Gen::new(&mut rng);
        let fs = SimFs::new();
        let ids = FileIdGenerator::default();
        let mut m = match open(&fs).await {
            Ok(m) => m,
            Err(e) => return r.violate(format!("manifest cannot be created: {e}")),
        };
        let mut tables: Vec<MTable> = Vec::new();
        for step in 0..(8 + rng.below(16)) {
            let what = rng.below(12);
            if tables.is_empty() || what == 0 {
                let name = format!("t{}", tables.len());
                let def = gen_def(&mut rng, &name);
                match m.register_table(&ids, &def).await {
                    Ok(meta) => {
                        let fresh = tables.iter().all(|t| t.meta.table_id != meta.table_id);
                        if !r.check(fpn(&[seed, step]), meta_ok(&meta, &def) && fresh, || format!("registered metadata {meta:?} for {def:?}")) {
                            return;
                        }
                        r.log(format!("register {name}"));
                        tables.push(MTable { def, meta, versions: vec![] });
                    }
                    Err(e) => return r.violate(format!("registering a new table failed: {e}")),
                }
                continue;
            }
            let i = rng.idx(tables.len());
            match what {
                1 => {
                    let (def, same) = if rng.chance(1, 2) { (tables[i].def.clone(), true) } else { (vary_def(&mut rng, &tables[i].def), false) };
                    let res = m.register_table(&ids, &def).await;
                    r.log(format!("register again {} same={same}", def.name));
                    match res {
                        Ok(meta) => {
                            r.check(fpn(&[seed, step, 1]), same && meta == tables[i].meta, || {
                                format!("registering {def:?} over {:?} returned {meta:?}", tables[i].def)
                            });
                        }
                        Err(e) => {
                            r.check(fpn(&[seed, step, 2]), !same, || format!("registering the same definition again failed: {e}"));
                        }
                    }
                }
                2 => {
                    m = match open(&fs).await {
                        Ok(m) => m,
                        Err(e) => return r.violate(format!("manifest cannot be re-opened: {e}")),
                    };
                    r.log("reopen".into());
                }
                3 => {
                    // A garbage-collection record does not touch versions.
                    let plan = GcPlanState {
                        obsolete_ssts: vec![GcSstRef {
                            id: SsTableId::new(1),
                            level: 0,
                            data_path: Path::parse("db/sst/x").unwrap(),
                            delete_path: None,
                        }],
                        obsolete_wal_segments: vec![],
                    };
                    if let Err(e) = m.record_gc_plan(tables[i].meta.table_id, plan).await {
                        return r.violate(format!("recording a gc plan failed: {e}"));
                    }
                }
                _ => {
                    let state = tables[i].state();
                    let bad = rng.chance(1, 4);
                    let edits = g.edits(&mut rng, &state, bad);
                    let cas = rng.below(4);
                    let head = tables[i].head();
                    let expected = match cas {
                        0 | 1 => None,
                        2 => Some(head),
                        _ => Some(match rng.below(3) {
                            0 => None,
                            1 => head.map(|h| h + 1).or(Some(1)),
                            _ => head.map(|h| h.saturating_sub(1)),
                        }),
                    };
                    let id = tables[i].meta.table_id;
                    let res = match expected {
                        None => m.apply_version_edits(id, &real(&edits)).await,
                        Some(x) => m.apply_version_edits_cas(id, x.map(Timestamp::new), &real(&edits)).await,
                    };
                    let stale = expected.is_some_and(|x| x != head);
                    let next = state.apply(&edits);
                    r.log(format!("t{i} expected={expected:?} head={head:?} {} -> {res:?}", show(&edits)));
                    match res {
                        Ok(ts) => {
                            let ts = ts.get();
                            if stale {
                                return r.violate(format!("an update expecting head {expected:?} succeeded while the head was {head:?}"));
                            }
                            if head.is_some_and(|h| ts <= h) {
                                return r.violate(format!("version timestamp {ts} is not after {head:?}"));
                            }
                            let Some(next) = next else { return };
                            tables[i].versions.push((ts, next));
                            r.count("published versions", 1);
                        }
                        Err(e) => {
                            if stale {
                                r.check(fpn(&[seed, step, 3]), matches!(e, ManifestError::CasConflict(_)) || next.is_none(), || {
                                    format!("a stale update failed with {e} rather than a conflict")
                                });
                                r.count("stale updates refused", 1);
                            } else if next.is_some() {
                                return r.violate(format!("an applicable update failed: {e}"));
                            }
                        }
                    }
                }
            }
            if rng.chance(1, 2) {
                for i in 0..tables.len() {
                    let t = tables[i].clone();
                    if !check_table(&m, &t, r, &format!("step {step}, table {i}"), &mut rng).await {
                        return;
                    }
                }
            }
        }
        let m2 = match open(&fs).await {
            Ok(m) => m,
            Err(e) => return r.violate(format!("manifest cannot be re-opened at the end: {e}")),
        };
        for (i, t) in tables.iter().enumerate() {
            check_table(&m2, t, r, &format!("after reopening, table {i}"), &mut rng).await;
        }
        r.sample(format!("man_hist {seed}: {} tables, versions {:?}", tables.len(), tables.iter().map(|t| t.versions.len()).collect::<Vec<_>>()));
    });
}

// ---- concurrent writers and readers ----------------------------------------------------------

struct Op {
    table: usize,
    edits: Vec<MEdit>,
    expected: Option<Option<u64>>,
    result: Result<u64, String>,
}

/// A linear history of versions in which every acknowledged update appears at its timestamp over
/// the head its writer expected, and every other version is the effect of an update that failed late.
fn explain(
    shown: &[(u64, &VersionState)],
    ok: &[(u64, &Op)],
    late: &[&Op],
    used: &mut Vec<bool>,
    done: &mut Vec<(u64, MState)>,
) -> Option<Vec<(u64, MState)>> {
    let n = done.len();
    let Some((ts, v)) = shown.get(n) else {
        return ok.iter().all(|o| done.iter().any(|d| d.0 == o.0)).then(|| done.clone());
    };
    let (head, state) = done.last().map(|d| (Some(d.0), d.1.clone())).unwrap_or((None, MState::default()));
    if head.is_some_and(|h| *ts <= h) {
        return None;
    }
    let acked: Vec<_> = ok.iter().filter(|o| o.0 == *ts).collect();
    let fits = |o: &Op| o.expected.is_none_or(|x| x == head).then(|| state.apply(&o.edits)).flatten().filter(|s| s.diff(v).is_none());
    match acked.len() {
        0 => {
            for i in 0..late.len() {
                if used[i] {
                    continue;
                }
                if let Some(s) = fits(late[i]) {
                    used[i] = true;
                    done.push((*ts, s));
                    if let Some(x) = explain(shown, ok, late, used, done) {
                        return Some(x);
                    }
                    done.pop();
                    used[i] = false;
                }
            }
            None
        }
        1 => {
            let s = fits(acked[0].1)?;
            done.push((*ts, s));
            let x = explain(shown, ok, late, used, done);
            done.pop();
            x
        }
        _ => None,
    }
}

fn man_conc(seed: u64, r: &mut Report) {
    let rt = rt();
    rt.block_on(async {
        let mut rng = Rng::new(seed);
        let fs = SimFs::new().with_yields(rng.next(), 3);
        let ids = FileIdGenerator::default();
        let m = match open(&fs).await {
            Ok(m) => m,
            Err(e) => return r.violate(format!("manifest cannot be created: {e}")),
        };
        let nt = 1 + rng.idx(2);
        let mut tables = Vec::new();
        for i in 0..nt {
            let def = gen_def(&mut rng, &format!("t{i}"));
            match m.register_table(&ids, &def).await {
                Ok(meta) => tables.push(MTable { def, meta, versions: vec![] }),
                Err(e) => return r.violate(format!("registering a table failed: {e}")),
            }
        }
        let log: Arc<Mutex<Vec<Op>>> = Arc::default();
        let acked: Arc<Mutex<Vec<u64>>> = Arc::new(Mutex::new(vec![0; nt]));
        let bad: Arc<Mutex<Vec<String>>> = Arc::default();
        let seen: Arc<Mutex<Vec<(usize, u64, VersionState)>>> = Arc::default();
        let mut jobs = Vec::new();
        let writers = 2 + rng.idx(3);
        let one_handle = rng.chance(1, 3);
        for w in 0..writers {
            let mut rng = rng.fork();
            // Some writers share the handle, some have a handle of their own.
            let m = if one_handle || rng.chance(1, 2) { m.clone() } else { match open(&fs).await { Ok(m) => m, Err(e) => return r.violate(format!("second handle: {e}")) } };
            let (log, acked) = (log.clone(), acked.clone());
            let tids: Vec<TableId> = tables.iter().map(|t| t.meta.table_id).collect();
            jobs.push(tokio::spawn(async move {
                let mut g = Gen::new(&mut rng);
                g.next_id = 1000 * (w as u64 + 1);
                for _ in 0..(2 + rng.below(4)) {
                    let t = rng.idx(tids.len());
                    // Edits that are applicable in any state: additions, log lists, marks.
                    let mut edits = Vec::new();
                    for _ in 0..(1 + rng.idx(2)) {
                        edits.push(loop {
                            let e = g.edit(&mut rng, &MState::default(), false);
                            if !matches!(e, MEdit::Remove(..)) {
                                break e;
                            }
                        });
                    }
                    let expected = if rng.chance(1, 2) {
                        match m.snapshot_latest(tids[t]).await {
                            Ok(s) => Some(s.head.last_manifest_txn.map(|x| x.get())),
                            Err(_) => continue,
                        }
                    } else {
                        None
                    };
                    yields(rng.below(4) as u32).await;
                    let res = match expected {
                        None => m.apply_version_edits(tids[t], &real(&edits)).await,
                        Some(x) => m.apply_version_edits_cas(tids[t], x.map(Timestamp::new), &real(&edits)).await,
                    };
                    if let Ok(ts) = &res {
                        let mut a = acked.lock().unwrap();
                        a[t] = a[t].max(ts.get());
                    }
                    log.lock().unwrap().push(Op { table: t, edits, expected, result: res.map(|t| t.get()).map_err(|e| e.to_string()) });
                }
            }));
        }
        for _ in 0..(1 + rng.idx(2)) {
            let mut rng = rng.fork();
            let m = m.clone();
            let (acked, bad, seen) = (acked.clone(), bad.clone(), seen.clone());
            let tids: Vec<TableId> = tables.iter().map(|t| t.meta.table_id).collect();
            jobs.push(tokio::spawn(async move {
                let mut last = vec![0u64; tids.len()];
                for _ in 0..(4 + rng.below(6)) {
                    let t = rng.idx(tids.len());
                    let floor = acked.lock().unwrap()[t];
                    match m.snapshot_latest(tids[t]).await {
                        Ok(s) => {
                            let h = s.head.last_manifest_txn.map(|x| x.get()).unwrap_or(0);
                            if h < floor {
                                bad.lock().unwrap().push(format!("a reader saw head {h} after version {floor} was acknowledged"));
                            }
                            if h < last[t] {
                                bad.lock().unwrap().push(format!("a reader saw head {h} after having seen {}", last[t]));
                            }
                            last[t] = h;
                            match s.latest_version {
                                None if h > 0 => bad.lock().unwrap().push(format!("head {h} has no version")),
                                Some(v) if v.commit_timestamp().get() != h => {
                                    bad.lock().unwrap().push(format!("head {h} with version {}", v.commit_timestamp().get()))
                                }
                                Some(v) => {
                                    if s.head.wal_floor.as_ref().map(seg) != v.cloned_wal_floor().as_ref().map(seg) {
                                        bad.lock().unwrap().push(format!("head {h}: log floor of head and version differ"));
                                    }
                                    seen.lock().unwrap().push((t, h, v));
                                }
                                None => {}
                            }
                        }
                        Err(_) => {}
                    }
                    yields(rng.below(6) as u32).await;
                }
            }));
        }
        for j in jobs {
            if let Err(e) = j.await {
                return r.violate(format!("a manifest task panicked: {e}"));
            }
        }
        for b in bad.lock().unwrap().drain(..) {
            r.violate(b);
        }
        let log = log.lock().unwrap();
        // Writers of one process share a handle: nothing but a stale head may refuse an update.
        if one_handle {
            for o in log.iter() {
                let fair = match &o.result {
                    Ok(_) => true,
                    Err(e) => o.expected.is_some() && !e.contains("precondition"),
                };
                r.check(fpn(&[seed, 9, o.edits.len() as u64]), fair, || {
                    format!("an update through a shared handle failed because of the others: {:?}", o.result)
                });
            }
        }
        let m2 = match open(&fs).await {
            Ok(m) => m,
            Err(e) => return r.violate(format!("manifest cannot be re-opened: {e}")),
        };
        let mut sched = String::new();
        for (i, t) in tables.iter_mut().enumerate() {
            let list = match m2.list_versions(t.meta.table_id, 0).await {
                Ok(l) => l,
                Err(e) => return r.violate(format!("versions cannot be listed: {e}")),
            };
            let mut ok: Vec<(u64, &Op)> = log.iter().filter(|o| o.table == i).filter_map(|o| o.result.as_ref().ok().map(|ts| (*ts, o))).collect();
            ok.sort_by_key(|x| x.0);
            let refused = log.iter().filter(|o| o.table == i && o.result.is_err()).count();
            r.count("updates acknowledged", ok.len() as u64);
            r.count("updates refused", refused as u64);
            sched += &format!("{i}:{:?}/{refused} ", ok.iter().map(|o| o.1.edits.len()).collect::<Vec<_>>());
            let got: Vec<u64> = list.iter().rev().map(|v| v.commit_timestamp().get()).collect();
            let want: Vec<u64> = ok.iter().map(|x| x.0).collect();
            // An update that lost the race inside the manifest store after its record was written
            // reports "precondition failed" and may still be published by another writer.
            let late: Vec<&Op> = log.iter().filter(|o| o.table == i && o.result.as_ref().is_err_and(|e| e.contains("precondition failed"))).collect();
            let shown: Vec<(u64, &VersionState)> = list.iter().rev().map(|v| (v.commit_timestamp().get(), v)).collect();
            let explained = explain(&shown, &ok, &late, &mut vec![false; late.len()], &mut vec![]);
            if explained.is_none() {
                for o in log.iter() {
                    r.log(format!("t{} exp={:?} {} -> {:?}", o.table, o.expected, show(&o.edits), o.result));
                }
            }
            if !r.check(fpn(&[seed, i as u64, 1]), explained.is_some(), || {
                format!("concurrent updates acknowledged versions {want:?}; the manifest lists {got:?}, which no order of the updates explains")
            }) {
                return;
            }
            r.count("updates published late", (got.len() - want.len()) as u64);
            t.versions = explained.unwrap();
            check_table(&m2, t, r, &format!("after concurrent updates, table {i}"), &mut rng).await;
        }
        for (t, h, v) in seen.lock().unwrap().iter() {
            let d = match tables[*t].versions.iter().find(|x| x.0 == *h) {
                Some((_, s)) => s.diff(v),
                None => Some("never published".into()),
            };
            r.check(fpn(&[seed, *h, 3]), d.is_none(), || format!("a concurrent reader saw version {h} of table {t} that differs: {}", d.unwrap()));
        }
        r.eval(fps(&sched));
        r.sample(format!("man_conc {seed}: {writers} writers, {sched}"));
    });
}

// ---- crashes -----------------------------------------------------------------------------------

fn man_crash(seed: u64, r: &mut Report) {
    rt().block_on(async {
        let mut rng = Rng::new(seed);
        let mut g = Gen::new(&mut rng);
        let fs = SimFs::new();
        fs.set_recording(true);
        let ids = FileIdGenerator::default();
        // (journal length, table) after each acknowledged step; the model before anything exists
        // is None.
        let m = match open(&fs).await {
            Ok(m) => m,
            Err(e) => return r.violate(format!("manifest cannot be created: {e}")),
        };
        let def = gen_def(&mut rng, "t");
        let meta = match m.register_table(&ids, &def).await {
            Ok(x) => x,
            Err(e) => return r.violate(format!("registering failed: {e}")),
        };
        let mut t = MTable { def: def.clone(), meta, versions: vec![] };
        let start = fs.journal_len();
        let mut marks: Vec<(usize, MTable)> = vec![(start, t.clone())];
        for _ in 0..(2 + rng.below(5)) {
            let state = t.state();
            let edits = g.edits(&mut rng, &state, false);
            let Some(next) = state.apply(&edits) else { continue };
            match m.apply_version_edits(t.meta.table_id, &real(&edits)).await {
                Ok(ts) => t.versions.push((ts.get(), next)),
                Err(e) => return r.violate(format!("update failed: {e}")),
            }
            marks.push((fs.journal_len(), t.clone()));
        }
        let (base, journal) = fs.journal();
        let mut img = base;
        let mut done = 0usize;
        for (k, mu) in journal.iter().enumerate() {
            let mut torn = Vec::new();
            if let Mutation::Append(_, d) = mu {
                if d.len() > 1 && !mu.path().contains("/leases/") {
                    let mut x = img.clone();
                    mu.apply_torn(&mut x, 1 + rng.idx(d.len() - 1));
                    torn.push(x);
                }
            }
            mu.apply(&mut img);
            while done + 1 < marks.len() && marks[done + 1].0 <= k + 1 {
                done += 1;
            }
            let registered = marks[0].0 <= k + 1;
            for (kind, image) in torn.into_iter().map(|x| ("torn", x)).chain([("whole", img.clone())]) {
                let fs2 = SimFs::from_image(strip_leases(image));
                r.count("crash points", 1);
                let m2 = match open(&fs2).await {
                    Ok(m) => m,
                    Err(e) => return r.violate(format!("after a crash at mutation {k} ({kind} {} {}) the manifest cannot be opened: {e}", mu.kind(), mu.path())),
                };
                // Registering the same definition again is how a database opens.
                let meta = match m2.register_table(&ids, &def).await {
                    Ok(x) => x,
                    Err(e) => return r.violate(format!("after a crash at mutation {k} ({kind}) the table cannot be opened: {e}")),
                };
                if !registered {
                    r.check(fpn(&[seed, k as u64, 9]), meta_ok(&meta, &def), || "metadata after a crash differs".into());
                    continue;
                }
                let head = match m2.snapshot_latest(meta.table_id).await {
                    Ok(s) => s.head.last_manifest_txn.map(|x| x.get()),
                    Err(e) => return r.violate(format!("after a crash at mutation {k} ({kind}): {e}")),
                };
                // Acknowledged updates are there; the one in flight may be.
                let floor = done - usize::from(kind == "torn" && marks[done].0 == k + 1 && done > 0);
                let cands: Vec<&MTable> = marks[floor..(done + 2).min(marks.len())].iter().map(|x| &x.1).collect();
                let hit = cands.iter().find(|c| c.head() == head);
                if !r.check(fpn(&[seed, k as u64, u64::from(kind == "torn")]), hit.is_some() && meta == t.meta, || {
                    format!("after a crash at mutation {k} ({kind} {}) the head is {head:?}, expected one of {:?}", mu.path(), cands.iter().map(|c| c.head()).collect::<Vec<_>>())
                }) {
                    return;
                }
                if !check_table(&m2, hit.unwrap(), r, &format!("after a crash at mutation {k} ({kind})"), &mut rng).await {
                    return;
                }
                // And it can be updated further.
                if rng.chance(1, 3) {
                    let mut t2 = (*hit.unwrap()).clone();
                    let edits = vec![MEdit::Mark(rng.below(1000)), MEdit::Add(0, vec![g.entry(&mut rng, 5000)])];
                    match m2.apply_version_edits_cas(meta.table_id, t2.head().map(Timestamp::new), &real(&edits)).await {
                        Ok(ts) => {
                            let n = t2.state().apply(&edits).unwrap();
                            t2.versions.push((ts.get(), n));
                            check_table(&m2, &t2, r, &format!("update after a crash at mutation {k}"), &mut rng).await;
                        }
                        Err(e) => r.violate(format!("an update after a crash at mutation {k} ({kind}) failed: {e}")),
                    }
                }
            }
        }
    });
}

// ---- I/O failures --------------------------------------------------------------------------------

fn man_faults(seed: u64, r: &mut Report) {
    rt().block_on(async {
        let mut rng = Rng::new(seed);
        let mut g = Gen::new(&mut rng);
        let fs = SimFs::new();
        let ids = FileIdGenerator::default();
        let m = match open(&fs).await {
            Ok(m) => m,
            Err(e) => return r.violate(format!("manifest cannot be created: {e}")),
        };
        let def = gen_def(&mut rng, "t");
        let meta = match m.register_table(&ids, &def).await {
            Ok(x) => x,
            Err(e) => return r.violate(format!("registering failed: {e}")),
        };
        let mut t = MTable { def, meta, versions: vec![] };
        // What updates that failed in an unknown state would publish if they took effect late: the
        // backend finishes a half-published update when the next writer starts.
        let mut late: Vec<MState> = Vec::new();
        for step in 0..(3 + rng.below(6)) {
            let state = t.state();
            let edits = g.edits(&mut rng, &state, false);
            if state.apply(&edits).is_none() {
                continue;
            }
            let at = fs.ops() + rng.below(14);
            let kind = if rng.chance(1, 2) { Fault::Before } else { Fault::After };
            if rng.chance(2, 3) {
                let fired = std::sync::atomic::AtomicBool::new(false);
                let dead = rng.chance(1, 3);
                fs.set_fault(Some(Arc::new(move |op, path, n| {
                    let hit = n >= at && !path.contains("/leases/") && !matches!(op, OpKind::List);
                    (hit && (!fired.swap(true, std::sync::atomic::Ordering::SeqCst) || dead)).then_some(kind)
                })));
            }
            let before = fs.faults_fired();
            let cas = rng.chance(1, 2);
            let res = if cas {
                m.apply_version_edits_cas(t.meta.table_id, t.head().map(Timestamp::new), &real(&edits)).await
            } else {
                m.apply_version_edits(t.meta.table_id, &real(&edits)).await
            };
            fs.set_fault(None);
            let fired = fs.faults_fired() > before;
            r.log(format!("step {step} fault={kind:?}@{at} fired={fired} cas={cas} late={} {} -> {res:?}", late.len(), show(&edits)));
            let list = match m.list_versions(t.meta.table_id, 0).await {
                Ok(l) => l,
                Err(e) => return r.violate(format!("step {step}: versions cannot be listed after an update: {e}")),
            };
            let mut extra: Vec<&VersionState> = list.iter().rev().skip(t.versions.len()).collect();
            let had_late = !late.is_empty();
            // A late publication comes first, and is one of the failed updates.
            if extra.len() == 2 || (extra.len() == 1 && res.is_err() && had_late && late.iter().any(|s| s.diff(extra[0]).is_none())) {
                let v = extra.remove(0);
                let hit = late.iter().find(|s| s.diff(v).is_none()).cloned();
                r.count("late publications", 1);
                let Some(s) = hit else {
                    return r.violate(format!("step {step}: version {} is neither acknowledged nor a failed update", v.commit_timestamp().get()));
                };
                t.versions.push((v.commit_timestamp().get(), s));
                late.clear();
                if cas && res.is_ok() {
                    return r.violate(format!("step {step}: a conditional update succeeded although the head had moved"));
                }
            }
            let next = t.state().apply(&edits);
            match (extra.first(), &res) {
                (Some(v), _) => {
                    let ts = v.commit_timestamp().get();
                    if extra.len() > 1 {
                        return r.violate(format!("step {step}: one update published {} versions", extra.len()));
                    }
                    if let Ok(x) = &res && x.get() != ts {
                        return r.violate(format!("step {step}: acknowledged version {} but version {ts} was published", x.get()));
                    }
                    let Some(next) = next else { return r.violate(format!("step {step}: an inapplicable update was published")) };
                    t.versions.push((ts, next));
                    late.clear();
                    if res.is_err() {
                        r.count("failed but applied", 1);
                    }
                }
                (None, Ok(ts)) => return r.violate(format!("step {step}: acknowledged version {} is not there", ts.get())),
                (None, Err(e)) => {
                    if !fired && !had_late {
                        return r.violate(format!("step {step}: an applicable update failed without an I/O failure: {e}"));
                    }
                    r.count("failed updates", 1);
                    late.extend(next);
                }
            }
            if fired {
                r.count("faults", 1);
            }
            let m2 = match open(&fs).await {
                Ok(m) => m,
                Err(e) => return r.violate(format!("step {step}: manifest cannot be re-opened after a failure: {e}")),
            };
            for (h, who) in [(&m, "same handle"), (&m2, "re-opened")] {
                if !check_table(h, &t, r, &format!("step {step} after a fault ({who})"), &mut rng).await {
                    return;
                }
            }
        }
    });
}
