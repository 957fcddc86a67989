// P10/P12/P15/P09: the SST writer, scanner and merger against a version-map model.
use std::{
    collections::{BTreeMap, BTreeSet},
    cmp::Reverse,
    sync::{Arc, atomic::AtomicU64},
};

use arrow_array::{Array, RecordBatch, UInt64Array};
use bytes::Bytes;
use fusio::{dynamic::DynFs, executor::{NoopExecutor}, path::Path};
use futures::StreamExt;
use parquet::arrow::{ProjectionMask, arrow_reader::ParquetRecordBatchReaderBuilder};
use parquet::file::reader::FileReader;

use crate::{
    extractor::{KeyProjection, projection_for_columns},
    id::FileId,
    inmem::immutable::memtable::ImmutableMemTable,
    mvcc::{MVCC_COMMIT_COL, Timestamp},
    ondisk::{
        scan::{DeleteStreamWithExtractor, SstableScan, SstableVisibleEntry, UnpinExec},
        sstable::{
            SsTableBuilder, SsTableCompression, SsTableConfig, SsTableDescriptor, SsTableError, SsTableId,
            SsTableMerger, open_parquet_stream,
        },
    },
    verif::{
        c_lib_aval::*,
        c_lib_mem::*,
        report::{Report, Rng, fpn, fps},
        simfs::{Fault, OpKind, SimFs},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[
    ("sst_flush", sst_flush),
    ("sst_scan", sst_scan),
    ("sst_merge", sst_merge),
    ("sst_faults", sst_faults),
    ("sst_ties", sst_ties),
];

fn file_id(n: u64) -> FileId {
    FileId::from(0x55d0_0000_0000_0000u128 + u128::from(n))
}

pub struct Env {
    pub fs: SimFs,
    pub cfg: Arc<SsTableConfig>,
    pub pool: Pool,
    pub group: usize,
    pub ts: u64,
    pub rt: tokio::runtime::Runtime,
}

impl Env {
    pub fn new(rng: &mut Rng, tys: &[Ty]) -> Env {
        let n = *rng.pick(&[1usize, 4, 9, 20, 40]);
        let pool = Pool::new(rng, tys, n);
        let fs = if rng.chance(1, 2) { SimFs::new() } else { SimFs::new().with_yields(rng.next(), 3) };
        let group = *rng.pick(&[1usize, 2, 3, 5, 9, 1 << 20]);
        let dy: Arc<dyn DynFs> = Arc::new(fs.clone());
        let ex: Arc<dyn KeyProjection> = projection_for_columns(pool.l.schema(), pool.l.keys.clone()).expect("proj").into();
        let cfg = SsTableConfig::new(pool.l.schema(), dy, Path::from("db/sst"))
            .with_key_extractor(ex)
            .with_max_row_group_rows(group)
            .with_compression(if rng.chance(1, 3) { SsTableCompression::Zstd } else { SsTableCompression::None });
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("rt");
        Env { fs, cfg: Arc::new(cfg), pool, group, ts: rng.below(3), rt }
    }
    /// A sealed memtable holding a fresh window of versions.
    pub fn segment(&mut self, rng: &mut Rng, max_ops: usize) -> (Arc<ImmutableMemTable>, Versions) {
        let mem = new_mem(&self.pool.l, 4096);
        let mut v = Versions::new();
        let n = 1 + rng.idx(max_ops);
        let del = *rng.pick(&[0u64, 2, 5, 10]);
        for _ in 0..n {
            self.ts += 1 + rng.below(2);
            if rng.below(10) >= del {
                let k = 1 + rng.idx(4);
                let rows: Vec<_> = (0..k).map(|_| self.pool.row(rng)).collect();
                mem.insert_batch(self.pool.l.sliced_batch(rng, &rows), Timestamp::new(self.ts)).expect("insert");
                for r in rows {
                    v.insert((self.pool.l.key_of(&r), Reverse(self.ts)), Some(r));
                }
            } else {
                let k = self.pool.key(rng);
                mem.insert_delete_batch(delete_batch(&self.pool.l, &[(k.clone(), self.ts)])).expect("delete");
                v.insert((k, Reverse(self.ts)), None);
            }
        }
        (Arc::new(mem.seal_now().expect("seal").expect("non-empty")), v)
    }
    pub fn build(&self, segs: &[Arc<ImmutableMemTable>], id: u64, level: usize, wal: Option<Vec<FileId>>) -> Result<SsTableDescriptor, SsTableError> {
        let mut b = SsTableBuilder::new(self.cfg.clone(), SsTableDescriptor::new(SsTableId::new(id), level));
        b.set_wal_ids(wal);
        for s in segs {
            b.add_immutable(s)?;
        }
        let t = self.rt.block_on(b.finish(NoopExecutor))?;
        Ok(t.descriptor().clone())
    }
    pub fn table(&mut self, rng: &mut Rng, id: u64, level: usize, wal: Option<Vec<FileId>>, max_ops: usize) -> Result<(SsTableDescriptor, Versions), SsTableError> {
        let k = *rng.pick(&[1usize, 1, 2, 3]);
        let mut segs = Vec::new();
        let mut v = Versions::new();
        for _ in 0..k {
            let (s, w) = self.segment(rng, max_ops);
            segs.push(s);
            v.extend(w);
        }
        rng.shuffle(&mut segs);
        Ok((self.build(&segs, id, level, wal)?, v))
    }
    fn batches(&self, path: &Path) -> Result<(Vec<RecordBatch>, Bytes), String> {
        let raw = Bytes::from(self.fs.get(path.as_ref()).ok_or_else(|| format!("no file at {path}"))?);
        let b = ParquetRecordBatchReaderBuilder::try_new(raw.clone()).map_err(|e| e.to_string())?;
        let r = b.with_batch_size(7).build().map_err(|e| e.to_string())?;
        Ok((r.collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())?, raw))
    }
    pub fn content(&self, d: &SsTableDescriptor) -> Result<(Vec<(MKey, u64, Vec<Option<Val>>)>, Vec<(MKey, u64)>), String> {
        let l = &self.pool.l;
        let mut rows = Vec::new();
        for b in self.batches(d.data_path().ok_or("no data path")?)?.0 {
            let ts = b.column_by_name(MVCC_COMMIT_COL).and_then(|c| c.as_any().downcast_ref::<UInt64Array>().cloned()).ok_or("no commit column")?;
            for i in 0..b.num_rows() {
                let row: Vec<Option<Val>> = l.cols.iter().enumerate().map(|(c, (_, t, _))| read(*t, b.column(c), i)).collect();
                rows.push((l.key_of(&row), ts.value(i), row));
            }
        }
        let mut dels = Vec::new();
        if let Some(p) = d.delete_path() {
            for b in self.batches(p)?.0 {
                let ts = b.column_by_name(MVCC_COMMIT_COL).and_then(|c| c.as_any().downcast_ref::<UInt64Array>().cloned()).ok_or("no commit column")?;
                for i in 0..b.num_rows() {
                    let k = MKey(l.key_tys().iter().enumerate().map(|(c, t)| read(*t, b.column(c), i).expect("key")).collect());
                    dels.push((k, ts.value(i)));
                }
            }
        }
        Ok((rows, dels))
    }
    /// The files and statistics of one table against the versions it must hold.
    fn judge(&self, rep: &mut Report, what: &str, d: &SsTableDescriptor, v: &Versions, tag: u64) -> bool {
        let l = &self.pool.l;
        let (rows, dels) = match self.content(d) {
            Ok(x) => x,
            Err(e) => {
                rep.violate(format!("{what}: table unreadable: {e}"));
                return false;
            }
        };
        let wrows: Vec<_> = v.iter().filter_map(|(k, r)| r.clone().map(|r| (k.0.clone(), k.1.0, r))).collect();
        let wdels: Vec<_> = v.iter().filter(|x| x.1.is_none()).map(|(k, _)| (k.0.clone(), k.1.0)).collect();
        let f = fpn(&[tag, fps(&format!("{:?}", l.key_tys())), wrows.len() as u64, wdels.len() as u64, self.group as u64]);
        let ok = rows.len() == wrows.len() && rows.iter().zip(&wrows).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && rows_same(&a.2, &b.2));
        if !rep.check(f, ok, || {
            format!("{what}: data rows {:?}, want {:?} (row groups of {})", rows.iter().map(|r| (&r.0.0, r.1)).collect::<Vec<_>>(), wrows.iter().map(|r| (&r.0.0, r.1)).collect::<Vec<_>>(), self.group).chars().take(1500).collect()
        }) {
            return false;
        }
        if !rep.check(fpn(&[f, 1]), dels == wdels && d.delete_path().is_some() == !wdels.is_empty(), || format!("{what}: deletes {dels:?}, want {wdels:?} (path {:?})", d.delete_path())) {
            return false;
        }
        let Some(s) = d.stats() else {
            rep.violate(format!("{what}: no statistics"));
            return false;
        };
        let kb = (s.min_key.as_ref().and_then(|k| l.key_back(k)), s.max_key.as_ref().and_then(|k| l.key_back(k)));
        let wkb = (v.keys().next().map(|k| k.0.clone()), v.keys().next_back().map(|k| k.0.clone()));
        let tb = (s.min_commit_ts.map(|t| t.get()), s.max_commit_ts.map(|t| t.get()));
        let wtb = (v.keys().map(|k| k.1.0).min(), v.keys().map(|k| k.1.0).max());
        let bytes = self.fs.get(d.data_path().expect("path").as_ref()).map(|b| b.len());
        if !rep.check(fpn(&[f, 2]), kb == wkb && tb == wtb && s.rows == wrows.len() && s.tombstones == wdels.len() && Some(s.bytes) == bytes, || {
            format!("{what}: stats {s:?}; want keys {wkb:?} ts {wtb:?} rows {} tombstones {} bytes {bytes:?}", wrows.len(), wdels.len())
        }) {
            return false;
        }
        // Row groups stay within the configured size, and every key column's bloom filter admits
        // every stored value.
        for (path, keys) in [(d.data_path(), l.keys.clone()), (d.delete_path(), (0..l.keys.len()).collect())] {
            let Some(path) = path else { continue };
            let raw = Bytes::from(self.fs.get(path.as_ref()).expect("file"));
            let r = match parquet::file::serialized_reader::SerializedFileReader::new_with_options(
                raw,
                parquet::file::serialized_reader::ReadOptionsBuilder::new().with_page_index().with_reader_properties(
                    parquet::file::properties::ReaderProperties::builder().set_read_bloom_filter(true).build()).build(),
            ) {
                Ok(r) => r,
                Err(e) => {
                    rep.violate(format!("{what}: {e}"));
                    return false;
                }
            };
            let is_data = Some(path) == d.data_path();
            let mut at = 0usize;
            for g in 0..r.num_row_groups() {
                let rg = r.get_row_group(g).expect("group");
                let n = rg.metadata().num_rows() as usize;
                if !rep.check(fpn(&[f, 3, n as u64]), n <= self.group, || format!("{what}: row group of {n} rows, limit {}", self.group)) {
                    return false;
                }
                for (ki, c) in keys.iter().enumerate() {
                    let Some(bf) = rg.get_column_bloom_filter(*c) else { continue };
                    for i in at..at + n {
                        let k = if is_data { &rows[i].0 } else { &dels[i].0 };
                        let (v, t) = (&k.0[ki], l.key_tys()[ki]);
                        let hit = match (v, t) {
                            (Val::I(x), Ty::I32) => bf.check(&(*x as i32)),
                            (Val::I(x), Ty::I64) => bf.check(x),
                            (Val::S(x), _) => bf.check(&x.as_str()),
                            (Val::Y(x), _) => bf.check(x),
                            _ => true,
                        };
                        if !rep.check(fpn(&[f, 4]), hit, || format!("{what}: bloom filter of key column {c} rejects stored value {v:?}")) {
                            return false;
                        }
                    }
                }
                at += n;
            }
            let idx = r.metadata().column_index().is_some() && r.metadata().offset_index().is_some();
            if !rep.check(fpn(&[f, 5]), idx || at == 0, || format!("{what}: {path} lacks page indexes")) {
                return false;
            }
        }
        true
    }
}

fn sst_flush(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut e = Env::new(&mut rng, &ALL);
    for i in 0..3u64 {
        let id = 1 + i;
        let level = rng.idx(3);
        let wal = rng.chance(2, 3).then(|| (0..1 + rng.below(3)).map(file_id).collect::<Vec<_>>());
        let ops = *rng.pick(&[2usize, 6, 20]);
        match e.table(&mut rng, id, level, wal.clone(), ops) {
            Ok((d, v)) => {
                if !e.judge(rep, "flush", &d, &v, 31) {
                    return;
                }
                let ok = d.wal_ids().map(|w| w.to_vec()) == wal && d.id().raw() == id && d.level() == level;
                if !rep.check(fpn(&[32, wal.is_some() as u64]), ok, || format!("flush: descriptor {d:?}, wal {wal:?}")) {
                    return;
                }
                rep.count("tables_flushed", 1);
            }
            Err(err) => {
                rep.violate(format!("flush failed: {err}"));
                return;
            }
        }
    }
}

/// What a scan of one table yields at a timestamp.
fn scan(e: &Env, d: &SsTableDescriptor, ts: u64) -> Result<Got, String> {
    let l = &e.pool.l;
    let fs = e.cfg.fs().clone();
    e.rt.block_on(async {
        let data = open_parquet_stream(fs.clone(), d.data_path().cloned().ok_or("no path")?, None, None, None, None, NoopExecutor).await.map_err(|x| x.to_string())?;
        let schema = {
            let mut f = l.schema().fields().to_vec();
            f.push(arrow_schema::Field::new(MVCC_COMMIT_COL, arrow_schema::DataType::UInt64, false).into());
            Arc::new(arrow_schema::Schema::new(f))
        };
        let del = match d.delete_path() {
            None => None,
            Some(p) => {
                let s = open_parquet_stream(fs, p.clone(), None, None, None, None, NoopExecutor).await.map_err(|x| x.to_string())?;
                let ex: Arc<dyn KeyProjection> = projection_for_columns(delete_schema(l), (0..l.keys.len()).collect()).map_err(|x| x.to_string())?.into();
                Some(DeleteStreamWithExtractor { stream: s, extractor: ex })
            }
        };
        let dex: Arc<dyn KeyProjection> = projection_for_columns(schema, l.keys.clone()).map_err(|x| x.to_string())?.into();
        let cols: Vec<usize> = (0..l.cols.len()).collect();
        let mut st = Box::pin(SstableScan::new(data, del, dex, cols.clone(), None, Timestamp::new(ts)));
        let mut out: Got = Vec::new();
        while let Some(x) = st.next().await {
            match x.map_err(|x| x.to_string())? {
                SstableVisibleEntry::Row(r) => {
                    let (k, t) = (l.key_back(&r.key_ts().key().to_owned()).ok_or("bad key")?, r.key_ts().timestamp().get());
                    let row = r.into_row_owned().map_err(|x| x.to_string())?;
                    out.push((k, t, Some(row_vals(l, &row, &cols).ok_or("row shape")?)));
                }
                SstableVisibleEntry::Tombstone(k) => out.push((l.key_back(k.key()).ok_or("bad key")?, k.timestamp().get(), None)),
            }
        }
        let _ = (ProjectionMask::all(), UnpinExec(()));
        Ok(out)
    })
}

fn sst_scan(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut e = Env::new(&mut rng, &ROWABLE);
    let (d, v) = match e.table(&mut rng, 1, 0, None, 12) {
        Ok(x) => x,
        Err(err) => {
            rep.violate(format!("flush failed: {err}"));
            return;
        }
    };
    for i in 0..6 {
        let ts = if i == 0 { u64::MAX } else { rng.below(e.ts + 2) };
        let want = expect(&v, ts, None, None);
        let got = scan(&e, &d, ts);
        let f = fpn(&[41, fps(&format!("{:?}", e.pool.l.key_tys())), want.len() as u64, v.len() as u64, e.group as u64]);
        if !rep.check(f, matches!(&got, Ok(g) if same(g, &want)), || {
            format!("table scan at ts {ts} (row groups of {}): want {want:?} got {got:?}", e.group).chars().take(1500).collect()
        }) {
            return;
        }
    }
}

/// The newest version of each key over all inputs: what a merge has to keep.
fn newest(v: &Versions) -> Versions {
    let mut out = Versions::new();
    for (k, (t, r)) in visible(v, u64::MAX) {
        out.insert((k, Reverse(t)), r);
    }
    out
}

struct MergeCase {
    inputs: Vec<SsTableDescriptor>,
    all: Versions,
    wal: BTreeSet<FileId>,
    caps: (Option<usize>, Option<usize>),
    chunk: usize,
}

fn merge_case(e: &mut Env, rng: &mut Rng) -> Result<MergeCase, SsTableError> {
    let k = 1 + rng.idx(4);
    let ops = *rng.pick(&[3usize, 8, 16]);
    let mut inputs = Vec::new();
    let mut all = Versions::new();
    let mut wal = BTreeSet::new();
    for i in 0..k as u64 {
        let w = rng.chance(2, 3).then(|| (0..1 + rng.below(3)).map(|_| file_id(rng.below(6))).collect::<Vec<_>>());
        wal.extend(w.iter().flatten().cloned());
        let lvl = rng.idx(2);
        let (d, v) = e.table(rng, 1 + i, lvl, w, ops)?;
        all.extend(v);
        inputs.push(d);
    }
    rng.shuffle(&mut inputs);
    let caps = (
        rng.chance(1, 2).then(|| *rng.pick(&[1usize, 2, 5, 30])),
        rng.chance(1, 3).then(|| *rng.pick(&[1usize, 400, 5000])),
    );
    Ok(MergeCase { inputs, all, wal, caps, chunk: *rng.pick(&[1usize, 2, 7, 1024]) })
}

fn merger(e: &Env, c: &MergeCase, next: &Arc<AtomicU64>) -> SsTableMerger {
    SsTableMerger::new(e.cfg.clone(), c.inputs.clone(), SsTableDescriptor::new(SsTableId::new(100), 1))
        .with_output_id_allocator(next.clone())
        .with_output_caps(c.caps.0, c.caps.1)
        .with_chunk_rows(c.chunk)
}

fn judge_merge(e: &Env, c: &MergeCase, outs: &[SsTableDescriptor], rep: &mut Report, tag: u64) -> bool {
    let want = newest(&c.all);
    // Outputs cover consecutive, disjoint key ranges; each holds the winners of its range.
    let mut rest: BTreeMap<_, _> = want.clone();
    let mut ids = BTreeSet::new();
    for (i, d) in outs.iter().enumerate() {
        let (rows, dels) = match e.content(d) {
            Ok(x) => x,
            Err(err) => {
                rep.violate(format!("merge output {i} unreadable: {err}"));
                return false;
            }
        };
        if !ids.insert(d.id().raw()) || d.level() != 1 {
            rep.violate(format!("merge outputs reuse an id or miss the target level: {outs:?}"));
            return false;
        }
        let n = rows.len() + dels.len();
        let mut part = Versions::new();
        for _ in 0..n {
            if let Some((k, r)) = rest.pop_first() {
                part.insert(k, r);
            }
        }
        if !e.judge(rep, &format!("merge of {} tables, output {i}/{} caps {:?} chunk {}", c.inputs.len(), outs.len(), c.caps, c.chunk), d, &part, tag) {
            return false;
        }
        if let Some(cap) = c.caps.0
            && !rep.check(fpn(&[tag, 7, cap as u64]), rows.len() <= cap, || format!("merge output has {} rows, cap {cap}", rows.len()))
        {
            return false;
        }
        let w: BTreeSet<FileId> = d.wal_ids().unwrap_or_default().iter().cloned().collect();
        if !rep.check(fpn(&[tag, 8, c.wal.len() as u64]), w == c.wal && d.wal_ids().map_or(0, |x| x.len()) == w.len(), || {
            format!("merge output carries WAL ids {:?}, inputs had {:?}", d.wal_ids(), c.wal)
        }) {
            return false;
        }
    }
    rep.check(fpn(&[tag, 9, outs.len() as u64, want.len() as u64]), rest.is_empty(), || {
        format!("merge of {} tables (row groups of {}, caps {:?}) lost {} of {} keys: {:?}", c.inputs.len(), e.group, c.caps, rest.len(), want.len(), rest.keys().take(5).collect::<Vec<_>>())
    })
}

fn sst_merge(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut e = Env::new(&mut rng, &ALL);
    let c = match merge_case(&mut e, &mut rng) {
        Ok(c) => c,
        Err(err) => {
            rep.violate(format!("flush failed: {err}"));
            return;
        }
    };
    let before: BTreeSet<String> = e.fs.paths().into_iter().collect();
    let next = Arc::new(AtomicU64::new(101));
    let budget = rng.chance(1, 5).then(|| 1 + rng.idx(6));
    let mut m = merger(&e, &c, &next);
    if let Some(b) = budget {
        m = m.with_iteration_budget(b);
    }
    match e.rt.block_on(m.execute(NoopExecutor)) {
        Ok(outs) => {
            let outs: Vec<SsTableDescriptor> = outs.iter().map(|t| t.descriptor().clone()).collect();
            if !judge_merge(&e, &c, &outs, rep, 51) {
                return;
            }
            rep.count("merge_outputs", outs.len() as u64);
            rep.count("merged_versions", c.all.len() as u64);
            rep.sample(format!("{} tables, {} versions -> {} outputs", c.inputs.len(), c.all.len(), outs.len()));
        }
        Err(err) => {
            let over = matches!(err, SsTableError::MergeIterationBudgetExceeded { .. }) && budget.is_some();
            let left: Vec<String> = e.fs.paths().into_iter().filter(|p| !before.contains(p)).collect();
            if !rep.check(fpn(&[52, left.len() as u64]), over && left.is_empty(), || {
                format!("merge failed with {err} (budget {budget:?}) leaving {left:?}")
            }) {
                return;
            }
        }
    }
    let after: BTreeSet<String> = e.fs.paths().into_iter().collect();
    rep.check(fpn(&[53, c.inputs.len() as u64]), before.is_subset(&after), || format!("merge removed input files {:?}", before.difference(&after)));
}

/// I/O failures: an operation that fails says so, and one that says it succeeded did.
fn sst_faults(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut e = Env::new(&mut rng, &ALL);
    let c = match merge_case(&mut e, &mut rng) {
        Ok(c) => c,
        Err(err) => {
            rep.violate(format!("flush failed: {err}"));
            return;
        }
    };
    let (seg, v) = e.segment(&mut rng, 10);
    let before: BTreeSet<String> = e.fs.paths().into_iter().collect();
    for round in 0..4u64 {
        let span = *rng.pick(&[6u64, 20, 60]);
        let at = e.fs.ops() + rng.below(span);
        let mode = match rng.below(3) {
            0 => Fault::After,
            1 => Fault::Torn(rng.idx(40)),
            _ => Fault::Before,
        };
        let fired0 = e.fs.faults_fired();
        e.fs.set_fault(Some(Arc::new(move |k, _: &str, n| (n >= at && n < at + 1).then_some(match (k, mode) {
            (OpKind::Append, m) => m,
            (_, Fault::After) if matches!(k, OpKind::Remove | OpKind::Commit) => Fault::After,
            _ => Fault::Before,
        }))));
        if rng.chance(1, 2) {
            let r = e.build(&[seg.clone()], 500 + round, 0, None);
            e.fs.set_fault(None);
            let fired = e.fs.faults_fired() > fired0;
            match r {
                Ok(d) => {
                    if !e.judge(rep, "flush under faults", &d, &v, 61) {
                        return;
                    }
                }
                Err(err) => {
                    if !rep.check(fpn(&[62, fps(&format!("{mode:?}"))]), fired, || format!("flush failed without a fault: {err}")) {
                        return;
                    }
                }
            }
        } else {
            let next = Arc::new(AtomicU64::new(101 + 1000 * round));
            let r = e.rt.block_on(merger(&e, &c, &next).execute(NoopExecutor));
            e.fs.set_fault(None);
            let fired = e.fs.faults_fired() > fired0;
            match r {
                Ok(outs) => {
                    let outs: Vec<SsTableDescriptor> = outs.iter().map(|t| t.descriptor().clone()).collect();
                    if !judge_merge(&e, &c, &outs, rep, 63) {
                        return;
                    }
                }
                Err(err) => {
                    if !rep.check(fpn(&[64]), fired, || format!("merge failed without a fault: {err}")) {
                        return;
                    }
                }
            }
        }
        rep.count("faults_fired", e.fs.faults_fired() - fired0);
        let after: BTreeSet<String> = e.fs.paths().into_iter().collect();
        if !rep.check(fpn(&[65, round]), before.is_subset(&after), || format!("input files removed: {:?}", before.difference(&after))) {
            return;
        }
    }
}

/// A row and a delete of one key committed together: the delete decides, in a scan of one table and
/// in every merge.
fn sst_ties(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut e = Env::new(&mut rng, &ROWABLE);
    let l = e.pool.l.clone();
    let mut data: BTreeMap<MKey, (u64, Vec<Option<Val>>)> = BTreeMap::new();
    let mut dels: BTreeMap<MKey, u64> = BTreeMap::new();
    let mut inputs = Vec::new();
    for id in 0..1 + rng.below(3) {
        let (up, down) = (new_mem(&l, 4096), new_mem(&l, 4096));
        let mut any = false;
        for _ in 0..1 + rng.idx(5) {
            e.ts += 1;
            let rows: Vec<_> = (0..1 + rng.idx(3)).map(|_| e.pool.row(&mut rng)).collect();
            up.insert_batch(l.batch(&rows), Timestamp::new(e.ts)).expect("insert");
            for r in &rows {
                data.insert(l.key_of(r), (e.ts, r.clone()));
            }
            if rng.chance(1, 2) {
                let k = l.key_of(rng.pick(&rows[..]).as_slice());
                down.insert_delete_batch(delete_batch(&l, &[(k.clone(), e.ts)])).expect("delete");
                dels.insert(k, e.ts);
                any = true;
            }
        }
        let up = Arc::new(up.seal_now().expect("seal").expect("rows"));
        let mut parts = vec![vec![up]];
        if any {
            let down = Arc::new(down.seal_now().expect("seal").expect("rows"));
            if rng.chance(1, 2) { parts[0].push(down) } else { parts.push(vec![down]) }
        }
        for (i, p) in parts.iter().enumerate() {
            match e.build(p, 1 + id * 2 + i as u64, 0, None) {
                Ok(d) => inputs.push(d),
                Err(err) => {
                    rep.violate(format!("flush failed: {err}"));
                    return;
                }
            }
        }
    }
    let mut want: Got = Vec::new();
    let keys: BTreeSet<MKey> = data.keys().chain(dels.keys()).cloned().collect();
    for k in keys {
        let (d, x) = (data.get(&k), dels.get(&k));
        match (d, x) {
            (Some((t, r)), x) if x.is_none_or(|x| x < t) => want.push((k, *t, Some(r.clone()))),
            (_, Some(x)) => want.push((k, *x, None)),
            _ => {}
        }
    }
    let n = inputs.len();
    rng.shuffle(&mut inputs);
    let m = SsTableMerger::new(e.cfg.clone(), inputs, SsTableDescriptor::new(SsTableId::new(100), 1)).with_chunk_rows(1 + rng.idx(8));
    match e.rt.block_on(m.execute(NoopExecutor)) {
        Ok(outs) => {
            let got = scan(&e, outs[0].descriptor(), u64::MAX);
            let f = fpn(&[71, n as u64, want.len() as u64, want.iter().filter(|w| w.2.is_none()).count() as u64]);
            rep.check(f, outs.len() == 1 && matches!(&got, Ok(g) if same(g, &want)), || {
                format!("merge of {n} tables with rows and deletes of one commit: want {want:?} got {got:?}").chars().take(1500).collect()
            });
        }
        Err(err) => rep.violate(format!("merge failed: {err}")),
    }
}
