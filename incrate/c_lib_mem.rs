// P09/P12/P11: memtables and the merge stream against a version-map model.
use std::{
    cmp::Reverse,
    collections::BTreeMap,
    ops::Bound,
    sync::Arc,
};

use arrow_array::{ArrayRef, RecordBatch, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use futures::StreamExt;
use typed_arrow_dyn::DynRow;

use crate::{
    extractor::{KeyProjection, projection_for_columns},
    inmem::{
        immutable::{
            memtable::{ImmutableMemTable, ImmutableVisibleEntry},
            prune_segments,
        },
        mutable::{DynMem, memtable::DynRowScanEntry},
        policy::StatsProvider,
    },
    mutation::DynMutation,
    mvcc::{MVCC_COMMIT_COL, Timestamp},
    query::stream::{
        Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, merge::MergeStream,
    },
    transaction::TransactionScan,
    verif::{
        c_lib_aval::*,
        report::{Report, Rng, fpn, fps},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[
    ("mem_versions", mem_versions),
    ("mem_merge", mem_merge),
    ("mem_prune", mem_prune),
    ("mem_threads", mem_threads),
    ("mem_reject", mem_reject),
    ("mem_live", mem_live),
];

type MRow = Vec<Option<Val>>;
/// (key, newest first) -> row, or None for a delete.
pub type Versions = BTreeMap<(MKey, Reverse<u64>), Option<MRow>>;

pub fn visible(v: &Versions, ts: u64) -> BTreeMap<MKey, (u64, Option<MRow>)> {
    let mut out: BTreeMap<MKey, (u64, Option<MRow>)> = BTreeMap::new();
    for ((k, Reverse(t)), r) in v {
        if *t <= ts && !out.contains_key(k) {
            out.insert(k.clone(), (*t, r.clone()));
        }
    }
    out
}

pub fn in_bounds(k: &MKey, b: &(Bound<MKey>, Bound<MKey>)) -> bool {
    (match &b.0 {
        Bound::Included(x) => k >= x,
        Bound::Excluded(x) => k > x,
        Bound::Unbounded => true,
    }) && (match &b.1 {
        Bound::Included(x) => k <= x,
        Bound::Excluded(x) => k < x,
        Bound::Unbounded => true,
    })
}

pub fn delete_schema(l: &Layout) -> SchemaRef {
    let s = l.schema();
    let mut f: Vec<Field> = l.keys.iter().map(|i| s.field(*i).clone()).collect();
    f.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false));
    Arc::new(Schema::new(f))
}
pub fn delete_batch(l: &Layout, keys: &[(MKey, u64)]) -> RecordBatch {
    let mut cols: Vec<ArrayRef> = l
        .key_tys()
        .into_iter()
        .enumerate()
        .map(|(i, t)| t.array(&keys.iter().map(|(k, _)| Some(k.0[i].clone())).collect::<Vec<_>>()))
        .collect();
    cols.push(Arc::new(UInt64Array::from_iter_values(keys.iter().map(|k| k.1))));
    RecordBatch::try_new(delete_schema(l), cols).expect("delete batch")
}
pub fn new_mem(l: &Layout, cap: usize) -> DynMem {
    let ex: Arc<dyn KeyProjection> = projection_for_columns(l.schema(), l.keys.clone()).expect("proj").into();
    let del: Arc<dyn KeyProjection> =
        projection_for_columns(delete_schema(l), (0..l.keys.len()).collect()).expect("proj").into();
    DynMem::with_capacity(l.schema(), ex, del, cap)
}
pub fn row_vals(l: &Layout, r: &DynRow, cols: &[usize]) -> Option<MRow> {
    if r.0.len() != cols.len() {
        return None;
    }
    let mut out = Vec::new();
    for (c, i) in r.0.iter().zip(cols) {
        out.push(match c {
            None => None,
            Some(c) => Some(l.cols[*i].1.from_cell(c)?),
        });
    }
    Some(out)
}

pub type Got = Vec<(MKey, u64, Option<MRow>)>;

pub fn scan_mutable(l: &Layout, m: &DynMem, ts: u64, b: Option<&(Bound<MKey>, Bound<MKey>)>, proj: Option<&[usize]>) -> Result<Got, String> {
    let g = m.read();
    let ps = proj.map(|p| Arc::new(l.schema().project(p).expect("project")));
    let all: Vec<usize> = (0..l.cols.len()).collect();
    let cols = proj.unwrap_or(&all);
    let it = match b {
        None => g.scan_visible(ps, Timestamp::new(ts)),
        Some((lo, hi)) => g.scan_visible_in_range(ps, Timestamp::new(ts), obound(l, lo), obound(l, hi)),
    }
    .map_err(|e| e.to_string())?;
    let mut out = Vec::new();
    for e in it {
        out.push(match e.map_err(|e| e.to_string())? {
            DynRowScanEntry::Row(k, r) => {
                let row = r.into_owned().map_err(|e| e.to_string())?;
                (l.key_back(&k.key().to_owned()).ok_or("bad key")?, k.timestamp().get(), Some(row_vals(l, &row, cols).ok_or("row shape")?))
            }
            DynRowScanEntry::Tombstone(k) => (l.key_back(&k.key().to_owned()).ok_or("bad key")?, k.timestamp().get(), None),
        });
    }
    Ok(out)
}
pub fn scan_immutable(l: &Layout, m: &ImmutableMemTable, ts: u64, b: Option<&(Bound<MKey>, Bound<MKey>)>, proj: Option<&[usize]>) -> Result<Got, String> {
    let ps = proj.map(|p| Arc::new(l.schema().project(p).expect("project")));
    let all: Vec<usize> = (0..l.cols.len()).collect();
    let cols = proj.unwrap_or(&all);
    let it = match b {
        None => m.scan_visible(ps, Timestamp::new(ts)),
        Some((lo, hi)) => m.scan_visible_in_range(ps, Timestamp::new(ts), obound(l, lo), obound(l, hi)),
    }
    .map_err(|e| e.to_string())?;
    let mut out = Vec::new();
    for e in it {
        out.push(match e.map_err(|e| e.to_string())? {
            ImmutableVisibleEntry::Row(k, r) => {
                let row = r.into_owned().map_err(|e| e.to_string())?;
                (l.key_back(&k.key().to_owned()).ok_or("bad key")?, k.timestamp().get(), Some(row_vals(l, &row, cols).ok_or("row shape")?))
            }
            ImmutableVisibleEntry::Tombstone(k) => (l.key_back(&k.key().to_owned()).ok_or("bad key")?, k.timestamp().get(), None),
        });
    }
    Ok(out)
}
pub fn obound(l: &Layout, b: &Bound<MKey>) -> Bound<crate::key::KeyOwned> {
    match b {
        Bound::Included(k) => Bound::Included(l.owned_key(k)),
        Bound::Excluded(k) => Bound::Excluded(l.owned_key(k)),
        Bound::Unbounded => Bound::Unbounded,
    }
}

fn proj_row(r: &MRow, proj: Option<&[usize]>) -> MRow {
    match proj {
        None => r.clone(),
        Some(p) => p.iter().map(|i| r[*i].clone()).collect(),
    }
}

pub fn expect(v: &Versions, ts: u64, b: Option<&(Bound<MKey>, Bound<MKey>)>, proj: Option<&[usize]>) -> Got {
    visible(v, ts)
        .into_iter()
        .filter(|(k, _)| b.is_none_or(|b| in_bounds(k, b)))
        .map(|(k, (t, r))| (k, t, r.map(|r| proj_row(&r, proj))))
        .collect()
}
pub fn same(a: &Got, b: &Got) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.0 == y.0
                && x.1 == y.1
                && match (&x.2, &y.2) {
                    (None, None) => true,
                    (Some(p), Some(q)) => rows_same(p, q),
                    _ => false,
                }
        })
}
fn show(g: &Got) -> String {
    let s = format!("{g:?}");
    s.chars().take(600).collect()
}

pub struct Pool {
    pub l: Layout,
    pub keys: Vec<MRow>,
}
impl Pool {
    pub fn new(rng: &mut Rng, tys: &[Ty], n: usize) -> Pool {
        let l = Layout::random(rng, tys, 2);
        let keys = (0..n).map(|_| l.gen_row(rng)).collect();
        Pool { l, keys }
    }
    pub fn row(&self, rng: &mut Rng) -> MRow {
        let mut r = self.l.gen_row(rng);
        let k = rng.pick(&self.keys);
        for i in &self.l.keys {
            r[*i] = k[*i].clone();
        }
        r
    }
    pub fn key(&self, rng: &mut Rng) -> MKey {
        self.l.key_of(rng.pick(&self.keys[..]).as_slice())
    }
    pub fn bounds(&self, rng: &mut Rng) -> (Bound<MKey>, Bound<MKey>) {
        let mut one = |k: MKey, r: &mut Rng| match r.below(5) {
            0 => Bound::Unbounded,
            1 | 2 => Bound::Included(k),
            _ => Bound::Excluded(k),
        };
        let (mut a, mut b) = (self.key(rng), self.key(rng));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let eq = a == b;
        let lo = one(a, rng);
        let hi = one(b, rng);
        // BTreeMap and SkipMap ranges reject an empty excluded pair; so does the planner.
        if eq && (matches!(lo, Bound::Excluded(_)) || matches!(hi, Bound::Excluded(_))) {
            return (Bound::Unbounded, hi);
        }
        (lo, hi)
    }
    pub fn proj(&self, rng: &mut Rng) -> Option<Vec<usize>> {
        if rng.chance(1, 2) {
            return None;
        }
        let mut p: Vec<usize> = (0..self.l.cols.len()).filter(|_| rng.chance(1, 2)).collect();
        if p.is_empty() {
            p.push(rng.idx(self.l.cols.len()));
        }
        rng.shuffle(&mut p);
        Some(p)
    }
}

struct Tables {
    pool: Pool,
    mem: DynMem,
    cur: Versions,
    imm: Vec<(Arc<ImmutableMemTable>, Versions)>,
    ts: u64,
}

impl Tables {
    fn new(rng: &mut Rng, tys: &[Ty]) -> Tables {
        let n = *rng.pick(&[1usize, 3, 6, 12]);
        let pool = Pool::new(rng, tys, n);
        let cap = *rng.pick(&[1usize, 2, 3, 8, 64]);
        let mem = new_mem(&pool.l, cap);
        Tables { pool, mem, cur: Versions::new(), imm: Vec::new(), ts: rng.below(3) }
    }
    fn next_ts(&mut self, rng: &mut Rng) -> u64 {
        self.ts += 1 + rng.below(3);
        self.ts
    }
    fn sealed(&mut self, s: Option<ImmutableMemTable>) {
        if let Some(s) = s {
            let v = std::mem::take(&mut self.cur);
            self.imm.push((Arc::new(s), v));
        }
    }
    /// One random write; returns false after a violation.
    fn write(&mut self, rng: &mut Rng, rep: &mut Report) -> bool {
        match rng.below(10) {
            0..=4 => {
                let n = *rng.pick(&[0usize, 1, 1, 2, 3, 5]);
                let rows: Vec<MRow> = (0..n).map(|_| self.pool.row(rng)).collect();
                let ts = self.next_ts(rng);
                let batch = self.pool.l.sliced_batch(rng, &rows);
                rep.log(format!("insert ts={ts} {rows:?}"));
                match self.mem.insert_batch(batch, Timestamp::new(ts)) {
                    Ok(s) => self.sealed(s),
                    Err(e) => {
                        rep.violate(format!("insert of a valid batch failed: {e}"));
                        return false;
                    }
                }
                for r in rows {
                    self.cur.insert((self.pool.l.key_of(&r), Reverse(ts)), Some(r));
                }
            }
            5 => {
                // Replay-style insert: explicit per-row timestamps, possibly older than present ones.
                let n = 1 + rng.idx(4);
                let rows: Vec<MRow> = (0..n).map(|_| self.pool.row(rng)).collect();
                let base = self.next_ts(rng);
                let ts: Vec<u64> = rows.iter().enumerate().map(|(i, _)| 1_000_000 * (1 + rng.below(3)) + base * 16 + i as u64).collect();
                let batch = self.pool.l.batch(&rows);
                rep.log(format!("insert_mvcc ts={ts:?} {rows:?}"));
                match self.mem.insert_batch_with_mvcc(batch, UInt64Array::from(ts.clone())) {
                    Ok(s) => self.sealed(s),
                    Err(e) => {
                        rep.violate(format!("insert of a valid batch failed: {e}"));
                        return false;
                    }
                }
                for (r, t) in rows.into_iter().zip(ts) {
                    self.cur.insert((self.pool.l.key_of(&r), Reverse(t)), Some(r));
                }
            }
            _ => {
                let n = *rng.pick(&[1usize, 1, 2, 4]);
                let mut dels: Vec<(MKey, u64)> = Vec::new();
                for _ in 0..n {
                    let t = self.next_ts(rng);
                    dels.push((self.pool.key(rng), t));
                }
                let batch = delete_batch(&self.pool.l, &dels);
                rep.log(format!("delete {dels:?}"));
                match self.mem.insert_delete_batch(batch) {
                    Ok(s) => self.sealed(s),
                    Err(e) => {
                        rep.violate(format!("insert of a valid delete batch failed: {e}"));
                        return false;
                    }
                }
                for (k, t) in dels {
                    self.cur.insert((k, Reverse(t)), None);
                }
            }
        }
        if rng.chance(1, 7) {
            rep.log("seal".into());
            match self.mem.seal_now() {
                Ok(s) => {
                    let empty = self.cur.is_empty();
                    if !rep.check(fpn(&[11, empty as u64]), s.is_some() != empty, || {
                        format!("sealing a memtable with {} versions returned a segment: {}", self.cur.len(), s.is_some())
                    }) {
                        return false;
                    }
                    self.sealed(s);
                }
                Err(e) => {
                    rep.violate(format!("seal failed: {e}"));
                    return false;
                }
            }
        }
        true
    }
    fn a_ts(&self, rng: &mut Rng) -> u64 {
        match rng.below(6) {
            0 => u64::MAX,
            1 => 0,
            2 => 1_000_000 * (1 + rng.below(3)) + rng.below(self.ts * 16 + 2),
            _ => rng.below(self.ts + 2),
        }
    }
    fn check(&self, rng: &mut Rng, rep: &mut Report) -> bool {
        let l = &self.pool.l;
        let ts = self.a_ts(rng);
        let b = rng.chance(2, 3).then(|| self.pool.bounds(rng));
        let p = self.pool.proj(rng);
        let want = expect(&self.cur, ts, b.as_ref(), p.as_deref());
        let got = scan_mutable(l, &self.mem, ts, b.as_ref(), p.as_deref());
        let f = fpn(&[fps(&format!("{:?}{:?}", l.key_tys(), b.as_ref().map(|b| (std::mem::discriminant(&b.0), std::mem::discriminant(&b.1))))), want.len() as u64, self.cur.len() as u64, want.iter().filter(|x| x.2.is_none()).count() as u64]);
        if !rep.check(f, matches!(&got, Ok(g) if same(g, &want)), || {
            format!("mutable scan at ts {ts} range {b:?} proj {p:?}: want {} got {}", show(&want), match &got { Ok(g) => show(g), Err(e) => e.clone() })
        }) {
            return false;
        }
        // Summary facts.
        let kb = self.mem.key_bounds();
        let kb = (kb.0.and_then(|k| l.key_back(&k)), kb.1.and_then(|k| l.key_back(&k)));
        let wkb = (self.cur.keys().next().map(|k| k.0.clone()), self.cur.keys().next_back().map(|k| k.0.clone()));
        let tb = self.mem.commit_ts_bounds().map(|(a, b)| (a.get(), b.get()));
        let wtb = self.cur.keys().map(|k| k.1.0).min().map(|m| (m, self.cur.keys().map(|k| k.1.0).max().unwrap()));
        if !rep.check(fpn(&[f, 1]), kb == wkb && tb == wtb && self.mem.row_count() == self.cur.len(), || {
            format!("mutable summary: keys {kb:?} want {wkb:?}; ts {tb:?} want {wtb:?}; rows {} want {}", self.mem.row_count(), self.cur.len())
        }) {
            return false;
        }
        let st = self.mem.build_stats(None);
        let distinct = self.cur.keys().map(|k| k.0.clone()).collect::<std::collections::BTreeSet<_>>().len();
        if !rep.check(fpn(&[f, 2]), st.entries == distinct && st.inserts >= st.entries as u64 && st.replaces + st.entries as u64 == st.inserts, || {
            format!("stats {st:?}, {distinct} distinct keys")
        }) {
            return false;
        }
        for _ in 0..2 {
            let k = self.pool.key(rng);
            let sts = self.a_ts(rng);
            let want = self.cur.keys().any(|x| x.0 == k && x.1.0 > sts);
            let got = self.mem.has_conflict(&l.owned_key(&k), Timestamp::new(sts));
            if !rep.check(fpn(&[12, want as u64, self.cur.len() as u64]), got == want, || format!("has_conflict({k:?}, {sts}) = {got}, want {want}")) {
                return false;
            }
        }
        if self.imm.is_empty() {
            return true;
        }
        let (seg, v) = &self.imm[rng.idx(self.imm.len())];
        self.check_imm(rng, rep, seg, v, ts, b.as_ref(), p.as_deref())
    }
    fn check_imm(&self, rng: &mut Rng, rep: &mut Report, seg: &ImmutableMemTable, v: &Versions, ts: u64, b: Option<&(Bound<MKey>, Bound<MKey>)>, p: Option<&[usize]>) -> bool {
        let l = &self.pool.l;
        let want = expect(v, ts, b, p);
        let got = scan_immutable(l, seg, ts, b, p);
        let f = fpn(&[21, fps(&format!("{:?}", l.key_tys())), want.len() as u64, v.len() as u64]);
        if !rep.check(f, matches!(&got, Ok(g) if same(g, &want)), || {
            format!("immutable scan at ts {ts} range {b:?} proj {p:?}: want {} got {}", show(&want), match &got { Ok(g) => show(g), Err(e) => e.clone() })
        }) {
            return false;
        }
        let kb = (seg.min_key().and_then(|k| l.key_back(&k)), seg.max_key().and_then(|k| l.key_back(&k)));
        let wkb = (v.keys().next().map(|k| k.0.clone()), v.keys().next_back().map(|k| k.0.clone()));
        let tb = seg.commit_ts_bounds().map(|(a, b)| (a.get(), b.get()));
        let wtb = v.keys().map(|k| k.1.0).min().map(|m| (m, v.keys().map(|k| k.1.0).max().unwrap()));
        let dels = v.values().filter(|r| r.is_none()).count();
        let ok = kb == wkb && tb == wtb && seg.entry_count() == v.len() && seg.delete_sidecar().len() == dels && seg.delete_sidecar().is_empty() == (dels == 0) && seg.storage().num_rows() == v.len() - dels && seg.mvcc_columns().commit_ts.len() == v.len() - dels;
        if !rep.check(fpn(&[f, 22]), ok, || {
            format!("sealed segment: keys {kb:?} want {wkb:?}; ts {tb:?} want {wtb:?}; entries {} want {}; deletes {} want {dels}", seg.entry_count(), v.len(), seg.delete_sidecar().len())
        }) {
            return false;
        }
        // Every version, in key order and newest first.
        let it: Vec<(Option<MKey>, u64, bool)> = seg.row_iter().map(|e| (l.key_back(&e.key), e.commit_ts.get(), e.tombstone)).collect();
        let wit: Vec<(Option<MKey>, u64, bool)> = v.iter().map(|(k, r)| (Some(k.0.clone()), k.1.0, r.is_none())).collect();
        if !rep.check(fpn(&[f, 23]), it == wit, || format!("sealed segment versions {it:?}, want {wit:?}")) {
            return false;
        }
        // Delete sidecar as written to disk: keys and their timestamps, row by row.
        let side = seg.delete_sidecar().to_record_batch();
        let wside: Vec<(MKey, u64)> = v.iter().filter(|x| x.1.is_none()).map(|(k, _)| (k.0.clone(), k.1.0)).collect();
        let gside: Option<Vec<(MKey, u64)>> = side.ok().map(|b| {
            let tc = b.column(l.keys.len());
            (0..b.num_rows())
                .map(|i| {
                    let k = MKey(l.key_tys().iter().enumerate().map(|(c, t)| read(*t, b.column(c), i).expect("key")).collect());
                    let t = match read(Ty::U64, tc, i) { Some(Val::U(t)) => t, _ => 0 };
                    (k, t)
                })
                .collect()
        });
        if !rep.check(fpn(&[f, 24]), gside.as_ref() == Some(&wside), || format!("delete sidecar {gside:?}, want {wside:?}")) {
            return false;
        }
        // Row payloads stay aligned with their timestamps.
        let all: Vec<(MRow, u64)> = (0..seg.storage().num_rows())
            .map(|i| (l.cols.iter().enumerate().map(|(c, (_, t, _))| read(*t, seg.storage().column(c), i)).collect(), seg.mvcc_columns().commit_ts[i].get()))
            .collect();
        let wall: Vec<(MRow, u64)> = v.iter().filter_map(|(k, r)| r.clone().map(|r| (r, k.1.0))).collect();
        let ok = all.len() == wall.len() && all.iter().zip(&wall).all(|(a, b)| a.1 == b.1 && rows_same(&a.0, &b.0));
        if !rep.check(fpn(&[f, 25]), ok, || format!("sealed rows {all:?}, want {wall:?}").chars().take(900).collect()) {
            return false;
        }
        let k = self.pool.key(rng);
        let sts = self.a_ts(rng);
        let want = v.keys().any(|x| x.0 == k && x.1.0 > sts);
        let got = seg.has_conflict(&l.owned_key(&k), Timestamp::new(sts));
        rep.check(fpn(&[26, want as u64, v.len() as u64]), got == want, || format!("sealed has_conflict({k:?}, {sts}) = {got}, want {want}"))
    }
}

fn mem_versions(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut t = Tables::new(&mut rng, &ALL);
    let n = 4 + rng.idx(30);
    for _ in 0..n {
        if !t.write(&mut rng, rep) || !t.check(&mut rng, rep) {
            return;
        }
    }
    rep.count("writes", n as u64);
    rep.count("sealed_segments", t.imm.len() as u64);
    rep.sample(format!("{n} writes, {} sealed segments, layout {:?} keys {:?}", t.imm.len(), t.pool.l.cols.iter().map(|c| c.1).collect::<Vec<_>>(), t.pool.l.keys));
}

/// Merge of mutable, sealed and staged layers equals the overlay of their versions.
fn mem_merge(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut t = Tables::new(&mut rng, &ROWABLE);
    let n = 4 + rng.idx(24);
    for _ in 0..n {
        if !t.write(&mut rng, rep) {
            return;
        }
    }
    let l = t.pool.l.clone();
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("rt");
    for _ in 0..6 {
        let ts = t.a_ts(&mut rng);
        let b = rng.chance(1, 2).then(|| t.pool.bounds(&mut rng));
        let p = t.pool.proj(&mut rng);
        let limit = rng.chance(1, 2).then(|| rng.idx(6));
        let ps = p.as_ref().map(|p| Arc::new(l.schema().project(p).expect("project")));
        let all: Vec<usize> = (0..l.cols.len()).collect();
        let cols = p.clone().unwrap_or(all);
        // Reference.
        let mut v: Versions = t.cur.clone();
        for (_, w) in &t.imm {
            v.extend(w.clone());
        }
        let mut want: BTreeMap<MKey, Option<MRow>> = expect(&v, ts, b.as_ref(), p.as_deref()).into_iter().map(|(k, _, r)| (k, r)).collect();
        let mut staged: BTreeMap<crate::key::KeyOwned, DynMutation<DynRow, ()>> = BTreeMap::new();
        if rng.chance(1, 2) {
            for _ in 0..1 + rng.idx(4) {
                let r = t.pool.row(&mut rng);
                let k = l.key_of(&r);
                if rng.chance(1, 3) {
                    staged.insert(l.owned_key(&k), DynMutation::Delete(()));
                    want.insert(k, None);
                } else {
                    let dr = DynRow(r.iter().zip(&l.cols).map(|(v, c)| v.as_ref().map(|v| c.1.cell(v))).collect());
                    staged.insert(l.owned_key(&k), DynMutation::Upsert(dr));
                    want.insert(k, Some(proj_row(&r, p.as_deref())));
                }
            }
        }
        let mut want: Vec<MRow> = want.into_values().flatten().collect();
        if let Some(lim) = limit {
            want.truncate(lim);
        }
        let res: Result<Vec<MRow>, String> = (|| {
            let mut streams: Vec<ScanStream<'_, fusio::executor::NoopExecutor>> = Vec::new();
            if !staged.is_empty() {
                streams.push(ScanStream::from(TransactionScan::new(&staged, &l.schema(), Timestamp::new(ts), ps.as_ref()).map_err(|e| e.to_string())?));
            }
            let g = t.mem.read();
            streams.push(ScanStream::from(match &b {
                None => OwnedMutableScan::from_guard(g, ps.clone(), Timestamp::new(ts)),
                Some((lo, hi)) => OwnedMutableScan::from_guard_range(g, ps.clone(), Timestamp::new(ts), obound(&l, lo), obound(&l, hi)),
            }.map_err(|e| e.to_string())?));
            for (s, _) in &t.imm {
                streams.push(ScanStream::from(match &b {
                    None => OwnedImmutableScan::from_arc(s.clone(), ps.clone(), Timestamp::new(ts)),
                    Some((lo, hi)) => OwnedImmutableScan::from_arc_range(s.clone(), ps.clone(), Timestamp::new(ts), obound(&l, lo), obound(&l, hi)),
                }.map_err(|e| e.to_string())?));
            }
            rng.shuffle(&mut streams);
            rt.block_on(async {
                let mut m = MergeStream::from_vec(streams, limit, rng.chance(1, 2).then_some(Order::Asc)).await.map_err(|e| e.to_string())?;
                let mut out = Vec::new();
                while let Some(e) = m.next().await {
                    let e = e.map_err(|e| e.to_string())?;
                    let r = e.into_row().ok_or("merge yielded a tombstone")?;
                    out.push(row_vals(&l, &r, &cols).ok_or("row shape")?);
                }
                Ok(out)
            })
        })();
        let f = fpn(&[fps(&format!("{:?}", l.key_tys())), t.imm.len() as u64, want.len() as u64, staged.len() as u64, limit.map_or(99, |x| x as u64)]);
        let ok = matches!(&res, Ok(g) if g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| rows_same(a, b)));
        if !rep.check(f, ok, || {
            format!("merge of {} layers at ts {ts} range {b:?} limit {limit:?} with {} staged: want {:?} got {:?}", t.imm.len() + 1, staged.len(), want, res).chars().take(1500).collect()
        }) {
            return;
        }
        rep.count("merges", 1);
    }
}

/// Skipping sealed segments never changes the visible result.
fn mem_prune(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut t = Tables::new(&mut rng, &ROWABLE);
    // Single-column keys: bounds are derived only for those.
    while t.pool.l.keys.len() != 1 {
        t = Tables::new(&mut rng, &ROWABLE);
    }
    let n = 8 + rng.idx(30);
    for _ in 0..n {
        if !t.write(&mut rng, rep) {
            return;
        }
        if rng.chance(1, 3) {
            if let Ok(s) = t.mem.seal_now() {
                t.sealed(s);
            }
        }
    }
    let l = t.pool.l.clone();
    let segs: Vec<&ImmutableMemTable> = t.imm.iter().map(|s| s.0.as_ref()).collect();
    for _ in 0..12 {
        let ts = t.a_ts(&mut rng);
        let keep = prune_segments(&segs, None, Timestamp::new(ts));
        let mut full = Versions::new();
        let mut kept = Versions::new();
        for (i, (_, v)) in t.imm.iter().enumerate() {
            full.extend(v.clone());
            if keep.contains(&i) {
                kept.extend(v.clone());
            }
        }
        let (a, b) = (expect(&full, ts, None, None), expect(&kept, ts, None, None));
        let f = fpn(&[keep.len() as u64, segs.len() as u64, a.len() as u64]);
        rep.count("segments_pruned", (segs.len() - keep.len()) as u64);
        if !rep.check(f, same(&a, &b), || format!("pruning kept segments {keep:?} of {} at read ts {ts}, but skipped one whose version is visible: {} vs {}", segs.len(), show(&a), show(&b))) {
            return;
        }
    }
    let _ = l;
}

/// Threads writing disjoint timestamps; afterwards every version is there exactly once.
fn mem_threads(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let pool = Pool::new(&mut rng, &ROWABLE, 6);
    let cap = *rng.pick(&[1usize, 2, 4, 16]);
    let mem = new_mem(&pool.l, cap);
    let writers = 2 + rng.idx(2);
    let mut plans: Vec<Vec<(u64, Option<Vec<MRow>>, Option<MKey>)>> = Vec::new();
    let ops = 6 + rng.idx(10);
    let mut all = Versions::new();
    for w in 0..writers {
        let mut plan = Vec::new();
        for i in 0..ops {
            let ts = 1 + (i * writers + w) as u64;
            if rng.chance(2, 3) {
                // One row per key: two rows of a batch at one (key, ts) resolve to the last, and a
                // concurrent reader may catch the first.
                let mut rows: Vec<MRow> = (0..1 + rng.idx(3)).map(|_| pool.row(&mut rng)).collect();
                let mut seen = std::collections::BTreeSet::new();
                rows.retain(|r| seen.insert(pool.l.key_of(r)));
                for r in &rows {
                    all.insert((pool.l.key_of(r), Reverse(ts)), Some(r.clone()));
                }
                plan.push((ts, Some(rows), None));
            } else {
                let k = pool.key(&mut rng);
                all.insert((k.clone(), Reverse(ts)), None);
                plan.push((ts, None, Some(k)));
            }
        }
        plans.push(plan);
    }
    let sealed: std::sync::Mutex<Vec<ImmutableMemTable>> = Default::default();
    let errs: std::sync::Mutex<Vec<String>> = Default::default();
    let barrier = std::sync::Barrier::new(writers + 2);
    let done = std::sync::atomic::AtomicUsize::new(0);
    let mut rseed = rng.fork();
    std::thread::scope(|s| {
        for plan in &plans {
            let (mem, sealed, errs, barrier, pool, done) = (&mem, &sealed, &errs, &barrier, &pool, &done);
            s.spawn(move || {
                barrier.wait();
                for (ts, rows, key) in plan {
                    let r = match (rows, key) {
                        (Some(rows), _) => mem.insert_batch(pool.l.batch(rows), Timestamp::new(*ts)),
                        (_, Some(k)) => mem.insert_delete_batch(delete_batch(&pool.l, &[(k.clone(), *ts)])),
                        _ => unreachable!(),
                    };
                    match r {
                        Ok(Some(x)) => sealed.lock().unwrap().push(x),
                        Ok(None) => {}
                        Err(e) => errs.lock().unwrap().push(format!("write at ts {ts} failed: {e}")),
                    }
                }
                done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            });
        }
        let (mem, sealed, errs, barrier, pool, done, all) = (&mem, &sealed, &errs, &barrier, &pool, &done, &all);
        s.spawn(move || {
            barrier.wait();
            for _ in 0..3 {
                match mem.seal_now() {
                    Ok(Some(x)) => sealed.lock().unwrap().push(x),
                    Ok(None) => {}
                    Err(e) => errs.lock().unwrap().push(format!("seal failed: {e}")),
                }
                std::thread::yield_now();
            }
        });
        s.spawn(move || {
            barrier.wait();
            while done.load(std::sync::atomic::Ordering::SeqCst) < writers {
                let ts = 1 + rseed.below((ops * writers) as u64);
                match scan_mutable(&pool.l, mem, ts, None, None) {
                    Err(e) => errs.lock().unwrap().push(format!("concurrent scan failed: {e}")),
                    Ok(g) => {
                        let mut prev: Option<&MKey> = None;
                        for (k, t, r) in &g {
                            let known = match all.get(&(k.clone(), Reverse(*t))) {
                                None => false,
                                Some(None) => r.is_none(),
                                Some(Some(x)) => r.as_ref().is_some_and(|r| rows_same(r, x)),
                            };
                            if *t > ts || !known || prev.is_some_and(|p| p >= k) {
                                errs.lock().unwrap().push(format!("concurrent scan at ts {ts} returned ({k:?},{t},{r:?}) after {prev:?}"));
                            }
                            prev = Some(k);
                        }
                    }
                }
            }
        });
    });
    for e in errs.into_inner().unwrap() {
        rep.violate(e);
    }
    let mut segs = sealed.into_inner().unwrap();
    if let Ok(Some(s)) = mem.seal_now() {
        segs.push(s);
    }
    // Conservation: the union of all segments is exactly what was written.
    let mut seen: BTreeMap<(MKey, Reverse<u64>), (usize, bool)> = BTreeMap::new();
    for s in &segs {
        for e in s.row_iter() {
            if let Some(k) = pool.l.key_back(&e.key) {
                let x = seen.entry((k, Reverse(e.commit_ts.get()))).or_insert((0, e.tombstone));
                x.0 += 1;
            }
        }
    }
    let ok = seen.len() == all.len() && all.iter().all(|(k, r)| seen.get(k) == Some(&(1, r.is_none())));
    rep.check(fpn(&[segs.len() as u64, writers as u64, cap as u64, ops as u64]), ok, || {
        let lost: Vec<_> = all.keys().filter(|k| !seen.contains_key(k)).collect();
        let odd: Vec<_> = seen.iter().filter(|(k, x)| x.0 != 1 || all.get(k).map(|r| r.is_none()) != Some(x.1)).collect();
        format!("{writers} writers, capacity {cap}: lost versions {lost:?}, wrong or duplicated {odd:?}")
    });
    // Values too.
    for s in &segs {
        let ok = scan_immutable(&pool.l, s, u64::MAX, None, None).is_ok_and(|g| {
            g.iter().all(|(k, t, r)| match (all.get(&(k.clone(), Reverse(*t))), r) {
                (Some(Some(x)), Some(r)) => rows_same(x, r),
                (Some(None), None) => true,
                _ => false,
            })
        });
        if !rep.check(fpn(&[5, segs.len() as u64]), ok, || "a sealed segment returned a value that was not written at that version".into()) {
            return;
        }
    }
    rep.count("segments", segs.len() as u64);
    rep.count("concurrent_writes", (writers * ops) as u64);
}

/// Scans that stay open while another thread writes and seals, or while the caller lets go of the
/// segment they read.
fn mem_live(seed: u64, rep: &mut Report) {
    use std::sync::{Mutex, atomic::{AtomicUsize, Ordering::SeqCst}};
    let mut rng = Rng::new(seed);
    let mut t = Tables::new(&mut rng, &ROWABLE);
    for _ in 0..6 + rng.idx(24) {
        if !t.write(&mut rng, rep) {
            return;
        }
    }
    let l = t.pool.l.clone();
    let all: Vec<usize> = (0..l.cols.len()).collect();
    for _ in 0..4 {
        let cut = t.cur.keys().map(|k| k.1.0).max().unwrap_or(0).max(t.ts);
        let ts = if rng.chance(1, 2) { cut } else { t.a_ts(&mut rng).min(cut) };
        let b = rng.chance(1, 2).then(|| t.pool.bounds(&mut rng));
        let p = t.pool.proj(&mut rng);
        let ps = p.as_ref().map(|p| Arc::new(l.schema().project(p).expect("project")));
        let cols = p.clone().unwrap_or(all.clone());
        let want = expect(&t.cur, ts, b.as_ref(), p.as_deref());
        let merged = rng.chance(1, 3);
        // What the other thread does while the scan is open.
        let mut plan: Vec<Option<(u64, Vec<MRow>)>> = Vec::new();
        let mut next = cut;
        for _ in 0..1 + rng.idx(3) {
            plan.push((!rng.chance(1, 2)).then(|| {
                next += 1 + rng.below(3);
                let mut rows: Vec<MRow> = (0..1 + rng.idx(3)).map(|_| t.pool.row(&mut rng)).collect();
                let mut seen = std::collections::BTreeSet::new();
                rows.retain(|r| seen.insert(l.key_of(r)));
                (next, rows)
            }));
        }
        t.ts = t.ts.max(next);
        let pause = if want.is_empty() { 0 } else { rng.idx(want.len()) };
        let wait_us = 100 + rng.below(1500);
        let started = AtomicUsize::new(0);
        let finished = AtomicUsize::new(0);
        let out: Mutex<Vec<(Vec<usize>, ImmutableMemTable)>> = Default::default();
        let errs: Mutex<Vec<String>> = Default::default();
        let (mem, pool) = (&t.mem, &t.pool);
        let mut held = 0u64;
        let got: Result<Got, String> = std::thread::scope(|s| {
            let g = mem.read();
            let mut scan = match &b {
                None => OwnedMutableScan::from_guard(g, ps.clone(), Timestamp::new(ts)),
                Some((lo, hi)) => OwnedMutableScan::from_guard_range(g, ps.clone(), Timestamp::new(ts), obound(&l, lo), obound(&l, hi)),
            }
            .map_err(|e| e.to_string())?;
            let mut kept = Vec::new();
            if !merged {
                for _ in 0..pause {
                    match scan.next() {
                        Some(e) => kept.push(e.map_err(|e| e.to_string())?),
                        None => break,
                    }
                }
            }
            let (plan, out, errs, started, finished) = (&plan, &out, &errs, &started, &finished);
            s.spawn(move || {
                let mut pending: Vec<usize> = Vec::new();
                started.store(1, SeqCst);
                for (i, step) in plan.iter().enumerate() {
                    match step {
                        Some((at, rows)) => match mem.insert_batch(pool.l.batch(rows), Timestamp::new(*at)) {
                            Ok(None) => pending.push(i),
                            Ok(Some(x)) => {
                                out.lock().unwrap().push((std::mem::take(&mut pending), x));
                                pending.push(i);
                            }
                            Err(e) => errs.lock().unwrap().push(format!("insert: {e}")),
                        },
                        None => match mem.seal_now() {
                            Ok(Some(x)) => out.lock().unwrap().push((std::mem::take(&mut pending), x)),
                            Ok(None) => {}
                            Err(e) => errs.lock().unwrap().push(format!("seal: {e}")),
                        },
                    }
                    finished.fetch_add(1, SeqCst);
                }
            });
            while started.load(SeqCst) == 0 {
                std::thread::yield_now();
            }
            std::thread::sleep(std::time::Duration::from_micros(wait_us));
            held += (finished.load(SeqCst) < plan.len()) as u64;
            let mut got: Got = Vec::new();
            let mut take = |e: DynRowScanEntry, got: &mut Got| -> Result<(), String> {
                got.push(match e {
                    DynRowScanEntry::Row(k, r) => {
                        let row = r.into_owned().map_err(|e| e.to_string())?;
                        (l.key_back(&k.key().to_owned()).ok_or("bad key")?, k.timestamp().get(), Some(row_vals(&l, &row, &cols).ok_or("row shape")?))
                    }
                    DynRowScanEntry::Tombstone(k) => (l.key_back(&k.key().to_owned()).ok_or("bad key")?, k.timestamp().get(), None),
                });
                Ok(())
            };
            if merged {
                // Through the merge, as a query reads it.
                let rt = tokio::runtime::Builder::new_current_thread().build().expect("rt");
                let streams: Vec<ScanStream<'_, fusio::executor::NoopExecutor>> = vec![ScanStream::from(scan)];
                let rows: Result<Vec<MRow>, String> = rt.block_on(async {
                    let mut m = MergeStream::from_vec(streams, None, Some(Order::Asc)).await.map_err(|e| e.to_string())?;
                    let mut rows = Vec::new();
                    while let Some(e) = m.next().await {
                        let r = e.map_err(|e| e.to_string())?.into_row().ok_or("merge yielded a tombstone")?;
                        rows.push(row_vals(&l, &r, &cols).ok_or("row shape")?);
                    }
                    Ok(rows)
                });
                // Keys and timestamps are not part of what the merge yields.
                let live: Vec<_> = want.iter().filter(|w| w.2.is_some()).collect();
                let rows = rows?;
                if rows.len() != live.len() {
                    return Err(format!("{} rows of {}", rows.len(), live.len()));
                }
                for (r, w) in rows.into_iter().zip(&live) {
                    got.push((w.0.clone(), w.1, Some(r)));
                }
                got.extend(want.iter().filter(|w| w.2.is_none()).cloned());
                got.sort_by(|a, b| a.0.cmp(&b.0));
            } else {
                for e in kept {
                    take(e, &mut got)?;
                }
                while let Some(e) = scan.next() {
                    take(e.map_err(|e| e.to_string())?, &mut got)?;
                }
                drop(scan);
            }
            Ok(got)
        });
        rep.count("writers_held_back", held);
        for e in errs.into_inner().unwrap() {
            rep.violate(format!("beside an open scan, {e}"));
        }
        let f = fpn(&[41, want.len() as u64, merged as u64, pause as u64, plan.len() as u64, t.imm.len() as u64]);
        if !rep.check(f, matches!(&got, Ok(g) if same(g, &want)), || {
            format!("a scan at ts {ts} range {b:?} proj {p:?} kept open while another thread ran {:?}: want {} got {}", plan.iter().map(|s| s.as_ref().map_or("seal".into(), |x| format!("insert@{}", x.0))).collect::<Vec<_>>(), show(&want), match &got { Ok(g) => show(g), Err(e) => e.clone() })
        }) {
            return;
        }
        // What the other thread did must be all there.
        for (batches, x) in out.into_inner().unwrap() {
            for i in &batches {
                let (at, rows) = plan[*i].clone().unwrap();
                for r in rows {
                    t.cur.insert((l.key_of(&r), Reverse(at)), Some(r));
                }
            }
            for i in batches {
                plan[i] = None;
            }
            t.sealed(Some(x));
        }
        for (at, rows) in plan.into_iter().flatten() {
            for r in rows {
                t.cur.insert((l.key_of(&r), Reverse(at)), Some(r));
            }
        }
        if !t.check(&mut rng, rep) {
            return;
        }
        // A scan of a sealed segment outlives every other handle on it.
        if !t.imm.is_empty() {
            let i = rng.idx(t.imm.len());
            let (seg, v) = t.imm.swap_remove(i);
            let ts = t.a_ts(&mut rng);
            let want = expect(&v, ts, b.as_ref(), p.as_deref());
            let got: Result<Got, String> = (|| {
                let mut scan = match &b {
                    None => OwnedImmutableScan::from_arc(seg, ps.clone(), Timestamp::new(ts)),
                    Some((lo, hi)) => OwnedImmutableScan::from_arc_range(seg, ps.clone(), Timestamp::new(ts), obound(&l, lo), obound(&l, hi)),
                }
                .map_err(|e| e.to_string())?;
                // Let the allocator reuse whatever was freed.
                let churn: Vec<Vec<u8>> = (0..64).map(|i| vec![0xa5u8; 16 << (i % 7)]).collect();
                let mut got = Vec::new();
                while let Some(e) = scan.next() {
                    got.push(match e.map_err(|e| e.to_string())? {
                        ImmutableVisibleEntry::Row(k, r) => {
                            let row = r.into_owned().map_err(|e| e.to_string())?;
                            (l.key_back(&k.key().to_owned()).ok_or("bad key")?, k.timestamp().get(), Some(row_vals(&l, &row, &cols).ok_or("row shape")?))
                        }
                        ImmutableVisibleEntry::Tombstone(k) => (l.key_back(&k.key().to_owned()).ok_or("bad key")?, k.timestamp().get(), None),
                    });
                }
                drop(churn);
                Ok(got)
            })();
            if !rep.check(fpn(&[42, want.len() as u64, v.len() as u64]), matches!(&got, Ok(g) if same(g, &want)), || {
                format!("a scan of a sealed segment whose other handles are gone: want {} got {}", show(&want), match &got { Ok(g) => show(g), Err(e) => e.clone() })
            }) {
                return;
            }
            rep.count("orphaned_segment_scans", 1);
        }
        rep.count("live_scans", 1);
    }
}

/// Invalid batches are rejected without effect.
fn mem_reject(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut t = Tables::new(&mut rng, &ROWABLE);
    for _ in 0..3 + rng.idx(6) {
        if !t.write(&mut rng, rep) {
            return;
        }
    }
    for _ in 0..8 {
        let l = t.pool.l.clone();
        let rows: Vec<MRow> = (0..1 + rng.idx(4)).map(|_| t.pool.row(&mut rng)).collect();
        let ts = t.next_ts(&mut rng);
        let good = l.batch(&rows);
        let n = rows.len();
        let (what, err): (&str, bool) = match rng.below(13) {
            7 | 8 => {
                // Any other change of shape: an extra, doubled, swapped, retyped or renullabled column.
                let mut f: Vec<Field> = l.schema().fields().iter().map(|f| f.as_ref().clone()).collect();
                let mut c: Vec<ArrayRef> = good.columns().to_vec();
                let what = match rng.below(10) {
                    7..=9 => {
                        // A well-formed trailing commit timestamp does not excuse the columns before it.
                        let i = rng.idx(f.len());
                        let swap = (0..f.len()).find(|j| *j != i && f[*j].data_type() == f[i].data_type() && f[*j].is_nullable() == f[i].is_nullable());
                        let what = match (rng.below(4), swap) {
                            (0, Some(j)) => {
                                f.swap(i, j);
                                c.swap(i, j);
                                "a batch with a commit timestamp column and two columns swapped"
                            }
                            (1, _) => {
                                f[i] = Field::new(f[i].name(), arrow_schema::DataType::Date32, f[i].is_nullable());
                                c[i] = Arc::new(arrow_array::Date32Array::from(vec![1i32; n]));
                                "a batch with a commit timestamp column and a column of another type"
                            }
                            (2, _) if !f[i].is_nullable() => {
                                f[i] = f[i].clone().with_nullable(true);
                                "a batch with a commit timestamp column and a column declared nullable"
                            }
                            _ => {
                                let name = *rng.pick(&["renamed", "", "_tombstone", "K0"]);
                                f[i] = f[i].clone().with_name(name);
                                "a batch with a commit timestamp column and a renamed column"
                            }
                        };
                        f.push(Field::new("_commit_ts", arrow_schema::DataType::UInt64, false));
                        c.push(Arc::new(UInt64Array::from(vec![1u64; n])));
                        what
                    }
                    0 => {
                        f.push(Field::new("extra", arrow_schema::DataType::UInt64, false));
                        c.push(Arc::new(UInt64Array::from(vec![1u64; n])));
                        "a batch with an extra column"
                    }
                    1 => {
                        f.push(Field::new("_commit_ts", arrow_schema::DataType::UInt64, true));
                        c.push(Arc::new(UInt64Array::from(vec![1u64; n])));
                        "a batch with a nullable commit timestamp column"
                    }
                    2 => {
                        f.push(Field::new("_commit_ts", arrow_schema::DataType::Int64, false));
                        c.push(Arc::new(arrow_array::Int64Array::from(vec![1i64; n])));
                        "a batch with a signed commit timestamp column"
                    }
                    3 => {
                        for _ in 0..2 {
                            f.push(Field::new("_commit_ts", arrow_schema::DataType::UInt64, false));
                            c.push(Arc::new(UInt64Array::from(vec![1u64; n])));
                        }
                        "a batch with two commit timestamp columns"
                    }
                    4 => {
                        let i = rng.idx(f.len());
                        f[i] = Field::new(f[i].name(), arrow_schema::DataType::Date32, f[i].is_nullable());
                        c[i] = Arc::new(arrow_array::Date32Array::from(vec![1i32; n]));
                        "a batch with a column of another type"
                    }
                    5 => {
                        let i = rng.idx(f.len());
                        if f[i].is_nullable() {
                            continue;
                        }
                        f[i] = f[i].clone().with_nullable(true);
                        "a batch with a column declared nullable"
                    }
                    _ => {
                        f.insert(0, Field::new("_commit_ts", arrow_schema::DataType::UInt64, false));
                        c.insert(0, Arc::new(UInt64Array::from(vec![1u64; n])));
                        "a batch with a leading commit timestamp column"
                    }
                };
                let b = RecordBatch::try_new(Arc::new(Schema::new(f)), c).expect("b");
                let r = if rng.chance(1, 2) {
                    t.mem.insert_batch(b, Timestamp::new(ts))
                } else {
                    t.mem.insert_batch_with_mvcc(b, UInt64Array::from(vec![ts; n]))
                };
                (what, r.is_err())
            }
            9 => ("a long commit-timestamp column", t.mem.insert_batch_with_mvcc(good.clone(), UInt64Array::from(vec![ts; n + 1])).is_err()),
            10 | 11 | 12 => {
                let k = t.pool.key(&mut rng);
                let b = delete_batch(&l, &[(k, ts)]);
                let mut f: Vec<Field> = b.schema().fields().iter().map(|f| f.as_ref().clone()).collect();
                let mut c: Vec<ArrayRef> = b.columns().to_vec();
                let last = f.len() - 1;
                let what = match rng.below(5) {
                    0 => {
                        f.push(Field::new("extra", arrow_schema::DataType::UInt64, false));
                        c.push(Arc::new(UInt64Array::from(vec![1u64])));
                        "a delete batch with an extra column"
                    }
                    1 => {
                        let i = rng.idx(last);
                        f[i] = Field::new("renamed", f[i].data_type().clone(), f[i].is_nullable());
                        "a delete batch with a renamed key"
                    }
                    2 => {
                        let i = rng.idx(last);
                        f[i] = Field::new(f[i].name(), arrow_schema::DataType::Date32, f[i].is_nullable());
                        c[i] = Arc::new(arrow_array::Date32Array::from(vec![1i32]));
                        "a delete batch with a key of another type"
                    }
                    3 => {
                        f[last] = Field::new(f[last].name(), arrow_schema::DataType::Int64, false);
                        c[last] = Arc::new(arrow_array::Int64Array::from(vec![ts as i64]));
                        "a delete batch with signed timestamps"
                    }
                    _ => {
                        f[last] = f[last].clone().with_nullable(true);
                        c[last] = Arc::new(UInt64Array::from(vec![None::<u64>]));
                        "a delete batch with a null timestamp"
                    }
                };
                let b = RecordBatch::try_new(Arc::new(Schema::new(f)), c).expect("b");
                (what, t.mem.insert_delete_batch(b).is_err())
            }
            0 => {
                // Missing column.
                let keep: Vec<usize> = (0..l.cols.len() - 1).collect();
                ("a batch without its last column", t.mem.insert_batch(good.project(&keep).expect("p"), Timestamp::new(ts)).is_err())
            }
            1 => {
                let mut f: Vec<Field> = l.schema().fields().iter().map(|f| f.as_ref().clone()).collect();
                f[0] = f[0].clone().with_name("renamed");
                let b = RecordBatch::try_new(Arc::new(Schema::new(f)), good.columns().to_vec()).expect("b");
                ("a batch with a renamed column", t.mem.insert_batch(b, Timestamp::new(ts)).is_err())
            }
            2 => {
                // A null in a key column declared nullable by the batch.
                let ki = l.keys[rng.idx(l.keys.len())];
                let mut rows = rows.clone();
                let i = rng.idx(n);
                rows[i][ki] = None;
                let mut f: Vec<Field> = l.schema().fields().iter().map(|f| f.as_ref().clone()).collect();
                f[ki] = f[ki].clone().with_nullable(true);
                let cols: Vec<ArrayRef> = l.cols.iter().enumerate().map(|(c, (_, ty, _))| ty.array(&rows.iter().map(|r| r[c].clone()).collect::<Vec<_>>())).collect();
                let b = RecordBatch::try_new(Arc::new(Schema::new(f)), cols).expect("b");
                ("a batch with a null key", t.mem.insert_batch(b, Timestamp::new(ts)).is_err())
            }
            3 => ("a short commit-timestamp column", t.mem.insert_batch_with_mvcc(good.clone(), UInt64Array::from(vec![ts; n - 1])).is_err()),
            4 => {
                let mut v: Vec<Option<u64>> = vec![Some(ts); n];
                v[rng.idx(n)] = None;
                ("a null commit timestamp", t.mem.insert_batch_with_mvcc(good.clone(), UInt64Array::from(v)).is_err())
            }
            5 => {
                let k = t.pool.key(&mut rng);
                let b = delete_batch(&l, &[(k, ts)]);
                let keep: Vec<usize> = (0..l.keys.len()).collect();
                ("a delete batch without timestamps", t.mem.insert_delete_batch(b.project(&keep).expect("p")).is_err())
            }
            _ => ("a full row batch as a delete batch", l.cols.len() + 1 == l.keys.len() + 1 || t.mem.insert_delete_batch(good.clone()).is_err()),
        };
        rep.log(format!("offer {what}"));
        if !rep.check(fpn(&[fps(what), t.cur.len() as u64]), err, || format!("{what} was accepted")) {
            return;
        }
        let got = scan_mutable(&l, &t.mem, u64::MAX, None, None);
        let want = expect(&t.cur, u64::MAX, None, None);
        if !rep.check(fpn(&[fps(what), 1]), matches!(&got, Ok(g) if same(g, &want)), || format!("rejecting {what} changed the table: want {} got {got:?}", show(&want)).chars().take(900).collect()) {
            return;
        }
        rep.count("rejections", 1);
    }
    // And the table still works.
    t.write(&mut rng, rep);
    t.check(&mut rng, rep);
}
