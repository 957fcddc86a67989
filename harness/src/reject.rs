//! Hostile callers of the whole database: every malformed write, staged mutation and re-opening
//! definition must be refused, and a refusal must leave nothing behind - not in memory, not in
//! any file, not in the transaction it was offered to, not after recovery.
use std::sync::Arc;

use arrow_array::{ArrayRef, Int64Array, RecordBatch, StringArray, UInt64Array, new_null_array};
use arrow_schema::{DataType, Field, Schema};
use tonbo::{
    db::DbBuilder,
    verif::{
        keys_pub::KeyOwned,
        report::{Report, Rng, fpn, fps},
        simfs::SimFs,
    },
};
use typed_arrow_dyn::DynCell;

use crate::{dbsim::*, model::*};

fn wrong_cell(c: &DynCell) -> DynCell {
    match c {
        DynCell::Str(_) => DynCell::I64(7),
        DynCell::I64(v) => DynCell::Str(format!("{v}")),
        DynCell::I32(v) => DynCell::I64(*v as i64),
        DynCell::U64(v) => DynCell::I64(*v as i64),
        _ => DynCell::Bool(true),
    }
}

/// A batch that does not fit the table, and what is wrong with it.
fn bad_batch(rng: &mut Rng, kind: Kind, rows: &[(K, Row)]) -> (&'static str, RecordBatch) {
    let good = kind.batch(rows);
    let n = rows.len();
    let nk = kind.cols().len();
    let mut f: Vec<Field> = good.schema().fields().iter().map(|f| f.as_ref().clone()).collect();
    let mut c: Vec<ArrayRef> = good.columns().to_vec();
    let what = match rng.below(13) {
        0 => {
            let i = rng.idx(c.len());
            f.remove(i);
            c.remove(i);
            "a missing column"
        }
        1 => {
            let at = rng.idx(c.len() + 1);
            f.insert(at, Field::new("extra", DataType::Int64, true));
            c.insert(at, new_null_array(&DataType::Int64, n));
            "an extra column"
        }
        2 => {
            f.push(Field::new("_commit_ts", DataType::UInt64, false));
            c.push(Arc::new(UInt64Array::from_iter_values((0..n as u64).map(|i| i + 1))));
            "a smuggled commit timestamp column"
        }
        3 => {
            f.push(Field::new("_tombstone", DataType::Boolean, false));
            c.push(Arc::new(arrow_array::BooleanArray::from(vec![true; n])));
            "a smuggled tombstone column"
        }
        4 => {
            let i = rng.idx(c.len());
            f[i] = f[i].clone().with_name("renamed");
            "a renamed column"
        }
        5 => {
            let i = rng.idx(c.len() - 1);
            f.swap(i, i + 1);
            c.swap(i, i + 1);
            "two columns swapped"
        }
        6 => {
            let i = rng.idx(c.len());
            let (ty, arr): (DataType, ArrayRef) = if f[i].data_type() == &DataType::Utf8 {
                (DataType::Int64, Arc::new(Int64Array::from(vec![5; n])))
            } else {
                (DataType::Utf8, Arc::new(StringArray::from(vec!["w"; n])))
            };
            f[i] = Field::new(f[i].name(), ty, f[i].is_nullable());
            c[i] = arr;
            "a column of another type"
        }
        7 => {
            let i = rng.idx(c.len());
            let keep = Field::new(f[i].name(), f[i].data_type().clone(), true);
            let was = f[i].is_nullable();
            f[i] = keep;
            if was {
                // Declaring it nullable changes nothing there: claim the opposite instead.
                c[i] = match f[i].data_type() {
                    DataType::Utf8 => Arc::new(StringArray::from(vec!["w"; n])),
                    _ => Arc::new(arrow_array::Int32Array::from(vec![5; n])),
                };
                f[i] = f[i].clone().with_nullable(false);
            }
            "a column of other nullability"
        }
        8 | 9 => {
            let i = rng.idx(nk);
            let row = rng.idx(n);
            f[i] = f[i].clone().with_nullable(true);
            let idx: Vec<Option<u32>> = (0..n as u32).map(|r| (r != row as u32).then_some(r)).collect();
            c[i] = arrow_select::take::take(&c[i], &arrow_array::UInt32Array::from(idx), None).expect("take");
            "a null key"
        }
        10 => {
            let i = rng.idx(c.len());
            f[i] = f[i].clone().with_metadata([("x".to_string(), "y".to_string())].into());
            "a column with foreign metadata"
        }
        11 => {
            f.truncate(nk);
            c.truncate(nk);
            "only the key columns"
        }
        _ => {
            let m = [("tonbo.keys".to_string(), "v".to_string())].into();
            return ("foreign schema metadata", RecordBatch::try_new(Arc::new(Schema::new_with_metadata(f, m)), c).expect("bad batch"));
        }
    };
    (what, RecordBatch::try_new(Arc::new(Schema::new(f)), c).expect("bad batch"))
}

struct Case<'a> {
    rep: &'a mut Report,
    rng: Rng,
    sim: Sim,
    state: State,
    next_v: i64,
}

impl Case<'_> {
    fn rows(&mut self) -> Vec<(K, Row)> {
        let n = 1 + self.rng.idx(4);
        (0..n)
            .map(|_| {
                let k = self.sim.cfg.kind.key(self.rng.idx(self.sim.cfg.keys));
                (k, gen_row(&mut self.rng, &mut self.next_v))
            })
            .collect()
    }
    async fn unchanged(&mut self, what: &str, journal: usize) -> bool {
        let now = self.sim.fs.journal_len();
        if !self.rep.check(fpn(&[fps(what), 3]), now == journal, || format!("{what} was refused but wrote to storage: {} new mutations", now - journal)) {
            return false;
        }
        let got = self.sim.scan_all().await;
        let kind = self.sim.cfg.kind;
        let fp = fpn(&[fps(what), self.state.len() as u64, 4]);
        check_rows(self.rep, &format!("after {what} was refused"), kind, &self.state, &got, fp)
    }
    async fn valid(&mut self) -> bool {
        let rows = self.rows();
        self.rep.log(format!("ingest {rows:?}"));
        let b = self.sim.cfg.kind.batch(&rows);
        // Exactly the table's schema, even through a batch built field by field, must be taken.
        if let Err(e) = self.sim.db.ingest(b).await {
            self.rep.violate(format!("ingest of a valid batch failed: {e}"));
            return false;
        }
        for (k, r) in rows {
            self.state.insert(k, r);
        }
        true
    }
    async fn bad_ingest(&mut self) -> bool {
        let rows = self.rows();
        let kind = self.sim.cfg.kind;
        let journal = self.sim.fs.journal_len();
        let (what, err) = match self.rng.below(6) {
            0 => {
                let n = rows.len();
                let wrong = *self.rng.pick(&[0, n - 1, n + 1, n * 2 + 1]);
                let tombs: Vec<bool> = (0..wrong).map(|_| self.rng.chance(1, 2)).collect();
                let r = self.sim.db.ingest_with_tombstones(kind.batch(&rows), tombs).await;
                ("a tombstone vector of another length", r.is_err())
            }
            1 | 2 => {
                let (what, b) = bad_batch(&mut self.rng, kind, &rows);
                let tombs = (0..b.num_rows()).map(|_| self.rng.chance(1, 2)).collect();
                (what, self.sim.db.ingest_with_tombstones(b, tombs).await.is_err())
            }
            _ => {
                let (what, b) = bad_batch(&mut self.rng, kind, &rows);
                (what, self.sim.db.ingest(b).await.is_err())
            }
        };
        self.rep.log(format!("offer a batch with {what}"));
        self.rep.count("refused_batches", 1);
        let fp = fpn(&[fps(what), self.state.len() as u64, 1]);
        if !self.rep.check(fp, err, || format!("a batch with {what} was accepted")) {
            return false;
        }
        self.unchanged(&format!("a batch with {what}"), journal).await
    }
    /// A transaction that is offered bad mutations between good ones commits exactly the good ones.
    async fn txn(&mut self) -> bool {
        let kind = self.sim.cfg.kind;
        let mut tx = match self.sim.db.begin_transaction().await {
            Ok(t) => t,
            Err(e) => {
                self.rep.violate(format!("begin_transaction failed: {e}"));
                return false;
            }
        };
        let mut view = self.state.clone();
        let mut late: Option<&'static str> = None;
        for _ in 0..2 + self.rng.idx(6) {
            if self.rng.chance(1, 2) {
                let (k, r) = self.rows().pop().expect("row");
                let res = if self.rng.chance(1, 2) {
                    view.insert(k.clone(), r.clone());
                    self.rep.log(format!("tx upsert {k:?} v={}", r.v));
                    tx.upsert(kind.dyn_row(&k, &r))
                } else {
                    view.remove(&k);
                    self.rep.log(format!("tx delete {k:?}"));
                    tx.delete(self.sim.key(&k))
                };
                if let Err(e) = res {
                    self.rep.violate(format!("staging a valid mutation failed: {e}"));
                    return false;
                }
                continue;
            }
            let before = tx.len();
            let rows = self.rows();
            let (k, r) = rows[0].clone();
            let mut row = kind.dyn_row(&k, &r);
            let nk = kind.cols().len();
            let (what, err): (&'static str, bool) = match self.rng.below(8) {
                0 => {
                    row.0.pop();
                    ("a row without its last cell", tx.upsert(row).is_err())
                }
                1 => {
                    row.0.push(Some(DynCell::I64(3)));
                    ("a row with an extra cell", tx.upsert(row).is_err())
                }
                2 => {
                    row.0[self.rng.idx(nk)] = None;
                    ("a row with a null key", tx.upsert(row).is_err())
                }
                3 => {
                    row.0[nk] = None;
                    ("a row with a null in a required column", tx.upsert(row).is_err())
                }
                4 => {
                    let i = self.rng.idx(row.0.len());
                    let Some(c) = row.0[i].clone() else { continue };
                    row.0[i] = Some(wrong_cell(&c));
                    ("a row with a cell of another type", tx.upsert(row).is_err())
                }
                5 => {
                    let (what, b) = bad_batch(&mut self.rng, kind, &rows);
                    (what, tx.upsert_batch(&b).is_err())
                }
                6 => {
                    // Wrong number of key components.
                    let mut cells = kind.dyn_key(&k);
                    if cells.len() > 1 && self.rng.chance(1, 2) {
                        cells.pop();
                    } else {
                        cells.push(DynCell::I64(1));
                    }
                    ("a delete with another number of key parts", tx.delete(tonbo::verif::keys_pub::key_from_cells(cells)).is_err())
                }
                _ => {
                    let mut cells = kind.dyn_key(&k);
                    let i = self.rng.idx(nk);
                    cells[i] = wrong_cell(&cells[i]);
                    let key: KeyOwned = tonbo::verif::keys_pub::key_from_cells(cells);
                    // The type of a key part may be discovered only when the commit encodes it.
                    if tx.delete(key).is_ok() {
                        late = Some("a delete with a key part of another type");
                        break;
                    }
                    ("a delete with a key part of another type", true)
                }
            };
            self.rep.log(format!("tx offered {what}"));
            self.rep.count("refused_mutations", 1);
            let fp = fpn(&[fps(what), view.len() as u64, before as u64, 2]);
            if !self.rep.check(fp, err, || format!("a transaction accepted {what}")) {
                return false;
            }
            let now = tx.len();
            if !self.rep.check(fpn(&[fps(what), 5]), now == before, || format!("a transaction that refused {what} went from {before} to {now} staged mutations")) {
                return false;
            }
            let got = tx.scan().collect().await.map(|b| decode(&b)).map_err(|e| e.to_string());
            if !check_rows(self.rep, &format!("scan in a transaction after it refused {what}"), kind, &view, &got, fp ^ 9) {
                return false;
            }
        }
        let journal = self.sim.fs.journal_len();
        let res = tx.commit().await;
        match late {
            Some(what) => {
                let fp = fpn(&[fps(what), self.state.len() as u64, 6]);
                if !self.rep.check(fp, res.is_err(), || format!("a transaction with {what} committed")) {
                    return false;
                }
                self.unchanged(&format!("a transaction with {what}"), journal).await
            }
            None => {
                if let Err(e) = res {
                    self.rep.violate(format!("a transaction that only staged valid mutations failed to commit: {e}"));
                    return false;
                }
                self.state = view;
                let got = self.sim.scan_all().await;
                check_rows(self.rep, "after the commit", kind, &self.state, &got, fpn(&[self.state.len() as u64, 7]))
            }
        }
    }
    /// Opening the same storage as another table definition is refused; the right one still opens.
    async fn reopen(&mut self) -> bool {
        let kind = self.sim.cfg.kind;
        let mut image = self.sim.fs.image();
        image.retain(|p, _| !p.contains("/leases/"));
        let nk = kind.cols().len();
        let good: Vec<Field> = kind.schema().fields().iter().map(|f| f.as_ref().clone()).collect();
        let mut f = good.clone();
        let mut keys: Vec<usize> = (0..nk).collect();
        let what = match self.rng.below(6) {
            0 => {
                f.pop();
                "a column fewer"
            }
            1 => {
                f.push(Field::new("extra", DataType::Int64, true));
                "a column more"
            }
            2 => {
                let i = self.rng.idx(f.len());
                f[i] = f[i].clone().with_name("renamed");
                "a renamed column"
            }
            3 => {
                f[nk] = Field::new("v", DataType::UInt64, false);
                "a column of another type"
            }
            4 => {
                keys = vec![nk];
                "another key column"
            }
            _ => {
                f[nk + 1] = f[nk + 1].clone().with_nullable(false);
                "a column of other nullability"
            }
        };
        let fs = Arc::new(SimFs::from_image(image.clone()));
        let before = fs.image();
        let res: Result<(), String> = async {
            let b = DbBuilder::from_schema_key_indices(Arc::new(Schema::new(f)), keys).map_err(|e| e.to_string())?;
            let b = b.on_durable_fs(fs.clone(), "/simdb").map_err(|e| e.to_string())?;
            let b: DbBuilder<_> = b;
            b.open().await.map(|_: Db| ()).map_err(|e| e.to_string())
        }
        .await;
        self.rep.log(format!("reopen with {what}: {res:?}"));
        self.rep.count("refused_definitions", 1);
        if !self.rep.check(fpn(&[fps(what), nk as u64, 8]), res.is_err(), || format!("a table opened with {what} than it was created with")) {
            return false;
        }
        // Nothing the table consists of may have changed, and it must still open as itself.
        fs.kill();
        let mut after = fs.image();
        after.retain(|p, _| !p.contains("/leases/"));
        let changed: Vec<String> = before
            .iter()
            .filter(|(p, v)| after.get(*p) != Some(v) && !p.contains("/HEAD"))
            .map(|(p, _)| p.to_string())
            .collect();
        if !self.rep.check(fpn(&[fps(what), 9]), changed.is_empty(), || format!("refusing {what} changed {changed:?}")) {
            return false;
        }
        let cfg = self.sim.cfg.clone();
        match open_image(after, &cfg).await {
            Ok(s) => {
                self.sim = s;
                let got = self.sim.scan_all().await;
                check_rows(self.rep, "after a refused definition and reopening", kind, &self.state, &got, fpn(&[fps(what), self.state.len() as u64, 10]))
            }
            Err(e) => {
                self.rep.violate(format!("after {what} was refused the table itself does not open: {e}"));
                false
            }
        }
    }
}

pub fn case(seed: u64, rep: &mut Report) {
    rt().block_on(async {
        let mut rng = Rng::new(seed);
        let mut cfg = Cfg::random(&mut rng);
        cfg.background = false;
        rep.log(format!("cfg {cfg:?}"));
        let sim = match open(Arc::new(SimFs::new()), &cfg).await {
            Ok(s) => s,
            Err(e) => return rep.violate(format!("initial open failed: {e}")),
        };
        let mut c = Case { rep, rng, sim, state: State::new(), next_v: 0 };
        for _ in 0..4 + c.rng.idx(10) {
            let ok = match c.rng.below(10) {
                0 | 1 => c.valid().await,
                2..=5 => c.bad_ingest().await,
                6..=8 => c.txn().await,
                _ => c.reopen().await,
            };
            if !ok {
                return;
            }
        }
        // Whatever was refused is also absent after recovery.
        let image = c.sim.fs.image();
        let kind = c.sim.cfg.kind;
        match open_image(image, &c.sim.cfg.clone()).await {
            Ok(s) => {
                let got = s.scan_all().await;
                check_rows(c.rep, "after recovery", kind, &c.state, &got, fpn(&[c.state.len() as u64, 11]));
            }
            Err(e) => c.rep.violate(format!("reopening failed: {e}")),
        }
    });
}
