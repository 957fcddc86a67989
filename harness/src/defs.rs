//! Table definitions at the edge: whatever definition a table opens with must work - every value
//! written comes back unchanged, from every layer and after recovery - and whatever cannot work
//! must be refused when the table is opened, not when its rows are written or read.
use std::{collections::BTreeMap, sync::Arc};

use arrow_array::{ArrayRef, BooleanArray, Int64Array, RecordBatch, StringArray, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use tonbo::{
    db::{DB, DbBuilder},
    verif::{
        report::{Report, Rng, fpn, fps},
        simfs::SimFs,
        tuning,
    },
};

use crate::{dbsim::*, model::*};

const NAMES: [&str; 14] = ["id", "", " ", "_commit_ts", "_tombstone", "v", "V", "é", "a.b", "a,b", "[x]", "\"q\"", "__internal", "commit_ts"];

#[derive(Clone, Debug)]
struct Def {
    cols: Vec<(String, u8, bool)>,
    keys: Vec<usize>,
    /// How the keys are named: by index, by name, by field markers, by schema metadata.
    how: u8,
}

fn ty(t: u8) -> DataType {
    match t {
        0 => DataType::Int64,
        1 => DataType::Utf8,
        2 => DataType::UInt64,
        _ => DataType::Boolean,
    }
}

impl Def {
    fn random(rng: &mut Rng) -> Self {
        let n = 1 + rng.idx(4);
        let hostile = rng.chance(3, 4);
        let cols: Vec<(String, u8, bool)> = (0..n)
            .map(|i| {
                let name = if hostile { rng.pick(&NAMES).to_string() } else { format!("c{i}") };
                (name, rng.below(4) as u8, rng.chance(1, 4))
            })
            .collect();
        let mut keys: Vec<usize> = (0..1 + rng.idx(2)).map(|_| rng.idx(n)).collect();
        if rng.chance(1, 2) {
            keys.dedup();
        }
        if rng.chance(1, 12) {
            keys = vec![];
        }
        if rng.chance(1, 12) {
            keys.push(n);
        }
        Def { cols, keys, how: rng.below(4) as u8 }
    }
    fn schema(&self) -> SchemaRef {
        let mut fields = Vec::new();
        for (i, (n, t, null)) in self.cols.iter().enumerate() {
            let mut f = Field::new(n, ty(*t), *null);
            if self.how == 2 {
                if let Some(ord) = self.keys.iter().position(|k| *k == i) {
                    let v = if self.keys.len() == 1 { "true".to_string() } else { format!("{ord}") };
                    f = f.with_metadata([("tonbo.key".to_string(), v)].into());
                }
            }
            fields.push(f);
        }
        let mut md = std::collections::HashMap::new();
        if self.how == 3 {
            let names: Vec<String> = self.keys.iter().filter_map(|k| self.cols.get(*k)).map(|c| c.0.clone()).collect();
            md.insert("tonbo.keys".to_string(), serde_json::to_string(&names).expect("json"));
        }
        Arc::new(Schema::new_with_metadata(fields, md))
    }
    /// The definition is one every table must accept.
    fn plain(&self) -> bool {
        let mut names: Vec<&String> = self.cols.iter().map(|c| &c.0).collect();
        names.sort();
        names.windows(2).all(|w| w[0] != w[1])
            && names.iter().all(|n| !n.is_empty() && *n != "_commit_ts" && *n != "_tombstone" && n.as_str() != " ")
            && !self.keys.is_empty()
            && self.keys.iter().all(|k| *k < self.cols.len() && !self.cols[*k].2)
            && !(self.keys.len() > 1 && self.keys[0] == self.keys[1])
    }
    /// What the caller asked for cannot be expressed by this way of naming keys.
    fn sayable(&self) -> bool {
        match self.how {
            0 => true,
            1 => self.keys.len() == 1 && self.keys[0] < self.cols.len(),
            _ => !self.keys.is_empty() && self.keys.iter().all(|k| *k < self.cols.len()) && !(self.keys.len() > 1 && self.keys[0] == self.keys[1]),
        }
    }
    fn batch(&self, rows: &[Vec<Option<Cell>>]) -> RecordBatch {
        let cols: Vec<ArrayRef> = self
            .cols
            .iter()
            .enumerate()
            .map(|(i, (_, t, _))| -> ArrayRef {
                let it = rows.iter().map(|r| r[i].clone());
                match t {
                    0 => Arc::new(Int64Array::from_iter(it.map(|c| c.map(|c| if let Cell::I(v) = c { v } else { 0 })))),
                    1 => Arc::new(StringArray::from_iter(it.map(|c| c.map(|c| if let Cell::S(v) = c { v } else { String::new() })))),
                    2 => Arc::new(UInt64Array::from_iter(it.map(|c| c.map(|c| if let Cell::U(v) = c { v } else { 0 })))),
                    _ => Arc::new(BooleanArray::from_iter(it.map(|c| c.map(|c| if let Cell::B(v) = c { v } else { false })))),
                }
            })
            .collect();
        RecordBatch::try_new(self.schema(), cols).expect("definition batch")
    }
    fn row(&self, rng: &mut Rng) -> Vec<Option<Cell>> {
        self.cols
            .iter()
            .enumerate()
            .map(|(i, (_, t, null))| {
                if *null && !self.keys.contains(&i) && rng.chance(1, 3) {
                    return None;
                }
                Some(match t {
                    0 => Cell::I(*rng.pick(&[0, 1, -1, i64::MAX, i64::MIN, 5, 6])),
                    1 => Cell::S(rng.pick(&["", "a", "ab", "b", "é"]).to_string()),
                    2 => Cell::U(*rng.pick(&[0, 1, u64::MAX, 7])),
                    _ => Cell::B(rng.chance(1, 2)),
                })
            })
            .collect()
    }
}

fn builder(def: &Def) -> Result<DbBuilder, String> {
    let s = def.schema();
    match def.how {
        0 => DbBuilder::from_schema_key_indices(s, def.keys.clone()),
        1 => DbBuilder::from_schema_key_name(s, &def.cols[def.keys[0]].0),
        2 => DbBuilder::from_schema_metadata(s),
        _ => DbBuilder::from_schema(s),
    }
    .map_err(|e| e.to_string())
}

type MemDb = DB<fusio::impls::mem::fs::InMemoryFs, fusio::executor::tokio::TokioExecutor>;

enum Table {
    Sim(Db, Arc<SimFs>),
    Mem(MemDb),
}
impl Table {
    async fn open(def: &Def, fs: Option<Arc<SimFs>>, every: u64) -> Result<Table, String> {
        let seal = tonbo::db::verif::ManualSeal::new();
        seal.every.store(every, std::sync::atomic::Ordering::SeqCst);
        tuning::set_seal_policy(Some(seal));
        let r = Self::open_inner(def, fs).await;
        tuning::set_seal_policy(None);
        r
    }
    async fn open_inner(def: &Def, fs: Option<Arc<SimFs>>) -> Result<Table, String> {
        let b = builder(def)?;
        match fs {
            Some(fs) => {
                let db = b.on_durable_fs(fs.clone(), "/simdb").map_err(|e| e.to_string())?.with_minor_compaction(1, 0).open().await.map_err(|e| e.to_string())?;
                Ok(Table::Sim(db, fs))
            }
            None => Ok(Table::Mem(b.in_memory("defs").map_err(|e| e.to_string())?.open().await.map_err(|e| e.to_string())?)),
        }
    }
    async fn ingest(&self, b: RecordBatch) -> Result<(), String> {
        match self {
            Table::Sim(d, _) => d.ingest(b).await.map_err(|e| e.to_string()),
            Table::Mem(d) => d.ingest(b).await.map_err(|e| e.to_string()),
        }
    }
    async fn staged(&self, b: RecordBatch) -> Result<(), String> {
        macro_rules! go {
            ($d:expr) => {{
                let mut tx = $d.begin_transaction().await.map_err(|e| e.to_string())?;
                tx.upsert_batch(&b).map_err(|e| e.to_string())?;
                tx.commit().await.map_err(|e| e.to_string())
            }};
        }
        match self {
            Table::Sim(d, _) => go!(d),
            Table::Mem(d) => go!(d),
        }
    }
    async fn tombs(&self, b: RecordBatch, t: Vec<bool>) -> Result<(), String> {
        match self {
            Table::Sim(d, _) => d.ingest_with_tombstones(b, t).await.map_err(|e| e.to_string()),
            Table::Mem(d) => d.ingest_with_tombstones(b, t).await.map_err(|e| e.to_string()),
        }
    }
    async fn scan(&self) -> Result<Vec<Vec<Option<Cell>>>, String> {
        let batches = match self {
            Table::Sim(d, _) => d.scan().collect().await.map_err(|e| e.to_string())?,
            Table::Mem(d) => d.scan().collect().await.map_err(|e| e.to_string())?,
        };
        Ok(decode(&batches).into_iter().map(|r| r.into_iter().map(|c| c.1).collect()).collect())
    }
}

type Model = BTreeMap<Vec<Cell>, Vec<Option<Cell>>>;

async fn check(rep: &mut Report, t: &Table, m: &Model, def: &Def, when: &str) -> bool {
    let want: Vec<&Vec<Option<Cell>>> = m.values().collect();
    let got = t.scan().await;
    let ok = got.as_ref().is_ok_and(|g| g.iter().collect::<Vec<_>>() == want);
    rep.check(fpn(&[fps(when), fps(&format!("{:?}", def.cols)), m.len() as u64]), ok, || format!("{when}: a table that opened as {def:?} reads {got:?}, written {want:?}"))
}

pub fn case(seed: u64, rep: &mut Report) {
    rt().block_on(async {
        let mut rng = Rng::new(seed);
        let def = Def::random(&mut rng);
        rep.log(format!("{def:?}"));
        if !def.sayable() {
            return;
        }
        let fs = rng.chance(2, 3).then(|| Arc::new(SimFs::new()));
        let every = rng.below(4);
        let table = match Table::open(&def, fs, every).await {
            Ok(t) => t,
            Err(e) => {
                rep.count("definitions_refused", 1);
                rep.log(format!("refused: {e}"));
                rep.check(fpn(&[fps(&format!("{:?}", def)), 1]), !def.plain(), || format!("an ordinary definition was refused: {def:?}: {e}"));
                return;
            }
        };
        rep.count("definitions_opened", 1);
        let mut table = table;
        let mut model = Model::new();
        for _ in 0..3 + rng.idx(6) {
            let rows: Vec<Vec<Option<Cell>>> = (0..1 + rng.idx(4)).map(|_| def.row(&mut rng)).collect();
            let key = |r: &Vec<Option<Cell>>| -> Vec<Cell> { def.keys.iter().map(|k| r[*k].clone().expect("key")).collect() };
            rep.log(format!("write {rows:?}"));
            let res = if rng.chance(1, 3) {
                let tombs: Vec<bool> = rows.iter().map(|_| rng.chance(1, 2)).collect();
                let res = table.tombs(def.batch(&rows), tombs.clone()).await;
                for r in &rows {
                    model.insert(key(r), r.clone());
                }
                for (r, t) in rows.iter().zip(&tombs) {
                    if *t {
                        model.remove(&key(r));
                    }
                }
                res
            } else {
                let res = if rng.chance(1, 3) { table.staged(def.batch(&rows)).await } else { table.ingest(def.batch(&rows)).await };
                for r in &rows {
                    model.insert(key(r), r.clone());
                }
                res
            };
            if !rep.check(fpn(&[fps(&format!("{:?}", def.cols)), 2]), res.is_ok(), || format!("a table opened as {def:?} but refuses its rows: {res:?}")) {
                return;
            }
            if !check(rep, &table, &model, &def, "after a write").await {
                return;
            }
            if let Table::Sim(db, fs) = &table {
                if let Ok(v) = db.verif_version().await {
                    rep.count("tables_seen", v.ssts.len() as u64);
                }
                if rng.chance(1, 4) {
                    let mut image = fs.image();
                    image.retain(|p, _| !p.contains("/leases/"));
                    table = match Table::open(&def, Some(Arc::new(SimFs::from_image(image))), every).await {
                        Ok(t) => t,
                        Err(e) => return rep.violate(format!("a table opened as {def:?} does not open again: {e}")),
                    };
                    if !check(rep, &table, &model, &def, "after reopening").await {
                        return;
                    }
                }
            }
        }
    });
}
