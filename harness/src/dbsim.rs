//! Drives the real database over the simulated file system.
use std::sync::{
    Arc,
    atomic::{AtomicU64, Ordering},
};

use aisle::Expr;
use arrow_array::RecordBatch;
use arrow_schema::SchemaRef;
use datafusion_common::ScalarValue;
use fusio::executor::tokio::TokioExecutor;
use tonbo::{
    db::{CasBackoffConfig, CascadeConfig, CommitAckMode, CompactionOptions, CompactionStrategy, DB, DbBuilder, L0BackpressureConfig, LeveledPlannerConfig, Transaction},
    verif::{
        keys_pub::{KeyOwned, key_from_cells},
        report::{Report, Rng},
        simfs::{Image, SimFs},
        tuning,
    },
};

use crate::model::*;

pub type Db = DB<SimFs, TokioExecutor>;
pub type Txn = Transaction<SimFs, TokioExecutor>;
pub type Rows = Vec<Vec<(String, Option<Cell>)>>;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: Kind,
    pub keys: usize,
    pub minor: Option<usize>,
    pub seg_bytes: Option<usize>,
    pub seal_every: u64,
    pub mem_capacity: Option<usize>,
    pub max_rows: Option<usize>,
    pub l0_trigger: usize,
    pub level_threshold: usize,
    pub background: bool,
    pub bg: u64,
    pub ack: CommitAckMode,
}

impl Cfg {
    pub fn random(rng: &mut Rng) -> Self {
        Cfg {
            kind: *rng.pick(&KINDS),
            keys: *rng.pick(&[3usize, 6, 12, 24, 40]),
            minor: Some(*rng.pick(&[1usize, 1, 2, 3])),
            seg_bytes: *rng.pick(&[None, Some(1), Some(700), Some(2500), Some(6000)]),
            seal_every: *rng.pick(&[0u64, 1, 2, 3, 5]),
            mem_capacity: *rng.pick(&[None, None, Some(2), Some(3), Some(5)]),
            max_rows: *rng.pick(&[None, Some(1), Some(2), Some(3), Some(7)]),
            l0_trigger: *rng.pick(&[1usize, 2, 3]),
            level_threshold: *rng.pick(&[0usize, 1, 2, 4]),
            background: false,
            bg: 0,
            ack: CommitAckMode::Strict,
        }
    }
    pub fn planner(&self) -> LeveledPlannerConfig {
        LeveledPlannerConfig {
            l0_trigger: self.l0_trigger,
            l0_max_inputs: 6,
            l0_max_bytes: None,
            level_thresholds: vec![self.level_threshold.max(1), self.level_threshold.max(1) + 1],
            level_max_bytes: Vec::new(),
            max_inputs_per_task: 10,
            max_task_bytes: None,
        }
    }
}

pub struct Sim {
    pub fs: Arc<SimFs>,
    pub db: Db,
    pub seal: Arc<tonbo::db::verif::ManualSeal>,
    pub cfg: Cfg,
    pub ids: Arc<AtomicU64>,
}

pub static EPOCH: AtomicU64 = AtomicU64::new(1);

pub async fn open(fs: Arc<SimFs>, cfg: &Cfg) -> Result<Sim, String> {
    let seal = tonbo::db::verif::ManualSeal::new();
    seal.every.store(cfg.seal_every, Ordering::SeqCst);
    tuning::set_seal_policy(Some(seal.clone()));
    tuning::set_mem_capacity(cfg.mem_capacity);
    let r = open_inner(fs.clone(), cfg).await;
    tuning::set_seal_policy(None);
    tuning::set_mem_capacity(None);
    let db = r?;
    Ok(Sim {
        fs,
        db,
        seal,
        cfg: cfg.clone(),
        ids: Arc::new(AtomicU64::new(EPOCH.fetch_add(1, Ordering::SeqCst) * 1_000_000)),
    })
}

async fn open_inner(fs: Arc<SimFs>, cfg: &Cfg) -> Result<Db, String> {
    let schema = cfg.kind.schema();
    let n = cfg.kind.cols().len();
    let b = DbBuilder::from_schema_key_indices(schema, (0..n).collect()).map_err(|e| format!("builder: {e}"))?;
    let mut b = b.on_durable_fs(fs, "/simdb").map_err(|e| format!("on_durable_fs: {e}"))?;
    b = match cfg.minor {
        Some(t) => b.with_minor_compaction(t, 0),
        None => b.disable_minor_compaction(),
    };
    if let Some(s) = cfg.seg_bytes {
        b = b.wal_segment_bytes(s);
    }
    b = b.with_commit_ack_mode(cfg.ack);
    if cfg.background {
        // Every option the background worker has, drawn from the case's own seed.
        let mut r = Rng::new(cfg.keys as u64 * 131 + cfg.l0_trigger as u64 * 17 + cfg.seal_every * 7 + cfg.level_threshold as u64 + cfg.bg);
        let ms = std::time::Duration::from_millis;
        let mut planner = cfg.planner();
        planner.l0_max_inputs = *r.pick(&[2usize, 3, 6]);
        planner.l0_max_bytes = *r.pick(&[None, None, Some(1usize), Some(4000)]);
        planner.max_task_bytes = *r.pick(&[None, None, Some(1usize), Some(4000)]);
        let mut o = CompactionOptions::new()
            .strategy(CompactionStrategy::Leveled(planner))
            .max_concurrent_jobs(1 + r.idx(3))
            .queue_capacity(1 + r.idx(3))
            .cascade(CascadeConfig::new(r.idx(4), ms(r.below(3))))
            .cas_backoff(CasBackoffConfig::new(ms(r.below(2)), ms(1 + r.below(4))));
        o = match r.below(4) {
            0 => o,
            n => o.periodic_tick(ms(n)),
        };
        o = if r.chance(1, 2) {
            o.disable_l0_backpressure()
        } else {
            let stop = cfg.l0_trigger + 2 + r.idx(4);
            o.l0_backpressure(L0BackpressureConfig::new(1 + r.idx(stop), stop).slowdown_delay(ms(r.below(3))).stop_delay(ms(1 + r.below(3))))
        };
        if r.chance(1, 4) {
            o = o.max_output_bytes(1 + r.idx(6000));
        }
        if let Some(r) = cfg.max_rows {
            o = o.max_output_rows(r);
        }
        b = b.with_compaction_options(o);
    }
    b.open().await.map_err(|e| format!("open: {e}"))
}

pub async fn open_image(mut image: Image, cfg: &Cfg) -> Result<Sim, String> {
    // A crashed writer's leases block adoption of its last manifest segment until they expire.
    image.retain(|path, _| !path.contains("/leases/"));
    open(Arc::new(SimFs::from_image(image)), cfg).await
}

impl Sim {
    pub fn key(&self, k: &K) -> KeyOwned {
        key_from_cells(self.cfg.kind.dyn_key(k))
    }
    pub async fn scan_all(&self) -> Result<Rows, String> {
        self.db.scan().collect().await.map(|b| decode(&b)).map_err(|e| format!("scan: {e}"))
    }
    pub async fn compact(&self) -> Result<Option<tonbo::db::verif::CompactOutcome>, String> {
        self.db.verif_compact(self.cfg.planner(), self.cfg.max_rows, self.ids.clone()).await
    }
    pub fn arm_seal(&self) {
        self.seal.armed.store(true, Ordering::SeqCst);
    }
}

/// Compare a full scan with the logical state.
pub fn check_rows(rep: &mut Report, what: &str, kind: Kind, want: &State, got: &Result<Rows, String>, fp: u64) -> bool {
    match got {
        Err(e) => rep.check(fp, false, || format!("{what}: read failed: {e}")),
        Ok(rows) => {
            let w = encode_state(kind, want);
            match diff(&w, rows) {
                None => rep.check(fp, true, String::new),
                Some(d) => rep.check(fp, false, || format!("{what}: {d}")),
            }
        }
    }
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("rt")
}

pub fn scalar(c: &Cell, ty: &arrow_schema::DataType) -> ScalarValue {
    match (c, ty) {
        (Cell::S(s), _) => ScalarValue::Utf8(Some(s.clone())),
        (Cell::I(i), arrow_schema::DataType::Int32) => ScalarValue::Int32(Some(*i as i32)),
        (Cell::I(i), _) => ScalarValue::Int64(Some(*i)),
        (Cell::U(u), _) => ScalarValue::UInt64(Some(*u)),
        (Cell::B(b), _) => ScalarValue::Boolean(Some(*b)),
    }
}

// ---- predicates: generator plus independent three-valued reference evaluator -----------------

#[derive(Clone, Debug)]
pub enum Pred {
    Cmp(String, u8, Cell),
    Between(String, Cell, Cell, bool),
    In(String, Vec<Cell>),
    Starts(String, String),
    IsNull(String, bool),
    And(Vec<Pred>),
    Or(Vec<Pred>),
    Not(Box<Pred>),
}

pub fn col_type(kind: Kind, name: &str) -> arrow_schema::DataType {
    kind.schema().field_with_name(name).expect("col").data_type().clone()
}

impl Pred {
    pub fn expr(&self, kind: Kind) -> Expr {
        match self {
            Pred::Cmp(c, op, v) => {
                let s = scalar(v, &col_type(kind, c));
                match op {
                    0 => Expr::eq(c, s),
                    1 => Expr::not_eq(c, s),
                    2 => Expr::lt(c, s),
                    3 => Expr::lt_eq(c, s),
                    4 => Expr::gt(c, s),
                    _ => Expr::gt_eq(c, s),
                }
            }
            Pred::Between(c, lo, hi, incl) => {
                let t = col_type(kind, c);
                Expr::between(c, scalar(lo, &t), scalar(hi, &t), *incl)
            }
            Pred::In(c, vs) => {
                let t = col_type(kind, c);
                Expr::in_list(c, vs.iter().map(|v| scalar(v, &t)).collect())
            }
            Pred::Starts(c, p) => Expr::starts_with(c, p.clone()),
            Pred::IsNull(c, neg) => if *neg { Expr::is_not_null(c) } else { Expr::is_null(c) },
            Pred::And(v) => Expr::and(v.iter().map(|p| p.expr(kind)).collect()),
            Pred::Or(v) => Expr::or(v.iter().map(|p| p.expr(kind)).collect()),
            Pred::Not(p) => Expr::not(p.expr(kind)),
        }
    }
    pub fn eval(&self, row: &[(String, Option<Cell>)]) -> Option<bool> {
        let get = |c: &str| row.iter().find(|x| x.0 == c).expect("column").1.clone();
        match self {
            Pred::Cmp(c, op, v) => get(c).map(|x| match op {
                0 => x == *v,
                1 => x != *v,
                2 => x < *v,
                3 => x <= *v,
                4 => x > *v,
                _ => x >= *v,
            }),
            Pred::Between(c, lo, hi, incl) => get(c).map(|x| {
                if *incl { x >= *lo && x <= *hi } else { x > *lo && x < *hi }
            }),
            Pred::In(c, vs) => get(c).map(|x| vs.contains(&x)),
            Pred::Starts(c, p) => get(c).map(|x| match x {
                Cell::S(s) => s.starts_with(p.as_str()),
                _ => false,
            }),
            Pred::IsNull(c, neg) => Some(get(c).is_none() != *neg),
            Pred::And(v) => {
                let mut out = Some(true);
                for p in v {
                    match p.eval(row) {
                        Some(false) => return Some(false),
                        None => out = None,
                        _ => {}
                    }
                }
                out
            }
            Pred::Or(v) => {
                let mut out = Some(false);
                for p in v {
                    match p.eval(row) {
                        Some(true) => return Some(true),
                        None => out = None,
                        _ => {}
                    }
                }
                out
            }
            Pred::Not(p) => p.eval(row).map(|b| !b),
        }
    }
    pub fn gen_value(rng: &mut Rng, cfg: &Cfg, col: &str, max_v: i64) -> Cell {
        let names = cfg.kind.key_names();
        if let Some(pos) = names.iter().position(|n| n == col) {
            return cfg.kind.key(rng.idx(cfg.keys + 4))[pos].clone();
        }
        match col {
            "v" => Cell::I(rng.range(-1, max_v + 1)),
            "g" => Cell::I(rng.range(-4, 4)),
            _ => Cell::S(rng.pick(&["", "s0", "s1", "s3", "s5", "x", "xxxxxxxx", "t"]).to_string()),
        }
    }
    pub fn generate(rng: &mut Rng, cfg: &Cfg, max_v: i64, depth: u32, cols: &[String]) -> Pred {
        if depth > 0 && rng.chance(2, 5) {
            let n = 1 + rng.idx(3);
            let kids: Vec<Pred> = (0..n).map(|_| Pred::generate(rng, cfg, max_v, depth - 1, cols)).collect();
            return match rng.below(5) {
                0 | 1 => Pred::And(kids),
                2 | 3 => Pred::Or(kids),
                _ => Pred::Not(Box::new(kids.into_iter().next().unwrap())),
            };
        }
        let c = rng.pick(cols).clone();
        let is_str = col_type(cfg.kind, &c) == arrow_schema::DataType::Utf8;
        match rng.below(10) {
            0..=4 => Pred::Cmp(c.clone(), rng.below(6) as u8, Pred::gen_value(rng, cfg, &c, max_v)),
            5 | 6 => {
                let a = Pred::gen_value(rng, cfg, &c, max_v);
                let b = Pred::gen_value(rng, cfg, &c, max_v);
                let (a, b) = if a <= b || rng.chance(1, 6) { (a, b) } else { (b, a) };
                Pred::Between(c, a, b, rng.chance(1, 2))
            }
            7 => Pred::In(c.clone(), (0..1 + rng.idx(4)).map(|_| Pred::gen_value(rng, cfg, &c, max_v)).collect()),
            8 if is_str => {
                let Cell::S(s) = Pred::gen_value(rng, cfg, &c, max_v) else { unreachable!() };
                let n = rng.idx(s.chars().count() + 1);
                Pred::Starts(c, s.chars().take(n).collect())
            }
            _ => Pred::IsNull(c, rng.chance(1, 2)),
        }
    }
}

/// A generated query: predicate, projection, limit.
#[derive(Clone, Debug)]
pub struct Query {
    pub pred: Option<Pred>,
    pub proj: Option<Vec<String>>,
    pub limit: Option<usize>,
}

impl Query {
    pub fn generate(rng: &mut Rng, cfg: &Cfg, max_v: i64, cols: &[String]) -> Query {
        let all: Vec<String> = cfg.kind.schema().fields().iter().map(|f| f.name().clone()).collect();
        Query {
            pred: rng.chance(4, 5).then(|| Pred::generate(rng, cfg, max_v, 3, cols)),
            proj: rng.chance(1, 2).then(|| {
                let mut c: Vec<String> = all.iter().filter(|_| rng.chance(1, 2)).cloned().collect();
                if c.is_empty() {
                    c.push(rng.pick(&all).clone());
                }
                c
            }),
            limit: rng.chance(2, 5).then(|| rng.idx(8)),
        }
    }
    pub fn proj_schema(&self, kind: Kind) -> Option<SchemaRef> {
        self.proj.as_ref().map(|cols| {
            let s = kind.schema();
            Arc::new(arrow_schema::Schema::new(
                cols.iter().map(|c| s.field_with_name(c).expect("c").clone()).collect::<Vec<_>>(),
            ))
        })
    }
    pub fn reference(&self, kind: Kind, st: &State) -> Rows {
        let mut out = Vec::new();
        for (k, r) in st {
            let row = encode(kind, k, r);
            if let Some(p) = &self.pred {
                if p.eval(&row) != Some(true) {
                    continue;
                }
            }
            if let Some(l) = self.limit {
                if out.len() >= l {
                    break;
                }
            }
            out.push(match &self.proj {
                None => row,
                Some(cols) => cols
                    .iter()
                    .map(|c| row.iter().find(|x| &x.0 == c).expect("col").clone())
                    .collect(),
            });
        }
        out
    }
}

macro_rules! apply_query {
    ($scan:expr, $q:expr, $kind:expr) => {{
        let mut s = $scan;
        if let Some(p) = &$q.pred {
            s = s.filter(p.expr($kind));
        }
        if let Some(p) = $q.proj_schema($kind) {
            s = s.projection(p);
        }
        if let Some(l) = $q.limit {
            s = s.limit(l);
        }
        s
    }};
}
pub(crate) use apply_query;

pub fn shape(b: &[RecordBatch]) -> usize {
    b.iter().map(|b| b.num_rows()).sum()
}
