//! Concurrent clients over the full database. Every call is logged with its interval; the final
//! state, what scans returned and what crashes recover are judged against the log: each observed
//! value must come from a write that nothing had overwritten yet, whole writes must fit one total
//! order consistent with real time, and transactions must conflict exactly when they have to.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering},
    },
};

use futures::future::join_all;
use tonbo::verif::{
    report::{Report, Rng, fpn, yields},
    simfs::{Image, SimFs},
};

use crate::{dbsim::*, model::*};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Out {
    Pending,
    Acked,
    Conflict,
    Aborted,
}

#[derive(Clone, Debug)]
struct Op {
    what: String,
    /// Interval of the write call itself (for transactions: of the commit).
    start: u64,
    end: u64,
    /// Journal length when the call started and when it was acknowledged.
    jstart: usize,
    jend: usize,
    /// Transactions: interval of begin.
    begin: Option<(u64, u64)>,
    writes: BTreeMap<K, Option<i64>>,
    out: Out,
}

struct Scan {
    start: u64,
    end: u64,
    rows: Rows,
}

#[derive(Default)]
struct Log {
    clock: u64,
    ops: Vec<Op>,
    scans: Vec<Scan>,
    errors: Vec<String>,
    refused_compactions: Vec<String>,
}

struct Shared {
    sim: Sim,
    log: Mutex<Log>,
    next_v: AtomicI64,
    /// Clients still running.
    live: AtomicU64,
    stop: AtomicBool,
}

impl Shared {
    fn tick(&self) -> u64 {
        let mut l = self.log.lock().unwrap();
        l.clock += 1;
        l.clock
    }
    fn open_op(&self, what: &str, writes: BTreeMap<K, Option<i64>>, begin: Option<(u64, u64)>) -> usize {
        let j = self.sim.fs.journal_len();
        let mut l = self.log.lock().unwrap();
        l.clock += 1;
        let start = l.clock;
        l.ops.push(Op { what: what.to_string(), start, end: u64::MAX, jstart: j, jend: usize::MAX, begin, writes, out: Out::Pending });
        l.ops.len() - 1
    }
    fn close_op(&self, i: usize, out: Out) {
        let j = self.sim.fs.journal_len();
        let mut l = self.log.lock().unwrap();
        l.clock += 1;
        let end = l.clock;
        let op = &mut l.ops[i];
        op.end = end;
        op.jend = j;
        op.out = out;
    }
    fn row(&self, rng: &mut Rng) -> Row {
        let mut v = self.next_v.fetch_add(1, Ordering::SeqCst);
        gen_row(rng, &mut v)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// One thread, interleaved at storage calls; nothing leaves the memtable. Scans and conflicts are judged.
    Memory,
    /// One thread; memtables are sealed, flushed and compacted while clients write.
    Moving,
    /// As `Moving`, on several threads.
    Threads,
}

async fn client(sh: Arc<Shared>, mut rng: Rng, mode: Mode, ops: usize) {
    let kind = sh.sim.cfg.kind;
    let nk = sh.sim.cfg.keys;
    for _ in 0..ops {
        if sh.stop.load(Ordering::SeqCst) {
            break;
        }
        if rng.chance(1, 3) {
            yields(rng.below(60) as u32).await;
        }
        let mut rows: BTreeMap<K, (Row, bool)> = BTreeMap::new();
        for _ in 0..1 + rng.idx(3) {
            let r = sh.row(&mut rng);
            rows.insert(kind.key(rng.idx(nk)), (r, rng.chance(1, 4)));
        }
        let writes: BTreeMap<K, Option<i64>> = rows.iter().map(|(k, (r, d))| (k.clone(), (!d).then_some(r.v))).collect();
        match rng.below(if mode == Mode::Memory { 10 } else { 7 }) {
            0..=2 => {
                let batch = kind.batch(&rows.iter().map(|(k, (r, _))| (k.clone(), r.clone())).collect::<Vec<_>>());
                let tombs: Vec<bool> = rows.values().map(|x| x.1).collect();
                let i = sh.open_op("ingest", writes, None);
                let r = if tombs.iter().any(|t| *t) { sh.sim.db.ingest_with_tombstones(batch, tombs).await } else { sh.sim.db.ingest(batch).await };
                match r {
                    Ok(()) => sh.close_op(i, Out::Acked),
                    Err(e) => sh.log.lock().unwrap().errors.push(format!("ingest failed: {e}")),
                }
            }
            3..=6 => {
                let b0 = sh.tick();
                let mut tx = match sh.sim.db.begin_transaction().await {
                    Ok(t) => t,
                    Err(e) => {
                        sh.log.lock().unwrap().errors.push(format!("begin failed: {e}"));
                        return;
                    }
                };
                let b1 = sh.tick();
                if rng.chance(1, 2) {
                    yields(rng.below(200) as u32).await;
                }
                for (k, (r, d)) in &rows {
                    let res = if *d { tx.delete(sh.sim.key(k)) } else { tx.upsert(kind.dyn_row(k, r)) };
                    if let Err(e) = res {
                        sh.log.lock().unwrap().errors.push(format!("staging failed: {e}"));
                    }
                }
                let i = sh.open_op("txn", writes, Some((b0, b1)));
                if rng.chance(1, 8) {
                    tx.abort();
                    sh.close_op(i, Out::Aborted);
                    continue;
                }
                match tx.commit().await {
                    Ok(()) => sh.close_op(i, Out::Acked),
                    Err(e) if format!("{e:?}").contains("WriteConflict") => sh.close_op(i, Out::Conflict),
                    Err(e) => sh.log.lock().unwrap().errors.push(format!("commit failed: {e}")),
                }
            }
            _ => {
                let start = sh.tick();
                let got = sh.sim.scan_all().await;
                let end = sh.tick();
                let mut l = sh.log.lock().unwrap();
                match got {
                    Ok(rows) => l.scans.push(Scan { start, end, rows }),
                    Err(e) => l.errors.push(format!("scan failed: {e}")),
                }
            }
        }
    }
    sh.live.fetch_sub(1, Ordering::SeqCst);
}

/// Seals, flushes and compacts while clients run.
async fn mover(sh: Arc<Shared>, mut rng: Rng) {
    let mut n = 0;
    while sh.live.load(Ordering::SeqCst) > 0 && n < 40 {
        yields(1 + rng.below(120) as u32).await;
        n += 1;
        match rng.below(4) {
            0 | 1 => sh.sim.arm_seal(),
            2 => {
                if let Err(e) = sh.sim.db.verif_minor().await {
                    sh.log.lock().unwrap().errors.push(format!("flush failed: {e}"));
                }
            }
            _ => {
                if let Err(e) = sh.sim.compact().await {
                    // Another compaction took its tables: it has to be planned anew.
                    sh.log.lock().unwrap().refused_compactions.push(e.to_string());
                }
            }
        }
    }
}

/// The log as seen from an instant: which writes count, and which must be in effect.
struct View<'a> {
    ops: Vec<&'a Op>,
    must: Vec<bool>,
}

impl View<'_> {
    /// Was `w` certainly overwritten at `k`?
    fn superseded(&self, w: usize, k: &K) -> bool {
        (0..self.ops.len()).any(|o| o != w && self.must[o] && self.ops[o].writes.contains_key(k) && self.ops[w].end < self.ops[o].start)
    }
    /// Judge an observed state; `Err` says what no order of the writes explains.
    fn explain(&self, kind: Kind, universe: &[K], rows: &Rows) -> Result<usize, String> {
        let n = self.ops.len();
        let mut seen: BTreeMap<Vec<Option<Cell>>, i64> = BTreeMap::new();
        let nkey = kind.key_names().len();
        let mut last: Option<Vec<Option<Cell>>> = None;
        for r in rows {
            let k: Vec<Option<Cell>> = r.iter().take(nkey).map(|c| c.1.clone()).collect();
            if last.as_ref().is_some_and(|l| *l >= k) {
                return Err(format!("keys out of order or repeated at {k:?}"));
            }
            let v = match r.iter().find(|c| c.0 == "v") {
                Some((_, Some(Cell::I(v)))) => *v,
                _ => return Err("row without a value".into()),
            };
            last = Some(k.clone());
            seen.insert(k, v);
        }
        let mut winner: BTreeMap<&K, usize> = BTreeMap::new();
        for k in universe {
            let enc: Vec<Option<Cell>> = k.iter().cloned().map(Some).collect();
            match seen.remove(&enc) {
                Some(v) => {
                    let Some(w) = (0..n).find(|o| self.ops[*o].writes.get(k) == Some(&Some(v))) else {
                        return Err(format!("key {k:?} shows value {v}, which no successful or pending write put there"));
                    };
                    if self.superseded(w, k) {
                        return Err(format!("key {k:?} shows value {v} of {:?}, which was overwritten", self.ops[w]));
                    }
                    winner.insert(k, w);
                }
                None => {
                    let ok = (0..n).any(|o| self.ops[o].writes.get(k) == Some(&None) && !self.superseded(o, k));
                    if !ok {
                        let ws: Vec<_> = self.ops.iter().filter(|o| o.writes.contains_key(k)).collect();
                        return Err(format!("key {k:?} is missing; its writes: {ws:?}"));
                    }
                }
            }
        }
        if let Some((k, v)) = seen.into_iter().next() {
            return Err(format!("unexpected row {k:?} = {v}"));
        }
        // One total order: real time, and every other included write of a key before its winner.
        let mut inc = self.must.clone();
        for w in winner.values() {
            inc[*w] = true;
        }
        let mut edges: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
        for a in 0..n {
            for b in 0..n {
                if a != b && inc[a] && inc[b] && self.ops[a].end < self.ops[b].start {
                    edges[a].insert(b);
                }
            }
        }
        for (k, w) in &winner {
            for o in 0..n {
                if o != *w && inc[o] && self.ops[o].writes.contains_key(*k) {
                    edges[o].insert(*w);
                }
            }
        }
        let mut state = vec![0u8; n];
        fn dfs(v: usize, edges: &[BTreeSet<usize>], state: &mut [u8]) -> Option<usize> {
            state[v] = 1;
            for &x in &edges[v] {
                if state[x] == 1 || (state[x] == 0 && dfs(x, edges, state).is_some()) {
                    return Some(x);
                }
            }
            state[v] = 2;
            None
        }
        for v in 0..n {
            if state[v] == 0 {
                if let Some(x) = dfs(v, &edges, &mut state) {
                    let cyc: Vec<_> = (0..n).filter(|i| state[*i] == 1).map(|i| self.ops[i].clone()).collect();
                    return Err(format!("no order of whole writes explains the state (through {:?}): {cyc:?}", self.ops[x].what));
                }
            }
        }
        Ok(edges.iter().map(BTreeSet::len).sum())
    }
}

pub fn case(seed: u64, rep: &mut Report, mode: Mode) {
    let rt = match mode {
        Mode::Threads => tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().expect("rt"),
        _ => rt(),
    };
    rt.block_on(run(seed, rep, mode));
    rt.shutdown_background();
}

async fn run(seed: u64, rep: &mut Report, mode: Mode) {
    let mut rng = Rng::new(seed);
    let mut cfg = Cfg::random(&mut rng);
    cfg.keys = *rng.pick(&[2usize, 3, 5, 8]);
    if mode == Mode::Memory {
        cfg.seal_every = 0;
        cfg.mem_capacity = None;
    } else if rng.chance(1, 4) {
        cfg.background = true;
        cfg.bg = rng.next() >> 16;
    }
    rep.log(format!("{mode:?} cfg {cfg:?}"));
    let max_yield = *rng.pick(&[0u32, 3, 20, 80]);
    let fs = Arc::new(SimFs::new().with_yields(rng.next(), max_yield));
    let sim = match open(fs.clone(), &cfg).await {
        Ok(s) => s,
        Err(e) => {
            rep.violate(format!("initial open failed: {e}"));
            return;
        }
    };
    let kind = cfg.kind;
    let universe: Vec<K> = (0..cfg.keys).map(|i| kind.key(i)).collect::<BTreeSet<_>>().into_iter().collect();
    let sh = Arc::new(Shared {
        sim,
        log: Mutex::new(Log::default()),
        next_v: AtomicI64::new(0),
        live: AtomicU64::new(0),
        stop: AtomicBool::new(false),
    });
    // Everything starts from one write that covers all keys.
    {
        let mut rows = Vec::new();
        let mut tombs = Vec::new();
        let mut writes = BTreeMap::new();
        for k in &universe {
            let r = sh.row(&mut rng);
            let dead = rng.chance(1, 3);
            writes.insert(k.clone(), (!dead).then_some(r.v));
            rows.push((k.clone(), r));
            tombs.push(dead);
        }
        let i = sh.open_op("initial", writes, None);
        if let Err(e) = sh.sim.db.ingest_with_tombstones(kind.batch(&rows), tombs).await {
            rep.violate(format!("initial ingest failed: {e}"));
            return;
        }
        sh.close_op(i, Out::Acked);
    }
    let clients = 2 + rng.idx(4);
    let per = 2 + rng.idx(5);
    sh.live.store(clients as u64, Ordering::SeqCst);
    if mode == Mode::Threads {
        // Scans are not Send: every client has its own thread and runtime.
        let mut hs = Vec::new();
        for n in 0..=clients {
            let (sh, rng, h) = (sh.clone(), rng.fork(), tokio::runtime::Handle::current());
            hs.push(std::thread::spawn(move || {
                let _in = h.enter();
                let own = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("rt");
                if n < clients { own.block_on(client(sh, rng, mode, per)) } else { own.block_on(mover(sh, rng)) }
            }));
        }
        for h in hs {
            if tokio::task::block_in_place(|| h.join()).is_err() {
                rep.violate("a client thread panicked".to_string());
                return;
            }
        }
    } else {
        let mut fs: Vec<std::pin::Pin<Box<dyn Future<Output = ()>>>> = Vec::new();
        for _ in 0..clients {
            fs.push(Box::pin(client(sh.clone(), rng.fork(), mode, per)));
        }
        if mode == Mode::Moving {
            fs.push(Box::pin(mover(sh.clone(), rng.fork())));
        }
        join_all(fs).await;
    }
    let log = std::mem::take(&mut *sh.log.lock().unwrap());
    for o in &log.ops {
        rep.log(format!("{o:?}"));
    }
    for e in &log.errors {
        rep.violate(format!("without any fault: {e}"));
        return;
    }
    judge(rep, &sh, &log, mode, &universe, &mut rng).await;
}

async fn judge(rep: &mut Report, sh: &Shared, log: &Log, mode: Mode, universe: &[K], rng: &mut Rng) {
    let kind = sh.sim.cfg.kind;
    let shape = fpn(&[log.ops.len() as u64, log.ops.iter().map(|o| o.out as u64).sum(), rep.case_seed]);
    rep.count("concurrent_calls", log.ops.len() as u64);
    rep.count("overlapping_pairs", {
        let mut n = 0;
        for a in &log.ops {
            n += log.ops.iter().filter(|b| a.start < b.start && b.start < a.end).count() as u64;
        }
        n
    });
    rep.count("conflicts", log.ops.iter().filter(|o| o.out == Out::Conflict).count() as u64);
    // Final state.
    let ops: Vec<&Op> = log.ops.iter().filter(|o| o.out == Out::Acked).collect();
    let must = vec![true; ops.len()];
    let v = View { ops, must };
    let got = sh.sim.scan_all().await;
    match &got {
        Err(e) => {
            rep.violate(format!("final scan failed: {e}"));
            return;
        }
        Ok(rows) => {
            let r = v.explain(kind, universe, rows);
            if !rep.check(shape, r.is_ok(), || format!("final state: {}", r.unwrap_err())) {
                return;
            }
        }
    }
    if mode == Mode::Memory {
        for (i, s) in log.scans.iter().enumerate() {
            // Not total-order judged: a scan may overlap writes that are being applied.
            let ops: Vec<&Op> = log.ops.iter().filter(|o| matches!(o.out, Out::Acked) && o.start < s.end).collect();
            let r = scan_ok(&ops, s, kind, universe);
            if !rep.check(fpn(&[shape, i as u64, s.rows.len() as u64]), r.is_none(), || format!("scan [{}, {}]: {}", s.start, s.end, r.unwrap())) {
                return;
            }
        }
        rep.count("scans_judged", log.scans.len() as u64);
        if !conflicts_ok(rep, log, shape) {
            return;
        }
    }
    // Crashes at and between the journal's mutations.
    let (base, journal) = sh.sim.fs.journal();
    sh.sim.fs.kill();
    let points = if rep.thorough { 24 } else { 6 };
    let mut at: BTreeSet<usize> = (0..points).map(|_| rng.idx(journal.len() + 1)).collect();
    at.insert(journal.len());
    let mut image: Image = base;
    let mut cfg = sh.sim.cfg.clone();
    cfg.background = false;
    for i in 0..=journal.len() {
        if at.contains(&i) {
            let Some(first) = log.ops.first() else { return };
            if first.jend <= i {
                let ops: Vec<&Op> = log.ops.iter().filter(|o| o.jstart <= i && matches!(o.out, Out::Acked)).collect();
                let must: Vec<bool> = ops.iter().map(|o| o.jend <= i).collect();
                let v = View { ops, must };
                rep.count("crash_points", 1);
                match open_image(image.clone(), &cfg).await {
                    Err(e) => {
                        rep.violate(format!("crash after mutation {i}: reopen failed: {e}"));
                        return;
                    }
                    Ok(s) => {
                        let got = s.scan_all().await;
                        let r = match &got {
                            Err(e) => Err(format!("scan failed: {e}")),
                            Ok(rows) => v.explain(kind, universe, rows),
                        };
                        if r.is_err() {
                            for (j, m) in journal.iter().enumerate().take(i) {
                                rep.log(format!("mutation {j}: {}", m.brief()));
                            }
                        }
                        if !rep.check(fpn(&[shape, i as u64, 9]), r.is_ok(), || format!("crash after mutation {i} of {}: {}", journal.len(), r.unwrap_err())) {
                            return;
                        }
                    }
                }
            }
        }
        if i < journal.len() {
            journal[i].apply(&mut image);
        }
    }
    rep.count("histories", 1);
    rep.count("refused compactions", log.refused_compactions.len() as u64);
    if rep.samples.len() < 2 {
        rep.sample(format!("{mode:?}: {} calls, {} conflicts, {} scans, {} journal mutations", log.ops.len(), log.ops.iter().filter(|o| o.out == Out::Conflict).count(), log.scans.len(), journal.len()));
    }
}

/// Every row a scan returned (and every key it missed) agrees with some moment of its interval.
fn scan_ok(ops: &[&Op], s: &Scan, kind: Kind, universe: &[K]) -> Option<String> {
    let nkey = kind.key_names().len();
    let over = |w: &Op, k: &K| ops.iter().any(|o| o.writes.contains_key(k) && w.end < o.start && o.end < s.start);
    let mut seen = BTreeMap::new();
    for r in &s.rows {
        let k: K = r.iter().take(nkey).filter_map(|c| c.1.clone()).collect();
        let Some((_, Some(Cell::I(v)))) = r.iter().find(|c| c.0 == "v") else { return Some("row without value".into()) };
        if seen.insert(k.clone(), *v).is_some() {
            return Some(format!("key {k:?} twice"));
        }
    }
    for k in universe {
        match seen.remove(k) {
            Some(v) => match ops.iter().find(|o| o.writes.get(k) == Some(&Some(v))) {
                None => return Some(format!("key {k:?} = {v}: no write of a committed call that had started put it there")),
                Some(w) if over(w, k) => return Some(format!("key {k:?} = {v} was overwritten before the scan began")),
                _ => {}
            },
            None => {
                if !ops.iter().any(|o| o.writes.get(k) == Some(&None) && !over(o, k)) {
                    return Some(format!("key {k:?} missing"));
                }
            }
        }
    }
    seen.into_iter().next().map(|x| format!("unexpected {x:?}"))
}

/// Conflicts that must and must not have been reported. Only calls whose order against the
/// transaction's begin and commit is certain are judged.
fn conflicts_ok(rep: &mut Report, log: &Log, shape: u64) -> bool {
    for (i, t) in log.ops.iter().enumerate() {
        let Some((b0, b1)) = t.begin else { continue };
        let hits = |o: &Op| o.writes.keys().any(|k| t.writes.contains_key(k));
        match t.out {
            Out::Acked => {
                // A call on one of its keys that started after begin and ended before its commit.
                let bad = log.ops.iter().enumerate().find(|(j, o)| *j != i && o.out == Out::Acked && hits(o) && o.start > b1 && o.end < t.start);
                if !rep.check(fpn(&[shape, i as u64, 20]), bad.is_none(), || format!("{t:?} committed over {:?}", bad.unwrap().1)) {
                    return false;
                }
                // Two transactions that both began before either committed.
                let bad = log.ops.iter().enumerate().find(|(j, o)| {
                    *j != i && o.out == Out::Acked && hits(o) && o.begin.is_some_and(|(_, e1)| e1 < t.start && b1 < o.start)
                });
                if !rep.check(fpn(&[shape, i as u64, 21]), bad.is_none(), || format!("both committed: {t:?} and {:?}", bad.unwrap().1)) {
                    return false;
                }
            }
            Out::Conflict => {
                let why = log.ops.iter().enumerate().any(|(j, o)| j != i && o.out == Out::Acked && hits(o) && o.end > b0 && o.start < t.end);
                if !rep.check(fpn(&[shape, i as u64, 22]), why, || format!("{t:?} was rejected although no other commit touched its keys since it began")) {
                    return false;
                }
            }
            _ => {}
        }
    }
    true
}
