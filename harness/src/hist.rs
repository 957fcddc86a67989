//! Sequential histories over the full database, judged step by step against the reference model
//! and then crashed at every storage mutation.
use std::sync::Arc;

use tonbo::verif::{
    report::{Report, Rng, fpn, fps},
    simfs::{Image, Mutation, SimFs},
};

use crate::{dbsim::*, model::*};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Focus {
    Crash,
    Query,
    Layers,
    Snapshot,
    Txn,
    Reopen,
}

#[derive(Clone)]
struct Acked {
    /// Journal length when the operation was acknowledged (per file-system epoch).
    at: usize,
    /// State after it.
    state: State,
}

struct Hist<'a> {
    rep: &'a mut Report,
    rng: Rng,
    sim: Sim,
    state: State,
    next_v: i64,
    acked: Vec<Acked>,
    snaps: Vec<(tonbo_snapshot::Snap, State, usize)>,
    focus: Focus,
    steps: usize,
    flushed: u64,
    compacted: u64,
    base_state: State,
}

mod tonbo_snapshot {
    pub type Snap = Box<dyn std::any::Any>;
}

pub fn case(seed: u64, rep: &mut Report, focus: Focus) {
    let rt = rt();
    rt.block_on(async { run(seed, rep, focus).await });
}

fn layer_fp(v: &tonbo::db::verif::VersionInfo, imm: usize) -> u64 {
    let mut lv = [0u64; 6];
    for s in &v.ssts {
        lv[s.level.min(5)] += 1 + (s.tombstones.min(2) as u64) * 100;
    }
    fpn(&[lv[0], lv[1], lv[2], lv[3], imm as u64])
}

fn key_cols(cfg: &Cfg) -> Vec<String> {
    cfg.kind.key_names()
}
fn all_cols(cfg: &Cfg) -> Vec<String> {
    cfg.kind.schema().fields().iter().map(|f| f.name().clone()).collect()
}

async fn run(seed: u64, rep: &mut Report, focus: Focus) {
    let mut rng = Rng::new(seed);
    let cfg = Cfg::random(&mut rng);
    rep.log(format!("focus {focus:?} cfg {cfg:?}"));
    let fs = Arc::new(SimFs::new());
    let sim = match open(fs, &cfg).await {
        Ok(s) => s,
        Err(e) => {
            rep.violate(format!("initial open failed: {e}"));
            return;
        }
    };
    let steps = match focus {
        Focus::Crash => 4 + rng.idx(14),
        _ => 8 + rng.idx(30),
    };
    let mut h = Hist {
        rep,
        rng,
        sim,
        state: State::new(),
        next_v: 0,
        acked: Vec::new(),
        snaps: Vec::new(),
        focus,
        steps,
        flushed: 0,
        compacted: 0,
        base_state: State::new(),
    };
    for i in 0..h.steps {
        if !h.step(i).await {
            return;
        }
    }
    h.final_check().await;
    if focus == Focus::Crash {
        h.crash_sweep().await;
    }
}

impl Hist<'_> {
    fn ack(&mut self) {
        self.acked.push(Acked { at: self.sim.fs.journal_len(), state: self.state.clone() });
    }
    fn some_keys(&mut self, max: usize) -> Vec<K> {
        let n = 1 + self.rng.idx(max);
        let mut out: Vec<K> = Vec::new();
        for _ in 0..n {
            let k = self.sim.cfg.kind.key(self.rng.idx(self.sim.cfg.keys));
            if !out.contains(&k) {
                out.push(k);
            }
        }
        out
    }

    /// Rows for a batch; now and then one key appears twice.
    fn rows_for(&mut self, mut ks: Vec<K>) -> Vec<(K, Row)> {
        if self.rng.chance(1, 6) {
            let k = self.rng.pick(&ks).clone();
            let at = self.rng.idx(ks.len() + 1);
            ks.insert(at, k);
        }
        ks.into_iter().map(|k| (k, gen_row(&mut self.rng, &mut self.next_v))).collect()
    }

    async fn step(&mut self, i: usize) -> bool {
        let roll = self.rng.below(100);
        let f = self.focus;
        let r = match roll {
            0..=29 => self.ingest().await,
            30..=51 => self.ingest_tombs().await,
            52..=69 => self.txn().await,
            70..=77 => {
                self.sim.arm_seal();
                self.rep.log(format!("{i}: arm seal"));
                self.ingest().await
            }
            78..=87 => self.compact().await,
            88..=93 => match f {
                Focus::Query => true,
                _ => self.reopen().await,
            },
            _ => self.check_state("state").await,
        };
        if !r {
            return false;
        }
        let every = match f {
            Focus::Crash => 6,
            Focus::Query => 1,
            _ => 2,
        };
        if self.rng.chance(1, every) {
            if f == Focus::Query {
                return self.query().await;
            }
            return self.check_state("state").await;
        }
        true
    }

    async fn ingest(&mut self) -> bool {
        let ks = self.some_keys(6);
        let rows = self.rows_for(ks);
        self.rep.log(format!("ingest {rows:?}"));
        let batch = self.sim.cfg.kind.batch(&rows);
        if let Err(e) = self.sim.db.ingest(batch).await {
            self.rep.violate(format!("ingest of a valid batch failed: {e}"));
            return false;
        }
        for (k, r) in rows {
            self.state.insert(k, r);
        }
        self.ack();
        true
    }
    async fn ingest_tombs(&mut self) -> bool {
        let ks = self.some_keys(6);
        let rows = self.rows_for(ks);
        let tombs: Vec<bool> = rows.iter().map(|_| self.rng.chance(1, 2)).collect();
        self.rep.log(format!("ingest_tombs {rows:?} {tombs:?}"));
        let batch = self.sim.cfg.kind.batch(&rows);
        if let Err(e) = self.sim.db.ingest_with_tombstones(batch, tombs.clone()).await {
            self.rep.violate(format!("ingest_with_tombstones of a valid batch failed: {e}"));
            return false;
        }
        // Within one batch a delete of a key beats its upserts, and the last upsert beats earlier ones.
        let dead: Vec<K> = rows.iter().zip(&tombs).filter(|x| *x.1).map(|x| x.0.0.clone()).collect();
        for (k, r) in rows {
            self.state.insert(k, r);
        }
        for k in dead {
            self.state.remove(&k);
        }
        self.ack();
        true
    }
    async fn txn(&mut self) -> bool {
        let mut tx = match self.sim.db.begin_transaction().await {
            Ok(t) => t,
            Err(e) => {
                self.rep.violate(format!("begin_transaction failed: {e}"));
                return false;
            }
        };
        let kind = self.sim.cfg.kind;
        let mut view = self.state.clone();
        let mut wrote = false;
        let n = 1 + self.rng.idx(6);
        for _ in 0..n {
            let k = kind.key(self.rng.idx(self.sim.cfg.keys));
            if self.rng.chance(3, 5) {
                let r = gen_row(&mut self.rng, &mut self.next_v);
                let res = if self.rng.chance(1, 3) {
                    tx.upsert_batch(&kind.batch(&[(k.clone(), r.clone())]))
                } else {
                    tx.upsert(kind.dyn_row(&k, &r))
                };
                if let Err(e) = res {
                    self.rep.violate(format!("staging a valid row failed: {e}"));
                    return false;
                }
                self.rep.log(format!("tx upsert {k:?} v={}", r.v));
                view.insert(k, r);
            } else {
                if let Err(e) = tx.delete(self.sim.key(&k)) {
                    self.rep.violate(format!("staging a delete failed: {e}"));
                    return false;
                }
                self.rep.log(format!("tx delete {k:?}"));
                view.remove(&k);
            }
            wrote = true;
            if self.rng.chance(1, 3) {
                let got = tx.scan().collect().await.map(|b| decode(&b)).map_err(|e| e.to_string());
                let f = fpn(&[view.len() as u64, tx.len() as u64, 71]);
                if !check_rows(self.rep, "scan inside a transaction", kind, &view, &got, f) {
                    return false;
                }
            }
            if self.rng.chance(1, 4) {
                let k = kind.key(self.rng.idx(self.sim.cfg.keys));
                let got = tx.get(&self.sim.key(&k)).await;
                let ok = match (&got, view.get(&k)) {
                    (Ok(None), None) => true,
                    (Ok(Some(row)), Some(want)) => {
                        format!("{:?}", row.0) == format!("{:?}", kind.dyn_row(&k, want).0)
                    }
                    _ => false,
                };
                let want = format!("{:?}", view.get(&k));
                let f = fpn(&[tx.len() as u64, view.contains_key(&k) as u64, 72]);
                if !self.rep.check(f, ok, || {
                    format!("get inside a transaction: key {k:?} want {want} got {:?}", got.map(|r| r.map(|r| r.0)))
                }) {
                    return false;
                }
            }
        }
        if self.rng.chance(1, 4) {
            self.rep.log("tx abort".into());
            self.rep.count("txn_aborted", 1);
            if self.rng.chance(1, 2) {
                tx.abort();
            } else {
                drop(tx);
            }
            return self.check_state("after abort").await;
        }
        if let Err(e) = tx.commit().await {
            self.rep.violate(format!("commit without any concurrent writer failed: {e}"));
            return false;
        }
        self.rep.log("tx commit".into());
        self.rep.count("txn_committed", 1);
        if wrote {
            self.state = view;
            self.ack();
        }
        true
    }
    async fn compact(&mut self) -> bool {
        match self.sim.compact().await {
            Ok(Some(o)) => {
                self.rep.log(format!("compacted {:?} L{} -> {:?} L{}", o.inputs, o.source, o.outputs, o.target));
                self.rep.count("compactions", 1);
                self.compacted += 1;
                self.check_state("after compaction").await
            }
            Ok(None) => true,
            Err(e) => {
                self.rep.violate(format!("compaction failed: {e}"));
                false
            }
        }
    }
    async fn reopen(&mut self) -> bool {
        self.rep.log("crash + reopen".into());
        self.rep.count("reopens", 1);
        let image = self.sim.fs.image();
        self.sim.fs.kill();
        self.snaps.clear();
        let mut cfg = self.sim.cfg.clone();
        let c2 = Cfg::random(&mut self.rng);
        cfg.minor = c2.minor;
        cfg.seg_bytes = c2.seg_bytes;
        cfg.seal_every = c2.seal_every;
        cfg.mem_capacity = c2.mem_capacity;
        self.base_state = self.state.clone();
        self.acked.clear();
        match open_image(image, &cfg).await {
            Ok(s) => self.sim = s,
            Err(e) => {
                self.rep.violate(format!("reopen after crash failed: {e}"));
                return false;
            }
        }
        self.check_state("after reopen").await
    }
    async fn check_state(&mut self, what: &str) -> bool {
        let got = self.sim.scan_all().await;
        let v = self.sim.db.verif_version().await.unwrap_or_default();
        let f = layer_fp(&v, self.sim.db.verif_immutables());
        self.rep.count("sst_files_seen", v.ssts.len() as u64);
        check_rows(self.rep, what, self.sim.cfg.kind, &self.state, &got, fpn(&[f, fps(what)]))
    }
    async fn query(&mut self) -> bool {
        let cols = if self.rng.chance(1, 2) { key_cols(&self.sim.cfg) } else { all_cols(&self.sim.cfg) };
        let q = Query::generate(&mut self.rng, &self.sim.cfg, self.next_v, &cols);
        let kind = self.sim.cfg.kind;
        let want = q.reference(kind, &self.state);
        let got = apply_query!(self.sim.db.scan(), q, kind).collect().await.map(|b| decode(&b));
        let f = fps(&format!("{q:?}{}", want.len()));
        match got {
            Err(e) => self.rep.check(f, false, || format!("query {q:?} failed: {e}")),
            Ok(rows) => {
                let d = diff(&want, &rows);
                self.rep.check(f, d.is_none(), || format!("query {q:?}: {}", d.unwrap()))
            }
        }
    }
    async fn final_check(&mut self) {
        if self.check_state("final").await {
            self.rep.count("histories", 1);
            if self.rep.samples.len() < 3 {
                let v = self.sim.db.verif_version().await.unwrap_or_default();
                let s = format!(
                    "history of {} steps, {} rows, {} SSTs, {} journal mutations, kind {:?}",
                    self.steps, self.state.len(), v.ssts.len(), self.sim.fs.journal_len(), self.sim.cfg.kind
                );
                self.rep.sample(s);
            }
        }
    }

    /// Reopen from the storage image after every mutation of the journal.
    async fn crash_sweep(&mut self) {
        let (base, journal) = self.sim.fs.journal();
        self.sim.fs.kill();
        let kind = self.sim.cfg.kind;
        let mut image: Image = base;
        let n = journal.len();
        let budget = if self.rep.thorough { 120 } else { 40 };
        let stride = (n / budget).max(1);
        let offset = self.rng.idx(stride);
        for i in 0..=n {
            let pick = i % stride == offset || i == n;
            if pick {
                self.crash_one(&image, i, kind, None).await;
                if !self.rep.violations.is_empty() {
                    return;
                }
            }
            if i < n {
                if pick {
                    if let Mutation::Append(p, d) = &journal[i] {
                        if d.len() > 1 {
                            let cut = 1 + self.rng.idx(d.len() - 1);
                            let mut torn = image.clone();
                            journal[i].apply_torn(&mut torn, cut);
                            self.crash_one(&torn, i, kind, Some((p.clone(), cut))).await;
                            if !self.rep.violations.is_empty() {
                                return;
                            }
                        }
                    }
                }
                journal[i].apply(&mut image);
            }
        }
    }
    async fn crash_one(&mut self, image: &Image, i: usize, kind: Kind, torn: Option<(String, usize)>) {
        // Operations acknowledged at or before this point must survive; the next one may.
        let k = self.acked.iter().take_while(|a| a.at <= i).count();
        let must = if k == 0 { &self.base_state } else { &self.acked[k - 1].state };
        let may = self.acked.get(k).map(|a| &a.state);
        let what = match &torn {
            None => format!("crash after mutation {i} ({k} ops acked)"),
            Some((p, c)) => format!("crash tearing mutation {i} ({p} at byte {c}, {k} ops acked)"),
        };
        let f = fpn(&[i as u64, k as u64, torn.is_some() as u64, self.rep.case_seed]);
        self.rep.count("crash_points", 1);
        match open_image(image.clone(), &self.sim.cfg).await {
            Err(e) => {
                self.rep.check(f, false, || format!("{what}: reopen failed: {e}"));
            }
            Ok(sim) => {
                let got = sim.scan_all().await;
                match &got {
                    Err(e) => {
                        self.rep.check(f, false, || format!("{what}: scan failed: {e}"));
                    }
                    Ok(rows) => {
                        let w = encode_state(kind, must);
                        let ok = *rows == w || may.is_some_and(|m| *rows == encode_state(kind, m));
                        let d = diff(&w, rows).unwrap_or_default();
                        if !self.rep.check(f, ok, || format!("{what}: recovered state is neither before nor after the in-flight operation: {d}")) {
                            return;
                        }
                        // A write after recovery must override, and survive one more crash.
                        if self.rng.chance(1, 3) {
                            let mut st: State = if *rows == w { must.clone() } else { may.unwrap().clone() };
                            let key = kind.key(self.rng.idx(self.sim.cfg.keys));
                            let del = self.rng.chance(1, 3);
                            let row = gen_row(&mut self.rng, &mut self.next_v);
                            let r = sim.db.ingest_with_tombstones(kind.batch(&[(key.clone(), row.clone())]), vec![del]).await;
                            if let Err(e) = r {
                                self.rep.violate(format!("{what}: write after recovery failed: {e}"));
                                return;
                            }
                            if del { st.remove(&key); } else { st.insert(key.clone(), row); }
                            let got = sim.scan_all().await;
                            if !check_rows(self.rep, &format!("{what}: write {key:?} del={del} after recovery"), kind, &st, &got, f ^ 1) {
                                return;
                            }
                            let img = sim.fs.image();
                            sim.fs.kill();
                            match open_image(img, &self.sim.cfg).await {
                                Err(e) => self.rep.violate(format!("{what}: second reopen failed: {e}")),
                                Ok(s2) => {
                                    let got = s2.scan_all().await;
                                    check_rows(self.rep, &format!("{what}: second recovery (wrote {key:?} del={del})"), kind, &st, &got, f ^ 2);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}
