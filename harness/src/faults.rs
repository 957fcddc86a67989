//! Histories over the full database while storage calls fail: every call that reports success did
//! what it says, and what failed either happened or did not, never partly and never to others.
use std::sync::{
    Arc,
    atomic::{AtomicU64, Ordering},
};

use tonbo::verif::{
    report::{Report, Rng, fpn, fps},
    simfs::{Fault, OpKind, SimFs},
};

use crate::{dbsim::*, model::*};

const AREAS: [&str; 5] = ["", "/manifest", "/sst", "/wal", "/wal/state"];

struct Run<'a> {
    rep: &'a mut Report,
    rng: Rng,
    sim: Sim,
    /// Possible logical states: failed writes may or may not have happened.
    cands: Vec<State>,
    next_v: i64,
    /// Storage failed since the last open: later writes may be refused.
    poisoned: bool,
    last_fault: String,
}

pub fn case(seed: u64, rep: &mut Report) {
    rt().block_on(run(seed, rep));
}

async fn run(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let cfg = Cfg::random(&mut rng);
    rep.log(format!("cfg {cfg:?}"));
    let sim = match open(Arc::new(SimFs::new()), &cfg).await {
        Ok(s) => s,
        Err(e) => {
            rep.violate(format!("initial open failed: {e}"));
            return;
        }
    };
    let steps = 8 + rng.idx(24);
    let mut r = Run { rep, rng, sim, cands: vec![State::new()], next_v: 0, poisoned: false, last_fault: String::new() };
    for i in 0..steps {
        if !r.step(i).await {
            return;
        }
    }
    if r.reopen(false).await && r.check("final").await {
        r.rep.count("histories", 1);
        r.rep.sample(format!("{steps} steps, {} possible states at the end, last fault {}", r.cands.len(), r.last_fault));
    }
}

impl Run<'_> {
    /// Arm a fault for the next call; returns the counter of faults fired before.
    fn arm(&mut self) -> u64 {
        let before = self.sim.fs.faults_fired();
        if self.rng.chance(2, 5) {
            return before;
        }
        let area = *self.rng.pick(&AREAS);
        let skip = {
            let m = *self.rng.pick(&[1u64, 4, 12, 40]);
            self.rng.below(m)
        };
        let burst = *self.rng.pick(&[1u64, 1, 2, 5, 1000]);
        let kinds: Option<OpKind> = self.rng.chance(1, 2).then(|| *self.rng.pick(&[OpKind::Append, OpKind::Put, OpKind::Remove, OpKind::Read, OpKind::Open, OpKind::Commit, OpKind::List]));
        let mode = match self.rng.below(4) {
            0 | 1 => Fault::After,
            2 => Fault::Torn(self.rng.idx(60)),
            _ => Fault::Before,
        };
        self.last_fault = format!("{area:?} skip {skip} burst {burst} {kinds:?} {mode:?}");
        self.rep.log(format!("  fault {}", self.last_fault));
        let seen = AtomicU64::new(0);
        self.sim.fs.set_fault(Some(Arc::new(move |k, p: &str, _| {
            if !p.contains(area) || kinds.is_some_and(|w| w != k) || p.contains("/leases/") {
                return None;
            }
            let n = seen.fetch_add(1, Ordering::SeqCst);
            if n < skip || n >= skip + burst {
                return None;
            }
            Some(match (k, mode) {
                (OpKind::Append, m) => m,
                (OpKind::Put | OpKind::Remove | OpKind::Commit, Fault::After) => Fault::After,
                _ => Fault::Before,
            })
        })));
        before
    }
    fn disarm(&mut self, before: u64) -> bool {
        self.sim.fs.set_fault(None);
        let fired = self.sim.fs.faults_fired() - before;
        self.rep.count("faults_fired", fired);
        // A storage failure may stop the log writer, and a failed manifest commit blocks later
        // ones until its lease runs out; both may surface in later calls until the next open.
        self.poisoned |= fired > 0;
        fired > 0
    }
    /// Account for a write that ended with `res`.
    fn wrote(&mut self, what: &str, res: Result<(), String>, fired: bool, f: impl Fn(&mut State)) -> bool {
        match res {
            Ok(()) => {
                for s in &mut self.cands {
                    f(s);
                }
                self.rep.count("writes_ok", 1);
            }
            Err(e) => {
                self.rep.log(format!("  -> {e}"));
                if !self.rep.check(fpn(&[1, fps(what)]), fired || self.poisoned, || format!("{what} failed without any storage failure: {e}")) {
                    return false;
                }
                self.poisoned = true;
                let mut more = self.cands.clone();
                for s in &mut more {
                    f(s);
                }
                self.cands.extend(more);
                self.rep.count("writes_failed", 1);
            }
        }
        let mut uniq: Vec<State> = Vec::new();
        for s in self.cands.drain(..) {
            if !uniq.contains(&s) {
                uniq.push(s);
            }
        }
        self.cands = uniq;
        true
    }
    async fn step(&mut self, i: usize) -> bool {
        let kind = self.sim.cfg.kind;
        let nk = self.sim.cfg.keys;
        let roll = if self.cands.len() > 16 { 99 } else { self.rng.below(100) };
        match roll {
            0..=39 => {
                let mut rows: Vec<(K, Row, bool)> = Vec::new();
                for _ in 0..1 + self.rng.idx(4) {
                    let k = kind.key(self.rng.idx(nk));
                    if !rows.iter().any(|r| r.0 == k) {
                        let r = gen_row(&mut self.rng, &mut self.next_v);
                        rows.push((k, r, self.rng.chance(2, 5)));
                    }
                }
                self.rep.log(format!("{i}: ingest {:?}", rows.iter().map(|r| (&r.0, r.1.v, r.2)).collect::<Vec<_>>()));
                if self.rng.chance(1, 4) {
                    self.sim.arm_seal();
                }
                let batch = kind.batch(&rows.iter().map(|r| (r.0.clone(), r.1.clone())).collect::<Vec<_>>());
                let b = self.arm();
                let res = if rows.iter().any(|r| r.2) {
                    self.sim.db.ingest_with_tombstones(batch, rows.iter().map(|r| r.2).collect()).await
                } else {
                    self.sim.db.ingest(batch).await
                }
                .map_err(|e| e.to_string());
                let fired = self.disarm(b);
                if !self.wrote("ingest", res, fired, |s| {
                    for (k, r, d) in &rows {
                        if *d { s.remove(k); } else { s.insert(k.clone(), r.clone()); }
                    }
                }) {
                    return false;
                }
            }
            40..=59 => {
                let mut ops: Vec<(K, Option<Row>)> = Vec::new();
                for _ in 0..1 + self.rng.idx(4) {
                    let k = kind.key(self.rng.idx(nk));
                    let del = self.rng.chance(1, 3);
                    let r = gen_row(&mut self.rng, &mut self.next_v);
                    ops.push((k, (!del).then_some(r)));
                }
                self.rep.log(format!("{i}: txn {:?}", ops.iter().map(|o| (&o.0, o.1.as_ref().map(|r| r.v))).collect::<Vec<_>>()));
                let b = self.arm();
                let res = async {
                    let mut tx = self.sim.db.begin_transaction().await.map_err(|e| e.to_string())?;
                    for (k, r) in &ops {
                        match r {
                            Some(r) => tx.upsert(kind.dyn_row(k, r)).map_err(|e| e.to_string())?,
                            None => tx.delete(self.sim.key(k)).map_err(|e| e.to_string())?,
                        }
                    }
                    tx.commit().await.map_err(|e| e.to_string())
                }
                .await;
                let fired = self.disarm(b);
                if !self.wrote("transaction", res, fired, |s| {
                    for (k, r) in &ops {
                        match r {
                            Some(r) => { s.insert(k.clone(), r.clone()); }
                            None => { s.remove(k); }
                        }
                    }
                }) {
                    return false;
                }
            }
            60..=77 => {
                self.rep.log(format!("{i}: compact"));
                let b = self.arm();
                let res = self.sim.compact().await;
                let fired = self.disarm(b);
                match res {
                    Ok(o) => {
                        if let Some(o) = o {
                            self.rep.log(format!("  {:?} -> {:?}", o.inputs, o.outputs));
                            self.rep.count("compactions", 1);
                        }
                    }
                    Err(e) => {
                        self.rep.log(format!("  -> {e}"));
                        self.rep.count("compactions_failed", 1);
                        if !self.rep.check(fpn(&[2]), fired || self.poisoned, || format!("compaction failed without any storage failure: {e}")) {
                            return false;
                        }
                    }
                }
            }
            78..=83 => {
                self.rep.log(format!("{i}: flush"));
                let b = self.arm();
                let res = self.sim.db.verif_minor().await;
                let fired = self.disarm(b);
                if let Err(e) = res {
                    self.rep.log(format!("  -> {e}"));
                    if !self.rep.check(fpn(&[3]), fired || self.poisoned, || format!("flush failed without any storage failure: {e}")) {
                        return false;
                    }
                }
            }
            84..=91 => {
                let b = self.arm();
                let got = self.sim.scan_all().await;
                let fired = self.disarm(b);
                match got {
                    Err(e) => {
                        if !self.rep.check(fpn(&[4]), fired, || format!("scan failed without any storage failure: {e}")) {
                            return false;
                        }
                    }
                    Ok(rows) => {
                        if !self.matches("scan under faults", &rows) {
                            return false;
                        }
                    }
                }
            }
            _ => {
                if !self.reopen(true).await {
                    return false;
                }
            }
        }
        self.check("state").await
    }
    fn matches(&mut self, what: &str, rows: &Rows) -> bool {
        let kind = self.sim.cfg.kind;
        let ok = self.cands.iter().any(|s| encode_state(kind, s) == *rows);
        let f = fpn(&[5, fps(what), self.cands.len() as u64, rows.len() as u64, fps(&self.last_fault)]);
        let n = self.cands.len();
        let d = if ok { String::new() } else { self.cands.iter().filter_map(|s| diff(&encode_state(kind, s), rows)).min_by_key(|d| d.len()).unwrap_or_default() };
        let lf = self.last_fault.clone();
        self.rep.check(f, ok, || format!("{what}: none of the {n} possible states (last fault {lf}): {d}"))
    }
    async fn check(&mut self, what: &str) -> bool {
        match self.sim.scan_all().await {
            Err(e) => {
                let lf = self.last_fault.clone();
                self.rep.check(fpn(&[6]), false, || format!("{what}: read failed after the storage recovered (last fault {lf}): {e}"))
            }
            Ok(rows) => self.matches(what, &rows),
        }
    }
    async fn reopen(&mut self, faulty: bool) -> bool {
        self.rep.log("crash + reopen".into());
        self.rep.count("reopens", 1);
        let mut image = self.sim.fs.image();
        self.sim.fs.kill();
        image.retain(|p, _| !p.contains("/leases/"));
        let cfg = self.sim.cfg.clone();
        if faulty && self.rng.chance(1, 2) {
            // An open whose storage fails may fail; it must not spoil what is stored.
            let fs = Arc::new(SimFs::from_image(image.clone()));
            let skip = self.rng.below(40);
            let seen = AtomicU64::new(0);
            fs.set_fault(Some(Arc::new(move |k, p: &str, _| {
                if p.contains("/leases/") { return None }
                (seen.fetch_add(1, Ordering::SeqCst) == skip).then_some(if matches!(k, OpKind::Append | OpKind::Put | OpKind::Remove) && skip % 2 == 0 { Fault::After } else { Fault::Before })
            })));
            let r = open(fs.clone(), &cfg).await;
            fs.set_fault(None);
            self.rep.count("faulty_opens", 1);
            self.rep.log(format!("  faulty open: {:?}", r.as_ref().err()));
            drop(r);
            image = fs.image();
            image.retain(|p, _| !p.contains("/leases/"));
            fs.kill();
        }
        match open(Arc::new(SimFs::from_image(image)), &cfg).await {
            Ok(s) => {
                self.sim = s;
                self.poisoned = false;
            }
            Err(e) => {
                let lf = self.last_fault.clone();
                self.rep.violate(format!("reopen after crash failed (last fault {lf}): {e}"));
                return false;
            }
        }
        // The recovered state is settled from here on.
        match self.sim.scan_all().await {
            Ok(rows) => {
                if !self.matches("recovered", &rows) {
                    return false;
                }
                let kind = self.sim.cfg.kind;
                self.cands.retain(|s| encode_state(kind, s) == rows);
                true
            }
            Err(e) => {
                self.rep.violate(format!("scan after reopen failed: {e}"));
                false
            }
        }
    }
}
