//! Histories with held snapshots and transactions, time travel and version listings: what was
//! readable at one moment stays readable through every later write, seal, flush and compaction.
use std::{collections::BTreeMap, collections::BTreeSet, sync::Arc};

use tonbo::verif::{
    report::{Report, Rng, fpn, fps},
    simfs::SimFs,
};

use crate::{dbsim::*, model::*};

type Snap = tonbo::db::verif::TxSnapshot;

/// Where a view was taken; it is judged while the view is one the engine can keep (known findings:
/// rows in memory at that time leave the view once they are flushed).
#[derive(Clone, Copy)]
struct Taken {
    flushes: usize,
    solid: bool,
    step: usize,
}

struct Held {
    snap: Snap,
    state: State,
    at: Taken,
    reads: u64,
}

struct HeldTx {
    tx: Txn,
    base: State,
    staged: BTreeMap<K, Option<Row>>,
    dirty: BTreeSet<K>,
    at: Taken,
}

struct Run<'a> {
    rep: &'a mut Report,
    rng: Rng,
    sim: Sim,
    state: State,
    next_v: i64,
    step: usize,
    compactions: usize,
    held: Vec<Held>,
    txs: Vec<HeldTx>,
    /// Commit clock, state and number of compactions after each acknowledged write.
    times: Vec<(u64, State, usize)>,
    /// Listed versions, oldest first.
    versions: Vec<(u64, usize, u64, usize)>,
}

pub fn case(seed: u64, rep: &mut Report) {
    rt().block_on(run(seed, rep));
}

async fn run(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut cfg = Cfg::random(&mut rng);
    cfg.background = false;
    rep.log(format!("cfg {cfg:?}"));
    let sim = match open(Arc::new(SimFs::new()), &cfg).await {
        Ok(s) => s,
        Err(e) => {
            rep.violate(format!("initial open failed: {e}"));
            return;
        }
    };
    let mut r = Run {
        rep,
        rng,
        sim,
        state: State::new(),
        next_v: 0,
        step: 0,
        compactions: 0,
        held: Vec::new(),
        txs: Vec::new(),
        times: Vec::new(),
        versions: Vec::new(),
    };
    let steps = 12 + r.rng.idx(30);
    for i in 0..steps {
        r.step = i;
        if !r.step().await || !r.track_versions().await {
            return;
        }
    }
    for i in 0..r.held.len() {
        if !r.read_snap(i).await {
            return;
        }
    }
    while !r.txs.is_empty() {
        if !r.end_tx().await {
            return;
        }
    }
    r.rep.count("histories", 1);
    if r.rep.samples.len() < 3 {
        let s = format!("{steps} steps, {} snapshots held, {} manifest versions, {} compactions, {:?}", r.held.len(), r.versions.len(), r.compactions, r.sim.cfg.kind);
        r.rep.sample(s);
    }
}

impl Run<'_> {
    fn flushes(&self) -> usize {
        self.versions.len() - self.compactions
    }
    fn taken(&self) -> Taken {
        Taken { flushes: self.flushes(), solid: self.sim.db.verif_memory_is_empty(), step: self.step }
    }
    fn holds(&self, t: Taken) -> bool {
        t.solid || t.flushes == self.flushes()
    }

    async fn step(&mut self) -> bool {
        match self.rng.below(100) {
            0..=24 => self.ingest().await,
            25..=34 => {
                self.sim.arm_seal();
                self.rep.log("arm seal".into());
                self.ingest().await
            }
            35..=46 => self.take_snap().await,
            47..=58 => {
                if self.held.is_empty() {
                    return true;
                }
                let i = self.rng.idx(self.held.len());
                self.read_snap(i).await
            }
            59..=66 => self.begin_tx().await,
            67..=76 => self.use_tx().await,
            77..=83 => self.end_tx().await,
            84..=89 => self.compact().await,
            90..=96 => self.travel().await,
            _ => self.reopen().await,
        }
    }

    fn wrote(&mut self, keys: impl IntoIterator<Item = K>) {
        let keys: Vec<K> = keys.into_iter().collect();
        for t in &mut self.txs {
            t.dirty.extend(keys.iter().cloned());
        }
        let ts = self.sim.db.verif_next_ts() - 1;
        self.times.push((ts, self.state.clone(), self.compactions));
    }

    async fn ingest(&mut self) -> bool {
        let kind = self.sim.cfg.kind;
        let mut rows: Vec<(K, Row)> = Vec::new();
        for _ in 0..1 + self.rng.idx(4) {
            let k = kind.key(self.rng.idx(self.sim.cfg.keys));
            if !rows.iter().any(|r| r.0 == k) {
                let row = gen_row(&mut self.rng, &mut self.next_v);
                rows.push((k, row));
            }
        }
        let tombs: Vec<bool> = rows.iter().map(|_| self.rng.chance(1, 4)).collect();
        self.rep.log(format!("{}: ingest {rows:?} {tombs:?}", self.step));
        if let Err(e) = self.sim.db.ingest_with_tombstones(kind.batch(&rows), tombs.clone()).await {
            self.rep.violate(format!("ingest of a valid batch failed: {e}"));
            return false;
        }
        let mut keys = Vec::new();
        for ((k, r), dead) in rows.into_iter().zip(tombs) {
            keys.push(k.clone());
            if dead {
                self.state.remove(&k);
            } else {
                self.state.insert(k, r);
            }
        }
        // A flush may have happened: look before views are judged again.
        self.wrote(keys);
        true
    }

    async fn compact(&mut self) -> bool {
        match self.sim.compact().await {
            Ok(Some(o)) => {
                self.rep.log(format!("{}: compacted {:?} -> {:?}", self.step, o.inputs, o.outputs));
                self.rep.count("compactions", 1);
                self.compactions += 1;
                true
            }
            Ok(None) => true,
            Err(e) => {
                self.rep.violate(format!("compaction failed: {e}"));
                false
            }
        }
    }

    async fn take_snap(&mut self) -> bool {
        // Known finding: a view of a table without any commit.
        if self.times.is_empty() || self.held.len() >= 6 {
            return true;
        }
        match self.sim.db.begin_snapshot().await {
            Err(e) => {
                self.rep.violate(format!("begin_snapshot failed: {e}"));
                false
            }
            Ok(snap) => {
                let at = self.taken();
                self.rep.log(format!("{}: snapshot {} (memory empty: {})", self.step, self.held.len(), at.solid));
                self.held.push(Held { snap, state: self.state.clone(), at, reads: 0 });
                if self.rng.chance(1, 3) {
                    return self.read_snap(self.held.len() - 1).await;
                }
                true
            }
        }
    }

    async fn read_snap(&mut self, i: usize) -> bool {
        if !self.holds(self.held[i].at) {
            return true;
        }
        let kind = self.sim.cfg.kind;
        let age = self.step - self.held[i].at.step;
        let f = fpn(&[age.min(20) as u64, self.held[i].reads, self.held[i].at.solid as u64, self.flushes() as u64, self.compactions as u64, self.held[i].state.len() as u64]);
        self.rep.count(if self.held[i].at.flushes == self.flushes() { "snapshot_reads" } else { "snapshot_reads_across_flushes" }, 1);
        self.held[i].reads += 1;
        let h = &self.held[i];
        if self.rng.chance(1, 2) {
            let cols: Vec<String> = kind.schema().fields().iter().map(|f| f.name().clone()).collect();
            let q = Query::generate(&mut self.rng, &self.sim.cfg, self.next_v, &cols);
            let want = q.reference(kind, &h.state);
            let got = apply_query!(h.snap.scan(&self.sim.db), q, kind).collect().await.map(|b| decode(&b));
            let what = format!("snapshot {i} taken {age} steps ago, {q:?}");
            match got {
                Err(e) => self.rep.check(f, false, || format!("{what}: failed: {e}")),
                Ok(rows) => {
                    let d = diff(&want, &rows);
                    self.rep.check(f ^ fps(&format!("{q:?}")), d.is_none(), || format!("{what}: {}", d.unwrap()))
                }
            }
        } else {
            let got = h.snap.scan(&self.sim.db).collect().await.map(|b| decode(&b)).map_err(|e| e.to_string());
            check_rows(self.rep, &format!("snapshot {i} taken {age} steps ago"), kind, &h.state, &got, f)
        }
    }

    async fn begin_tx(&mut self) -> bool {
        if self.times.is_empty() || self.txs.len() >= 3 {
            return true;
        }
        match self.sim.db.begin_transaction().await {
            Err(e) => {
                self.rep.violate(format!("begin_transaction failed: {e}"));
                false
            }
            Ok(tx) => {
                let at = self.taken();
                self.rep.log(format!("{}: begin tx {} (memory empty: {})", self.step, self.txs.len(), at.solid));
                self.txs.push(HeldTx { tx, base: self.state.clone(), staged: BTreeMap::new(), dirty: BTreeSet::new(), at });
                true
            }
        }
    }

    async fn use_tx(&mut self) -> bool {
        if self.txs.is_empty() {
            return true;
        }
        let i = self.rng.idx(self.txs.len());
        let kind = self.sim.cfg.kind;
        let k = kind.key(self.rng.idx(self.sim.cfg.keys));
        let okey = self.sim.key(&k);
        let holds = self.holds(self.txs[i].at);
        let f = fpn(&[(self.step - self.txs[i].at.step).min(20) as u64, self.txs[i].staged.len() as u64, self.flushes() as u64, self.txs[i].dirty.len() as u64]);
        let t = &mut self.txs[i];
        let mut view = t.base.clone();
        for (k, r) in &t.staged {
            match r {
                Some(r) => view.insert(k.clone(), r.clone()),
                None => view.remove(k),
            };
        }
        match self.rng.below(4) {
            0 => {
                let row = gen_row(&mut self.rng, &mut self.next_v);
                self.rep.log(format!("{}: tx {i} upsert {k:?} {row:?}", self.step));
                if let Err(e) = t.tx.upsert(kind.dyn_row(&k, &row)) {
                    self.rep.violate(format!("staging a valid row failed: {e}"));
                    return false;
                }
                t.staged.insert(k, Some(row));
                true
            }
            1 => {
                self.rep.log(format!("{}: tx {i} delete {k:?}", self.step));
                if let Err(e) = t.tx.delete(okey) {
                    self.rep.violate(format!("staging a delete failed: {e}"));
                    return false;
                }
                t.staged.insert(k, None);
                true
            }
            2 => {
                // Staged keys read back whatever else happens.
                if !holds && !t.staged.contains_key(&k) {
                    return true;
                }
                let got = t.tx.get(&okey).await;
                let want = view.get(&k).map(|r| format!("{:?}", kind.dyn_row(&k, r).0));
                let seen = got.as_ref().map(|r| r.as_ref().map(|r| format!("{:?}", r.0))).map_err(|e| e.to_string());
                let ok = seen.as_ref() == Ok(&want);
                self.rep.count("held_txn_gets", 1);
                self.rep.check(f ^ 1, ok, || format!("get {k:?} in transaction {i}: want {want:?}, got {seen:?}"))
            }
            _ => {
                if !holds {
                    return true;
                }
                self.rep.count("held_txn_scans", 1);
                let got = t.tx.scan().collect().await.map(|b| decode(&b)).map_err(|e| e.to_string());
                check_rows(self.rep, &format!("scan in transaction {i}"), kind, &view, &got, f ^ 2)
            }
        }
    }

    async fn end_tx(&mut self) -> bool {
        if self.txs.is_empty() {
            return true;
        }
        let i = self.rng.idx(self.txs.len());
        let holds_mem = self.txs[i].at.flushes == self.flushes();
        let t = self.txs.remove(i);
        if self.rng.chance(1, 5) {
            self.rep.log(format!("{}: tx {i} dropped", self.step));
            drop(t.tx);
            return self.check_state("after a dropped transaction").await;
        }
        let clash = t.staged.keys().any(|k| t.dirty.contains(k));
        let n = t.staged.len() as u64;
        let res = t.tx.commit().await;
        self.rep.log(format!("{}: tx {i} commit -> {:?}", self.step, res.as_ref().map_err(|e| e.to_string())));
        let f = fpn(&[n, t.dirty.len() as u64, clash as u64, holds_mem as u64, res.is_ok() as u64]);
        // Known finding: a clashing version that was flushed in the meantime goes unnoticed.
        if clash && holds_mem && !self.rep.check(f, res.is_err(), || format!("transaction {i} committed over {:?}, written since it began", t.staged.keys().filter(|k| t.dirty.contains(*k)).collect::<Vec<_>>())) {
            return false;
        }
        if !clash {
            let e = res.as_ref().err().map(|e| e.to_string());
            if !self.rep.check(f, res.is_ok(), || format!("transaction {i} without a clashing write failed to commit: {e:?}")) {
                return false;
            }
        }
        self.rep.count(if clash { "clashing_commits" } else { "clean_commits" }, 1);
        if res.is_ok() && !t.staged.is_empty() {
            let keys: Vec<K> = t.staged.keys().cloned().collect();
            for (k, r) in t.staged {
                match r {
                    Some(r) => self.state.insert(k, r),
                    None => self.state.remove(&k),
                };
            }
            self.wrote(keys);
        }
        self.check_state("after a commit").await
    }

    async fn check_state(&mut self, what: &str) -> bool {
        let got = self.sim.scan_all().await;
        let f = fpn(&[self.state.len() as u64, self.flushes() as u64, self.compactions as u64, fps(what)]);
        check_rows(self.rep, what, self.sim.cfg.kind, &self.state, &got, f)
    }

    /// Every listed version stays listed unchanged, newest first, across reopening.
    async fn track_versions(&mut self) -> bool {
        let list = match self.sim.db.list_versions(0).await {
            Ok(l) => l,
            Err(e) => {
                self.rep.violate(format!("list_versions failed: {e}"));
                return false;
            }
        };
        let now: Vec<(u64, usize, u64, usize)> = list.iter().rev().map(|v| (v.timestamp.get(), v.sst_count, v.sst_bytes, v.level_count)).collect();
        let grew = now.len() > self.versions.len();
        let f = fpn(&[now.len() as u64, self.compactions as u64, now.last().map(|v| v.1 as u64).unwrap_or(0)]);
        let ok = now.starts_with(&self.versions) && now.windows(2).all(|w| w[0].0 < w[1].0);
        let before = self.versions.clone();
        if !self.rep.check(f, ok, || format!("versions {before:?} became {now:?}")) {
            return false;
        }
        if grew {
            let v = self.sim.db.verif_version().await.unwrap_or_default();
            let want = (v.ssts.len(), v.ssts.iter().map(|s| s.bytes as u64).sum::<u64>(), v.ssts.iter().map(|s| s.level).collect::<BTreeSet<_>>().len());
            let got = now.last().map(|v| (v.1, v.2, v.3)).unwrap_or_default();
            if !self.rep.check(f ^ 1, want == got, || format!("newest listed version says (tables, bytes, levels) {got:?}, the manifest {want:?}")) {
                return false;
            }
        }
        if self.rng.chance(1, 4) && !now.is_empty() {
            let n = 1 + self.rng.idx(now.len() + 1);
            match self.sim.db.list_versions(n).await {
                Ok(l) => {
                    let got: Vec<u64> = l.iter().map(|v| v.timestamp.get()).collect();
                    let want: Vec<u64> = now.iter().rev().take(n).map(|v| v.0).collect();
                    if !self.rep.check(f ^ fpn(&[n as u64]), got == want, || format!("list_versions({n}): {got:?}, want {want:?}")) {
                        return false;
                    }
                }
                Err(e) => {
                    self.rep.violate(format!("list_versions({n}) failed: {e}"));
                    return false;
                }
            }
        }
        self.versions = now;
        true
    }

    /// A past commit time reads as it was, where the newest version is the one the time selects
    /// (known finding: versions are numbered by manifest edits) and no compaction merged since.
    async fn travel(&mut self) -> bool {
        let top = self.versions.last().map(|v| v.0).unwrap_or(0);
        let ok: Vec<usize> = (0..self.times.len()).filter(|&i| self.times[i].0 >= top && self.times[i].2 == self.compactions).collect();
        if ok.is_empty() {
            return true;
        }
        let i = *self.rng.pick(&ok);
        let (ts, want, _) = self.times[i].clone();
        self.rep.count("time_travels", 1);
        let kind = self.sim.cfg.kind;
        match self.sim.db.verif_snapshot_at(ts).await {
            Err(e) => {
                self.rep.violate(format!("snapshot_at({ts}) failed: {e}"));
                false
            }
            Ok(s) => {
                let got = s.scan(&self.sim.db).collect().await.map(|b| decode(&b)).map_err(|e| e.to_string());
                let f = fpn(&[(self.times.len() - i) as u64, self.flushes() as u64, want.len() as u64, 9]);
                check_rows(self.rep, &format!("snapshot_at({ts}), {} commits ago", self.times.len() - 1 - i), kind, &want, &got, f)
            }
        }
    }

    async fn reopen(&mut self) -> bool {
        if !self.rng.chance(1, 2) {
            return true;
        }
        self.rep.log(format!("{}: crash + reopen", self.step));
        self.rep.count("reopens", 1);
        let image = self.sim.fs.image();
        self.sim.fs.kill();
        self.held.clear();
        self.txs.clear();
        let mut cfg = self.sim.cfg.clone();
        let c2 = Cfg::random(&mut self.rng);
        cfg.minor = c2.minor;
        cfg.seal_every = c2.seal_every;
        match open_image(image, &cfg).await {
            Ok(s) => self.sim = s,
            Err(e) => {
                self.rep.violate(format!("reopen failed: {e}"));
                return false;
            }
        }
        let (last, now) = (self.times.last().map(|t| t.0), self.sim.db.verif_next_ts());
        if let Some(last) = last {
            if !self.rep.check(fpn(&[last, 5]), now > last, || format!("commit clock {now} after reopening; {last} was used before")) {
                return false;
            }
        }
        self.check_state("after reopen").await
    }
}
