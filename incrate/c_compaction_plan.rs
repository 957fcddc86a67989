// P16/P15/P04: planning, job queue, cascade budget and the version edits of a compaction.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{Arc, Mutex},
    time::Duration,
};

use fusio::{executor::Instant, path::Path};

use super::super::{CascadeControl, CascadeDecision};
use crate::{
    compaction::{
        executor::{CompactionOutcome},
        orchestrator,
        planner::{
            CompactionInput, CompactionPlanner, CompactionSnapshot, CompactionStrategy, CompactionTask, LeveledCompactionPlanner,
            LeveledPlannerConfig,
        },
        scheduler::{CompactionScheduleError, CompactionScheduler, ScheduledCompaction},
    },
    id::FileId,
    key::KeyOwned,
    manifest::{SstEntry, TableId, VersionEdit, VersionState, WalSegmentRef},
    mvcc::Timestamp,
    ondisk::sstable::{SsTableDescriptor, SsTableId, SsTableStats},
    verif::{
        c_lib_aval::*,
        report::{Report, Rng, fpn, fps, yields},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[
    ("plan_rules", plan_rules),
    ("plan_progress", plan_progress),
    ("plan_edits", plan_edits),
    ("plan_queue", plan_queue),
    ("plan_cascade", plan_cascade),
];

#[derive(Clone, Debug)]
struct F {
    id: u64,
    bytes: usize,
    range: Option<(MKey, MKey)>,
    stats: bool,
    wal: Option<Vec<u64>>,
    max_ts: Option<u64>,
    rows: usize,
}

struct World {
    layout: Layout,
    levels: BTreeMap<usize, Vec<F>>,
    wal: Vec<(u64, u64)>,
    next: u64,
}

fn file_id(n: u64) -> FileId {
    FileId::from(0xabc0_0000_0000_0000u128 + u128::from(n))
}

fn mk_cmp(a: &MKey, b: &MKey) -> std::cmp::Ordering {
    for (x, y) in a.0.iter().zip(&b.0) {
        let o = x.rank(y);
        if o != std::cmp::Ordering::Equal {
            return o;
        }
    }
    std::cmp::Ordering::Equal
}

impl World {
    fn key(&self, rng: &mut Rng) -> MKey {
        let row = self.layout.gen_row(rng);
        self.layout.key_of(&row)
    }
    fn file(&mut self, rng: &mut Rng, sparse: bool) -> F {
        self.next += 1 + rng.below(3);
        let stats = !sparse || rng.chance(5, 6);
        let range = (stats && (!sparse || rng.chance(7, 8))).then(|| {
            let (a, b) = (self.key(rng), self.key(rng));
            if mk_cmp(&a, &b).is_le() { (a, b) } else { (b, a) }
        });
        F {
            id: self.next,
            bytes: rng.idx(1000),
            range,
            stats,
            wal: (!sparse || rng.chance(5, 6)).then(|| (0..rng.idx(3)).map(|_| rng.below(8)).collect()),
            max_ts: rng.chance(7, 8).then(|| rng.below(1000)),
            rows: rng.idx(100),
        }
    }
    fn random(rng: &mut Rng, sparse: bool, big: bool) -> World {
        let layout = Layout::random(rng, &ROWABLE, 2);
        let mut w = World { layout, levels: BTreeMap::new(), wal: vec![], next: rng.below(5) };
        for l in 0..(1 + rng.idx(5)) {
            if rng.chance(1, 5) {
                continue;
            }
            let n = if big { rng.idx(16) } else { rng.idx(6) };
            for _ in 0..n {
                let f = w.file(rng, sparse);
                w.levels.entry(l).or_default().push(f);
            }
        }
        let mut seq = rng.below(3);
        for _ in 0..rng.idx(7) {
            w.wal.push((seq, rng.below(8)));
            seq += if rng.chance(1, 4) { 2 + rng.below(2) } else { 1 };
        }
        w
    }
    fn stats(&self, f: &F) -> Option<SsTableStats> {
        f.stats.then(|| SsTableStats {
            rows: f.rows,
            bytes: f.bytes,
            tombstones: 0,
            min_key: f.range.as_ref().map(|r| self.layout.owned_key(&r.0)),
            max_key: f.range.as_ref().map(|r| self.layout.owned_key(&r.1)),
            min_commit_ts: f.max_ts.map(|t| Timestamp::new(t / 2)),
            max_commit_ts: f.max_ts.map(Timestamp::new),
        })
    }
    fn entry(&self, f: &F) -> SstEntry {
        SstEntry::new(
            SsTableId::new(f.id),
            self.stats(f),
            f.wal.as_ref().map(|w| w.iter().map(|i| file_id(*i)).collect()),
            Path::parse(format!("sst/{}.parquet", f.id)).unwrap(),
            (f.id % 2 == 0).then(|| Path::parse(format!("sst/{}.delete.parquet", f.id)).unwrap()),
        )
    }
    fn segs(&self) -> Vec<WalSegmentRef> {
        self.wal.iter().map(|(s, f)| WalSegmentRef::new(*s, file_id(*f), 0, 9)).collect()
    }
    fn version(&self) -> VersionState {
        let mut v = VersionState::empty(TableId::from(FileId::from(7u128)));
        let mut edits: Vec<VersionEdit> = self
            .levels
            .iter()
            .filter(|(_, f)| !f.is_empty())
            .map(|(l, fs)| VersionEdit::AddSsts { level: *l as u32, entries: fs.iter().map(|f| self.entry(f)).collect() })
            .collect();
        edits.push(VersionEdit::SetWalSegments { segments: self.segs() });
        v.apply_edits(&edits).expect("additions apply");
        v
    }
    fn find(&self, level: usize, id: u64) -> Option<&F> {
        self.levels.get(&level)?.iter().find(|f| f.id == id)
    }
    fn show(&self) -> String {
        self.levels
            .iter()
            .map(|(l, f)| {
                format!("L{l}: {}", f.iter().map(|f| format!("{}({}b {:?})", f.id, f.bytes, f.range.as_ref().map(|r| (&r.0.0, &r.1.0)))).collect::<Vec<_>>().join(" "))
            })
            .collect::<Vec<_>>()
            .join("\n")
    }
}

fn gen_cfg(rng: &mut Rng) -> LeveledPlannerConfig {
    LeveledPlannerConfig {
        l0_trigger: 1 + rng.idx(8),
        l0_max_inputs: rng.idx(8),
        l0_max_bytes: rng.chance(1, 3).then(|| rng.idx(3000)),
        level_thresholds: (0..rng.idx(5)).map(|_| rng.idx(8)).collect(),
        level_max_bytes: (0..rng.idx(4)).map(|_| rng.chance(1, 2).then(|| rng.idx(3000))).collect(),
        max_inputs_per_task: rng.idx(7),
        max_task_bytes: rng.chance(1, 3).then(|| rng.idx(2500)),
    }
}

fn bytes(fs: &[F]) -> usize {
    fs.iter().map(|f| if f.stats { f.bytes } else { 0 }).sum()
}

/// Levels that exceed their limits.
fn over(w: &World, c: &LeveledPlannerConfig) -> Vec<usize> {
    let mut out = Vec::new();
    for (l, fs) in &w.levels {
        if fs.is_empty() {
            continue;
        }
        let o = if *l == 0 {
            fs.len() >= c.l0_trigger || c.l0_max_bytes.is_some_and(|cap| bytes(fs) >= cap)
        } else {
            match c.level_thresholds.get(l - 1) {
                None => false,
                Some(limit) => fs.len() > *limit || c.level_max_bytes.get(l - 1).and_then(|b| *b).is_some_and(|cap| bytes(fs) >= cap),
            }
        };
        if o {
            out.push(*l);
        }
    }
    out
}

/// Everything a plan must satisfy. Returns an error description.
fn judge(w: &World, c: &LeveledPlannerConfig, t: &CompactionTask) -> Option<String> {
    if !w.levels.get(&t.source_level).is_some_and(|f| !f.is_empty()) {
        return Some(format!("source level {} holds no table", t.source_level));
    }
    if t.target_level <= t.source_level {
        return Some(format!("moves data from level {} to level {}", t.source_level, t.target_level));
    }
    let mut seen = BTreeSet::new();
    let mut src = Vec::new();
    let mut all = Vec::new();
    for i in &t.input {
        let id = i.sst_id.raw();
        let Some(f) = w.find(i.level, id) else {
            return Some(format!("input table {id} is not in level {}", i.level));
        };
        if !seen.insert(id) {
            return Some(format!("input table {id} is listed twice"));
        }
        if i.level == t.source_level {
            src.push(f);
        } else if i.level != t.target_level {
            return Some(format!("input table {id} of level {} is neither source nor target", i.level));
        }
        all.push(f);
    }
    if src.is_empty() {
        return Some("no input from the source level".into());
    }
    let cap = if t.source_level == 0 { c.l0_max_inputs } else { c.max_inputs_per_task }.max(1);
    if src.len() > cap {
        return Some(format!("{} source inputs exceed the limit {cap}", src.len()));
    }
    if let Some(b) = c.max_task_bytes {
        let sum: usize = src.iter().map(|f| if f.stats { f.bytes } else { 0 }).sum();
        if src.len() > 1 && sum > b {
            return Some(format!("{sum} source bytes exceed the limit {b}"));
        }
    }
    // Target-level tables overlapping the selected source tables come along.
    if t.source_level >= 1 && src.iter().all(|f| f.stats) {
        let ranges: Vec<_> = src.iter().filter_map(|f| f.range.clone()).collect();
        for f in w.levels.get(&t.target_level).into_iter().flatten() {
            let Some((lo, hi)) = &f.range else { continue };
            let hit = ranges.iter().any(|(a, b)| mk_cmp(lo, b).is_le() && mk_cmp(a, hi).is_le());
            if hit && !seen.contains(&f.id) {
                return Some(format!("overlapping table {} of level {} is left out", f.id, t.target_level));
            }
        }
    }
    if let Some((lo, hi)) = &t.key_range {
        let back = |k: &KeyOwned| w.layout.key_back(k);
        let (Some(lo), Some(hi)) = (back(lo), back(hi)) else {
            return Some("the key range cannot be read".into());
        };
        for f in &all {
            if let Some((a, b)) = &f.range {
                if mk_cmp(&lo, a).is_gt() || mk_cmp(&hi, b).is_lt() {
                    return Some(format!("the key range does not cover input table {}", f.id));
                }
            }
        }
    }
    None
}

fn plan_rules(seed: u64, r: &mut Report) {
    let mut rng = Rng::new(seed);
    let big = rng.chance(1, 2);
    let w = World::random(&mut rng, true, big);
    let v = w.version();
    // The planner sees exactly the tables of the version.
    let snap: CompactionSnapshot = (&v).into();
    let mut got: BTreeMap<usize, BTreeSet<u64>> = BTreeMap::new();
    let mut want: BTreeMap<usize, BTreeSet<u64>> = BTreeMap::new();
    for (l, fs) in &w.levels {
        if !fs.is_empty() {
            want.insert(*l, fs.iter().map(|f| f.id).collect());
        }
        let seen = snap.level(*l).map(|i| i.files().iter().map(|f| f.sst_id.raw()).collect::<BTreeSet<_>>()).unwrap_or_default();
        if !seen.is_empty() {
            got.insert(*l, seen);
        }
    }
    r.check(fpn(&[seed, 1]), got == want, || format!("the planner sees {got:?}, the version holds {want:?}"));
    for round in 0..8u64 {
        let c = gen_cfg(&mut rng);
        let p = LeveledCompactionPlanner::new(c.clone());
        let over = over(&w, &c);
        let plan = orchestrator::plan_from_version(&p, &v);
        r.log(format!("{c:?} over {over:?} -> {plan:?}"));
        let f = fpn(&[seed, round, over.len() as u64]);
        if plan.is_some() != !over.is_empty() {
            r.violate(format!("levels over their limits: {over:?}, but planned {:?}\n{c:?}\n{}", plan.as_ref().map(|t| t.source_level), w.show()));
            return;
        }
        match &plan {
            None => r.count("nothing to do", 1),
            Some(t) => {
                r.count("plans", 1);
                let e = judge(&w, &c, t);
                if !r.check(f, e.is_none(), || format!("invalid plan {t:?}: {}\n{c:?}\n{}", e.unwrap(), w.show())) {
                    return;
                }
                r.check(f ^ 1, over.contains(&t.source_level), || format!("planned level {} although only {over:?} exceed their limits", t.source_level));
            }
        }
        let again = CompactionPlanner::plan(&p, &snap);
        r.check(f ^ 2, again == plan, || "planning the same version twice differs".to_string());
        let boxed = CompactionStrategy::Leveled(c.clone()).build();
        r.check(f ^ 3, boxed.plan(&snap) == plan, || "the strategy wrapper plans differently".to_string());
        for min in 0..5usize {
            let t = orchestrator::plan_from_version_with_min_level(&p, &v, min);
            let t2 = boxed.plan_with_min_level(&snap, min);
            r.check(f ^ 4, t == t2, || format!("the strategy wrapper plans differently from level {min}"));
            let expect = over.iter().any(|l| *l >= min);
            r.check(f ^ (5 + min as u64), t.is_some() == expect, || format!("from level {min}: over {over:?}, planned {:?}", t.as_ref().map(|t| t.source_level)));
            if let Some(t) = &t {
                let e = judge(&w, &c, t);
                r.check(f ^ (16 + min as u64), e.is_none() && t.source_level >= min, || format!("invalid plan from level {min} {t:?}: {e:?}\n{}", w.show()));
            }
        }
    }
    r.sample(format!("plan_rules {seed}: levels {:?}", w.levels.iter().map(|(l, f)| (*l, f.len())).collect::<Vec<_>>()));
}

fn plan_progress(seed: u64, r: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut w = World::random(&mut rng, false, true);
    let c = gen_cfg(&mut rng);
    let p = LeveledCompactionPlanner::new(c.clone());
    let files: usize = w.levels.values().map(|f| f.len()).sum();
    let bound = files * 12 + 12;
    let mut steps = 0;
    loop {
        let v = w.version();
        let Some(t) = orchestrator::plan_from_version(&p, &v) else { break };
        steps += 1;
        let e = judge(&w, &c, &t);
        if !r.check(fpn(&[seed, steps as u64]), e.is_none(), || format!("step {steps}: invalid plan {t:?}: {}\n{}", e.unwrap(), w.show())) {
            return;
        }
        if steps > bound {
            r.violate(format!("compaction of {files} tables did not quiesce in {bound} steps\n{c:?}\n{}", w.show()));
            return;
        }
        // Merge: at most as many outputs as inputs, covering the inputs' keys.
        let ids: BTreeSet<u64> = t.input.iter().map(|i| i.sst_id.raw()).collect();
        let mut merged: Vec<F> = Vec::new();
        for fs in w.levels.values_mut() {
            fs.retain(|f| {
                if ids.contains(&f.id) {
                    merged.push(f.clone());
                    return false;
                }
                true
            });
        }
        let mut outs = 1 + rng.idx(merged.len());
        if rng.chance(1, 8) {
            outs = 0;
        }
        merged.truncate(outs);
        for mut f in merged {
            w.next += 1;
            f.id = w.next;
            w.levels.entry(t.target_level).or_default().push(f);
        }
    }
    r.count("steps to quiescence", steps as u64);
    r.eval(fpn(&[seed, files as u64, steps as u64]));
    let left = over(&w, &c);
    r.check(fpn(&[seed, 77]), left.is_empty(), || format!("planning stopped while levels {left:?} exceed their limits"));
}

fn plan_edits(seed: u64, r: &mut Report) {
    let mut rng = Rng::new(seed);
    let sparse = rng.chance(1, 2);
    let mut w = World::random(&mut rng, sparse, true);
    let c = gen_cfg(&mut rng);
    let v = w.version();
    let p = LeveledCompactionPlanner::new(c.clone());
    let Some(t) = orchestrator::plan_from_version(&p, &v) else { return r.count("nothing to do", 1) };
    r.log(format!("{}\nwal {:?}\n{t:?}", w.show(), w.wal));
    let inputs = match orchestrator::resolve_inputs(&v, &t) {
        Ok(i) => i,
        Err(e) => return r.violate(format!("a valid plan cannot be resolved: {e}")),
    };
    let wal_of = |d: &SsTableDescriptor| d.wal_ids().map(|w| w.iter().copied().collect::<Vec<FileId>>());
    let ok = inputs.len() == t.input.len()
        && inputs.iter().zip(&t.input).all(|(d, i)| {
            let f = w.find(i.level, i.sst_id.raw()).unwrap();
            let e = w.entry(f);
            d.id() == &i.sst_id
                && d.level() == i.level
                && d.data_path() == Some(e.data_path())
                && d.delete_path() == e.delete_path()
                && wal_of(d) == e.wal_segments().map(|x| x.to_vec())
                && d.stats().is_some() == f.stats
                && d.stats().is_none_or(|s| s.bytes == f.bytes && s.rows == f.rows && s.max_commit_ts.map(|t| t.get()) == f.max_ts)
        });
    r.check(fpn(&[seed, 1]), ok, || format!("resolved inputs differ from the version's tables: {inputs:?}"));
    // A stale plan is refused.
    let mut stale = t.clone();
    let k = rng.idx(stale.input.len());
    stale.input[k] = CompactionInput { level: stale.input[k].level + if rng.chance(1, 2) { 0 } else { 9 }, sst_id: SsTableId::new(w.next + 50) };
    r.check(fpn(&[seed, 2]), orchestrator::resolve_inputs(&v, &stale).is_err(), || "a plan naming a missing table was resolved".to_string());

    // Outputs of the merge.
    let mut outs_f = Vec::new();
    let mut outs = Vec::new();
    let union: Option<Vec<u64>> = t.input.iter().map(|i| w.find(i.level, i.sst_id.raw()).unwrap().wal.clone()).collect::<Option<Vec<_>>>().map(|v| v.concat());
    for _ in 0..rng.idx(4) {
        let mut f = w.file(&mut rng, sparse);
        // Merged tables carry their inputs' log ids; a merge may also have dropped some.
        f.wal = match rng.below(3) {
            0 => f.wal,
            _ => union.clone(),
        };
        let e = w.entry(&f);
        let mut d = SsTableDescriptor::new(SsTableId::new(f.id), t.target_level);
        if let Some(s) = w.stats(&f) {
            d = d.with_stats(s);
        }
        d = d.with_wal_ids(e.wal_segments().map(|x| x.to_vec())).with_storage_paths(e.data_path().clone(), e.delete_path().cloned());
        outs.push(d);
        outs_f.push(f);
    }
    if !outs.is_empty() && rng.chance(1, 6) {
        let mut broken = outs.clone();
        let k = rng.idx(broken.len());
        broken[k] = SsTableDescriptor::new(broken[k].id().clone(), t.target_level);
        let res = CompactionOutcome::from_outputs(broken, inputs.clone(), t.target_level as u32, None);
        r.check(fpn(&[seed, 3]), res.is_err(), || "an output without a storage path was accepted".to_string());
    }
    let mut outcome = match CompactionOutcome::from_outputs(outs.clone(), inputs.clone(), t.target_level as u32, None) {
        Ok(o) => o,
        Err(e) => return r.violate(format!("building the outcome failed: {e}")),
    };
    if rng.chance(2, 3) {
        outcome.obsolete_sst_ids = inputs.iter().map(|d| d.id().clone()).collect();
    }
    let existing = v.wal_segments().to_vec();
    orchestrator::reconcile_wal_segments(&v, &mut outcome, &existing, v.cloned_wal_floor());
    let edits = outcome.to_version_edits();
    let mut nv = v.clone();
    if let Err(e) = nv.apply_edits(&edits) {
        return r.violate(format!("the edits of a compaction do not apply: {e}"));
    }
    // Tables: inputs gone, outputs at the target level, everything else untouched.
    let ids: BTreeSet<u64> = t.input.iter().map(|i| i.sst_id.raw()).collect();
    let mut want: BTreeSet<(usize, u64)> = w.levels.iter().flat_map(|(l, f)| f.iter().map(move |f| (*l, f.id))).filter(|(_, i)| !ids.contains(i)).collect();
    want.extend(outs_f.iter().map(|f| (t.target_level, f.id)));
    let got: BTreeSet<(usize, u64)> = nv.ssts().iter().enumerate().flat_map(|(l, b)| b.iter().map(move |e| (l, e.sst_id().raw()))).collect();
    r.check(fpn(&[seed, 4]), got == want, || format!("after the compaction the version holds {got:?}, expected {want:?}"));
    for b in nv.ssts() {
        for e in b {
            let id = e.sst_id().raw();
            let f = w.levels.values().flatten().chain(&outs_f).find(|f| f.id == id);
            if let Some(f) = f {
                let m = w.entry(f);
                let same = m.data_path() == e.data_path() && m.delete_path() == e.delete_path() && m.wal_segments() == e.wal_segments() && e.stats().map(|s| (s.rows, s.bytes, s.max_commit_ts)) == m.stats().map(|s| (s.rows, s.bytes, s.max_commit_ts));
                r.check(fpn(&[seed, 5, id]), same, || format!("table {id} changed: {e:?} vs {m:?}"));
            }
        }
    }
    // Log segments: nothing referenced by a remaining table is released, the order is kept, and
    // segments between an unknown gap and the first needed one stay.
    let live: Option<BTreeSet<u64>> = {
        let rest = w.levels.values().flatten().filter(|f| !ids.contains(&f.id)).chain(&outs_f);
        let mut s = BTreeSet::new();
        let mut known = true;
        for f in rest {
            match &f.wal {
                Some(x) => s.extend(x.iter().copied()),
                None => known = false,
            }
        }
        known.then_some(s)
    };
    let final_segs = nv.wal_segments().to_vec();
    let mut pos = 0;
    for s in &final_segs {
        match existing[pos..].iter().position(|x| x == s) {
            Some(k) => pos += k + 1,
            None => {
                r.violate(format!("log segments after compaction are not a subsequence: {final_segs:?} of {existing:?}"));
                return;
            }
        }
    }
    match &live {
        None => {
            r.check(fpn(&[seed, 6]), final_segs == existing, || "log segments changed although a table does not know its segments".to_string());
        }
        Some(live) => {
            for s in &existing {
                let needed = live.iter().any(|i| file_id(*i) == *s.file_id());
                if needed {
                    r.check(fpn(&[seed, 7, s.seq()]), final_segs.contains(s), || format!("log segment {} is still referenced by a table but was dropped", s.seq()));
                }
            }
            // With a hole in the list, segments nobody listed may exist: what lies before the first
            // one still needed has to stay.
            let hole = existing.windows(2).any(|p| p[1].seq() > p[0].seq() + 1);
            let first = existing.iter().position(|s| live.iter().any(|i| file_id(*i) == *s.file_id()));
            if let (true, Some(first)) = (hole, first) {
                r.count("log lists with holes", 1);
                r.check(fpn(&[seed, 14, first as u64]), final_segs.starts_with(&existing[..=first]), || {
                    format!("the log list {:?} has a hole, but after the compaction it is {:?}", existing.iter().map(|s| s.seq()).collect::<Vec<_>>(), final_segs.iter().map(|s| s.seq()).collect::<Vec<_>>())
                });
            }
            r.count("log sets judged", 1);
        }
    }
    r.check(fpn(&[seed, 8]), nv.cloned_wal_floor() == final_segs.first().cloned(), || "the log floor is not the first retained segment".to_string());
    let mut o2 = outcome.obsolete_wal_segments.clone();
    let dropped: Vec<WalSegmentRef> = existing.iter().filter(|s| !final_segs.contains(s)).cloned().collect();
    o2.retain(|s| final_segs.contains(s));
    r.check(fpn(&[seed, 9]), o2.is_empty() && outcome.obsolete_wal_segments == dropped, || {
        format!("segments marked obsolete {:?}, dropped from the version {dropped:?}", outcome.obsolete_wal_segments)
    });
    // Collection plan.
    match orchestrator::gc_plan_from_outcome(&outcome) {
        Err(e) => r.violate(format!("no collection plan: {e}")),
        Ok(None) => r.violate("inputs were replaced but nothing is scheduled for collection".to_string()),
        Ok(Some(plan)) => {
            let got: BTreeSet<(u64, usize, String, Option<String>)> = plan
                .obsolete_ssts
                .iter()
                .map(|g| (g.id.raw(), g.level as usize, g.data_path.as_ref().to_string(), g.delete_path.as_ref().map(|p| p.as_ref().to_string())))
                .collect();
            let want: BTreeSet<_> = t
                .input
                .iter()
                .map(|i| {
                    let e = w.entry(w.find(i.level, i.sst_id.raw()).unwrap());
                    (i.sst_id.raw(), i.level, e.data_path().as_ref().to_string(), e.delete_path().map(|p| p.as_ref().to_string()))
                })
                .collect();
            r.check(fpn(&[seed, 10]), got == want, || format!("scheduled for collection {got:?}, replaced {want:?}"));
            let live: BTreeSet<String> = nv.ssts().iter().flatten().flat_map(|e| [Some(e.data_path().as_ref().to_string()), e.delete_path().map(|p| p.as_ref().to_string())]).flatten().collect();
            let bad: Vec<_> = got.iter().filter(|g| live.contains(&g.2) || g.3.as_ref().is_some_and(|p| live.contains(p))).collect();
            r.check(fpn(&[seed, 11]), bad.is_empty(), || format!("files of the new version are scheduled for collection: {bad:?}"));
            let wal_ok = plan.obsolete_wal_segments.iter().all(|s| !final_segs.contains(s));
            r.check(fpn(&[seed, 12]), wal_ok, || "a retained log segment is scheduled for collection".to_string());
        }
    }
    let wm = outs_f.iter().filter(|f| f.stats).filter_map(|f| f.max_ts).max();
    let mark = serde_json::to_value(&nv).ok().and_then(|v| v.get("tombstone_watermark").and_then(|x| x.as_u64()));
    r.check(fpn(&[seed, 13]), wm.is_none() || mark == wm, || format!("tombstone watermark {mark:?}, newest output commit {wm:?}"));
    r.eval(fps(&format!("{:?}{:?}", want, w.wal)));
}

fn task(id: u64) -> CompactionTask {
    CompactionTask { source_level: 0, target_level: 1, input: vec![CompactionInput { level: 0, sst_id: SsTableId::new(id) }], key_range: None }
}

fn plan_queue(seed: u64, r: &mut Report) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let mut rng = Rng::new(seed);
        let cap = rng.idx(5);
        let budget = rng.idx(5);
        let (sch, mut rx) = CompactionScheduler::new(cap, budget);
        let (cap, budget) = (cap.max(1), budget.max(1));
        // Sequential phase against an exact model.
        let mut queue: std::collections::VecDeque<(u64, Option<u64>)> = Default::default();
        let mut next = 1u64;
        let mut leases = BTreeSet::new();
        for step in 0..(10 + rng.below(20)) {
            if rng.chance(3, 5) {
                let head = rng.chance(1, 2).then(|| rng.below(9));
                let handle = if rng.chance(1, 3) { sch.clone() } else { sch.clone() };
                let res = handle.enqueue(task(next), head.map(Timestamp::new), "o", 5).await;
                let fits = queue.len() < cap;
                let good = match &res {
                    Ok(()) => fits,
                    Err(CompactionScheduleError::Full) => !fits,
                    Err(CompactionScheduleError::Closed) => false,
                };
                if !r.check(fpn(&[seed, step, queue.len() as u64]), good, || format!("enqueue with {} of {cap} queued returned {res:?}", queue.len())) {
                    return;
                }
                if res.is_ok() {
                    queue.push_back((next, head));
                }
                next += 1;
            } else {
                let ran: Arc<Mutex<Vec<ScheduledCompaction>>> = Arc::default();
                let done: Arc<Mutex<usize>> = Arc::default();
                let mut delay = rng.fork();
                let res = sch
                    .drain_with_budget(&mut rx, |j| {
                        ran.lock().unwrap().push(j);
                        let n = delay.below(4) as u32;
                        let done = done.clone();
                        async move {
                            yields(n).await;
                            *done.lock().unwrap() += 1;
                        }
                    })
                    .await;
                let ran = ran.lock().unwrap();
                let want: Vec<_> = queue.drain(..budget.min(queue.len())).collect();
                let got: Vec<_> = ran.iter().map(|j| (j.task.input[0].sst_id.raw(), j.manifest_head.map(|t| t.get()))).collect();
                let all_done = *done.lock().unwrap() == got.len();
                for j in ran.iter() {
                    if !leases.insert(j.lease.id) {
                        r.violate("two jobs share a lease".into());
                    }
                    if j.lease.ttl_ms != 5 || j.lease.owner != "o" || j.task != task(j.task.input[0].sst_id.raw()) {
                        r.violate(format!("a job changed in the queue: {j:?}"));
                    }
                }
                if !r.check(fpn(&[seed, step, 1]), res.is_ok() && got == want && all_done, || format!("drained {got:?} (finished {all_done}, {res:?}), expected {want:?}")) {
                    return;
                }
                r.count("jobs run", got.len() as u64);
            }
        }
        // Concurrent producers and one worker.
        let (sch, mut rx) = CompactionScheduler::new(cap, budget);
        let accepted: Arc<Mutex<Vec<u64>>> = Arc::default();
        let mut tasks = Vec::new();
        for p in 0..3u64 {
            let (s, a, mut rng) = (sch.clone(), accepted.clone(), rng.fork());
            tasks.push(tokio::spawn(async move {
                for i in 0..6u64 {
                    let id = p * 100 + i;
                    for _ in 0..3 {
                        if s.enqueue(task(id), None, "o", 5).await.is_ok() {
                            a.lock().unwrap().push(id);
                            break;
                        }
                        yields(rng.below(3) as u32 + 1).await;
                    }
                    yields(rng.below(3) as u32).await;
                }
            }));
        }
        let ran: Arc<Mutex<Vec<u64>>> = Arc::default();
        for _ in 0..200 {
            let _ = sch
                .drain_with_budget(&mut rx, |j| {
                    let ran = ran.clone();
                    let n = rng.below(3) as u32;
                    async move {
                        yields(n).await;
                        ran.lock().unwrap().push(j.task.input[0].sst_id.raw());
                    }
                })
                .await;
            yields(1).await;
            if tasks.iter().all(|t| t.is_finished()) {
                break;
            }
        }
        for t in tasks {
            let _ = t.await;
        }
        for _ in 0..20 {
            let ran = ran.clone();
            let _ = sch.drain_with_budget(&mut rx, |j| { ran.lock().unwrap().push(j.task.input[0].sst_id.raw()); async {} }).await;
        }
        let (mut a, mut b) = (accepted.lock().unwrap().clone(), ran.lock().unwrap().clone());
        a.sort();
        b.sort();
        r.check(fpn(&[seed, 99, a.len() as u64]), a == b, || format!("accepted jobs {a:?}, run {b:?}"));
        drop(rx);
        let res = sch.enqueue(task(1), None, "o", 5).await;
        r.check(fpn(&[seed, 98]), matches!(res, Err(CompactionScheduleError::Closed)), || format!("enqueue without a worker returned {res:?}"));
    });
}

fn plan_cascade(seed: u64, r: &mut Report) {
    let mut rng = Rng::new(seed);
    let max = rng.idx(4);
    let cool = Duration::from_millis(rng.below(20));
    let mut c = CascadeControl::new(max, cool);
    let start = Instant::now();
    let (mut now, mut left, mut last) = (0u64, max, None::<u64>);
    for step in 0..30u64 {
        match rng.below(6) {
            0 => {
                c.reset_budget();
                left = max;
            }
            _ => {
                now += rng.below(12);
                let got = c.try_acquire(start + Duration::from_millis(now));
                let want = if left == 0 {
                    "budget"
                } else if last.is_some_and(|l| now - l < cool.as_millis() as u64) {
                    "cooldown"
                } else {
                    left -= 1;
                    last = Some(now);
                    "allowed"
                };
                let g = match got {
                    CascadeDecision::Allowed => "allowed",
                    CascadeDecision::BudgetExhausted => "budget",
                    CascadeDecision::CooldownActive => "cooldown",
                };
                r.check(fpn(&[seed, step, fps(want)]), g == want, || format!("step {step}: follow-up {g}, expected {want} (budget {left}/{max}, cooldown {cool:?})"));
            }
        }
    }
}
