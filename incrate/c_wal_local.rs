// P18/P01: the log on a real local disk, watched through the system calls that make it durable.
use std::{
    collections::BTreeMap,
    sync::{
        Arc, Mutex,
        atomic::{AtomicU64, Ordering},
    },
    time::{Duration, Instant as StdInstant},
};

use fusio::{
    DynFs,
    disk::LocalFs,
    executor::tokio::TokioExecutor,
    fs::FsCas,
    path::Path,
};

use super::c_wal_log::{Cmd, Handle, gen_payload, open};
use crate::{
    mvcc::Timestamp,
    verif::{
        c_lib_aval::*,
        report::{Report, Rng, fpn, yields},
        syncs::{Scratch, watch},
    },
    wal::{
        WalConfig, WalSyncPolicy,
        frame::{FRAME_HEADER_SIZE, FrameHeader, decode_frame},
        replay::Replayer,
        state::{FsWalStateStore, WalStateStore},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[("wal_local", wal_local)];

/// Complete frames of a segment: sequence, end offset, event.
fn frames(data: &[u8]) -> Result<Vec<(u64, u64, crate::wal::frame::WalEvent)>, String> {
    let mut out = Vec::new();
    let mut rest = data;
    while let Ok((h, tail)) = FrameHeader::decode_from(rest) {
        let p = &rest[FRAME_HEADER_SIZE..FRAME_HEADER_SIZE + h.len as usize];
        let ev = decode_frame(h.frame_type, p).map_err(|e| e.to_string())?;
        out.push((h.seq, (data.len() - tail.len()) as u64, ev));
        rest = tail;
    }
    Ok(out)
}

/// What the policy promises about everything acknowledged up to now, while nothing is in flight.
fn owed(cfg: &WalConfig, s: &Scratch, acked: u64, sequential: bool) -> Result<(), String> {
    let segs = s.segments();
    match cfg.sync {
        WalSyncPolicy::Always => {
            for (n, (_, data, synced, calls)) in &segs {
                for (seq, end, _) in frames(data)? {
                    if seq <= acked && end > *synced {
                        return Err(format!("frame {seq} is acknowledged under Always but only {synced} bytes of segment {n} were synced ({calls} syncs), the frame ends at {end}"));
                    }
                }
            }
        }
        WalSyncPolicy::IntervalBytes(limit) if sequential => {
            let open: u64 = segs.values().map(|x| (x.1.len() as u64).saturating_sub(x.2)).sum();
            if open >= limit.max(1) as u64 {
                return Err(format!("{open} acknowledged bytes are not synced although the policy syncs every {limit}"));
            }
        }
        _ => {}
    }
    if !matches!(cfg.sync, WalSyncPolicy::Disabled) && sequential {
        // Every segment but the last was rotated away.
        let last = segs.keys().next_back().copied();
        for (n, (_, data, synced, _)) in &segs {
            if Some(*n) != last && (data.len() as u64) > *synced {
                return Err(format!("segment {n} was rotated away with {} bytes, {synced} of them synced", data.len()));
            }
        }
    }
    Ok(())
}
fn unsynced(s: &Scratch) -> u64 {
    s.segments().values().map(|x| (x.1.len() as u64).saturating_sub(x.2)).sum()
}

struct Shared {
    acks: Mutex<Vec<(u64, Cmd)>>,
    sent: Mutex<Vec<Cmd>>,
    errors: AtomicU64,
    first_error: Mutex<Option<String>>,
    bad: Mutex<Option<String>>,
    evals: AtomicU64,
}

async fn client(h: Handle, mut rng: Rng, l: Layout, n: usize, cfg: WalConfig, s: Arc<Scratch>, sh: Arc<Shared>, sequential: bool) {
    for _ in 0..n {
        let id = h.next_provisional_id();
        let ts = 1 + rng.below(1000);
        let cmd = match rng.below(8) {
            0 => Cmd::Begin(id),
            1 | 2 => Cmd::Commit(id, ts),
            3 => Cmd::Abort(id),
            _ => gen_payload(&mut rng, &l, id, ts),
        };
        sh.sent.lock().unwrap().push(cmd.clone());
        let t = match &cmd {
            Cmd::Begin(i) => h.txn_begin(*i).await,
            Cmd::Rows(i, b, t) => h.txn_append(*i, b, Timestamp::new(*t)).await,
            Cmd::Del(i, b, _) => h.txn_append_delete(*i, b.clone()).await,
            Cmd::Commit(i, t) => h.txn_commit(*i, Timestamp::new(*t)).await,
            Cmd::Abort(i) => h.txn_abort(*i).await,
        };
        let r = match t {
            Ok(t) => t.durable().await,
            Err(e) => Err(e),
        };
        match r {
            Ok(a) => {
                sh.acks.lock().unwrap().push((a.last_seq, cmd));
                sh.evals.fetch_add(1, Ordering::SeqCst);
                if let Err(e) = owed(&cfg, &s, a.last_seq, sequential) {
                    sh.bad.lock().unwrap().get_or_insert(e);
                    return;
                }
            }
            Err(e) => {
                sh.errors.fetch_add(1, Ordering::SeqCst);
                sh.first_error.lock().unwrap().get_or_insert(e.to_string());
                return;
            }
        }
        if rng.chance(1, 6) && h.rotate().await.is_ok() && sequential {
            sh.evals.fetch_add(1, Ordering::SeqCst);
            if let Err(e) = owed(&cfg, &s, 0, true) {
                sh.bad.lock().unwrap().get_or_insert(e);
                return;
            }
        }
        if rng.chance(1, 4) {
            yields(rng.below(3) as u32).await;
        }
    }
}

fn wal_local(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let l = Layout::random(&mut rng, &ALL, 2);
    let s = match Scratch::new(seed) {
        Ok(s) => Arc::new(s),
        Err(e) => return rep.note(&format!("no scratch directory: {e}")),
    };
    let Ok(dir) = Path::from_filesystem_path(s.wal()) else { return rep.note("scratch path not usable") };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("rt");
    let state = rng.chance(1, 2);
    rt.block_on(async {
        let exec = Arc::new(TokioExecutor::default());
        // Commands the log must hold, by frame sequence; those that may or may not be in it.
        let mut must: BTreeMap<u64, Cmd> = BTreeMap::new();
        let mut maybe: Vec<Cmd> = Vec::new();
        let gens = 1 + rng.idx(3);
        for generation in 0..gens {
            let fs: Arc<dyn DynFs> = Arc::new(LocalFs {});
            let cas: Arc<dyn FsCas> = Arc::new(LocalFs {});
            let cfg = WalConfig {
                dir: dir.clone(),
                segment_backend: fs,
                state_store: state.then(|| Arc::new(FsWalStateStore::new(cas)) as Arc<dyn WalStateStore>),
                segment_max_bytes: *rng.pick(&[0usize, 1, 300, 1500, 64 << 20]),
                // Far in the future as well: it must not put a nearer sync off.
                segment_max_age: rng.chance(1, 3).then(|| if rng.chance(1, 2) { Duration::from_secs(600) } else { Duration::from_millis(1 + rng.below(3)) }),
                flush_interval: *rng.pick(&[Duration::ZERO, Duration::from_millis(1), Duration::from_secs(5)]),
                sync: match rng.below(6) {
                    0 | 1 => WalSyncPolicy::Always,
                    2 | 3 => WalSyncPolicy::IntervalBytes(*rng.pick(&[1usize, 100, 500, 2000])),
                    4 => WalSyncPolicy::IntervalTime(Duration::from_millis(if rng.chance(1, 2) { rng.below(4) } else { 20 + rng.below(30) })),
                    _ => WalSyncPolicy::Disabled,
                },
                queue_size: *rng.pick(&[1usize, 2, 64]),
                ..WalConfig::default()
            };
            rep.log(format!("generation {generation}: {cfg:?}"));
            // What an earlier writer with another policy left unsynced is not this one's to sync.
            for (p, data, ..) in s.segments().into_values() {
                watch(|w| w.len.insert(p, data.len() as u64));
            }
            let h = match open(&exec, &cfg).await {
                Ok(h) => h,
                Err(e) => return rep.violate(format!("opening the log on a local disk failed: {e}")),
            };
            let tasks = *rng.pick(&[1usize, 1, 2, 3]);
            // Age-based rotation acts by itself: only what was acknowledged is judged then.
            let sequential = tasks == 1 && cfg.segment_max_age.is_none_or(|a| a > Duration::from_secs(60));
            let failing = rng.chance(1, 5);
            if failing {
                let at = rng.below(6) as i64;
                watch(|w| w.fail.insert(s.wal(), at));
            }
            let sh = Arc::new(Shared { acks: Mutex::default(), sent: Mutex::default(), errors: AtomicU64::new(0), first_error: Mutex::default(), bad: Mutex::new(None), evals: AtomicU64::new(0) });
            let futs: Vec<_> = (0..tasks).map(|_| client(h.clone(), rng.fork(), l.clone(), 1 + rng.idx(8), cfg.clone(), s.clone(), sh.clone(), sequential)).collect();
            futures::future::join_all(futs).await;
            let g = fpn(&[seed, generation as u64]);
            rep.count("sync_policy_judgements", sh.evals.load(Ordering::SeqCst));
            let bad = sh.bad.lock().unwrap().take();
            if !rep.check(fpn(&[g, 1]), bad.is_none(), || bad.unwrap_or_default()) {
                return;
            }
            let hit = watch(|w| w.failed.get(&s.wal()).copied().unwrap_or(0));
            rep.count("sync_failures_injected", hit);
            if sh.errors.load(Ordering::SeqCst) > 0 && hit == 0 {
                let e = sh.first_error.lock().unwrap().take();
                return rep.violate(format!("a submission failed although no sync call failed: {}", e.unwrap_or_default()));
            }
            // Nothing submitted after a failed sync may be acknowledged past it.
            if hit > 0 && !matches!(cfg.sync, WalSyncPolicy::Disabled) {
                let id = h.next_provisional_id();
                let cmd = Cmd::Commit(id, 7);
                maybe.push(cmd);
                let r = match h.txn_commit(id, Timestamp::new(7)).await {
                    Ok(t) => t.durable().await,
                    Err(e) => Err(e),
                };
                rep.count("submissions_after_failed_sync", 1);
                if !rep.check(fpn(&[g, 7]), r.is_err(), || format!("a record submitted after a failed sync was acknowledged under {:?}", cfg.sync)) {
                    return;
                }
            }
            // A steady stream of writes does not put the time-driven sync off.
            if let (WalSyncPolicy::IntervalTime(_), false, true) = (&cfg.sync, failing, rng.chance(1, 2)) {
                let calls = |s: &Scratch| s.segments().values().map(|x| x.3).sum::<u64>();
                let before = calls(&s);
                let t0 = StdInstant::now();
                let mut n = 0u64;
                while calls(&s) == before && t0.elapsed() < Duration::from_secs(4) {
                    let id = h.next_provisional_id();
                    let r = match h.txn_abort(id).await {
                        Ok(t) => t.durable().await,
                        Err(e) => Err(e),
                    };
                    match r {
                        Ok(a) => sh.acks.lock().unwrap().push((a.last_seq, Cmd::Abort(id))),
                        Err(e) => return rep.violate(format!("a write failed: {e}")),
                    }
                    n += 1;
                }
                rep.count("writes_until_time_driven_sync", n);
                if !rep.check(fpn(&[g, 8]), calls(&s) > before, || format!("{n} writes in 4 s under {:?} and no sync", cfg.sync)) {
                    return;
                }
            }
            // Writes arriving at once, so that the writer takes them as one group and may rotate within
            // it: whatever the last of them needs is still done.
            if let (WalSyncPolicy::IntervalTime(_) | WalSyncPolicy::IntervalBytes(_), false, true) = (&cfg.sync, failing, rng.chance(3, 4)) {
                let mut tickets = Vec::new();
                for _ in 0..2 + rng.idx(5) {
                    let id = h.next_provisional_id();
                    let cmd = if rng.chance(1, 2) { Cmd::Abort(id) } else { gen_payload(&mut rng, &l, id, 5) };
                    let t = match &cmd {
                        Cmd::Abort(i) => h.txn_abort(*i).await,
                        Cmd::Rows(i, b, t) => h.txn_append(*i, b, Timestamp::new(*t)).await,
                        Cmd::Del(i, b, _) => h.txn_append_delete(*i, b.clone()).await,
                        _ => unreachable!(),
                    };
                    match t {
                        Ok(t) => tickets.push((t, cmd)),
                        Err(e) => return rep.violate(format!("a write failed: {e}")),
                    }
                }
                let mut last = 0;
                for (t, cmd) in tickets {
                    match t.durable().await {
                        Ok(a) => {
                            last = a.last_seq;
                            sh.acks.lock().unwrap().push((a.last_seq, cmd));
                        }
                        Err(e) => return rep.violate(format!("a write failed: {e}")),
                    }
                }
                rep.count("write_groups", 1);
                let r = owed(&cfg, &s, last, sequential);
                if !rep.check(fpn(&[g, 9]), r.is_ok(), || format!("after a group of writes: {}", r.unwrap_err())) {
                    return;
                }
            }
            // Time-driven syncs happen without further writes.
            if let (WalSyncPolicy::IntervalTime(_), false) = (&cfg.sync, failing) {
                let t0 = StdInstant::now();
                while unsynced(&s) > 0 && t0.elapsed() < Duration::from_secs(20) {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                rep.count("time_driven_syncs", 1);
                if !rep.check(fpn(&[g, 2]), unsynced(&s) == 0, || format!("{} acknowledged bytes still not synced 20 s after the last write under {:?}", unsynced(&s), cfg.sync)) {
                    return;
                }
            }
            let clean = rng.chance(2, 3);
            if clean {
                let r = h.clone().shutdown().await;
                let hit = watch(|w| w.failed.get(&s.wal()).copied().unwrap_or(0));
                if r.is_err() && hit == 0 {
                    return rep.violate(format!("shutdown failed: {r:?}"));
                }
                let left = unsynced(&s);
                if !rep.check(fpn(&[g, 3]), r.is_err() || matches!(cfg.sync, WalSyncPolicy::Disabled) || left == 0, || format!("clean shutdown under {:?} left {left} bytes of the log unsynced", cfg.sync)) {
                    return;
                }
            }
            let metrics = h.metrics();
            drop(h);
            if !clean {
                // The writer ends by itself once its last handle is gone; it lets go of the metrics then.
                let t0 = StdInstant::now();
                while Arc::strong_count(&metrics) > 1 && t0.elapsed() < Duration::from_secs(30) {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                if Arc::strong_count(&metrics) > 1 {
                    return rep.violate("the log writer still runs 30 s after its last handle was dropped".into());
                }
            }
            watch(|w| {
                w.fail.remove(&s.wal());
                w.failed.remove(&s.wal());
            });
            // The log on disk: what was acknowledged, in order, and nothing that was not submitted.
            let acks: Vec<(u64, Cmd)> = std::mem::take(&mut *sh.acks.lock().unwrap());
            let sent: Vec<Cmd> = std::mem::take(&mut *sh.sent.lock().unwrap());
            for (q, c) in &acks {
                if must.insert(*q, c.clone()).is_some() {
                    return rep.violate(format!("frame sequence {q} was acknowledged twice"));
                }
            }
            maybe.extend(sent);
            if !holds(rep, fpn(&[g, 4]), &s, &must, &maybe) {
                return;
            }
            // Power loss: what no sync covered may be gone, from any byte on.
            let mut lost = false;
            if rng.chance(1, 2) {
                let segs = s.segments();
                for (_, (p, data, synced, _)) in segs.iter().rev() {
                    let len = data.len() as u64;
                    let keep = if *synced >= len { len } else { synced + rng.below(len - synced + 1) };
                    if keep < len {
                        let Ok(f) = std::fs::OpenOptions::new().write(true).open(p) else { return };
                        if f.set_len(keep).is_err() {
                            return;
                        }
                        lost = true;
                        watch(|w| {
                            w.len.entry(p.clone()).and_modify(|l| *l = (*l).min(keep));
                        });
                    }
                    // A tear in an older segment hides the ones after it: stop at the newest.
                    break;
                }
                rep.count("power_losses", lost as u64);
            }
            if lost {
                let kept: std::collections::BTreeSet<u64> = s.segments().values().flat_map(|x| frames(&x.1).unwrap_or_default()).map(|f| f.0).collect();
                if matches!(cfg.sync, WalSyncPolicy::Always) {
                    let gone: Vec<u64> = acks.iter().map(|a| a.0).filter(|q| !kept.contains(q)).collect();
                    if !rep.check(fpn(&[g, 5]), gone.is_empty(), || format!("frames {gone:?} were acknowledged under Always and are lost with the power")) {
                        return;
                    }
                }
                must.retain(|q, _| kept.contains(q));
            }
            let cfg2 = WalConfig { dir: dir.clone(), ..cfg.clone() };
            match Replayer::new(cfg2).scan_with_floor(None).await {
                Ok(evs) => {
                    let mut want = must.values();
                    let mut next = want.next();
                    for e in &evs {
                        if next.is_some_and(|c| c.is(e)) {
                            next = want.next();
                        } else if !maybe.iter().any(|c| c.is(e)) {
                            return rep.violate(format!("replay returned a record nobody wrote: {e:?}").chars().take(500).collect());
                        }
                    }
                    rep.count("replayed_records", evs.len() as u64);
                    if !rep.check(fpn(&[g, 6, evs.len() as u64]), next.is_none(), || format!("replay of the log on disk lacks {} (or has it out of order)", next.map(|c| c.short()).unwrap_or_default())) {
                        return;
                    }
                }
                Err(e) => return rep.violate(format!("replay of the log on disk failed: {e}")),
            }
        }
        rep.sample(format!("{} acknowledged records in {} segments on disk", must.len(), s.segments().len()));
    });
}

fn holds(rep: &mut Report, f: u64, s: &Scratch, must: &BTreeMap<u64, Cmd>, maybe: &[Cmd]) -> bool {
    let mut seen: BTreeMap<u64, crate::wal::frame::WalEvent> = BTreeMap::new();
    let mut last = 0;
    for (n, (_, data, _, _)) in s.segments() {
        match frames(&data) {
            Ok(fr) => {
                for (q, _, ev) in fr {
                    if q <= last {
                        rep.violate(format!("frame sequence {q} in segment {n} follows {last}"));
                        return false;
                    }
                    last = q;
                    seen.insert(q, ev);
                }
            }
            Err(e) => {
                rep.violate(format!("segment {n} on disk is damaged: {e}"));
                return false;
            }
        }
    }
    let bad = must.iter().find(|(q, c)| !seen.get(q).is_some_and(|e| c.is(e)));
    if !rep.check(f, bad.is_none(), || format!("acknowledged frame {:?} is not what the disk holds", bad.map(|(q, c)| (q, c.short())))) {
        return false;
    }
    let odd = seen.iter().find(|(q, e)| !must.contains_key(q) && !maybe.iter().any(|c| c.is(e)));
    rep.check(fpn(&[f, 1]), odd.is_none(), || format!("the disk holds a frame nobody wrote: {:?}", odd.map(|x| x.0)))
}
