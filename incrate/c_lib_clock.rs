// P05/P19: commit clock and file identifiers under concurrent use.
use std::sync::{Barrier, Mutex};

use crate::{
    id::FileIdGenerator,
    mvcc::{CommitClock, Timestamp},
    verif::report::{Report, Rng, fpn},
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[("clock_hist", clock_hist), ("clock_threads", clock_threads)];

/// Sequential history against the obvious model.
fn clock_hist(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let start = *rng.pick(&[0u64, 1, 2, 100, 1 << 40]);
    let dflt = start == 0 && rng.chance(1, 2);
    let c = if dflt { CommitClock::default() } else { CommitClock::new(Timestamp::new(start)) };
    let mut next = c.peek().get();
    if !dflt && !rep.check(fpn(&[1, start]), next == start, || format!("clock started at {start} hands out {next} next")) {
        return;
    }
    for i in 0..20 + rng.idx(30) {
        match rng.below(4) {
            0 => {
                let p = c.peek().get();
                if !rep.check(fpn(&[2, i as u64]), p == next, || format!("peek {p}, want {next}")) {
                    return;
                }
            }
            1 => {
                let t = match rng.below(3) {
                    0 => next.saturating_sub(rng.below(5)),
                    1 => next + rng.below(3),
                    _ => next + rng.below(1000),
                };
                rep.log(format!("advance to {t} at {next}"));
                c.advance_to_at_least(Timestamp::new(t));
                next = next.max(t);
                let p = c.peek().get();
                if !rep.check(fpn(&[3, (t > next) as u64, i as u64]), p == next, || format!("after advancing to at least {t}: next {p}, want {next}")) {
                    return;
                }
            }
            _ => {
                let a = c.alloc().get();
                if !rep.check(fpn(&[4, i as u64]), a == next, || format!("allocated {a}, want {next}")) {
                    return;
                }
                next += 1;
            }
        }
    }
    // Timestamp arithmetic used for snapshot bounds.
    let t = Timestamp::new(*rng.pick(&[0u64, 1, 5, u64::MAX - 1, u64::MAX]));
    let d = *rng.pick(&[0u64, 1, 2, u64::MAX]);
    let ok = t.next().get() == t.get().saturating_add(1) && t.saturating_add(d).get() == t.get().saturating_add(d) && t.saturating_sub(d).get() == t.get().saturating_sub(d);
    rep.check(fpn(&[5, t.get(), d]), ok, || format!("timestamp arithmetic at {t:?} by {d}"));
}

fn clock_threads(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let c = CommitClock::new(Timestamp::new(rng.below(3)));
    let ids = FileIdGenerator::default();
    let threads = 2 + rng.idx(3);
    let ops = 200;
    let bar = Barrier::new(threads);
    let errs: Mutex<Vec<String>> = Mutex::default();
    let all: Mutex<(Vec<u64>, Vec<u128>)> = Mutex::default();
    let seeds: Vec<u64> = (0..threads).map(|_| rng.next()).collect();
    let top = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for sd in seeds {
            let (c, ids, bar, errs, all, top) = (&c, &ids, &bar, &errs, &all, &top);
            s.spawn(move || {
                let mut rng = Rng::new(sd);
                let (mut got, mut fids) = (Vec::new(), Vec::new());
                let mut floor = 0u64;
                bar.wait();
                for _ in 0..ops {
                    match rng.below(6) {
                        0 => {
                            let p = c.peek().get();
                            if p < floor {
                                errs.lock().unwrap().push(format!("clock went back to {p} after {floor}"));
                            }
                            floor = floor.max(p);
                        }
                        1 => {
                            let t = c.peek().get() + rng.below(4);
                            c.advance_to_at_least(Timestamp::new(t));
                            top.fetch_max(t, std::sync::atomic::Ordering::SeqCst);
                            floor = floor.max(t);
                            let p = c.peek().get();
                            if p < t {
                                errs.lock().unwrap().push(format!("next {p} after advancing to at least {t}"));
                            }
                        }
                        2 => fids.push(u128::from(ids.generate())),
                        _ => {
                            let a = c.alloc().get();
                            if a < floor {
                                errs.lock().unwrap().push(format!("allocated {a} although {floor} was promised"));
                            }
                            floor = floor.max(a + 1);
                            got.push(a);
                        }
                    }
                }
                if fids.windows(2).any(|w| w[0] >= w[1]) {
                    errs.lock().unwrap().push("file identifiers of one thread are not increasing".into());
                }
                let mut g = all.lock().unwrap();
                g.0.extend(got);
                g.1.extend(fids);
            });
        }
    });
    for e in errs.into_inner().unwrap() {
        rep.violate(e);
    }
    let (mut a, mut f) = all.into_inner().unwrap();
    let (na, nf) = (a.len(), f.len());
    a.sort_unstable();
    a.dedup();
    f.sort_unstable();
    f.dedup();
    rep.check(fpn(&[1, na as u64]), a.len() == na, || format!("{} of {na} commit timestamps were handed out twice", na - a.len()));
    rep.check(fpn(&[2, nf as u64]), f.len() == nf, || format!("{} of {nf} file identifiers repeat", nf - f.len()));
    let end = c.peek().get();
    let t = top.load(std::sync::atomic::Ordering::SeqCst);
    rep.check(fpn(&[3, na as u64]), a.last().is_none_or(|x| *x < end) && t <= end, || format!("next timestamp {end} after handing out {:?} and promising {t}", a.last()));
    rep.count("timestamps", na as u64);
}
