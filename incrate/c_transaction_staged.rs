// P07/P02/P08: the staging buffer of a transaction and the batches a commit makes of it.
use std::{collections::BTreeMap, sync::Arc};

use typed_arrow_dyn::{DynCell, DynRow};

use super::super::{StagedMutations, TransactionCommitError, TransactionScan, TransactionScanEntry, build_delete_batch, build_record_batch};
use crate::{
    key::KeyOwned,
    mutation::DynMutation,
    mvcc::Timestamp,
    verif::{
        c_lib_aval::*,
        c_lib_mem::{Pool, delete_schema, row_vals},
        report::{Report, Rng, fpn, fps},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[("txn_staged", txn_staged)];

type MRow = Vec<Option<Val>>;

fn dyn_row(l: &Layout, r: &MRow) -> DynRow {
    DynRow(r.iter().zip(&l.cols).map(|(v, c)| v.as_ref().map(|v| c.1.cell(v))).collect())
}
fn opt_same(a: Option<&MRow>, b: Option<&MRow>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => rows_same(a, b),
        _ => false,
    }
}

fn txn_staged(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let n = *rng.pick(&[1usize, 3, 6, 12]);
    let pool = Pool::new(&mut rng, &ROWABLE, n);
    let l = pool.l.clone();
    let all: Vec<usize> = (0..l.cols.len()).collect();
    let snap = rng.below(100);
    let mut st = StagedMutations::new(Timestamp::new(snap));
    let mut model: BTreeMap<MKey, Option<MRow>> = BTreeMap::new();
    let steps = rng.idx(16);
    for _ in 0..=steps {
        let (k, v) = if rng.chance(1, 3) {
            (pool.key(&mut rng), None)
        } else {
            let r = pool.row(&mut rng);
            (l.key_of(&r), Some(r))
        };
        rep.log(format!("stage {k:?} -> {v:?}"));
        match &v {
            Some(r) => st.upsert(l.owned_key(&k), dyn_row(&l, r)),
            None => st.delete(l.owned_key(&k)),
        }
        // Equal keys (0.0 and -0.0, say) share one entry; the first spelling of the key stays.
        model.insert(k, v);
        let probe = pool.key(&mut rng);
        let got: Option<Option<MRow>> = st.get(&l.owned_key(&probe)).map(|m| match m {
            DynMutation::Upsert(r) => Some(row_vals(&l, r, &all).unwrap_or_default()),
            DynMutation::Delete(()) => None,
        });
        let want = model.get(&probe);
        let ok = got.is_some() == want.is_some() && got.as_ref().zip(want).is_none_or(|(a, b)| opt_same(a.as_ref(), b.as_ref()));
        if !rep.check(fpn(&[1, model.len() as u64, want.map_or(2, |w| w.is_some() as u64)]), ok, || format!("staged {probe:?}: {got:?}, want {want:?}")) {
            return;
        }
    }
    let ok = st.len() == model.len() && st.is_empty() == model.is_empty() && st.snapshot_ts().get() == snap && st.entries().len() == model.len();
    if !rep.check(fpn(&[2, model.len() as u64]), ok, || format!("{} staged entries, want {}; snapshot {}", st.len(), model.len(), st.snapshot_ts().get())) {
        return;
    }
    let order: Vec<Option<MKey>> = st.iter().map(|(k, _)| l.key_back(k)).collect();
    let worder: Vec<Option<MKey>> = model.keys().cloned().map(Some).collect();
    if !rep.check(fpn(&[3, model.len() as u64]), order == worder, || format!("staged keys {order:?}, want {worder:?}")) {
        return;
    }
    // Scan of the staged entries; all views are read while the scan is alive.
    for _ in 0..3 {
        let p = pool.proj(&mut rng);
        let cols = p.clone().unwrap_or_else(|| all.clone());
        let ps = p.as_ref().map(|p| Arc::new(l.schema().project(p).expect("project")));
        let ts = rng.below(50);
        let res: Result<Vec<(Option<MKey>, u64, Option<MRow>)>, String> = (|| {
            let mut scan = TransactionScan::new(st.entries(), &l.schema(), Timestamp::new(ts), ps.as_ref()).map_err(|e| e.to_string())?;
            let items: Vec<_> = scan.by_ref().collect::<Result<_, _>>().map_err(|e| e.to_string())?;
            let mut out = Vec::new();
            for i in items {
                out.push(match i {
                    TransactionScanEntry::Row((k, r)) => {
                        let row = r.into_owned().map_err(|e| e.to_string())?;
                        (l.key_back(&k.key().to_owned()), k.timestamp().get(), Some(row_vals(&l, &row, &cols).ok_or("row shape")?))
                    }
                    TransactionScanEntry::Tombstone(k) => (l.key_back(&k.key().to_owned()), k.timestamp().get(), None),
                });
            }
            Ok(out)
        })();
        let want: Vec<(Option<MKey>, u64, Option<MRow>)> = model.iter().map(|(k, r)| (Some(k.clone()), ts, r.as_ref().map(|r| cols.iter().map(|i| r[*i].clone()).collect()))).collect();
        let ok = matches!(&res, Ok(g) if g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && opt_same(a.2.as_ref(), b.2.as_ref())));
        if !rep.check(fpn(&[4, fps(&format!("{:?}{}", l.key_tys(), cols.len())), want.len() as u64]), ok, || format!("staged scan columns {cols:?} at {ts}: {res:?}, want {want:?}").chars().take(1500).collect()) {
            return;
        }
    }
    // Commit batches.
    let (ups, dels) = st.into_mutations();
    let wups: Vec<MRow> = model.values().flatten().cloned().collect();
    let wdels: Vec<MKey> = model.iter().filter(|x| x.1.is_none()).map(|x| x.0.clone()).collect();
    let cts = 1 + rng.below(1000);
    let nups = ups.len();
    let got = build_record_batch(&l.schema(), ups).map_err(|e| e.to_string()).map(|b| {
        (0..b.num_rows()).map(|i| l.cols.iter().enumerate().map(|(c, (_, t, _))| read(*t, b.column(c), i)).collect::<MRow>()).collect::<Vec<_>>()
    });
    let ok = nups == wups.len() && matches!(&got, Ok(g) if g.len() == wups.len() && g.iter().zip(&wups).all(|(a, b)| rows_same(a, b)));
    if !rep.check(fpn(&[5, wups.len() as u64, fps(&format!("{:?}", l.key_tys()))]), ok, || format!("commit rows {got:?}, want {wups:?}").chars().take(1500).collect()) {
        return;
    }
    let nk = l.keys.len();
    let ds = delete_schema(&l);
    let got = build_delete_batch(&ds, nk, dels.clone(), Timestamp::new(cts)).map_err(|e| e.to_string()).map(|b| {
        (0..b.num_rows())
            .map(|i| {
                let k = MKey(l.key_tys().iter().enumerate().map(|(c, t)| read(*t, b.column(c), i).expect("key")).collect());
                (k, read(Ty::U64, b.column(nk), i).map(|v| matches!(v, Val::U(t) if t == cts)))
            })
            .collect::<Vec<_>>()
    });
    let want: Vec<(MKey, Option<bool>)> = wdels.iter().map(|k| (k.clone(), Some(true))).collect();
    if !rep.check(fpn(&[6, want.len() as u64, fps(&format!("{:?}", l.key_tys()))]), matches!(&got, Ok(g) if *g == want), || format!("commit deletes {got:?}, want {want:?} at {cts}").chars().take(1500).collect()) {
        return;
    }
    // A delete key of the wrong shape fails the batch, wherever it stands.
    let mut keys = dels;
    let bad: KeyOwned = crate::verif::keys_pub::key_from_cells((0..nk + 1).map(|_| DynCell::I64(1)).collect());
    keys.insert(rng.idx(keys.len() + 1), bad);
    let r = build_delete_batch(&ds, nk, keys, Timestamp::new(cts));
    let ok = matches!(r, Err(TransactionCommitError::InvalidDeleteKey { expected, actual }) if expected == nk && actual == nk + 1);
    if !rep.check(fpn(&[7, want.len() as u64]), ok, || format!("a delete key of {} components was accepted for {nk}", nk + 1)) {
        return;
    }
    rep.count("staged", model.len() as u64);
}
