// P11/P06/P09/P10: row sets, string-prefix bounds and reads over every layer at once.
use std::{cmp::Reverse, collections::BTreeMap, ops::Bound, sync::Arc};

use arrow_schema::{DataType, Field, Schema};
use fusio::executor::NoopExecutor;
use futures::StreamExt;
use parquet::arrow::{
    ProjectionMask,
    arrow_reader::{RowSelection, RowSelector},
};
use typed_arrow_dyn::DynRow;

use crate::{
    extractor::{KeyProjection, projection_for_columns},
    mutation::DynMutation,
    mvcc::{MVCC_COMMIT_COL, Timestamp},
    ondisk::{
        scan::{DeleteStreamWithExtractor, SstableScan},
        sstable::{SsTableDescriptor, open_parquet_stream},
    },
    query::{
        scan::{RowSet, next_prefix_string},
        stream::{Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, merge::MergeStream},
    },
    transaction::TransactionScan,
    verif::{
        c_lib_aval::*,
        c_lib_mem::*,
        c_lib_sst::Env,
        report::{Report, Rng, fpn, fps},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] =
    &[("qry_rowset", qry_rowset), ("qry_prefix", qry_prefix), ("qry_layers", qry_layers)];

fn bits(rng: &mut Rng, n: usize) -> Vec<bool> {
    match rng.below(6) {
        0 => vec![true; n],
        1 => vec![false; n],
        2 => (0..n).map(|_| rng.chance(1, 2)).collect(),
        _ => {
            // Runs.
            let mut out = Vec::new();
            let mut v = rng.chance(1, 2);
            while out.len() < n {
                for _ in 0..1 + rng.idx(7) {
                    out.push(v);
                }
                v = !v;
            }
            out.truncate(n);
            out
        }
    }
}
fn ranges(b: &[bool]) -> Vec<std::ops::Range<usize>> {
    let mut out: Vec<std::ops::Range<usize>> = Vec::new();
    for (i, x) in b.iter().enumerate() {
        if *x {
            match out.last_mut() {
                Some(r) if r.end == i => r.end = i + 1,
                _ => out.push(i..i + 1),
            }
        }
    }
    out
}
/// The same selection spelled with zero-length and split selectors.
fn ragged(rng: &mut Rng, b: &[bool]) -> RowSelection {
    let mut v: Vec<RowSelector> = Vec::new();
    for x in b {
        if rng.chance(1, 9) {
            v.push(RowSelector { row_count: 0, skip: rng.chance(1, 2) });
        }
        match v.last_mut() {
            Some(l) if l.skip != *x && l.row_count > 0 && rng.chance(3, 4) => l.row_count += 1,
            _ => v.push(if *x { RowSelector::select(1) } else { RowSelector::skip(1) }),
        }
    }
    RowSelection::from(v)
}
fn build_set(rng: &mut Rng, b: &[bool]) -> Result<RowSet, String> {
    Ok(match rng.below(3) {
        0 if b.iter().all(|x| *x) => RowSet::all(b.len()),
        0 if b.iter().all(|x| !*x) => RowSet::none(b.len()),
        1 => RowSet::from_row_selection(b.len(), ragged(rng, b)).map_err(|e| e.to_string())?,
        _ => RowSet::from_ranges(b.len(), ranges(b).into_iter()),
    })
}
fn judge_set(rep: &mut Report, s: &RowSet, b: &[bool], what: &str) -> bool {
    let want: Vec<usize> = (0..b.len()).filter(|i| b[*i]).collect();
    let got: Vec<usize> = s.iter().collect();
    let f = fpn(&[fps(what), b.len() as u64, want.len() as u64, ranges(b).len() as u64]);
    let sel = s.to_row_selection();
    let back: Option<Vec<bool>> = sel.as_ref().map(|x| {
        let mut v: Vec<bool> = x.iter().flat_map(|r| std::iter::repeat_n(!r.skip, r.row_count)).collect();
        // Trailing rows a selection does not mention are skipped.
        v.resize(b.len().max(v.len()), false);
        v
    });
    let sel_ok = match back {
        None => want.len() == b.len(),
        Some(v) => v == b,
    };
    let ok = got == want && s.len() == want.len() && s.total_rows() == b.len() && s.is_empty() == want.is_empty() && s.is_full() == (want.len() == b.len()) && sel_ok;
    rep.check(f, ok, || {
        format!("row set {what} over {} rows: rows {got:?} want {want:?}; len {} total {} empty {} full {} selection {sel:?}", b.len(), s.len(), s.total_rows(), s.is_empty(), s.is_full())
    })
}

/// Row sets behave as subsets of 0..n under every construction and combination.
fn qry_rowset(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    for _ in 0..4 {
        let n = *rng.pick(&[0usize, 1, 2, 5, 17, 64, 200]);
        let mut cur = bits(&mut rng, n);
        let mut set = match build_set(&mut rng, &cur) {
            Ok(s) => s,
            Err(e) => {
                rep.violate(format!("row set of {n} rows from a matching selection: {e}"));
                return;
            }
        };
        if !judge_set(rep, &set, &cur, "built") {
            return;
        }
        for _ in 0..1 + rng.idx(5) {
            let b = bits(&mut rng, n);
            let Ok(o) = build_set(&mut rng, &b) else {
                rep.violate(format!("row set of {n} rows from a matching selection was refused"));
                return;
            };
            let inter = rng.chance(1, 2);
            rep.log(format!("{} {:?} with {:?}", if inter { "intersect" } else { "union" }, ranges(&cur), ranges(&b)));
            let r = if rng.chance(1, 2) {
                if inter { set.intersect(&o) } else { set.union(&o) }
            } else if inter {
                o.intersect(&set)
            } else {
                o.union(&set)
            };
            set = match r {
                Ok(s) => s,
                Err(e) => {
                    rep.violate(format!("combining row sets of {n} rows: {e}"));
                    return;
                }
            };
            cur = cur.iter().zip(&b).map(|(x, y)| if inter { *x && *y } else { *x || *y }).collect();
            if !judge_set(rep, &set, &cur, if inter { "intersected" } else { "united" }) {
                return;
            }
        }
        // Sets over different row universes never combine.
        let m = n + 1 + rng.idx(3);
        let o = RowSet::from_ranges(m, ranges(&bits(&mut rng, m)).into_iter());
        let ok = set.intersect(&o).is_err() && set.union(&o).is_err() && o.intersect(&set).is_err();
        if !rep.check(fpn(&[7, n as u64, m as u64]), ok, || format!("row sets over {n} and {m} rows were combined")) {
            return;
        }
        let b = bits(&mut rng, m);
        let sel = ragged(&mut rng, &b);
        if !rep.check(fpn(&[8, n as u64, m as u64]), RowSet::from_row_selection(n, sel).is_err(), || format!("a selection over {m} rows was accepted for {n} rows")) {
            return;
        }
        rep.count("row_sets", 1);
    }
}

/// The exclusive upper bound of a prefix excludes nothing that has the prefix, and is tight.
fn qry_prefix(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    const C: [char; 14] =
        ['\0', 'a', 'b', 'z', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
    for _ in 0..10 {
        let p: String = (0..rng.idx(4)).map(|_| *rng.pick(&C)).collect();
        let up = next_prefix_string(&p);
        let all_max = p.chars().all(|c| c == char::MAX);
        if !rep.check(fpn(&[fps(&p)]), up.is_none() == all_max, || format!("upper bound of prefix {p:?} is {up:?}")) {
            return;
        }
        let Some(up) = up else { continue };
        for _ in 0..6 {
            let tail: String = (0..rng.idx(4)).map(|_| *rng.pick(&C)).collect();
            let s = format!("{p}{tail}");
            if !rep.check(fpn(&[fps(&p), fps(&tail)]), s.as_bytes() < up.as_bytes(), || format!("{s:?} has prefix {p:?} but is not below its upper bound {up:?}")) {
                return;
            }
        }
        // Tight: the bound itself is the least string above everything with the prefix.
        let ok = up.as_bytes() > p.as_bytes() && !up.starts_with(&p);
        if !rep.check(fpn(&[fps(&p), 1]), ok, || format!("upper bound {up:?} of {p:?} still has the prefix")) {
            return;
        }
        let stem: Vec<char> = up.chars().collect();
        let (last, head) = stem.split_last().expect("non-empty");
        let mut prev = u32::from(*last) - 1;
        while char::from_u32(prev).is_none() {
            prev -= 1;
        }
        let below: String = head.iter().copied().chain(char::from_u32(prev)).collect();
        let ok = p.starts_with(&below);
        if !rep.check(fpn(&[fps(&p), 2]), ok, || format!("upper bound {up:?} of prefix {p:?} lets through {below:?}")) {
            return;
        }
        rep.count("prefixes", 1);
    }
}

/// One table opened the way the read path opens it.
fn table_stream(e: &Env, d: &SsTableDescriptor, ts: u64, proj: &[usize], rows: Option<RowSet>) -> Result<SstableScan<NoopExecutor>, String> {
    let l = &e.pool.l;
    // File order: user columns, then the commit column.
    let mut need: Vec<usize> = proj.iter().chain(&l.keys).copied().collect();
    need.push(l.cols.len());
    need.sort_unstable();
    need.dedup();
    let raw = bytes::Bytes::from(e.fs.get(d.data_path().ok_or("no path")?.as_ref()).ok_or("no file")?);
    let meta = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(raw).map_err(|x| x.to_string())?;
    let mask = ProjectionMask::roots(meta.parquet_schema(), need.clone());
    let mut full = l.schema().fields().to_vec();
    full.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false).into());
    let projected = Arc::new(Schema::new(need.iter().map(|i| full[*i].clone()).collect::<Vec<_>>()));
    let at = |i: &usize| need.iter().position(|x| x == i).expect("column");
    let sel = rows.and_then(|r| r.to_row_selection());
    let fs = e.cfg.fs().clone();
    e.rt.block_on(async {
        let data = open_parquet_stream(fs.clone(), d.data_path().cloned().ok_or("no path")?, Some(mask), None, sel, None, NoopExecutor).await.map_err(|x| x.to_string())?;
        let del = match d.delete_path() {
            None => None,
            Some(p) => {
                let s = open_parquet_stream(fs, p.clone(), None, None, None, None, NoopExecutor).await.map_err(|x| x.to_string())?;
                let ex: Arc<dyn KeyProjection> = projection_for_columns(delete_schema(l), (0..l.keys.len()).collect()).map_err(|x| x.to_string())?.into();
                Some(DeleteStreamWithExtractor { stream: s, extractor: ex })
            }
        };
        let dex: Arc<dyn KeyProjection> = projection_for_columns(projected, l.keys.iter().map(at).collect()).map_err(|x| x.to_string())?.into();
        Ok(SstableScan::new(data, del, dex, proj.iter().map(at).collect(), Some(Order::Asc), Timestamp::new(ts)))
    })
}

/// A read over staged, mutable, sealed and on-disk layers equals the overlay of their versions.
fn qry_layers(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut e = Env::new(&mut rng, &ROWABLE);
    let l = e.pool.l.clone();
    let tables = 1 + rng.idx(3);
    let mut ssts: Vec<(SsTableDescriptor, Versions)> = Vec::new();
    for i in 0..tables {
        let lvl = rng.idx(2);
        match e.table(&mut rng, 1 + i as u64, lvl, None, 10) {
            Ok(x) => ssts.push(x),
            Err(err) => {
                rep.violate(format!("flush failed: {err}"));
                return;
            }
        }
    }
    let sealed: Vec<_> = (0..rng.idx(3)).map(|_| e.segment(&mut rng, 8)).collect();
    let mem = new_mem(&l, 4096);
    let mut cur = Versions::new();
    for _ in 0..rng.idx(8) {
        e.ts += 1 + rng.below(2);
        if rng.chance(2, 3) {
            let r = e.pool.row(&mut rng);
            mem.insert_batch(l.sliced_batch(&mut rng, std::slice::from_ref(&r)), Timestamp::new(e.ts)).expect("insert");
            cur.insert((l.key_of(&r), Reverse(e.ts)), Some(r));
        } else {
            let k = e.pool.key(&mut rng);
            mem.insert_delete_batch(delete_batch(&l, &[(k.clone(), e.ts)])).expect("delete");
            cur.insert((k, Reverse(e.ts)), None);
        }
    }
    let mut v = cur.clone();
    for (_, w) in sealed.iter() {
        v.extend(w.clone());
    }
    for (_, w) in ssts.iter() {
        v.extend(w.clone());
    }
    for _ in 0..5 {
        let ts = if rng.chance(1, 3) { u64::MAX } else { rng.below(e.ts + 2) };
        let b = rng.chance(1, 2).then(|| e.pool.bounds(&mut rng));
        let p = e.pool.proj(&mut rng).unwrap_or_else(|| (0..l.cols.len()).collect());
        let limit = rng.chance(1, 3).then(|| rng.idx(6));
        let ps = Some(Arc::new(l.schema().project(&p).expect("project")));
        let mut want: BTreeMap<MKey, Option<Vec<Option<Val>>>> = expect(&v, ts, b.as_ref(), Some(&p)).into_iter().map(|(k, _, r)| (k, r)).collect();
        let mut staged: BTreeMap<crate::key::KeyOwned, DynMutation<DynRow, ()>> = BTreeMap::new();
        for _ in 0..rng.idx(4) {
            let r = e.pool.row(&mut rng);
            let k = l.key_of(&r);
            if b.as_ref().is_some_and(|b| !in_bounds(&k, b)) {
                continue;
            }
            if rng.chance(1, 3) {
                staged.insert(l.owned_key(&k), DynMutation::Delete(()));
                want.insert(k, None);
            } else {
                let dr = DynRow(r.iter().zip(&l.cols).map(|(v, c)| v.as_ref().map(|v| c.1.cell(v))).collect());
                staged.insert(l.owned_key(&k), DynMutation::Upsert(dr));
                want.insert(k, Some(p.iter().map(|i| r[*i].clone()).collect()));
            }
        }
        let mut want: Vec<Vec<Option<Val>>> = want.into_values().flatten().collect();
        if let Some(lim) = limit {
            want.truncate(lim);
        }
        let mut selected = 0u64;
        let res: Result<Vec<Vec<Option<Val>>>, String> = (|| {
            let mut streams: Vec<ScanStream<'_, NoopExecutor>> = Vec::new();
            if !staged.is_empty() {
                streams.push(ScanStream::from(TransactionScan::new(&staged, &l.schema(), Timestamp::new(ts), ps.as_ref()).map_err(|e| e.to_string())?));
            }
            let (lo, hi) = match &b {
                None => (Bound::Unbounded, Bound::Unbounded),
                Some((lo, hi)) => (obound(&l, lo), obound(&l, hi)),
            };
            let g = mem.read();
            streams.push(ScanStream::from(OwnedMutableScan::from_guard_range(g, ps.clone(), Timestamp::new(ts), lo.clone(), hi.clone()).map_err(|e| e.to_string())?));
            for (s, _) in &sealed {
                streams.push(ScanStream::from(OwnedImmutableScan::from_arc_range(s.clone(), ps.clone(), Timestamp::new(ts), lo.clone(), hi.clone()).map_err(|e| e.to_string())?));
            }
            for (d, w) in &ssts {
                // Rows of the data file, in file order; a range read selects only those inside it
                // (deletes of other keys still come through and must not matter).
                let keep: Vec<bool> = w.iter().filter(|x| x.1.is_some()).map(|(k, _)| b.as_ref().is_none_or(|b| in_bounds(&k.0, b))).collect();
                selected += keep.iter().filter(|x| **x).count() as u64;
                let rs = RowSet::from_ranges(keep.len(), ranges(&keep).into_iter());
                streams.push(ScanStream::from(table_stream(&e, d, ts, &p, Some(rs))?));
            }
            rng.shuffle(&mut streams);
            e.rt.block_on(async {
                let mut m = MergeStream::from_vec(streams, limit, Some(Order::Asc)).await.map_err(|e| e.to_string())?;
                let mut out = Vec::new();
                while let Some(x) = m.next().await {
                    let r = x.map_err(|e| e.to_string())?.into_row().ok_or("merge yielded a tombstone")?;
                    out.push(row_vals(&l, &r, &p).ok_or("row shape")?);
                }
                Ok(out)
            })
        })();
        let f = fpn(&[fps(&format!("{:?}", l.key_tys())), sealed.len() as u64, ssts.len() as u64, want.len() as u64, staged.len() as u64, limit.map_or(99, |x| x as u64)]);
        let ok = matches!(&res, Ok(g) if g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| rows_same(a, b)));
        if !rep.check(f, ok, || {
            format!("read at ts {ts} over {} sealed and {} on-disk layers, range {b:?} columns {p:?} limit {limit:?}, {} staged: want {want:?} got {res:?}", sealed.len(), ssts.len(), staged.len()).chars().take(1800).collect()
        }) {
            return;
        }
        rep.count("layered_reads", 1);
        rep.count("disk_rows_selected", selected);
    }
}
