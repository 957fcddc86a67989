// P12: bloom filters served through the cache admit every value of their row group.
use std::sync::Arc;

use aisle::AsyncBloomFilterProvider;
use bytes::Bytes;
use fusio::{
    dynamic::DynFs,
    executor::{Executor, NoopExecutor},
};
use parquet::{arrow::arrow_reader::ParquetRecordBatchReaderBuilder, bloom_filter::Sbbf};

use crate::{
    ondisk::{
        bloom::{BatchedAsyncReader, BloomFilterCache, SstBloomFilterProvider},
        sstable::SsTableDescriptor,
    },
    verif::{
        c_lib_aval::*,
        c_lib_mem::Versions,
        c_lib_sst::Env,
        report::{Report, Rng, fpn},
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[("dsk_bloom", dsk_bloom)];

fn admits(bf: &Sbbf, v: &Val, t: Ty) -> bool {
    match (v, t) {
        (Val::I(x), Ty::I32) => bf.check(&(*x as i32)),
        (Val::I(x), Ty::I64) => bf.check(x),
        (Val::U(x), Ty::U32) => bf.check(&(*x as u32 as i32)),
        (Val::U(x), Ty::U64) => bf.check(&(*x as i64)),
        (Val::S(x), _) => bf.check(&x.as_str()),
        (Val::Y(x), _) => bf.check(x),
        _ => true,
    }
}

fn dsk_bloom(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut e = Env::new(&mut rng, &ROWABLE);
    let cap = *rng.pick(&[1usize, 2, 5, 100]);
    let cache = Arc::new(NoopExecutor::mutex(BloomFilterCache::new(cap)));
    let dy: Arc<dyn DynFs> = Arc::new(e.fs.clone());
    let mut tabs: Vec<(SsTableDescriptor, Versions)> = Vec::new();
    for i in 0..2 {
        match e.table(&mut rng, 1 + i, 0, None, 6) {
            Ok(t) => tabs.push(t),
            Err(x) => {
                rep.violate(format!("flush failed: {x}"));
                return;
            }
        }
    }
    let l = e.pool.l.clone();
    let mut provs = Vec::new();
    for (d, _) in &tabs {
        let path = d.data_path().expect("path").clone();
        let raw = Bytes::from(e.fs.get(path.as_ref()).expect("file"));
        let len = raw.len() as u64;
        let meta = ParquetRecordBatchReaderBuilder::try_new(raw).expect("table").metadata().clone();
        let r = e.rt.block_on(async {
            let f = dy.open(&path).await.map_err(|e| e.to_string())?;
            BatchedAsyncReader::new(f, len, NoopExecutor).await.map_err(|e| e.to_string())
        });
        match r {
            Ok(r) => provs.push((SstBloomFilterProvider::new(path, meta.clone(), r, cache.clone()), meta)),
            Err(x) => {
                rep.violate(format!("bloom reader: {x}"));
                return;
            }
        }
    }
    let mut served = 0;
    for _ in 0..8 {
        let t = rng.idx(2);
        let rows: Vec<&Vec<Option<Val>>> = tabs[t].1.values().flatten().collect();
        let (p, meta) = &mut provs[t];
        let groups = meta.num_row_groups();
        if groups == 0 {
            continue;
        }
        let starts: Vec<usize> = (0..groups).scan(0, |a, g| { let s = *a; *a += meta.row_group(g).num_rows() as usize; Some(s) }).collect();
        let reqs: Vec<(usize, usize)> = (0..1 + rng.idx(4)).map(|_| (rng.idx(groups), rng.idx(l.cols.len()))).collect();
        let got: Vec<((usize, usize), Option<Sbbf>)> = if rng.chance(1, 2) {
            let m = e.rt.block_on(p.bloom_filters_batch(&reqs));
            reqs.iter().map(|r| (*r, m.get(r).cloned())).collect()
        } else {
            reqs.iter().map(|r| (*r, e.rt.block_on(p.bloom_filter(r.0, r.1)))).collect()
        };
        for ((g, c), f) in got {
            let has = meta.row_group(g).column(c).bloom_filter_offset().is_some();
            if !rep.check(fpn(&[1, has as u64, cap as u64]), f.is_some() == has, || format!("bloom filter of row group {g} column {c}: present {has}, served {}", f.is_some())) {
                return;
            }
            let Some(f) = f else { continue };
            served += 1;
            let n = meta.row_group(g).num_rows() as usize;
            for r in &rows[starts[g]..starts[g] + n] {
                let Some(v) = &r[c] else { continue };
                if !rep.check(fpn(&[2, cap as u64, g as u64, c as u64, t as u64]), admits(&f, v, l.cols[c].1), || format!("the bloom filter served for row group {g} column {c} of table {t} rejects its value {v:?} (cache of {cap})")) {
                    return;
                }
            }
        }
    }
    rep.count("filters_served", served);
}
