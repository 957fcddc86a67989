// P12/P11: range coalescing, metadata and bloom filter caches hand back what is in the files.
use std::{collections::HashMap, ops::Range, sync::Arc};

use bytes::Bytes;
use fusio::{
    dynamic::DynFs,
    executor::{Executor, NoopExecutor},
    path::Path,
};
use parquet::{
    arrow::{arrow_reader::ParquetRecordBatchReaderBuilder, async_reader::AsyncFileReader},
    file::metadata::ParquetMetaData,
};

use crate::{
    ondisk::{bloom::BatchedAsyncReader, metadata::ParquetMetadataCache},
    verif::{
        c_lib_aval::*,
        c_lib_sst::Env,
        report::{Report, Rng, fpn},
        simfs::SimFs,
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[("dsk_ranges", dsk_ranges), ("dsk_cache", dsk_cache)];

/// Reading many ranges at once returns each range's bytes, in request order.
fn dsk_ranges(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let n = *rng.pick(&[1usize, 50, 4000, 300_000]);
    let x = rng.next();
    let data: Vec<u8> = (0..n).map(|i| (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(x).rotate_left(13) as u8).collect();
    let fs = SimFs::new();
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("rt");
    let dy: Arc<dyn DynFs> = Arc::new(fs.clone());
    let path = Path::from("blob");
    fs.put("blob", data.clone());
    let file = rt.block_on(dy.open(&path)).expect("open");
    let mut r = match rt.block_on(BatchedAsyncReader::new(file, n as u64, NoopExecutor)) {
        Ok(r) => r,
        Err(e) => {
            rep.violate(format!("reader: {e}"));
            return;
        }
    };
    for _ in 0..4 {
        let k = rng.idx(7);
        let ranges: Vec<Range<u64>> = (0..k)
            .map(|_| {
                let a = rng.below(n as u64);
                let span = if rng.chance(1, 2) { (n as u64 - a).min(64) } else { n as u64 - a };
                a..a + 1 + rng.below(span)
            })
            .collect();
        let got = rt.block_on(r.get_byte_ranges(ranges.clone())).map_err(|e| e.to_string());
        let ok = matches!(&got, Ok(g) if g.len() == k && g.iter().zip(&ranges).all(|(b, r)| b.as_ref() == &data[r.start as usize..r.end as usize]));
        if !rep.check(fpn(&[1, n as u64, k as u64, ranges.first().map_or(0, |r| r.start)]), ok, || format!("reading {ranges:?} of a {n} byte file returned other bytes ({:?})", got.map(|g| g.iter().map(|b| b.len()).collect::<Vec<_>>()))) {
            return;
        }
    }
    rep.count("batched_reads", 4);
}

/// A cache returns, for a path, nothing or the entry stored last for that very path.
fn dsk_cache(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let mut e = Env::new(&mut rng, &ROWABLE);
    let mut metas: Vec<Arc<ParquetMetaData>> = Vec::new();
    for i in 0..2 {
        let Ok((d, _)) = e.table(&mut rng, 1 + i, 0, None, 3) else {
            rep.violate("flush failed".into());
            return;
        };
        let raw = Bytes::from(e.fs.get(d.data_path().expect("path").as_ref()).expect("file"));
        metas.push(ParquetRecordBatchReaderBuilder::try_new(raw).expect("table").metadata().clone());
    }
    for _ in 0..20 {
        let cap = rng.idx(5);
        let mut c = ParquetMetadataCache::new(cap);
        let mut last: HashMap<String, usize> = HashMap::new();
        let mut store: Vec<Arc<ParquetMetaData>> = Vec::new();
        for step in 0..20u64 {
            let name = format!("db/sst/L{}/{}.parquet", rng.below(2), rng.below(5));
            let p = Path::from(name.as_str());
            if rng.chance(1, 2) {
                let m = Arc::new(metas[rng.idx(2)].as_ref().clone());
                c.insert(&p, m.clone());
                let fresh = !last.contains_key(&name);
                last.insert(name.clone(), store.len());
                store.push(m);
                if fresh {
                    let ok = c.get(&p).is_some_and(|g| Arc::ptr_eq(&g, store.last().unwrap()));
                    if !rep.check(fpn(&[2, cap as u64, step]), ok, || format!("metadata just cached for {name} is not what is returned (capacity {cap})")) {
                        return;
                    }
                }
            }
            if let Some(g) = c.get(&p) {
                let ok = last.get(&name).is_some_and(|i| Arc::ptr_eq(&g, &store[*i]));
                if !rep.check(fpn(&[3, cap as u64, step]), ok, || format!("cached metadata of {name} belongs to another table or an older insert (capacity {cap})")) {
                    return;
                }
            }
            let held = (0..2u64).flat_map(|l| (0..5u64).map(move |i| format!("db/sst/L{l}/{i}.parquet"))).filter(|n| c.get(&Path::from(n.as_str())).is_some()).count();
            if !rep.check(fpn(&[4, cap as u64, held as u64]), held <= cap.max(1), || format!("{held} entries cached, capacity {cap}")) {
                return;
            }
        }
    }
    rep.count("caches", 20);
    let _ = NoopExecutor::mutex(0);
}
