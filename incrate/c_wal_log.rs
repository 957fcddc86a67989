// P03/P04/P18/P01/P02: the write-ahead log against a command-list model.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{Arc, Mutex},
    time::Duration,
};

use arrow_array::{ArrayRef, RecordBatch, UInt64Array};
use fusio::{DynFs, executor::Executor as _, executor::tokio::TokioExecutor, fs::FsCas, path::Path};

use crate::{
    manifest::WalSegmentRef,
    mvcc::Timestamp,
    verif::{
        c_lib_aval::*,
        c_lib_mem::delete_batch,
        report::{Report, Rng, fpn, fps, yields},
        simfs::{Fault, Image, Mutation, OpKind, SimFs},
    },
    wal::{
        DynBatchPayload, WalCommand, WalConfig, WalError, WalHandle, WalSyncPolicy,
        frame::{FRAME_HEADER_SIZE, FrameHeader, FrameType, WalEvent, decode_frame, encode_command},
        manifest_ext::{collect_wal_segment_refs, prune_wal_segments},
        metrics::WalMetrics,
        replay::Replayer,
        state::{FsWalStateStore, WalState, WalStateHandle, WalStateStore},
        storage::WalStorage,
        wal_segment_file_id, writer,
    },
};

pub const WORKLOADS: &[(&str, fn(u64, &mut Report))] = &[
    ("wal_frames", wal_frames),
    ("wal_payloads", wal_payloads),
    ("wal_segments", wal_segments),
    ("wal_writer", |s, r| wal_writer(s, r, false)),
    ("wal_faults", |s, r| wal_writer(s, r, true)),
    ("wal_state", wal_state),
    ("wal_ids", wal_ids),
];

#[derive(Clone, Debug)]
pub enum Cmd {
    Begin(u64),
    Rows(u64, RecordBatch, u64),
    Del(u64, RecordBatch, u64),
    Commit(u64, u64),
    Abort(u64),
}

impl Cmd {
    pub fn id(&self) -> u64 {
        match self {
            Cmd::Begin(i) | Cmd::Rows(i, ..) | Cmd::Del(i, ..) | Cmd::Commit(i, _) | Cmd::Abort(i) => *i,
        }
    }
    pub fn command(&self) -> WalCommand {
        match self.clone() {
            Cmd::Begin(provisional_id) => WalCommand::TxnBegin { provisional_id },
            Cmd::Rows(provisional_id, batch, ts) => {
                let commit_ts_column: ArrayRef = Arc::new(UInt64Array::from(vec![ts; batch.num_rows()]));
                WalCommand::TxnAppend { provisional_id, payload: DynBatchPayload::Row { batch, commit_ts_column } }
            }
            Cmd::Del(provisional_id, batch, _) => WalCommand::TxnAppend { provisional_id, payload: DynBatchPayload::Delete { batch } },
            Cmd::Commit(provisional_id, ts) => WalCommand::TxnCommit { provisional_id, commit_ts: Timestamp::new(ts) },
            Cmd::Abort(provisional_id) => WalCommand::TxnAbort { provisional_id },
        }
    }
    pub fn is(&self, ev: &WalEvent) -> bool {
        match (self, ev) {
            (Cmd::Begin(i), WalEvent::TxnBegin { provisional_id }) => i == provisional_id,
            (Cmd::Abort(i), WalEvent::TxnAbort { provisional_id }) => i == provisional_id,
            (Cmd::Commit(i, t), WalEvent::TxnCommit { provisional_id, commit_ts }) => i == provisional_id && *t == commit_ts.get(),
            (Cmd::Rows(i, b, t), WalEvent::DynAppend { provisional_id, payload }) => {
                i == provisional_id
                    && *b == payload.batch
                    && payload.commit_ts_hint.map(|x| x.get()) == (b.num_rows() > 0).then_some(*t)
                    && payload.commit_ts_column.as_any().downcast_ref::<UInt64Array>().is_some_and(|c| c.len() == b.num_rows() && c.values().iter().all(|v| v == t))
            }
            (Cmd::Del(i, b, t), WalEvent::DynDelete { provisional_id, payload }) => {
                i == provisional_id && *b == payload.batch && payload.commit_ts_hint.map(|x| x.get()) == (b.num_rows() > 0).then_some(*t)
            }
            _ => false,
        }
    }
    fn frame_type(&self) -> FrameType {
        match self {
            Cmd::Begin(_) => FrameType::TxnBegin,
            Cmd::Rows(..) | Cmd::Del(..) => FrameType::TxnAppend,
            Cmd::Commit(..) => FrameType::TxnCommit,
            Cmd::Abort(_) => FrameType::TxnAbort,
        }
    }
    pub fn short(&self) -> String {
        match self {
            Cmd::Begin(i) => format!("begin {i}"),
            Cmd::Rows(i, b, t) => format!("rows {i} n={} ts={t}", b.num_rows()),
            Cmd::Del(i, b, t) => format!("del {i} n={} ts={t}", b.num_rows()),
            Cmd::Commit(i, t) => format!("commit {i} ts={t}"),
            Cmd::Abort(i) => format!("abort {i}"),
        }
    }
}

pub fn gen_payload(rng: &mut Rng, l: &Layout, id: u64, ts: u64) -> Cmd {
    let n = *rng.pick(&[0usize, 1, 1, 1, 2, 3, 7]);
    if rng.chance(3, 5) {
        let rows: Vec<_> = (0..n).map(|_| l.gen_row(rng)).collect();
        Cmd::Rows(id, l.sliced_batch(rng, &rows), ts)
    } else {
        let ks: Vec<_> = (0..n).map(|_| (l.key_of(&l.gen_row(rng)), ts)).collect();
        Cmd::Del(id, delete_batch(l, &ks), ts)
    }
}
pub fn gen_cmd(rng: &mut Rng, l: &Layout, id: u64, ts: u64) -> Cmd {
    match rng.below(8) {
        0 => Cmd::Begin(id),
        1 | 2 => Cmd::Commit(id, ts),
        3 => Cmd::Abort(id),
        _ => gen_payload(rng, l, id, ts),
    }
}

pub fn frame_bytes(c: &Cmd, seq: u64) -> Result<Vec<u8>, String> {
    let f = encode_command(c.command()).map_err(|e| e.to_string())?;
    if f.len() != 1 {
        return Err(format!("{} frames for one command", f.len()));
    }
    Ok(f.into_iter().next().unwrap().into_bytes(seq))
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("rt")
}
pub fn dir() -> Path {
    Path::parse("wal").expect("path")
}
pub fn seg_name(seq: u64) -> String {
    format!("wal/wal-{seq:020}.tonwal")
}
pub fn cfg_for(fs: &SimFs, state: bool) -> WalConfig {
    let d: Arc<dyn DynFs> = Arc::new(fs.clone());
    let c: Arc<dyn FsCas> = Arc::new(fs.clone());
    WalConfig {
        dir: dir(),
        segment_backend: d,
        state_store: state.then(|| Arc::new(FsWalStateStore::new(c)) as Arc<dyn WalStateStore>),
        ..WalConfig::default()
    }
}
pub async fn replay(fs: &SimFs, state: bool, floor: Option<&WalSegmentRef>) -> Result<Vec<WalEvent>, WalError> {
    Replayer::new(cfg_for(fs, state)).scan_with_floor(floor).await
}
/// Compare replayed events with the commands they must stand for.
pub fn same(cmds: &[&Cmd], evs: &[WalEvent]) -> Result<(), String> {
    if cmds.len() != evs.len() {
        return Err(format!("expected {} records, replay returned {}", cmds.len(), evs.len()));
    }
    for (i, (c, e)) in cmds.iter().zip(evs).enumerate() {
        if !c.is(e) {
            return Err(format!("record {i}: appended {}, replayed {e:?}", c.short()).chars().take(700).collect());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- frames

fn wal_frames(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let l = Layout::random(&mut rng, &ALL, 2);
    let n = 1 + rng.idx(7);
    let seq0 = *rng.pick(&[1u64, 2, 255, u32::MAX as u64, u64::MAX - 100]);
    let cmds: Vec<Cmd> = (0..n)
        .map(|i| {
            let id = *rng.pick(&[0u64, 1, 7, 1 << 40, u64::MAX]);
            let ts = *rng.pick(&[0u64, 1, i as u64, 1 << 50, u64::MAX]);
            gen_cmd(&mut rng, &l, id, ts)
        })
        .collect();
    let mut cmds = cmds;
    if rng.chance(1, 5) {
        // One bulky record: hundreds of kilobytes to a few megabytes.
        let pat: Vec<_> = (0..1 + rng.idx(4)).map(|_| l.gen_row(&mut rng)).collect();
        let rows: Vec<_> = (0..2000 + rng.idx(12_000)).map(|i| pat[i % pat.len()].clone()).collect();
        let i = rng.idx(n);
        cmds[i] = Cmd::Rows(cmds[i].id(), l.batch(&rows), 9);
    }
    let mut bytes = Vec::new();
    let mut ends = vec![0usize];
    for (i, c) in cmds.iter().enumerate() {
        match frame_bytes(c, seq0 + i as u64) {
            Ok(b) => bytes.extend_from_slice(&b),
            Err(e) => return rep.violate(format!("cannot encode {}: {e}", c.short())),
        }
        ends.push(bytes.len());
    }
    // Decode the stream.
    let mut rest: &[u8] = &bytes;
    for (i, c) in cmds.iter().enumerate() {
        let r = FrameHeader::decode_from(rest);
        let ok = match &r {
            Ok((h, tail)) => {
                let payload = &rest[FRAME_HEADER_SIZE..FRAME_HEADER_SIZE + h.len as usize];
                let ev = decode_frame(h.frame_type, payload);
                let ok = h.seq == seq0 + i as u64 && h.frame_type == c.frame_type() && tail.len() == bytes.len() - ends[i + 1] && matches!(&ev, Ok(e) if c.is(e));
                rest = tail;
                ok
            }
            Err(_) => false,
        };
        if !rep.check(fpn(&[fps(&c.short()), i as u64]), ok, || format!("{} did not survive encode/decode", c.short())) {
            return;
        }
    }
    rep.sample(format!("{n} records, {} bytes: {:?}", bytes.len(), cmds.iter().map(Cmd::short).collect::<Vec<_>>()));
    let all: Vec<&Cmd> = cmds.iter().collect();
    rt().block_on(async {
        let fs = SimFs::new();
        let name = seg_name(1);
        let mut cuts: BTreeSet<usize> = BTreeSet::new();
        for e in &ends {
            for d in [0i64, -1, 1, 8, 16, 23, 24, 25] {
                let x = *e as i64 + d;
                if x >= 0 && x as usize <= bytes.len() {
                    cuts.insert(x as usize);
                }
            }
        }
        for _ in 0..8 {
            cuts.insert(rng.idx(bytes.len() + 1));
        }
        for cut in cuts {
            fs.put(&name, bytes[..cut].to_vec());
            let full = ends.iter().filter(|e| **e <= cut).count() - 1;
            let r = replay(&fs, false, None).await;
            let want = &all[..full];
            let res = match &r {
                Ok(evs) => same(want, evs),
                Err(e) => Err(format!("replay failed: {e}")),
            };
            rep.count("truncations", 1);
            if !rep.check(fpn(&[1, cut as u64, full as u64, bytes.len() as u64]), res.is_ok(), || format!("log cut at byte {cut} of {} ({full} complete records): {}", bytes.len(), res.unwrap_err())) {
                return;
            }
        }
        // Damage: one to three bytes anywhere except the sequence number and the record type,
        // which carry no checksum.
        for _ in 0..24 {
            let f = rng.idx(n);
            let (a, b) = (ends[f], ends[f + 1]);
            let off = loop {
                let o = match rng.below(6) {
                    0 | 1 => a + rng.idx(FRAME_HEADER_SIZE),
                    2 => b - 1 - rng.idx((b - a).min(64)),
                    _ => a + rng.idx(b - a),
                };
                if !(6..16).contains(&(o - a)) {
                    break o;
                }
            };
            let mut bad = bytes.clone();
            bad[off] ^= 1 << rng.below(8);
            if rng.chance(1, 3) && b - a > FRAME_HEADER_SIZE {
                let o2 = a + FRAME_HEADER_SIZE + rng.idx(b - a - FRAME_HEADER_SIZE);
                bad[o2] = bad[o2].wrapping_add(1 + rng.below(255) as u8);
                if bad[o2] == bytes[o2] {
                    continue;
                }
            }
            let is_len = (16..20).contains(&(off - a));
            let part = match off - a {
                0..=3 => "magic",
                4..=5 => "version",
                16..=19 => "length",
                20..=23 => "checksum",
                _ => "payload",
            };
            fs.put(&name, bad);
            let r = replay(&fs, false, None).await;
            let ok = match &r {
                Err(_) => true,
                // A damaged length may make the record look cut off: then the log ends before it.
                Ok(evs) => is_len && evs.len() <= f && same(&all[..evs.len()], evs).is_ok() && evs.len() == f,
            };
            rep.count("damaged_records", 1);
            if !rep.check(fpn(&[2, off as u64, bytes.len() as u64, fps(part)]), ok, || {
                format!("record {f} of {n} damaged at byte {} ({part}) was not reported: replay returned {} records", off - a, r.map(|e| e.len()).unwrap_or(0))
            }) {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- malformed payloads

/// Whole records with a correct checksum whose payload no writer produces must be errors when read,
/// and a batch the log could not give back as it is must be refused when written.
fn wal_payloads(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let l = Layout::random(&mut rng, &ALL, 2);
    let (id, ts) = (rng.below(1 << 40), 1 + rng.below(1 << 50));
    let n = *rng.pick(&[1usize, 2, 2, 3, 7]);
    let rows: Vec<_> = (0..n).map(|_| l.gen_row(&mut rng)).collect();
    let batch = l.sliced_batch(&mut rng, &rows);
    let ks: Vec<_> = rows.iter().map(|r| (l.key_of(r), ts)).collect();
    let del = delete_batch(&l, &ks);
    let col = |v: Vec<Option<u64>>| -> ArrayRef { Arc::new(UInt64Array::from(v)) };
    let varying = || {
        let mut v: Vec<Option<u64>> = vec![Some(ts); n];
        v[n - 1] = Some(ts + 1);
        v
    };
    // A batch with one more column at the end.
    let with = |b: &RecordBatch, name: &str, c: ArrayRef| {
        let mut f = b.schema().fields().to_vec();
        f.push(Arc::new(arrow_schema::Field::new(name, c.data_type().clone(), true)));
        let mut cols = b.columns().to_vec();
        cols.push(c);
        RecordBatch::try_new(Arc::new(arrow_schema::Schema::new(f)), cols).expect("batch")
    };
    let without_last = |b: &RecordBatch| b.project(&(0..b.num_columns() - 1).collect::<Vec<_>>()).expect("project");

    // Writing.
    let row_cmd = |b: &RecordBatch, c: ArrayRef| WalCommand::TxnAppend { provisional_id: id, payload: DynBatchPayload::Row { batch: b.clone(), commit_ts_column: c } };
    let good = col(vec![Some(ts); n]);
    let signed: ArrayRef = Arc::new(arrow_array::Int64Array::from(vec![1i64; n]));
    let bools: ArrayRef = Arc::new(arrow_array::BooleanArray::from(vec![rng.chance(1, 2); n]));
    let mut nulls = vec![Some(ts); n];
    nulls[rng.idx(n)] = None;
    let mut writes: Vec<(&str, WalCommand, bool)> = vec![
        ("good", row_cmd(&batch, good.clone()), true),
        ("timestamps one short", row_cmd(&batch, col(vec![Some(ts); n - 1])), false),
        ("one timestamp too many", row_cmd(&batch, col(vec![Some(ts); n + 1])), false),
        ("signed timestamps", row_cmd(&batch, signed.clone()), false),
        ("a null timestamp", row_cmd(&batch, col(nulls.clone())), false),
        ("a column named _commit_ts", row_cmd(&with(&batch, "_commit_ts", good.clone()), good.clone()), false),
        ("a column named _tombstone", row_cmd(&with(&batch, "_tombstone", bools), good.clone()), false),
    ];
    if n > 1 {
        writes.push(("differing timestamps", row_cmd(&batch, col(varying())), false));
    }
    for (what, cmd, ok) in writes {
        let r = encode_command(cmd);
        rep.count("payloads_offered", 1);
        if !rep.check(fpn(&[fps(what), n as u64, 1]), r.is_ok() == ok, || format!("a row record with {what} ({n} rows) was {}", if ok { "refused" } else { "accepted by the log" })) {
            return;
        }
    }

    // Reading.
    let prefix = |mode: u8, row_mode: u8| {
        let mut p = id.to_le_bytes().to_vec();
        p.extend_from_slice(&[mode, row_mode, 0, 0, 0, 0, 0, 0]);
        p
    };
    let ipc = |bs: &[RecordBatch], schema: &RecordBatch| {
        let mut out = Vec::new();
        let mut w = arrow_ipc::writer::StreamWriter::try_new(&mut out, schema.schema().as_ref()).expect("ipc");
        for b in bs {
            w.write(b).expect("ipc");
        }
        w.finish().expect("ipc");
        drop(w);
        out
    };
    let append = |row_mode: u8, b: &RecordBatch| [prefix(0, row_mode), ipc(std::slice::from_ref(b), b)].concat();
    let logged = with(&batch, "_commit_ts", good.clone());
    let bare_del = without_last(&del);
    let mut reads: Vec<(&str, FrameType, Vec<u8>, bool)> = vec![
        ("a good row record", FrameType::TxnAppend, append(0, &logged), true),
        ("a good delete record", FrameType::TxnAppend, append(1, &del), true),
        ("no timestamp column", FrameType::TxnAppend, append(0, &batch), false),
        ("no timestamp column on deletes", FrameType::TxnAppend, append(1, &bare_del), false),
        ("signed timestamps", FrameType::TxnAppend, append(0, &with(&batch, "_commit_ts", signed.clone())), false),
        ("signed timestamps on deletes", FrameType::TxnAppend, append(1, &with(&bare_del, "_commit_ts", signed)), false),
        ("a null timestamp", FrameType::TxnAppend, append(0, &with(&batch, "_commit_ts", col(nulls.clone()))), false),
        ("a null timestamp on deletes", FrameType::TxnAppend, append(1, &with(&bare_del, "_commit_ts", col(nulls))), false),
        ("no batch", FrameType::TxnAppend, [prefix(0, rng.below(2) as u8), ipc(&[], &logged)].concat(), false),
        ("two batches", FrameType::TxnAppend, [prefix(0, 0), ipc(&[logged.clone(), logged.clone()], &logged)].concat(), false),
        ("an unknown payload kind", FrameType::TxnAppend, [prefix(2 + rng.below(254) as u8, 0), ipc(&[logged.clone()], &logged)].concat(), false),
        ("an unknown row kind", FrameType::TxnAppend, [prefix(0, 2 + rng.below(254) as u8), ipc(&[logged.clone()], &logged)].concat(), false),
        ("a short append prefix", FrameType::TxnAppend, prefix(0, 0)[..rng.idx(17)].to_vec(), false),
        ("garbage for a batch", FrameType::TxnAppend, [prefix(0, 0), (0..1 + rng.idx(40)).map(|i| if i % 4 < 2 { rng.next() as u8 | 1 } else { 0 }).collect()].concat(), false),
        ("a begin of the wrong size", FrameType::TxnBegin, vec![1; *rng.pick(&[0usize, 7, 9, 16])], false),
        ("an abort of the wrong size", FrameType::TxnAbort, vec![1; *rng.pick(&[0usize, 7, 9, 16])], false),
        ("a commit of the wrong size", FrameType::TxnCommit, vec![1; *rng.pick(&[0usize, 8, 15, 17, 24])], false),
    ];
    if n > 1 {
        reads.push(("differing timestamps", FrameType::TxnAppend, append(0, &with(&batch, "_commit_ts", col(varying()))), false));
        reads.push(("differing timestamps on deletes", FrameType::TxnAppend, append(1, &with(&bare_del, "_commit_ts", col(varying()))), false));
    }
    // Each alone in the log, after one good record.
    let first = Cmd::Begin(id);
    rt().block_on(async {
        let fs = SimFs::new();
        for (what, ft, payload, ok) in reads {
            let mut bytes = match frame_bytes(&first, 1) {
                Ok(b) => b,
                Err(e) => return rep.violate(e),
            };
            bytes.extend_from_slice(&crate::wal::frame::Frame::new(ft, payload).into_bytes(2));
            fs.put(&seg_name(1), bytes);
            let r = replay(&fs, false, None).await;
            let good = match &r {
                Err(_) => !ok,
                Ok(evs) => {
                    ok && evs.len() == 2
                        && match &evs[1] {
                            WalEvent::DynAppend { provisional_id, payload } => *provisional_id == id && payload.batch.columns() == batch.columns() && payload.commit_ts_hint.map(|t| t.get()) == Some(ts),
                            WalEvent::DynDelete { provisional_id, payload } => *provisional_id == id && payload.batch == del && payload.commit_ts_hint.map(|t| t.get()) == Some(ts),
                            _ => false,
                        }
                }
            };
            rep.count("payloads_read", 1);
            if !rep.check(fpn(&[fps(what), n as u64, 2]), good, || {
                format!("a record with a valid checksum and {what} ({n} rows): replay returned {}", r.map(|e| format!("{} records", e.len())).unwrap_or_else(|e| format!("the error {e}")))
            }) {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- segments

struct Seg {
    seq: u64,
    frames: Vec<(u64, Cmd)>,
    bytes: Vec<u8>,
    torn: usize,
}

/// Where record `k` of a segment starts (the end of the bytes for one past the last).
fn record_start(bytes: &[u8], k: usize) -> usize {
    let mut at = 0;
    for _ in 0..k {
        at += 24 + u32::from_le_bytes(bytes[at + 16..at + 20].try_into().unwrap()) as usize;
    }
    at
}
fn whole_records(bytes: &[u8], end: usize) -> usize {
    let (mut at, mut n) = (0, 0);
    while at + 24 <= end {
        at += 24 + u32::from_le_bytes(bytes[at + 16..at + 20].try_into().unwrap()) as usize;
        if at > end {
            break;
        }
        n += 1;
    }
    n
}

fn wal_segments(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    let l = Layout::random(&mut rng, &ALL, 2);
    let mut seq = rng.below(3);
    let mut frame = 1 + rng.below(5);
    let mut id = 1u64;
    let mut segs: Vec<Seg> = Vec::new();
    let n = 1 + rng.idx(5);
    for i in 0..n {
        let last = i + 1 == n;
        let k = if last && rng.chance(1, 4) { 0 } else { 1 + rng.idx(4) };
        let mut s = Seg { seq, frames: vec![], bytes: vec![], torn: 0 };
        for _ in 0..k {
            if rng.chance(1, 2) {
                id += 1 + rng.below(2);
            }
            let ts = 1 + rng.below(50);
            let c = gen_cmd(&mut rng, &l, id, ts);
            match frame_bytes(&c, frame) {
                Ok(b) => s.bytes.extend_from_slice(&b),
                Err(e) => return rep.violate(format!("cannot encode {}: {e}", c.short())),
            }
            s.frames.push((frame, c));
            frame += 1;
        }
        if last && rng.chance(1, 2) {
            let c = gen_cmd(&mut rng, &l, id + 1, 1);
            if let Ok(b) = frame_bytes(&c, frame) {
                s.torn = 1 + rng.idx(b.len() - 1);
                s.bytes.extend_from_slice(&b[..s.torn]);
            }
        }
        segs.push(s);
        seq += 1 + if rng.chance(1, 5) { rng.below(9) } else { 0 };
    }
    let fs = SimFs::new();
    for s in &segs {
        fs.put(&seg_name(s.seq), s.bytes.clone());
    }
    let strays = ["wal/notes.txt", "wal/wal-x.tonwal", "wal/wal-00000000000000000001.tonwal.bak", "wal/wal-1.tmp",
        // Siblings that share the directory's name as a prefix.
        "wal-00000000000000000003.tonwal", "wal-old/wal-00000000000000000002.tonwal", "wal2/wal-00000000000000000009.tonwal"];
    let mut placed = Vec::new();
    for s in strays {
        if rng.chance(1, 2) {
            fs.put(s, vec![1, 2, 3]);
            placed.push(s);
        }
    }
    let shape = fpn(&segs.iter().map(|s| s.frames.len() as u64 * 7 + s.seq * 31 + (s.torn > 0) as u64).collect::<Vec<_>>());
    rt().block_on(async {
        let cfg = cfg_for(&fs, false);
        let st = WalStorage::new(cfg.segment_backend.clone(), dir());
        let hint = rng.chance(1, 2).then(|| rng.below(seq + 2));
        match st.list_segments_with_hint(hint).await {
            Ok(v) => {
                let got: Vec<(u64, usize)> = v.iter().map(|d| (d.seq, d.bytes)).collect();
                let want: Vec<(u64, usize)> = segs.iter().map(|s| (s.seq, s.bytes.len())).collect();
                if !rep.check(fpn(&[shape, 1]), got == want, || format!("segment listing {got:?}, expected {want:?}")) {
                    return;
                }
            }
            Err(e) => return rep.violate(format!("listing segments failed: {e}")),
        }
        // An object store whose listing lags: the segment the log state names tells that something
        // is missing, and the listing is then completed.
        if rng.chance(1, 3) {
            let s3 = SimFs::from_image(fs.image());
            let hidden: Vec<u64> = segs.iter().filter(|_| rng.chance(1, 2)).map(|s| s.seq).collect();
            let others = ["other/wal/wal-00000000000000000000.tonwal", "wal-00000000000000000003.tonwal"];
            for o in others {
                if rng.chance(1, 2) {
                    s3.put(o, vec![]);
                }
            }
            s3.set_object_store(hidden.iter().map(|q| seg_name(*q)));
            let cfg = cfg_for(&s3, false);
            let st = WalStorage::new(cfg.segment_backend.clone(), dir());
            let hint = match rng.below(3) {
                0 if !hidden.is_empty() => Some(*rng.pick(&hidden)),
                1 => Some(rng.below(seq + 2)),
                2 => segs.last().map(|s| s.seq),
                _ => None,
            };
            let seen = |q: u64| segs.iter().any(|s| s.seq == q) && !hidden.contains(&q);
            let whole = hint.is_some_and(|h| !seen(h));
            let got = st.list_segments_with_hint(hint).await.map(|v| v.iter().map(|d| (d.seq, d.bytes)).collect::<Vec<_>>());
            let want: Vec<(u64, usize)> = segs.iter().filter(|s| whole || !hidden.contains(&s.seq)).map(|s| (s.seq, s.bytes.len())).collect();
            let all: Vec<(u64, usize)> = segs.iter().map(|s| (s.seq, s.bytes.len())).collect();
            rep.count("lagging_listings", 1);
            rep.count("lagging_listings_completed", (whole && !hidden.is_empty()) as u64);
            if !rep.check(fpn(&[shape, 11, whole as u64]), got.as_ref().is_ok_and(|g| *g == want || *g == all), || {
                format!("listing with segments {hidden:?} not yet listed and the state naming {hint:?}: {got:?}, expected {want:?}")
            }) {
                return;
            }
        }
        for s in segs.iter().filter(|s| s.torn == 0) {
            let r = st.segment_frame_bounds(&Path::parse(seg_name(s.seq)).unwrap()).await;
            let want = s.frames.first().map(|f| (f.0, s.frames.last().unwrap().0));
            let got = r.as_ref().ok().map(|b| b.map(|b| (b.first_seq, b.last_seq)));
            if !rep.check(fpn(&[shape, 2, s.seq]), got == Some(want), || format!("bounds of segment {}: {got:?}, expected {want:?}", s.seq)) {
                return;
            }
        }
        // Replay from every kind of floor.
        for _ in 0..6 {
            let floor = if rng.chance(1, 4) {
                None
            } else {
                let s = rng.pick(&segs);
                let ff = match s.frames.first() {
                    Some(f) if rng.chance(1, 2) => f.0 + rng.below(s.frames.len() as u64 + 1),
                    Some(f) => f.0,
                    None => rng.below(frame + 2),
                };
                let q = if rng.chance(1, 6) { s.seq + 1 } else { s.seq };
                Some(WalSegmentRef::new(q, wal_segment_file_id(q), ff, ff.max(s.frames.last().map_or(ff, |f| f.0))))
            };
            let want: Vec<&Cmd> = segs
                .iter()
                .filter(|s| floor.as_ref().is_none_or(|f| s.seq >= f.seq()))
                .flat_map(|s| {
                    let cut = floor.as_ref().filter(|f| f.seq() == s.seq).map_or(0, |f| f.first_frame());
                    s.frames.iter().filter(move |f| f.0 >= cut).map(|f| &f.1)
                })
                .collect();
            let r = replay(&fs, false, floor.as_ref()).await;
            let res = match &r {
                Ok(e) => same(&want, e),
                Err(e) => Err(e.to_string()),
            };
            rep.count("replays", 1);
            if !rep.check(fpn(&[shape, 3, floor.as_ref().map_or(0, |f| f.seq() * 100 + f.first_frame() + 1)]), res.is_ok(), || format!("replay from floor {floor:?}: {}", res.unwrap_err())) {
                return;
            }
        }
        // A record cut short anywhere ends the log: nothing after it is handed out as if the gap were
        // not there.
        for _ in 0..2 {
            let torn = SimFs::from_image(fs.image());
            let i = rng.idx(segs.len());
            let whole = segs[i].bytes.len() - segs[i].torn;
            if whole == 0 {
                continue;
            }
            let mut bytes = segs[i].bytes.clone();
            let kept = if rng.chance(1, 2) {
                // The file ends early.
                let at = 1 + rng.idx(whole - 1);
                bytes.truncate(at);
                whole_records(&bytes, at)
            } else {
                // A length field says more than the file holds.
                let k = rng.idx(segs[i].frames.len());
                let at = record_start(&bytes, k);
                bytes[at + 19] |= 0x40;
                k
            };
            let clean_cut = kept < segs[i].frames.len() && record_start(&bytes, kept) == bytes.len();
            torn.put(&seg_name(segs[i].seq), bytes);
            let want: Vec<&Cmd> = segs[..i]
                .iter()
                .flat_map(|s| s.frames.iter().map(|f| &f.1))
                .chain(segs[i].frames[..kept].iter().map(|f| &f.1))
                .collect();
            // Cut exactly between two records nothing shows the loss within the segment itself.
            if clean_cut {
                continue;
            }
            let r = replay(&torn, false, None).await;
            let res = match &r {
                Ok(e) => same(&want, e),
                Err(_) => Ok(()),
            };
            rep.count("logs_cut_short_in_the_middle", (i + 1 < segs.len()) as u64);
            if !rep.check(fpn(&[shape, 10, i as u64, kept as u64]), res.is_ok(), || format!("segment {} cut short after {kept} records: {}", segs[i].seq, res.unwrap_err())) {
                return;
            }
        }
        // The tail as seen by a restarting writer.
        let before = fs.image();
        let tail = st.tail_metadata_with_hint(hint).await;
        let last = segs.last().unwrap();
        match &tail {
            Ok(Some(t)) => {
                let lf = segs.iter().rev().find_map(|s| s.frames.last().map(|f| f.0));
                let ids: BTreeSet<u64> = segs.iter().flat_map(|s| s.frames.iter()).filter(|f| !matches!(f.1, Cmd::Begin(_) | Cmd::Abort(_))).map(|f| f.1.id()).collect();
                let newest: BTreeSet<u64> = segs.iter().rev().find(|s| !s.frames.is_empty()).map(|s| s.frames.iter().filter(|f| !matches!(f.1, Cmd::Begin(_) | Cmd::Abort(_))).map(|f| f.1.id()).collect()).unwrap_or_default();
                let good_len = last.bytes.len() - last.torn;
                let ok = t.active.seq == last.seq
                    && t.active.bytes == good_len
                    && t.completed.iter().map(|d| d.seq).collect::<Vec<_>>() == segs[..segs.len() - 1].iter().map(|s| s.seq).collect::<Vec<_>>()
                    && t.last_frame_seq == lf;
                if !rep.check(fpn(&[shape, 4]), ok, || format!("tail: active {} ({} bytes), last frame {:?}; expected {} ({good_len} bytes), {lf:?}", t.active.seq, t.active.bytes, t.last_frame_seq, last.seq)) {
                    return;
                }
                // Ids handed out next must not collide with any record still in the log.
                if !newest.is_empty() && !rep.check(fpn(&[shape, 5]), t.last_provisional_id >= ids.last().copied(), || format!("highest transaction id in the log is {:?}, the tail reports {:?}", ids.last(), t.last_provisional_id)) {
                    return;
                }
            }
            Ok(None) => return rep.violate("tail metadata missing although segments exist".into()),
            Err(e) => return rep.violate(format!("reading the tail failed: {e}")),
        }
        let mut want = before.clone();
        want.get_mut(&seg_name(last.seq)).unwrap().data.truncate(last.bytes.len() - last.torn);
        let now = fs.image();
        let damaged: Vec<&String> = want.iter().filter(|(k, v)| now.get(*k).map(|b| &b.data) != Some(&v.data)).map(|x| x.0).collect();
        if !rep.check(fpn(&[shape, 6]), damaged.is_empty(), || format!("trimming the torn tail changed complete records or other files: {damaged:?}")) {
            return;
        }
        // References kept for the manifest, and pruning below a floor.
        for _ in 0..4 {
            let live = rng.chance(2, 3).then(|| rng.below(frame + 2));
            let fl = rng.chance(2, 3).then(|| {
                let s = rng.pick(&segs);
                WalSegmentRef::new(s.seq, wal_segment_file_id(s.seq), 1, 1)
            });
            let want: Vec<(u64, u64, u64)> = segs
                .iter()
                .filter(|s| !s.frames.is_empty())
                .filter(|s| live.is_some_and(|x| s.frames.last().unwrap().0 >= x) || fl.as_ref().is_none_or(|f| s.seq > f.seq()))
                .map(|s| (s.seq, s.frames[0].0, s.frames.last().unwrap().0))
                .collect();
            match collect_wal_segment_refs(&cfg, fl.as_ref(), live).await {
                Ok(v) => {
                    let got: Vec<(u64, u64, u64)> = v.iter().map(|r| (r.seq(), r.first_frame(), r.last_frame())).collect();
                    let ids_ok = v.iter().all(|r| *r.file_id() == wal_segment_file_id(r.seq()));
                    if !rep.check(fpn(&[shape, 7, live.unwrap_or(99), fl.as_ref().map_or(99, |f| f.seq())]), got == want && ids_ok, || format!("segments kept for floor {fl:?} and live frame {live:?}: {got:?}, expected {want:?}")) {
                        return;
                    }
                }
                Err(e) => return rep.violate(format!("collecting segment references failed: {e}")),
            }
        }
        let floor_seq = rng.below(seq + 2);
        let fl = WalSegmentRef::new(floor_seq, wal_segment_file_id(floor_seq), 1, 1);
        let below = segs.iter().filter(|s| s.seq < floor_seq).count();
        let before = fs.image();
        let dry = cfg.clone().with_prune_dry_run(true);
        let r = prune_wal_segments(&dry, &fl).await;
        if !rep.check(fpn(&[shape, 8, floor_seq]), matches!(r, Ok(k) if k == below) && fs.image() == before, || format!("dry-run prune below {floor_seq}: {r:?} (expected {below}), files changed: {}", fs.image() != before)) {
            return;
        }
        let r = prune_wal_segments(&cfg, &fl).await;
        let left: Vec<String> = fs.paths();
        let mut want: Vec<String> = segs.iter().filter(|s| s.seq >= floor_seq).map(|s| seg_name(s.seq)).chain(placed.iter().map(|s| s.to_string())).collect();
        want.sort();
        rep.count("prunes", 1);
        rep.check(fpn(&[shape, 9, floor_seq]), matches!(r, Ok(k) if k == below) && left == want, || format!("prune below {floor_seq} returned {r:?} and left {left:?}, expected {want:?}"));
    });
}

// ---------------------------------------------------------------- writer

pub type Handle = WalHandle<TokioExecutor>;

pub async fn open(exec: &Arc<TokioExecutor>, cfg: &WalConfig) -> Result<Handle, WalError> {
    // The same steps as enabling the log on a database.
    let storage = WalStorage::new(Arc::clone(&cfg.segment_backend), cfg.dir.clone());
    let hint = storage.load_state_handle(cfg.state_store.as_ref()).await?.and_then(|h| h.state().last_segment_seq);
    let tail = storage.tail_metadata_with_hint(hint).await?;
    let next_id = tail.as_ref().and_then(|m| m.last_provisional_id).map_or(1, |x| x.saturating_add(1));
    let next_frame = tail.as_ref().and_then(|m| m.last_frame_seq).map_or(1, |x| x.saturating_add(1));
    let metrics = Arc::new(TokioExecutor::rw_lock(WalMetrics::default()));
    let w = writer::spawn_writer(Arc::clone(exec), storage, cfg.clone(), Arc::clone(&metrics), 0, next_frame);
    let (sender, depth, join) = w.into_parts();
    Ok(WalHandle::from_parts(sender, depth, join, next_id, metrics))
}

/// Transaction ids handed out by clones of one handle on several threads never repeat: records of
/// two transactions with one id would be recovered as one.
fn wal_ids(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    rt().block_on(async {
        let exec = Arc::new(TokioExecutor::default());
        let fs = SimFs::new();
        let cfg = cfg_for(&fs, rng.chance(1, 2));
        let h = match open(&exec, &cfg).await {
            Ok(h) => h,
            Err(e) => return rep.violate(format!("cannot open the log: {e}")),
        };
        let threads = 2 + rng.idx(5);
        let n = 200 + rng.idx(400);
        let bar = std::sync::Barrier::new(threads);
        let got: Vec<Vec<u64>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let (h, bar) = (h.clone(), &bar);
                    s.spawn(move || {
                        bar.wait();
                        (0..n).map(|_| h.next_provisional_id()).collect::<Vec<u64>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        let ordered = got.iter().all(|g| g.windows(2).all(|w| w[0] < w[1]));
        let all: BTreeSet<u64> = got.iter().flatten().copied().collect();
        rep.count("ids", all.len() as u64);
        rep.count("id_switches", {
            // How often the allocations of two threads really interleaved.
            let mut by: Vec<(u64, usize)> = got.iter().enumerate().flat_map(|(i, g)| g.iter().map(move |x| (*x, i))).collect();
            by.sort_unstable();
            by.windows(2).filter(|w| w[0].1 != w[1].1).count() as u64
        });
        rep.check(fpn(&[seed, 1]), ordered && all.len() == threads * n, || format!("{} of {} transaction ids were handed out twice", threads * n - all.len(), threads * n));
    });
}

#[derive(Clone)]
struct Sent {
    cmd: Cmd,
    task: usize,
    /// Position in the real-time order of submissions.
    sub: u64,
    /// Acknowledged sequence range and the number of storage mutations applied by then.
    ack: Option<(u64, u64, usize)>,
    failed_at: Option<u64>,
}

#[derive(Default)]
struct Rec {
    clock: u64,
    sent: Vec<Sent>,
    first_err: Option<u64>,
    ids: Vec<u64>,
}

fn raw_frames(image: &Image) -> Result<Vec<(u64, u64, WalEvent)>, String> {
    let mut out = Vec::new();
    for (k, b) in image {
        if !k.ends_with(".tonwal") {
            continue;
        }
        let seg: u64 = k.trim_start_matches("wal/wal-").trim_end_matches(".tonwal").parse().map_err(|_| format!("bad name {k}"))?;
        let mut rest: &[u8] = &b.data;
        while !rest.is_empty() {
            match FrameHeader::decode_from(rest) {
                Ok((h, t)) => {
                    let p = &rest[FRAME_HEADER_SIZE..FRAME_HEADER_SIZE + h.len as usize];
                    out.push((seg, h.seq, decode_frame(h.frame_type, p).map_err(|e| e.to_string())?));
                    rest = t;
                }
                Err(WalError::Corrupt(r)) if r.contains("truncated") => break,
                Err(e) => return Err(e.to_string()),
            }
        }
    }
    Ok(out)
}

async fn submitter(h: Handle, task: usize, mut rng: Rng, l: Layout, txns: usize, rec: Arc<Mutex<Rec>>, fs: SimFs) {
    let mut pending = Vec::new();
    for _ in 0..txns {
        let id = h.next_provisional_id();
        rec.lock().unwrap().ids.push(id);
        let ts = 1 + rng.below(1000);
        let mut cmds = Vec::new();
        if rng.chance(1, 3) {
            cmds.push(Cmd::Begin(id));
        }
        for _ in 0..rng.idx(3) {
            cmds.push(gen_payload(&mut rng, &l, id, ts));
        }
        match rng.below(5) {
            0 => cmds.push(Cmd::Abort(id)),
            1 => {}
            _ => cmds.push(Cmd::Commit(id, ts)),
        }
        for cmd in cmds {
            let slot = {
                let mut r = rec.lock().unwrap();
                r.clock += 1;
                let sub = r.clock;
                r.sent.push(Sent { cmd: cmd.clone(), task, sub, ack: None, failed_at: None });
                r.sent.len() - 1
            };
            let t = match &cmd {
                Cmd::Begin(i) => h.txn_begin(*i).await,
                Cmd::Rows(i, b, t) => h.txn_append(*i, b, Timestamp::new(*t)).await,
                Cmd::Del(i, b, _) => h.txn_append_delete(*i, b.clone()).await,
                Cmd::Commit(i, t) => h.txn_commit(*i, Timestamp::new(*t)).await,
                Cmd::Abort(i) => h.txn_abort(*i).await,
            };
            match t {
                Ok(t) => pending.push((slot, t)),
                Err(_) => {
                    let mut r = rec.lock().unwrap();
                    r.clock += 1;
                    let c = r.clock;
                    r.sent[slot].failed_at = Some(c);
                    r.first_err.get_or_insert(c);
                }
            }
            if rng.chance(1, 3) {
                yields(rng.below(4) as u32).await;
            }
            while !pending.is_empty() && (pending.len() > 3 || rng.chance(1, 2)) {
                let (slot, t) = pending.remove(0);
                settle(slot, t.durable().await, &rec, &fs);
            }
        }
        if rng.chance(1, 8) {
            let _ = h.rotate().await;
        }
    }
    for (slot, t) in pending {
        settle(slot, t.durable().await, &rec, &fs);
    }
}
fn settle(slot: usize, r: Result<crate::wal::WalAck, WalError>, rec: &Mutex<Rec>, fs: &SimFs) {
    let mut g = rec.lock().unwrap();
    g.clock += 1;
    let c = g.clock;
    match r {
        Ok(a) => g.sent[slot].ack = Some((a.first_seq, a.last_seq, fs.journal_len())),
        Err(_) => {
            g.sent[slot].failed_at = Some(c);
            g.first_err.get_or_insert(c);
        }
    }
}

fn wal_writer(seed: u64, rep: &mut Report, faults: bool) {
    let mut rng = Rng::new(seed);
    let l = Layout::random(&mut rng, &ALL, 2);
    let state = rng.chance(1, 2);
    let conf = |fs: &SimFs, rng: &mut Rng| {
        let mut c = cfg_for(fs, state);
        c.segment_max_bytes = *rng.pick(&[0usize, 1, 300, 1500, 64 << 20]);
        c.segment_max_age = rng.chance(1, 6).then(|| Duration::from_millis(rng.below(3)));
        c.flush_interval = *rng.pick(&[Duration::ZERO, Duration::from_millis(1), Duration::from_secs(5)]);
        c.sync = match rng.below(4) {
            0 => WalSyncPolicy::Always,
            1 => WalSyncPolicy::IntervalBytes(*rng.pick(&[1usize, 500])),
            2 => WalSyncPolicy::IntervalTime(Duration::from_millis(rng.below(3))),
            _ => WalSyncPolicy::Disabled,
        };
        c.queue_size = *rng.pick(&[1usize, 2, 64]);
        c
    };
    rt().block_on(async {
        let exec = Arc::new(TokioExecutor::default());
        let mut image = Image::new();
        // Commands known to be in the log, by frame sequence.
        let mut log: BTreeMap<u64, Cmd> = BTreeMap::new();
        // Highest sequence and segment ever written: pruned segments leave them to the state file.
        let (mut ever, mut ever_seg) = (0u64, 0u64);
        let gens = 1 + rng.idx(4);
        for generation in 0..gens {
            let fs = SimFs::from_image(image.clone()).with_yields(rng.next(), 2);
            let cfg = conf(&fs, &mut rng);
            rep.log(format!("generation {generation}: {cfg:?}"));
            let before = match raw_frames(&fs.image()) {
                Ok(f) => f,
                Err(e) => return rep.violate(format!("log unreadable before opening: {e}")),
            };
            let h = match open(&exec, &cfg).await {
                Ok(h) => h,
                Err(e) => return rep.violate(format!("opening the log failed: {e}")),
            };
            if faults {
                let at = fs.ops() + rng.below(30);
                let kinds: Vec<OpKind> = match rng.below(4) {
                    0 => vec![OpKind::Append],
                    1 => vec![OpKind::Open],
                    2 => vec![OpKind::Put, OpKind::Load],
                    _ => vec![OpKind::Append, OpKind::Open, OpKind::Put, OpKind::Commit, OpKind::Remove, OpKind::List],
                };
                let f = match rng.below(3) {
                    0 => Fault::Before,
                    1 => Fault::After,
                    _ => Fault::Torn(rng.idx(40)),
                };
                let sticky = rng.chance(1, 2);
                let fired = std::sync::atomic::AtomicBool::new(false);
                fs.set_fault(Some(Arc::new(move |k, _, n| {
                    if n >= at && kinds.contains(&k) && (sticky || !fired.swap(true, std::sync::atomic::Ordering::SeqCst)) { Some(f) } else { None }
                })));
            }
            let rec = Arc::new(Mutex::new(Rec::default()));
            let tasks = 1 + rng.idx(3);
            let futs: Vec<_> = (0..tasks).map(|t| submitter(h.clone(), t, rng.fork(), l.clone(), 1 + rng.idx(4), rec.clone(), fs.clone())).collect();
            futures::future::join_all(futs).await;
            if cfg.segment_max_age.is_some() && rng.chance(1, 2) {
                tokio::time::sleep(Duration::from_millis(3)).await;
            }
            let snap = h.snapshot().await;
            let live = fs.image();
            let clean = !faults && rng.chance(2, 3);
            if clean {
                if let Err(e) = h.clone().shutdown().await {
                    return rep.violate(format!("shutdown failed: {e}"));
                }
            }
            let (base, journal) = fs.journal();
            let end = fs.image();
            fs.kill();
            drop(h);
            let rec = std::mem::take(&mut *rec.lock().unwrap());
            for s in &rec.sent {
                rep.log(format!("task {} {} ack={:?} failed={:?}", s.task, s.cmd.short(), s.ack, s.failed_at));
            }
            rep.count("commands", rec.sent.len() as u64);
            rep.count("faults_fired", fs.faults_fired());
            let g = fpn(&[seed, generation as u64]);

            // Acknowledgements: strictly increasing per task, disjoint ranges, none after a failure.
            let mut ranges: Vec<(u64, u64)> = rec.sent.iter().filter_map(|s| s.ack.map(|a| (a.0, a.1))).collect();
            for t in 0..tasks {
                let mine: Vec<(u64, u64)> = rec.sent.iter().filter(|s| s.task == t).filter_map(|s| s.ack.map(|a| (a.0, a.1))).collect();
                if !rep.check(fpn(&[g, 1, t as u64]), mine.windows(2).all(|w| w[0].1 < w[1].0) && mine.iter().all(|m| m.0 <= m.1), || format!("acknowledged sequences of one submitter go back: {mine:?}")) {
                    return;
                }
            }
            ranges.sort();
            let maxold = before.iter().map(|f| f.1).max().unwrap_or(0).max(ever);
            if !rep.check(fpn(&[g, 2]), ranges.windows(2).all(|w| w[0].1 < w[1].0) && ranges.first().is_none_or(|r| r.0 > maxold), || format!("acknowledged sequences overlap or repeat (log already held up to {maxold}): {ranges:?}")) {
                return;
            }
            if let Some(e) = rec.first_err {
                if !faults {
                    return rep.violate("a submission failed although no fault was injected".into());
                }
                let late: Vec<String> = rec.sent.iter().filter(|s| s.sub > e && s.ack.is_some()).map(|s| s.cmd.short()).collect();
                rep.count("failures_seen", 1);
                if !rep.check(fpn(&[g, 3]), late.is_empty(), || format!("writes submitted after a failed one were acknowledged: {late:?}")) {
                    return;
                }
            } else if rec.sent.iter().any(|s| s.ack.is_none()) {
                return rep.violate("a submission got neither an acknowledgement nor an error".into());
            }
            // Transaction ids: never one that the log already holds.
            let old_ids: BTreeSet<u64> = before.iter().map(|f| ev_id(&f.2)).collect();
            let clash: Vec<u64> = rec.ids.iter().copied().filter(|i| old_ids.contains(i)).collect();
            let uniq: BTreeSet<u64> = rec.ids.iter().copied().collect();
            // Begin and abort markers do not reserve an id: they carry no data that could be merged.
            let data_ids: BTreeSet<u64> = before.iter().filter(|f| !matches!(f.2, WalEvent::TxnBegin { .. } | WalEvent::TxnAbort { .. })).map(|f| ev_id(&f.2)).collect();
            let data_clash: Vec<u64> = clash.iter().copied().filter(|i| data_ids.contains(i)).collect();
            if !rep.check(fpn(&[g, 4]), data_clash.is_empty() && uniq.len() == rec.ids.len(), || format!("transaction ids reused: {data_clash:?} (handed out {:?})", rec.ids)) {
                return;
            }
            // What the log holds now.
            let by_seq: BTreeMap<u64, &Sent> = rec.sent.iter().filter_map(|s| s.ack.map(|a| (a.1, s))).collect();
            let now = match raw_frames(&live) {
                Ok(f) => f,
                Err(e) => return rep.violate(format!("the log is damaged while in use: {e}")),
            };
            if !check_log(rep, g, &log, &before, &now, &by_seq, &rec, faults) {
                return;
            }
            let lowest = now[before.len()..].iter().map(|f| (f.0, f.1)).min();
            if !rep.check(fpn(&[g, 11]), lowest.is_none_or(|f| f.0 >= ever_seg && f.1 > ever), || format!("new records start at (segment, sequence) {lowest:?} although segment {ever_seg} and sequence {ever} were used before")) {
                return;
            }
            // Writer's own view of its segments.
            if let (Ok(s), true) = (&snap, rec.first_err.is_none()) {
                let mut bounds: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
                for f in &now {
                    let b = bounds.entry(f.0).or_insert((f.1, f.1));
                    b.1 = f.1;
                }
                let want: Vec<(u64, u64, u64)> = bounds.iter().map(|(s, b)| (*s, b.0, b.1)).collect();
                let got: Vec<(u64, u64, u64)> = s.iter().map(|b| (b.seq, b.first_frame, b.last_frame)).collect();
                if !rep.check(fpn(&[g, 9]), got == want, || format!("the writer reports segments {got:?}, the files hold {want:?}")) {
                    return;
                }
            }
            if state && clean {
                let h = WalStateHandle::load(Arc::new(FsWalStateStore::new(Arc::new(SimFs::from_image(end.clone())))), &dir()).await;
                match h {
                    Ok(h) => {
                        let lf = now.last().map(|f| f.1);
                        let maxts = rec.sent.iter().rev().find_map(|s| if let (Cmd::Commit(_, t), Some(_)) = (&s.cmd, s.ack) { Some(*t) } else { None });
                        let _ = maxts;
                        if !rec.sent.is_empty() && !rep.check(fpn(&[g, 10]), h.state().last_frame_seq == lf, || format!("state records last frame {:?}, the log ends at {lf:?}", h.state().last_frame_seq)) {
                            return;
                        }
                    }
                    Err(e) => return rep.violate(format!("state unreadable after shutdown: {e}")),
                }
            }
            // Crash points.
            let n = journal.len();
            let budget = if rep.thorough { 60 } else { 14 };
            let stride = (n / budget).max(1);
            let off = rng.idx(stride);
            let mut img = base.clone();
            for i in 0..=n {
                if i % stride == off || i == n {
                    if !crash_point(rep, &mut rng, fpn(&[g, 20, i as u64]), &img, i, &log, &rec, &l, &exec, state, false).await {
                        return;
                    }
                    if let Some(Mutation::Append(p, d)) = journal.get(i) {
                        if d.len() > 1 && p.ends_with(".tonwal") {
                            let mut torn = img.clone();
                            journal[i].apply_torn(&mut torn, 1 + rng.idx(d.len() - 1));
                            if !crash_point(rep, &mut rng, fpn(&[g, 21, i as u64]), &torn, i, &log, &rec, &l, &exec, state, true).await {
                                return;
                            }
                        }
                    }
                }
                if i < n {
                    journal[i].apply(&mut img);
                }
            }
            // Next generation starts from the state left behind (with a torn tail when faulted).
            match raw_frames(&end) {
                Ok(f) => {
                    for (_, q, ev) in f {
                        if !log.contains_key(&q) {
                            if let Some(s) = rec.sent.iter().find(|s| s.cmd.is(&ev) && s.ack.is_none_or(|a| a.1 == q)) {
                                log.insert(q, s.cmd.clone());
                            }
                        }
                    }
                }
                Err(e) => return rep.violate(format!("the log is damaged at the end: {e}")),
            }
            image = end;
            if state && !faults && rng.chance(1, 2) {
                // Between runs everything below a floor was flushed and pruned, often every record.
                ever = ever.max(now.iter().map(|f| f.1).max().unwrap_or(0));
                ever_seg = ever_seg.max(now.iter().map(|f| f.0).max().unwrap_or(0));
                let segs: Vec<u64> = image.keys().filter_map(|k| k.strip_prefix("wal/wal-")?.strip_suffix(".tonwal")?.parse().ok()).collect();
                let top = segs.iter().copied().max().unwrap_or(0);
                let floor = if rng.chance(2, 3) { top } else { rng.below(top + 1) };
                let fs = SimFs::from_image(image.clone());
                let cfg = cfg_for(&fs, state);
                if let Err(e) = prune_wal_segments(&cfg, &WalSegmentRef::new(floor, wal_segment_file_id(floor), 1, 1)).await {
                    return rep.violate(format!("pruning below {floor} failed: {e}"));
                }
                image = fs.image();
                match raw_frames(&image) {
                    Ok(f) => {
                        let left: BTreeSet<u64> = f.iter().map(|f| f.1).collect();
                        log.retain(|q, _| left.contains(q));
                        rep.count("pruned_between_runs", 1);
                        rep.count("pruned_to_nothing", left.is_empty() as u64);
                    }
                    Err(e) => return rep.violate(format!("the log is damaged after pruning: {e}")),
                }
            }
        }
        rep.count("generations", gens as u64);
    });
}

fn ev_id(e: &WalEvent) -> u64 {
    match e {
        WalEvent::TxnBegin { provisional_id } | WalEvent::TxnAbort { provisional_id } | WalEvent::TxnCommit { provisional_id, .. } | WalEvent::DynAppend { provisional_id, .. } | WalEvent::DynDelete { provisional_id, .. } => *provisional_id,
        _ => u64::MAX,
    }
}

fn check_log(rep: &mut Report, g: u64, log: &BTreeMap<u64, Cmd>, before: &[(u64, u64, WalEvent)], now: &[(u64, u64, WalEvent)], by_seq: &BTreeMap<u64, &Sent>, rec: &Rec, faults: bool) -> bool {
    // Sequences increase by one within and across segments; earlier records are untouched.
    let seqs: Vec<(u64, u64)> = now.iter().map(|f| (f.0, f.1)).collect();
    let step = seqs.windows(2).all(|w| w[0].1 < w[1].1 && w[0].0 <= w[1].0 && (faults || w[1].1 == w[0].1 + 1));
    if !rep.check(fpn(&[g, 5]), step, || format!("frame sequences in the log are not consecutive: {seqs:?}")) {
        return false;
    }
    let kept = before.len() <= now.len() && before.iter().zip(now).all(|(a, b)| a.0 == b.0 && a.1 == b.1);
    if !rep.check(fpn(&[g, 6]), kept, || "records of an earlier run disappeared".into()) {
        return false;
    }
    let map: BTreeMap<u64, &WalEvent> = now.iter().map(|f| (f.1, &f.2)).collect();
    for (q, c) in log {
        if !rep.check(fpn(&[g, 7, *q]), map.get(q).is_some_and(|e| c.is(e)), || format!("record {q} ({}) changed or vanished", c.short())) {
            return false;
        }
    }
    for (q, s) in by_seq {
        if !rep.check(fpn(&[g, 8, *q]), map.get(q).is_some_and(|e| s.cmd.is(e)), || format!("acknowledged record {q} ({}) is not in the log: {:?}", s.cmd.short(), map.get(q))) {
            return false;
        }
    }
    // Nothing in the log that nobody submitted.
    for f in &now[before.len()..] {
        if !rec.sent.iter().any(|s| s.cmd.is(&f.2)) {
            rep.violate(format!("the log holds a record nobody appended: {:?}", f.2));
            return false;
        }
    }
    true
}

#[allow(clippy::too_many_arguments)]
async fn crash_point(rep: &mut Report, rng: &mut Rng, f: u64, img: &Image, at: usize, log: &BTreeMap<u64, Cmd>, rec: &Rec, l: &Layout, exec: &Arc<TokioExecutor>, state: bool, torn: bool) -> bool {
    rep.count("crash_points", 1);
    let what = format!("crash after storage mutation {at}{}", if torn { " (next append torn)" } else { "" });
    let fs = SimFs::from_image(img.clone());
    let evs = match replay(&fs, state, None).await {
        Ok(e) => e,
        Err(e) => {
            rep.violate(format!("{what}: replay failed: {e}"));
            return false;
        }
    };
    // Expected: everything of earlier runs, then what the raw files hold, at least all that was
    // acknowledged by then.
    let raw = match raw_frames(img) {
        Ok(r) => r,
        Err(e) => {
            rep.violate(format!("{what}: {e}"));
            return false;
        }
    };
    let map: BTreeMap<u64, &WalEvent> = raw.iter().map(|r| (r.1, &r.2)).collect();
    let must = rec.sent.iter().filter_map(|s| s.ack.filter(|a| a.2 <= at).map(|a| (a.1, &s.cmd)));
    for (q, c) in log.iter().map(|(q, c)| (*q, c)).chain(must) {
        if !rep.check(fpn(&[f, q]), map.get(&q).is_some_and(|e| c.is(e)), || format!("{what}: record {q} ({}) was acknowledged and is gone", c.short())) {
            return false;
        }
    }
    let same_ids = evs.len() == raw.len() && evs.iter().zip(&raw).all(|(a, b)| format!("{a:?}") == format!("{:?}", b.2));
    if !rep.check(fpn(&[f, 1]), same_ids, || format!("{what}: replay returned {} records, the files hold {}", evs.len(), raw.len())) {
        return false;
    }
    if !rng.chance(1, 2) {
        return true;
    }
    // Restart on the crash image: sequences and ids continue, old records stay, new ones follow.
    let mut cfg = cfg_for(&fs, state);
    cfg.segment_max_bytes = *rng.pick(&[1usize, 700, 64 << 20]);
    cfg.flush_interval = Duration::ZERO;
    cfg.sync = WalSyncPolicy::Always;
    let h = match open(exec, &cfg).await {
        Ok(h) => h,
        Err(e) => {
            rep.violate(format!("{what}: reopening failed: {e}"));
            return false;
        }
    };
    let mut fresh = Vec::new();
    for _ in 0..1 + rng.idx(2) {
        let id = h.next_provisional_id();
        let clash = raw.iter().any(|r| ev_id(&r.2) == id && !matches!(r.2, WalEvent::TxnBegin { .. } | WalEvent::TxnAbort { .. }));
        if clash {
            rep.violate(format!("{what}: transaction id {id} handed out again although the log still holds records of it"));
            return false;
        }
        let ts = 2000 + rng.below(9);
        for c in [gen_payload(rng, l, id, ts), Cmd::Commit(id, ts)] {
            let t = match &c {
                Cmd::Rows(i, b, t) => h.txn_append(*i, b, Timestamp::new(*t)).await,
                Cmd::Del(i, b, _) => h.txn_append_delete(*i, b.clone()).await,
                _ => h.txn_commit(id, Timestamp::new(ts)).await,
            };
            let a = match t {
                Ok(t) => t.durable().await,
                Err(e) => Err(e),
            };
            match a {
                Ok(a) => {
                    if raw.iter().any(|r| r.1 >= a.first_seq) {
                        rep.violate(format!("{what}: new record got sequence {} although the log holds {:?}", a.first_seq, raw.last().map(|r| r.1)));
                        return false;
                    }
                }
                Err(e) => {
                    rep.violate(format!("{what}: append after restart failed: {e}"));
                    return false;
                }
            }
            fresh.push(c);
        }
    }
    let after = replay(&fs, state, None).await;
    let ok = match &after {
        Ok(e) => e.len() == evs.len() + fresh.len() && e.iter().zip(&evs).all(|(a, b)| format!("{a:?}") == format!("{b:?}")) && fresh.iter().zip(&e[evs.len()..]).all(|(c, e)| c.is(e)),
        Err(_) => false,
    };
    rep.check(fpn(&[f, 2]), ok, || format!("{what}: after restart and {} appends replay returned {:?}, expected the {} old records followed by the new ones", fresh.len(), after.as_ref().map(|e| e.len()).map_err(|e| e.to_string()), evs.len()))
}

// ---------------------------------------------------------------- state file

fn wal_state(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed);
    rt().block_on(async {
        let fs = SimFs::new();
        let store: Arc<dyn WalStateStore> = Arc::new(FsWalStateStore::new(Arc::new(fs.clone())));
        let mut model = WalState::default();
        let mut handles = Vec::new();
        for _ in 0..2 {
            match WalStateHandle::load(store.clone(), &dir()).await {
                Ok(h) => handles.push((h, 0u64)),
                Err(e) => return rep.violate(format!("loading state failed: {e}")),
            }
        }
        let mut version = 0u64;
        for step in 0..10 {
            let i = rng.idx(2);
            if rng.chance(1, 3) {
                match WalStateHandle::load(store.clone(), &dir()).await {
                    Ok(h) => {
                        let got = format!("{:?}", h.state());
                        if !rep.check(fpn(&[seed, step, 1]), got == format!("{model:?}"), || format!("state read back as {got}, last persisted {model:?}")) {
                            return;
                        }
                        handles[i] = (h, version);
                    }
                    Err(e) => return rep.violate(format!("loading state failed: {e}")),
                }
                continue;
            }
            let (h, seen) = &mut handles[i];
            let s = h.state_mut();
            match rng.below(5) {
                0 => s.set_frame_seq(rng.next()),
                1 => s.set_segment_seq(rng.below(100)),
                2 => s.set_commit_ts(Timestamp::new(rng.next())),
                3 => {
                    let q = rng.below(4);
                    s.upsert_sealed_segment(crate::wal::WalSegmentBounds::new(q, wal_segment_file_id(q), rng.below(9), 9 + rng.below(9)));
                    let n = s.sealed_segments().iter().filter(|b| b.seq == q).count();
                    if !rep.check(fpn(&[seed, step, 2]), n == 1, || format!("segment {q} recorded {n} times")) {
                        return;
                    }
                }
                _ => {
                    let q = rng.below(9);
                    s.set_active_segment(crate::wal::WalSegmentBounds::new(q, wal_segment_file_id(q), 1, 2));
                }
            }
            let want = h.state().clone();
            let stale = *seen != version;
            let r = h.persist().await;
            if !rep.check(fpn(&[seed, step, 3, stale as u64]), r.is_err() == stale, || format!("persisting a {} view returned {r:?}", if stale { "stale" } else { "current" })) {
                return;
            }
            if stale {
                rep.count("stale_writers", 1);
                match WalStateHandle::load(store.clone(), &dir()).await {
                    Ok(h) => *(&mut handles[i]) = (h, version),
                    Err(e) => return rep.violate(format!("loading state failed: {e}")),
                }
            } else {
                model = want;
                version += 1;
                handles[i].1 = version;
                rep.count("persists", 1);
            }
        }
    });
}
