#!/usr/bin/env python3
# Writes ../properties.jsonl (kept next to the source of truth for readability).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=mech, where=", ".join(files))])))

p("P01","Acknowledged writes survive a crash at any point",
  "Once a write (ingest, ingest with tombstones, or transaction commit with durable acknowledgement) has been acknowledged on a durable database, every later open of the same storage after a process crash at any instant shows that write's effect, unless a newer write to the same key superseded it. This holds whatever sealing, flushing, log rotation, log reclamation, compaction and earlier crashes happened in between, and reopening succeeds (once the leases of a crashed writer have expired).",
  ["crash_points","histories","configurations"],
  "every history of writes, seals, flushes, rotations, compactions and reopens, crashed after every storage mutation (with the last append torn at any byte), in every segment-size/threshold configuration",
  "Tests close the database cleanly or crash at one or two chosen points; they never enumerate the storage mutations of a history.",
  ["src/db/mod.rs","src/db/wal.rs","src/wal/writer.rs","src/wal/replay.rs","src/wal/storage.rs","src/compaction/minor.rs","src/manifest/driver.rs"],
  "WAL append+commit frames before acknowledgement, replay from the manifest WAL floor, version edits published by manifest CAS before WAL reclamation")

p("P02","Batches and transactions are atomic",
  "An ingested batch or committed transaction becomes visible and is recovered as a whole or not at all: no reader and no recovery ever observes a strict subset of its rows and deletes. A write that was aborted, dropped, rejected or reported as conflicting never becomes visible, neither before nor after a crash.",
  ["crash_points","schedules","histories","inputs"],
  "every mix of multi-row batches and transactions, every crash point between and inside their log records, every concurrent reader",
  "Existing tests look at the state after whole operations; they do not cut the log between the records of one transaction nor read concurrently.",
  ["src/wal/writer.rs","src/wal/replay.rs","src/wal/frame.rs","src/transaction/mod.rs","src/db/mod.rs","src/db/wal.rs","src/inmem/mutable/memtable.rs"],
  "TxnBegin/Append/Commit/Abort frames; replay applies only committed transactions; commit timestamp publishes all rows at once")

p("P03","The log replays exactly what was appended, and never fabricates",
  "Reading the write-ahead log returns exactly the records that were completely appended, in order, with identical payloads (rows, tombstones, commit timestamps, transaction ids). An incomplete tail is ignored without affecting the records before it, and any other damage to a record's magic, version, checksum or payload is reported as an error instead of being returned as data; a damaged length is an error or ends the log before that record.",
  ["inputs","crash_points","fault_sequences"],
  "every sequence of records (any size, any batch shape, any segment split), every truncation length, every single or multi byte corruption",
  "Tests round-trip a few records and try a handful of truncations and flips.",
  ["src/wal/frame.rs","src/wal/replay.rs","src/wal/storage.rs","src/wal/writer.rs","src/wal/mod.rs"],
  "fixed 24-byte frame header with magic/version/type/sequence/length/CRC32C; segment files named by sequence; tail truncation on reopen")

p("P04","Log segments are reclaimed only when nothing unflushed needs them",
  "A log segment is deleted only when every record in it belongs to data that a published manifest version already stores in on-disk tables; deleting it never loses a row, tombstone or commit timestamp. The active segment is never deleted, and segment numbers and frame sequence numbers keep increasing across rotations and restarts.",
  ["histories","crash_points","configurations","schedules"],
  "every interleaving of writes, rotations, flushes, compactions and restarts, for every segment size",
  "Tests check one flush with a couple of segments.",
  ["src/wal/storage.rs","src/wal/writer.rs","src/wal/manifest_ext.rs","src/db/wal.rs","src/db/mod.rs","src/manifest/driver.rs","src/compaction/driver.rs"],
  "WalSegmentRef list in each version, WAL floor, prune_wal_segments_below_floor, segment bounds tracking")

p("P05","Commit timestamps are unique and strictly increasing, even across restarts",
  "Every committed write gets a commit timestamp greater than that of every write acknowledged before it, two writes never share one, and the order survives restarts: after reopening, new writes are ordered after everything recovered. Consequently a later acknowledged write to a key always overrides an earlier one, in memory, on disk and after replay.",
  ["histories","schedules","crash_points"],
  "every sequence and concurrency of commits, flushes, crashes and reopens",
  "Tests read the clock after one or two commits and one reopen.",
  ["src/mvcc/mod.rs","src/wal/state.rs","src/wal/replay.rs","src/wal/writer.rs","src/db/mod.rs","src/transaction/mod.rs"],
  "CommitClock (alloc/advance_to_at_least), persisted commit-timestamp hint, timestamps carried by WAL frames and memtable versions")

p("P06","Snapshots are stable and consistent",
  "Reading through a snapshot always returns exactly the state produced by the commits that completed before the snapshot was taken, no matter how often it is read and which writes, deletes, seals, flushes, compactions or aborts happen afterwards. Later commits are never visible through it and earlier ones never disappear from it.",
  ["histories","schedules"],
  "every history of writes after the snapshot, on every storage layer the versions may have moved to, and every concurrent writer",
  "Tests re-read a snapshot after a single overwrite, never after each kind of layer movement.",
  ["src/mvcc/mod.rs","src/db/mod.rs","src/db/scan.rs","src/transaction/mod.rs","src/inmem/mutable/memtable.rs","src/inmem/immutable/memtable.rs","src/query/stream/merge.rs"],
  "ReadView timestamps, visible-at lookups over versioned memtables, merge by key then descending timestamp")

p("P07","A transaction reads its own writes over its snapshot",
  "Inside a transaction, point reads and scans return the transaction's latest staged value or delete for a key it has written, and otherwise the value in its begin snapshot; the result set is that overlay in key order with no duplicates. Nothing a transaction has staged is visible outside it before commit.",
  ["inputs","histories"],
  "every sequence of staged upserts, batches and deletes over every base state and storage layer",
  "Tests stage one or two mutations over an in-memory base.",
  ["src/transaction/mod.rs","src/mutation.rs","src/db/scan.rs","src/query/stream/merge.rs","src/query/stream/mod.rs"],
  "StagedMutations BTreeMap, transaction scan stream as highest-priority merge source, snapshot point lookups")

p("P08","First committer wins: lost updates are impossible",
  "Of two transactions with overlapping lifetimes that both write a key, at most one commits: a commit succeeds only if no other commit after the transaction's snapshot wrote any of its keys, and otherwise fails with a conflict and no effect. Transactions whose write sets do not collide with later commits are not rejected.",
  ["schedules","histories"],
  "every interleaving of concurrent transactions, deletes and upserts, and every layer the conflicting version may be in",
  "Tests run one conflicting pair with the conflict in the mutable memtable.",
  ["src/transaction/mod.rs","src/db/mod.rs","src/inmem/mutable/memtable.rs","src/inmem/immutable/memtable.rs"],
  "per-key commit locks plus has_conflict / newer-version checks over memtables")

p("P09","Newest visible version wins in memory, deletes included",
  "For any read timestamp, the in-memory tables return for each key exactly the version with the greatest commit timestamp not after it, and nothing when that version is a delete; sealing, batch boundaries, insertion order and scan ranges never change the answer. Point reads, range scans and whole scans agree.",
  ["inputs","histories","schedules"],
  "every multiset of versions (upserts, deletes, duplicates in one batch), every read timestamp, every key range, before and after sealing",
  "Tests insert at most a few versions of a key and read at one or two timestamps.",
  ["src/inmem/mutable/memtable.rs","src/inmem/immutable/memtable.rs","src/inmem/immutable/mod.rs","src/key/ts.rs","src/mvcc/mod.rs"],
  "concurrent skiplist of (key, ts) entries, immutable versioned batches with delete sidecar, visible-row scans")

p("P10","Flush and compaction never change query results",
  "Moving data between layers (sealing, flushing to level 0, merging into deeper levels, splitting outputs) never changes what any current read returns: no row is lost, duplicated, resurrected or rolled back, and tombstones keep hiding older versions. Every on-disk table published holds rows in key order and statistics that agree with its contents.",
  ["histories","configurations","inputs"],
  "every data set, every partition into batches/segments/files, every output size limit, every sequence of flush and compaction steps",
  "Tests compact a few small files of a few rows; nothing spans several record batches or levels with deletes.",
  ["src/ondisk/sstable.rs","src/ondisk/merge.rs","src/compaction/executor.rs","src/compaction/driver.rs","src/compaction/minor.rs","src/db/mod.rs"],
  "SsTableBuilder/writer, SsTableMerger k-way merge with tombstones, compaction driver applying version edits")

p("P11","A scan equals the reference evaluation of its query",
  "For any predicate, projection and limit, a scan returns exactly the rows of the logical table that satisfy the predicate, each key once, in ascending primary-key order, with the requested columns and at most the requested number of rows (the first ones). The answer does not depend on which layers hold the rows.",
  ["inputs","histories"],
  "every predicate tree, projection and limit over every table state and layout",
  "Tests run single comparisons on tiny tables.",
  ["src/db/scan.rs","src/query/scan.rs","src/query/stream/merge.rs","src/query/stream/package.rs","src/query/stream/mod.rs","src/ondisk/scan.rs"],
  "ScanPlan, MergeStream, PackageStream residual evaluation, limit accounting")

p("P12","Pruning never hides a row",
  "Skipping a table, row group, page or memtable because of key ranges, statistics, timestamps or bloom filters is only ever an optimisation: a row or tombstone that could affect the query result is never skipped. The recorded statistics of every table (row and tombstone counts, key range, timestamp range) enclose what the table holds.",
  ["inputs","configurations"],
  "every data set, key range, predicate and read timestamp",
  "Tests check pruning on a single constant predicate.",
  ["src/ondisk/sstable.rs","src/ondisk/scan.rs","src/ondisk/bloom.rs","src/ondisk/metadata.rs","src/query/scan.rs","src/db/scan.rs","src/inmem/immutable/memtable.rs"],
  "SsTableStats, parquet statistics/bloom filters, commit-timestamp bounds of immutables, key bounds derived from predicates")

p("P13","Keys have one total order and identity in every representation",
  "Borrowed, owned, serialized and range-bound forms of primary keys (single or composite, of every supported type) agree on a single total order and equality consistent with the column values, hashing agrees with equality, and conversion or (de)serialization never changes a key. Versions of equal keys order newest first.",
  ["inputs"],
  "every pair and triple of keys of every supported type, including extremes, NaN/signed zero, empty and embedded-NUL strings, and composites",
  "Tests compare a few literals.",
  ["src/key/owned.rs","src/key/row.rs","src/key/ts.rs","src/key/mod.rs","src/key/heap_size.rs","src/extractor/extractors.rs"],
  "KeyOwned/KeyRow/KeyTsOwned comparisons, hashing, serde; extractor projections")

p("P14","The manifest is an atomic, linear history of versions",
  "Concurrent manifest updates serialize: each published version applies its edit to exactly the version before it, no acknowledged edit is lost or applied twice, and a writer holding a stale view fails without effect; an update that fails on storage may still have taken effect, but only as a whole and once. Versions are listed newest first with increasing timestamps, old snapshots stay readable and unchanged, and all of it survives reopening.",
  ["schedules","histories","fault_sequences","crash_points"],
  "every sequence and interleaving of edits from several handles, with storage faults and restarts",
  "Tests apply a few edits from one handle.",
  ["src/manifest/driver.rs","src/manifest/domain.rs","src/manifest/codec.rs","src/manifest/bootstrap.rs","src/manifest/version.rs"],
  "VersionEdit application, fusio-manifest CAS head, VersionState lists, table catalog")

p("P15","No file that a live version needs is ever deleted",
  "A data, delete or log file that is referenced by the current version (or by a version still pinned as readable) is never removed or overwritten, and only files that no such version references are ever scheduled for collection. Failed or conflicting compactions remove only their own unpublished outputs.",
  ["histories","schedules","fault_sequences"],
  "every sequence of flushes, compactions, conflicts, storage faults and restarts",
  "Tests check one compaction's obsolete list.",
  ["src/manifest/domain.rs","src/manifest/driver.rs","src/compaction/driver.rs","src/compaction/executor.rs","src/compaction/orchestrator.rs","src/wal/storage.rs"],
  "GC plan derived from removed SSTs/WAL segments, output cleanup after failed apply, WAL pruning")

p("P16","Compaction planning is valid, conflict-free and makes progress",
  "Every planned compaction takes its inputs from existing tables, never the same table twice, includes every target-level table whose key range overlaps when moving between sorted levels, and moves data to a deeper level only. When limits are exceeded a plan is produced, when nothing exceeds them none is, repeated compaction quiesces, and the job queue hands every accepted job to a worker exactly once in order, within its capacity.",
  ["inputs","histories","schedules","configurations"],
  "every level shape, key-range layout and planner configuration; every producer/consumer schedule",
  "Tests use two or three hand-made level shapes.",
  ["src/compaction/planner.rs","src/compaction/scheduler.rs","src/compaction/executor.rs","src/compaction/orchestrator.rs","src/compaction/driver.rs"],
  "LeveledCompactionPlanner, CompactionScheduler bounded queue with budget, task resolution and outcome to version edit")

p("P17","Invalid input is rejected before it has any effect",
  "A batch, row, tombstone vector, schema or key definition that does not match the table is rejected with an error and changes nothing, in memory, in the log or on disk; a valid one is accepted. Stored values come back unchanged: extracting keys and rows from a batch yields exactly the values of the given columns, nulls included.",
  ["inputs","histories"],
  "every schema/batch pair and every malformed variant (wrong arity, type, nullability, null key, wrong tombstone count, bad metadata)",
  "Tests try a couple of invalid schemas.",
  ["src/extractor/extractors.rs","src/extractor/errors.rs","src/mode/dyn_config.rs","src/schema.rs","src/inmem/mutable/memtable.rs","src/db/mod.rs","src/wal/mod.rs","src/transaction/mod.rs"],
  "schema validation in extractor and memtable insert, SchemaBuilder, WAL submission checks, table definition check on reopen")

p("P18","Log acknowledgements honour the sync policy, order and failures",
  "A durable acknowledgement is delivered only after the record is in the log file and, under the always-sync policy, after the file was synced; acknowledgements report strictly increasing sequence numbers in submission order. If appending or syncing fails, the caller gets an error, later writes are not silently acknowledged past the failure, and rotation or shutdown never drops an acknowledged record.",
  ["schedules","fault_sequences","configurations"],
  "every concurrent submission order, queue size, sync policy, segment size and injected storage failure",
  "Tests exercise one writer with one policy on a healthy file system.",
  ["src/wal/writer.rs","src/wal/mod.rs","src/wal/storage.rs","src/wal/metrics.rs"],
  "WalWriter task and queue, perform_sync, rotation, ack channels")

p("P19","Concurrent and boundary use is free of undefined behaviour",
  "No sequence of public operations, on any input and from any number of threads, causes undefined behaviour, data races, use after free, out-of-bounds access or a hang: borrowed key and row views stay valid while used. Operations return a result or an error, and never panic on valid use.",
  ["inputs","schedules"],
  "every operation mix and thread interleaving",
  "Ordinary tests run without memory instrumentation.",
  ["src/key/row.rs","src/query/stream/mod.rs","src/inmem/mutable/memtable.rs","src/inmem/immutable/memtable.rs","src/db/scan.rs"],
  "unsafe lifetime extension of key views and owning scan guards; lock-free skiplist")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
