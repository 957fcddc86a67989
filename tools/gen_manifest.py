#!/usr/bin/env python3
import json, re, subprocess
hooks = [l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],stdout=subprocess.PIPE,text=True).stdout.splitlines() if l.split(' ',1)[1].startswith('verif:')]
hooks.reverse()
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
rs = open('/verif/harness/src/props.rs').read()
claimed = {m[0]: m[1] for m in re.findall(r'prop!\("(P\d+)", "(\w+)"', rs)}
TECH = {
 'P01': ('crash-point replay of journaled storage under a recovery monitor', 'Real database over a journaling simulated file system; every history is re-opened from the image after sampled storage mutations (all of them when short), torn appends included, and from crashes during recovery; the recovered state must equal the acknowledged state, or that plus the one in-flight write. Assumes storage keeps the order of completed mutations and that a crashed writer\'s leases expire; local-disk fsync behaviour is watched by interposing the libc calls.'),
 'P02': ('crash replay and reader monitors for all-or-nothing visibility', 'Recovered and scanned states are compared with the set of states between whole batches/transactions; aborted, dropped, rejected and conflicting writes must leave no trace.'),
 'P03': ('trace oracle over recorded WAL records with byte-level damage', 'What is appended is recorded and compared with what the replayer returns after truncation at every byte offset, bit flips in every covered region, rotations, restarts and injected I/O faults.'),
 'P08': ('offline conflict checker over transaction histories', 'Interleaved transactions and ingests are recorded and every commit verdict is compared with the first-committer-wins rule evaluated on the recorded history.'),
 'P04': ('log-reclamation monitor over recorded rotations, flushes and crash images', 'Segment names, frame ranges, persisted state and manifest floors are tracked through rotations, flushes, compactions and restarts; a segment that was needed shows up as a lost row when the crash image is re-opened.'),
 'P05': ('online monitor of commit timestamps and recovered clocks', 'Timestamps seen in memtables, log frames and tables are compared with the order of acknowledgements, across crashes and reopens; the commit clock also runs under thread stress.'),
 'P06': ('repeated-read monitor over snapshots against a version map', 'Snapshots and layered reads are compared with the version map at their timestamp, again after later writes and layer moves. Three recorded findings are re-observed by scripted histories; random workloads stay off them.'),
 'P07': ('overlay model over recorded transactions', 'Every read inside a transaction is compared with staged writes laid over the begin snapshot; the staging buffer is driven separately against an ordered map.'),
 'P09': ('version-map monitor over memtable reads', 'Every read timestamp of interest, every kind of bound, before and after sealing and under concurrent writers, against a map of all versions.'),
 'P10': ('layer-move monitor: contents before and after flush and merge', 'Table contents are read back and compared with the fold of the inputs, published statistics are recomputed from the contents, and scans of the database are compared across every layer move, faults and concurrent movers included.'),
 'P11': ('reference evaluation of every scan', 'Random predicates, projections and limits over random layouts; the expected rows come from three-valued evaluation on the version map.'),
 'P12': ('brute-force oracle for each pruning decision', 'Key bounds, row sets, statistics, bloom filters and timestamp bounds are compared with what the data contains.'),
 'P13': ('reference order over all pairs of keys in all representations', 'All twelve key types and composites; equality, order, hash, serialization, range bounds and maps are compared with an independent order on the values. Union-typed keys are left out.'),
 'P14': ('linearizability checker over recorded manifest histories', 'Several handles over real fusio-manifest, interleaved at storage calls with injected faults and a crash at every mutation; acknowledged edits are in effect exactly once, in one order.'),
 'P15': ('file-reference monitor over storage journals', 'After every step the files named by live versions exist with unchanged content; deletion plans and clean-ups after failures name unreferenced files only.'),
 'P16': ('rule monitor over planner decisions and queue traces', 'Every plan over random level shapes is checked against validity rules written independently of the planner; queues are checked for exactly-once, in-order delivery within capacity.'),
 'P17': ('accept/reject oracle with before/after state fingerprints', 'Valid and malformed inputs at every entry point (definitions, batches, tombstones, rows, log, transactions); a rejection must leave memory, log and disk as they were, and what was accepted must read back.'),
 'P18': ('acknowledgement-order monitor with system-call interposition', 'Appends and syncs are counted per acknowledgement in simulated storage with faults and, on a real local disk, by interposing the libc sync calls, with loss of everything not yet synced.'),
 'P19': ('AddressSanitizer, ThreadSanitizer, Miri, debug assertions and hang/panic watchdogs', 'The workloads run under debug assertions and overflow checks with panics, hangs and process deaths as violations. Quick adds an AddressSanitizer build of the memory and concurrency workloads; thorough adds ThreadSanitizer (std rebuilt) and Miri. Scans are held open while other threads write and seal.'),
}
DEF = ('runtime monitor against a reference model on the real code', 'Seeded randomized workloads drive the real code while an independent reference model judges every observation; sampling, not exhaustive.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        t, n = TECH.get(i, DEF)
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'technique': t, 'level': claimed[i], 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './build.sh', 'hooks': {
    'guard': '--cfg tonbo_verif', 'enable': 'rustc-wrap.sh adds --cfg tonbo_verif for the tonbo crate only and TONBO_VERIF_DIR names the generated driver files (see build.sh, env.sh)',
    'source_commits': hooks}, 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json','a').write('\n')
