#!/usr/bin/env python3
"""Build the harness against /repo.

The in-crate drivers are include!d into the tonbo crate through guarded hooks. Each include point
gets a generated selector file; a driver that no longer compiles against the tree (a private item
was renamed, say) is replaced by an empty stub and the rest is kept, so that a refactoring costs
coverage (reported in the evidence) and not the whole check.
"""
import glob, os, re, shutil, subprocess, sys

ROOT = sys.argv[1]
VERBOSE = '-v' in sys.argv
STRICT = '-s' in sys.argv
TARGET = os.environ['CARGO_TARGET_DIR']
GEN = os.environ['TONBO_VERIF_DIR']
IN = os.path.join(ROOT, 'incrate')
SEED = '/opt/vp/partial/crate/target/debug'
# Sanitizer build: 'address' or 'thread' (needs the nightly toolchain; thread also its rust-src).
SAN = os.environ.get('TONBO_SAN', '')
SAN_ARGS = {'': [], 'address': ['--target', 'x86_64-unknown-linux-gnu'],
            'thread': ['--target', 'x86_64-unknown-linux-gnu', '-Zbuild-std']}[SAN]

# include point -> driver modules (name, required)
POINTS = {
    'lib': [('report', True), ('simfs', True), ('tuning', True), ('keys_pub', True), ('syncs', True)],
    'db': [], 'compaction': [], 'wal': [], 'manifest': [], 'transaction': [],
}
# flat files included as the whole body of a hook module; stubbable by an empty file
FLAT = {'db': 'db.rs', 'compaction': 'compaction.rs'}

def discover():
    """c_<point>_<name>.rs files are component drivers included at <point>."""
    for f in sorted(os.listdir(IN)):
        m = re.match(r'c_(lib|db|compaction|wal|manifest|transaction)_(\w+)\.rs$', f)
        if m:
            POINTS[m.group(1)].append((f[:-3], False))

STUB = "pub const WORKLOADS: &[(&str, fn(u64, &mut crate::verif::report::Report))] = &[];\n"

def generate(dropped):
    os.makedirs(GEN, exist_ok=True)
    for point, mods in POINTS.items():
        out = []
        if point in FLAT and FLAT[point] not in dropped:
            out.append('include!("%s/%s");' % (IN, FLAT[point]))
        for name, required in mods:
            if name + '.rs' in dropped:
                out.append('pub mod %s { %s }' % (name, STUB.strip()))
            else:
                out.append('pub mod %s { include!("%s/%s.rs"); }' % (name, IN, name))
        names = [n for n, r in mods if not r]
        out.append('pub fn workloads() -> Vec<(&\'static str, fn(u64, &mut crate::verif::report::Report))> { let mut v: Vec<(&\'static str, fn(u64, &mut crate::verif::report::Report))> = Vec::new(); %s v }'
                   % ' '.join('v.extend_from_slice(%s::WORKLOADS);' % n for n in names))
        if point == 'lib':
            out.append('pub fn all_workloads() -> Vec<(&\'static str, fn(u64, &mut crate::verif::report::Report))> { let mut v = workloads(); v.extend(crate::db::verif::workloads()); v.extend(crate::compaction::verif::workloads()); v.extend(crate::wal::verif::workloads()); v.extend(crate::manifest::verif::workloads()); v.extend(crate::transaction::verif::workloads()); v }')
        text = '\n'.join(out) + '\n'
        path = os.path.join(GEN, point + '.rs')
        if not os.path.exists(path) or open(path).read() != text:
            open(path, 'w').write(text)

def seed_target():
    """Reuse the dependency artefacts of the sandbox's own build (same flags and toolchain)."""
    dst = os.path.join(TARGET, 'debug')
    if not os.path.exists(dst) and os.path.isdir(SEED):
        os.makedirs(TARGET, exist_ok=True)
        subprocess.run(['cp', '-a', SEED, dst])

def patched_lock():
    """parking_lot 0.12.5 releases an upgradable lock with a relaxed store when threads are parked
    on it (raw_rwlock.rs, unlock_upgradable_slow), which the race detector rightly reports as a
    missing release. That is not the code under test: the race detector runs with a copy in which
    that store releases."""
    if SAN != 'thread':
        return []
    src = glob.glob(os.path.expanduser('~/.cargo/registry/src/*/parking_lot-0.12.5'))
    if not src:
        return []
    dst = os.path.join(TARGET, 'parking_lot')
    if not os.path.isdir(dst):
        os.makedirs(TARGET, exist_ok=True)
        shutil.copytree(src[0], dst)
    p = os.path.join(dst, 'src', 'raw_rwlock.rs')
    t = open(src[0] + '/src/raw_rwlock.rs').read()
    i = t.index('fn unlock_upgradable_slow')
    j = t.index('\n    }\n', i)
    body = re.sub(r'new_state,\s*Ordering::Relaxed,', 'new_state, Ordering::Release,', t[i:j])
    t = t[:i] + body + t[j:]
    if open(p).read() != t:
        open(p, 'w').write(t)
    return ['--config', 'patch.crates-io.parking_lot.path="%s"' % dst]

def cargo(args):
    return subprocess.run(['cargo', 'build', '--offline'] + SAN_ARGS + patched_lock() + args, cwd=os.path.join(ROOT, 'harness'),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    discover()
    lock = os.path.join(ROOT, 'harness', 'Cargo.lock')
    lock0 = open(lock).read() if os.path.exists(lock) else None
    if not SAN:
        seed_target()
    dropped, features = set(), []
    for _ in range(12):
        generate(dropped)
        r = cargo(features)
        if r.returncode == 0:
            break
        if STRICT:
            errs = [b for b in r.stdout.split('\n\n') if b.lstrip().startswith('error')]
            sys.stdout.write(('\n\n'.join(errs)[:7000] or r.stdout[-3000:]) + '\n')
            sys.exit(1)
        names = {os.path.basename(p) for p in re.findall(r'-->\s+(\S+?\.rs):\d+', r.stdout)
                 if os.path.abspath(os.path.join(ROOT, 'harness', p)).startswith(IN)}
        optional = {n + '.rs' for ms in POINTS.values() for n, req in ms if not req} | set(FLAT.values())
        new = (names & optional) - dropped
        if not new:
            # Errors in the database-level harness: drop it as a whole.
            if '--no-default-features' not in features and re.search(r'-->\s+src/\w+\.rs', r.stdout):
                features = ['--no-default-features']
                continue
            sys.stdout.write('\n'.join(l for l in r.stdout.splitlines() if not l.startswith('warning'))[-6000:] + '\n')
            sys.exit(1)
        print('note: dropping drivers that do not compile against this tree: %s' % sorted(new))
        if VERBOSE:
            print(r.stdout[-6000:])
        dropped |= new
        if dropped & set(FLAT.values()):
            features = ['--no-default-features']
    else:
        sys.exit(1)
    if lock0 is not None and open(lock).read() != lock0:
        open(lock, 'w').write(lock0)
    if VERBOSE:
        print(r.stdout[-3000:])

main()
