#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE(demo is appended to this src file) : build /verif/seeded/ID from the
working-tree diff of /repo plus /tmp/seed/demo.rs, /tmp/seed/needs, /tmp/seed/breaks."""
import sys, os, subprocess, json, shutil
sid, prop, target = sys.argv[1:4]
d = f'/verif/seeded/{sid}'
os.makedirs(d, exist_ok=True)
src = os.environ.get('SRC', '/tmp/wt')
diff = subprocess.run(['git', '-C', src, 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout
open(d + '/patch.diff', 'w').write(diff)
shutil.copy('/tmp/seed/demo.rs', d + '/demo.rs')
open(d + '/meta.json', 'w').write(json.dumps({
    'property': prop, 'needs': open('/tmp/seed/needs').read().strip(),
    'what_it_breaks': open('/tmp/seed/breaks').read().strip()}, indent=1) + '\n')
open(d + '/demo.sh', 'w').write(r'''#!/bin/bash
# Compiles demo.rs as a unit-test module of the sandbox's own build of /repo (in a scratch copy)
# and runs it.
HERE="$(cd "$(dirname "$0")" && pwd)"
TARGET_FILE="@T@"
S="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'rm -rf "$S"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.90
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTFLAGS="--cap-lints warn" TMPDIR="$S"
mkdir -p "$S/crate" "$S/target/debug"
cp -a /opt/vp/partial/crate/Cargo.toml /opt/vp/partial/crate/Cargo.lock "$S/crate/" || exit 2
cp -a /opt/vp/partial/crate/src "$S/crate/src" || exit 2
for p in deps build .fingerprint; do cp -a "/opt/vp/partial/crate/target/debug/$p" "$S/target/debug/$p" || exit 2; done
rm -f "$S"/target/debug/deps/tonbo-* "$S"/target/debug/deps/libtonbo-*
export CARGO_TARGET_DIR="$S/target"
cat "$HERE/demo.rs" >> "$S/crate/$TARGET_FILE"
cd "$S/crate" || exit 2
timeout 280 cargo test --lib --offline seeded_demo -- --test-threads 1 > "$S/log" 2>&1
rc=$?
tail -n 25 "$S/log"
grep -q "^test result: ok. [1-9]" "$S/log" || rc=1
exit $rc
'''.replace('@T@', target))
os.chmod(d + '/demo.sh', 0o755)
