#!/bin/bash
# full upstream suite (with the aisle stand-in), plus the sliced stable tests
rm -rf /tmp/full/src && cp -a /repo/src /tmp/full/src
cd /tmp/full && RUSTUP_TOOLCHAIN=1.90 RUSTFLAGS="--cap-lints warn" CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=/tmp/fulltarget cargo test --lib --offline 2>&1 | grep -v "^test .*ok$" | tail -${1:-40}
cd /repo; bash /opt/vp/build.sh >/tmp/b.log 2>&1 || tail -30 /tmp/b.log; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 -c "
import json
d=json.load(open('/tmp/t.json')); print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()}, d.get('failed'))"
