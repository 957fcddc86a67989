#!/bin/bash
# seedtest.sh ID: in /repo, confirm the demo passes clean, and that with the patch the stable tests pass and the demo fails.
D=/verif/seeded/$1
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
if [ -z "$SKIPCLEAN" ]; then
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "clean build failed"; exit 1; }
bash $D/demo.sh > /tmp/sd.log 2>&1; echo "demo clean rc=$? (want 0)"; grep -E "^error|panicked|test result" /tmp/sd.log | head -5
fi
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
trap 'git -C /repo checkout -- . ; bash /opt/vp/build.sh >/tmp/sb.log 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "patched build failed"; tail -20 /tmp/sb.log; exit 1; }
bash /opt/vp/test.sh /tmp/st.json > /tmp/st.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/st.json'))
def names(x,k):
    v=x.get(k) if isinstance(x,dict) else None
    return set(v) if isinstance(v,(list,dict)) else set()
bp=names(b,'passed') or names(b,'stable') or names(b,'tests')
rp=names(r,'passed')
print('stable', len(bp), 'missing with patch:', sorted(bp-rp)[:5])
P
bash $D/demo.sh > /tmp/sd.log 2>&1; echo "demo patched rc=$? (want nonzero)"; grep -E "^error|panicked|test result|assert" /tmp/sd.log | head -6
