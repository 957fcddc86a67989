#!/bin/bash
# Usage: miri.sh ROOT PROP: a few cases of the workloads that touch no FFI, under the interpreter
# that detects undefined behaviour. crossbeam-skiplist breaks the aliasing models in its own code, so
# they are off; bounds, lifetimes, initialisation, alignment and data races are checked.
ROOT="$1"; PROP="$2"; export ROOT
. "$ROOT/env.sh"
export RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$ROOT/target/miri" TONBO_VERIF_DIR="$ROOT/target/gen"
export RUSTFLAGS="--cap-lints warn --cfg tonbo_verif"
unset RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR"
OUT="$CARGO_TARGET_DIR/$PROP.json"
lock="$ROOT/harness/Cargo.lock"; cp "$lock" "$CARGO_TARGET_DIR/lock"
cd "$ROOT/harness"
PATCH=()
src=$(ls -d "$HOME"/.cargo/registry/src/*/parking_lot-0.12.5 2>/dev/null | head -1)
[ -d "$ROOT/target/thread/parking_lot" ] && PATCH=(--config "patch.crates-io.parking_lot.path=\"$ROOT/target/thread/parking_lot\"")
miri() { MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-seed=$1" \
  timeout "$2" cargo miri run --offline "${PATCH[@]}" -- case "$3" "$4" "$5"; }
if ! miri 1 600 key_cross 1 1 >"$CARGO_TARGET_DIR/log" 2>&1; then
  if grep -q "Undefined Behavior" "$CARGO_TARGET_DIR/log"; then :; else
    echo '"not available here"' >"$OUT"; cp "$CARGO_TARGET_DIR/lock" "$lock"; echo "note: no miri"; exit 0; fi
fi
rc=0; n=0; cases=0; ran=""
pids=()
for w in key_order key_cross key_maps mem_live mem_versions mem_merge mem_threads txn_staged row_values; do
  for s in 1 2 3; do
    while [ "$(jobs -rp | wc -l)" -ge 8 ]; do wait -n; done
    ( miri $s 700 $w $((s * 100)) 2 >"$CARGO_TARGET_DIR/$w.$s.log" 2>&1; echo $? >"$CARGO_TARGET_DIR/$w.$s.rc" ) &
  done
done
wait
cp "$CARGO_TARGET_DIR/lock" "$lock"
for w in key_order key_cross key_maps mem_live mem_versions mem_merge mem_threads txn_staged row_values; do
  for s in 1 2 3; do
    log="$CARGO_TARGET_DIR/$w.$s.log"
    if grep -q "^error: Undefined Behavior\|^seed .*:" "$log"; then
      path="$ROOT/evidence/replay/$PROP-miri-$w-$s.json"; mkdir -p "$(dirname "$path")"
      python3 - "$log" "$path" "$PROP" $w $s <<'P'
import json,sys
log,path,prop,w,s=sys.argv[1:]
t=open(log,errors='replace').read()
i=max(t.find('error: Undefined Behavior'),0)
json.dump({'property':prop,'workload':w,'seed':int(s)*100,'tier':'thorough','message':'miri: '+t[i:i+300],'trace':t[i:].splitlines()[:120]},open(path,'w'),indent=1)
print('  miri: '+t[i:i+300])
P
      echo "VIOLATION property=$PROP replay=$path"; rc=1
    elif [ "$(cat "$CARGO_TARGET_DIR/$w.$s.rc")" = 0 ]; then cases=$((cases + 2)); ran="$ran $w/$s"; fi
  done
done
echo "{\"cases_finished\": $cases, \"runs\": \"${ran# }\"}" >"$OUT"
echo "miri: $cases cases finished:$ran"
exit $rc
