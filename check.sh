#!/bin/bash
# Usage: check.sh PROPERTY quick|thorough
# Builds the harness against /repo's current working tree and runs the property's monitors.
# exit 0: held on everything explored; 1: violation; anything else: no answer.
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export ROOT
PROP="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; SEED="${VERIF_SEED:-1}"
. "$ROOT/env.sh"

# run BIN ARGS...: one process of monitors; a death by signal (or by a sanitizer) is a violation.
run() {
  local bin="$1" rc; shift
  rm -f "$ROOT/evidence/replay/$PROP".*.running
  "$bin" check --prop "$PROP" --tier "$TIER" --seed "$SEED" --root "$ROOT" "$@"
  rc=$?
  # 134 abort, 139 segmentation fault, 132 illegal instruction, 135 bus error, 66 race detector.
  case $rc in
  66|132|134|135|139) python3 "$ROOT/tools/crashed.py" "$ROOT" "$PROP" "$TIER" "$bin" $rc; exit 1 ;;
  esac
  return $rc
}

PARTS=()
# sanitized KIND CAP: the memory and concurrency workloads in a sanitizer build.
sanitized() {
  local kind="$1" out
  out="$ROOT/target/$kind/$PROP.json"
  if ! (. "$ROOT/san.sh" "$kind"; timeout 500 python3 "$ROOT/tools/build.py" "$ROOT" >"$ROOT/target/$kind.log" 2>&1); then
    PARTS+=("$kind=(the sanitizer build is not available here)"); echo "note: no $kind sanitizer build"; return
  fi
  export SAN_LOG="$ROOT/target/$kind/report"
  rm -f "$SAN_LOG".*
  export ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:disable_coredump=1:log_path=$SAN_LOG"
  export TSAN_OPTIONS="halt_on_error=1:exitcode=66:log_path=$SAN_LOG"
  run "$(. "$ROOT/san.sh" "$kind"; echo "$SANBIN")" --sanitizer "$kind" --cap "$2" || exit $?
  cp "$ROOT/evidence/$PROP.json" "$out"; PARTS+=("$kind=$out")
  unset SAN_LOG
}

python3 "$ROOT/tools/build.py" "$ROOT" || exit 3
if [ "$PROP" = P19 ]; then
  if [ "$TIER" = thorough ]; then
    sanitized address 600
    sanitized thread 600
    "$ROOT/tools/miri.sh" "$ROOT" "$PROP" || exit $?
    PARTS+=("miri=$ROOT/target/miri/$PROP.json")
  else
    sanitized address 60
  fi
fi
run "$CARGO_TARGET_DIR/debug/tonbo-verif" --parts "${PARTS[@]}"
