#!/bin/bash
# RUSTC_WRAPPER: enables the guarded hooks in the tonbo crate only, so dependency builds are shared.
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "tonbo" ]; then exec "$@" --cfg tonbo_verif; fi
  prev="$a"
done
exec "$@"
