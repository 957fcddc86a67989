#!/bin/bash
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$ROOT/env.sh"
python3 "$ROOT/tools/build.py" "$ROOT" "$@"
