#!/bin/bash
# strict build, then run the named workloads: dev.sh N workload...
cd "$(dirname "$0")/.." && ./build.sh -s || exit 1
N=$1; shift
for w in "$@"; do timeout 600 target/debug/tonbo-verif case $w ${FROM:-1} $N | tail -${TAIL:-4}; done
