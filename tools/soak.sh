#!/bin/bash
# soak.sh COUNT FROM WORKLOAD...: run many cases of each workload on 7 processes; print distinct violations.
N=$1; F=$2; shift 2
out=/tmp/soak; mkdir -p $out; rm -f $out/*
for w in "$@"; do for b in 0 1 2 3 4 5 6; do
  timeout ${CAP:-3000} /verif/target/debug/tonbo-verif case $w $((F+b*N)) $N > $out/$w.$b 2>&1 &
done; wait; done
cat $out/* | grep '^seed' | sed 's/^seed [0-9]*: //; s/[0-9]\{3,\}/N/g' | cut -c1-${W:-230} | sort | uniq -c | sort -rn | head -${TOP:-30}
echo "done: $(ls $out | wc -l) runs, $(cat $out/* | grep -c '^seed') violations"
