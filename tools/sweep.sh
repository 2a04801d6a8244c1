#!/bin/bash
# Runs every check with several seeds: tools/sweep.sh SCALE SEED...
cd "$(dirname "$0")/.."; scale=$1; shift
for s in "$@"; do for f in harness/checks/c??.py; do id=$(basename $f .py | tr c C)
VERIF_SCALE=$scale timeout 3000 ./run.py $id quick --seed $s 2>&1 | tail -4; done; done
