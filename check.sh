#!/bin/bash
# check.sh <property> [quick|thorough]: builds from /repo's tree, then runs the simulation.
cd "$(dirname "$0")" || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
if ! out=$(bash build.sh 2>&1); then
    printf '%s\n' "$out" | tail -40
    echo "harness error: build failed"
    exit 2
fi
exec ./build/release/simcheck check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}"
