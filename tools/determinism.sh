#!/bin/bash
# determinism.sh [pct] [properties...]: the same seeds, split over 8 and over 3 workers, must give the same traces.
cd "$(dirname "$0")/.." || exit 2
pct=${1:-10}; shift
props=${*:-$(./build/release/simcheck list)}
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
bad=0
for p in $props; do
    for w in 8 3; do
        for k in $(seq 0 $((w-1))); do
            SIMCHECK_SCRATCH=$T/s$w SIMCHECK_TRACE=1 ./build/release/simcheck worker "$p" --tier quick --seed 1 --pct "$pct" --workers $w --k "$k" 2>/dev/null | grep '^T ' > "$T/$w.$k" &
        done
        wait
        sort -n -k2 "$T"/$w.* > "$T/all$w"
        rm -f "$T"/$w.*
    done
    if cmp -s "$T/all8" "$T/all3"; then echo "$p: $(wc -l < "$T/all8") traces identical"; else echo "$p: DIFFERENT ($(diff "$T/all8" "$T/all3" | grep -c '^<'))"; bad=1; diff "$T/all8" "$T/all3" | head -6; fi
done
exit $bad
