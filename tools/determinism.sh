#!/bin/bash
# Executes the first runs of every property with 1, 3 and 8 workers and compares the hashes of the executions.
cd "$(dirname "$0")/.." || exit 2
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
bash sim/build.sh "$work" >/dev/null || exit 2
rc=0
for p in $("$work/sim" list); do
  for w in 1 3 8; do
    "$work/sim" check "$p" --lib="$work" --runs="${1:-1000}" --workers=$w --hashes --replays="$work/r" 2>/dev/null | grep -E '^[0-9]+ [0-9]+$' | sort -n > "$work/h$w"
  done
  if cmp -s "$work/h1" "$work/h3" && cmp -s "$work/h1" "$work/h8"; then echo "$p same ($(wc -l < "$work/h1") runs)"; else echo "$p DIFFERENT"; rc=1; fi
done
exit $rc
