#!/bin/bash
# Runs the first N runs of every property (default 1000) once in one process and once dealt out to three
# processes, and compares the traces (events of the log, every draw, counters and outcome of each run).
# usage: tools/determinism.sh [N] [PROPERTY...]      (after ./setup.sh)
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD"
n=${1:-1000}; shift
props=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
w=$(mktemp -d /tmp/det.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
rc=0
for p in $props; do
  ./sim/target/release/yasim tracehash "$p" --n "$n" >"$w/a" 2>/dev/null
  for k in 0 1 2; do ./sim/target/release/yasim tracehash "$p" --from $k --n "$n" --step 3 >"$w/b$k" 2>/dev/null & done; wait
  cat "$w"/b? | sort -n >"$w/b"
  d=$(diff "$w/a" "$w/b" | grep -c '^<')
  echo "$p: $(wc -l <"$w/a") runs, $d differ"
  [ "$d" = 0 ] || rc=1
done
exit $rc
