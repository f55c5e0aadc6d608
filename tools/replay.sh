#!/bin/bash
# usage: replay.sh FILE   replays a violation with the simulator (and the type corpus) it was found with
f="$(realpath "$1")"
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
read -r s n < <(python3 -c "import json,sys; print(*json.load(open(sys.argv[1])).get('corpus',[7,45]))" "$f")
if [ "$s" = 7 ]; then
  (cd sim && cargo build --release --offline -q) && exec sim/target/release/yasim replay "$f"
else
  tools/corpus.sh "$s" "$n" >/dev/null 2>&1 && exec "sim-$s/target/release/yasim" replay "$f"
fi
exit 2
