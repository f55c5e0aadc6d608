#!/bin/bash
# usage: corpus.sh SEED COUNT   builds sim-SEED: the simulator over another random type corpus
set -e
cd "$(dirname "$0")/.."
. ./env.sh
d="$PWD/sim-$1"
mkdir -p "$d/src"
cp sim/Cargo.toml sim/Cargo.lock "$d/"
for f in sim/src/*; do
  case $f in */corpus.rs) ;; *) ln -sfn "../../$f" "$d/src/$(basename "$f")" ;; esac
done
python3 sim/gen.py "$1" "$2" "$d/src/corpus.rs.new" >/dev/null
cmp -s "$d/src/corpus.rs.new" "$d/src/corpus.rs" && rm "$d/src/corpus.rs.new" || mv "$d/src/corpus.rs.new" "$d/src/corpus.rs"
export CARGO_TARGET_DIR="$d/target"
cd "$d"
cargo build --release --offline
