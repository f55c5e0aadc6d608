#!/bin/bash
# usage: check.sh PROPERTY        (VERIF_SEED, VERIF_TIER from the environment)
# Builds the simulator against /repo's working tree and runs one property's batch. The thorough tier first
# runs quick batches over other random type corpora (CORPORA="SEED:COUNT ...").
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
log="$(mktemp)"
built() {
  if ! "$@" >"$log" 2>&1; then
    tail -60 "$log" >&2
    echo "the simulator does not build against /repo's current tree" >&2
    rm -f "$log"
    exit 2
  fi
}
built sh -c 'cd sim && cargo build --release --offline'
if [ "$VERIF_TIER" = thorough ]; then
  for c in ${CORPORA:-101:60 102:60 103:60}; do
    s="${c%%:*}"
    built tools/corpus.sh "$s" "${c##*:}"
    VERIF_TIER=quick YASIM_EVIDENCE="$PWD/sim-$s/evidence" "sim-$s/target/release/yasim" check "$1" || exit $?
    YASIM_OTHER_EVIDENCE="$YASIM_OTHER_EVIDENCE:$PWD/sim-$s/evidence/$1.json"
  done
  export YASIM_OTHER_EVIDENCE
fi
rm -f "$log"
exec sim/target/release/yasim check "$@"
