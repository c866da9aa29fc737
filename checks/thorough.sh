#!/bin/bash
# checks/thorough.sh <property> <binary> <seed>: called by run.sh once the harness is built.
# The deep tier: several independent seeds derived from the given one, each with 25 times the quick case
# counts (10 times for targets that fork), within a time budget; the evidence of the seeds is summed.
set -u
VERIF=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; BIN=$2; SEED=$3
BUILD=$(dirname "$BIN")
N=${VERIF_SEEDS:-4}
BUDGET=${VERIF_BUDGET:-600}
EV=$VERIF/evidence/$ID.json
PARTS=()
for k in $(seq 0 $((N - 1))); do
  # the given seed first: what a quick run would find, then seeds far from those of other runs
  S=$((SEED + k * 1000003))
  E=$BUILD/$ID.evidence.$k.json
  "$BIN" --tier thorough --seed "$S" --evidence "$E" --replay-out "$BUILD/replays/$ID.txt" --budget $((BUDGET / N))
  R=$?
  PARTS+=("$E")
  [ $R = 0 ] || break
done
python3 "$VERIF/tools/merge_evidence.py" "$EV" "$SEED" "${PARTS[@]}" || exit 4
rm -f "${PARTS[@]}"
exit $R
