#!/bin/bash
# checks/run.sh <property> quick|thorough            run the check of a property
# checks/run.sh <property> replay <file>             replay a saved failure
# Builds the harness from /repo/src as it is now (into /verif/build, ignored by git) and runs it.
# Exit 0: held on everything explored; 1 with a VIOLATION line: broken; anything else: error of the check.
set -u
VERIF=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
ID=$1
MODE=${2:-quick}
SEED=${VERIF_SEED:-1}
BUILD=${VERIF_BUILD:-$VERIF/build}
mkdir -p "$BUILD" "$VERIF/evidence" "$BUILD/replays"
export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:symbolize=0
export UBSAN_OPTIONS=print_stacktrace=0:abort_on_error=1
export TSAN_OPTIONS=halt_on_error=1:abort_on_error=1:symbolize=0
export TMPDIR=/tmp
SRC=$VERIF/targets/$ID.cpp
[ -f "$SRC" ] || { echo "no such property: $ID" >&2; exit 2; }
# a line "// build: <flags>" in the target adds or overrides compiler flags
EXTRA=$(sed -n 's,^// build: ,,p' "$SRC" | head -1)
# a line "// parts: N" compiles the target in N pieces, in parallel
PARTS=$(sed -n 's,^// parts: ,,p' "$SRC" | head -1)
PARTS=${PARTS:-1}
# a line "// scale: N" sets the number of cases of the quick check (times the base number of each generator)
SCALE=$(sed -n 's,^// scale: ,,p' "$SRC" | head -1)
SCALE=${VERIF_SCALE:-${SCALE:-4}}
FLAGS="-std=c++17 -O1 -g1 -w -fsanitize=address,undefined -fno-sanitize=null,alignment,object-size,vptr,nonnull-attribute,returns-nonnull-attribute -fno-sanitize-recover=undefined -I$VERIF/harness -I$REPO/src -isystem /usr/include/eigen3 $EXTRA"
export VERIF_REPO=$REPO
BIN=$BUILD/$ID
build() {  # build <jobs at once: all or one>
  local pids= R=0 k p
  g++ $FLAGS -c "$VERIF/harness/driver.cpp" -o "$BIN.0.o" 2>"$BIN.0.log" & pids="$pids $!"
  for k in $(seq "$PARTS"); do
    D=
    [ "$PARTS" -gt 1 ] && D=-DPBT_PART=$k
    g++ $FLAGS $D -c "$SRC" -o "$BIN.$k.o" 2>"$BIN.$k.log" & pids="$pids $!"
    [ "$1" = one ] && { for p in $pids; do wait "$p" || R=1; done; pids=; }
  done
  for p in $pids; do wait "$p" || R=1; done
  OBJ=$(for k in $(seq 0 "$PARTS"); do echo "$BIN.$k.o"; done)
  [ $R = 0 ] && { g++ $FLAGS $OBJ -o "$BIN" 2>"$BIN.link.log" || R=1; }
  return $R
}
rm -f "$BIN"
if ! build all && ! build one; then
  # Is it the library that no longer offers what the property speaks of, or is something wrong with the sandbox?
  # The former when the compiler rejects the target (and was not killed) while it accepts a program that does not use the library.
  LOG=$(cat "$BIN".*.log | grep -m4 -A4 -E "error: |undefined reference|static assertion")
  printf '#include "pbt.h"\n#include <Eigen/Dense>\nPBT_PROPERTY("x", "y")\nTARGET(t, 1) { Eigen::Matrix3d m; m.setZero(); CHECK(m.norm() == 0, ""); }\n' > "$BIN.sane.cpp"
  if [ -n "$LOG" ] && ! grep -qiE "killed|cannot allocate|no space|internal compiler error|out of memory" "$BIN".*.log &&
     g++ $FLAGS "$BIN.sane.cpp" "$VERIF/harness/driver.cpp" -o "$BIN.sane" 2>/dev/null; then
    R=$BUILD/replays/$ID.txt
    { echo "the calls of the property do not compile against $REPO/src:"; echo "$LOG"; } > "$R"
    cat "$R"
    rm -f "$BIN".*.o "$BIN".*.log "$BIN".sane*
    python3 - "$VERIF/evidence/$ID.json" "$ID" "$MODE" "$SEED" "$LOG" <<'PY'
import json, sys
f, i, m, s, log = sys.argv[1:]
json.dump({"property": i, "tier": m if m == "thorough" else "quick", "seed": int(s), "level": "exploration", "wall_s": 0,
           "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the check could not be compiled against the library", "samples": [log]}}, open(f, "w"), indent=1)
PY
    echo "VIOLATION property=$ID replay=$R"
    exit 1
  fi
  echo "build of the check $ID against $REPO failed:" >&2
  echo "$LOG" >&2
  exit 3
fi
rm -f "$BIN".*.o "$BIN".*.log
ulimit -c 0
case $MODE in
  replay) exec "$BIN" --replay "$3" ;;
  quick) exec "$BIN" --tier quick --scale "$SCALE" --seed "$SEED" --evidence "$VERIF/evidence/$ID.json" --replay-out "$BUILD/replays/$ID.txt" --budget "${VERIF_BUDGET:-400}" ;;
  thorough) exec bash "$VERIF/checks/thorough.sh" "$ID" "$BIN" "$SEED" ;;
  *) echo "unknown mode $MODE" >&2; exit 2 ;;
esac
