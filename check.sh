#!/bin/bash
# check.sh ID: decide one property on /repo's working tree (VERIF_TIER quick or thorough).
set -eo pipefail
cd "$(dirname "$0")"; . tools/common.sh
id=$1 tier="${VERIF_TIER:-quick}"
build || { echo "the replayer does not build against /repo"; exit 2; }
profs=$(python3 -c 'import json,sys; print(*json.load(open("checks.json"))[sys.argv[1]]["profiles"])' "$id")
h=$(spec_hash)
d="$BUILD/traces/$h-$SEED"
if [ "$tier" = thorough ]; then
  jobs=""
  for c in 11 12 13 14 15 16; do for p in $profs; do jobs="$jobs $p:gen:$c:100"; done; done
  for p in $profs; do jobs="$jobs $p:init:11:100"; done
  bash tools/gen_traces.sh "$BUILD/traces/$h-$SEED-thorough" "$SEED" 205 $jobs
elif [ ! -e "$d/complete" ]; then
  # no behaviours for this seed and specification from setup
  jobs=""
  for p in $profs; do jobs="$jobs $p:gen:1:60 $p:init:1:20"; done
  bash tools/gen_traces.sh "$d-quick" "$SEED" "$STEPS" $jobs
  d="$d-quick"
fi
files=()
# the property's own profiles first, then all others
rest=""
for p in mix $PROFILES; do [[ " $profs " == *" $p "* ]] || rest="$rest $p"; done
for p in $profs $rest; do for f in "$d/$p"-*.jsonl; do [ -e "$f" ] && files+=("$f"); done; done
if [ "$tier" = thorough ]; then
  for p in $profs; do for f in "$d-thorough/$p"-*.jsonl; do [ -e "$f" ] && files+=("$f"); done; done
fi
[ ${#files[@]} -gt 0 ] || { echo "no behaviours to replay"; exit 2; }
mkdir -p evidence
exec "$CARGO_TARGET_DIR/debug/replay" check "$id" checks.json "$tier" "$SEED" "evidence/$id.json" "$BUILD/replays" "$BUILD/spec_note.json" "${files[@]}"
