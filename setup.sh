#!/bin/bash
# Build the replayer, generate the behaviours of the specification the quick checks replay, and prove the
# specification's arithmetic (spec/lemmas).
set -eo pipefail
cd "$(dirname "$0")"; . tools/common.sh
build
quint typecheck spec/main.qnt >/dev/null
d="$BUILD/traces/$(spec_hash)-$SEED"
jobs=""
for c in 1 2; do for p in mix $PROFILES; do jobs="$jobs $p:gen:$c:80"; done; done
for p in mix $PROFILES; do jobs="$jobs $p:init:1:40"; done
# each job once, also for the profile listed twice to start early
bash tools/gen_traces.sh "$d" "$SEED" "$STEPS" $(printf '%s\n' $jobs | awk '!s[$0]++')
touch "$d/complete"
wc -l "$d"/*.jsonl | tail -1
# the time left allows it (what is not decided by then is reported as such in the evidence)
left=$((1400 - SECONDS))
[ "$left" -lt 60 ] || python3 tools/lemmas.py "$BUILD/spec_note.json" $((left < 480 ? left : 480))
