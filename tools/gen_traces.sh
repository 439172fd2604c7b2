#!/bin/bash
# gen_traces.sh OUTDIR SEED STEPS JOB...: behaviours of the specification, packed, one file OUTDIR/<job>.jsonl per JOB.
# A JOB is <profile>:<mode>:<chunk>:<N>: N behaviours of that profile. Mode gen: for replay only;
# mode init: the properties of props.qnt are evaluated on every step as well.
set -eo pipefail
here=$(cd "$(dirname "$0")" && pwd); . "$here/env.sh"
out=$1 seed=$2 steps=$3; shift 3
mkdir -p "$out"
export SPEC="$here/../spec/main.qnt" OUT="$out" SEED="$seed" STEPS="$steps" REPLAY="$CARGO_TARGET_DIR/debug/replay"
one() {
  IFS=: read -r p mode chunk n <<<"$1"
  f="$OUT/$p-$mode-$chunk.jsonl"
  [ -s "$f" ] && return 0
  d=$(mktemp -d "$OUT/tmp.XXXXXX")
  s=$(( (SEED * 1000003 + chunk * 7919 + $(printf %s "$p$mode" | cksum | cut -d' ' -f1)) % 2000000000 + 1 ))
  if ! quint run "$SPEC" --init "${mode}_$p" --max-samples "$n" --n-traces "$n" --max-steps "$STEPS" --n-threads 1 --invariant holds \
      --out-itf "$d/$p-$mode-${chunk}_{seq}.itf.json" --seed "$s" --verbosity 1 >"$d/log" 2>&1; then
    # a behaviour that breaks `holds` ends the run: it is kept, the check of the property reports it
    if ! ls "$d"/*.itf.json >/dev/null 2>&1; then cat "$d/log" >&2; rm -r "$d"; return 1; fi
  fi
  "$REPLAY" pack "$f.new" "$d"/*.itf.json && mv "$f.new" "$f"
  rm -r "$d"
}
export -f one
printf '%s\n' "$@" | xargs -P "$(nproc)" -I@@ bash -c 'one @@'
