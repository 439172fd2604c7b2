# paths and the steps shared by setup and the checks
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
. "$ROOT/tools/env.sh"
BUILD="$ROOT/.build"
PROFILES="lend liq bad int bstop status emis rz em conf fac"
SEED="${VERIF_SEED:-1}"
STEPS=125
spec_hash() { cat "$ROOT"/spec/*.qnt "$ROOT"/tools/gen_traces.sh "$ROOT"/harness/src/pack.rs "$ROOT"/harness/src/model.rs | sha256sum | cut -c1-12; }
# build the replayer against /repo's working tree; cargo's timestamps are not trusted
build() {
  local h old fp="$CARGO_TARGET_DIR/debug/.fingerprint"
  h=$(cd /repo && find . \( -name target -o -name .git -o -name test_snapshots \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.wasm' \) -print0 |
      sort -z | xargs -0 sha256sum; cat "$ROOT"/harness/src/*.rs "$ROOT"/harness/Cargo.* "$ROOT"/harness/*.wasm | sha256sum)
  h=$(printf %s "$h" | sha256sum | cut -c1-64)
  old=$(cat "$BUILD/built" 2>/dev/null || true)
  if [ "$h" = "$old" ] && [ -x "$CARGO_TARGET_DIR/debug/replay" ]; then return 0; fi
  mkdir -p "$BUILD"
  rm -f "$BUILD/built"
  for c in pool backstop emitter pool-factory mock-pool-factory moderc3156-example replay; do rm -rf "$fp/$c"-*; done
  (cd "$ROOT/harness" && cargo build --offline --locked --quiet) || return 1
  printf %s "$h" > "$BUILD/built"
}
