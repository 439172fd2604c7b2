"""Scratch copies of /repo and of the replayer, for tools/mutate.py and tools/automutate.py."""
import os, subprocess
V = "/verif"; W = "/tmp/mut"; os.makedirs(W, exist_ok=True)
def sh(c, **k): return subprocess.run(["bash", "-c", c], capture_output=True, text=True, **k)
def prepare(n):
    d = f"{W}/{n}"
    if not os.path.isdir(d):
        os.makedirs(d)
        sh(f"cp -a /repo {d}/repo")
        sh(f"cp -a {V}/.build/target {d}/target")
    sh(f"cd {d}/repo && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    sh(f"mkdir -p {d}/verif && rm -rf {d}/verif/harness {d}/verif/tools && cp -r {V}/harness {V}/checks.json {V}/tools {d}/verif/ && sed -i 's#path = \"/repo#path = \"{d}/repo#' {d}/verif/harness/Cargo.toml")
    return d
def build(d):
    return sh(f". {V}/tools/env.sh; export CARGO_TARGET_DIR={d}/target; cd {d}/verif/harness && cargo build --offline --quiet 2>&1 | tail -20; exit ${{PIPESTATUS[0]}}")
