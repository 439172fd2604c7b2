#!/usr/bin/env python3
"""Which checks see which of the changes kept in /verif/seeded: applies each patch to a scratch copy of /repo, builds the
replayer against it, replays the behaviours setup.sh generated and prints the properties the differences fall under.
Usage: tools/tryseeds.py [ID…]"""
import glob, json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate_lib import V, W, sh, prepare, build
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(f"{V}/seeded/*/meta.json"))
H = subprocess.run(["bash", "-c", f"cd {V} && . tools/common.sh && spec_hash"], capture_output=True, text=True).stdout.strip()
T = os.environ.get("TRACES", f"{V}/.build/traces/{H}-1/*.jsonl")
d = prepare("seeds")
for i in ids:
    p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    sh(f"cd {d}/repo && git checkout -q -- . && git apply {V}/seeded/{i}/patch.diff")
    b = build(d)
    if b.returncode: print(i, p, "BUILD FAILED", b.stdout[-300:], flush=True); continue
    r = sh(f"{d}/target/debug/replay attr {V}/checks.json {T}")
    print(i, p, "CAUGHT" if p in r.stdout.split() or f'"{p}"' in r.stdout or p in r.stdout else "MISSED", "|", " ".join(r.stdout.split())[:200], flush=True)
sh(f"cd {d}/repo && git checkout -q -- .")
