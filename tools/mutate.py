#!/usr/bin/env python3
"""mutate.py [-j N] [-t] [ID...]: apply the mutants of tools/mutants.py one at a time to scratch copies of /repo and run
the check of their property (all behaviours already generated in .build). With -t also the repository's own tests.
Scratch copies: /tmp/mut/<n>; results: /tmp/mut/results.json."""
import json, os, re, shutil, subprocess, sys, threading, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
args = sys.argv[1:]; J = 4; tests = False
if "-j" in args: i = args.index("-j"); J = int(args[i+1]); del args[i:i+2]
if "-t" in args: args.remove("-t"); tests = True
from mutate_lib import *
todo = [x for x in M if not args or x[0] in args or x[1] in args]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
lock = threading.Lock(); results = {}
rf = f"{W}/results.json"
if os.path.exists(rf): results = json.load(open(rf))
q = queue.Queue(); [q.put(x) for x in todo]
def work(n):
    d = prepare(n)
    for s in ("env.sh", "test.sh"):
        t = open(f"/opt/vp/{s}").read().replace("cd /repo", f"cd {d}/repo").replace("/opt/vp/env.sh", f"{d}/env.sh").replace("/opt/vp/logs", f"{d}/logs").replace("--test-threads 8", "--test-threads 4")
        open(f"{d}/{s}", "w").write(t)
    while True:
        try: id, prop, f, old, new = q.get_nowait()
        except queue.Empty: return
        p = f"{d}/repo/{f}"; src = open(p).read(); r = {"property": prop}
        body = src.split("#[cfg(test)]\nmod tests")[0]
        if body.count(old) != 1: r["apply"] = body.count(old)
        else:
            open(p, "w").write(src.replace(old, new, 1) if src.index(old) < len(body) else src)
            b = build(d)
            if b.returncode: r["build"] = b.stdout[-600:]
            else:
                files = json.load(open(f"{V}/checks.json"))[prop]["profiles"]
                c = sh(f"cd {V}; ls -d .build/traces/*/complete >/dev/null; fs=; for p in {' '.join(files)}; do fs=\"$fs $(ls .build/traces/*-1/$p-*.jsonl)\"; done; {d}/target/debug/replay check {prop} checks.json quick 1 {d}/ev.json {d}/replays none $fs")
                r["rc"] = c.returncode; r["out"] = (c.stdout + c.stderr)[-700:]
            if tests and "build" not in r:
                sh(f"bash {d}/test.sh {d}/t.json")
                t = json.load(open(f"{d}/t.json")); r["fails"] = sorted(stable - set(t["passed"]))[:3]
            open(p, "w").write(src)
        with lock:
            results[id] = {**results.get(id, {}), **r}; json.dump(results, open(rf, "w"), indent=1)
            print(id, {k: (v if k != "out" else v.strip().splitlines()[-1:][0][:160] if v.strip() else "") for k, v in r.items()}, flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(min(J, len(todo)))]
[t.start() for t in ts]; [t.join() for t in ts]
