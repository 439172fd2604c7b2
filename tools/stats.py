#!/usr/bin/env python3
"""stats.py FILE.jsonl...: what the packed behaviours of the specification contain (operations by outcome, notable situations)."""
import json, sys, re, collections
C = collections.Counter(); N = collections.Counter()
for f in sys.argv[1:]:
    for line in open(f):
        t = json.loads(line); obs = {}; pre = {}
        for st in t["steps"]:
            pre = dict(obs)
            for k in st["-"]: obs.pop(k, None)
            obs.update(st["+"])
            c = st["c"][0]; ok = c["ok"]
            C[(c["op"], "ok" if ok else c["why"])] += 1
            if c["op"] == "submit":
                for r in c["r"]: C[(f"submit:{r[0]}", "ok" if ok else c["why"])] += 1
            if c["op"] == "deploy" or not ok: continue
            for p in ("poolA", "poolB"):
                bl = [k for k in pre if k.startswith(f"pool.{p}.pos.backstop.liab")]
                al = [k for k in obs if k.startswith(f"pool.{p}.pos.backstop.liab")]
                if c["op"] == "submit" and c["s"][0] == p and any(r[0] == "7" for r in c["r"]):
                    lp = int(pre.get(f"bs.pool.{p}.tokens", 0)) - int(obs.get(f"bs.pool.{p}.tokens", 0))
                    N["badfill:" + ("all" if not al else "part")] += 1
                    if lp == 0: N["badfill lot 0"] += 1
                    if not al and any(int(r[2]) < 100 for r in c["r"] if r[0] == "7") and not any(int(r[2]) == 100 for r in c["r"] if r[0] == "7"): N["badfill burn"] += 1
                    if len(bl) > 1: N["badfill multi"] += 1
                for k in obs:
                    m = re.fullmatch(rf"pool\.{p}\.data\.(\w+)\.lastT", k)
                    if not m or k not in pre or pre[k] == obs[k]: continue
                    b = k[:-5]; dt = int(obs[k]) - int(pre[k])
                    d0, d1 = (lambda o: [int(o.get(b + x, 0)) for x in ("bRate", "dRate", "bSup", "dSup", "irMod", "credit")])(pre), \
                             (lambda o: [int(o.get(b + x, 0)) for x in ("bRate", "dRate", "bSup", "dSup", "irMod", "credit")])(obs)
                    sup, lia = d0[0] * d0[2] // 10**9, d0[1] * d0[3] // 10**9
                    N["accrual"] += 1
                    if dt > 90 * 86400 and lia: N["accrual > 90 days"] += 1
                    if sup:
                        u = lia * 10**7 // sup
                        N["accrual util " + ("0" if lia == 0 else "<t" if u <= int(pre[f"pool.{p}.cfg.{m[1]}.util"]) else "t..95" if u <= 9500000 else "95..100" if u <= 10**7 else ">100")] += 1
                    if lia and d1[1] == d0[1]: N["accrual without effect on dRate"] += 1
                    if lia and lia < 1000: N["accrual of tiny loans"] += 1
                    if d1[4] in (10**8, 10**10) and d1[4] != d0[4]: N["irMod reaches bound"] += 1
                    if d1[0] < d0[0]: N["bRate down"] += 1
                    if sup and d0[2] < 10**6: N["accrual of tiny supply"] += 1

for k, v in sorted(C.items()): print(f"{k[0]:14} {k[1]:10} {v}")
for k, v in sorted(N.items()): print(k, v)
