#!/usr/bin/env python3
"""automutate.py [-j N] [-n SAMPLE] [PATH...]: operator mutants of the contracts' source; every one is replayed against all
generated behaviours. Lists the mutants no behaviour tells apart and the differences no property claims.
Results: /tmp/mut/auto.json."""
import json, os, random, re, sys, threading, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate_lib as L
args = sys.argv[1:]; J = 6; N = None
if "-j" in args: i = args.index("-j"); J = int(args[i+1]); del args[i:i+2]
if "-n" in args: i = args.index("-n"); N = int(args[i+1]); del args[i:i+2]
again = "-s" in args
if again: args.remove("-s")  # only those that survived before
FILES = args or """pool/src/pool/actions.rs pool/src/pool/user.rs pool/src/pool/submit.rs pool/src/pool/reserve.rs pool/src/pool/interest.rs
pool/src/pool/health_factor.rs pool/src/pool/pool.rs pool/src/pool/config.rs pool/src/pool/status.rs pool/src/pool/bad_debt.rs pool/src/auctions/auction.rs
pool/src/auctions/user_liquidation_auction.rs pool/src/auctions/bad_debt_auction.rs pool/src/auctions/backstop_interest_auction.rs
pool/src/emissions/manager.rs pool/src/emissions/distributor.rs pool/src/contract.rs pool/src/storage.rs pool/src/validator.rs
backstop/src/backstop/user.rs backstop/src/backstop/withdrawal.rs backstop/src/backstop/deposit.rs backstop/src/backstop/fund_management.rs
backstop/src/backstop/pool.rs backstop/src/emissions/manager.rs backstop/src/emissions/distributor.rs backstop/src/emissions/claim.rs
backstop/src/contract.rs backstop/src/storage.rs backstop/src/constants.rs pool/src/constants.rs
emitter/src/emitter.rs emitter/src/backstop_manager.rs emitter/src/contract.rs emitter/src/storage.rs pool-factory/src/pool_factory.rs pool-factory/src/storage.rs""".split()
OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \* ", [" + "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r"_floor\(", ["_ceil("]), (r"_ceil\(", ["_floor("]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"if !", ["if "]),
       (r"\b\d[\d_]*\b", ["NUM+1"])]
def mutants(f):
    src = open("/repo/" + f).read(); body = src.split("#[cfg(test)]\nmod tests")[0]
    out = []; off = 0
    for ln, line in enumerate(body.split("\n")):
        code = line.split("//")[0]
        if line.strip().startswith(("//", "#[", "use ", "pub const LEDGER", "const LEDGER")) or "LEDGER_" in line or "publish" in line: off += len(line) + 1; continue
        for pat, subs in OPS:
            for mt in re.finditer(pat, code):
                if "fn " in code or code.strip().startswith(("pub struct", "let mut iter")): continue
                if pat.startswith(r"\b\d") and ("contracttype" in code or '"' in code): continue
                for s in subs:
                    if s == "NUM+1": s = str(int(mt.group().replace("_", "")) + 1)
                    out.append((f"{f}:{ln+1}:{mt.start()}:{mt.group().strip()}->{s.strip()}", f, off + mt.start(), off + mt.end(), s))
        # statement deletion
        if re.match(r"^\s+[a-z_:.]+(\(|\.).*;\s*$", code) and not code.strip().startswith(("let ", "return", "panic")) and "Symbol" not in code:
            out.append((f"{f}:{ln+1}:del {code.strip()[:50]}", f, off, off + len(line), ""))
        off += len(line) + 1
    return out
T = os.environ.get("TRACES", ".build/traces/*-1/*.jsonl")
todo = [m for f in FILES for m in mutants(f)]
if N: random.seed(1); todo = random.sample(todo, min(N, len(todo)))
rf = f"{L.W}/auto.json"; results = json.load(open(rf)) if os.path.exists(rf) else {}
if again: todo = [m for m in todo if results.get(m[0], {}).get("differences", 1) == 0]
else: todo = [m for m in todo if m[0] not in results]
print(len(todo), "mutants", flush=True)
q = queue.Queue(); [q.put(x) for x in todo]; lock = threading.Lock()
def work(n):
    d = L.prepare(n)
    while True:
        try: id, f, a, b, s = q.get_nowait()
        except queue.Empty: return
        p = f"{d}/repo/{f}"; src = open(p).read()
        open(p, "w").write(src[:a] + s + src[b:])
        r = {}
        c = L.build(d)
        if c.returncode: r["build"] = True
        else:
            c = L.sh(f"cd {L.V}; timeout 600 {d}/target/debug/replay attr checks.json {T} | tail -1")
            try: r = json.loads(c.stdout)
            except Exception: r = {"differences": 1, "properties": {"crash": 1}, "samples": [c.stdout[-300:] + c.stderr[-300:]]}
        open(p, "w").write(src)
        with lock:
            results[id] = r; json.dump(results, open(rf, "w"), indent=1)
            print(id, "BUILD" if "build" in r else "SURVIVED" if not r["differences"] else "unclaimed " + r["samples"][0][:200] if not r["properties"] else " ".join(r["properties"]), flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
