#!/usr/bin/env python3
"""lemmas.py OUT.json [SECONDS]: Apalache on spec/lemmas (every `val` but the helpers, from arbitrary integers). Claims whose
name begins with "wrong" must be refuted. Writes what was proved; exit 1 if a claim came out the other way."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, limit = sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 3600
SLOW = {"rateModBounds", "rateModUp", "rateModDown", "scaleLot", "scaleBidRest", "growthMore"}  # on their own
end = time.time() + limit; tmp = tempfile.mkdtemp(); groups = []
for f in ("numbers", "steps", "bsteps", "status"):
    src = open(f"{V}/spec/lemmas/{f}.qnt").read()
    names = [n for n, d in re.findall(r"^  val ([a-z]\w*) =(.*)", src, re.M) if not n.startswith("ok") and n != "fits"]
    alone = [n for n in names if n in SLOW or n.startswith("wrong")]; rest = [n for n in names if n not in alone]
    k = 7 if f == "numbers" else 3
    groups += [(f, [n]) for n in alone] + [(f, rest[i:i+k]) for i in range(0, len(rest), k)]
groups.sort(key=lambda g: (g[1][0] not in SLOW, -len(g[1])))
def verify(i, f, names, t):
    d = f"{tmp}/{i}-{names[0]}"; os.makedirs(d)
    p = subprocess.Popen(["quint", "verify", f"{V}/spec/lemmas/{f}.qnt", "--invariants", *names, "--max-steps", "0", "--server-endpoint", f"localhost:{18800 + i}"],
                         cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o = p.communicate(timeout=max(t, 1))[0]
    except subprocess.TimeoutExpired: o = ""
    try: os.killpg(p.pid, 9)
    except ProcessLookupError: pass
    return "holds" if "[ok]" in o else "refuted" if "[violation]" in o else "undecided"
def one(x):
    i, (f, names) = x
    left = end - time.time()
    r = verify(i, f, names, left) if left > 20 else "undecided"
    return [(f, n, r) for n in names]
with ThreadPoolExecutor(max(2, (os.cpu_count() or 4) - 2)) as ex: res = [y for l in ex.map(one, enumerate(groups)) for y in l]
shutil.rmtree(tmp)
bad = [(f, n, r) for f, n, r in res if r == ("holds" if n.startswith("wrong") else "refuted")]
note = {"tool": "quint verify (Apalache, SMT), arbitrary integers",
        "proved": sorted(f"{f}.{n}" for f, n, r in res if r == "holds" and not n.startswith("wrong")),
        "refuted as they must be": sorted(f"{f}.{n}" for f, n, r in res if r == "refuted" and n.startswith("wrong")),
        "undecided within the time": sorted(f"{f}.{n}" for f, n, r in res if r == "undecided")}
json.dump(note, open(out, "w"), indent=1)
print(len(note["proved"]), "proved,", len(note["refuted as they must be"]), "refuted as they must be,", len(note["undecided within the time"]), "undecided")
for f, n, r in bad: print("WRONG:", f, n, r)
sys.exit(1 if bad else 0)
