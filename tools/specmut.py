#!/usr/bin/env python3
"""specmut.py [-j N] [ID...]: are the predicates of props.qnt and moves.qnt worth anything?

Each entry breaks one rule of a scratch copy of the specification; simulating the copy must make a predicate fail. This is
the case conformance cannot see: a rule that is wrong in the code and in the specification alike.
Prints `ID CAUGHT <predicates>` or `ID MISSED`."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
M = [  # id, profile, file, old, new
 # pool: reserves and requests
 ("mint-up", "lend", "pool", 'if (r.rt == 0) "sup" else "coll", bDown(d, r.amt))\n', 'if (r.rt == 0) "sup" else "coll", bUp(d, r.amt))\n'),
 ("burn-down", "lend", "reserve", "val burn = bUp(d, amt)", "val burn = bDown(d, amt)"),
 ("borrow-down", "lend", "pool", '"liab", dUp(d, r.amt))\n', '"liab", dDown(d, r.amt))\n'),
 ("repay-up", "lend", "reserve", "val burn = dDown(d, amt)", "val burn = dUp(d, amt)"),
 ("repay-keeps", "lend", "reserve", "out: amt - assetD(d, cur)", "out: 0"),
 ("withdraw-unclamped", "lend", "reserve", "{ burn: cur, out: assetB(d, cur) }", "{ burn: cur, out: amt }"),
 ("interest-twice", "lend", "reserve", "bRate: supRate(d, interest - cut)", "bRate: supRate(d, interest)"),
 ("no-interest", "lend", "reserve", "supRate(d, interest - cut)", "d.bRate"),
 ("no-credit", "lend", "reserve", "credit: d.credit + cut", "credit: d.credit"),
 ("rate-up", "lend", "reserve", "divF(totalSup(d) + i, d.bSup, S9)", "divC(totalSup(d) + i, d.bSup, S9)"),
 ("unbounded-modifier", "lend", "reserve", "imax(irMod + x, S9 / 10)", "irMod + x"),
 ("no-clock", "lend", "reserve", "lastT: now, irMod: a.irMod, dRate: dr, credit", "irMod: a.irMod, dRate: dr, credit"),
 ("no-util", "lend", "pool", "totalSup(d1) > 0 and utilOf(d1) <= cfgOf(x.c, a).maxUtil", "true"),
 ("no-hf", "lend", "pool", "not(needHf) or not(hfUnder(d, s, MIN_HF))", "true"),
 ("hf-low", "lend", "poolbase", "MIN_HF = 10000100", "MIN_HF = 9990000"),
 ("no-maxpos", "lend", "pool", "and effCount(c.pos) > poolOf(w, p).maxPos", "and effCount(c.pos) > poolOf(w, p).maxPos + 1"),
 ("supply-counts-not", "lend", "pool", "chk: c.chk or r.rt == 3", "chk: c.chk"),
 ("frozen-supply", "status", "pool", "(st > 3 and (rt == 0", "(st > 4 and (rt == 0"),
 ("onice-borrow", "status", "pool", "(st > 1 and (rt == 4", "(st > 3 and (rt == 4"),
 # auctions
 ("liq-healthy", "liq", "pool", "d.lb < d.cb or", "d.lb < d.cb - d.cb / 20 or"),
 ("liq-large", "liq", "pool", "not(hfOver(d2, s, POST_LIQ_MAX))", "true"),
 ("liq-small", "liq", "pool", "not(hfUnder(d2, s, POST_LIQ_MIN))", "true"),
 ("liq-full", "liq", "pool", '"liqlarge", estW >= d.cr', '"liqlarge", true'),
 ("liq-bid-floor", "liq", "pool", "mapBy(r => mulC(x.liab.get", "mapBy(r => mulF(x.liab.get"),
 ("liq-again", "liq", "pool", '"exists", not(has(poolOf(w, p).auctions, (0, u)))', '"exists", true'),
 ("bid-floor", "liq", "auction", "k => mulC(bidBase.get(k), bidMod(dif), S7)", "k => mulF(bidBase.get(k), bidMod(dif), S7)"),
 ("lot-fast", "liq", "auction", "dif * 50000 else S7", "imin(dif * 60000, S7) else S7"),
 ("bid-fast", "liq", "auction", "S7 - (dif - 200) * 50000", "S7 - (dif - 200) * 40000"),
 ("rest-restarts", "liq", "auction", "a.lot.get(k) - lotBase.get(k))), block: a.block }", "a.lot.get(k) - lotBase.get(k))), block: a.block + 10 }"),
 ("rest-whole-lot", "liq", "auction", "a.lot.get(k) - lotBase.get(k)", "a.lot.get(k)"),
 ("early-fill", "liq", "pool", "or c.w.seq < a.block", "or c.w.seq < a.block - 1"),
 ("collateral-lost", "liq", "pool", 'c.frm, "coll", f.lot, 1)', 'c.frm, "sup", f.lot, 1)'),
 ("self-fill", "liq", "pool", "u == c.frm) cbail", 'u == c.frm and ty != 0) cbail'),
 ("bad-all-burnt", "bad", "poolbase", "BURN_BELOW = 3", "BURN_BELOW = 300000000"),
 ("bad-stale-auction", "bad", "pool", "s.done or (ty == 1", "s.done or (ty == 3"),
 ("bad-half-lot", "bad", "pool", "val lot = getOr(f.lot, LP, 0)", "val lot = getOr(f.lot, LP, 0) / 2"),
 ("bad-13", "bad", "pool", "divF(mulF(debt, 14000000", "divF(mulF(debt, 13000000"),
 ("bad-collateral", "bad", "pool", "x.coll.keys() == Set() and x.liab.keys() != Set()", "x.liab.keys() != Set()"),
 ("int-14", "int", "pool", "divF(mulF(value, 14000000", "divF(mulF(value, 12000000"),
 ("int-200", "int", "pool", "value <= 200 * s", "value <= 150 * s"),
 ("int-credit", "int", "pool", "credit: d.credit - f.lot.get(a)", "credit: d.credit"),
 ("int-bid-kept", "int", "pool", "if (bid > 0) bDonate(w1, c.frm, c.p, bid)", "if (bid > 0) bDonate(w1, c.frm, c.p, bid / 2 + 1)"),
 # pool emissions
 ("claim-more", "emis", "emission", "mulF(bal, d, scalar)", "mulC(bal, d, scalar)"),
 ("index-up", "emis", "emission", "divF(tokens, supply, scalar)", "divC(tokens, supply, scalar)"),
 ("eps-over", "emis", "emission", "(tokens + left) / (7 * DAY)", "(tokens + left) / (6 * DAY)"),
 ("left-lost", "emis", "pool", "val left = if (has(old, tid)) undistributed(old.get(tid), w.now) else 0", "val left = 0"),
 ("left-lost-bs", "rz", "backstop", "val left = if (has(w.bs.eCfg, p)) undistributed(w.bs.eCfg.get(p), w.now) else 0", "val left = 0"),
 ("expired-left", "emis", "emission", "if (c.exp > now) c.eps * (c.exp - now) else 0", "if (c.exp > now) c.eps * (c.exp - now) else c.eps"),
 ("late-accrual", "emis", "pool", "val until = imin(w.now, e.exp)", "val until = w.now"),
 ("gulp-kept", "emis", "backstop", "poolEmis: w.bs.poolEmis.put(p, 0)", "poolEmis: w.bs.poolEmis.put(p, e / 2)"),
 ("gulp-split", "rz", "backstop", "mulF(fresh, 3000000, S7)", "mulF(fresh, 3500000, S7)"),
 ("gulp-bs-split", "rz", "backstop", "mulF(fresh, 7000000, S7)", "mulF(fresh, 6500000, S7)"),
 ("gulp-with-queued", "rz", "backstop", "val share = portion(nonQueued(pb(w, p)), total)", "val share = portion(pb(w, p).tokens, total)"),
 ("gulp-spacing", "rz", "backstop", "w.bs.lastDist + 3600", "w.bs.lastDist + 60"),
 ("gulp-from-now", "rz", "backstop", "lastDist: el }", "lastDist: w.now }"),
 # backstop
 ("bmint-up", "bstop", "shares", "if (b.shares == 0) t else mulF(t, b.shares, b.tokens)", "if (b.shares == 0) t else mulC(t, b.shares, b.tokens)"),
 ("bout-up", "bstop", "shares", "if (b.shares == 0) s else mulF(s, b.tokens, b.shares)", "if (b.shares == 0) s else mulC(s, b.tokens, b.shares)"),
 ("queue-short", "bstop", "backstop", "Q4W_LOCK = 21 * DAY", "Q4W_LOCK = 20 * DAY"),
 ("queue-early", "bstop", "shares", "expired and x.exp > now", "expired and x.exp > now + 3600"),
 ("queue-21", "bstop", "backstop", "u.q4w.length() < MAX_Q4W", "u.q4w.length() <= MAX_Q4W"),
 ("dequeue-keeps", "bstop", "backstop", "p, { ...b, q4w: b.q4w - amt })\n    }\n  }\n\n  pure def bWithdraw", "p, b)\n    }\n  }\n\n  pure def bWithdraw"),
 ("donate-mints", "bstop", "shares", "donateTo(b: PoolBal, t: int): PoolBal = { ...b, tokens: b.tokens + t }", "donateTo(b: PoolBal, t: int): PoolBal = { ...b, tokens: b.tokens + t, shares: b.shares + 1 }"),
 ("draw-free", "bad", "shares", "drawFrom(b: PoolBal, t: int): PoolBal = { ...b, tokens: b.tokens - t }", "drawFrom(b: PoolBal, t: int): PoolBal = { ...b, tokens: b.tokens - t / 2 }"),
 ("any-pool", "bstop", "backstop", "shares != 0 or w.fac.pools.contains(p)", "true"),
 ("bclaim-mine", "emis", "backstop", "val dep = claimPart(out, r.amts.get(p), r.total)", "val dep = out"),
 ("bclaim-keeps", "emis", "backstop", "setUE(w1, p, frm, 0) else w1,", "setUE(w1, p, frm, amt) else w1,"),
 ("bclaim-no-accrual", "emis", "backstop", "val a1 = accrue(acc, p, rcv)", "val a1 = acc"),
 ("deposit-no-accrual", "emis", "backstop", "transfer(accrue(w0, p, frm), LP", "transfer(w0, LP"),
 ("rz-threshold", "rz", "backstop", "THRESHOLD_PC = 320000000000000000000000000", "THRESHOLD_PC = 300000000000000000000000000"),
 ("rz-larger", "rz", "backstop", "pb(w, add).tokens <= pb(w, rm).tokens", "pb(w, add).tokens < pb(w, rm).tokens / 2"),
 ("rz-unpaid", "rz", "backstop", "w.bs.lastDist < w.now - DAY", "w.bs.lastDist < w.now - 2 * DAY"),
 ("rz-max", "rz", "backstop", "rzMax(w.now) > w.bs.rz.length()", "rzMax(w.now) >= w.bs.rz.length()"),
 ("lp-value", "bstop", "backstop", "lpUsdc: divF(balOf(w, USDC, LP)", "lpUsdc: divF(balOf(w, BLND, LP)"),
 # emitter, factory
 ("em-rate", "em", "emitter", "(w.now - w.em.last.get(b)) * S7", "(w.now - w.em.last.get(b)) * 2 * S7"),
 ("em-clock", "em", "emitter", "last: w.em.last.put(b, w.now) } }, BLND", "last: w.em.last.put(b, w.now - 1) } }, BLND"),
 ("em-lock", "em", "emitter", "SWAP_LOCK = 31 * DAY", "SWAP_LOCK = 30 * DAY"),
 ("em-unlock", "em", "emitter", "if (s.unlock > w.now)", "if (s.unlock > w.now + DAY)"),
 ("em-recheck", "em", "emitter", 'else if (not(isLarger(w, s.nb))) bail(w, "larger")\n      else {\n        val w1', 'else {\n        val w1'),
 ("em-drop-twice", "em", "emitter", "w.em.dropped.contains(w.em.backstop) or total", "total"),
 ("em-drop-max", "em", "emitter", "DROP_MAX = 50000000 * S7", "DROP_MAX = 60000000 * S7"),
 ("em-undistributed", "em", "emitter", "val w1 = emDistribute(w)", "val w1 = w"),
 ("fac-rate", "fac", "factory", "rate < S7 and maxPos >= 2", "rate <= S7 and maxPos >= 2"),
 ("fac-salt", "fac", "factory", "d.admin == adm and d.salt == salt", "d.salt == salt and d.admin != adm"),
 ("fac-spare", "fac", "factory", '"poolN").length() > 0) bail(w, "init")\n    else { ...w, fac: { ...w.fac,', '"poolN").length() > 0) bail(w, "init")\n    else { ...w, fac: { pools: w.fac.pools.union(Set("poolN")),'),
 # configuration and status
 ("res-now", "conf", "admin", "if (ps.status == 6) 0 else WEEK", "if (ps.status == 6) 0 else DAY"),
 ("res-early", "conf", "admin", "if (q.unlock > w.now)", "if (q.unlock > w.now + 3600)"),
 ("res-decimals", "conf", "admin", 'if (o.dec != n.dec) bail(w, "decimals")', 'if (o.dec > n.dec) bail(w, "decimals")'),
 ("res-index", "conf", "admin", "cfg: ps.cfg.put(a, { ...n, index: o.index })", "cfg: ps.cfg.put(a, { ...n, index: ps.resList.length() - 1 })"),
 ("res-unaccrued", "conf", "admin", "val d = viewRes(w, p, a)", "val d = ps.data.get(a)"),
 ("res-invalid", "conf", "status", "c.maxUtil > c.util", "c.maxUtil >= c.util"),
 ("res-react", "conf", "status", "c.react <= 1000", "c.react <= 100000"),
 ("rate-back", "int", "admin", "if (rate == ps.rate) ps.data else", "if (true) ps.data else"),
 ("pool-rate", "conf", "admin", "rate >= S7", "rate > S7"),
 ("status-freeze", "status", "status", "else if (q4w >= 6000000) 5", "else if (q4w > 6000000) 5"),
 ("status-ice", "status", "status", "q4w >= 3000000 or not(met)", "q4w >= 3000000"),
 ("status-thaw", "status", "status", "if (st == 2) (if (q4w >= 7500000) 5 else 2)", "if (st == 2) 2"),
 ("status-admin", "status", "status", "if (st == 0) met and q4w < 5000000", "if (st == 0) met"),
 ("status-fixed", "status", "admin", "if (st == 6 or st == 4) bail", "if (st == 6) bail"),
]
def run(m):
    id, prof, f, old, new = m
    if old is None: return None
    d = tempfile.mkdtemp(prefix="sm-", dir="/tmp")
    try:
        for x in os.listdir(f"{HERE}/../spec"):
            if x.endswith(".qnt"): shutil.copy(f"{HERE}/../spec/{x}", d)
        t = open(f"{d}/{f}.qnt").read()
        if t.count(old) != 1: return f"{id} BAD {t.count(old)} matches"
        open(f"{d}/{f}.qnt", "w").write(t.replace(old, new))
        for seed in range(1, 4):
            r = subprocess.run(["quint", "run", f"{d}/main.qnt", "--init", f"init_{prof}", "--max-samples", "60", "--max-steps", "125",
                "--n-threads", "1", "--invariant", "holds", "--seed", str(seed), "--out-itf", f"{d}/t.json", "--verbosity", "1"],
                capture_output=True, text=True)
            if r.returncode == 0: continue
            if not os.path.exists(f"{d}/t.json"): return f"{id} ERROR {(r.stderr + r.stdout)[-300:]}"
            v = json.load(open(f"{d}/t.json"))["states"][-1]["viol"]
            return f"{id} CAUGHT {v.get('#set', v)}"
        return f"{id} MISSED"
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    a = sys.argv[1:]; j = 6
    if a[:1] == ["-j"]: j = int(a[1]); a = a[2:]
    todo = [m for m in M if not a or m[0] in a]
    miss = 0
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(run, todo):
            if r: print(r, flush=True); miss += " CAUGHT " not in r
    print(f"{miss} not caught"); sys.exit(miss > 0)
