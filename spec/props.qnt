/// The properties as predicates on the specification: `violated(v, o, x)` names
/// every property that the transition v --o--> x breaks.  Evaluated on every
/// step of every simulated behaviour (invariant `holds` of main.qnt).
module props {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"
  import backstop.* from "./backstop"
  import emitter.* from "./emitter"
  import reserve.* from "./reserve"
  import shares.* from "./shares"
  import poolbase.* from "./poolbase"
  import status.* from "./status"
  import admin.* from "./admin"
  import pool.* from "./pool"
  import system.* from "./system"
  import factory.* from "./factory"
  import moves.* from "./moves"
  import economics.* from "./economics"

  pure def pairs(w: World): Set[(str, str)] =
    w.pools.keys().map(p => w.pools.get(p).cfg.keys().map(a => (p, a))).flatten()
  pure def idx(w: World, p: str, a: str): int = poolOf(w, p).cfg.get(a).index
  pure def rdata(w: World, p: str, a: str): ResData = poolOf(w, p).data.get(a)

  // ---- pool: state ------------------------------------------------------------
  /// supplies are exactly the sum of what the accounts hold
  pure def sharesMatch(w: World): bool = pairs(w).forall(((p, a)) => {
    val i = idx(w, p, a)
    val ps = poolOf(w, p).pos
    val d = rdata(w, p, a)
    and {
      d.dSup == sumOver2(ps, x => getOr(x.liab, i, 0)),
      d.bSup == sumOver2(ps, x => bSum(x, i)),
      d.credit >= 0
    }
  })
  pure def sumOver2(m: str -> Pos, f: (Pos) => int): int = m.keys().fold(0, (acc, k) => acc + f(m.get(k)))
  pure def noBadEntries(w: World): bool = w.pools.keys().forall(p => poolOf(w, p).pos.keys().forall(u => {
    val x = posOf(w, p, u)
    x.liab.keys().forall(i => x.liab.get(i) > 0) and x.coll.keys().forall(i => x.coll.get(i) > 0)
      and x.sup.keys().forall(i => x.sup.get(i) > 0)
  }))
  /// tokens held + owed by borrowers - owed to suppliers - owed to the backstop
  pure def gap(w: World, p: str, a: str): int = {
    val d = rdata(w, p, a)
    balOf(w, a, p) + cdiv(d.dSup * d.dRate, S9) - fdiv(d.bSup * d.bRate, S9) - d.credit
  }
  pure def burns(v: World, o: Op): bool =
    o.op == "submit" and o.reqs.foldl(false, (acc, r) => acc or r.rt == 7)
  pure def gapKept(v: World, o: Op, x: World): bool =
    burns(v, o) or pairs(v).forall(((p, a)) => gap(x, p, a) >= gap(v, p, a))
  pure def ratesKept(v: World, x: World): bool = pairs(v).forall(((p, a)) => {
    val d = rdata(v, p, a)
    val e = rdata(x, p, a)
    and { e.dRate >= d.dRate, e.bRate >= d.bRate, e.irMod >= S9 / 10, e.irMod <= 10 * S9, e.lastT >= d.lastT,
          e.lastT <= x.now }
  })
  /// tokens other than BLND and LP are neither created nor destroyed
  pure def conserved(v: World, o: Op, x: World): bool = isEnv(o.op) or Set("lo", "hi", USDC).forall(t =>
    supplyOf(v, t) == supplyOf(x, t))
  pure def supplyOf(w: World, t: str): int =
    w.bal.keys().fold(0, (acc, k) => if (k._1 == t) acc + w.bal.get(k) else acc)

  // ---- pool: requests ------------------------------------------------------------
  pure def risky(o: Op): bool = o.reqs.foldl(false, (acc, r) => acc or Set(3, 4, 6, 7, 9).contains(r.rt))
  pure def healthy(o: Op, x: World): bool =
    if (o.op != "submit") true
    else if (not(risky(o)) or posOf(x, o.s[0], o.s[1]).liab.keys() == Set()) true
    else {
      val d = positionData(ctx(x, o.s[0]), posOf(x, o.s[0], o.s[1]))
      d.c.w.ok and d.lb * 10000100 <= d.cb * S7 + d.lb * S7 / oracleScalar(poolOf(x, o.s[0]).oracle) + d.lb
    }
  pure def utilKept(v: World, o: Op, x: World): bool =
    if (o.op != "submit") true
    else if (o.reqs.length() == 0) true
    else {
      val r = o.reqs[o.reqs.length() - 1]
      r.rt != 4 or utilOf(rdata(x, o.s[0], r.addr)) <= poolOf(x, o.s[0]).cfg.get(r.addr).maxUtil
    }
  pure def countKept(v: World, o: Op, x: World): bool =
    if (o.op != "submit") true
    else {
      val n = effCount(posOf(x, o.s[0], o.s[1]))
      n <= effCount(posOf(v, o.s[0], o.s[1])) or n <= poolOf(v, o.s[0]).maxPos
    }
  pure def gated(v: World, o: Op, x: World): bool =
    if (o.op != "submit") true
    else {
      val st = poolOf(v, o.s[0]).status
      o.reqs.foldl(true, (acc, r) => acc and mayAsk(st, r.rt))
    }
  /// an operation on one pool leaves the other pool's books and tokens alone
  pure def poolOp(o: Op): bool = Set("submit", "bad_debt", "update_status", "set_status", "update_pool", "set_admin",
    "queue_res", "cancel_res", "set_res", "set_emis", "pgulp", "pclaim", "new_liq", "new_bad_debt", "new_interest").contains(o.op)
  pure def isolated(v: World, o: Op, x: World): bool =
    if (not(poolOp(o))) true
    else v.pools.keys().exclude(Set(o.s[0])).forall(q => and {
      poolOf(v, q) == poolOf(x, q), pb(v, q) == pb(x, q), allowOf(v, q) == allowOf(x, q),
      v.bal.keys().filter(k => k._2 == q).forall(k =>
        v.bal.get(k) == getOr(x.bal, k, 0) or (o.op == "submit" and o.s[3] == q or o.op == "pclaim" and o.s[2] == q) and v.bal.get(k) < getOr(x.bal, k, 0)) })
  /// only a pool's own operations touch its books; only the owner's signed calls (or a fill of the
  /// owner's auction, or bad debt) change an account's positions
  pure def ownPositions(v: World, o: Op, x: World): bool = v.pools.keys().forall(p =>
    v.pools.get(p).pos.keys().union(x.pools.get(p).pos.keys()).forall(u =>
      posOf(v, p, u) == posOf(x, p, u) or poolOp(o) and o.s[0] == p and or {
        o.op == "submit" and (o.s[1] == u or o.reqs.foldl(false, (acc, r) => acc or
          (r.rt == 6 and r.addr == u and has(poolOf(v, p).auctions, (0, u))) or (r.rt == 7 and u == BACKSTOP))),
        o.op == "bad_debt" and (o.s[1] == u or u == BACKSTOP) }))

  // ---- pool: auctions -----------------------------------------------------------------
  pure def auctionsKept(v: World, o: Op, x: World): bool = v.pools.keys().forall(p => {
    val a = poolOf(v, p).auctions
    val b = poolOf(x, p).auctions
    and {
      // never replaced, only created from nothing, shrunk by fills, or deleted
      a.keys().intersect(b.keys()).forall(k => {
        val m = a.get(k)
        val n = b.get(k)
        m.block == n.block and n.bid.keys().subseteq(m.bid.keys()) and n.lot.keys().subseteq(m.lot.keys())
          and n.bid.keys().forall(i => n.bid.get(i) <= m.bid.get(i)) and n.lot.keys().forall(i => n.lot.get(i) <= m.lot.get(i)) })
      or o.op == "submit" and o.reqs.length() > 1,
      b.keys().exclude(a.keys()).forall(k => b.get(k).block == x.seq + 1 and (o.op == "new_liq" or o.op == "new_bad_debt" or o.op == "new_interest")),
      // a user being liquidated was under water; the auction takes no more than the user has
      b.keys().exclude(a.keys()).filter(k => k._1 == 0).forall(k => {
        val d = positionData(ctx(v, p), posOf(v, p, k._2))
        val q = posOf(v, p, k._2)
        d.cb <= d.lb and b.get(k).lot.keys().forall(i => b.get(k).lot.get(i) <= getOr(q.coll, idx(v, p, i), 0))
          and b.get(k).bid.keys().forall(i => b.get(k).bid.get(i) <= getOr(q.liab, idx(v, p, i), 0)) })
    }
  })

  // ---- backstop ---------------------------------------------------------------------------
  pure def qSum(q: List[Q4W]): int = q.foldl(0, (acc, y) => acc + y.amount)
  pure def bsShares(w: World): bool = w.bs.poolBal.keys().forall(p => {
    val us = w.bs.userBal.keys().filter(k => k._1 == p)
    val b = pb(w, p)
    val queued = sumOver(us, k => qSum(w.bs.userBal.get(k).q4w))
    and { b.q4w == queued, b.shares == queued + sumOver(us, k => w.bs.userBal.get(k).shares),
          b.tokens >= 0, b.q4w >= 0, us.forall(k => w.bs.userBal.get(k).shares >= 0) }
  })
  pure def bsSolvent(w: World): bool =
    balOf(w, LP, BACKSTOP) >= sumOver(w.bs.poolBal.keys(), p => pb(w, p).tokens)
  /// the value of a share never falls, except when the pool draws
  pure def isDraw(v: World, o: Op, p: str): bool =
    (o.op == "bdraw" or burns(v, o)) and o.s[0] == p
  pure def priceKept(v: World, o: Op, x: World): bool = v.bs.poolBal.keys().forall(p => {
    val a = pb(v, p)
    val b = pb(x, p)
    isDraw(v, o, p) or a.shares == 0 or b.shares == 0 or b.tokens * a.shares >= a.tokens * b.shares
  })
  /// shares leave the queue through withdrawal only 21 days after entering it, oldest first
  pure def queueKept(v: World, o: Op, x: World): bool = x.bs.userBal.keys().forall(k => {
    val a = getOr(v.bs.userBal, k, NOUB).q4w
    val b = x.bs.userBal.get(k).q4w
    and {
      b.length() <= 21,
      b.indices().forall(i => i == 0 or b[i - 1].exp <= b[i].exp),
      listToSet(b).exclude(listToSet(a)).forall(e => e.exp == x.now + 21 * 86400 or
        (o.op == "bdequeue" or o.op == "bwithdraw") and a.indices().exists(i => a[i].exp == e.exp and a[i].amount > e.amount)),
      o.op != "bwithdraw" or a == b or qSum(a.select(e => e.exp <= v.now)) >= qSum(a) - qSum(b)
    }
  })
  pure def nowIndex(w: World, p: str): World = if (has(w.bs.eCfg, p)) updEmis(w, p) else w
  /// the BLND held covers everything promised to pools and depositors
  pure def bsBlnd(w: World): bool = {
    val toPools = sumOver(w.bs.poolEmis.keys(), p => w.bs.poolEmis.get(p)) + sumOver(w.allow.keys(), p => allowOf(w, p))
    val owedAll = sumOver(w.bs.eCfg.keys(), p => {
      val y = nowIndex(w, p)
      w.bs.userBal.keys().union(w.bs.uEmis.keys()).fold(0, (acc2, k) => if (k._1 == p) acc2 + owed(y, p, k._2) else acc2) })
    balOf(w, BLND, BACKSTOP) >= toPools + owedAll
  }
  /// pool users are never owed more BLND than the pool may still transfer (unless an allowance lapsed before being used)
  pure def poolBlnd(w: World): bool = w.pools.keys().forall(p => {
    val ps = poolOf(w, p)
    val tot = sumOver(ps.eCfg.keys(), tid => {
      val k = ps.cfg.get(ps.resList[tid / 2])
      val d = ps.data.get(ps.resList[tid / 2])
      val y = peUpd(w, p, tid, if (tid % 2 == 0) d.dSup else d.bSup, scalarOf(k))
      ps.pos.keys().fold(0, (acc2, u) => acc2 + peOwed(y, p, tid, scalarOf(k), u,
        if (tid % 2 == 0) getOr(ps.pos.get(u).liab, tid / 2, 0) else bSum(ps.pos.get(u), tid / 2))) })
    w.lapsed.contains(p) or (if (has(w.allow, p)) w.allow.get(p).amt else 0) >= tot
  })
  pure def indicesKept(v: World, x: World): bool = and {
    v.bs.eData.keys().forall(p => x.bs.eData.get(p).index >= v.bs.eData.get(p).index),
    x.bs.uEmis.keys().forall(k => x.bs.uEmis.get(k).index <= x.bs.eData.get(k._1).index and x.bs.uEmis.get(k).accrued >= 0),
    v.pools.keys().forall(p => poolOf(v, p).eData.keys().forall(t =>
      poolOf(x, p).eData.get(t).index >= poolOf(v, p).eData.get(t).index)),
    x.pools.keys().forall(p => poolOf(x, p).uEmis.keys().forall(k =>
      poolOf(x, p).uEmis.get(k).index <= poolOf(x, p).eData.get(k._2).index and poolOf(x, p).uEmis.get(k).accrued >= 0))
  }
  pure def rewardZone(w: World): bool = and {
    listToSet(w.bs.rz).size() == w.bs.rz.length(), w.bs.rz.length() <= (if (w.now < 1713139200) 10 else 10 + (w.now - 1713139200) / 8388608),
    w.bs.rz.foldl(true, (acc, p) => acc and w.fac.pools.contains(p)) }

  // ---- emitter -------------------------------------------------------------------------------
  /// new BLND: one per second since the last distribution, to the current backstop, plus one capped drop per backstop
  pure def minted(v: World, o: Op, x: World): bool = {
    val d = supplyOf(x, BLND) - supplyOf(v, BLND)
    val b = v.em.backstop
    if (isEnv(o.op)) true
    else if (o.op == "distribute" or o.op == "swap")
      (if (x.ok) and { d == (v.now - v.em.last.get(b)) * S7, x.em.last.get(b) == v.now,
                       balOf(x, BLND, b) - balOf(v, BLND, b) == d } else d == 0)
    else if (o.op == "edrop" or o.op == "bdrop")
      (if (x.ok) d <= 50000000 * 10000000 and d >= 0 and not(v.em.dropped.contains(b)) and x.em.dropped.contains(b) else d == 0)
    else d == 0 and x.em.last == v.em.last
  }
  pure def swapSound(v: World, o: Op, x: World): bool = and {
    v.em.backstop == x.em.backstop and v.em.token == x.em.token or o.op == "swap" and v.em.swap.length() == 1
      and v.em.swap[0].unlock <= v.now and x.em.backstop == v.em.swap[0].nb and isLarger(v, v.em.swap[0].nb),
    v.em.swap == x.em.swap or o.op == "queue_swap" and v.em.swap == List() and x.em.swap[0].unlock == v.now + 31 * 86400
      or (o.op == "swap" or o.op == "cancel_swap") and x.em.swap == List() }

  // ---- configuration ----------------------------------------------------------------------------
  pure def configKept(v: World, o: Op, x: World): bool = v.pools.keys().forall(p => {
    val a = poolOf(v, p)
    val b = poolOf(x, p)
    and {
      b.rate < S7, b.status >= 0, b.status <= 6, v.ok == v.ok, a.status == 6 or b.status != 6,
      a.resList == b.resList.slice(0, a.resList.length()),
      b.cfg.keys().forall(r => sound(b.cfg.get(r)) and b.resList[b.cfg.get(r).index] == r),
      a.cfg.keys().forall(r => a.cfg.get(r).dec == b.cfg.get(r).dec and a.cfg.get(r).index == b.cfg.get(r).index),
      // a change takes effect only when it was queued a week before (immediately only if queued in setup)
      b.cfg.keys().forall(r => getOr(a.cfg, r, b.cfg.get(r)) == b.cfg.get(r) and has(a.cfg, r) or
        o.op == "set_res" and has(a.queued, r) and a.queued.get(r).unlock <= v.now),
      b.queued.keys().forall(r => has(a.queued, r) and a.queued.get(r) == b.queued.get(r) or
        b.queued.get(r).unlock == v.now + (if (a.status == 6) 0 else 7 * 86400)),
      sumOver(b.emisShare.keys(), t => b.emisShare.get(t)) <= S7
    }
  })
  pure def factoryKept(v: World, x: World): bool = and {
    v.fac.pools.subseteq(x.fac.pools),
    x.fac.pools.exclude(v.fac.pools).size() <= 1,
    x.fac.dep.indices().forall(i => x.fac.dep.indices().forall(j => i == j or x.fac.dep[i].name != x.fac.dep[j].name and
      (x.fac.dep[i].admin != x.fac.dep[j].admin or x.fac.dep[i].salt != x.fac.dep[j].salt))),
    x.fac.dep.foldl(true, (acc, d) => acc and d.rate < S7 and d.maxPos >= 2 and (d.name == "poolN") != x.fac.pools.contains(d.name))
  }

  pure def wiredOnce(v: World, x: World): bool = v.spare.keys().forall(c => has(x.spare, c) and x.spare.get(c) == v.spare.get(c))

  pure def violated(v: World, o: Op, x: World): Set[str] = { val done = x.ok and not(isEnv(o.op)) Set(
    ("sharesMatch", sharesMatch(x)), ("noBadEntries", noBadEntries(x)), ("gapKept", gapKept(v, o, x)),
    ("ratesKept", ratesKept(v, x)), ("conserved", conserved(v, o, x)),
    ("healthy", not(x.ok) or healthy(o, x)), ("utilKept", not(x.ok) or utilKept(v, o, x)),
    ("countKept", countKept(v, o, x)), ("gated", not(x.ok) or gated(v, o, x)), ("isolated", isolated(v, o, x)),
    ("ownPositions", ownPositions(v, o, x)), ("auctionsKept", auctionsKept(v, o, x)),
    ("bsShares", bsShares(x)), ("bsSolvent", bsSolvent(x)), ("priceKept", priceKept(v, o, x)), ("queueKept", queueKept(v, o, x)),
    ("bsBlnd", bsBlnd(x)), ("poolBlnd", poolBlnd(x)), ("indicesKept", indicesKept(v, x)), ("rewardZone", rewardZone(x)),
    ("minted", minted(v, o, x)), ("swapSound", swapSound(v, o, x)), ("configKept", configKept(v, o, x)),
    ("factoryKept", factoryKept(v, x)), ("wiredOnce", wiredOnce(v, x)), ("atomic", x.ok or { ...x, ok: true, why: "" } == { ...v, ok: true, why: "", ret: 0, ev: List() })
    , ("requestMoves", not(done) or requestMoves(v, o, x)), ("liquidates", not(done) or liquidates(v, o, x)), ("debtSold", not(done) or debtSold(v, o, x)),
    ("interestSold", not(done) or interestSold(v, o, x)), ("liquidationBid", not(done) or liquidationBid(v, o, x)), ("fresh", not(done) or fresh(v, o, x)),
    ("claimed", not(done) or claimed(v, o, x)), ("bclaimed", not(done) or bclaimed(v, o, x)), ("split", not(done) or split(v, o, x)),
    ("handedOut", not(done) or handedOut(v, o, x)), ("backstopMoves", not(done) or backstopMoves(v, o, x)), ("admitted", not(done) or admitted(v, o, x)),
    ("valued", not(done) or valued(v, o, x)), ("dropped", not(done) or dropped(v, o, x)), ("accrues", not(done) or accrues(v, o, x)),
    ("covered", not(done) or covered(v, o, x)), ("rightSized", not(done) or rightSized(v, o, x)), ("priceTags", not(done) or priceTags(v, o, x)),
    ("offered", not(done) or offered(x)), ("badMoved", not(done) or badMoved(v, o, x)), ("statusMoves", not(done) or statusMoves(v, o, x)), ("earns", not(x.ok) or earns(v, o, x)),
    ("bearns", not(x.ok) or bearns(v, o, x))
  ).filter(c => not(c._2)).map(c => c._1) }
}
