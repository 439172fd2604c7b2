/// The whole protocol: every externally callable operation of the pool,
/// backstop and emitter contracts, as one total function on the world.
module system {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"
  import backstop.* from "./backstop"
  import emitter.* from "./emitter"
  import reserve.* from "./reserve"
  import shares.* from "./shares"
  import poolbase.* from "./poolbase"
  import admin.* from "./admin"
  import pool.* from "./pool"
  import factory.* from "./factory"
  import wiring.* from "./wiring"

  pure val NOREQ: List[Req] = List()
  pure def mk(o: str, s: List[str], n: List[int]): Op = { op: o, s: s, n: n, reqs: NOREQ }

  pure def isEnv(o: str): bool =
    Set("advance", "price", "noprice", "mint", "cmint", "crate").contains(o)

  pure def metas(n: List[int]): List[EmMeta] =
    range(0, n.length() / 3).foldl(List(), (acc, i) =>
      acc.append({ res: n[3 * i], ty: n[3 * i + 1], share: n[3 * i + 2] }))
  pure def drops(s: List[str], n: List[int]): List[(str, int)] =
    range(0, n.length()).foldl(List(), (acc, i) => acc.append((s[i], n[i])))
  pure def cfgOfN(n: List[int]): ResCfg =
    { index: n[0], dec: n[1], cf: n[2], lf: n[3], util: n[4], maxUtil: n[5],
      rBase: n[6], r1: n[7], r2: n[8], r3: n[9], react: n[10] }

  /// effect of one operation, before atomicity is applied
  pure def exec(w: World, o: Op): World = {
    val k = o.op
    // environment
    if (k == "advance") {
      val t = w.now + o.n[0]
      { ...w, now: t, seq: w.seq + o.n[1], price: if (o.n[2] == 0) w.price
          else w.price.keys().mapBy(x => { ...w.price.get(x), t: t }) }
    }
    else if (k == "price") { ...w, price: w.price.put((o.s[0], o.s[1]), { p: o.n[0], t: w.now - o.n[1] }) }
    else if (k == "noprice") { ...w, price: del(w.price, (o.s[0], o.s[1])) }
    else if (k == "mint") mintTok(w, o.s[0], o.s[1], o.n[0])
    else if (k == "cmint")
      addBal(addBal(addBal({ ...w, cometSupply: w.cometSupply + o.n[0] }, LP, o.s[0], o.n[0]),
             BLND, LP, o.n[1]), USDC, LP, o.n[2])
    else if (k == "crate") { ...w, cometRate: o.n[0] }
    else if (k == "transfer") transfer(w, o.s[0], o.s[1], o.s[2], o.n[0])
    // pool
    else if (k == "submit") pSubmit(w, o.s[0], o.s[1], o.s[2], o.s[3], o.reqs)
    else if (k == "bad_debt") pBadDebt(w, o.s[0], o.s[1])
    else if (k == "update_status") pUpdateStatus(w, o.s[0])
    else if (k == "set_status") pSetStatus(w, o.s[0], o.n[0])
    else if (k == "update_pool") pUpdatePool(w, o.s[0], o.n[0], o.n[1])
    else if (k == "set_admin") setPool(w, o.s[0], { ...poolOf(w, o.s[0]), admin: o.s[1] })
    else if (k == "queue_res") pQueueRes(w, o.s[0], o.s[1], cfgOfN(o.n))
    else if (k == "cancel_res") pCancelRes(w, o.s[0], o.s[1])
    else if (k == "set_res") pSetRes(w, o.s[0], o.s[1])
    else if (k == "set_emis") pSetEmis(w, o.s[0], metas(o.n))
    else if (k == "pgulp") pGulp(w, o.s[0])
    else if (k == "pclaim") pClaim(w, o.s[0], o.s[1], o.n, o.s[2])
    else if (k == "new_liq") pNewLiq(w, o.s[0], o.s[1], o.n[0])
    else if (k == "new_bad_debt") pNewBadDebt(w, o.s[0])
    else if (k == "new_interest") pNewInterest(w, o.s[0], o.s.slice(1, o.s.length()))
    // backstop
    else if (k == "bdeposit") bDeposit(w, o.s[0], o.s[1], o.n[0])
    else if (k == "bqueue") bQueue(w, o.s[0], o.s[1], o.n[0])
    else if (k == "bdequeue") bDequeue(w, o.s[0], o.s[1], o.n[0])
    else if (k == "bwithdraw") bWithdraw(w, o.s[0], o.s[1], o.n[0])
    else if (k == "bclaim") bClaim(w, o.s[0], o.s.slice(2, o.s.length()), o.s[1])
    else if (k == "bdonate") bDonate(w, o.s[0], o.s[1], o.n[0])
    else if (k == "bdraw") bDraw(w, o.s[0], o.n[0], o.s[1])
    else if (k == "bgulp") bGulp(w)
    else if (k == "bgulp_pool") bGulpPool(w, o.s[0])
    else if (k == "badd_reward") bAddReward(w, o.s[0], o.s[1])
    else if (k == "bupdate_val") bUpdateVal(w)
    else if (k == "bdrop") (if (w.em.backstop != BACKSTOP) bail(w, "auth") else emDrop(w, w.bs.drops))
    // emitter
    else if (k == "distribute") emDistribute(w)
    else if (k == "queue_swap") emQueueSwap(w, o.s[0], o.s[1])
    else if (k == "cancel_swap") emCancelSwap(w)
    else if (k == "swap") emSwap(w)
    else if (k == "edrop") emDrop(w, drops(o.s, o.n))
    // factory
    else if (k == "deploy") fDeploy(w, o.s[0], o.s[1], o.s[2], o.n[0], o.n[1])
    else if (k == "pnew") fInitSpare(w, o.s[0], o.s[1], o.n[0], o.n[1])
    // initialization
    else if (k == "einit") emInit(w, o.s[0], o.s.slice(1, 4))
    else if (k == "binit") bsInit(w, o.s[0], o.s.slice(1, 6))
    else if (k == "finit") facInit(w, o.s[0], o.s.slice(1, 3))
    // pinit: the pool has been initialized
    else bail(w, "init")
  }

  /// addresses whose authorization the operation needs
  pure def signers(w: World, o: Op): Set[str] = {
    val k = o.op
    if (Set("set_status", "update_pool", "queue_res", "cancel_res", "set_emis").contains(k))
      Set(poolOf(w, o.s[0]).admin)
    else if (k == "set_admin") Set(poolOf(w, o.s[0]).admin, o.s[1])
    else if (k == "submit") Set(o.s[1], o.s[2])
    else if (k == "pclaim") Set(o.s[1])
    else if (k == "deploy" or k == "pnew") Set(o.s[0])
    else if (Set("bdeposit", "bqueue", "bdequeue", "bwithdraw", "bclaim").contains(k)) Set(o.s[0])
    else if (k == "bdonate") Set(o.s[0], o.s[1])
    else if (k == "bdraw" or k == "bgulp_pool") Set(o.s[0])
    else if (k == "edrop") Set(w.em.backstop)
    else if (k == "transfer") Set(o.s[1])
    else Set()
  }

  /// the event published by the operation itself, besides those of the steps it is made of
  pure def announce(v: World, o: Op, x: World): World = {
    val k = o.op
    val p = if (o.s.length() > 0) o.s[0] else ""
    val adm = if (has(v.pools, p)) v.pools.get(p).admin else ""
    pure def inPool(t, s, n) = emit(x, p, t, s, n)
    pure def inBs(t, s, n) = emit(x, BACKSTOP, t, s, n)
    pure def inEm(t, s, n) = emit(x, "emitter", t, s, n)
    pure def sold(t, s, ty, u) = {
      val a = poolOf(x, p).auctions.get((ty, u))
      val w1 = inPool(t, s, if (ty == 0) List(a.block) else List(ty, a.block))
      val w2 = a.bid.keys().fold(w1, (acc, i) => emit(acc, p, "auction.bid", List(i), List(a.bid.get(i))))
      a.lot.keys().fold(w2, (acc, i) => emit(acc, p, "auction.lot", List(i), List(a.lot.get(i))))
    }
    pure def swapped(t, s) = inEm(t, List(s.nb, s.nt), List(s.unlock))
    if (k == "set_admin") inPool("set_admin", List(adm, o.s[1]), List())
    else if (k == "update_pool") inPool("update_pool", List(adm), o.n)
    else if (k == "queue_res") inPool("queue_set_reserve", List(adm, o.s[1]),
      List(o.n[2], o.n[1], o.n[0], o.n[3], o.n[5], o.n[6], o.n[7], o.n[9], o.n[8], o.n[10], o.n[4]))
    else if (k == "cancel_res") inPool("cancel_set_reserve", List(adm, o.s[1]), List())
    else if (k == "set_res") inPool("set_reserve", List(o.s[1]), List(x.ret))
    else if (k == "update_status") inPool("set_status", List(), List(x.ret))
    else if (k == "set_status") inPool("set_status", List(adm), o.n)
    else if (k == "pgulp") inPool("update_emissions", List(), List(x.ret))
    else if (k == "pclaim") inPool("claim", List(o.s[1]), o.n.append(x.ret))
    else if (k == "new_liq") sold("new_liquidation_auction", List(o.s[1]), 0, o.s[1])
    else if (k == "new_bad_debt") sold("new_auction", List(), 1, BACKSTOP)
    else if (k == "new_interest") sold("new_auction", List(), 2, BACKSTOP)
    else if (k == "bdeposit") inBs("deposit", List(o.s[1], p), List(o.n[0], x.ret))
    else if (k == "bqueue") inBs("queue_withdrawal", List(o.s[1], p), List(o.n[0], x.ret))
    else if (k == "bdequeue") inBs("dequeue_withdrawal", List(o.s[1], p), o.n)
    else if (k == "bwithdraw") inBs("withdraw", List(o.s[1], p), List(o.n[0], x.ret))
    else if (k == "bclaim") inBs("claim", List(p), List(x.ret))
    else if (k == "bgulp") inBs("gulp_emissions", List(), List(x.ret))
    else if (k == "badd_reward") inBs("rw_zone", o.s, List())
    else if (k == "distribute") inEm("distribute", List(v.em.backstop), List(x.ret))
    else if (k == "queue_swap") swapped("q_swap", x.em.swap[0])
    else if (k == "cancel_swap") swapped("del_swap", v.em.swap[0])
    else if (k == "swap") swapped("swap", v.em.swap[0])
    else if (k == "edrop") inEm("drop", o.s, o.n)
    else if (k == "bdrop") inEm("drop", v.bs.drops.foldl(List(), (acc, d) => acc.append(d._1)), v.bs.drops.foldl(List(), (acc, d) => acc.append(d._2)))
    else if (k == "deploy") emit(x, "factory", "deploy", List(x.fac.dep[x.fac.dep.length() - 1].name), List())
    else x
  }

  // ---- i128 range of everything that is stored -------------------------------
  pure def badMap(m: a -> int): bool = m.keys().exists(k => isBad(m.get(k)))
  pure def badData(d: ResData): bool =
    isBad(d.dRate) or isBad(d.bRate) or isBad(d.irMod) or isBad(d.bSup) or isBad(d.dSup) or isBad(d.credit)
  pure def badPool(x: PoolS): bool = or {
    x.data.keys().exists(a => badData(x.data.get(a))),
    x.pos.keys().exists(u => badMap(x.pos.get(u).liab) or badMap(x.pos.get(u).coll) or badMap(x.pos.get(u).sup)),
    x.auctions.keys().exists(a => badMap(x.auctions.get(a).bid) or badMap(x.auctions.get(a).lot)),
    x.eData.keys().exists(t => isBad(x.eData.get(t).index)),
    x.uEmis.keys().exists(t => isBad(x.uEmis.get(t).accrued))
  }
  pure def badBs(b: BsS): bool = or {
    b.poolBal.keys().exists(p => isBad(b.poolBal.get(p).shares) or isBad(b.poolBal.get(p).tokens)),
    b.userBal.keys().exists(p => isBad(b.userBal.get(p).shares)),
    badMap(b.poolEmis), isBad(b.lpBlnd), isBad(b.lpUsdc),
    b.eData.keys().exists(p => isBad(b.eData.get(p).index)),
    b.uEmis.keys().exists(p => isBad(b.uEmis.get(p).accrued))
  }
  pure def overflow(v: World, w: World): bool = or {
    isBad(w.ret), w.bal != v.bal and badMap(w.bal),
    w.pools.keys().exists(p => w.pools.get(p) != v.pools.get(p) and badPool(w.pools.get(p))),
    w.bs != v.bs and badBs(w.bs)
  }

  // ---- genesis -----------------------------------------------------------------
  pure def newPool(o: str, rate: int, maxPos: int): PoolS =
    { admin: "admin", rate: rate, status: 6, maxPos: maxPos, oracle: o, resList: List(),
      cfg: Map(), data: Map(), queued: Map(), pos: Map(), auctions: Map(), emisShare: Map(),
      eCfg: Map(), eData: Map(), uEmis: Map() }
  /// contracts deployed and initialized, nothing else
  pure def genesis(n: List[int]): World = {
    ok: true, why: "", ret: 0, ev: List(), now: n[0], seq: 1000, bal: Map(), allow: Map(), lapsed: Set(), price: Map(),
    cometSupply: 0, cometRate: S7,
    pools: Map("poolA" -> newPool("oracleA", n[1], n[2]), "poolB" -> newPool("oracleB", n[3], n[4])),
    bs: { poolBal: Map(), userBal: Map(), rz: List(), lastDist: n[0], poolEmis: Map(), eCfg: Map(),
          eData: Map(), uEmis: Map(), lpSet: false, lpBlnd: 0, lpUsdc: 0,
          drops: List(("alice", 1000 * S7), ("carol", 7)) },
    em: { backstop: BACKSTOP, token: LP, last: Map(BACKSTOP -> n[0]), dropped: Set(), swap: List() },
    spare: Map(), fac: { dep: List(), pools:
      Set("poolA", "poolB", "poolX", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10") }
  }

  /// one call: its effect is all or nothing
  pure def apply(w: World, o: Op): World = if (o.op == "genesis") genesis(o.n) else {
    val v = { ...w, ok: true, why: "", ret: 0, ev: List() }
    val x = exec(v, o)
    if (not(x.ok) or overflow(v, x)) { ...v, ok: false, why: if (x.ok) "range" else x.why }
    else announce(v, o, x)
  }
  pure def runAll(w: World, l: List[Op]): World = l.foldl(w, (acc, o) => apply(acc, o))

}
