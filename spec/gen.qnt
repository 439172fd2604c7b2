/// Scenario generation: random but state-aware choice of the next operation.
/// Arguments are drawn around the boundaries the specification computes
/// (exact balances, health-factor and utilization limits, deadlines).
module gen {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"
  import backstop.* from "./backstop"
  import emitter.* from "./emitter"
  import reserve.* from "./reserve"
  import shares.* from "./shares"
  import poolbase.* from "./poolbase"
  import admin.* from "./admin"
  import pool.* from "./pool"
  import system.* from "./system"
  import factory.* from "./factory"

  // ---- randomness: a stream of numbers from one nondeterministic seed ----------
  pure def rnd(s: int, i: int): int = {
    val x = (s + i * 11400714819323198485) % 2^64
    val y = ((x / 2^30 + x) * 13787848793156543929) % 2^64
    ((y / 2^27 + y) * 10723151780598845931) % 2^64 / 2^24
  }
  pure def below(s: int, i: int, n: int): int = if (n <= 0) 0 else rnd(s, i) % n
  pure def pick(s: int, i: int, l: List[a]): a = l[below(s, i, l.length())]
  pure def chance(s: int, i: int, pct: int): bool = below(s, i, 100) < pct
  pure def toL(x: Set[a]): List[a] = x.fold(List(), (acc, y) => acc.append(y))
  pure def pickOr(s: int, i: int, l: List[a], d: a): a = if (l.length() == 0) d else pick(s, i, l)

  pure val USERS = List("alice", "bob", "carol")
  pure val XPOOLS = List("poolX", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10")

  /// an amount of an asset with scalar sc, log-uniform from dust to 10^6 units
  pure def amount(s: int, i: int, sc: int): int = {
    val k = below(s, i, 12)
    if (k == 11 and chance(s, i + 2, 20)) 1 + below(s, i + 1, 10^13 * sc)
    else if (k == 0) 1 + below(s, i + 1, 3)
    else if (k == 1) 1 + below(s, i + 1, 1000)
    else if (k == 2) 1 + below(s, i + 1, sc)
    else if (k <= 5) (1 + below(s, i + 1, 1000)) * sc
    else if (k <= 7) 1 + below(s, i + 1, 1000 * sc)
    else if (k <= 9) (1 + below(s, i + 1, 100)) * 1000 * sc
    else 1 + below(s, i + 1, 1000000 * sc)
  }
  /// a value at or near x: exact, one off, a fraction
  pure def near(s: int, i: int, x: int): int = {
    val k = below(s, i, 10)
    if (k <= 2) x else if (k == 3) x + 1 else if (k == 4) imax(x - 1, 0)
    else if (k == 5) x / 2 else if (k == 6) x * (1 + below(s, i + 1, 99)) / 100
    else if (k == 7) x * 2 else if (k == 8) x - x / 1000 else x + x / 1000 + 1
  }

  // ---- pool requests --------------------------------------------------------------
  /// adjusted capacity left before the health factor limit, in oracle units
  pure def headroom(w: World, p: str, x: Pos): int = {
    val d = positionData(ctx(w, p), x)
    if (not(d.c.w.ok)) 0 else d.cb * S7 / MIN_HF - d.lb
  }
  pure def toAsset(w: World, p: str, a: str, v: int): int = {
    val o = poolOf(w, p).oracle
    val pr = if (has(w.price, (o, a))) priceOf(w, o, a) else 1
    if (pr <= 0) 0 else v * scalarOf(poolOf(w, p).cfg.get(a)) / pr
  }

  pure def genAmt(w: World, p: str, u: str, rt: int, a: str, s: int): int =
    if (not(has(poolOf(w, p).cfg, a))) 1000
    else {
      val k = poolOf(w, p).cfg.get(a)
      val d = viewRes(w, p, a)
      val x = posOf(w, p, u)
      val m = below(s, 20, 100)
      if (m < 2) -1
      else if (m < 4) 0
      else if (m < 7) I128MAX
      else if (rt == 1 or rt == 3) {
        val bal = assetB(d, if (rt == 1) getOr(x.sup, k.index, 0) else getOr(x.coll, k.index, 0))
        val room = if (rt == 3 and k.cf > 0) toAsset(w, p, a, headroom(w, p, x) * S7 / k.cf) else bal
        if (m < 40) near(s, 22, bal)
        else if (m < 60 and room > 0) near(s, 22, imin(room, bal))
        else if (m < 75) near(s, 22, balOf(w, a, p))
        else imin(amount(s, 22, scalarOf(k)), imax(bal, 1))
      } else if (rt == 5) {
        val debt = assetD(d, getOr(x.liab, k.index, 0))
        if (m < 60) near(s, 22, debt) else amount(s, 22, scalarOf(k))
      } else if (rt == 4) {
        val room = if (k.lf > 0) toAsset(w, p, a, headroom(w, p, x) * k.lf / S7) else 0
        val lim = totalSup(d) * k.maxUtil / S7 - totalLiab(d)
        if (m < 45 and room > 0) near(s, 22, room)
        else if (m < 60 and lim > 0) near(s, 22, lim)
        else if (m < 70) near(s, 22, balOf(w, a, p))
        else if (room > 0) 1 + below(s, 23, room)
        else amount(s, 22, scalarOf(k))
      } else amount(s, 22, scalarOf(k))
    }

  pure def assetFor(w: World, p: str, u: str, rt: int, s: int): str = {
    val rl = poolOf(w, p).resList
    val x = posOf(w, p, u)
    val own = if (rt == 1) x.sup.keys() else if (rt == 3) x.coll.keys() else if (rt == 5) x.liab.keys() else Set()
    if (chance(s, 25, 2)) "hi"
    else if (own != Set() and chance(s, 26, 85)) rl[pick(s, 27, toL(own))]
    else pickOr(s, 28, rl, "lo")
  }
  pure def genReq(w: World, p: str, u: str, s: int): Req = {
    val rt = pick(s, 30, List(0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4, 4, 5, 5, 9))
    val r = if (chance(s, 31, 1)) 10 else rt
    val a = assetFor(w, p, u, r, s)
    { rt: r, addr: a, amt: genAmt(w, p, u, r, a, s) }
  }
  /// requests on one or two assets, each chosen for the situation the ones before it lead to
  pure def genBatch(w: World, p: str, u: str, cnt: int, s: int): List[Req] = {
    val rl = poolOf(w, p).resList
    val hot = List(pickOr(s, 800, rl, "lo"), pickOr(s, 801, rl, "lo"))
    val c = { ...ctx({ ...w, ok: true }, p), frm: u, pos: posOf(w, p, u) }
    range(0, cnt).foldl({ c: c, rs: List() }, (acc, i) => {
      val z = s + 1000 * (i + 1)
      val rt = pick(z, 802, List(0, 1, 2, 2, 3, 3, 4, 4, 4, 5))
      val a = if (i == 0 and rt == 2) pickOr(z, 803, rl, "lo") else hot[if (chance(z, 804, 85)) 0 else 1]
      val v = if (acc.c.w.ok) setPos(storeAll(acc.c), p, u, acc.c.pos) else w
      val x = genAmt(v, p, u, rt, a, z)
      val r = { rt: rt, addr: a, amt: if (i == 0 and rt == 2 and has(poolOf(w, p).cfg, a) and chance(z, 805, 60))
                                        3000000 * scalarOf(poolOf(w, p).cfg.get(a))
                                      else if (rt == 4 and chance(z, 806, 40)) imax(x / 2, 1) else x }
      { c: if (acc.c.w.ok) doReq(acc.c, r) else acc.c, rs: acc.rs.append(r) }
    }).rs
  }
  pure def genSubmit(w: World, p: str, s: int): Op = {
    val u = pick(s, 40, USERS)
    val spender = if (chance(s, 41, 90)) u else pick(s, 42, USERS)
    val rcv = if (chance(s, 43, 85)) u else pick(s, 44, List("alice", "bob", "carol", "dan", "alice", "bob", "carol", "dan", p, "poolB", "backstop"))
    val k = below(s, 45, 10)
    val cnt = if (k <= 5) 1 else if (k <= 7) 2 else if (k == 8) 3 else 5
    val rs = if (cnt > 1 and chance(s, 39, 60)) genBatch(w, p, u, cnt, s)
             else range(0, cnt).foldl(List(), (acc, i) => acc.append(genReq(w, p, u, s + 1000 * (i + 1))))
    // borrow then repay the same amount, or supply then use as collateral in one batch
    val r2 = if (chance(s, 46, 12) and cnt == 1 and rs[0].rt == 4) rs.append({ ...rs[0], rt: 5 })
             else if (chance(s, 46, 12) and cnt == 1 and rs[0].rt == 2) rs.append({ ...rs[0], rt: 3 })
             else rs
    { ...mk("submit", List(p, u, spender, rcv), List()), reqs: r2 }
  }
  /// a batch that opens a leveraged position: collateral plus a borrow near a limit
  pure def genOpen(w: World, p: str, s: int): Op = {
    val u = pick(s, 40, USERS)
    val rl = poolOf(w, p).resList
    val a = pickOr(s, 47, rl, "lo")
    val b = pickOr(s, 48, rl, "lo")
    if (rl.length() == 0) genSubmit(w, p, s)
    else {
      val ca = if (chance(s, 55, 15)) (1 + below(s, 49, 5)) * 10^6 * scalarOf(poolOf(w, p).cfg.get(a))
               else amount(s, 49, scalarOf(poolOf(w, p).cfg.get(a)))
      val dep = { rt: 2, addr: a, amt: ca }
      val c1 = doReq({ ...ctx({ ...w, ok: true }, p), frm: u, pos: posOf(w, p, u) }, dep)
      val room = if (c1.w.ok) headroom(w, p, c1.pos) else 0
      val k = poolOf(w, p).cfg.get(b)
      val d = viewRes(w, p, b)
      val lim = imin(toAsset(w, p, b, room * k.lf / S7), totalSup(d) * k.maxUtil / S7 - totalLiab(d))
      val amt = if (lim <= 0) 1 else if (chance(s, 52, 50)) near(s, 53, lim) else 1 + below(s, 54, lim)
      { ...mk("submit", List(p, u, u, u), List()), reqs: List(dep, { rt: 4, addr: b, amt: amt }) }
    }
  }

  // ---- auctions -------------------------------------------------------------------
  pure def genFill(w: World, p: str, s: int): Op = {
    val ks = toL(poolOf(w, p).auctions.keys())
    if (ks.length() == 0) genSubmit(w, p, s)
    else {
      val au = pick(s, 60, ks)
      val a = poolOf(w, p).auctions.get(au)
      val u = if (chance(s, 65, 9)) "dan" else pickOr(s, 61, USERS.select(x => x != au._2 or chance(s, 62, 5)), "bob")
      val pct = pick(s, 63, List(100, 100, 100, 100, 50, 50, 25, 10, 1, 99, 33, 75, 0, 101, 100 + 2^64))
      val fill = { rt: 6 + au._1, addr: if (chance(s, 64, 3)) u else au._2, amt: pct }
      val repay = a.bid.keys().filter(x => x != LP).fold(List(), (acc, x) =>
        acc.append({ rt: 5, addr: x, amt: if (chance(s, 66, 60)) 10^15 else near(s, 67, assetD(viewRes(w, p, x), a.bid.get(x))) }))
      val colls = pickOr(s, 68, poolOf(w, p).resList, "lo")
      val dep = { rt: 2, addr: colls, amt: 2000000 * (if (has(poolOf(w, p).cfg, colls)) scalarOf(poolOf(w, p).cfg.get(colls)) else 1) }
      val mode = below(s, 69, 10)
      val other = pick(s, 59, ks)
      val again = { rt: 6 + other._1, addr: other._2, amt: pick(s, 58, List(100, 50, 30, 99)) }
      val rs = if (u == "dan" or mode <= 2 or au._1 == 2 and mode <= 5) List(fill)
               else if (mode <= 5) List(fill).concat(repay)
               else if (mode == 6) List(dep, fill)
               else if (mode == 7) List(dep, fill, again)
               else if (mode == 8) List(fill, again)
               else List(genReq(w, p, u, s), fill, genReq(w, p, u, s + 5000))
      { ...mk("submit", List(p, u, u, u), List()), reqs: rs }
    }
  }
  pure def genNewLiq(w: World, p: str, s: int): Op = {
    val bad = USERS.select(u => {
      val x = posOf(w, p, u)
      if (x.liab.keys() == Set() or x.coll.keys() == Set() or has(poolOf(w, p).auctions, (0, u))) false
      else { val d = positionData(ctx({ ...w, ok: true }, p), x) d.c.w.ok and d.cb <= d.lb }
    })
    val u = pickOr(s, 70, bad, pick(s, 71, List("alice", "bob", "carol", "backstop")))
    val cand = List(100, pick(s, 73, List(0, 101, 1, 50, 2)), 5 + below(s, 72, 15), 20 + below(s, 74, 20),
                    40 + below(s, 75, 20), 60 + below(s, 76, 20), 80 + below(s, 77, 19))
    val good = if (bad.length() == 0) List() else
               cand.select(c => pNewLiq({ ...w, ok: true }, p, u, c).ok)
    mk("new_liq", List(p, u), List(if (chance(s, 78, 80)) pickOr(s, 79, good, 50) else pick(s, 79, cand)))
  }
  pure def genBadDebt(w: World, p: str, s: int): Op = {
    val bad = USERS.select(u => posOf(w, p, u).liab.keys() != Set() and posOf(w, p, u).coll.keys() == Set())
    if (bad.length() > 0 and chance(s, 80, 90)) mk("bad_debt", List(p, pick(s, 81, bad)), List())
    else if (chance(s, 82, 50) or posOf(w, p, BACKSTOP).liab.keys() != Set()) mk("new_bad_debt", List(p), List())
    else mk("bad_debt", List(p, pick(s, 83, List("alice", "bob", "backstop"))), List())
  }
  pure def genInterest(w: World, p: str, s: int): Op = {
    val rl = poolOf(w, p).resList
    val sub = rl.select(a => rl.length() <= 1 or chance(s, 84 + indexOf(rl, a), 75))
    val l = if (chance(s, 90, 8)) sub.append(pickOr(s, 91, rl, "hi")) else if (chance(s, 92, 4)) sub.append("blnd") else sub
    if (chance(s, 93, 70) and not(pNewInterest({ ...w, ok: true }, p, l).ok)) genHigh(w, p, s)
    else mk("new_interest", List(p).concat(l), List())
  }

  // ---- environment -------------------------------------------------------------------
  pure def genPrice(w: World, p: str, s: int): Op = {
    val o = poolOf(w, p).oracle
    val a = pickOr(s, 100, poolOf(w, p).resList, "lo")
    val old = if (has(w.price, (o, a))) priceOf(w, o, a) else oracleScalar(o)
    val f = pick(s, 101, List(20, 50, 70, 80, 90, 95, 98, 99, 101, 102, 105, 110, 130, 180, 300))
    val fresh = imin(imax(old * f / 100, 1), 10^15)
    if (chance(s, 102, 2)) mk("noprice", List(o, a), List())
    else mk("price", List(o, a), List(fresh,
      if (chance(s, 103, 94)) 0 else pick(s, 104, List(86399, 86400, 86401, 200000))))
  }
  /// move the price of a borrower's collateral or debt so that its health factor lands near 1
  pure def genCrash(w: World, p: str, s: int): Op = {
    val us = USERS.select(u => posOf(w, p, u).liab.keys() != Set() and posOf(w, p, u).coll.keys() != Set())
    if (us.length() == 0) genOpen(w, p, s)
    else {
      val u = pick(s, 110, us)
      val x = posOf(w, p, u)
      val o = poolOf(w, p).oracle
      val rl = poolOf(w, p).resList
      val d = positionData(ctx({ ...w, ok: true }, p), x)
      val up = chance(s, 111, 50)
      val a = rl[pick(s, 112, toL(if (up) x.liab.keys() else x.coll.keys()))]
      val ratio = pick(s, 113, List(100, 100, 99, 98, 95, 95, 90, 85, 80, 60, 40, 103, 105))
      if (not(d.c.w.ok) or d.cb == 0 or d.lb == 0) genPrice(w, p, s)
      else {
        val pr = priceOf(w, o, a)
        val np = if (up) pr * d.cb * 100 / (d.lb * ratio) else pr * d.lb * ratio / (d.cb * 100)
        mk("price", List(o, a), List(imin(imax(np, 1), 10^15), 0))
      }
    }
  }
  /// a moment at which something in the state changes meaning
  pure def deadlines(w: World): List[int] = {
    val q = w.bs.userBal.keys().fold(List(), (acc, x) =>
      w.bs.userBal.get(x).q4w.foldl(acc, (a2, y) => a2.append(y.exp)))
    val qr = w.pools.keys().fold(q, (acc, p) => w.pools.get(p).queued.keys().fold(acc, (a2, x) =>
      a2.append(w.pools.get(p).queued.get(x).unlock)))
    val pe = w.pools.keys().fold(qr, (acc, p) => w.pools.get(p).eCfg.keys().fold(acc, (a2, x) =>
      a2.append(w.pools.get(p).eCfg.get(x).exp)))
    val be = w.bs.eCfg.keys().fold(pe, (acc, p) => acc.append(w.bs.eCfg.get(p).exp))
    val sw = w.em.swap.foldl(be, (acc, x) => acc.append(x.unlock))
    sw.append(w.bs.lastDist + DAY).append(w.bs.lastDist + 3600).select(t => t >= w.now - 1)
  }
  /// tokens sent straight to a contract: they must not count for anything
  pure def genGift(w: World, s: int): Op = {
    val c = pick(s, 137, List("poolA", "poolB", "backstop", "backstop", "emitter"))
    val x = pick(s, 136, List(1, 12345, 1000 * S7, 10^6 * S7))
    val k = below(s, 135, 4)
    if (k == 0) mk("cmint", List(c), List(x, 0, 0))
    else mk("mint", List(if (k == 1) BLND else pickOr(s, 134, poolOf(w, if (c == "poolB") c else "poolA").resList.select(r => not(listHas(TS, r))), "lo"), c), List(x))
  }
  pure def genAdvance(w: World, s: int): Op = if (chance(s, 133, 4)) genGift(w, s) else {
    val dl = deadlines(w)
    val old = toL(w.price.keys().map(k => w.price.get(k).t + DAY).filter(t => t >= w.now - 1))
    val k = below(s, 120, 10)
    if (old.length() > 0 and chance(s, 129, 5)) {
      val dt = imax(0, pick(s, 119, old) - w.now + pick(s, 118, List(0, 0, 1, -1)))
      mk("advance", List(), List(dt, dt / 5, 0))
    } else {
    val dt =
      if (k <= 2 and dl.length() > 0)
        imax(0, pick(s, 121, dl) - w.now + pick(s, 122, List(-1, 0, 0, 1)))
      else if (k <= 5) pick(s, 123, List(1, 5, 60, 3599, 3600, 3601, 7200))
      else if (k <= 8) pick(s, 124, List(43200, 86399, 86400, 86401, 172800, 3 * DAY + 11, 604800))
      else pick(s, 125, List(21 * DAY, 31 * DAY, 7 * DAY + 1, 90 * DAY, YEAR))
    val ds = if (chance(s, 126, 30)) pick(s, 127, List(1, 0, 50, 199, 200, 201)) else dt / 5
    mk("advance", List(), List(dt, ds, if (chance(s, 128, 93)) 1 else 0)) }
  }
  /// advance by auction time: ledgers matter, little wall clock time passes
  pure def genBlocks(s: int): Op = {
    val ds = pick(s, 130, List(1, 2, 50, 100, 150, 199, 200, 201, 250, 300, 399, 400, 401, 500, 1 + below(s, 131, 420)))
    mk("advance", List(), List(ds * 5, ds, 1))
  }

  // ---- backstop --------------------------------------------------------------------------
  pure def bsPool(w: World, s: int): str =
    pick(s, 140, List("poolA", "poolA", "poolA", "poolB", "poolB", "poolX", "x1", "poolU"))
  pure def lpAmount(s: int, i: int): int =
    if (chance(s, i, 60)) (1 + below(s, i + 1, 60000)) * S7 + below(s, i + 2, 3) - 1 else amount(s, i + 1, S7)
  pure def genBs(w: World, s: int): Op = {
    val k = below(s, 141, 20)
    val us = List("alice", "bob", "carol")
    val u = pick(s, 142, us)
    val p = bsPool(w, s)
    val x = ub(w, p, u)
    val queued = x.q4w.foldl(0, (acc, y) => acc + y.amount)
    val ripe = x.q4w.foldl(0, (acc, y) => acc + (if (y.exp <= w.now) y.amount else 0))
    if (k <= 4) mk("bdeposit", List(u, p), List(if (chance(s, 143, 4)) pick(s, 144, List(-1, 0, I128MAX)) else lpAmount(s, 145)))
    else if (k <= 9) mk("bqueue", List(u, p), List(
      if (chance(s, 143, 4)) pick(s, 144, List(-1, 0, x.shares + 1))
      else if (chance(s, 147, 40)) near(s, 148, x.shares) else imin(x.shares, lpAmount(s, 145))))
    else if (k <= 12) mk("bdequeue", List(u, p), List(
      if (chance(s, 143, 4)) -1 else if (chance(s, 147, 50)) near(s, 148, queued) else imin(imax(queued, 1), lpAmount(s, 145))))
    else if (k <= 16) mk("bwithdraw", List(u, p), List(
      if (chance(s, 143, 4)) -1 else if (chance(s, 147, 60)) near(s, 148, ripe)
      else if (chance(s, 146, 30)) near(s, 148, queued) else imin(imax(ripe, 1), lpAmount(s, 145))))
    else if (k == 17) mk("bdonate", List(u, p), List(if (chance(s, 143, 8)) -1 else lpAmount(s, 145)))
    else if (k == 18) {
      val q = pick(s, 149, List("poolX", "x1", "poolX", "poolU", "poolB"))
      mk("bdraw", List(q, if (chance(s, 139, 15)) pick(s, 138, List("backstop", q, "dan")) else u), List(if (chance(s, 143, 10)) -1
        else if (chance(s, 146, 30)) near(s, 148, pb(w, q).tokens)
        else if (chance(s, 147, 25)) near(s, 148, balOf(w, LP, BACKSTOP))
        else near(s, 148, pb(w, q).tokens / (1 + below(s, 144, 20)))))
    }
    else mk("cmint", List(u), List(1 + below(s, 143, 1000000 * S7), below(s, 144, 5000000 * S7), below(s, 145, 500000 * S7)))
  }
  pure def genBsA(w: World, p: str, s: int): Op = {
    // deposits and queueing large enough to move the pool's status
    val u = pick(s, 150, USERS)
    val x = ub(w, p, u)
    val queued = x.q4w.foldl(0, (acc, y) => acc + y.amount)
    val b = pb(w, p)
    val k = below(s, 151, 10)
    if (k <= 2) mk("bdeposit", List(u, p), List((1 + below(s, 152, 40000)) * S7))
    else if (k <= 7) {
      // amount bringing the queued share near a status boundary
      val target = b.shares * pick(s, 153, List(30, 50, 60, 75)) / 100 + pick(s, 154, List(-1, 0, 0, 1, 2))
      if (target > b.q4w) mk("bqueue", List(u, p), List(imin(x.shares, target - b.q4w)))
      else mk("bdequeue", List(u, p), List(imin(queued, b.q4w - target)))
    }
    else if (k == 8) mk("bdequeue", List(u, p), List(near(s, 155, queued)))
    else mk("bqueue", List(u, p), List(near(s, 155, x.shares)))
  }

  // ---- emissions ----------------------------------------------------------------------------
  pure def genEmis(w: World, s: int): Op = {
    val k = below(s, 160, 20)
    val p = pick(s, 161, List("poolA", "poolA", "poolB"))
    val u = pick(s, 162, List("alice", "bob", "carol"))
    val rcv = if (chance(s, 163, 65)) u else pick(s, 164, List("alice", "bob", "carol", "dan", "alice", "bob", "carol", "dan", "backstop", "poolA", "poolB"))
    val n = poolOf(w, p).resList.length()
    if (k <= 2) mk("distribute", List(), List())
    else if (k <= 5) mk("bgulp", List(), List())
    else if (k <= 8) mk("pgulp", List(p), List())
    else if (k <= 12) {
      val ids = range(0, 2 * n).select(t => chance(s, 170 + t, 60))
      mk("pclaim", List(p, u, rcv), if (chance(s, 165, 5)) ids.append(2 * n) else if (chance(s, 166, 10)) ids.concat(ids) else ids)
    }
    else if (k <= 16) {
      val l = List("poolA", "poolB", "poolX").select(x => chance(s, 180 + indexOf(List("poolA", "poolB", "poolX"), x), 55))
      mk("bclaim", List(u, if (Set("poolA", "poolB").contains(rcv)) u else rcv).concat(if (chance(s, 185, 10)) l.append("poolA") else l), List())
    }
    else if (k <= 18) {
      val cnt = below(s, 190, 4)
      val l = range(0, cnt).foldl(List(), (acc, i) => acc.concat(List(
        if (chance(s, 191 + i, 96)) below(s, 195 + i, imax(n, 1)) else n, if (chance(s, 200 + i, 97)) below(s, 205 + i, 2) else 2,
        pick(s, 210 + i, List(0, 1, 1000000, 2500000, 3333333, 5000000, 5000001, 10000000)))))
      mk("set_emis", List(p), l)
    }
    else mk("bgulp_pool", List(pick(s, 186, List("poolX", "poolX", "poolA"))), List())
  }
  pure def genRz(w: World, s: int): Op = {
    val k = below(s, 220, 10)
    val p = pick(s, 221, List("poolA", "poolB").concat(XPOOLS))
    val vic = pickOr(s, 227, w.bs.rz, "poolX")
    val gap = pb(w, vic).tokens - pb(w, p).tokens
    if (k == 0 and gap > 0) mk("bdeposit", List(pick(s, 222, USERS), p), List(imax(gap + below(s, 223, 3) - 1, 1)))
    else if (k <= 3) mk("bdeposit", List(pick(s, 222, USERS), p), List((50000 + below(s, 223, 30000)) * S7))
    else if (k <= 7) {
      val rm = if (w.bs.rz.length() > 0 and chance(s, 224, 80)) pick(s, 225, w.bs.rz) else pick(s, 226, XPOOLS)
      val out = List("poolA", "poolB").concat(XPOOLS).select(x => not(listHas(w.bs.rz, x)))
      val good = out.select(x => w.bs.lpSet and aboveThreshold(poolData(w, x)))
      val same = good.select(x => pb(w, x).tokens == pb(w, rm).tokens)
      mk("badd_reward", List(if (same.length() > 0 and chance(s, 229, 60)) pick(s, 228, same)
                             else if (chance(s, 227, 70)) pickOr(s, 228, good, p) else p, rm), List())
    }
    else if (k == 8) mk("bgulp", List(), List())
    else mk("distribute", List(), List())
  }

  // ---- initialization ---------------------------------------------------------------------------
  /// of a contract that has been, or maybe not yet, with its own or another wiring
  pure def genInit(s: int, i: int, op: str): Op = {
    pure def one(j, good, other) = if (chance(s, i + 60 + j, 65)) good else pick(s, i + 70 + j, other)
    val spare = chance(s, i + 50, 60)
    if (op == "einit") mk(op, List(if (spare) "emN" else "emitter", one(1, "blnd", List("usdc", "lp2")), one(2, pick(s, i + 51, List("backstop", "bs3")), List("bs2", "alice")), one(3, "lp", List("lp2"))), List())
    else if (op == "binit") mk(op, List(if (spare) "bs3" else "backstop", one(1, "lp", List("lp2")), pick(s, i + 51, List("emitter", "emitter", "emN")), one(2, "usdc", List("blnd")), one(3, "blnd", List("usdc")), one(4, "factory", List("facN"))), List())
    else if (op == "finit") mk(op, List(if (spare) "facN" else "factory", one(1, "backstop", List("bs2", "bs3")), one(2, "blnd", List("usdc"))), List())
    else mk(op, List(pick(s, i + 51, List("poolA", "poolB")), one(1, "admin", List("dave", "alice")), one(2, "oracleA", List("oracleB")), one(3, "backstop", List("bs2")), one(4, "blnd", List("usdc"))),
         List(pick(s, i + 52, List(1000000, 0, 9999999)), pick(s, i + 53, List(4, 2, 10))))
  }

  // ---- emitter ----------------------------------------------------------------------------------
  pure def genEm(w: World, s: int): Op = {
    val k = below(s, 230, 20)
    val c = pick(s, 231, List("bs2", "bs3", "backstop"))
    val t = pick(s, 232, List(LP, LP, LP2))
    if (k <= 3) mk("distribute", List(), List())
    else if (k <= 6) mk("queue_swap", List(c, t), List())
    else if (k <= 8) mk("cancel_swap", List(), List())
    else if (k <= 11) mk("swap", List(), List())
    else if (k == 12) mk("bdrop", List(), List())
    else if (k <= 14) {
      val sz = pick(s, 233, List(1, 2, 3, 0))
      val big = pick(s, 234, List(DROP_MAX / 2, DROP_MAX, 1000, DROP_MAX / 3, DROP_MAX + 1))
      mk("edrop", List("alice", "bob", "dan").slice(0, sz), range(0, sz).foldl(List(), (acc, i) =>
        acc.append(if (i == 0) big else if (chance(s, 235, 10)) -1 else pick(s, 236 + i, List(DROP_MAX / 3, 1, DROP_MAX / 2)))))
    }
    else if (k <= 17) {
      // move LP between the candidates so that the comparison is close
      val cur = balOf(w, w.em.token, w.em.backstop)
      val own = balOf(w, w.em.token, c)
      val d = cur - own + pick(s, 237, List(0, 1, 2, 1000))
      if (c == w.em.backstop) mk("bdeposit", List("alice", "poolA"), List(lpAmount(s, 238)))
      else if (w.em.token == LP and d > 0) mk("cmint", List(c), List(d, 0, 0))
      else if (w.em.token == LP2 and d > 0) mk("mint", List(LP2, c), List(d))
      // the backstop contract moves its tokens only through its own operations
      else if (c == BACKSTOP) mk("distribute", List(), List())
      else mk("transfer", List(w.em.token, c, "alice"), List(near(s, 238, imax(own - cur, 0))))
    }
    else if (k == 18) genInit(s, 239, pick(s, 238, List("einit", "binit", "binit", "finit")))
    else mk("bdeposit", List(pick(s, 240, USERS), "poolA"), List(lpAmount(s, 241)))
  }

  // ---- configuration --------------------------------------------------------------------------------
  pure def genCfg(s: int, i: int, dec: int): List[int] = {
    val u = pick(s, i, List(5000000, 7500000, 9500000, 9500001, 100, 6500000, 0))
    val r1 = pick(s, i + 1, List(0, 200000, 500000, 1000000))
    val r2 = r1 + pick(s, i + 2, List(0, 300000, 5000000, 0, 10000000))
    val r3 = r2 + pick(s, i + 3, List(0, 1000000, 15000000))
    List(pick(s, i + 4, List(0, 1, 2, 7)), if (chance(s, i + 5, 92)) dec else pick(s, i + 6, List(18, 19, 5)),
      pick(s, i + 7, List(0, 7500000, 9000000, 10000000, 9500000, 10000001)),
      pick(s, i + 8, List(7500000, 9000000, 10000000, 9500000, 0, 10000001)),
      u, pick(s, i + 9, List(u, u + 1, 9500000, 10000000, 9800000, 10000001)),
      pick(s, i + 10, List(1000, 100000, 999, 10000000, 50000)),
      r1, if (chance(s, i + 11, 3)) r3 + 1 else r2, if (chance(s, i + 12, 3)) 0 else r3,
      pick(s, i + 13, List(0, 1000, 1001, 500, 20)))
  }
  pure def decOf(w: World, p: str, a: str): int =
    if (has(poolOf(w, p).cfg, a)) poolOf(w, p).cfg.get(a).dec
    else if (p == "poolB") 7 else if (a == "lo") 6 else if (a == "hi") 9 else 7
  pure def genConf(w: World, s: int): Op = {
    val k = below(s, 250, 24)
    val p = pick(s, 251, List("poolA", "poolA", "poolB"))
    val a = pick(s, 252, if (p == "poolA") List("lo", "usdc", "hi", "blnd", "lp2") else if (poolOf(w, p).resList.length() > 5) List("usdc", "blnd", "hi", "t0", "t3", "t31", "t32") else List("usdc", "blnd", "hi"))
    val qs = toL(poolOf(w, p).queued.keys())
    if (k <= 6) {
      // mostly variations of a valid configuration
      val n = genCfg(s, 253, decOf(w, p, a))
      val n2 = if (chance(s, 280, 50) and has(poolOf(w, p).cfg, a)) {
          val c = poolOf(w, p).cfg.get(a)
          val m = List(n[0], c.dec, c.cf, c.lf, c.util, c.maxUtil, c.rBase, c.r1, c.r2, c.r3, c.react)
          val i = 1 + below(s, 281, 10)
          m.replaceAt(i, n[i])
        } else n
      mk("queue_res", List(p, a), n2)
    }
    else if (k <= 8) mk("cancel_res", List(p, if (chance(s, 282, 60)) pickOr(s, 283, qs, a) else a), List())
    else if (k <= 14) mk("set_res", List(p, if (chance(s, 282, 85)) pickOr(s, 283, qs, a) else a), List())
    else if (k <= 16) mk("update_pool", List(p), List(pick(s, 284, List(0, 1000000, 2000000, 9999999, 10000000, 5000000)),
                                                      pick(s, 285, List(2, 3, 4, 6, 1, 0, 10))))
    else if (k <= 17) mk("set_admin", List(p, pick(s, 286, List("admin", "dave", "alice"))), List())
    else if (k <= 19) mk("set_status", List(p), List(pick(s, 287, List(0, 2, 4, 0, 1, 3, 5, 6, 7))))
    else if (k <= 21) mk("update_status", List(p), List())
    else if (k == 22) genInit(s, 288, "pinit")
    else mk("bupdate_val", List(), List())
  }
  pure def genFac(w: World, s: int): Op = {
    val k = below(s, 440, 20)
    val n = viaFactory(w)
    val some = DEPLOYED.slice(0, n).concat(List("poolN", "poolU"))
    val p = if (n > 0 and chance(s, 441, 75)) pick(s, 442, DEPLOYED.slice(0, n)) else pick(s, 443, some)
    if (k <= 8 and n < DEPLOYED.length())
      mk("deploy", List(pick(s, 444, List("admin", "alice", "dave")), pick(s, 445, List("s1", "s1", "s2", "s3")),
                        pick(s, 446, List("oracleA", "oracleB"))),
         List(pick(s, 447, List(0, 1000000, 2000000, 9999999, 10000000, 2^32 - 1)), pick(s, 448, List(0, 1, 2, 3, 8, 2^32 - 1))))
    else if (k <= 10)
      mk("pnew", List(pick(s, 449, List("admin", "bob")), pick(s, 446, List("oracleA", "oracleB"))),
         List(pick(s, 447, List(0, 2000000, 9999999, 10000000, 10000001)), pick(s, 448, List(0, 1, 2, 5))))
    else if (k <= 12) genInit(s, 451, pick(s, 450, List("finit", "einit", "binit", "pinit")))
    else if (k <= 15) mk("bdeposit", List(pick(s, 452, USERS), p), List(lpAmount(s, 453)))
    else if (k == 16) mk("bdonate", List(pick(s, 452, USERS), p), List(lpAmount(s, 453)))
    else if (k == 17) mk("bdeposit", List(pick(s, 452, USERS), p), List((62000 + below(s, 453, 1000)) * S7))
    else if (k == 18) mk("badd_reward", List(p, "poolA"), List())
    else mk("bqueue", List(pick(s, 452, USERS), p), List(lpAmount(s, 453)))
  }
  pure def genStatus(w: World, p: str, s: int): Op = {
    val k = below(s, 290, 10)
    if (k <= 5) mk("update_status", List(p), List())
    else if (k <= 8) mk("set_status", List(p), List(pick(s, 291, List(0, 0, 2, 4, 3, 1, 5, 6, 7))))
    else mk("bupdate_val", List(), List())
  }

  // ---- goals: a few steps in a row aimed at a situation that is rarely met by chance --------------
  /// an account whose liquidation auction is running acts, or its pool goes on ice
  pure def genUnder(w: World, p: str, s: int): Op = {
    val ks = toL(poolOf(w, p).auctions.keys().filter(k => k._1 == 0))
    if (ks.length() == 0) (if (chance(s, 500, 50)) genNewLiq(w, p, s) else genCrash(w, p, s))
    else {
      val u = pick(s, 501, ks)._2
      val x = posOf(w, p, u)
      val a = poolOf(w, p).auctions.get((0, u))
      val rl = poolOf(w, p).resList
      val debts = toL(x.liab.keys())
      val i = pickOr(s, 502, debts, 0)
      val r = if (i < rl.length()) rl[i] else "lo"
      val owe = if (debts.length() == 0) 0 else assetD(viewRes(w, p, r), x.liab.get(i))
      val mine = if (has(a.bid, r)) assetD(viewRes(w, p, r), getOr(x.liab, i, 0) - a.bid.get(r)) else 0
      val k = below(s, 503, 17)
      val short = a.bid.keys().exists(y => has(poolOf(w, p).cfg, y) and getOr(x.liab, poolOf(w, p).cfg.get(y).index, 0) < a.bid.get(y))
      val one = { rt: 5, addr: r, amt: if (chance(s, 504, 30)) imax(mine, 0) + below(s, 505, 3) else near(s, 506, owe) }
      val all5 = debts.foldl(List(), (acc, j) => acc.append({ rt: 5, addr: rl[j],
        amt: assetD(viewRes(w, p, rl[j]), x.liab.get(j)) * pick(s, 507 + j, List(10, 50, 90, 100, 101)) / 100 }))
      val del9 = { rt: 9, addr: r, amt: 0 }
      val colls = toL(x.coll.keys())
      val c = rl[pickOr(s, 515, colls, 0)]
      val dep = { rt: 2, addr: c, amt: amount(s, 516, scalarOf(poolOf(w, p).cfg.get(c))) * 10 }
      pure def sub(rs) = { ...mk("submit", List(p, u, u, u), List()), reqs: rs }
      pure def fillBy(v, n) = { ...mk("submit", List(p, v, v, v), List()), reqs: List({ rt: 6, addr: u, amt: n }) }
      if (k == 16) mk("new_liq", List(p, u), List(pick(s, 508, List(100, 100, 50, 20, 1))))
      else if (k >= 14 and short) fillBy(pickOr(s, 509, USERS.select(v => v != u), "bob"), pick(s, 510, List(100, 100, 50, 90, 99)))
      else if (k <= 2) sub(List(one))
      else if (k <= 4) sub(all5.append(del9))
      else if (k == 5) sub(List(dep, del9))
      else if (k == 6) sub(List(del9))
      else if (k == 7) sub(List({ rt: 3, addr: c, amt: genAmt(w, p, u, 3, c, s) }))
      else if (k == 8) mk("set_status", List(p), List(pick(s, 517, List(2, 2, 0, 4, 3))))
      else if (k == 9) mk("price", List(poolOf(w, p).oracle, c), List(imin(priceOr1(w, p, c) * pick(s, 518, List(101, 110, 130, 150)) / 100, 10^15), 0))
      else if (k == 10) genBlocks(s)
      else if (k == 11) sub(List(del9, { rt: 4, addr: r, amt: genAmt(w, p, u, 4, r, s) }))
      else genFill(w, p, s)
    }
  }
  pure def priceOr1(w: World, p: str, a: str): int =
    if (has(w.price, (poolOf(w, p).oracle, a))) priceOf(w, poolOf(w, p).oracle, a) else 1
  pure def setPrice(w: World, p: str, a: str, x: int): World =
    { ...w, ok: true, price: w.price.put((poolOf(w, p).oracle, a), { p: x, t: w.now }) }
  /// largest x in [lo, hi] with f(x), given f(lo) and f monotone; lo if there is none
  pure def largest(lo: int, hi: int, f: (int) => bool): int =
    range(0, 75).foldl({ a: lo, b: hi + 1 }, (acc, _) =>
      if (acc.b - acc.a <= 1) acc
      else val m = (acc.a + acc.b) / 2
        if (f(m)) { ...acc, a: m } else { ...acc, b: m }).a

  /// liquidations at the exact percentage or price where they become possible or stop being so
  pure def genEdge(w: World, p: str, s: int): Op = {
    val us = USERS.select(u => posOf(w, p, u).liab.keys() != Set() and posOf(w, p, u).coll.keys() != Set()
      and not(has(poolOf(w, p).auctions, (0, u))))
    if (us.length() == 0) genOpen(w, p, s)
    else {
      val u = pick(s, 520, us)
      val x = posOf(w, p, u)
      val v = { ...w, ok: true }
      val d = positionData(ctx(v, p), x)
      val rl = poolOf(w, p).resList
      val c = rl[pick(s, 521, toL(x.coll.keys()))]
      val pr = priceOr1(w, p, c)
      if (not(d.c.w.ok)) genPrice(w, p, s)
      else if (d.cb > d.lb) {
        // the price at which the account only just becomes liquidatable
        val e = largest(0, pr, y => { val z = positionData(ctx(setPrice(w, p, c, y), p), x) z.c.w.ok and z.cb < z.lb })
        mk("price", List(poolOf(w, p).oracle, c), List(imax(e + pick(s, 522, List(0, 0, 1, 2, -1)), 1), 0))
      }
      else if (chance(s, 523, 45)) {
        val pct = pick(s, 524, List(100, 100, 10, 30, 50, 70, 90))
        val top = pr * 2
        val e = largest(0, top, y => { val z = pNewLiq(setPrice(w, p, c, y), p, u, pct) z.ok or z.why == "liqsmall" })
        if (e == 0 or e == top) mk("new_liq", List(p, u), List(pct))
        else mk("price", List(poolOf(w, p).oracle, c), List(imin(imax(e + pick(s, 522, List(0, 0, 0, 1)), 1), 10^15), 0))
      }
      else {
        val hi = largest(0, 99, y => y == 0 or { val z = pNewLiq(v, p, u, y) z.ok or z.why == "liqsmall" })
        val lo = largest(0, 99, y => y == 0 or pNewLiq(v, p, u, y).why == "liqsmall")
        mk("new_liq", List(p, u), List(pick(s, 525, List(hi, hi + 1, lo, lo + 1, 100, hi, lo + 1))))
      }
    }
  }
  /// interest auctions worth only just enough
  pure def genEdgeInt(w: World, p: str, s: int): Op = {
    val rl = poolOf(w, p).resList
    if (rl.length() == 0) genConf(w, s)
    else if (has(poolOf(w, p).auctions, (2, BACKSTOP)) and chance(s, 544, 15))
      mk("update_pool", List(p), List(pick(s, 545, List(0, 500000, 1000000, 9000000)), poolOf(w, p).maxPos))
    else if (has(poolOf(w, p).auctions, (2, BACKSTOP))) genFill(w, p, s)
    else {
      val l = rl.select(r => chance(s, 530 + indexOf(rl, r), 85))
      val q = if (l.length() == 0) rl else l
      val c = pick(s, 540, q)
      val ok0 = pNewInterest({ ...w, ok: true }, p, q)
      val e = largest(0, 10^15, y => pNewInterest(setPrice(w, p, c, y), p, q).why == "small")
      if (ok0.why == "small" and chance(s, 541, 10) or e == 0 or e == 10^15) mk("new_interest", List(p).concat(q), List())
      else if (chance(s, 542, 60)) mk("price", List(poolOf(w, p).oracle, c), List(e + pick(s, 543, List(0, 0, 1)), 0))
      else mk("new_interest", List(p).concat(q), List())
    }
  }
  /// somebody able to carry it takes a part of the bad debt
  pure def genPart(w: World, p: str, s: int): Op = {
    val u = pick(s, 580, USERS)
    val c = pickOr(s, 581, poolOf(w, p).resList, "lo")
    val rs = List({ rt: 2, addr: c, amt: 3000000 * (if (has(poolOf(w, p).cfg, c)) scalarOf(poolOf(w, p).cfg.get(c)) else 1) },
                  { rt: 7, addr: BACKSTOP, amt: pick(s, 582, List(50, 10, 90, 99, 100, 1)) })
    { ...mk("submit", List(p, u, u, u), List()), reqs: if (chance(s, 583, 70)) rs else rs.slice(1, 2) }
  }
  /// make backstop deposits worth a chosen part of the minimum, by what the liquidity pool holds
  pure def genVal(w: World, p: str, s: int): Op = {
    val b = balOf(w, BLND, LP)
    val u = balOf(w, USDC, LP)
    val stale = w.cometSupply > 0 and (w.bs.lpBlnd != divF(b, w.cometSupply, S7) or w.bs.lpUsdc != divF(u, w.cometSupply, S7))
    val k = below(s, 550, 12)
    if (stale and k <= 5) mk("bupdate_val", List(), List())
    else if (has(poolOf(w, p).auctions, (1, BACKSTOP)) and k >= 6) genPart(w, p, s)
    else if (k <= 7 and w.cometSupply > 0 and pb(w, p).tokens > 0) {
      val owes = posOf(w, p, BACKSTOP).liab.keys() != Set()
      val t = if (owes and chance(s, 554, 75)) pick(s, 551, List(2, 3, 4, 60, 3, 500))
              else pick(s, 551, List(2, 3, 4, 60, 2000, 300000, 6000000, 9999999, 10000000, 10000000, 11000000, 50000000))
      pure def at(n) = thresholdPct({ tokens: pb(w, p).tokens, q4wPct: 0, blnd: mulF(pb(w, p).tokens, divF(b, n, S7), S7),
                                     usdc: mulF(pb(w, p).tokens, divF(u, n, S7), S7) }) >= t
      val n = largest(1, 10^19, at) + below(s, 552, 2)
      if (n > w.cometSupply) mk("cmint", List("dan"), List(n - w.cometSupply, 0, 0))
      else mk("cmint", List("dan"), List(0, imin(b * w.cometSupply / n - b, 10^25), imin(u * w.cometSupply / n - u, 10^25)))
    }
    else if (k == 8) mk("set_status", List(p), List(pick(s, 553, List(0, 0, 3, 2))))
    else if (k == 9) mk("update_status", List(p), List())
    else if (k == 10) (if (has(poolOf(w, p).auctions, (1, BACKSTOP))) genFill(w, p, s) else genBadDebt(w, p, s))
    else genBs(w, s)
  }
  /// a loan of what the backstop already owes
  pure def genSame(w: World, p: str, s: int): Op = {
    val u = pick(s, 725, USERS)
    val rl = poolOf(w, p).resList
    val b = rl[pick(s, 726, toL(posOf(w, p, BACKSTOP).liab.keys()))]
    val a = pick(s, 727, rl)
    { ...mk("submit", List(p, u, u, u), List()), reqs: List(
      { rt: 2, addr: a, amt: scalarOf(poolOf(w, p).cfg.get(a)) * (1 + below(s, 728, 2000)) },
      { rt: 4, addr: b, amt: 1 + below(s, 729, scalarOf(poolOf(w, p).cfg.get(b)) * 10) }) }
  }
  /// a debt nobody backs: make one, hand it to the backstop, auction it off in parts while the backstop loses its worth
  pure def genOwe(w: World, p: str, s: int): Op = {
    val ks = poolOf(w, p).auctions.keys()
    val bare = USERS.select(u => posOf(w, p, u).liab.keys() != Set() and posOf(w, p, u).coll.keys() == Set())
    val late = toL(ks.filter(k => k._1 == 0))
    val lev = USERS.select(u => posOf(w, p, u).liab.keys() != Set() and posOf(w, p, u).coll.keys() != Set() and not(ks.contains((0, u))))
    val k = below(s, 700, 10)
    if (k == 0) genVal(w, p, s)
    else if (bare.length() > 0) mk("bad_debt", List(p, pick(s, 701, bare)), List())
    else if (ks.contains((1, BACKSTOP))) (
      if (k <= 2) genBlocks(s) else if (k <= 4) genVal(w, p, s)
      else {
        val u = pick(s, 702, USERS)
        val c = pickOr(s, 703, poolOf(w, p).resList, "lo")
        val dep = { rt: 2, addr: c, amt: 3000000 * (if (has(poolOf(w, p).cfg, c)) scalarOf(poolOf(w, p).cfg.get(c)) else 1) }
        val a = poolOf(w, p).auctions.get((1, BACKSTOP))
        val fill = { rt: 7, addr: BACKSTOP, amt: pick(s, 704, List(50, 10, 90, 99, 1, 100, 33)) }
        val again = { rt: 7, addr: BACKSTOP, amt: pick(s, 705, List(50, 99, 100)) }
        val back = toL(a.bid.keys()).foldl(List(), (acc, x) => acc.append({ rt: 5, addr: x, amt: 10^15 }))
        val m = below(s, 706, 8)
        val rs = if (m <= 3) List(dep, fill) else if (m == 4) List(fill).concat(back)
                 else if (m == 5) List(dep, fill, again) else if (m == 6) List(fill) else List(dep, fill).concat(back)
        { ...mk("submit", List(p, u, u, u), List()), reqs: rs }
      })
    else if (posOf(w, p, BACKSTOP).liab.keys() != Set() and (k > 6 or lev.length() == 0 and late.length() == 0 or chance(s, 721, 40))) (
      if (k <= 6) mk("new_bad_debt", List(p), List())
      else if (k == 7) {
        // the liquidity token loses nearly all of its worth
        val n = w.cometSupply * 10^(1 + below(s, 707, 9))
        if (n > 10^19) mk("bupdate_val", List(), List()) else mk("cmint", List("dan"), List(n, 0, 0))
      }
      else if (k == 8) (if (chance(s, 722, 60)) genSame(w, p, s) else genOpen(w, p, s)) else genAdvance(w, s))
    else if (late.length() > 0 and k <= 7) {
      val u = pick(s, 708, late)._2
      val a = poolOf(w, p).auctions.get((0, u))
      val el = w.seq - a.block
      if (el < 300) mk("advance", List(), List(5 * (400 - el), pick(s, 709, List(400, 399, 401, 380, 350)) - el, 1))
      else { val v = pickOr(s, 710, USERS.select(x => x != u), "bob")
             { ...mk("submit", List(p, v, v, v), List()), reqs: List({ rt: 6, addr: u, amt: pick(s, 711, List(100, 100, 100, 50)) }) } }
    }
    else if (lev.length() > 0) {
      val u = pick(s, 712, lev)
      val x = posOf(w, p, u)
      val d = positionData(ctx({ ...w, ok: true }, p), x)
      val c = poolOf(w, p).resList[pick(s, 713, toL(x.coll.keys()))]
      if (d.c.w.ok and d.cb * 2 < d.lb) mk("new_liq", List(p, u), List(100))
      else mk("price", List(poolOf(w, p).oracle, c), List(imax(priceOr1(w, p, c) * pick(s, 714, List(1, 5, 20, 40)) / 100, 1), 0))
    }
    else if (k <= 3) {
      // a tiny loan
      val u = pick(s, 715, USERS)
      val rl = poolOf(w, p).resList
      val a = pickOr(s, 716, rl, "lo")
      val b = pickOr(s, 717, rl, "lo")
      { ...mk("submit", List(p, u, u, u), List()), reqs: List(
        { rt: 2, addr: a, amt: if (has(poolOf(w, p).cfg, a)) scalarOf(poolOf(w, p).cfg.get(a)) * (1 + below(s, 718, 20)) else 1 },
        { rt: 4, addr: b, amt: 1 + below(s, 719, pick(s, 720, List(3, 1000, 100000))) }) }
    }
    else genOpen(w, p, s)
  }
  /// an account with holdings in a reserve with hardly anything in it: withdrawals to the last units, loans of single units
  pure def genTiny(w: World, p: str, s: int): Op = {
    val rl = poolOf(w, p).resList
    if (rl.length() == 0) genConf(w, s)
    else {
      val a = rl.foldl((rl[0], 10^40), (acc, r) => if (totalSup(viewRes(w, p, r)) * 10^12 / scalarOf(poolOf(w, p).cfg.get(r)) < acc._2)
          (r, totalSup(viewRes(w, p, r)) * 10^12 / scalarOf(poolOf(w, p).cfg.get(r))) else acc)._1
      val i = poolOf(w, p).cfg.get(a).index
      val d = viewRes(w, p, a)
      val k = below(s, 730, 10)
      val big = USERS.select(u => getOr(posOf(w, p, u).sup, i, 0) > 10^6 or getOr(posOf(w, p, u).coll, i, 0) > 10^6)
      val owe = USERS.select(u => has(posOf(w, p, u).liab, i))
      if (d.bSup > 10^8 and k <= 5 and big.length() > 0) {
        // leave only a little
        val u = pick(s, 731, big)
        val rt = if (has(posOf(w, p, u).sup, i)) 1 else 3
        val bal = assetB(d, getOr(if (rt == 1) posOf(w, p, u).sup else posOf(w, p, u).coll, i, 0))
        val keep = pick(s, 732, List(0, 0, 1, 1000, 10^6))
        if (owe.length() > 0 and chance(s, 733, 50)) {
          val v = pick(s, 734, owe)
          { ...mk("submit", List(p, v, v, v), List()), reqs: List({ rt: 5, addr: a, amt: if (chance(s, 735, 60)) 10^15 else imax(assetD(d, posOf(w, p, v).liab.get(i)) - below(s, 736, 20), 1) }) }
        }
        else { ...mk("submit", List(p, u, u, u), List()), reqs: List({ rt: rt, addr: a, amt: imax(bal - keep, 1) }) }
      }
      else if (k <= 7) {
        val u = pick(s, 737, USERS)
        val c = pick(s, 738, rl)
        val dep = { rt: 2, addr: c, amt: scalarOf(poolOf(w, p).cfg.get(c)) * (1 + below(s, 739, 100)) }
        val one = { rt: pick(s, 740, List(0, 1, 2, 3, 4, 4, 5)), addr: a, amt: 1 + below(s, 741, pick(s, 742, List(1, 3, 30, 1000))) }
        { ...mk("submit", List(p, u, u, u), List()), reqs: if (chance(s, 743, 50)) List(dep, one) else List(one) }
      }
      else mk("advance", List(), List(pick(s, 744, List(1, 5, 60, 3600, 10^6)), 1, 1))
    }
  }
  /// borrow nearly all of a reserve, then let interest run
  pure def genHigh(w: World, p: str, s: int): Op = {
    val rl = poolOf(w, p).resList
    if (rl.length() == 0) genConf(w, s)
    else {
      pure def util(r) = { val d = viewRes(w, p, r) if (totalSup(d) <= 0) 0 else totalLiab(d) * S7 / totalSup(d) }
      val b = if (chance(s, 750, 15)) pick(s, 758, rl) else rl.foldl((rl[0], -1), (acc, r) => if (util(r) > acc._2) (r, util(r)) else acc)._1
      val kb = poolOf(w, p).cfg.get(b)
      val d = viewRes(w, p, b)
      val u = pick(s, 751, USERS)
      val k = below(s, 752, 10)
      val ut = util(b)
      if (kb.maxUtil < 9600000 and k <= 5) mk(if (has(poolOf(w, p).queued, b)) "set_res" else "queue_res", List(p, b),
          if (has(poolOf(w, p).queued, b)) List() else List(0, kb.dec, kb.cf, kb.lf, kb.util, 10000000, kb.rBase, kb.r1, kb.r2,
            kb.r2 + 1 + below(s, 753, 15000000), pick(s, 754, List(1000, 333, 7))))
      else if (ut < 9500000 and k <= 6) {
        val c = pick(s, 755, rl.select(r => r != b).concat(List(b)))
        val dep = { rt: 2, addr: c, amt: 3000000 * scalarOf(poolOf(w, p).cfg.get(c)) }
        val c1 = doReq({ ...ctx({ ...w, ok: true }, p), frm: u, pos: posOf(w, p, u) }, dep)
        val room = if (c1.w.ok) toAsset(w, p, b, headroom(w, p, c1.pos) * kb.lf / S7) else 0
        val lim = totalSup(d) * imin(kb.maxUtil, pick(s, 756, List(9600000, 10000000, 9900000, 9500000, 9500001))) / S7 - totalLiab(d)
        { ...mk("submit", List(p, u, u, u), List()), reqs: {
          val x = imax(imin(room, lim), 1)
          val m = below(s, 759, 4)
          if (m <= 1) List(dep, { rt: 4, addr: b, amt: x })
          else if (m == 2) List(dep, { rt: 4, addr: b, amt: 1 + x / 2 }, { rt: 4, addr: b, amt: imax(x - x / 2 - 1 + pick(s, 748, List(0, 0, 1, 1000)), 1) })
          else List(dep, { rt: pick(s, 747, List(1, 3)), addr: b, amt: 1 + x / 3 }, { rt: 4, addr: b, amt: pick(s, 746, List(1, 1 + x / 2, x)) }) } }
      }
      else if (k <= 8) mk("advance", List(), List(pick(s, 757, List(1, 6, 77, 5000, 86400, 10^6, 8 * 10^6, 3 * 10^7)), 1, 1))
      else genSubmit(w, p, s)
    }
  }
  /// the queued share exactly at, or one part in ten million off, the levels at which the status changes
  pure def genStat(w: World, p: str, s: int): Op = {
    val b = pb(w, p)
    val pct = if (b.shares <= 0) -1 else divC(b.q4w, b.shares, S7)
    val at = List(2500000, 3000000, 5000000, 6000000, 7500000).foldl(false, (acc, y) => acc or iabs(pct - y) <= 1)
    val k = below(s, 840, 10)
    if (k == 0) mk("set_status", List(p), List(pick(s, 841, List(0, 2, 3, 4))))
    else if (k == 1) genAdvance(w, s)
    else if (at and k <= 5) mk("update_status", List(p), List())
    else if (at and k <= 7) mk("set_status", List(p), List(pick(s, 842, List(0, 0, 2, 3, 4))))
    else if (b.shares > 0) {
      val u = pick(s, 843, USERS)
      val x = ub(w, p, u)
      val queued = x.q4w.foldl(0, (acc, y) => acc + y.amount)
      val target = b.shares * pick(s, 844, List(30, 50, 60, 75, 75)) / 100 + pick(s, 845, List(0, 0, 0, 1, -1, b.shares / S7 + 1))
      if (target > b.q4w) mk("bqueue", List(u, p), List(imin(x.shares, target - b.q4w)))
      else if (target == b.q4w) mk("update_status", List(p), List())
      else mk("bdequeue", List(u, p), List(imin(queued, b.q4w - target)))
    }
    else genBsA(w, p, s)
  }
  /// a change of the backstop at the moments it becomes possible, with and without a distribution just before
  pure def genSwap(w: World, s: int): Op = {
    val k = below(s, 850, 10)
    if (w.em.swap.length() == 0) genEm(w, s)
    else {
      val t = w.em.swap[0].unlock
      if (k == 0) genEm(w, s)
      else if (w.now < t) mk("advance", List(), List(imax(0, t - w.now + pick(s, 851, List(-1, 0, 0, 1, 60, 5000, -30))), 1000, 1))
      else if (k <= 3) mk("distribute", List(), List())
      else if (k <= 6) mk("advance", List(), List(pick(s, 852, List(1, 5, 30, 59, 60, 61, 3600)), 1, 1))
      else mk("swap", List(), List())
    }
  }
  /// leave the backstop: queue, wait for the exact moment, take out parts
  pure def genExit(w: World, p: str, s: int): Op = {
    val us = USERS.select(u => ub(w, p, u).q4w.length() > 0)
    val hold = USERS.select(u => ub(w, p, u).shares > 0)
    val k = below(s, 770, 12)
    if (k == 0 or hold.length() == 0 and us.length() == 0) genBs(w, s)
    else if (us.length() == 0 or k == 1) {
      val u = pickOr(s, 771, hold, "alice")
      mk("bqueue", List(u, p), List(imax(1, ub(w, p, u).shares * pick(s, 772, List(1, 10, 30, 60, 100)) / 100 - below(s, 773, 2))))
    }
    else {
      val u = pick(s, 774, us)
      val q = ub(w, p, u).q4w
      val ripe = q.foldl(0, (acc, y) => acc + (if (y.exp <= w.now) y.amount else 0))
      val whole = q.foldl(0, (acc, y) => acc + y.amount)
      val e = pick(s, 775, q)
      if (k == 2) mk("bdequeue", List(u, p), List(near(s, 776, pick(s, 777, List(whole, q[q.length() - 1].amount, e.amount)))))
      else if (k == 3) mk("bdonate", List("carol", p), List(lpAmount(s, 778)))
      else if (k == 4) mk("bdraw", List(p, if (chance(s, 785, 20)) pick(s, 786, List("backstop", p)) else "dan"), List(imax(pb(w, p).tokens / pick(s, 779, List(2, 10, 1000, 3)), 1)))
      else if (ripe > 0) mk("bwithdraw", List(u, p), List(pick(s, 780, List(ripe, ripe, q[0].amount, near(s, 781, q[0].amount), near(s, 782, ripe), 1 + below(s, 783, ripe), imin(whole, ripe + 1)))))
      else {
        val dt = e.exp - w.now + pick(s, 784, List(0, 0, -1, 1, 86400))
        if (dt <= 0) mk("bwithdraw", List(u, p), List(q[0].amount)) else mk("advance", List(), List(dt, dt / 5, 1))
      }
    }
  }
  /// leave almost nothing unqueued in a reward zone pool, so that it is assigned next to no emissions
  pure def genDust(w: World, s: int): Op = {
    val p = if (chance(s, 560, 75)) "poolB" else "poolA"
    val k = below(s, 561, 9)
    val us = USERS.select(u => ub(w, p, u).shares > 100)
    val unq = pb(w, p).shares - pb(w, p).q4w
    if (k <= 2 and us.length() > 0) { val u = pick(s, 562, us) mk("bqueue", List(u, p), List(imax(1, ub(w, p, u).shares - pick(s, 563, List(0, 1, 2, 40, 100, 10^4, 10^6, S7, 5 * S7, 40 * S7))))) }
    else if (k == 3) mk("advance", List(), List(pick(s, 564, List(3601, 3605, 4000, 7300)), 700, 1))
    else if (k == 4) mk("distribute", List(), List())
    else if (k <= 6) mk("bgulp", List(), List())
    else if (k == 7 or unq < 10000) mk("pgulp", List(p), List())
    else genEmis(w, s)
  }
  /// fill the withdrawal queue with small entries
  pure def genSpam(w: World, s: int): Op = {
    val k = below(s, 570, 20)
    if (k <= 14) mk("bqueue", List("bob", "poolA"), List(1 + below(s, 571, 40 * S7)))
    else if (k == 15) mk("advance", List(), List(pick(s, 572, List(1, 60, 86400)), 10, 1))
    else genBs(w, s)
  }

  // ---- profiles ---------------------------------------------------------------------------------------
  /// weights of: submit open fill newliq baddebt interest price crash advance blocks bs bsA emis rz em conf status factory
  pure def weights(prof: str): List[int] =
    if (prof == "lend")        List(45, 18, 1, 0, 0, 0, 8, 2, 22, 0, 0, 0, 0, 0, 0, 2, 1, 0)
    else if (prof == "liq")    List(6, 14, 20, 18, 4, 1, 2, 16, 3, 13, 0, 0, 0, 0, 0, 0, 1, 0)
    else if (prof == "bad")    List(3, 10, 24, 14, 13, 1, 1, 12, 3, 14, 0, 2, 0, 0, 0, 0, 1, 0)
    else if (prof == "int")    List(8, 14, 24, 0, 0, 16, 3, 0, 16, 12, 0, 2, 0, 0, 0, 2, 0, 0)
    else if (prof == "bstop")  List(0, 0, 0, 0, 0, 0, 0, 0, 20, 0, 62, 8, 8, 2, 0, 0, 0, 0)
    else if (prof == "status") List(16, 6, 2, 2, 0, 0, 2, 2, 10, 2, 2, 24, 0, 0, 0, 2, 28, 0)
    else if (prof == "emis")   List(12, 6, 0, 0, 0, 0, 1, 0, 22, 0, 6, 4, 46, 2, 0, 0, 1, 0)
    else if (prof == "rz")     List(0, 0, 0, 0, 0, 0, 0, 0, 16, 0, 8, 2, 10, 64, 0, 0, 0, 0)
    else if (prof == "em")     List(0, 0, 0, 0, 0, 0, 0, 0, 20, 0, 4, 0, 4, 0, 70, 0, 0, 0)
    else if (prof == "fac")    List(0, 0, 0, 0, 0, 0, 0, 0, 8, 0, 2, 0, 2, 0, 0, 4, 2, 80)
    else if (prof == "conf")   List(12, 6, 0, 0, 0, 0, 4, 0, 18, 0, 0, 4, 0, 0, 0, 50, 4, 2)
    else                       List(14, 12, 9, 7, 5, 4, 4, 6, 12, 5, 6, 4, 9, 3, 2, 4, 4, 1)

  pure def pickWeighted(l: List[int], x: int): int = {
    val total = l.foldl(0, (acc, y) => acc + y)
    val r = x % total
    l.indices().fold({ i: -1, sum: 0 }, (acc, i) =>
      if (acc.i >= 0) acc
      else if (acc.sum + l[i] > r) { ...acc, i: i }
      else { ...acc, sum: acc.sum + l[i] }).i
  }

  /// the goal pursued around step `pos` of the behaviour whose set-up is `sp`, if any
  pure def goalAt(prof: str, sp: int, pos: int): str = {
    val l = if (prof == "liq") List("under", "edge", "under", "edge", "")
            else if (prof == "bad") List("owe", "owe", "owe", "val", "under")
            else if (prof == "int") List("edgeint", "", "high")
            else if (prof == "bstop") List("", "val", "exit", "exit", "")
            else if (prof == "status") List("val", "", "under", "stat", "stat")
            else if (prof == "emis") List("dust", "", "")
            else if (prof == "em") List("", "", "swap")
            else if (prof == "rz") List("val", "", "", "", "", "")
            else if (prof == "mix") List("under", "edge", "edgeint", "val", "dust", "owe", "tiny", "high", "exit", "stat", "", "", "")
            else if (prof == "lend") List("tiny", "high", "", "", "")
            else List("")
    if (prof == "bstop" and chance(sp, 600, 12)) "spam"
    else pick(sp, 601 + pos / 14, l)
  }
  pure def candidate(w: World, prof: str, goal: str, s: int): Op = {
    val k = if (goal != "" and chance(s, 4, 70)) 100 else pickWeighted(weights(prof), rnd(s, 1))
    val p = pick(s, 2, List("poolA", "poolA", "poolA", "poolA", "poolB"))
    if (k == 100) (
      if (goal == "under") genUnder(w, p, s)
      else if (goal == "edge") genEdge(w, p, s)
      else if (goal == "edgeint") genEdgeInt(w, p, s)
      else if (goal == "val") genVal(w, p, s)
      else if (goal == "dust") genDust(w, s)
      else if (goal == "owe") genOwe(w, p, s)
      else if (goal == "tiny") genTiny(w, p, s)
      else if (goal == "exit") genExit(w, p, s)
      else if (goal == "high") genHigh(w, p, s)
      else if (goal == "stat") genStat(w, p, s)
      else if (goal == "swap") genSwap(w, s)
      else genSpam(w, s))
    else if (k == 0) genSubmit(w, p, s)
    else if (k == 1) genOpen(w, p, s)
    else if (k == 2) genFill(w, p, s)
    else if (k == 3) genNewLiq(w, p, s)
    else if (k == 4) genBadDebt(w, p, s)
    else if (k == 5) genInterest(w, p, s)
    else if (k == 6) genPrice(w, p, s)
    else if (k == 7) genCrash(w, p, s)
    else if (k == 8) genAdvance(w, s)
    else if (k == 9) genBlocks(s)
    else if (k == 10) genBs(w, s)
    else if (k == 11) genBsA(w, p, s)
    else if (k == 12) genEmis(w, s)
    else if (k == 13) genRz(w, s)
    else if (k == 14) genEm(w, s)
    else if (k == 15) genConf(w, s)
    else if (k == 16) genStatus(w, p, s)
    else genFac(w, s)
  }
  pure def again(o: Op, s: int): Op =
    if (o.op == "new_liq") { ...o, n: List(pick(s, 830, List(100, 50, o.n[0]))) }
    else if (o.op == "submit" and o.reqs.length() > 1 and chance(s, 831, 50)) { ...o, reqs: o.reqs.slice(o.reqs.length() - 1, o.reqs.length()) }
    else o
  /// most of the time insist on an operation that succeeds
  pure def choose(w: World, prof: str, goal: str, last: Op, s: int): { o: Op, w: World } =
    // the same call once more
    if (last.op != "genesis" and not(isEnv(last.op)) and chance(s, 5, 3)) {
      val o = again(last, s)
      { o: o, w: apply(w, o) }
    } else {
    val want = chance(s, 3, if (goal == "") 82 else 65)
    range(0, 4).foldl({ o: mk("none", List(), List()), w: { ...w, ok: false } }, (acc, i) =>
      if (acc.o.op != "none" and (acc.w.ok or not(want))) acc
      else { val o = candidate(w, prof, goal, s + 7777777 * i) { o: o, w: apply(w, o) } })
  }

  // ---- prologue -----------------------------------------------------------------------------------------
  pure def stdCfg(s: int, i: int, dec: int, rl: int): List[int] =
    List(0, dec, pick(s, i, List(7500000, 9000000, 9500000, 8000000, 0)),
      pick(s, i + 1, List(7500000, 9000000, 9500000, 8500000, 10000000)),
      pick(s, i + 2, List(5000000, 7500000, 8500000, 6000000)), pick(s, i + 3, List(9500000, 9800000, 9000000, 10000000)),
      pick(s, i + 4, List(100000, 50000, 1000, 300000)), pick(s, i + 5, List(500000, 300000, 1000000)),
      pick(s, i + 6, List(5000000, 2000000, 3000000)) + below(s, i + 10, 3) * 77777, pick(s, i + 7, List(15000000, 10000000, 50000000)) + below(s, i + 9, 3) * 333337,
      pick(s, i + 8, List(20, 0, 100, 1000, 500)))
  pure def loDec(s: int): int = pick(s, 432, List(6, 6, 6, 6, 6, 2, 0, 12))
  pure def hiDec(s: int): int = pick(s, 433, List(9, 9, 9, 9, 9, 18, 14, 4))
  /// further reserves that nobody holds, listed in pool B before those that are used
  pure val TS = List("t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "t10", "t11", "t12", "t13", "t14", "t15", "t16",
    "t17", "t18", "t19", "t20", "t21", "t22", "t23", "t24", "t25", "t26", "t27", "t28", "t29", "t30", "t31", "t32")
  pure def wide(prof: str, s: int): int =
    if (not(Set("lend", "liq", "bad", "emis", "conf", "mix").contains(prof)) or not(chance(s, 640, 10))) 0
    else if (prof == "conf" and chance(s, 641, 50)) 27 + below(s, 642, 5)
    else pick(s, 643, List(1, 2, 6, 7, 9, 14, 15))
  pure def fund(s: int, u: str): List[Op] = List(
    mk("mint", List("lo", u), List(10^9 * 10^loDec(s))), mk("mint", List("hi", u), List(10^9 * 10^hiDec(s))),
    mk("mint", List(USDC, u), List(10^9 * S7)), mk("mint", List(BLND, u), List(10^8 * S7)),
    mk("cmint", List(u), List(400000 * S7, 3200000 * S7, 40000 * S7)))
  pure def seed(p: str, u: str, a: str, amt: int): Op =
    { ...mk("submit", List(p, u, u, u), List()), reqs: List({ rt: 0, addr: a, amt: amt }) }

  pure def prologue(prof: str, s: int): List[Op] = {
    val early = prof == "em" and chance(s, 300, 50)
    val rich = chance(s, 434, 25) and prof != "rz" and prof != "em" and prof != "fac"
    val base = fund(s, "alice").concat(fund(s, "bob")).concat(fund(s, "carol")).concat(
      // somebody with more than fits the intermediate products
      if (not(chance(s, 460, 10))) List()
      else List(mk("mint", List(USDC, "bob"), List(10^20)), mk("mint", List("hi", "bob"), List(10^13 * 10^hiDec(s))), mk("mint", List("lo", "bob"), List(10^13 * 10^loDec(s))))).concat(List(
      mk("price", List("oracleA", "lo"), List(pick(s, 301, List(10000000, 9990000, 25000000)), 0)),
      mk("price", List("oracleA", USDC), List(10000000, 0)),
      mk("price", List("oracleA", "hi"), List(pick(s, 302, List(20000000000, 1500000, 350000000)), 0)),
      mk("price", List("oracleB", USDC), List(1000000000, 0)),
      mk("price", List("oracleB", BLND), List(pick(s, 303, List(100000000, 50000000, 2000000000)), 0)),
      mk("crate", List(), List(pick(s, 304, List(1250000, 1000000, 2000000, 9999999))))))
    val n = wide(prof, s)
    val more0 = TS.slice(0, n).foldl(List(), (acc, t) => acc.concat(List(
      mk("queue_res", List("poolB", t), stdCfg(s, 390, 7, 0)), mk("set_res", List("poolB", t), List()))))
    val conf = more0.concat(List(
      mk("queue_res", List("poolA", "lo"), stdCfg(s, 310, loDec(s), 0)), mk("set_res", List("poolA", "lo"), List()),
      mk("queue_res", List("poolA", USDC), stdCfg(s, 330, 7, 0)), mk("set_res", List("poolA", USDC), List()),
      mk("queue_res", List("poolA", "hi"), stdCfg(s, 350, hiDec(s), 0)), mk("set_res", List("poolA", "hi"), List()),
      mk("queue_res", List("poolB", USDC), stdCfg(s, 370, 7, 0)), mk("set_res", List("poolB", USDC), List()),
      mk("queue_res", List("poolB", BLND), stdCfg(s, 390, 7, 0)), mk("set_res", List("poolB", BLND), List()),
      mk("set_emis", List("poolA"), List(0, 0, 2500000, 1, 1, 5000000, 2, pick(s, 305, List(0, 1)), 2500000)),
      mk("set_emis", List("poolB"), List(n, 1, 6000000, n + 1, 0, 4000000))))
    val act = List(
      mk("bdeposit", List("alice", "poolA"), List((40000 + below(s, 306, 20000)) * S7)),
      mk("bdeposit", List("bob", "poolA"), List((25000 + below(s, 307, 20000)) * S7)),
      mk("bdeposit", List("carol", "poolB"), List((62000 + below(s, 308, 20000)) * S7)),
      mk("bupdate_val", List(), List()),
      mk("set_status", List("poolA"), List(pick(s, 309, List(0, 0, 3)))), mk("set_status", List("poolB"), List(0)),
      mk("update_status", List("poolA"), List()))
    val rz = List(mk("badd_reward", List("poolA", "poolA"), List()), mk("badd_reward", List("poolB", "poolB"), List()))
    val liq = List(
      seed("poolA", "carol", "lo", 800000 * 10^loDec(s)), seed("poolA", "alice", USDC, 600000 * S7), seed("poolA", "bob", "hi", 400000 * 10^hiDec(s)),
      seed("poolB", "carol", USDC, 500000 * S7), seed("poolB", "alice", BLND, 900000 * S7))
    // pool A with up to five reserves
    val more = if (not(rich)) List() else List(
      mk("price", List("oracleA", BLND), List(pick(s, 435, List(500000, 10000000)), 0)),
      mk("price", List("oracleA", LP2), List(pick(s, 436, List(30000000, 77)), 0)),
      mk("mint", List(LP2, "alice"), List(10^8 * S7)), mk("mint", List(LP2, "bob"), List(10^8 * S7)),
      mk("queue_res", List("poolA", BLND), stdCfg(s, 437, 7, 0)), mk("set_res", List("poolA", BLND), List()),
      mk("queue_res", List("poolA", LP2), stdCfg(s, 450, 7, 0)), mk("set_res", List("poolA", LP2), List()),
      mk("set_emis", List("poolA"), List(0, 0, 2000000, 3, 1, 3000000, 4, 0, 2500000, 4, 1, 2499999)))
    val liq2 = if (not(rich)) List() else List(seed("poolA", "alice", BLND, 500000 * S7), seed("poolA", "bob", LP2, 700000 * S7))
    if (early) base
    else if (prof == "em") base.concat(List(mk("bdeposit", List("alice", "poolA"), List(50000 * S7)), mk("cmint", List("bs2"), List(below(s, 306, 80000) * S7, 0, 0))))
    else if (prof == "rz") base.concat(USERS.foldl(List(), (acc, u) => acc.append(mk("cmint", List(u), List(9 * 10^6 * S7, 72 * 10^6 * S7, 9 * 10^5 * S7)))))
           .concat(List("poolA", "poolB").concat(XPOOLS).select(p => chance(s, 400 + indexOf(List("poolA", "poolB").concat(XPOOLS), p), 70)).foldl(List(), (acc, p) =>
             acc.append(mk("bdeposit", List("alice", p), List((58000 + below(s, 420 + indexOf(XPOOLS, p), 9000)) * S7)))))
           .concat(List(mk("bupdate_val", List(), List())))
    else if (prof == "conf" and chance(s, 300, 30)) base
    else if (prof == "bstop" and chance(s, 300, 30)) base
    else base.concat(conf).concat(more).concat(act).concat(if (prof == "rz") List() else rz)
           .concat(if (prof == "bstop") List() else liq.concat(liq2))
  }
  pure def start(s: int): Op = mk("genesis", List(), List(
    RZ_EPOCH + pick(s, 430, List(0, 2^23 - 5, 1000000, 2^24, -100000)),
    pick(s, 431, List(0, 1000000, 2000000, 3000000)), pick(s, 438, List(2, 3, 4, 6, 10)),
    pick(s, 439, List(1000000, 2000000, 9999999)), pick(s, 440, List(4, 10))))
}
