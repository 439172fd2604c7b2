/// The backstop module: deposits of LP tokens insuring pools, the 21 day
/// withdrawal queue, emissions to depositors and pools, draw / donate.
module backstop {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"
  import shares.* from "./shares"
  import emission.* from "./emission"

  pure val Q4W_LOCK = 21 * DAY
  pure val MAX_Q4W = 21
  pure val RZ_EPOCH = 1713139200
  pure val THRESHOLD_PC = 320000000000000000000000000
  pure val ALLOWANCE_LEDGERS = 120 * 17280

  pure val NOPB: PoolBal = { shares: 0, tokens: 0, q4w: 0 }
  pure val NOUB: UserBal = { shares: 0, q4w: List() }

  pure def pb(w: World, p: str): PoolBal = getOr(w.bs.poolBal, p, NOPB)
  pure def ub(w: World, p: str, u: str): UserBal = getOr(w.bs.userBal, (p, u), NOUB)
  pure def setPb(w: World, p: str, b: PoolBal): World =
    { ...w, bs: { ...w.bs, poolBal: w.bs.poolBal.put(p, b) } }
  pure def setUb(w: World, p: str, u: str, b: UserBal): World =
    { ...w, bs: { ...w.bs, userBal: w.bs.userBal.put((p, u), b) } }

  type PoolData = { tokens: int, q4wPct: int, blnd: int, usdc: int }
  /// valid only when w.bs.lpSet
  pure def poolData(w: World, p: str): PoolData = {
    val b = pb(w, p)
    { tokens: b.tokens,
      q4wPct: if (b.shares > 0) divC(b.q4w, b.shares, S7) else 0,
      blnd: mulF(b.tokens, w.bs.lpBlnd, S7),
      usdc: mulF(b.tokens, w.bs.lpUsdc, S7) }
  }
  /// product constant blnd^4 * usdc (whole tokens, saturating)
  pure def productConst(d: PoolData): int = {
    val b = d.blnd / S7
    val u = d.usdc / S7
    satMul(satMul(satMul(satMul(b, b), b), b), u)
  }
  pure def aboveThreshold(d: PoolData): bool = productConst(d) >= THRESHOLD_PC
  /// the pool's view: percentage^5 of the threshold, 7 decimals
  pure def thresholdPct(d: PoolData): int = satMul(productConst(d), S7) / THRESHOLD_PC

  // ---- emissions index ------------------------------------------------------
  /// bring the pool's backstop emission index up to date (needs an eCfg entry)
  pure def updEmis(w: World, p: str): World = {
    val c = w.bs.eCfg.get(p)
    val d = w.bs.eData.get(p)
    val b = pb(w, p)
    val unq = b.shares - b.q4w
    if (not(w.ok)) w
    else if (d.last >= c.exp or w.now == d.last or c.eps == 0 or b.shares == 0 or unq == 0) w
    else {
      val until = imin(w.now, c.exp)
      val add = idxAdd((until - d.last) * c.eps, unq, S7)
      need({ ...w, bs: { ...w.bs, eData: w.bs.eData.put(p, { index: d.index + add, last: w.now }) } },
           "range", unq > 0 and not(isBad(add)))
    }
  }
  /// what the user has earned and not yet claimed, given the up to date index
  pure def owed(w: World, p: str, u: str): int = {
    val idx = w.bs.eData.get(p).index
    val sh = ub(w, p, u).shares
    if (has(w.bs.uEmis, (p, u))) {
      val ue = w.bs.uEmis.get((p, u))
      ue.accrued + (if (sh != 0) earned(sh, idx - ue.index, S7) else 0)
    } else if (sh == 0) 0 else earned(sh, idx, S7)
  }
  pure def setUE(w: World, p: str, u: str, acc: int): World =
    { ...w, bs: { ...w.bs, uEmis: w.bs.uEmis.put((p, u),
        { index: w.bs.eData.get(p).index, accrued: acc }) } }
  /// accrue for (pool, user) before the user's shares change
  pure def accrue(w: World, p: str, u: str): World =
    if (not(w.ok) or not(has(w.bs.eCfg, p))) w
    else {
      val w1 = updEmis(w, p)
      if (not(w1.ok)) w1
      else setUE(w1, p, u, owed(w1, p, u))
    }

  // ---- deposits and the withdrawal queue -------------------------------------
  pure def isPoolOk(w: World, p: str, shares: int): bool =
    shares != 0 or w.fac.pools.contains(p)

  pure def bDeposit(w: World, frm: str, p: str, amt: int): World = {
    val w0 = need(need(need(w, "negative", amt >= 0), "self", frm != p and frm != BACKSTOP), "notpool", isPoolOk(w, p, pb(w, p).shares))
    val w1 = transfer(accrue(w0, p, frm), LP, frm, BACKSTOP, amt)
    if (not(w1.ok)) w1 else {
      val b = pb(w1, p)
      val mint = toShares(b, amt)
      val u = ub(w1, p, frm)
      val w2 = need(w1, "mint", mint != 0 and not(isBad(mint)))
      if (not(w2.ok)) w2 else
      { ...setUb(setPb(w2, p, depositTo(b, amt)),
                 p, frm, { ...u, shares: u.shares + mint }), ret: mint }
    }
  }

  pure def bQueue(w: World, frm: str, p: str, amt: int): World = {
    val w1 = accrue(need(w, "negative", amt >= 0), p, frm)
    val u = ub(w1, p, frm)
    val b = pb(w1, p)
    val w2 = need(need(w1, "shares", u.shares >= amt), "queuelen", u.q4w.length() < MAX_Q4W)
    if (not(w2.ok)) w2 else {
      val e = w.now + Q4W_LOCK
      { ...setPb(setUb(w2, p, frm, { shares: u.shares - amt,
                                      q4w: u.q4w.append({ amount: amt, exp: e }) }),
                 p, { ...b, q4w: b.q4w + amt }), ret: e }
    }
  }

  pure def bDequeue(w: World, frm: str, p: str, amt: int): World = {
    val w1 = accrue(need(w, "negative", amt >= 0), p, frm)
    if (not(w1.ok)) w1 else {
      val u = ub(w1, p, frm)
      val b = pb(w1, p)
      val d = dequeue(u.q4w, amt, false, w.now)
      val w2 = need(w1, "queue", d.ok and amt <= b.q4w)
      if (not(w2.ok)) w2 else
      setPb(setUb(w2, p, frm, { shares: u.shares + amt, q4w: d.q }), p, { ...b, q4w: b.q4w - amt })
    }
  }

  pure def bWithdraw(w: World, frm: str, p: str, amt: int): World = {
    val w1 = need(w, "negative", amt >= 0)
    if (not(w1.ok)) w1 else {
      val u = ub(w1, p, frm)
      val b = pb(w1, p)
      val d = dequeue(u.q4w, amt, true, w.now)
      val out = toTokens(b, amt)
      val w2 = need(need(w1, "queue", d.ok), "mint", out != 0 and not(isBad(out)) and out <= b.tokens
                        and amt <= b.shares and amt <= b.q4w)
      if (not(w2.ok)) w2 else
      { ...transfer(setPb(setUb(w2, p, frm, { ...u, q4w: d.q }),
                  p, withdrawFrom(b, amt)),
             LP, BACKSTOP, frm, out), ret: out }
    }
  }

  // ---- fund management --------------------------------------------------------
  pure def bDraw(w: World, p: str, amt: int, rcv: str): World = {
    val b = pb(w, p)
    val w1 = need(need(w, "negative", amt >= 0), "funds", amt <= b.tokens)
    emit(transfer(if (w1.ok) setPb(w1, p, drawFrom(b, amt)) else w1, LP, BACKSTOP, rcv, amt),
         BACKSTOP, "draw", List(p, rcv), List(amt))
  }
  pure def bDonate(w: World, frm: str, p: str, amt: int): World = {
    val b = pb(w, p)
    val w1 = need(need(need(w, "negative", amt >= 0), "self", frm != p and frm != BACKSTOP), "notpool", isPoolOk(w, p, b.shares))
    val w2 = transfer(w1, LP, frm, BACKSTOP, amt)
    if (w2.ok) emit(setPb(w2, p, donateTo(b, amt)), BACKSTOP, "donate", List(p, frm), List(amt)) else w2
  }
  pure def bUpdateVal(w: World): World =
    if (w.cometSupply <= 0) bail(w, "lp") else
    { ...w, bs: { ...w.bs, lpSet: true,
        lpBlnd: divF(balOf(w, BLND, LP), w.cometSupply, S7),
        lpUsdc: divF(balOf(w, USDC, LP), w.cometSupply, S7) } }

  // ---- reward zone and emission distribution -----------------------------------
  pure def rzMax(now: int): int = if (now < RZ_EPOCH) 10 else 10 + (now - RZ_EPOCH) / (2^23)

  pure def bAddReward(w: World, add: str, rm: str): World =
    if (not(w.ok) or not(w.bs.lpSet)) bail(w, "lp")
    else if (listHas(w.bs.rz, add)) bail(w, "rz")
    else if (not(aboveThreshold(poolData(w, add)))) bail(w, "threshold")
    else if (rzMax(w.now) > w.bs.rz.length())
      { ...w, bs: { ...w.bs, rz: List(add).concat(w.bs.rz) } }
    else {
      val i = indexOf(w.bs.rz, rm)
      if (i < 0 or w.bs.lastDist < w.now - DAY or pb(w, add).tokens <= pb(w, rm).tokens) bail(w, "rz")
      else { ...w, bs: { ...w.bs, rz: w.bs.rz.replaceAt(i, add) } }
    }

  /// assign `tokens` of new emissions to the depositors of pool p
  pure def setEmisCfg(w: World, p: str, tokens: int): World = {
    val w1 =
      if (has(w.bs.eCfg, p)) {
        val u = updEmis(w, p)
        { ...u, bs: { ...u.bs, eData: u.bs.eData.put(p, { index: u.bs.eData.get(p).index, last: w.now }) } }
      } else { ...w, bs: { ...w.bs, eData: w.bs.eData.put(p, { index: 0, last: w.now }) } }
    val left = if (has(w.bs.eCfg, p)) undistributed(w.bs.eCfg.get(p), w.now) else 0
    { ...w1, bs: { ...w1.bs, eCfg: w1.bs.eCfg.put(p,
        { exp: w.now + 7 * DAY, eps: newEps(tokens, left) }) } }
  }

  pure def bGulp(w: World): World =
    if (not(w.ok) or w.bs.rz.length() == 0 or not(has(w.em.last, BACKSTOP))) bail(w, "rz")
    else {
      val el = w.em.last.get(BACKSTOP)
      if (el <= w.bs.lastDist + 3600) bail(w, "spacing")
      else {
        val fresh = (el - w.bs.lastDist) * S7
        val toBackstop = mulF(fresh, 7000000, S7)
        val toPools = mulF(fresh, 3000000, S7)
        val total = w.bs.rz.foldl(0, (acc, p) => acc + nonQueued(pb(w, p)))
        if (total == 0) bail(w, "rz")
        else
          w.bs.rz.foldl({ ...w, ret: fresh, bs: { ...w.bs, lastDist: el } }, (acc, p) => {
            val share = portion(nonQueued(pb(w, p)), total)
            val a1 = { ...acc, bs: { ...acc.bs, poolEmis:
                acc.bs.poolEmis.put(p, getOr(acc.bs.poolEmis, p, 0) + partOf(share, toPools)) } }
            setEmisCfg(a1, p, partOf(share, toBackstop))
          })
      }
    }

  /// allowance of pool p over the backstop's BLND (0 once expired)
  pure def allowOf(w: World, p: str): int =
    if (has(w.allow, p) and w.allow.get(p).exp >= w.seq) w.allow.get(p).amt else 0

  pure def bGulpPool(w: World, p: str): World = {
    val e = getOr(w.bs.poolEmis, p, 0)
    if (not(w.ok) or e == 0) bail(w, "noemis")
    else { ...w, ret: e,
           lapsed: if (has(w.allow, p) and w.allow.get(p).exp < w.seq and w.allow.get(p).amt > 0)
                     w.lapsed.union(Set(p)) else w.lapsed,
           allow: w.allow.put(p, { amt: allowOf(w, p) + e, exp: w.seq + ALLOWANCE_LEDGERS }),
           bs: { ...w.bs, poolEmis: w.bs.poolEmis.put(p, 0) } }
  }

  // ---- depositor claims -----------------------------------------------------------
  type ClaimAcc = { w: World, total: int, amts: str -> int }
  /// BLND -> LP single sided join of the (mock) Comet pool
  pure def lpOut(w: World, blnd: int): int = mulF(blnd, w.cometRate, S7)

  pure def bClaim(w: World, frm: str, ps: List[str], rcv: str): World = {
    val w0 = need(w, "badreq", ps.length() > 0)
    if (not(w0.ok)) w0 else {
      val r = ps.foldl({ w: w0, total: 0, amts: Map() }, (acc, p) => {
        val w1 = accrue(acc.w, p, frm)
        val amt = if (w1.ok and has(w1.bs.eCfg, p)) owed(w1, p, frm) else 0
        { w: if (w1.ok and has(w1.bs.eCfg, p)) setUE(w1, p, frm, 0) else w1,
          total: acc.total + amt, amts: acc.amts.put(p, getOr(acc.amts, p, 0) + amt) } })
      if (not(r.w.ok) or r.total <= 0) { ...r.w, ret: r.total }
      else {
        val out = lpOut(r.w, r.total)
        val w2 = transfer(r.w, BLND, BACKSTOP, LP, r.total)
        val w3 = { ...mintTok(w2, LP, BACKSTOP, out), cometSupply: w2.cometSupply + out }
        { ...listToSet(ps).fold(w3, (acc, p) => {
            val a1 = accrue(acc, p, rcv)
            if (not(a1.ok)) a1 else {
              val dep = claimPart(out, r.amts.get(p), r.total)
              val b = pb(a1, p)
              val u = ub(a1, p, rcv)
              val mint = toShares(b, dep)
              emit(need(setUb(setPb(a1, p, depositTo(b, dep)),
                              p, rcv, { ...u, shares: u.shares + mint }), "range", not(isBad(mint))),
                   BACKSTOP, "deposit", List(p, rcv), List(dep, mint))
            } }),
          ret: r.total }
      }
    }
  }
}
