/// What accounts are worth, what interest and emissions they earn, and who may do what when: restated from the properties'
/// text in exact fractions and literal numbers, for comparison with the specification's rules (props.qnt).
module economics {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"
  import backstop.* from "./backstop"
  import reserve.* from "./reserve"
  import poolbase.* from "./poolbase"
  import admin.* from "./admin"
  import pool.* from "./pool"

  // ---- interest ----------------------------------------------------------------------------------
  pure val E18 = 10^18
  /// the yearly rate at utilization u (18 decimals): three slopes, the first two times the modifier
  pure def curve(c: ResCfg, m: int, u: int): int = {
    val t = c.util * 10^11
    if (u <= t) (c.rBase * 10^11 + (if (t == 0) 0 else c.r1 * 10^11 * u / t)) * m / S9
    else if (u <= 95 * 10^16) ((c.rBase + c.r1) * 10^11 + c.r2 * 10^11 * (u - t) / (95 * 10^16 - t)) * m / S9
    else (c.rBase + c.r1 + c.r2) * 10^11 * m / S9 + c.r3 * 10^11 * (u - 95 * 10^16) / (5 * 10^16)
  }
  pure def sold8(o: Op): bool = if (o.op != "submit") false else o.reqs.foldl(false, (acc, r) => acc or r.rt == 8)
  /// interest since the reserve's last use, once, at the prescribed rate; the take rate's part of it is the backstop's
  pure def accrued(v: World, o: Op, x: World, p: str, a: str): bool = {
    val d = poolOf(v, p).data.get(a)
    val e = poolOf(x, p).data.get(a)
    val c = poolOf(v, p).cfg.get(a)
    val dt = e.lastT - d.lastT
    // whoever uses a reserve, or changes its settings, brings it up to date first
    val used = d.bSup != e.bSup or d.dSup != e.dSup or (o.op == "set_res" and o.s[0] == p and o.s[1] == a)
      or poolOf(v, p).rate != poolOf(x, p).rate
    if (used and e.lastT != x.now) false
    else if (dt == 0) e.dRate == d.dRate and e.bRate == d.bRate and (sold8(o) or e.credit == d.credit)
    else if (d.bSup == 0 or d.dSup == 0 or d.bSup * d.bRate < S9) e.lastT == x.now and e.dRate == d.dRate and e.bRate == d.bRate and (sold8(o) or e.credit == d.credit)
    else {
      val u = cdiv(d.dSup * d.dRate, S9) * E18 / fdiv(d.bSup * d.bRate, S9)
      val lo = curve(c, d.irMod, u)
      val hi = curve(c, d.irMod, u + 2 * 10^11) + (d.irMod / S9 + 2) * 4 * 10^11
      val grown = d.dSup * (e.dRate - d.dRate)
      val t = c.util * 10^11
      val target = d.irMod + dt * (u - t) * c.react / 10^16
      val slack = 3 + dt * c.react / 20000
      and {
        e.lastT == x.now,
        (e.dRate - d.dRate) * E18 * YEAR * S9 >= d.dRate * lo * (dt * S9 - YEAR) - E18 * YEAR * S9,
        (e.dRate - d.dRate - 2) * E18 * YEAR <= d.dRate * (hi * dt + 2 * E18 * YEAR / S9),
        iabs(grown - d.bSup * (e.bRate - d.bRate) - (if (sold8(o)) grown * poolOf(v, p).rate / S7 else S9 * (e.credit - d.credit))) <= d.bSup + 6 * S9,
        sold8(o) or iabs((e.credit - d.credit) * S9 * S7 - poolOf(v, p).rate * grown) <= 4 * S9 * S7,
        if (o.op == "set_res" and e.irMod == S9) true
        else e.irMod >= imax(S9 / 10, imin(10 * S9, target - slack)) and e.irMod <= imin(10 * S9, imax(S9 / 10, target + slack))
      }
    }
  }
  pure def accrues(v: World, o: Op, x: World): bool =
    v.pools.keys().forall(p => poolOf(v, p).cfg.keys().forall(a => accrued(v, o, x, p, a)))

  // ---- what positions are worth ------------------------------------------------------------------------
  /// collateral and debt, weighted by their factors and not (tokens in whole units), 18 decimals more than the oracle's;
  /// the value of one unit of each token held
  type Worth = { cb: int, cr: int, lb: int, lr: int, grain: int }
  pure def worth(w: World, p: str, x: Pos): Worth =
    poolOf(w, p).cfg.keys().fold({ cb: 0, cr: 0, lb: 0, lr: 0, grain: 0 }, (acc, a) => {
      val k = poolOf(w, p).cfg.get(a)
      val coll = getOr(x.coll, k.index, 0)
      val debt = getOr(x.liab, k.index, 0)
      if (coll == 0 and debt == 0) acc else {
        val d = viewRes(w, p, a)
        val unit = priceOf(w, poolOf(w, p).oracle, a) * 10^(18 - k.dec)
        val cr = unit * fdiv(coll * d.bRate, S9)
        val lr = unit * cdiv(debt * d.dRate, S9)
        { cb: acc.cb + cdiv(cr * k.cf, S7), cr: acc.cr + cr, lb: acc.lb + (if (debt == 0) 0 else lr * S7 / k.lf), lr: acc.lr + lr, grain: acc.grain + 2 * unit }
      }
    })
  /// after a call that asks for it, collateral exceeds debt by the required margin
  pure def covered(v: World, o: Op, x: World): bool =
    if (o.op != "submit") true
    else if (not(o.reqs.foldl(false, (acc, r) => acc or Set(3, 4, 6, 7, 9).contains(r.rt)))) true
    else if (posOf(x, o.s[0], o.s[1]).liab.keys() == Set()) true
    else {
      val d = worth(x, o.s[0], posOf(x, o.s[0], o.s[1]))
      d.cb * 10000000 >= d.lb * 10000100
    }
  pure def coarse(w: World, p: str, x: Pos): bool = x.coll.keys().exists(i => x.coll.get(i) < 1000000) or x.liab.keys().exists(i => x.liab.get(i) < 1000000)
  /// a partial liquidation leaves the account between 1.03 and 1.15, a full one needs it that deep under water; the lot is the
  /// collateral worth the debt taken and half of what the factors leave between them
  pure def rightSized(v: World, o: Op, x: World): bool = if (o.op != "new_liq") true else {
    val p = o.s[0]
    val q = posOf(v, p, o.s[1])
    val a = poolOf(x, p).auctions.get((0, o.s[1]))
    val d = worth(v, p, q)
    val unit = 10^18 * 10
    pure def rest(m, cut) = m.keys().mapBy(i => m.get(i) - getOr(cut, poolOf(v, p).resList[i], 0))
    val r = worth(v, p, { ...q, coll: rest(q.coll, a.lot), liab: rest(q.liab, a.bid) })
    // 1 + (1 - collateral factor / liability factor) / 2, over 2 * cr * lb
    val inc = 3 * d.cr * d.lb - d.cb * d.lr
    // where a token's base unit, or the 7 decimals of the contract's percentages, are not small against the amounts
    val small = d.lr < 10000000 * unit or d.cr < 10000000 * unit or o.n[0] * d.lr * 10 < d.cr or coarse(v, p, q)
    val share = o.n[0] * d.lr * inc
    val base = 200 * d.cr * d.lb * d.cr
    and {
      d.lb + d.grain + unit >= d.cb,
      if (o.n[0] == 100) small or d.lr * inc * 10000 >= 2 * d.cr * d.cr * d.lb * 9999
      else small or and { r.cb * 100 <= r.lb * 115 + r.lb / 10000 + 115 * unit, r.cb * 100 >= r.lb * 103 - r.lb / 10000 - 115 * unit },
      small or q.coll.keys().forall(i => {
        val c = q.coll.get(i)
        val lot = getOr(a.lot, poolOf(v, p).resList[i], 0)
        and { lot <= c, lot == c or lot * base * 10000 >= c * share * 9999 - base * 20000, lot * base * 10000 <= c * share * 10001 + base * 20000 } })
    }
  }
  /// value of an amount, in the oracle's base asset and its decimals, and of one backstop token
  pure def valueOf(w: World, p: str, a: str, n: int): int = priceOf(w, poolOf(w, p).oracle, a) * n / 10^poolOf(w, p).cfg.get(a).dec
  /// n backstop tokens are worth 1.4 times `value`; undecided where the contract's own rounding is coarse
  pure def worth14(w: World, p: str, n: int, value: int): bool = {
    val s = oracleScalar(poolOf(w, p).oracle)
    val one = 5 * w.bs.lpUsdc * s
    val got = n * one * 10
    val due = value * 14 * S7 * S7
    if (one < 100000 * S7 or pb(w, p).tokens * w.bs.lpUsdc < 100000 * S7) true
    else iabs(got - due) * 1000 <= due + one * 20000 + 14000 * S7 * S7
  }
  /// what is offered is still there to be sold: the credit, or the backstop's debt
  pure def offered(x: World): bool = x.pools.keys().forall(p => and {
    not(has(poolOf(x, p).auctions, (2, BACKSTOP))) or poolOf(x, p).auctions.get((2, BACKSTOP)).lot.keys().forall(t =>
      poolOf(x, p).auctions.get((2, BACKSTOP)).lot.get(t) <= viewRes(x, p, t).credit),
    not(has(poolOf(x, p).auctions, (1, BACKSTOP))) or poolOf(x, p).auctions.get((1, BACKSTOP)).bid.keys().forall(t =>
      poolOf(x, p).auctions.get((1, BACKSTOP)).bid.get(t) <= getOr(posOf(x, p, BACKSTOP).liab, poolOf(x, p).cfg.get(t).index, 0)) })
  pure def priceTags(v: World, o: Op, x: World): bool = {
    val p = o.s[0]
    if (o.op == "new_interest") {
      val a = poolOf(x, p).auctions.get((2, BACKSTOP))
      val value = a.lot.keys().fold(0, (acc, t) => acc + valueOf(v, p, t, a.lot.get(t)))
      and { not(has(poolOf(v, p).auctions, (2, BACKSTOP))), value > 200 * oracleScalar(poolOf(v, p).oracle), worth14(v, p, a.bid.get(LP), value),
            a.bid.keys() == Set(LP), a.lot.keys().forall(t => a.lot.get(t) == viewRes(v, p, t).credit and a.lot.get(t) > 0) }
    } else if (o.op == "new_bad_debt") {
      val a = poolOf(x, p).auctions.get((1, BACKSTOP))
      val q = posOf(v, p, BACKSTOP).liab
      val value = a.bid.keys().fold(0, (acc, t) => acc + valueOf(v, p, t, cdiv(a.bid.get(t) * viewRes(v, p, t).dRate, S9)))
      val n = a.lot.get(LP)
      and { not(has(poolOf(v, p).auctions, (1, BACKSTOP))), n <= pb(v, p).tokens, a.lot.keys() == Set(LP),
            n == pb(v, p).tokens or worth14(v, p, n, value), q.keys().size() == a.bid.keys().size(),
            q.keys().forall(i => getOr(a.bid, poolOf(v, p).resList[i], 0) == q.get(i)) }
    } else true
  }
  /// the backstop is worth less than 5% of the minimum
  pure def nearlyGone(w: World, p: str): bool = {
    val m = poolData(w, p)
    (m.blnd / S7)^4 * (m.usdc / S7) * 10000000 < 3 * 200000^5
  }
  /// bad debt moves whole, from an account that has nothing else; it is written off only when the backstop is nearly gone
  pure def badMoved(v: World, o: Op, x: World): bool = {
    val p = o.s[0]
    if (o.op == "bad_debt") {
      val q = posOf(v, p, o.s[1])
      val r = posOf(x, p, o.s[1])
      and { o.s[1] != BACKSTOP, q.coll.keys() == Set(), q.liab.keys() != Set(), r.liab.keys() == Set(), r.sup == q.sup, r.coll.keys() == Set(),
            poolOf(v, p).cfg.keys().forall(a => { val i = poolOf(v, p).cfg.get(a).index
              getOr(posOf(x, p, BACKSTOP).liab, i, 0) == getOr(posOf(v, p, BACKSTOP).liab, i, 0) + getOr(q.liab, i, 0) }) }
    }
    else if (o.op == "submit" and o.reqs.length() == 1) (if (o.reqs[0].rt != 7) true else {
      val gone = poolOf(v, p).cfg.keys().exists(a => { val i = poolOf(v, p).cfg.get(a).index
        getOr(posOf(v, p, BACKSTOP).liab, i, 0) - getOr(posOf(x, p, BACKSTOP).liab, i, 0) >
          getOr(posOf(x, p, o.s[1]).liab, i, 0) - getOr(posOf(v, p, o.s[1]).liab, i, 0) })
      if (gone) nearlyGone(x, p) else posOf(x, p, BACKSTOP).liab.keys() == Set() or not(nearlyGone(x, p)) })
    else true
  }

  // ---- emissions ---------------------------------------------------------------------------------------
  pure def mine(w: World, p: str, t: int, u: str): int = {
    val q = posOf(w, p, u)
    if (t % 2 == 0) getOr(q.liab, t / 2, 0) else getOr(q.coll, t / 2, 0) + getOr(q.sup, t / 2, 0)
  }
  pure def everyone(w: World, p: str, t: int): int = {
    val d = poolOf(w, p).data.get(poolOf(w, p).resList[t / 2])
    if (t % 2 == 0) d.dSup else d.bSup
  }
  pure def scale(w: World, p: str, t: int): int = scalarOf(poolOf(w, p).cfg.get(poolOf(w, p).resList[t / 2]))
  /// what a claim would pay now
  pure def claimable(w: World, p: str, t: int, u: str): int =
    if (not(has(poolOf(w, p).eCfg, t))) 0
    else peOwed(peUpd({ ...w, ok: true }, p, t, everyone(w, p, t), scale(w, p, t)), p, t, scale(w, p, t), u, mine(w, p, t, u))
  pure def passed(c: EmisCfg, start: int, end: int): int = imax(0, imin(end, c.exp) - imin(start, c.exp))
  /// a claim pays all that is due for the listed reserves, rounded down
  pure def paysDue(v: World, o: Op, x: World): bool = if (o.op != "pclaim") true else {
    val p = o.s[0]
    val u = o.s[1]
    x.ret == listToSet(o.n).fold(0, (acc, t) => if (not(has(poolOf(x, p).eCfg, t))) acc else {
      val had = getOr(poolOf(v, p).uEmis, (u, t), { index: 0, accrued: 0 })
      acc + had.accrued + fdiv(mine(v, p, t, u) * (poolOf(x, p).eData.get(t).index - had.index), scale(v, p, t)) })
  }
  /// time pays each holder its part of what is emitted; nothing else changes what is claimable, but claiming it
  pure def earns(v: World, o: Op, x: World): bool = paysDue(v, o, x) and v.pools.keys().forall(p => poolOf(v, p).eCfg.keys().forall(t => {
    val whole = everyone(v, p, t)
    val c = poolOf(v, p).eCfg.get(t)
    val out = c.eps * passed(c, v.now, x.now)
    if (whole == 0) true
    else poolOf(v, p).pos.keys().union(poolOf(x, p).pos.keys()).forall(u => {
      val had = claimable(v, p, t, u)
      val has1 = claimable(x, p, t, u)
      val n = mine(v, p, t, u)
      if (o.op == "pclaim" and o.s[0] == p and o.s[1] == u and o.n.foldl(false, (acc, k) => acc or k == t)) has1 == 0
      else if (v.now == x.now) has1 <= had and has1 >= had - 2
      else and { (has1 - had) * whole <= n * out + whole * (n / scale(v, p, t) + 2), (has1 - had) * whole >= n * out - whole * (n / scale(v, p, t) + 2) }
    })
  }))
  pure def bclaimable(w: World, p: str, u: str): int =
    if (has(w.bs.eCfg, p)) owed(updEmis({ ...w, ok: true }, p), p, u) else 0
  pure def bearns(v: World, o: Op, x: World): bool = v.bs.eCfg.keys().forall(p => {
    val whole = pb(v, p).shares - pb(v, p).q4w
    val c = v.bs.eCfg.get(p)
    val out = c.eps * passed(c, v.now, x.now)
    if (whole == 0) true
    else v.bs.userBal.keys().forall(k => if (k._1 != p) true else {
      val had = bclaimable(v, p, k._2)
      val has1 = bclaimable(x, p, k._2)
      val n = ub(v, p, k._2).shares
      if (o.op == "bclaim" and o.s[0] == k._2 and listHas(o.s.slice(2, o.s.length()), p)) has1 == 0
      else if (v.now == x.now) has1 <= had and has1 >= had - 2
      else and { (has1 - had) * whole <= n * out + whole * (n / S7 + 2), (has1 - had) * whole >= n * out - whole * (n / S7 + 2) }
    })
  })

  // ---- status and configuration -------------------------------------------------------------------------
  pure def mayAsk(st: int, rt: int): bool =
    if (st == 0 or st == 1) true
    else if (st == 2 or st == 3) rt != 4 and rt != 9
    else rt != 4 and rt != 9 and rt != 0 and rt != 2
  pure def statusMoves(v: World, o: Op, x: World): bool = if (o.op != "update_status" and o.op != "set_status") true else {
    val p = o.s[0]
    val b = pb(v, p)
    // in millionths of a percent, rounded up
    val q = if (b.shares == 0) 0 else (b.q4w * S7 + b.shares - 1) / b.shares
    val m = poolData(v, p)
    val met = (m.blnd / S7)^4 * (m.usdc / S7) >= 200000^5
    val was = poolOf(v, p).status
    val is = poolOf(x, p).status
    if (o.op == "set_status") is == o.n[0] and (if (is == 0) met and q < 5000000 else if (is == 2 or is == 3) q < 7500000 else is == 4)
    else if (was == 2) is == (if (q >= 7500000) 5 else 2)
    else if (was == 0) is == (if (q >= 5000000 or not(met)) 3 else 0)
    else (was == 1 or was == 3 or was == 5) and is == (if (q >= 6000000) 5 else if (q >= 3000000 or not(met)) 3 else 1)
  }
  /// within the documented bounds
  pure def sound(c: ResCfg): bool = and {
    c.dec >= 0, c.dec <= 18, c.cf <= 10000000, c.lf <= 10000000, c.util <= 9500000, c.util < c.maxUtil, c.maxUtil <= 10000000,
    c.rBase >= 1000, c.rBase < 10000000, c.r1 <= c.r2, c.r2 <= c.r3, c.react <= 1000 }
}
