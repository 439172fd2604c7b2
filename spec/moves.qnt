/// What a successful call moves, written from the properties' text and not from the rules of the specification: tokens, shares,
/// emissions. Evaluated on the steps of simulated behaviours like the rest of the properties (props.qnt).
module moves {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"
  import backstop.* from "./backstop"
  import reserve.* from "./reserve"
  import poolbase.* from "./poolbase"
  import admin.* from "./admin"
  import pool.* from "./pool"

  /// gained by an account
  pure def got(v: World, x: World, t: str, a: str): int = balOf(x, t, a) - balOf(v, t, a)
  pure def only(o: Op, rts: Set[int]): bool = if (o.op != "submit" or o.reqs.length() != 1) false else rts.contains(o.reqs[0].rt)
  pure def collOf(w: World, p: str, u: str, i: int): int = getOr(posOf(w, p, u).coll, i, 0)
  pure def liabOf(w: World, p: str, u: str, i: int): int = getOr(posOf(w, p, u).liab, i, 0)
  pure def supOf(w: World, p: str, u: str, i: int): int = getOr(posOf(w, p, u).sup, i, 0)
  pure def dTokens(v: World, x: World, p: str): int = pb(x, p).tokens - pb(v, p).tokens
  pure def dShares(v: World, x: World, p: str): int = pb(x, p).shares - pb(v, p).shares
  /// n is m/d within one
  pure def about(n: int, m: int, d: int): bool = n * d <= m + d and n * d >= m - d

  // ---- pool ------------------------------------------------------------------------------------
  /// one supply, withdrawal, loan or repayment: the shares are worth what is paid for them, rounded for the pool
  pure def requestMoves(v: World, o: Op, x: World): bool = if (not(only(o, Set(0, 1, 2, 3, 4, 5)))) true else {
    val p = o.s[0]
    val f = o.s[1]
    val r = o.reqs[0]
    val a = r.addr
    val d = poolOf(x, p).data.get(a)
    val i = poolOf(x, p).cfg.get(a).index
    val c = collOf(x, p, f, i) - collOf(v, p, f, i)
    val s = supOf(x, p, f, i) - supOf(v, p, f, i)
    val l = liabOf(x, p, f, i) - liabOf(v, p, f, i)
    val paid = -got(v, x, a, o.s[2])
    val out = got(v, x, a, o.s[3])
    val pool = got(v, x, a, p)
    and {
      o.s[2] == o.s[3] or paid >= 0 and out >= 0 and pool == paid - out,
      o.s[2] != o.s[3] or pool == paid,
      if (r.rt == 0) c == 0 and l == 0 and pool == r.amt and about(s, r.amt * S9, d.bRate) and s * d.bRate <= pool * S9
      else if (r.rt == 2) s == 0 and l == 0 and pool == r.amt and about(c, r.amt * S9, d.bRate) and c * d.bRate <= pool * S9
      else if (r.rt == 1) c == 0 and l == 0 and -pool <= r.amt and -s * d.bRate >= -pool * S9 and -s * d.bRate - imax(d.bRate, S9) < -pool * S9 and (-pool == r.amt or supOf(x, p, f, i) == 0)
      else if (r.rt == 3) s == 0 and l == 0 and -pool <= r.amt and -c * d.bRate >= -pool * S9 and -c * d.bRate - imax(d.bRate, S9) < -pool * S9 and (-pool == r.amt or collOf(x, p, f, i) == 0)
      else if (r.rt == 4) c == 0 and s == 0 and -pool == r.amt and l * d.dRate >= r.amt * S9 and about(l, r.amt * S9, d.dRate)
      else c == 0 and s == 0 and pool <= r.amt and -l * d.dRate <= pool * S9 and pool * S9 < -l * d.dRate + imax(d.dRate, S9) and (pool == r.amt or liabOf(x, p, f, i) == 0)
    }
  }
  /// the contract takes the percentage modulo 2^64
  pure def percent(o: Op): int = o.reqs[0].amt % 2^64
  /// share of a quantity left after one fill of pct percent, and the part of it that the time since the start leaves
  pure def leftOf(n: int, m: int, pct: int): bool = about(n, m * (100 - pct), 100)
  pure def lotPart(w: World, a: Auction): int = imin(200, w.seq - a.block)
  pure def bidPart(w: World, a: Auction): int = imax(0, imin(200, 400 - (w.seq - a.block)))
  pure def auctionLeft(v: World, x: World, p: str, k: (int, str), pct: int): bool = {
    val a = poolOf(v, p).auctions.get(k)
    if (not(has(poolOf(x, p).auctions, k))) pct == 100 or k._1 == 1 and posOf(x, p, BACKSTOP).liab.keys() == Set() or a.lot.keys().forall(t => a.lot.get(t) <= 100) and a.bid.keys().forall(t => a.bid.get(t) <= 100)
    else {
      val b = poolOf(x, p).auctions.get(k)
      and { b.block == a.block, pct < 100, a.lot.keys().forall(t => leftOf(getOr(b.lot, t, 0), a.lot.get(t), pct)),
            a.bid.keys().forall(t => leftOf(getOr(b.bid, t, 0), a.bid.get(t), pct)) }
    }
  }
  /// one fill of a liquidation: what one account loses the other gets, in proportion to the percentage and the time, and no tokens move
  pure def liquidates(v: World, o: Op, x: World): bool = if (not(only(o, Set(6)))) true else {
    val p = o.s[0]
    val f = o.s[1]
    val u = o.reqs[0].addr
    val pct = percent(o)
    val a = poolOf(v, p).auctions.get((0, u))
    and {
      f != u, pct >= 1, pct <= 100, v.seq >= a.block, v.bal == x.bal, auctionLeft(v, x, p, (0, u), pct),
      poolOf(v, p).cfg.keys().forall(t => {
        val i = poolOf(v, p).cfg.get(t).index
        val c = collOf(x, p, f, i) - collOf(v, p, f, i)
        val l = liabOf(x, p, f, i) - liabOf(v, p, f, i)
        and { c >= 0, l >= 0, c == collOf(v, p, u, i) - collOf(x, p, u, i), l == liabOf(v, p, u, i) - liabOf(x, p, u, i),
              supOf(x, p, f, i) == supOf(v, p, f, i), supOf(x, p, u, i) == supOf(v, p, u, i),
              c * 20000 <= getOr(a.lot, t, 0) * pct * lotPart(v, a), c * 20000 >= getOr(a.lot, t, 0) * pct * lotPart(v, a) - 2 * 20000,
              l * 20000 >= getOr(a.bid, t, 0) * pct * bidPart(v, a), l * 20000 <= getOr(a.bid, t, 0) * pct * bidPart(v, a) + 2 * 20000 }
      })
    }
  }
  /// one fill of a bad debt auction: the backstop's debt goes to the filler, who is paid out of the pool's backstop tokens; debt is
  /// written off only altogether
  pure def debtSold(v: World, o: Op, x: World): bool = if (not(only(o, Set(7)))) true else {
    val p = o.s[0]
    val f = o.s[1]
    val a = poolOf(v, p).auctions.get((1, BACKSTOP))
    val pct = percent(o)
    val paid = -dTokens(v, x, p)
    val lot = getOr(a.lot, LP, 0) * pct * lotPart(v, a)
    and {
      f == BACKSTOP or got(v, x, LP, f) == paid, dShares(v, x, p) == 0, paid * 20000 <= lot, paid * 20000 >= lot - 2 * 20000,
      auctionLeft(v, x, p, (1, BACKSTOP), pct),
      f == BACKSTOP or poolOf(v, p).cfg.keys().forall(t => {
        val i = poolOf(v, p).cfg.get(t).index
        val l = liabOf(x, p, f, i) - liabOf(v, p, f, i)
        val b = liabOf(v, p, BACKSTOP, i) - liabOf(x, p, BACKSTOP, i)
        val bid = getOr(a.bid, t, 0) * pct * bidPart(v, a)
        and { l >= 0, l * 20000 >= bid, l * 20000 <= bid + 2 * 20000,
              b == l or b > l and posOf(x, p, BACKSTOP).liab.keys() == Set() }
      }),
      posOf(x, p, BACKSTOP).liab.keys() != Set() or not(has(poolOf(x, p).auctions, (1, BACKSTOP)))
    }
  }
  /// one fill of an interest auction: the credit goes to the receiver, the bid from the filler into the pool's backstop
  pure def interestSold(v: World, o: Op, x: World): bool = if (not(only(o, Set(8)))) true else {
    val p = o.s[0]
    val a = poolOf(v, p).auctions.get((2, BACKSTOP))
    val pct = percent(o)
    val paid = dTokens(v, x, p)
    val bid = getOr(a.bid, LP, 0) * pct * bidPart(v, a)
    and {
      got(v, x, LP, o.s[1]) == -paid, got(v, x, LP, BACKSTOP) == paid, dShares(v, x, p) == 0, paid * 20000 >= bid, paid * 20000 <= bid + 2 * 20000,
      auctionLeft(v, x, p, (2, BACKSTOP), pct),
      poolOf(v, p).cfg.keys().forall(t => {
        val lot = getOr(a.lot, t, 0) * pct * lotPart(v, a)
        val out = -got(v, x, t, p)
        and { out >= 0, out * 20000 <= lot, out * 20000 >= lot - 2 * 20000,
              viewRes(x, p, t).credit == viewRes(v, p, t).credit - out }
      })
    }
  }
  /// a liquidation offers the stated share of every debt
  pure def liquidationBid(v: World, o: Op, x: World): bool = if (o.op != "new_liq") true else {
    val p = o.s[0]
    val a = poolOf(x, p).auctions.get((0, o.s[1]))
    val l = posOf(v, p, o.s[1]).liab
    and { o.s[1] != p, o.s[1] != BACKSTOP, o.n[0] >= 1, o.n[0] <= 100, not(has(poolOf(v, p).auctions, (0, o.s[1]))),
          l.keys().forall(i => { val b = getOr(a.bid, poolOf(v, p).resList[i], 0) b * 100 >= l.get(i) * o.n[0] and (b - 1) * 100 < l.get(i) * o.n[0] }) }
  }
  /// prices that decided a call were there and at most a day old
  pure def daily(w: World, p: str, a: str): bool = if (has(w.price, (poolOf(w, p).oracle, a))) w.price.get((poolOf(w, p).oracle, a)).t >= w.now - 86400 else false
  pure def priced(w: World, p: str, s: Set[int]): bool = s.forall(i => daily(w, p, poolOf(w, p).resList[i]))
  pure def fresh(v: World, o: Op, x: World): bool =
    if (o.op == "submit") {
      val q = posOf(x, o.s[0], o.s[1])
      val risky = o.reqs.foldl(false, (acc, r) => acc or Set(3, 4, 6, 7, 9).contains(r.rt))
      not(risky) or q.liab.keys() == Set() or priced(v, o.s[0], q.liab.keys().union(q.coll.keys()))
    }
    else if (o.op == "new_liq") { val q = posOf(v, o.s[0], o.s[1]) priced(v, o.s[0], q.liab.keys().union(q.coll.keys())) }
    else if (o.op == "new_bad_debt") priced(v, o.s[0], posOf(v, o.s[0], BACKSTOP).liab.keys())
    else if (o.op == "new_interest") poolOf(x, o.s[0]).auctions.get((2, BACKSTOP)).lot.keys().forall(t => daily(v, o.s[0], t))
    else true

  // ---- emissions ---------------------------------------------------------------------------------
  /// a claim pays what it returns, out of the allowance, and leaves nothing claimable behind it
  pure def claimed(v: World, o: Op, x: World): bool = if (o.op != "pclaim") true else {
    val p = o.s[0]
    val u = o.s[1]
    val ps = poolOf(x, p)
    and {
      o.s[2] == BACKSTOP or got(v, x, BLND, o.s[2]) == x.ret and got(v, x, BLND, BACKSTOP) == -x.ret,
      allowOf(x, p) == allowOf(v, p) - x.ret, x.ret >= 0,
      listToSet(o.n).forall(t => not(has(ps.eData, t)) or not(has(ps.uEmis, (u, t))) or ps.uEmis.get((u, t)) == { index: ps.eData.get(t).index, accrued: 0 }),
      poolOf(v, p).uEmis.keys().forall(k => k._1 == u and o.n.foldl(false, (acc, t) => acc or t == k._2) or ps.uEmis.get(k) == poolOf(v, p).uEmis.get(k)),
      ps.pos == poolOf(v, p).pos, ps.data == poolOf(v, p).data
    }
  }
  /// a backstop claim is paid in backstop tokens, all of them for the receiver and in the listed pools
  pure def bclaimed(v: World, o: Op, x: World): bool = if (o.op != "bclaim") true else {
    val ps = o.s.slice(2, o.s.length())
    val lp = got(v, x, LP, BACKSTOP)
    and {
      x.ret >= 0, got(v, x, BLND, BACKSTOP) == -x.ret, lp >= 0, x.ret > 0 or lp == 0,
      x.bs.poolBal.keys().fold(0, (acc, p) => acc + dTokens(v, x, p)) <= lp,
      x.bs.poolBal.keys().fold(0, (acc, p) => acc + dTokens(v, x, p)) >= lp - ps.length(),
      x.bs.poolBal.keys().forall(p => listHas(ps, p) or pb(v, p) == pb(x, p)),
      x.bs.userBal.keys().forall(k => k._2 == o.s[1] and listHas(ps, k._1) or x.bs.userBal.get(k) == ub(v, k._1, k._2)),
      listToSet(ps).forall(p => not(has(x.bs.eCfg, p)) or not(has(x.bs.uEmis, (p, o.s[0]))) or x.bs.uEmis.get((p, o.s[0])).accrued == 0)
    }
  }
  /// 30% of what is new to the pools of the reward zone and 70% to their depositors over a week, by size
  pure def split(v: World, o: Op, x: World): bool = if (o.op != "bgulp") true else {
    val n = v.bs.rz.length()
    val e = x.ret
    val total = v.bs.rz.foldl(0, (acc, p) => acc + nonQueuedTokens(v, p))
    val toPools = v.bs.rz.foldl(0, (acc, p) => acc + getOr(x.bs.poolEmis, p, 0) - getOr(v.bs.poolEmis, p, 0))
    and {
      e == (v.em.last.get(BACKSTOP) - v.bs.lastDist) * S7, e > 3600 * S7, x.bs.lastDist == v.em.last.get(BACKSTOP),
      10 * toPools <= 3 * e, 10 * toPools >= 3 * e - n * (e / S7 + 20) * 10,
      listToSet(v.bs.rz).forall(p => {
        val t = nonQueuedTokens(v, p)
        val add = getOr(x.bs.poolEmis, p, 0) - getOr(v.bs.poolEmis, p, 0)
        val c = x.bs.eCfg.get(p)
        val left = if (has(v.bs.eCfg, p) and v.bs.eCfg.get(p).exp > v.now) v.bs.eCfg.get(p).eps * (v.bs.eCfg.get(p).exp - v.now) else 0
        and { add * total * 10 <= 3 * e * t, (add + e / S7 + 2) * total * 10 >= 3 * e * t, c.exp == v.now + 7 * DAY,
              (c.eps * 7 * DAY - left) * total * 10 <= 7 * e * t, ((c.eps + 1) * 7 * DAY - left + e / S7 + 2) * total * 10 >= 7 * e * t } }),
      x.bs.eCfg.keys().forall(p => listHas(v.bs.rz, p) or has(v.bs.eCfg, p) and x.bs.eCfg.get(p) == v.bs.eCfg.get(p)),
      x.bs.poolEmis.keys().forall(p => listHas(v.bs.rz, p) or x.bs.poolEmis.get(p) == getOr(v.bs.poolEmis, p, 0))
    }
  }
  pure def nonQueuedTokens(w: World, p: str): int = {
    val b = pb(w, p)
    if (b.shares == 0) b.tokens else b.tokens - (if (b.q4w == 0) 0 else b.q4w * b.tokens / b.shares)
  }
  /// what a pool collects goes to its reserves by their shares, each over a week with what it had left
  pure def handedOut(v: World, o: Op, x: World): bool = if (o.op != "pgulp") true else {
    val p = o.s[0]
    val a = poolOf(v, p)
    val b = poolOf(x, p)
    and {
      x.ret == getOr(v.bs.poolEmis, p, 0), getOr(x.bs.poolEmis, p, 0) == 0, allowOf(x, p) == allowOf(v, p) + x.ret,
      a.emisShare.keys().forall(t => {
        val left = if (has(a.eCfg, t) and a.eCfg.get(t).exp > v.now) a.eCfg.get(t).eps * (a.eCfg.get(t).exp - v.now) else 0
        val new = b.eCfg.get(t).eps * 7 * DAY - left
        and { b.eCfg.get(t).exp == v.now + 7 * DAY, new * S7 <= x.ret * a.emisShare.get(t), (new + 7 * DAY + 1) * S7 >= x.ret * a.emisShare.get(t),
              b.eData.get(t).last == v.now } }),
      b.eCfg.keys().forall(t => has(a.emisShare, t) or has(a.eCfg, t) and a.eCfg.get(t) == b.eCfg.get(t)),
      b.pos == a.pos
    }
  }

  // ---- backstop ---------------------------------------------------------------------------------------
  pure def backstopMoves(v: World, o: Op, x: World): bool = {
    val k = o.op
    if (k == "bdeposit" or k == "bwithdraw" or k == "bqueue" or k == "bdequeue") {
      val u = o.s[0]
      val p = o.s[1]
      val n = o.n[0]
      val b = pb(v, p)
      val mine = ub(x, p, u).shares - ub(v, p, u).shares
      val queued = pb(x, p).q4w - b.q4w
      if (k == "bdeposit") and { got(v, x, LP, u) == -n, got(v, x, LP, BACKSTOP) == n, dTokens(v, x, p) == n, dShares(v, x, p) == x.ret, mine == x.ret, queued == 0,
        x.ret > 0, if (b.shares == 0) x.ret == n else x.ret * b.tokens <= n * b.shares and (x.ret + 1) * b.tokens > n * b.shares,
        x.fac.pools.contains(p) or b.shares > 0 }
      else if (k == "bwithdraw") and { got(v, x, LP, u) == x.ret, got(v, x, LP, BACKSTOP) == -x.ret, dTokens(v, x, p) == -x.ret, dShares(v, x, p) == -n, mine == 0, queued == -n,
        x.ret * b.shares <= n * b.tokens, (x.ret + 1) * b.shares > n * b.tokens }
      else and { v.bal == x.bal, dTokens(v, x, p) == 0, dShares(v, x, p) == 0, n >= 0,
        if (k == "bqueue") mine == -n and queued == n and x.ret == v.now + 21 * DAY else mine == n and queued == -n }
    }
    else if (k == "bdonate") and { got(v, x, LP, o.s[0]) == -o.n[0], got(v, x, LP, BACKSTOP) == o.n[0], dTokens(v, x, o.s[1]) == o.n[0], dShares(v, x, o.s[1]) == 0, o.s[0] != o.s[1] }
    else if (k == "bdraw") and { o.s[1] == BACKSTOP or got(v, x, LP, o.s[1]) == o.n[0] and got(v, x, LP, BACKSTOP) == -o.n[0], dTokens(v, x, o.s[0]) == -o.n[0],
      dShares(v, x, o.s[0]) == 0, o.n[0] <= pb(v, o.s[0]).tokens }
    else true
  }
  /// a pool enters the reward zone large enough, and in place of another only if it is larger and that one has been paid
  pure def admitted(v: World, o: Op, x: World): bool = if (o.op != "badd_reward") x.bs.rz == v.bs.rz else {
    val a = listToSet(v.bs.rz)
    val b = listToSet(x.bs.rz)
    val m = poolData(v, o.s[0])
    and {
      not(a.contains(o.s[0])), b.exclude(a) == Set(o.s[0]), (m.blnd / S7)^4 * (m.usdc / S7) >= 200000^5,
      a.subseteq(b) and v.bs.rz.length() < 10 + (if (v.now < RZ_EPOCH) 0 else (v.now - RZ_EPOCH) / 8388608)
        or a.exclude(b) == Set(o.s[1]) and pb(v, o.s[1]).tokens < pb(v, o.s[0]).tokens and v.bs.lastDist >= v.now - DAY
           and v.bs.rz.length() >= 10 + (if (v.now < RZ_EPOCH) 0 else (v.now - RZ_EPOCH) / 8388608)
    }
  }
  /// the value of the backstop token is what the liquidity pool holds per share
  pure def valued(v: World, o: Op, x: World): bool =
    if (o.op != "bupdate_val") and { x.bs.lpSet == v.bs.lpSet, x.bs.lpBlnd == v.bs.lpBlnd, x.bs.lpUsdc == v.bs.lpUsdc }
    else and { x.bs.lpSet, x.bs.lpBlnd * v.cometSupply <= balOf(v, BLND, LP) * S7, (x.bs.lpBlnd + 1) * v.cometSupply > balOf(v, BLND, LP) * S7,
               x.bs.lpUsdc * v.cometSupply <= balOf(v, USDC, LP) * S7, (x.bs.lpUsdc + 1) * v.cometSupply > balOf(v, USDC, LP) * S7 }
  /// a drop pays exactly its list
  pure def dropped(v: World, o: Op, x: World): bool =
    if (o.op == "edrop") listToSet(o.s).forall(a => got(v, x, BLND, a) == o.s.indices().fold(0, (acc, i) => if (o.s[i] == a) acc + o.n[i] else acc))
    else if (o.op == "bdrop") x.bs.drops == v.bs.drops and v.bs.drops.foldl(true, (acc, d) => acc and got(v, x, BLND, d._1) == v.bs.drops.foldl(0, (sum, e) => if (e._1 == d._1) sum + e._2 else sum))
    else true
}
