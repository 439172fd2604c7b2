/// One operation of the backstop from an arbitrary state of one pool and two depositors, each with up to two queued
/// withdrawals: all amounts and times are arbitrary integers.
module bsteps {
  import math.* from "../math"
  import types.* from "../types"
  import base.* from "../base"
  import shares.* from "../shares"
  import backstop.* from "../backstop"

  var w: World
  var u: str
  var amt: int
  pure val US = Set("u1", "u2")
  pure def world(now: int, b: PoolBal, ubal: (str, str) -> UserBal, bal: (str, str) -> int): World = {
    ok: true, why: "", ret: 0, ev: List(), now: now, seq: 0, bal: bal, allow: Map(), lapsed: Set(), price: Map(),
    cometSupply: 0, cometRate: 0, pools: Map(),
    bs: { poolBal: Map("p" -> b), userBal: ubal, rz: List(), lastDist: 0, poolEmis: Map(), eCfg: Map(), eData: Map(), uEmis: Map(),
          lpSet: false, lpBlnd: 0, lpUsdc: 0, drops: List() },
    em: { backstop: "backstop", token: "lp", last: Map(), dropped: Set(), swap: List() }, spare: Map(), fac: { pools: Set("p"), dep: List() } }
  pure def qSum(q: List[Q4W]): int = q.foldl(0, (acc, y) => acc + y.amount)
  pure def queued(x: World): int = qSum(ub(x, "p", "u1").q4w) + qSum(ub(x, "p", "u2").q4w)
  pure def held(x: World): int = ub(x, "p", "u1").shares + ub(x, "p", "u2").shares
  /// shares are exactly what depositors hold and have queued; the LP tokens held cover the pool's
  pure def inv(x: World): bool = {
    val b = pb(x, "p")
    and { b.q4w == queued(x), b.shares == queued(x) + held(x), b.tokens >= 0, balOf(x, LP, BACKSTOP) >= b.tokens,
          ub(x, "p", "u1").shares >= 0, ub(x, "p", "u2").shares >= 0, ordered(ub(x, "p", "u1").q4w), ordered(ub(x, "p", "u2").q4w) }
  }
  pure def ordered(q: List[Q4W]): bool = q.indices().forall(i => q[i].amount >= 0 and (i == 0 or q[i - 1].exp <= q[i].exp))
  action init = all {
    nondet now = oneOf(Int)
    nondet sh = oneOf(Int)
    nondet tk = oneOf(Int)
    nondet qd = oneOf(Int)
    nondet s1 = oneOf(Int)
    nondet s2 = oneOf(Int)
    nondet a1 = oneOf(Int)
    nondet a2 = oneOf(Int)
    nondet a3 = oneOf(Int)
    nondet e1 = oneOf(Int)
    nondet e2 = oneOf(Int)
    nondet e3 = oneOf(Int)
    nondet len = oneOf(Set(0, 1, 2))
    nondet bal = tuples(Set(LP), Set("backstop", "u1", "u2")).setOfMaps(Int).oneOf()
    nondet x = oneOf(US)
    nondet v = oneOf(Int)
    val q1 = List({ amount: a1, exp: e1 }, { amount: a2, exp: e2 })
    val st = world(now, { shares: sh, tokens: tk, q4w: qd }, Map(("p", "u1") -> { shares: s1, q4w: q1.slice(0, len) },
      ("p", "u2") -> { shares: s2, q4w: List({ amount: a3, exp: e3 }) }), bal)
    all { now >= 0, bal.keys().forall(k => bal.get(k) >= 0), inv(st), w' = st, u' = x, amt' = v }
  }
  action step = all { w' = w, u' = u, amt' = amt }
  pure def fits(x: World): bool = not(isBad(pb(x, "p").shares)) and not(isBad(pb(x, "p").tokens))
  pure def done(v: World, x: World): bool = x.ok and fits(x)
  pure def others(v: World, x: World, who: str): bool = US.exclude(Set(who)).forall(y => ub(v, "p", y) == ub(x, "p", y) and balOf(v, LP, y) == balOf(x, LP, y))
  pure def price(v: World, x: World): bool = {
    val a = pb(v, "p")
    val b = pb(x, "p")
    a.shares == 0 or b.tokens * a.shares >= a.tokens * b.shares }
  pure def lp(x: World): int = balOf(x, LP, BACKSTOP) + balOf(x, LP, "u1") + balOf(x, LP, "u2")

  val deposit = { val x = bDeposit(w, u, "p", amt) done(w, x) implies inv(x) }
  val depositFair = { val x = bDeposit(w, u, "p", amt) done(w, x) implies and { others(w, x, u), lp(x) == lp(w), x.ret > 0,
    ub(x, "p", u).shares == ub(w, "p", u).shares + x.ret } }
  val queue = { val x = bQueue(w, u, "p", amt) ub(w, "p", u).q4w.indices().forall(i => ub(w, "p", u).q4w[i].exp <= w.now + Q4W_LOCK) and done(w, x) implies inv(x) }
  val queueFair = { val x = bQueue(w, u, "p", amt) done(w, x) implies and { pb(x, "p").tokens == pb(w, "p").tokens, pb(x, "p").shares == pb(w, "p").shares, others(w, x, u), x.bal == w.bal } }
  val dequeued = { val x = bDequeue(w, u, "p", amt) done(w, x) implies inv(x) }
  val dequeueFair = { val x = bDequeue(w, u, "p", amt) done(w, x) implies and { pb(x, "p").tokens == pb(w, "p").tokens, others(w, x, u), x.bal == w.bal } }
  val withdraw = { val x = bWithdraw(w, u, "p", amt) done(w, x) implies inv(x) }
  val withdrawFair = { val x = bWithdraw(w, u, "p", amt) done(w, x) implies and { price(w, x), others(w, x, u), lp(x) == lp(w), ub(x, "p", u).shares == ub(w, "p", u).shares } }
  /// no share leaves the queue before its time
  val withdrawRipe = { val x = bWithdraw(w, u, "p", amt) done(w, x) implies amt <= ub(w, "p", u).q4w.foldl(0, (acc, y) => acc + (if (y.exp <= w.now) y.amount else 0)) }
  val donate = { val x = bDonate(w, u, "p", amt) done(w, x) implies inv(x) and price(w, x) and others(w, x, u) and lp(x) == lp(w) }
  val draw = { val x = bDraw(w, "p", amt, "u1") done(w, x) implies inv(x) and lp(x) == lp(w) and US.forall(y => ub(x, "p", y) == ub(w, "p", y)) }

  // must be refuted: a deposit never changes what a share is worth
  val wrongDeposit = { val x = bDeposit(w, u, "p", amt) done(w, x) implies pb(x, "p").tokens * pb(w, "p").shares == pb(w, "p").tokens * pb(x, "p").shares }
}
