/// One operation of the emitter from an arbitrary state: times, balances and amounts are arbitrary integers; who is the
/// backstop, who is queued and whether somebody is queued at all is arbitrary among three addresses.
module steps {
  import math.* from "../math"
  import types.* from "../types"
  import base.* from "../base"
  import emitter.* from "../emitter"

  var w: World
  var n: str
  var t: str
  pure val BS = Set("backstop", "bs2", "bs3")
  pure def world(now: int, em: EmS, bal: (str, str) -> int): World = {
    ok: true, why: "", ret: 0, ev: List(), now: now, seq: 0, bal: bal, allow: Map(), lapsed: Set(), price: Map(),
    cometSupply: 0, cometRate: 0, pools: Map(),
    bs: { poolBal: Map(), userBal: Map(), rz: List(), lastDist: 0, poolEmis: Map(), eCfg: Map(), eData: Map(), uEmis: Map(),
          lpSet: false, lpBlnd: 0, lpUsdc: 0, drops: List() },
    em: em, spare: Map(), fac: { pools: Set(), dep: List() } }
  action init = all {
    nondet now = oneOf(Int)
    nondet b = oneOf(BS)
    nondet tok = oneOf(Set("lp", "lp2"))
    nondet last = BS.setOfMaps(Int).oneOf()
    nondet bal = tuples(Set("lp", "lp2", "blnd"), BS).setOfMaps(Int).oneOf()
    nondet q = oneOf(BS)
    nondet qt = oneOf(Set("lp", "lp2"))
    nondet at = oneOf(Int)
    nondet some = oneOf(Bool)
    nondet dropped = BS.powerset().oneOf()
    nondet nb = oneOf(BS)
    nondet nt = oneOf(Set("lp", "lp2"))
    all {
      now >= 0, BS.forall(x => last.get(x) >= 0 and last.get(x) <= now), bal.keys().forall(k => bal.get(k) >= 0),
      w' = world(now, { backstop: b, token: tok, last: last, dropped: dropped, swap: if (some) List({ nb: q, nt: qt, unlock: at }) else List() }, bal),
      n' = nb, t' = nt }
  }
  action step = all { w' = w, n' = n, t' = t }
  pure def minted(v: World, x: World): int = BS.fold(0, (acc, k) => acc + balOf(x, BLND, k) - balOf(v, BLND, k))

  // a distribution mints one BLND per second since the last one, all of it to the current backstop
  val distribute = { val x = emDistribute(w) x.ok implies and {
    minted(w, x) == (w.now - w.em.last.get(w.em.backstop)) * S7, balOf(x, BLND, w.em.backstop) - balOf(w, BLND, w.em.backstop) == minted(w, x),
    x.em.last.get(w.em.backstop) == w.now, { ...x.em, last: w.em.last } == w.em } }
  // nothing is minted twice for the same seconds
  val again = { val x = emDistribute(w) x.ok implies minted(x, emDistribute(x)) == 0 }
  val swapPays = { val x = emSwap(w) x.ok implies minted(w, x) == (w.now - w.em.last.get(w.em.backstop)) * S7
    and balOf(x, BLND, w.em.backstop) - balOf(w, BLND, w.em.backstop) == minted(w, x) }
  val swapStarts = { val x = emSwap(w) x.ok implies x.em.last.get(x.em.backstop) == w.now }
  val swapDue = { val x = emSwap(w) x.ok implies and { w.em.swap.length() == 1, w.em.swap[0].unlock <= w.now, isLarger(w, w.em.swap[0].nb),
    x.em.backstop == w.em.swap[0].nb, x.em.token == w.em.swap[0].nt, x.em.swap.length() == 0, w.em.swap[0].nb != w.em.backstop } }
  val queueDue = { val x = emQueueSwap(w, n, t) x.ok implies and { w.em.swap.length() == 0, isLarger(w, n), x.em.swap.length() == 1,
    x.em.swap[0].unlock == w.now + 31 * DAY, x.em.backstop == w.em.backstop, minted(w, x) == 0 } }
  val cancelDue = { val x = emCancelSwap(w) x.ok implies and { w.em.swap.length() == 1, not(isLarger(w, w.em.swap[0].nb)), x.em.swap.length() == 0,
    x.em.backstop == w.em.backstop, minted(w, x) == 0 } }
  // a queued candidate that stays larger cannot be called off, one that is not cannot take over
  val either = w.em.swap.length() == 1 implies not(emCancelSwap(w).ok and emSwap(w).ok)
  val drop = { val x = emDrop(w, List((n, 3 * S7), ("bs2", 7))) x.ok implies and { not(w.em.dropped.contains(w.em.backstop)),
    x.em.dropped == w.em.dropped.union(Set(w.em.backstop)), minted(w, x) == 3 * S7 + 7, x.em.last == w.em.last } }

  // must be refuted: a swap pays the new backstop
  val wrongSwap = { val x = emSwap(w) x.ok implies balOf(x, BLND, x.em.backstop) - balOf(w, BLND, x.em.backstop) == minted(w, x) }
}
