/// The emitter: 1 BLND per second to the current backstop, the backstop swap
/// procedure, and the one-off drop.
module emitter {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"

  pure val SWAP_LOCK = 31 * DAY
  pure val DROP_MAX = 50000000 * S7

  pure def emDistribute(w: World): World = {
    val b = w.em.backstop
    val amt = (w.now - w.em.last.get(b)) * S7
    { ...mintTok({ ...w, em: { ...w.em, last: w.em.last.put(b, w.now) } }, BLND, b, amt), ret: amt }
  }
  /// candidate holds strictly more of the current backstop token
  pure def isLarger(w: World, cand: str): bool =
    balOf(w, w.em.token, cand) > balOf(w, w.em.token, w.em.backstop)

  pure def emQueueSwap(w: World, nb: str, nt: str): World =
    if (not(w.ok) or w.em.swap.length() > 0) bail(w, "exists")
    else if (not(isLarger(w, nb))) bail(w, "larger")
    else { ...w, em: { ...w.em, swap: List({ nb: nb, nt: nt, unlock: w.now + SWAP_LOCK }) } }

  pure def emCancelSwap(w: World): World =
    if (not(w.ok) or w.em.swap.length() == 0) bail(w, "notqueued")
    else if (isLarger(w, w.em.swap[0].nb)) bail(w, "larger")
    else { ...w, em: { ...w.em, swap: List() } }

  pure def emSwap(w: World): World =
    if (not(w.ok) or w.em.swap.length() == 0) bail(w, "notqueued")
    else {
      val s = w.em.swap[0]
      if (s.unlock > w.now) bail(w, "locked")
      else if (not(isLarger(w, s.nb))) bail(w, "larger")
      else {
        val w1 = emDistribute(w)
        { ...w1, ret: 0, em: { ...w1.em, swap: List(), backstop: s.nb, token: s.nt,
                       last: w1.em.last.put(s.nb, w.now) } }
      }
    }

  pure def emDrop(w: World, l: List[(str, int)]): World = {
    val total = l.foldl(0, (acc, x) => acc + x._2)
    if (not(w.ok) or w.em.dropped.contains(w.em.backstop) or total > DROP_MAX) bail(w, "drop")
    else {
      val w1 = l.foldl(w, (acc, x) => mintTok(acc, BLND, x._1, x._2))
      { ...w1, em: { ...w1.em, dropped: w1.em.dropped.union(Set(w1.em.backstop)) } }
    }
  }
}
