/// Backstop shares of one pool and the queue of one depositor, as numbers.
module shares {
  import math.* from "./math"
  import types.* from "./types"

  /// shares minted for `t` tokens / tokens returned for `s` shares
  pure def toShares(b: PoolBal, t: int): int =
    if (b.shares == 0) t else mulF(t, b.shares, b.tokens)
  pure def toTokens(b: PoolBal, s: int): int =
    if (b.shares == 0) s else mulF(s, b.tokens, b.shares)
  pure def nonQueued(b: PoolBal): int = b.tokens - toTokens(b, b.q4w)

  // ---- what an operation does to the pool's totals ---------------------------------------
  pure def depositTo(b: PoolBal, t: int): PoolBal = { ...b, tokens: b.tokens + t, shares: b.shares + toShares(b, t) }
  pure def withdrawFrom(b: PoolBal, s: int): PoolBal =
    { tokens: b.tokens - toTokens(b, s), shares: b.shares - s, q4w: b.q4w - s }
  pure def donateTo(b: PoolBal, t: int): PoolBal = { ...b, tokens: b.tokens + t }
  pure def drawFrom(b: PoolBal, t: int): PoolBal = { ...b, tokens: b.tokens - t }

  type DeqR = { q: List[Q4W], left: int, ok: bool, done: bool }
  /// consume `amt` from the front of the queue; entries not expired block when `expired`
  pure def dequeue(q: List[Q4W], amt: int, expired: bool, now: int): DeqR = {
    val r = q.foldl({ q: List(), left: amt, ok: true, done: false }, (acc, x) =>
      if (acc.done or not(acc.ok)) { ...acc, q: acc.q.append(x) }
      else if (expired and x.exp > now) { ...acc, ok: false }
      else if (x.amount > acc.left)
        { ...acc, q: acc.q.append({ ...x, amount: x.amount - acc.left }), left: 0, done: true }
      else if (x.amount == acc.left) { ...acc, left: 0, done: true }
      else { ...acc, left: acc.left - x.amount })
    { ...r, ok: r.ok and r.left == 0 }
  }
}
