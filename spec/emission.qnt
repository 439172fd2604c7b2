/// Emission arithmetic shared by pools and backstop: an index per unit of supply, a rate over seven days.
module emission {
  import math.* from "./math"
  import types.* from "./types"

  /// what the index grows by when `tokens` are shared among `supply`
  pure def idxAdd(tokens: int, supply: int, scalar: int): int = divF(tokens, supply, scalar)
  /// what a holder of `bal` earns while the index grows by `d`
  pure def earned(bal: int, d: int, scalar: int): int = mulF(bal, d, scalar)
  /// the rate that spends new tokens and what is left over seven days
  pure def newEps(tokens: int, left: int): int = (tokens + left) / (7 * DAY)
  pure def undistributed(c: EmisCfg, now: int): int = if (c.exp > now) c.eps * (c.exp - now) else 0
  /// the part of `amt` due to something with `x` of `total`
  pure def portion(x: int, total: int): int = divF(x, total, S7)
  pure def partOf(share: int, amt: int): int = mulF(share, amt, S7)
  /// the part of `out` due to a claim of `amt` out of `total`
  pure def claimPart(out: int, amt: int, total: int): int = mulF(out, amt, total)
}
