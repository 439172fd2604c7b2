/// Access to a pool's state.
module poolbase {
  import math.* from "./math"
  import types.* from "./types"
  import reserve.* from "./reserve"

  pure val NOPOS: Pos = { liab: Map(), coll: Map(), sup: Map() }
  pure val MIN_HF = 10000100          // 1.00001
  pure val POST_LIQ_MAX = 11500000    // 1.15
  pure val POST_LIQ_MIN = 10300000    // 1.03
  pure val BURN_BELOW = 3             // threshold^5 below which bad debt is burnt

  pure def poolOf(w: World, p: str): PoolS = w.pools.get(p)
  pure def setPool(w: World, p: str, x: PoolS): World = { ...w, pools: w.pools.put(p, x) }
  pure def posOf(w: World, p: str, u: str): Pos = getOr(poolOf(w, p).pos, u, NOPOS)
  pure def setPos(w: World, p: str, u: str, x: Pos): World =
    setPool(w, p, { ...poolOf(w, p), pos: poolOf(w, p).pos.put(u, x) })
  pure def scalarOf(c: ResCfg): int = 10 ^ c.dec

  /// current view of a reserve without touching the state
  pure def viewRes(w: World, p: str, a: str): ResData =
    accrueRes(poolOf(w, p).rate, poolOf(w, p).cfg.get(a), poolOf(w, p).data.get(a), w.now)
}
