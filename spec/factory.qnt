/// The pool factory: deploys pools with fixed wiring, at most one per (admin, salt),
/// and is the only authority on which addresses are pools.
module factory {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"

  /// names given to the pools the factory deploys, in order
  pure val DEPLOYED = List("d0", "d1", "d2", "d3", "d4", "d5")

  pure def goodArgs(rate: int, maxPos: int): bool = rate < S7 and maxPos >= 2
  pure def viaFactory(w: World): int = w.fac.dep.select(d => d.name != "poolN").length()

  pure def fDeploy(w: World, adm: str, salt: str, orc: str, rate: int, maxPos: int): World =
    if (not(w.ok) or not(goodArgs(rate, maxPos))) bail(w, "poolargs")
    else if (viaFactory(w) >= DEPLOYED.length()) bail(w, "world")
    else if (w.fac.dep.select(d => d.name != "poolN" and d.admin == adm and d.salt == salt).length() > 0) bail(w, "exists")
    else {
      val n = DEPLOYED[viaFactory(w)]
      { ...w, fac: { pools: w.fac.pools.union(Set(n)), dep: w.fac.dep.append(
          { name: n, admin: adm, salt: salt, oracle: orc, rate: rate, maxPos: maxPos }) } }
    }

  /// initializing a pool contract that was not deployed by the factory: it is not a pool for the backstop
  pure def fInitSpare(w: World, adm: str, orc: str, rate: int, maxPos: int): World =
    if (not(w.ok) or not(goodArgs(rate, maxPos))) bail(w, "poolargs")
    else if (w.fac.dep.select(d => d.name == "poolN").length() > 0) bail(w, "init")
    else { ...w, fac: { ...w.fac, dep: w.fac.dep.append(
             { name: "poolN", admin: adm, salt: "", oracle: orc, rate: rate, maxPos: maxPos }) } }
}
