/// Contracts are initialized once. Besides the system's own contracts there are three that nobody has initialized yet: another
/// backstop "bs3", another emitter "emN" and another factory "facN". What they are given is fixed from then on.
module wiring {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"

  pure def wire(w: World, c: str, s: List[str], t: int): World = { ...w, spare: w.spare.put(c, { s: s, t: t }) }

  /// args: BLND token, backstop, backstop token
  pure def emInit(w: World, c: str, args: List[str]): World =
    if (c != "emN" or has(w.spare, c)) bail(w, "init") else wire(w, c, args, w.now)
  /// args: backstop token, emitter, USDC, BLND, factory; the emitter must know the backstop
  pure def bsInit(w: World, c: str, args: List[str]): World =
    if (c != "bs3" or has(w.spare, c)) bail(w, "init")
    else if (args[1] == "emitter" and has(w.em.last, c)) wire(w, c, args, w.em.last.get(c))
    else if (args[1] == "emN" and has(w.spare, "emN") and w.spare.get("emN").s[1] == c) wire(w, c, args, w.spare.get("emN").t)
    else bail(w, "unknown")
  /// args: backstop, BLND token
  pure def facInit(w: World, c: str, args: List[str]): World =
    if (c != "facN" or has(w.spare, c)) bail(w, "init") else wire(w, c, args, 0)
}
