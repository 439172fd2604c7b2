/// State machine used for simulation and trace generation.
module main {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"
  import backstop.* from "./backstop"
  import system.* from "./system"
  import gen.* from "./gen"
  import props.* from "./props"

  type Call = { o: Op, ok: bool, why: str, ret: int, sg: Set[str], ev: List[Ev] }
  var w: World
  var prof: str
  /// where the behaviour comes from: seedP of its set-up, steps made
  var seedP: int
  var pos: int
  /// the call made in this step
  var calls: List[Call]
  /// values served by read-only calls that are not stored as such
  var views: str -> int
  /// names of the properties (props.qnt) this step breaks; "off": not evaluated in this behaviour
  var viol: Set[str]

  val holds = viol.subseteq(Set("off"))

  pure def viewsOf(x: World): str -> int =
    if (not(x.bs.lpSet)) Map()
    else {
      val a = poolData(x, "poolA")
      val b = poolData(x, "poolB")
      Map("poolA.tokens" -> a.tokens, "poolA.q4w" -> a.q4wPct, "poolA.blnd" -> a.blnd, "poolA.usdc" -> a.usdc,
          "poolB.tokens" -> b.tokens, "poolB.q4w" -> b.q4wPct, "poolB.blnd" -> b.blnd, "poolB.usdc" -> b.usdc)
    }

  pure val NOTHING = genesis(List(0, 0, 2, 0, 2))
  action initP(p: str, on: bool): bool = {
    nondet s = 0.to(2^48).oneOf()
    val x = apply(NOTHING, start(s))
    all { w' = x, prof' = p, seedP' = s, pos' = 0, views' = viewsOf(x), viol' = if (on) Set() else Set("off"),
          calls' = List({ o: start(s), ok: true, why: "", ret: 0, sg: Set(), ev: List() }) }
  }
  action init_mix = initP("mix", true)
  action init_lend = initP("lend", true)
  action init_liq = initP("liq", true)
  action init_bad = initP("bad", true)
  action init_int = initP("int", true)
  action init_bstop = initP("bstop", true)
  action init_status = initP("status", true)
  action init_emis = initP("emis", true)
  action init_rz = initP("rz", true)
  action init_em = initP("em", true)
  action init_conf = initP("conf", true)
  action init_fac = initP("fac", true)
  action gen_mix = initP("mix", false)
  action gen_lend = initP("lend", false)
  action gen_liq = initP("liq", false)
  action gen_bad = initP("bad", false)
  action gen_int = initP("int", false)
  action gen_bstop = initP("bstop", false)
  action gen_status = initP("status", false)
  action gen_emis = initP("emis", false)
  action gen_rz = initP("rz", false)
  action gen_em = initP("em", false)
  action gen_conf = initP("conf", false)
  action gen_fac = initP("fac", false)
  action init = init_mix

  /// the set-up of the profile first, then operations chosen at random
  action step = {
    nondet s = 0.to(2^48).oneOf()
    val l = prologue(prof, seedP)
    val c = if (pos < l.length()) { o: l[pos], w: apply(w, l[pos]) } else choose(w, prof, goalAt(prof, seedP, pos), calls[0].o, s)
    all { w' = c.w, prof' = prof, seedP' = seedP, pos' = pos + 1, views' = viewsOf(c.w),
          viol' = if (viol.contains("off")) viol else violated(w, c.o, c.w),
          calls' = List({ o: c.o, ok: c.w.ok, why: c.w.why, ret: c.w.ret, sg: signers(w, c.o), ev: c.w.ev }) }
  }
}
