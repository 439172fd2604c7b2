/// A pool's status and configuration: who restricts it when, and how changes to reserves are queued and take effect.
module admin {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"
  import backstop.* from "./backstop"
  import reserve.* from "./reserve"
  import status.* from "./status"
  import poolbase.* from "./poolbase"

  // ---- status ----------------------------------------------------------------------------------
  pure def setStatus(w: World, p: str, st: int): World = setPool(w, p, { ...poolOf(w, p), status: st })

  pure def pUpdateStatus(w: World, p: str): World = {
    val st = poolOf(w, p).status
    if (not(w.ok) or not(w.bs.lpSet)) bail(w, "lp")
    else if (st == 6 or st == 4) bail(w, "statusfixed")
    else {
      val d = poolData(w, p)
      val ns = nextStatus(st, d.q4wPct, thresholdPct(d) >= S7)
      { ...setStatus(w, p, ns), ret: ns }
    }
  }
  pure def pSetStatus(w: World, p: str, st: int): World =
    if (not(w.ok) or not(w.bs.lpSet)) bail(w, "lp")
    else {
      val d = poolData(w, p)
      if (maySet(st, d.q4wPct, thresholdPct(d) >= S7)) setStatus(w, p, st) else bail(w, "statusarg")
    }

  // ---- configuration -----------------------------------------------------------------------------
  pure def pUpdatePool(w: World, p: str, rate: int, maxPos: int): World =
    if (not(w.ok) or rate >= S7) bail(w, "poolargs")
    else {
      val ps = poolOf(w, p)
      // interest accrued so far is split by the old take rate
      val data = if (rate == ps.rate) ps.data else ps.data.keys().mapBy(a => viewRes(w, p, a))
      setPool(w, p, { ...ps, rate: rate, maxPos: maxPos, data: data })
    }

  pure def pQueueRes(w: World, p: str, a: str, c: ResCfg): World = {
    val ps = poolOf(w, p)
    if (not(w.ok) or has(ps.queued, a)) bail(w, "queued")
    else if (not(validCfg(c))) bail(w, "config")
    else setPool(w, p, { ...ps, queued: ps.queued.put(a,
           { cfg: c, unlock: w.now + (if (ps.status == 6) 0 else WEEK) }) })
  }
  pure def pCancelRes(w: World, p: str, a: str): World =
    if (not(w.ok)) w else setPool(w, p, { ...poolOf(w, p), queued: del(poolOf(w, p).queued, a) })

  pure def pSetRes(w: World, p: str, a: str): World = {
    val ps = poolOf(w, p)
    if (not(w.ok) or not(has(ps.queued, a))) bail(w, "notqueued")
    else {
      val q = ps.queued.get(a)
      val n = q.cfg
      if (q.unlock > w.now) bail(w, "locked")
      else if (has(ps.cfg, a)) {
        val o = ps.cfg.get(a)
        val d = viewRes(w, p, a)
        val reset = o.rBase != n.rBase or o.r1 != n.r1 or o.r2 != n.r2 or o.r3 != n.r3 or o.util != n.util
        if (o.dec != n.dec) bail(w, "decimals")
        else { ...setPool(w, p, { ...ps, queued: del(ps.queued, a), cfg: ps.cfg.put(a, { ...n, index: o.index }),
                 data: ps.data.put(a, if (reset) { ...d, irMod: S9 } else d) }), ret: o.index }
      } else {
        val i = ps.resList.length()
        if (i == 32) bail(w, "full") else { ...setPool(w, p, { ...ps, queued: del(ps.queued, a), resList: ps.resList.append(a),
            cfg: ps.cfg.put(a, { ...n, index: i }),
            data: ps.data.put(a, { dRate: S9, bRate: S9, irMod: S9, bSup: 0, dSup: 0, credit: 0, lastT: w.now }) }),
          ret: i }
      }
    }
  }
}
