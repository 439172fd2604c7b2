/// One isolated lending pool: reserves and interest, batched user requests,
/// health factor, auctions, bad debt, status, configuration and emissions.
module pool {
  import math.* from "./math"
  import types.* from "./types"
  import base.* from "./base"
  import reserve.* from "./reserve"
  import poolbase.* from "./poolbase"
  import auction.* from "./auction"
  import emission.* from "./emission"
  import backstop.* from "./backstop"

  /// working set of one call: cached reserves, reserves to write back, transfers
  type Ctx = {
    w: World, p: str, cache: str -> ResData, store: Set[str],
    spend: str -> int, pay: str -> int, chk: bool, frm: str, pos: Pos
  }
  type PR = { c: Ctx, pos: Pos }

  pure def ctx(w: World, p: str): Ctx =
    { w: w, p: p, cache: Map(), store: Set(), spend: Map(), pay: Map(), chk: false, frm: "", pos: NOPOS }
  pure def cneed(c: Ctx, y: str, b: bool): Ctx = { ...c, w: need(c.w, y, b) }
  pure def cbail(c: Ctx, y: str): Ctx = { ...c, w: bail(c.w, y) }
  pure def cfgOf(c: Ctx, a: str): ResCfg = c.w.pools.get(c.p).cfg.get(a)
  pure def resOf(c: Ctx, a: str): ResData = c.cache.get(a)
  pure def setRes(c: Ctx, a: str, d: ResData): Ctx = { ...c, cache: c.cache.put(a, d) }
  pure def loadRes(c: Ctx, a: str, store: bool): Ctx =
    if (not(c.w.ok)) c
    else if (not(has(poolOf(c.w, c.p).cfg, a))) cbail(c, "noreserve")
    else {
      val c1 = if (store) { ...c, store: c.store.union(Set(a)) } else c
      if (has(c.cache, a)) c1
      else setRes(c1, a, viewRes(c.w, c.p, a))
    }
  pure def storeAll(c: Ctx): World =
    if (not(c.w.ok)) c.w
    else {
      val ps = poolOf(c.w, c.p)
      setPool(c.w, c.p, { ...ps, data: c.store.fold(ps.data, (acc, a) => acc.put(a, c.cache.get(a))) })
    }

  // ---- emissions to suppliers and borrowers -------------------------------------
  pure def peUpd(w: World, p: str, tid: int, supply: int, scalar: int): World = {
    val ps = poolOf(w, p)
    val e = ps.eCfg.get(tid)
    val d = ps.eData.get(tid)
    if (not(w.ok) or d.last >= e.exp or w.now == d.last or e.eps == 0 or supply == 0) w
    else {
      val until = imin(w.now, e.exp)
      val add = idxAdd((until - d.last) * e.eps, supply, scalar)
      need(setPool(w, p, { ...ps, eData: ps.eData.put(tid, { index: d.index + add, last: until }) }),
           "range", not(isBad(add)))
    }
  }
  pure def peOwed(w: World, p: str, tid: int, scalar: int, u: str, bal: int): int = {
    val ps = poolOf(w, p)
    val idx = ps.eData.get(tid).index
    if (has(ps.uEmis, (u, tid))) {
      val ue = ps.uEmis.get((u, tid))
      ue.accrued + (if (bal != 0) earned(bal, idx - ue.index, scalar) else 0)
    } else if (bal == 0) 0 else earned(bal, idx, scalar)
  }
  pure def peSet(w: World, p: str, tid: int, u: str, acc: int): World = {
    val ps = poolOf(w, p)
    setPool(w, p, { ...ps, uEmis: ps.uEmis.put((u, tid), { index: ps.eData.get(tid).index, accrued: acc }) })
  }
  pure def peAccrue(w: World, p: str, tid: int, supply: int, scalar: int, u: str, bal: int): World =
    if (not(w.ok) or not(has(poolOf(w, p).eCfg, tid))) w
    else {
      val w1 = peUpd(w, p, tid, supply, scalar)
      if (not(w1.ok)) w1 else peSet(w1, p, tid, u, peOwed(w1, p, tid, scalar, u, bal))
    }

  // ---- positions -------------------------------------------------------------------
  pure def putNZ(m: int -> int, k: int, v: int): int -> int = if (v == 0) del(m, k) else m.put(k, v)
  pure def bSum(x: Pos, i: int): int = getOr(x.coll, i, 0) + getOr(x.sup, i, 0)
  pure def effCount(x: Pos): int = x.liab.keys().size() + x.coll.keys().size()

  /// change one share balance by `delta` (never 0), accruing emissions first
  pure def chg(r: PR, u: str, a: str, kind: str, delta: int): PR = {
    val c = loadRes(r.c, a, true)
    if (not(c.w.ok)) { c: c, pos: r.pos }
    else if (delta == 0 or isBad(delta)) { c: cbail(c, "zero"), pos: r.pos }
    else {
      val k = cfgOf(c, a)
      val d = resOf(c, a)
      val i = k.index
      val w1 =
        if (kind == "liab") peAccrue(c.w, c.p, i * 2, d.dSup, scalarOf(k), u, getOr(r.pos.liab, i, 0))
        else peAccrue(c.w, c.p, i * 2 + 1, d.bSup, scalarOf(k), u, bSum(r.pos, i))
      val old = if (kind == "liab") getOr(r.pos.liab, i, 0)
                else if (kind == "coll") getOr(r.pos.coll, i, 0) else getOr(r.pos.sup, i, 0)
      val nb = old + delta
      if (not(w1.ok) or nb < 0) { c: cbail({ ...c, w: w1 }, "balance"), pos: r.pos }
      else {
        val d1 = if (kind == "liab") { ...d, dSup: d.dSup + delta } else { ...d, bSup: d.bSup + delta }
        { c: setRes({ ...c, w: w1 }, a, d1),
          pos: if (kind == "liab") { ...r.pos, liab: putNZ(r.pos.liab, i, nb) }
               else if (kind == "coll") { ...r.pos, coll: putNZ(r.pos.coll, i, nb) }
               else { ...r.pos, sup: putNZ(r.pos.sup, i, nb) } }
      }
    }
  }
  pure def chgAll(r: PR, u: str, kind: str, m: str -> int, sign: int): PR =
    m.keys().fold(r, (acc, a) => chg(acc, u, a, kind, sign * m.get(a)))

  // ---- health factor ------------------------------------------------------------------
  type PD = { c: Ctx, cb: int, cr: int, lb: int, lr: int }
  pure def positionData(c0: Ctx, x: Pos): PD = {
    val o = poolOf(c0.w, c0.p).oracle
    poolOf(c0.w, c0.p).resList.foldl({ c: c0, cb: 0, cr: 0, lb: 0, lr: 0 }, (acc, a) => {
      val i = poolOf(c0.w, c0.p).cfg.get(a).index
      val b = getOr(x.coll, i, 0)
      val l = getOr(x.liab, i, 0)
      if (not(acc.c.w.ok) or (b == 0 and l == 0)) acc
      else {
        val c = loadRes(acc.c, a, false)
        val k = cfgOf(c, a)
        val d = resOf(c, a)
        if (not(priceOk(c.w, o, a))) { ...acc, c: cbail(c, "stale") }
        else if (l > 0 and k.lf == 0) { ...acc, c: cbail(c, "range") }
        else {
          val pr = priceOf(c.w, o, a)
          val sc = scalarOf(k)
          val cb = if (b > 0) mulF(pr, mulF(assetB(d, b), k.cf, S7), sc) else 0
          val cr = if (b > 0) mulF(pr, assetB(d, b), sc) else 0
          val lb = if (l > 0) mulC(pr, divC(assetD(d, l), k.lf, S7), sc) else 0
          val lr = if (l > 0) mulC(pr, assetD(d, l), sc) else 0
          { c: cneed(c, "range", not(isBad(cb) or isBad(cr) or isBad(lb) or isBad(lr))),
            cb: acc.cb + cb, cr: acc.cr + cr, lb: acc.lb + lb, lr: acc.lr + lr }
        }
      }
    })
  }
  pure def hf(d: PD, s: int): int = divF(d.cb, d.lb, s)
  pure def hfUnder(d: PD, s: int, min: int): bool = d.lb != 0 and hf(d, s) < mulF(s, min, S7)
  pure def hfOver(d: PD, s: int, max: int): bool = d.lb == 0 or hf(d, s) > mulC(s, max, S7)

  // ---- auctions -------------------------------------------------------------------------
  pure def fillUserLiq(c: Ctx, f: Auction, u: str): Ctx = {
    val r1 = chgAll(chgAll({ c: c, pos: posOf(c.w, c.p, u) }, u, "coll", f.lot, -1), u, "liab", f.bid, -1)
    val r2 = chgAll(chgAll({ c: r1.c, pos: c.pos }, c.frm, "coll", f.lot, 1), c.frm, "liab", f.bid, 1)
    if (not(r2.c.w.ok)) r2.c
    else { ...r2.c, pos: r2.pos, w: setPos(r2.c.w, c.p, u, r1.pos) }
  }

  pure def fillBadDebt(c: Ctx, f: Auction): Ctx = {
    val r1 = chgAll({ c: cneed(c, "self", c.frm != BACKSTOP), pos: posOf(c.w, c.p, BACKSTOP) }, BACKSTOP, "liab", f.bid, -1)
    val r2 = chgAll({ c: r1.c, pos: c.pos }, c.frm, "liab", f.bid, 1)
    val lot = getOr(f.lot, LP, 0)
    val w3 = if (lot > 0) bDraw(r2.c.w, c.p, lot, c.frm) else r2.c.w
    if (not(w3.ok)) { ...r2.c, w: w3 }
    else {
      val c3 = { ...r2.c, w: w3, pos: r2.pos }
      if (r1.pos.liab.keys() == Set()) { ...c3, w: setPos(w3, c.p, BACKSTOP, r1.pos) }
      else if (not(w3.bs.lpSet)) cbail(c3, "lp")
      else if (thresholdPct(poolData(w3, c.p)) < BURN_BELOW) {
        // the backstop can no longer cover the rest: the loss is shared by suppliers
        val rl = poolOf(w3, c.p).resList
        val rm = r1.pos.liab.keys().map(i => rl[i]).mapBy(a => r1.pos.liab.get(cfgOf(c3, a).index))
        val told = rm.keys().fold(c3.w, (acc, a) => emit(acc, c3.p, "bad_debt", List(BACKSTOP, a), List(rm.get(a))))
        val r4 = chgAll({ c: { ...c3, w: told }, pos: r1.pos }, BACKSTOP, "liab", rm, -1)
        if (not(r4.c.w.ok)) r4.c else { ...r4.c, w: setPos(r4.c.w, c.p, BACKSTOP, r4.pos) }
      } else { ...c3, w: setPos(w3, c.p, BACKSTOP, r1.pos) }
    }
  }

  pure def fillInterest(c: Ctx, f: Auction): Ctx = {
    val bid = getOr(f.bid, LP, 0)
    val w1 = need(c.w, "self", c.frm != BACKSTOP)
    val c1 = { ...c, w: if (bid > 0) bDonate(w1, c.frm, c.p, bid) else w1 }
    f.lot.keys().fold(c1, (acc, a) => {
      val x = loadRes(acc, a, true)
      if (not(x.w.ok)) x else {
        val d = resOf(x, a)
        val y = setRes(x, a, { ...d, credit: d.credit - f.lot.get(a) })
        { ...y, w: transfer(y.w, a, c.p, c.frm, f.lot.get(a)) }
      } })
  }

  pure def fillAuction(c: Ctx, ty: int, u: str, amt: int): Ctx = {
    val pct = amt % (2^64)
    val ps = poolOf(c.w, c.p)
    if (not(c.w.ok) or u == c.frm) cbail(c, "self")
    else if (not(has(ps.auctions, (ty, u)))) cbail(c, "noauction")
    else {
      val a = ps.auctions.get((ty, u))
      if (pct < 1 or pct > 100 or c.w.seq < a.block) cbail(c, "fill")
      else {
        val s = scaleAuction(a, pct, c.w.seq - a.block)
        val c1 = if (ty == 0) fillUserLiq(c, s.fill, u)
                 else if (ty == 1) fillBadDebt(c, s.fill)
                 else fillInterest(c, s.fill)
        if (not(c1.w.ok)) c1 else {
          val q = poolOf(c1.w, c.p)
          // a bad debt auction is over with the backstop's debt
          val over = s.done or (ty == 1 and posOf(c1.w, c.p, u).liab.keys() == Set())
          { ...c1, w: setPool(c1.w, c.p, { ...q, auctions:
              if (over) del(q.auctions, (ty, u)) else q.auctions.put((ty, u), s.rest) }) }
        }
      }
    }
  }

  // ---- submit ------------------------------------------------------------------------------
  pure def addTo(m: str -> int, a: str, x: int): str -> int = m.put(a, getOr(m, a, 0) + x)

  pure def statusAllows(st: int, rt: int): bool =
    not((st > 1 and (rt == 4 or rt == 9)) or (st > 3 and (rt == 0 or rt == 2)))

  pure def doReq(c0: Ctx, r: Req): Ctx = {
    val ps = poolOf(c0.w, c0.p)
    val c = cneed(cneed(c0, "negative", r.amt >= 0), if (r.rt >= 0 and r.rt <= 9) "status" else "badreq",
                  r.rt >= 0 and r.rt <= 9 and statusAllows(ps.status, r.rt))
    pure def filled(x) = { ...x, w: emit(x.w, c0.p, "fill_auction", List(r.addr, c0.frm), List(r.rt - 6, r.amt)) }
    pure def moved(x, t, m, n) = { ...x, w: emit(x.w, c0.p, t, List(r.addr, c0.frm), List(m, n)) }
    if (not(c.w.ok)) c
    else if (r.rt == 6) { ...filled(fillAuction(c, 0, r.addr, r.amt)), chk: true }
    else if (r.rt == 7) { ...filled(fillAuction(c, 1, r.addr, r.amt)), chk: true }
    else if (r.rt == 8) filled(fillAuction(c, 2, r.addr, r.amt))
    else if (r.rt == 9)
      { ...cneed({ ...c, w: emit(setPool(c.w, c.p, { ...ps, auctions: del(ps.auctions, (0, c.frm)) }), c.p, "delete_liquidation_auction", List(c.frm), List()) },
                 "noauction", has(ps.auctions, (0, c.frm))), chk: true }
    else {
      val c1 = loadRes(c, r.addr, true)
      if (not(c1.w.ok)) c1
      else {
        val d = resOf(c1, r.addr)
        val i = cfgOf(c1, r.addr).index
        val a = r.addr
        if (r.rt == 0 or r.rt == 2) {
          val x = chg({ c: c1, pos: c1.pos }, c.frm, a, if (r.rt == 0) "sup" else "coll", bDown(d, r.amt))
          { ...moved(x.c, if (r.rt == 0) "supply" else "supply_collateral", r.amt, bDown(d, r.amt)), pos: x.pos, spend: addTo(x.c.spend, a, r.amt) }
        } else if (r.rt == 1 or r.rt == 3) {
          val cur = if (r.rt == 1) getOr(c.pos.sup, i, 0) else getOr(c.pos.coll, i, 0)
          val t = takeOut(d, cur, r.amt)
          val x = chg({ c: c1, pos: c1.pos }, c.frm, a, if (r.rt == 1) "sup" else "coll", -t.burn)
          { ...moved(x.c, if (r.rt == 1) "withdraw" else "withdraw_collateral", t.out, t.burn),
            pos: x.pos, pay: addTo(x.c.pay, a, t.out),
            chk: c.chk or r.rt == 3 }
        } else if (r.rt == 4) {
          val x = chg({ c: c1, pos: c1.pos }, c.frm, a, "liab", dUp(d, r.amt))
          if (not(x.c.w.ok)) x.c else {
            val d1 = resOf(x.c, a)
            cneed({ ...moved(x.c, "borrow", r.amt, dUp(d, r.amt)), pos: x.pos, pay: addTo(x.c.pay, a, r.amt), chk: true },
                  "util", totalSup(d1) > 0 and utilOf(d1) <= cfgOf(x.c, a).maxUtil)
          }
        } else {
          val cur = getOr(c.pos.liab, i, 0)
          val t = payBack(d, cur, r.amt)
          if (isBad(t.burn)) cbail(c1, "range")
          else {
            val x = chg({ c: c1, pos: c1.pos }, c.frm, a, "liab", -t.burn)
            // nothing is sent back unless the whole debt was repaid
            val back = dDown(d, r.amt) > cur
            cneed({ ...moved(x.c, "repay", r.amt - t.out, t.burn), pos: x.pos, spend: addTo(x.c.spend, a, r.amt),
                    pay: if (back) addTo(x.c.pay, a, t.out) else x.c.pay }, "range", t.out >= 0)
          }
        }
      }
    }
  }

  pure def pSubmit(w: World, p: str, frm: str, spender: str, rcv: str, reqs: List[Req]): World = {
    val w0 = need(w, "self", frm != p and spender != p and rcv != p)
    val pos0 = posOf(w, p, frm)
    val c = reqs.foldl({ ...ctx(w0, p), frm: frm, pos: pos0 }, (acc, r) => doReq(acc, r))
    if (not(c.w.ok)) c.w
    else if (effCount(c.pos) > effCount(pos0) and effCount(c.pos) > poolOf(w, p).maxPos) bail(c.w, "maxpos")
    else {
      val s = oracleScalar(poolOf(w, p).oracle)
      val needHf = c.chk and c.pos.liab.keys() != Set()
      val d = if (needHf) positionData(c, c.pos) else { c: c, cb: 0, cr: 0, lb: 0, lr: 0 }
      val w1 = need(d.c.w, "range", not(needHf) or not(isBad(hf(d, s))) or d.lb == 0)
      val w2 = need(w1, "hf", not(needHf) or not(hfUnder(d, s, MIN_HF)))
      val w3 = c.spend.keys().fold(w2, (acc, a) => transfer(acc, a, spender, p, c.spend.get(a)))
      if (not(w3.ok)) w3 else {
        val w4 = setPos(storeAll({ ...d.c, w: w3 }), p, frm, c.pos)
        c.pay.keys().fold(w4, (acc, a) => transfer(acc, a, p, rcv, c.pay.get(a)))
      }
    }
  }

  // ---- bad debt ---------------------------------------------------------------------------
  pure def pBadDebt(w: World, p: str, u: str): World = {
    val x = posOf(w, p, u)
    val w0 = need(w, "baddebt", u != BACKSTOP and x.coll.keys() == Set() and x.liab.keys() != Set())
    if (not(w0.ok)) w0 else {
      val rl = poolOf(w, p).resList
      val m = x.liab.keys().map(i => rl[i]).mapBy(a => x.liab.get(poolOf(w, p).cfg.get(a).index))
      val r1 = chgAll({ c: ctx(w0, p), pos: posOf(w, p, BACKSTOP) }, BACKSTOP, "liab", m, 1)
      val r2 = chgAll({ c: r1.c, pos: x }, u, "liab", m, -1)
      if (not(r2.c.w.ok)) r2.c.w
      else m.keys().fold(setPos(setPos(storeAll(r2.c), p, BACKSTOP, r1.pos), p, u, r2.pos),
             (acc, a) => emit(acc, p, "bad_debt", List(u, a), List(m.get(a))))
    }
  }

  // ---- auction creation ---------------------------------------------------------------------
  pure def putAuction(w: World, p: str, ty: int, u: str, a: Auction): World =
    setPool(w, p, { ...poolOf(w, p), auctions: poolOf(w, p).auctions.put((ty, u), a) })

  pure def pNewLiq(w: World, p: str, u: str, pct: int): World = {
    val w0 = need(need(w, "exists", not(has(poolOf(w, p).auctions, (0, u)))), "liqargs", u != p and u != BACKSTOP
                     and pct >= 1 and pct <= 100)
    if (not(w0.ok)) w0 else {
      val x = posOf(w, p, u)
      val rl = poolOf(w, p).resList
      val s = oracleScalar(poolOf(w, p).oracle)
      val d = positionData(ctx(w0, p), x)
      if (not(d.c.w.ok) or d.lb < d.cb or d.cr == 0 or d.lr == 0) bail(d.c.w, "notunder")
      else {
        val ps = pct * s / 100
        val avgCf = divF(d.cb, d.cr, s)
        val avgLf = divF(d.lb, d.lr, s)
        if (avgLf == 0) bail(w, "range")
        else {
          val incentive = divC(s - divC(avgCf, avgLf, s), 2 * s, s) + s
          val estW = mulF(mulF(d.lr, ps, s), incentive, s)
          val estPct = imin(divC(estW, d.cr, s), s)
          val a: Auction = {
            lot: x.coll.keys().map(i => rl[i]).mapBy(r => mulC(x.coll.get(cfgOf(d.c, r).index), estPct, s)),
            bid: x.liab.keys().map(i => rl[i]).mapBy(r => mulC(x.liab.get(cfgOf(d.c, r).index), ps, s)),
            block: w.seq + 1 }
          if (pct == 100) putAuction(need(d.c.w, "liqlarge", estW >= d.cr), p, 0, u, a)
          else {
            val r = chgAll(chgAll({ c: d.c, pos: x }, u, "coll", a.lot, -1), u, "liab", a.bid, -1)
            if (not(r.c.w.ok)) r.c.w
            else {
              val d2 = positionData(r.c, r.pos)
              putAuction(need(need(d2.c.w, "liqlarge", not(hfOver(d2, s, POST_LIQ_MAX))), "liqsmall", not(hfUnder(d2, s, POST_LIQ_MIN))),
                         p, 0, u, a)
            }
          }
        }
      }
    }
  }

  /// value of one backstop token in the oracle's base asset; 0 if undefined
  pure def lpToBase(w: World, p: str): int = {
    val d = poolData(w, p)
    val s = oracleScalar(poolOf(w, p).oracle)
    if (d.tokens == 0) 0 else divF(mulF(d.usdc, s, S7) * 5, d.tokens, S7)
  }

  pure def pNewBadDebt(w: World, p: str): World = {
    val ps = poolOf(w, p)
    val x = posOf(w, p, BACKSTOP)
    val as = x.liab.keys().map(i => ps.resList[i])
    val w0 = need(need(need(need(w, "exists", not(has(ps.auctions, (1, BACKSTOP)))), "baddebt", x.liab.keys() != Set()), "lp", w.bs.lpSet),
                  "stale", as.forall(a => priceOk(w, ps.oracle, a)))
    if (not(w0.ok)) w0 else {
      val debt = sumOver(as, a => mulF(priceOf(w, ps.oracle, a),
          assetD(viewRes(w, p, a), x.liab.get(ps.cfg.get(a).index)), scalarOf(ps.cfg.get(a))))
      val t = lpToBase(w, p)
      if (debt == 0 or t == 0) bail(w, "lp")
      else {
        val lot = imin(poolData(w, p).tokens, divF(mulF(debt, 14000000, S7), t, S7))
        putAuction(w0, p, 1, BACKSTOP, { bid: as.mapBy(a => x.liab.get(ps.cfg.get(a).index)),
                                         lot: Map(LP -> lot), block: w.seq + 1 })
      }
    }
  }

  pure def pNewInterest(w: World, p: str, assets: List[str]): World = {
    val ps = poolOf(w, p)
    val w0 = need(need(need(w, "exists", not(has(ps.auctions, (2, BACKSTOP)))), "lp", w.bs.lpSet), "noreserve",
                     assets.foldl(true, (acc, a) => acc and has(ps.cfg, a)))
    if (not(w0.ok)) w0 else {
      val withCredit = listToSet(assets).filter(a => viewRes(w, p, a).credit > 0)
      // an asset with something to sell is named once
      if (assets.select(a => withCredit.contains(a)).length() > withCredit.size()) bail(w, "noreserve")
      else if (withCredit.exists(a => not(priceOk(w, ps.oracle, a)))) bail(w, "stale")
      else {
        val s = oracleScalar(ps.oracle)
        val lot = withCredit.mapBy(a => viewRes(w, p, a).credit)
        val value = sumOver(withCredit, a => mulF(priceOf(w, ps.oracle, a), lot.get(a), scalarOf(ps.cfg.get(a))))
        val t = lpToBase(w, p)
        if (value <= 200 * s) bail(w, "small")
        else if (t == 0) bail(w, "lp")
        else putAuction(w0, p, 2, BACKSTOP, { lot: lot, block: w.seq + 1,
               bid: Map(LP -> divF(mulF(value, 14000000, S7), t, S7)) })
      }
    }
  }

  // ---- emission configuration and claims -------------------------------------------------------------
  type EmMeta = { res: int, ty: int, share: int }
  pure def pSetEmis(w: World, p: str, l: List[EmMeta]): World = {
    val n = poolOf(w, p).resList.length()
    val total = l.foldl(0, (acc, m) => acc + m.share)
    val valid = l.foldl(true, (acc, m) => acc and m.ty <= 1 and m.res < n)
    if (not(w.ok) or not(valid) or total > S7) bail(w, "emisargs")
    else setPool(w, p, { ...poolOf(w, p), emisShare:
           l.foldl(Map(), (acc, m) => acc.put(m.res * 2 + m.ty, m.share)) })
  }

  pure def pGulp(w: World, p: str): World = {
    val w0 = bGulpPool(w, p)
    val fresh = w0.ret
    if (not(w0.ok) or fresh < S7) bail(w0, "noemis")
    else
      poolOf(w, p).emisShare.keys().fold(w0, (acc, tid) => {
        val a = poolOf(w, p).resList[tid / 2]
        val k = poolOf(w, p).cfg.get(a)
        val d = poolOf(w, p).data.get(a)
        val tokens = mulF(poolOf(w, p).emisShare.get(tid), fresh, S7)
        val old = poolOf(w, p).eCfg
        val w1 = if (has(old, tid)) peUpd(acc, p, tid, if (tid % 2 == 0) d.dSup else d.bSup, scalarOf(k)) else acc
        if (not(w1.ok)) w1 else {
          val ps = poolOf(w1, p)
          val idx = if (has(old, tid)) ps.eData.get(tid).index else 0
          val left = if (has(old, tid)) undistributed(old.get(tid), w.now) else 0
          val eps = newEps(tokens, left)
          emit(setPool(w1, p, { ...ps, eData: ps.eData.put(tid, { index: idx, last: w.now }),
                 eCfg: ps.eCfg.put(tid, { exp: w.now + 7 * DAY, eps: eps }) }),
               p, "reserve_emission_update", List(), List(tid, eps, w.now + 7 * DAY))
        }
      })
  }

  type ClaimR = { w: World, total: int }
  pure def pClaim(w: World, p: str, frm: str, ids: List[int], rcv: str): World = {
    val x = posOf(w, p, frm)
    val rl = poolOf(w, p).resList
    val r = ids.foldl({ w: w, total: 0 }, (acc, tid) => {
      val i = tid / 2
      if (not(acc.w.ok) or i >= rl.length()) { ...acc, w: bail(acc.w, "noreserve") }
      else if (not(has(poolOf(w, p).eCfg, tid))) acc
      else {
        val k = poolOf(w, p).cfg.get(rl[i])
        val d = poolOf(w, p).data.get(rl[i])
        val w1 = peUpd(acc.w, p, tid, if (tid % 2 == 0) d.dSup else d.bSup, scalarOf(k))
        if (not(w1.ok)) { ...acc, w: w1 } else {
          val amt = peOwed(w1, p, tid, scalarOf(k), frm, if (tid % 2 == 0) getOr(x.liab, i, 0) else bSum(x, i))
          { w: peSet(w1, p, tid, frm, 0), total: acc.total + amt }
        }
      } })
    if (not(r.w.ok)) r.w
    else if (r.total <= 0) { ...r.w, ret: r.total }
    else if (allowOf(r.w, p) < r.total) bail(r.w, "allowance")
    else { ...transfer({ ...r.w, allow: r.w.allow.put(p, { ...r.w.allow.get(p), amt: allowOf(r.w, p) - r.total }) },
                       BLND, BACKSTOP, rcv, r.total), ret: r.total }
  }
}
