/// Reserve arithmetic: shares and tokens, utilization, interest. Numbers only; what holds of it
/// for all integers is proved in lemmas/.
module reserve {
  import math.* from "./math"
  import types.* from "./types"

  // ---- reserve arithmetic -----------------------------------------------------
  pure def assetD(d: ResData, x: int): int = mulC(x, d.dRate, S9)
  pure def assetB(d: ResData, x: int): int = mulF(x, d.bRate, S9)
  pure def dUp(d: ResData, x: int): int = divC(x, d.dRate, S9)
  pure def dDown(d: ResData, x: int): int = divF(x, d.dRate, S9)
  pure def bUp(d: ResData, x: int): int = divC(x, d.bRate, S9)
  pure def bDown(d: ResData, x: int): int = divF(x, d.bRate, S9)
  pure def totalLiab(d: ResData): int = assetD(d, d.dSup)
  pure def totalSup(d: ResData): int = assetB(d, d.bSup)
  pure def utilOf(d: ResData): int = divC(totalLiab(d), totalSup(d), S7)

  /// the yearly borrow rate (7 decimals)
  pure def rateAt(c: ResCfg, util: int, irMod: int): int =
    if (util <= c.util)
      mulC(mulC(divC(util, c.util, S7), c.r1, S7) + c.rBase, irMod, S9)
    else if (util <= 9500000)
      mulC(mulC(divC(util - c.util, 9500000 - c.util, S7), c.r2, S7) + c.r1 + c.rBase, irMod, S9)
    else
      mulC(divC(util - 9500000, 500000, S7), c.r3, S7) + mulC(irMod, c.r2 + c.r1 + c.rBase, S9)
  /// the rate modifier after dt seconds: rises above the target utilization, falls below it
  pure def modAfter(c: ResCfg, util: int, irMod: int, dt: int): int = {
    val dif = (util - c.util) * 100
    val x = if (dif >= 0) mulF(mulF(dt * S9, dif, S9), c.react, S7) else mulC(mulC(dt * S9, dif, S9), c.react, S7)
    if (isBad(x)) BAD else if (dif >= 0) imin(irMod + x, 10 * S9) else imax(irMod + x, S9 / 10)
  }
  /// growth of a debt over dt seconds at a yearly rate (9 decimals)
  pure def growth(ir: int, dt: int): int = S9 + mulC(dt * S9 / YEAR, ir * 100, S9)
  type Accr = { accr: int, irMod: int }
  pure def calcAccrual(c: ResCfg, util: int, irMod: int, dt: int): Accr =
    { accr: growth(rateAt(c, util, irMod), dt), irMod: modAfter(c, util, irMod, dt) }

  /// interest owed once the debt rate is dr; the backstop's cut of it; the supply rate after i more tokens belong to suppliers
  pure def interestAt(d: ResData, dr: int): int = mulC(d.dSup, dr, S9) - totalLiab(d)
  pure def cutOf(rate: int, i: int): int = mulF(i, rate, S7)
  pure def supRate(d: ResData, i: int): int = divF(totalSup(d) + i, d.bSup, S9)
  /// debt grows by a.accr; the interest goes to the backstop's credit and to the suppliers
  pure def accrueBy(rate: int, d: ResData, a: Accr, now: int): ResData = {
    val dr = mulC(a.accr, d.dRate, S9)
    val interest = interestAt(d, dr)
    val cut = cutOf(rate, interest)
    if (interest > 0)
      { ...d, lastT: now, irMod: a.irMod, dRate: dr, credit: d.credit + cut, bRate: supRate(d, interest - cut) }
    else { ...d, lastT: now, irMod: a.irMod, dRate: dr }
  }
  /// the reserve brought up to the current ledger time
  pure def accrueRes(rate: int, c: ResCfg, d: ResData, now: int): ResData =
    if (now == d.lastT) d
    else if (d.bSup == 0) { ...d, lastT: now }
    else if (utilOf(d) == 0) { ...d, lastT: now }
    else accrueBy(rate, d, calcAccrual(c, utilOf(d), d.irMod, now - d.lastT), now)

  // ---- what a request does to the reserve and to the account -----------------------
  /// shares removed from the account, tokens paid to it (or, repaying, taken from it)
  type Taken = { burn: int, out: int }
  /// withdraw `amt` by an account with `cur` shares: never more than it has
  pure def takeOut(d: ResData, cur: int, amt: int): Taken = {
    val burn = bUp(d, amt)
    if (burn > cur and not(isBad(burn))) { burn: cur, out: assetB(d, cur) } else { burn: burn, out: amt }
  }
  /// repay `amt` by an account owing `cur` shares: `out` is what is refunded
  pure def payBack(d: ResData, cur: int, amt: int): Taken = {
    val burn = dDown(d, amt)
    if (burn > cur and not(isBad(burn))) { burn: cur, out: amt - assetD(d, cur) } else { burn: burn, out: 0 }
  }
}
