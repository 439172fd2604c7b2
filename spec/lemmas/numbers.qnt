/// What holds of the arithmetic the specification is made of, for all integers: each `val` is checked by Apalache from an
/// initial state in which a..h are arbitrary integers (tools/lemmas.sh). BAD stands for "does not fit i128; the call fails".
module numbers {
  import math.* from "../math"
  import types.* from "../types"
  import reserve.* from "../reserve"
  import auction.* from "../auction"
  import shares.* from "../shares"
  import emission.* from "../emission"

  var a: int
  var b: int
  var c: int
  var d: int
  var e: int
  var f: int
  var g: int
  var h: int
  action init = all {
    nondet a1 = oneOf(Int)
    nondet b1 = oneOf(Int)
    nondet c1 = oneOf(Int)
    nondet d1 = oneOf(Int)
    nondet e1 = oneOf(Int)
    nondet f1 = oneOf(Int)
    nondet g1 = oneOf(Int)
    nondet h1 = oneOf(Int)
    all { a' = a1, b' = b1, c' = c1, d' = d1, e' = e1, f' = f1, g' = g1, h' = h1 }
  }
  action step = all { a' = a, b' = b, c' = c, d' = d, e' = e, f' = f, g' = g, h' = h }

  // ---- reserve: a = tokens held, b = dRate, c = bRate, d = dSup, e = bSup, f = credit, g = amount, h = shares of the account
  pure def res(dr: int, br: int, ds: int, bs: int, cr: int): ResData =
    { dRate: dr, bRate: br, irMod: S9, bSup: bs, dSup: ds, credit: cr, lastT: 0 }
  val R = res(b, c, d, e, f)
  val okRes = and { b >= S9, c >= S9, d >= 0, e >= 0, f >= 0, g >= 0, h >= 0 }
  pure def gap(held: int, x: ResData): int =
    held + cdiv(x.dSup * x.dRate, S9) - fdiv(x.bSup * x.bRate, S9) - x.credit

  // an account gets at most what it pays for, and pays at least what it gets
  val supplyFair = okRes and not(isBad(bDown(R, g))) implies bDown(R, g) * c <= g * S9
  val supplyWorth = okRes and not(isBad(bDown(R, g))) and not(isBad(assetB(R, bDown(R, g)))) implies assetB(R, bDown(R, g)) <= g
  val borrowFair = okRes and not(isBad(dUp(R, g))) implies dUp(R, g) * b >= g * S9
  val borrowWorth = okRes and not(isBad(dUp(R, g))) and not(isBad(assetD(R, dUp(R, g)))) implies assetD(R, dUp(R, g)) >= g
  val takeFair = { val t = takeOut(R, h, g) okRes and not(isBad(t.burn)) and not(isBad(t.out)) implies
    and { t.burn <= h or t.out == g, t.burn >= 0, t.out <= g, t.out >= 0, t.out * S9 <= t.burn * c } }
  val takeAll = okRes and bUp(R, g) > h and not(isBad(bUp(R, g))) implies takeOut(R, h, g).burn == h
  val payFair = { val t = payBack(R, h, g) okRes and not(isBad(t.burn)) and not(isBad(t.out)) implies
    and { t.burn <= h, t.burn >= 0, t.out >= 0, t.out <= g, (g - t.out) * S9 >= t.burn * b } }
  // nobody borrows or withdraws for nothing
  val neverFree = okRes and g > 0 implies dUp(R, g) > 0 and bUp(R, g) > 0

  // what the pool has is at least what it owes: no request lowers the difference
  val gapSupply = okRes and not(isBad(bDown(R, g))) implies gap(a + g, { ...R, bSup: e + bDown(R, g) }) >= gap(a, R)
  val gapBorrow = okRes and not(isBad(dUp(R, g))) implies gap(a - g, { ...R, dSup: d + dUp(R, g) }) >= gap(a, R)
  val gapWithdraw = { val t = takeOut(R, h, g) okRes and not(isBad(t.burn)) and not(isBad(t.out)) implies
    gap(a - t.out, { ...R, bSup: e - t.burn }) >= gap(a, R) }
  val gapRepay = { val t = payBack(R, h, g) okRes and not(isBad(t.burn)) and not(isBad(t.out)) implies
    gap(a + g - t.out, { ...R, dSup: d - t.burn }) >= gap(a, R) }
  // interest accrues: g = growth of the debt (9 decimals), h = the backstop's take rate
  val debtGrows = b >= 0 and g >= S9 and not(isBad(mulC(g, b, S9))) implies mulC(g, b, S9) >= b
  // step by step: the interest is not negative (g: new debt rate); of it the cut is a part, something is left to suppliers;
  // the supply rate does not fall; what the new rate promises to suppliers is no more than what they had and what they got
  val interestPos = okRes and g >= b and not(isBad(mulC(d, g, S9))) and not(isBad(totalLiab(R))) implies interestAt(R, g) >= 0
  val cutPart = g > 0 and h >= 0 and h < S7 and not(isBad(cutOf(h, g))) implies cutOf(h, g) >= 0 and cutOf(h, g) < g
  val supRateKept = okRes and e > 0 and g > 0 and not(isBad(totalSup(R))) and not(isBad(supRate(R, g))) implies supRate(R, g) >= c
  val supRateCovered = okRes and e > 0 and not(isBad(totalSup(R))) and not(isBad(supRate(R, g))) implies
    fdiv(e * supRate(R, g), S9) <= fdiv(e * c, S9) + g

  // interest rate: a = util, b = rate modifier, c = seconds, d = target, e = base rate, f, g = slopes, h = reactivity
  val CFG: ResCfg = { index: 0, dec: 7, cf: S7, lf: S7, util: d, maxUtil: S7, rBase: e, r1: f, r2: g, r3: g, react: h }
  val okCfg = and { a >= 0, b >= S9 / 10, b <= 10 * S9, c >= 0, d >= 0, d <= 9500000, e >= 1000, e < S7, f >= 0, g >= f, h >= 0, h <= 1000 }
  val MOD = modAfter(CFG, a, b, c)
  val rateModBounds = okCfg and not(isBad(MOD)) implies MOD >= S9 / 10 and MOD <= 10 * S9
  val rateModUp = okCfg and not(isBad(MOD)) and a >= d implies MOD >= b
  val rateModDown = okCfg and not(isBad(MOD)) and a <= d implies MOD <= b
  val ratePos = okCfg and not(isBad(rateAt(CFG, a, b))) implies rateAt(CFG, a, b) >= 0
  // g: rate
  val growthPos = c >= 0 and g >= 0 and not(isBad(growth(g, c))) implies growth(g, c) >= S9
  val growthMore = c >= 0 and d >= c and g >= 0 and not(isBad(growth(g, d))) implies growth(g, c) <= growth(g, d)

  // ---- auctions: a = bid, b = lot, c = percent, d = blocks, e = later percent, f = later blocks
  val okAu = a > 0 and b > 0 and c >= 1 and c <= 100 and d >= 0 and e >= 1 and e <= 100 and f >= d
  val AU: Auction = { bid: Map("x" -> a), lot: Map("y" -> b), block: 0 }
  val SC = scaleAuction(AU, c, d)
  val fits = not(isBad(mulC(a, c * 100000, S7))) and not(isBad(mulF(b, c * 100000, S7)))
    and not(isBad(mulC(mulC(a, c * 100000, S7), bidMod(d), S7))) and not(isBad(mulF(mulF(b, c * 100000, S7), lotMod(d), S7)))
  val modRange = and { bidMod(d) >= 0, bidMod(d) <= S7, d >= 0 implies lotMod(d) >= 0 and lotMod(d) <= S7 }
  val modMoves = d >= 0 and f >= d implies bidMod(f) <= bidMod(d) and lotMod(f) >= lotMod(d)
  val scaleBidRest = okAu and fits implies getOr(SC.rest.bid, "x", 0) == a - mulC(a, c * 100000, S7) and mulC(a, c * 100000, S7) <= a
  val scaleBidFill = a >= 0 and d >= 0 and not(isBad(mulC(a, bidMod(d), S7))) implies mulC(a, bidMod(d), S7) <= a and mulC(a, bidMod(d), S7) >= 0
  val scaleLot = okAu and fits implies getOr(SC.fill.lot, "y", 0) + getOr(SC.rest.lot, "y", 0) <= b and getOr(SC.fill.lot, "y", 0) >= 0 and getOr(SC.rest.lot, "y", 0) >= 0
  val scaleAll = okAu and fits and c == 100 implies SC.done
  val scaleEarly = okAu and fits and d <= 200 implies getOr(SC.fill.bid, "x", 0) == mulC(a, c * 100000, S7)
  val scaleLate = okAu and fits and d >= 200 implies getOr(SC.fill.lot, "y", 0) == mulF(b, c * 100000, S7)
  val scaleFree = okAu and fits and d >= 400 implies getOr(SC.fill.bid, "x", 0) == 0
  val scaleDone = okAu and fits and SC.done implies getOr(SC.rest.bid, "x", 0) == 0 and getOr(SC.rest.lot, "y", 0) == 0

  // ---- backstop shares: a = shares, b = tokens, c = queued, d = amount, e = another amount
  val PB: PoolBal = { shares: a, tokens: b, q4w: c }
  val okPb = and { a >= 0, b >= 0, c >= 0, c <= a, d >= 0 }
  val depositPrice = okPb and a > 0 and not(isBad(toShares(PB, d))) implies depositTo(PB, d).tokens * a >= b * depositTo(PB, d).shares
  val withdrawPrice = okPb and d <= a and a > 0 and not(isBad(toTokens(PB, d))) implies
    withdrawFrom(PB, d).tokens * a >= b * withdrawFrom(PB, d).shares and withdrawFrom(PB, d).tokens >= 0
  val donatePrice = okPb implies donateTo(PB, d).tokens * a >= b * donateTo(PB, d).shares
  val drawShares = okPb implies drawFrom(PB, d).shares == a and drawFrom(PB, d).tokens == b - d
  val depositBack = okPb and (a > 0 or b == 0) and not(isBad(toShares(PB, d))) and d > 0 and toShares(PB, d) > 0 and not(isBad(toTokens(depositTo(PB, d), toShares(PB, d)))) implies
    toTokens(depositTo(PB, d), toShares(PB, d)) <= d
  val firstDeposit = okPb and a == 0 implies toShares(PB, d) == d
  val lastOut = okPb and a > 0 and not(isBad(toTokens(PB, a))) implies toTokens(PB, a) == b
  val unqueued = okPb and not(isBad(toTokens(PB, c))) implies nonQueued(PB) >= 0
  val splitOut = okPb and a > 0 and e >= 0 and not(isBad(toTokens(PB, d + e))) implies toTokens(PB, d) + toTokens(PB, e) <= toTokens(PB, d + e)

  // ---- withdrawal queue: amounts a, b, c becoming free at d <= e <= f; g asked for at time h
  val Q: List[Q4W] = List({ amount: a, exp: d }, { amount: b, exp: e }, { amount: c, exp: f })
  pure def total(q: List[Q4W]): int = q.foldl(0, (acc, y) => acc + y.amount)
  pure def ripe(q: List[Q4W], t: int): int = q.foldl(0, (acc, y) => acc + (if (y.exp <= t) y.amount else 0))
  val okQ = and { a >= 0, b >= 0, c >= 0, d <= e, e <= f, g >= 0 }
  val takeQueue = { val r = dequeue(Q, g, true, h) okQ and r.ok implies total(r.q) == total(Q) - g }
  val takeRipe = { val r = dequeue(Q, g, true, h) okQ and r.ok implies g <= ripe(Q, h) }
  val takeLater = { val r = dequeue(Q, g, true, h) okQ and r.ok implies total(r.q) - ripe(r.q, h) == total(Q) - ripe(Q, h) }
  val takeCan = okQ and g > 0 and g <= ripe(Q, h) implies dequeue(Q, g, true, h).ok
  val backQueue = { val r = dequeue(Q, g, false, h) okQ and r.ok implies total(r.q) == total(Q) - g }
  val backCan = okQ and g <= total(Q) implies dequeue(Q, g, false, h).ok

  // ---- emissions: a = tokens, b = supply, c, d = holders, e = scalar
  val okEm = and { a >= 0, b > 0, c >= 0, d >= 0, e > 0 }
  val indexPays = okEm and c + d <= b and not(isBad(idxAdd(a, b, e))) implies
    earned(c, idxAdd(a, b, e), e) + earned(d, idxAdd(a, b, e), e) <= a or isBad(earned(c, idxAdd(a, b, e), e)) or isBad(earned(d, idxAdd(a, b, e), e))
  val earnedAdds = okEm and not(isBad(earned(c, a + b, e))) implies earned(c, a, e) + earned(c, b, e) <= earned(c, a + b, e)
  val epsSpends = a >= 0 and b >= 0 implies newEps(a, b) * 7 * DAY <= a + b and newEps(a, b) >= 0
  val epsTail = { val k: EmisCfg = { exp: c, eps: newEps(a, b) } a >= 0 and b >= 0 and d <= c and d >= c - 7 * DAY implies
    undistributed(k, d) + newEps(a, b) * (d - (c - 7 * DAY)) <= a + b }
  val portions = a >= 0 and b >= 0 and c >= 0 and d >= 0 and a + b + c > 0 and not(isBad(a * S7)) and not(isBad(b * S7)) and not(isBad(c * S7)) implies {
    val t = a + b + c
    val x = partOf(portion(a, t), d)
    val y = partOf(portion(b, t), d)
    val z = partOf(portion(c, t), d)
    isBad(x) or isBad(y) or isBad(z) or x + y + z <= d }
  val claimParts = a >= 0 and b >= 0 and c >= 0 and b + c > 0 implies {
    val x = claimPart(a, b, b + c)
    val y = claimPart(a, c, b + c)
    isBad(x) or isBad(y) or x + y <= a }

  // ---- what must be refuted: the same claims with a rounding or a bound the wrong way ------------------
  val wrongSupply = okRes and not(isBad(bUp(R, g))) implies bUp(R, g) * c <= g * S9
  val wrongBorrow = okRes and not(isBad(dDown(R, g))) implies dDown(R, g) * b >= g * S9
  val wrongGap = okRes and not(isBad(bDown(R, g))) implies gap(a - g, { ...R, bSup: e - bDown(R, g) }) >= gap(a, R)
  val wrongDeposit = okPb and a > 0 and not(isBad(mulC(d, a, b))) implies (b + d) * a >= b * (a + mulC(d, a, b))
  val wrongQueue = { val r = dequeue(Q, g, false, h) okQ and r.ok implies g <= ripe(Q, h) }
  val wrongIndex = okEm and c + d <= b and not(isBad(divC(a, b, e))) implies earned(c, divC(a, b, e), e) + earned(d, divC(a, b, e), e) <= a
}
