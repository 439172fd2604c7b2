/// World-level helpers: sticky failure, tokens, allowances, oracle prices.
module base {
  import math.* from "./math"
  import types.* from "./types"

  pure val BACKSTOP = "backstop"
  pure val BLND = "blnd"
  pure val USDC = "usdc"
  pure val LP = "lp"
  pure val LP2 = "lp2"

  /// the call fails; the first reason given sticks
  pure def bail(w: World, y: str): World = if (w.ok) { ...w, ok: false, why: y } else w
  pure def need(w: World, y: str, c: bool): World = if (c) w else bail(w, y)

  pure def emit(w: World, c: str, t: str, s: List[str], n: List[int]): World =
    { ...w, ev: w.ev.append({ c: c, t: t, s: s, n: n }) }

  // ---- tokens -------------------------------------------------------------
  pure def balOf(w: World, tok: str, a: str): int = getOr(w.bal, (tok, a), 0)
  pure def addBal(w: World, tok: str, a: str, d: int): World =
    { ...w, bal: w.bal.put((tok, a), balOf(w, tok, a) + d) }
  pure def mintTok(w: World, tok: str, a: str, amt: int): World =
    if (not(w.ok)) w
    else if (amt < 0 or balOf(w, tok, a) + amt > I128MAX) bail(w, "range")
    else addBal(w, tok, a, amt)
  pure def transfer(w: World, tok: str, frm: str, rcv: str, amt: int): World =
    if (not(w.ok)) w
    else if (amt < 0 or balOf(w, tok, frm) < amt) bail(w, "funds")
    else addBal(addBal(w, tok, frm, -amt), tok, rcv, amt)

  // ---- oracle -------------------------------------------------------------
  pure def oracleDec(o: str): int = if (o == "oracleB") 9 else 7
  pure def oracleScalar(o: str): int = 10 ^ oracleDec(o)
  /// a price exists and is at most 24 hours old
  pure def priceOk(w: World, o: str, a: str): bool =
    has(w.price, (o, a)) and w.price.get((o, a)).t + DAY >= w.now
  pure def priceOf(w: World, o: str, a: str): int = w.price.get((o, a)).p
}
