/// Dutch auctions: how bid and lot change with the blocks passed and the part taken.
module auction {
  import math.* from "./math"
  import types.* from "./types"

  pure def bidMod(dif: int): int =
    if (dif <= 200) S7 else if (dif < 400) S7 - (dif - 200) * 50000 else 0
  pure def lotMod(dif: int): int = if (dif <= 200) dif * 50000 else S7
  pure def posEntries(m: str -> int): str -> int =
    m.keys().filter(k => m.get(k) > 0).mapBy(k => m.get(k))

  type Scaled = { fill: Auction, rest: Auction, done: bool }
  pure def scaleAuction(a: Auction, pct: int, dif: int): Scaled = {
    val q = pct * 100000
    val bidBase = a.bid.keys().mapBy(k => mulC(a.bid.get(k), q, S7))
    val lotBase = a.lot.keys().mapBy(k => mulF(a.lot.get(k), q, S7))
    val rest = { bid: posEntries(a.bid.keys().mapBy(k => a.bid.get(k) - bidBase.get(k))),
                 lot: posEntries(a.lot.keys().mapBy(k => a.lot.get(k) - lotBase.get(k))), block: a.block }
    { fill: { bid: posEntries(a.bid.keys().mapBy(k => mulC(bidBase.get(k), bidMod(dif), S7))),
              lot: posEntries(a.lot.keys().mapBy(k => mulF(lotBase.get(k), lotMod(dif), S7))), block: a.block },
      rest: rest, done: rest.bid.keys() == Set() and rest.lot.keys() == Set() }
  }
}
