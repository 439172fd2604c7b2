/// Rules of a pool's status and configuration.
module status {
  import math.* from "./math"
  import types.* from "./types"

  /// the status after anyone's update: st before, the share of backstop deposits queued, whether the threshold is met
  pure def nextStatus(st: int, q4w: int, met: bool): int =
    if (st == 2) (if (q4w >= 7500000) 5 else 2)
    else if (st == 0) (if (not(met) or q4w >= 5000000) 3 else 0)
    else if (q4w >= 6000000) 5
    else if (q4w >= 3000000 or not(met)) 3
    else 1
  /// whether the admin may set st
  pure def maySet(st: int, q4w: int, met: bool): bool =
    if (st == 0) met and q4w < 5000000
    else if (st == 2 or st == 3) q4w < 7500000
    else st == 4
  /// a valid configuration of a reserve
  pure def validCfg(c: ResCfg): bool = and {
    c.dec <= 18, c.cf <= S7, c.lf <= S7, c.util <= 9500000, c.maxUtil <= S7, c.maxUtil > c.util,
    c.rBase < S7, c.rBase >= 1000, c.r1 <= c.r2, c.r2 <= c.r3, c.react <= 1000
  }
}
