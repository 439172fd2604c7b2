/// The status rules, for any share queued, and what a valid configuration guarantees.
module statuslemmas {
  import math.* from "../math"
  import types.* from "../types"
  import base.* from "../base"
  import status.* from "../status"

  var before: int
  var st: int
  /// share queued, and a larger one
  var more: int
  var most: int
  /// threshold met
  var met: bool
  action init = all {
    nondet s = oneOf(Set(0, 1, 2, 3, 5))
    nondet s2 = oneOf(Int)
    nondet m = oneOf(Int)
    nondet m2 = oneOf(Int)
    nondet yes = oneOf(Bool)
    all { before' = s, st' = s2, more' = m, most' = m2, met' = yes }
  }
  action step = all { before' = before, st' = st, more' = more, most' = most, met' = met }
  pure def severity(s: int): int = if (s <= 1) 0 else if (s <= 3) 1 else 2
  // anyone's update never enters a status only the admin sets; three quarters queued: frozen, unless the admin made it
  // active; half queued or below the threshold: not active
  val updateAdmin = { val x = nextStatus(before, more, met) and { x >= 0, x <= 5, x != 4, x == 0 implies before == 0, x == 2 implies before == 2 } }
  val updateFrozen = before != 0 and more >= 7500000 implies nextStatus(before, more, met) == 5
  val updateActive = severity(nextStatus(before, more, met)) == 0 implies more < 5000000 and met
  // doing it again changes nothing, but for a pool the admin had made active, which may be restricted further
  val updateTwice = { val x = nextStatus(before, more, met) before == 0 and x == 3 or nextStatus(x, more, met) == x }
  // the more is queued, the more is restricted; meeting the threshold never restricts
  val updateMore = most >= more implies severity(nextStatus(before, most, met)) >= severity(nextStatus(before, more, met))
  val updateMet = severity(nextStatus(before, more, true)) <= severity(nextStatus(before, more, false))
  val setAllowed = maySet(st, more, met) implies and { st == 0 or st == 2 or st == 3 or st == 4, st == 0 implies met and more < 5000000, st != 4 implies more < 7500000 }
  // what the admin may set, an update does not take back at once, unless it forbids less than the share queued asks for
  val setStays = maySet(st, more, met) and (st == 0 or st == 2) implies nextStatus(st, more, met) == st
  // must be refuted: a pool the admin has made active is restricted as early as any other
  val wrongSame = severity(nextStatus(before, more, met)) == severity(nextStatus(st, more, met))
}
