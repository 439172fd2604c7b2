/// Exact integer arithmetic of the Blend contracts (i128 with rust fixed-point
/// semantics).  Quint integers are unbounded, so i128 overflow is made explicit:
/// an operation whose intermediate product leaves i128 yields BAD, a number so
/// large that it stays out of range through every later operation; `finish` in
/// system.qnt turns any state holding such a number into a rejected call.
module math {
  pure val I128MAX = 2^127 - 1
  pure val BAD = 2^400
  pure val S7 = 10000000
  pure val S9 = 1000000000
  pure val YEAR = 31536000
  pure val WEEK = 604800
  pure val DAY = 86400

  pure def iabs(x: int): int = if (x < 0) -x else x
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b

  /// floor(x / z), z > 0  (quint's `/` truncates towards zero)
  pure def fdiv(x: int, z: int): int =
    if (x >= 0) x / z else -((-x + z - 1) / z)
  /// ceil(x / z), z > 0
  pure def cdiv(x: int, z: int): int =
    if (x > 0) (x + z - 1) / z else -((-x) / z)

  /// fixed_mul_floor(x, y, z): floor(x * y / z)
  pure def mulF(x: int, y: int, z: int): int =
    if (iabs(x * y) > I128MAX or z <= 0) BAD else fdiv(x * y, z)
  /// fixed_mul_ceil(x, y, z): ceil(x * y / z)
  pure def mulC(x: int, y: int, z: int): int =
    if (iabs(x * y) > I128MAX or z <= 0) BAD else cdiv(x * y, z)
  /// fixed_div_floor(x, y, s): floor(x * s / y)
  pure def divF(x: int, y: int, s: int): int = mulF(x, s, y)
  /// fixed_div_ceil(x, y, s): ceil(x * s / y)
  pure def divC(x: int, y: int, s: int): int = mulC(x, s, y)

  pure def satMul(a: int, b: int): int = imin(a * b, I128MAX)
  pure def isBad(x: int): bool = iabs(x) > I128MAX

  pure def getOr(m: a -> b, k: a, d: b): b =
    if (m.keys().contains(k)) m.get(k) else d
  pure def has(m: a -> b, k: a): bool = m.keys().contains(k)
  pure def del(m: a -> b, k: a): a -> b =
    m.keys().exclude(Set(k)).mapBy(x => m.get(x))
  pure def sumOver(s: Set[a], f: (a) => int): int = s.fold(0, (acc, x) => acc + f(x))
  pure def listHas(l: List[a], x: a): bool = l.foldl(false, (acc, y) => acc or y == x)
  pure def indexOf(l: List[a], x: a): int =
    l.indices().fold(-1, (acc, i) => if (l[i] == x and (acc == -1 or i < acc)) i else acc)
  pure def listToSet(l: List[a]): Set[a] = l.foldl(Set(), (acc, y) => acc.union(Set(y)))
}
