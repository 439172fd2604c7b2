/// Abstract state of the whole system: one record per contract.
module types {
  /// A reserve's configuration
  type ResCfg = { index: int, dec: int, cf: int, lf: int, util: int, maxUtil: int,
                  rBase: int, r1: int, r2: int, r3: int, react: int }
  /// A reserve's accounting data
  type ResData = { dRate: int, bRate: int, irMod: int, bSup: int, dSup: int,
                   credit: int, lastT: int }
  /// Shares held by one account: maps reserve index -> shares, no zero entries
  type Pos = { liab: int -> int, coll: int -> int, sup: int -> int }
  type Auction = { bid: str -> int, lot: str -> int, block: int }
  type EmisCfg = { exp: int, eps: int }
  type EmisData = { index: int, last: int }
  type UEmis = { index: int, accrued: int }
  type Queued = { cfg: ResCfg, unlock: int }

  type PoolS = {
    admin: str, rate: int, status: int, maxPos: int, oracle: str,
    resList: List[str], cfg: str -> ResCfg, data: str -> ResData, queued: str -> Queued,
    pos: str -> Pos, auctions: (int, str) -> Auction,
    emisShare: int -> int, eCfg: int -> EmisCfg, eData: int -> EmisData,
    uEmis: (str, int) -> UEmis
  }

  type PoolBal = { shares: int, tokens: int, q4w: int }
  type Q4W = { amount: int, exp: int }
  type UserBal = { shares: int, q4w: List[Q4W] }
  type BsS = {
    poolBal: str -> PoolBal, userBal: (str, str) -> UserBal,   // (pool, user)
    rz: List[str], lastDist: int, poolEmis: str -> int,
    eCfg: str -> EmisCfg, eData: str -> EmisData, uEmis: (str, str) -> UEmis,
    lpSet: bool, lpBlnd: int, lpUsdc: int,
    drops: List[(str, int)]
  }
  type Swap = { nb: str, nt: str, unlock: int }
  type EmS = { backstop: str, token: str, last: str -> int, dropped: Set[str], swap: List[Swap] }
  type Allow = { amt: int, exp: int }
  type Price = { p: int, t: int }

  /// a pool created through the factory (or, outside it, by initializing the spare pool "poolN")
  type Dep = { name: str, admin: str, salt: str, oracle: str, rate: int, maxPos: int }
  type FacS = { pools: Set[str], dep: List[Dep] }

  /// what a contract outside the system was initialized with, and when its backstop was last paid
  type Spare = { s: List[str], t: int }

  /// something a contract told the world: who, what about, which addresses and which numbers
  type Ev = { c: str, t: str, s: List[str], n: List[int] }

  type World = {
    ok: bool,                      // false: the call being executed has failed
    why: str,                      // if it has failed: the first requirement it missed
    ret: int,                      // scalar result of the call
    ev: List[Ev],                  // events published by the call
    now: int, seq: int,            // ledger timestamp and sequence
    bal: (str, str) -> int,        // (token, holder) -> balance
    allow: str -> Allow,           // BLND allowance backstop -> pool
    lapsed: Set[str],              // ghost: pools one of whose allowances expired unused
    price: (str, str) -> Price,    // (oracle, asset)
    cometSupply: int, cometRate: int,
    pools: str -> PoolS, bs: BsS, em: EmS,
    fac: FacS,                     // the pool factory: pools it vouches for
    spare: str -> Spare            // contracts outside the system that somebody has initialized
  }

  type Req = { rt: int, addr: str, amt: int }
  /// One call against the system
  type Op = { op: str, s: List[str], n: List[int], reqs: List[Req] }
}
