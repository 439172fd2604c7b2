"""The properties: statement, anchors, and what of a divergence falls under each.
tools/mkprops.py writes properties.jsonl, checks.json and MANIFEST.json from it."""

SUBMIT = ["submit"]
RES = ["pool.*.data.*"]
BOOKS = ["pool.*.data.*", "pool.*.pos.*", "bal.*"]

def r(ops, kinds="ok auth ret obs hang", why="*", keys="*"):
    """one rule: operations (op, or op:requestType), kinds of difference, failure reasons, observations"""
    f = lambda x: x.split() if isinstance(x, str) else list(x)
    return {"ops": f(ops), "kinds": f(kinds), "why": f(why), "keys": f(keys)}

P = []
def prop(id, title, statement, over, q, why, files, mech, profiles, rules, viol, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                  profiles=profiles, rules=rules, viol=viol, state=state or []))

TESTS = "The unit tests drive single calls from hand-built states with a few amounts; "

# ------------------------------------------------------------------------------- lending pool
prop("P01", "Pool reserves stay solvent",
 "For every reserve, the tokens the pool holds plus what borrowers owe always cover what suppliers and the backstop are owed, and no call lets that margin shrink (apart from bad debt explicitly written off). Every call that touches a reserve moves exactly as many tokens in or out of the pool as the change of the books it makes, rounded in favour of the pool.",
 ["inputs", "histories", "configurations"],
 "every sequence of pool calls, amounts, reserve decimals, rates and elapsed times",
 TESTS + "the margin is only meaningful over long mixed histories with interest, refunds, auctions and rounding at every size.",
 ["pool/src/pool/actions.rs", "pool/src/pool/submit.rs", "pool/src/pool/reserve.rs"],
 [("share/asset conversion with directed rounding", "pool/src/pool/reserve.rs to_b_token_down, to_b_token_up, to_d_token_up, to_d_token_down"),
  ("actions collect transfers that submit settles", "pool/src/pool/actions.rs build_actions_from_request; pool/src/pool/submit.rs execute_submit")],
 ["lend", "int", "bad", "liq", "mix"],
 [r("submit bad_debt set_res", "obs", keys="bal.* pool.*.data.*"), r("*", "obs", keys="pool.*.data.* bal.*.poolA bal.*.poolB"), r("submit", "ok", why="funds balance zero range negative"), r("pclaim", "obs", keys="pool.*.data.*")],
 ["gapKept", "conserved", "requestMoves", "accrues"])

prop("P02", "Reserve supplies equal the sum of the accounts' shares",
 "For every reserve, the total supply of supply shares equals the sum of all accounts' collateral and supply shares, and the total of debt shares equals the sum of all accounts' debts, after every call. No account ever holds a negative or an explicit zero balance.",
 ["inputs", "histories"],
 "every interleaving of supply, withdraw, borrow, repay, auction fills, bad debt transfers and burns by any accounts",
 TESTS + "they never sum positions over all accounts after mixed histories.",
 ["pool/src/pool/user.rs", "pool/src/pool/bad_debt.rs", "pool/src/auctions/user_liquidation_auction.rs"],
 [("every change of a position changes the reserve's supply by the same amount", "pool/src/pool/user.rs User::add_liabilities .. remove_supply"),
  ("position moves between accounts", "pool/src/pool/user.rs rm_positions, add_positions")],
 ["lend", "liq", "bad", "mix"],
 [r("*", "obs", keys="pool.*.data.*.bSup pool.*.data.*.dSup pool.*.pos.*"), r("submit bad_debt", "ok", why="balance zero")],
 ["sharesMatch", "noBadEntries"])

prop("P03", "Interest accrues exactly by the rate model",
 "Whenever a reserve is used its debt and supply exchange rates have grown by the interest due for exactly the time since the last use, at the rate the utilization, the three-slope curve and the rate modifier prescribe; the rate modifier moves with utilization, bounded to [0.1, 10]. Exchange rates never fall, interest accrues at most once per ledger, and exactly the take rate configured while it accrued of the interest goes to the backstop's credit, the rest to suppliers.",
 ["inputs", "histories", "configurations"],
 "every utilization, reserve configuration, take rate, elapsed time and history of the rate modifier",
 TESTS + "the curve, its kinks, and the compounding over irregular intervals are sampled at a dozen points.",
 ["pool/src/pool/interest.rs", "pool/src/pool/reserve.rs"],
 [("calc_accrual", "pool/src/pool/interest.rs calc_accrual"), ("Reserve::load accrues and splits interest", "pool/src/pool/reserve.rs load, gulp")],
 ["lend", "conf", "int", "mix"],
 [r("*", "obs", keys="pool.*.data.*.dRate pool.*.data.*.bRate pool.*.data.*.irMod pool.*.data.*.lastT pool.*.data.*.credit"),
  r("submit new_interest set_res bad_debt", "ok", why="range")],
 ["ratesKept", "accrues"])

prop("P04", "No request leaves its account under-collateralized",
 "A submission that borrows, withdraws collateral, fills a liquidation or bad debt auction or cancels a liquidation succeeds only if afterwards the account has no debt or its collateral, weighted by collateral factors at current prices and rates, is at least 1.00001 times its debt weighted by liability factors. Valuation rounds against the account, and requests that only reduce risk are not blocked by the check.",
 ["inputs", "histories", "configurations"],
 "every position over several reserves with different decimals and factors, every price, batch of requests and oracle precision",
 TESTS + "positions with the ratio just on either side of the limit, several reserves and mixed decimals are not explored.",
 ["pool/src/pool/submit.rs", "pool/src/pool/health_factor.rs", "pool/src/pool/actions.rs"],
 [("health factor check at the end of a submission", "pool/src/pool/submit.rs execute_submit"),
  ("position valuation", "pool/src/pool/health_factor.rs PositionData::calculate_from_positions, is_hf_under"),
  ("requests that need the check", "pool/src/pool/actions.rs check_health")],
 ["lend", "liq", "bad", "mix"],
 [r("submit", "ok", why="hf range")],
 ["healthy", "covered"])

prop("P05", "Each request moves exactly the tokens and shares it states",
 "Supplying, withdrawing, borrowing and repaying change the named account's shares by the amount converted at the current rate, rounded in the pool's favour; withdrawals and repayments beyond the balance are capped, paying out what is there or refunding the surplus. Tokens are taken only from the named spender, paid only to the named receiver, once per asset for the whole batch, and the call returns the resulting positions.",
 ["inputs", "histories"],
 "every request batch, amount (including zero, dust and maximal), spender and receiver",
 TESTS + "batches mixing kinds and assets with distinct spender and receiver and dust amounts are sampled once.",
 ["pool/src/pool/actions.rs", "pool/src/pool/submit.rs", "pool/src/pool/user.rs"],
 [("requests to share changes and transfers", "pool/src/pool/actions.rs build_actions_from_request"),
  ("settlement", "pool/src/pool/submit.rs execute_submit")],
 ["lend", "mix", "liq"],
 [r("submit:0 submit:1 submit:2 submit:3 submit:4 submit:5", "ok obs auth", why="funds balance zero range negative noreserve badreq self", keys="bal.* pool.*.pos.* pool.*.data.*.bSup pool.*.data.*.dSup"),
  r("submit", "ret"), r("*", "getter", keys="pool.*.pos.*")],
 ["noBadEntries", "conserved", "ownPositions", "requestMoves"])

prop("P06", "Borrowing never pushes a reserve over its utilization limit",
 "A borrow succeeds only if, right after it, the reserve's debt is at most its configured maximum share of what is supplied. Withdrawals, repayments and liquidations are not restricted by that limit.",
 ["inputs", "histories", "configurations"],
 "every utilization, limit, amount and batch around the limit",
 TESTS + "amounts just below and above the limit after interest has accrued are not sampled.",
 ["pool/src/pool/reserve.rs", "pool/src/pool/actions.rs"],
 [("require_utilization_below_max after a borrow", "pool/src/pool/actions.rs apply_borrow; pool/src/pool/reserve.rs require_utilization_below_max"),
  ("utilization", "pool/src/pool/reserve.rs utilization")],
 ["lend", "conf", "mix"],
 [r("submit", "ok", why="util")],
 ["utilKept"])

prop("P07", "The pool's status gates what users may do",
 "When a pool is on ice (status above 1) borrowing and cancelling liquidations are refused; when it is frozen (status above 3), and before it has been activated, supplying is refused as well. Withdrawing, repaying and filling auctions remain possible in every status.",
 ["inputs", "histories", "configurations"],
 "every status and request kind, alone and inside batches",
 TESTS + "the status/request matrix is sampled with single requests.",
 ["pool/src/pool/pool.rs", "pool/src/pool/actions.rs"],
 [("require_action_allowed for every request", "pool/src/pool/pool.rs require_action_allowed; pool/src/pool/actions.rs build_actions_from_request")],
 ["status", "lend", "mix", "conf"],
 [r("submit", "ok", why="status")],
 ["gated"])

prop("P08", "Pool status changes follow the backstop's state and the admin's limits",
 "Anyone may update the status: it becomes active, on ice or frozen strictly according to the share of backstop deposits queued for withdrawal and whether the backstop meets the minimum size, with admin-set on-ice and active statuses following their own thresholds, and admin-frozen and setup never leaving by update. The admin can only set active, on-ice, or frozen, active requires a healthy backstop, and leaving frozen or setup needs fewer than 75% of deposits queued.",
 ["inputs", "histories", "configurations"],
 "every combination of status, queued share and backstop size, at and around each threshold",
 TESTS + "each transition is tested at one or two points, not at its thresholds from every status.",
 ["pool/src/pool/status.rs", "pool/src/pool/pool.rs"],
 [("execute_update_pool_status / execute_set_pool_status", "pool/src/pool/status.rs"), ("backstop threshold", "pool/src/pool/status.rs calc_pool_backstop_threshold")],
 ["status", "bstop", "mix"],
 [r("update_status set_status"), r("*", "obs", keys="pool.*.status")],
 ["configKept", "statusMoves"])

prop("P09", "An account never opens more positions than the pool allows",
 "A submission that increases the number of distinct collateral and debt positions of an account succeeds only if the new number is within the pool's maximum. Plain supply does not count, and accounts already above a lowered maximum can still reduce risk.",
 ["inputs", "histories", "configurations"],
 "every maximum, including one lowered after positions were opened, and every batch",
 TESTS + "limits lowered under open positions and batches that open and close positions are not explored.",
 ["pool/src/pool/submit.rs", "pool/src/pool/user.rs", "pool/src/pool/pool.rs"],
 [("require_under_max", "pool/src/pool/pool.rs require_under_max"), ("effective_count", "pool/src/pool/user.rs effective_count")],
 ["lend", "liq", "conf", "mix"],
 [r("submit", "ok", why="maxpos")],
 ["countKept"])

prop("P10", "Stale or missing oracle prices are never used",
 "Whenever a call needs the price of an asset, it fails if the oracle has none or if the price is more than 24 hours old. Calls that need no valuation are not affected by stale prices.",
 ["inputs", "histories"],
 "every age of every asset's price, in every call that values positions or auctions",
 TESTS + "staleness is tested for one call and one asset at one age.",
 ["pool/src/pool/pool.rs", "pool/src/pool/health_factor.rs"],
 [("load_price checks age", "pool/src/pool/pool.rs load_price"), ("valuation loads every price it uses", "pool/src/pool/health_factor.rs calculate_from_positions")],
 ["lend", "liq", "int", "bad", "mix"],
 [r("submit new_liq new_bad_debt new_interest", "ok", why="stale")],
 ["fresh"])

prop("P11", "Liquidation auctions start only against unhealthy accounts, right-sized",
 "A liquidation auction can be created only for an account whose weighted debt exceeds its weighted collateral and that has no such auction running, never for the pool or the backstop. Its bid is the requested share of the debts and its lot the collateral worth that debt plus an incentive derived from the position's average factors; a partial liquidation must leave the account between 1.03 and 1.15, and a full one is allowed only when the account is that deep under water.",
 ["inputs", "histories", "configurations"],
 "every position, price and percentage, several reserves with different factors and decimals",
 TESTS + "the acceptable percentage window depends on the whole position and is sampled for a few positions only.",
 ["pool/src/auctions/user_liquidation_auction.rs", "pool/src/auctions/auction.rs", "pool/src/pool/health_factor.rs"],
 [("create_user_liq_auction_data", "pool/src/auctions/user_liquidation_auction.rs"), ("create_liquidation", "pool/src/auctions/auction.rs")],
 ["liq", "bad", "mix"],
 [r("new_liq", "ok obs ret auth hang"), r("*", "obs", keys="pool.*.auc.0.*")],
 ["auctionsKept", "liquidationBid", "rightSized"])

prop("P12", "Auctions scale with time and partial fills exactly conserve bid and lot",
 "Filling p percent of an auction charges and pays p percent of its bid and lot, the lot scaled up linearly from 0 to 100% over the first 200 ledgers and the bid down to 0 over the next 200, rounding the bid up and the lot down. What a partial fill leaves is exactly the unscaled remainder, keeping its start block, and the auction disappears once nothing is left; fills outside 1..100 percent or before the start block fail.",
 ["inputs", "histories"],
 "every elapsed number of ledgers, percentage and sequence of partial fills, for each kind of auction",
 TESTS + "scaling is sampled at a few block offsets and chains of partial fills are barely tested.",
 ["pool/src/auctions/auction.rs"],
 [("scale_auction", "pool/src/auctions/auction.rs scale_auction"), ("fill", "pool/src/auctions/auction.rs fill")],
 ["liq", "bad", "int", "mix"],
 [r("submit:6 submit:7 submit:8", "ok obs hang", why="fill noauction self zero balance range funds", keys="pool.*.auc.* pool.*.pos.* bal.* bs.pool.* pool.*.data.*.credit pool.*.data.*.bSup pool.*.data.*.dSup"), r("*", "obs getter", keys="pool.*.auc.*")],
 ["auctionsKept", "liquidates", "debtSold", "interestSold"])

prop("P13", "Liquidation fills move exactly the scaled lot and bid to the filler",
 "Filling a liquidation auction takes the scaled collateral and debt from the liquidated account and gives precisely those to the filler, creating and destroying nothing, and the filler must be healthy afterwards. Nobody can fill their own auction, and a liquidation can be cancelled only by its owner, when healthy again.",
 ["inputs", "histories"],
 "every auction, percentage, elapsed time and filler position",
 TESTS + "fills by accounts with existing positions and in batches with repayments are sampled once.",
 ["pool/src/auctions/user_liquidation_auction.rs", "pool/src/pool/user.rs", "pool/src/pool/actions.rs"],
 [("fill_user_liq_auction", "pool/src/auctions/user_liquidation_auction.rs"), ("delete liquidation request", "pool/src/pool/actions.rs; pool/src/auctions/auction.rs delete_liquidation")],
 ["liq", "bad", "mix"],
 [r("submit:6", "ok obs ret hang", why="fill noauction self zero balance range funds hf maxpos", keys="pool.*.pos.* pool.*.data.* pool.*.auc.0.* bal.*"),
  r("submit:9", "ok obs", why="noauction hf status", keys="pool.*.auc.*")],
 ["ownPositions", "auctionsKept", "noBadEntries", "liquidates"])

prop("P14", "Bad debt moves to the backstop and is auctioned or written off",
 "Only an account with debts and no collateral can have its bad debt assigned, and then all its debts go to the backstop unchanged. A bad debt auction offers all of the backstop's debts against at most the pool's backstop tokens, worth 1.4 times the debt; fills move debt to the filler and draw the scaled tokens, and the remaining debt is written off, which ends the auction, only when the backstop is down to almost nothing.",
 ["inputs", "histories", "configurations"],
 "every debt, price, backstop size and fill sequence",
 TESTS + "the life of bad debt across several partial fills, an emptied backstop and other assets is sampled once.",
 ["pool/src/pool/bad_debt.rs", "pool/src/auctions/bad_debt_auction.rs"],
 [("transfer_bad_debt_to_backstop, burn_backstop_bad_debt", "pool/src/pool/bad_debt.rs"), ("create/fill_bad_debt_auction", "pool/src/auctions/bad_debt_auction.rs")],
 ["bad", "mix"],
 [r("bad_debt new_bad_debt"), r("submit:7", "ok obs hang", why="fill noauction self zero balance range funds lp hf", keys="pool.*.pos.* pool.*.data.* pool.*.auc.1.* bal.* bs.pool.*"), r("*", "obs", keys="pool.*.auc.1.* pool.*.pos.backstop.*")],
 ["sharesMatch", "auctionsKept", "debtSold", "priceTags", "badMoved", "offered"])

prop("P15", "The backstop's interest share is auctioned for backstop tokens",
 "An interest auction can be created only when none is running and the listed reserves' accumulated backstop credit is worth more than 200 units of the oracle's base asset; it offers exactly that credit and asks 1.4 times its value in backstop tokens. A fill pays out the scaled lot, reduces the credit by exactly that, and donates the scaled bid to the pool's backstop. Whatever happens between, the credit offered stays there until it is sold.",
 ["inputs", "histories", "configurations"],
 "every set of reserves, credit, price, elapsed time and fill sequence",
 TESTS + "credit that keeps accruing during partial fills and reserves without credit are sampled once.",
 ["pool/src/auctions/backstop_interest_auction.rs"],
 [("create_interest_auction_data, fill_interest_auction", "pool/src/auctions/backstop_interest_auction.rs")],
 ["int", "mix"],
 [r("new_interest"), r("submit:8", "ok obs hang", why="fill noauction self zero range funds notpool", keys="pool.*.data.*.credit pool.*.auc.2.* bal.* bs.pool.*"), r("*", "obs", keys="pool.*.auc.2.* pool.*.data.*.credit")],
 ["auctionsKept", "gapKept", "interestSold", "priceTags", "offered"])

prop("P16", "Reserve settings change only by valid, week-old queued proposals",
 "A reserve can be added or changed only through a proposal the admin queued, at least seven days earlier unless the pool was still in setup, and only with parameters within their documented bounds. A queued proposal cannot be overwritten, can be cancelled by the admin, is consumed when applied, and never changes a reserve's index or decimals or its balances.",
 ["inputs", "histories", "configurations"],
 "every configuration around each bound, and every order of queue, cancel, apply and time",
 TESTS + "one field at a time is checked at one invalid value, and the timelock around its deadline once.",
 ["pool/src/pool/config.rs", "pool/src/contract.rs"],
 [("execute_queue_set_reserve, execute_cancel_queued_set_reserve, execute_set_reserve", "pool/src/pool/config.rs"), ("require_valid_reserve_metadata", "pool/src/pool/config.rs")],
 ["conf", "mix"],
 [r("queue_res cancel_res set_res", "ok obs ret auth hang"), r("*", "obs", keys="pool.*.cfg.* pool.*.queued.* pool.*.resList.*")],
 ["configKept"])

prop("P17", "Pool administration is bounded and reserved to the admin",
 "Only the current admin can change a pool's take rate, position limit, status, emission split, reserve proposals or admin, and handing over the role also needs the new admin's consent. The take rate stays below 100%, and a pool is initialized exactly once, with the admin's consent and valid arguments.",
 ["inputs", "histories", "configurations"],
 "every caller, argument and order of administrative calls",
 TESTS + "authorization is mostly mocked in tests, so a missing check goes unnoticed.",
 ["pool/src/contract.rs", "pool/src/pool/config.rs"],
 [("admin.require_auth on every admin entry point", "pool/src/contract.rs"), ("execute_initialize, execute_update_pool", "pool/src/pool/config.rs")],
 ["conf", "fac", "status", "mix"],
 [r("set_status update_pool set_admin set_emis queue_res cancel_res pinit pnew", "ok auth obs", why="auth init poolargs statusarg emisargs", keys="pool.*.admin pool.*.rate pool.*.maxPos pool.*.oracle fac.*"), r("*", "obs", keys="pool.*.admin pool.*.rate pool.*.maxPos pool.*.oracle"),
  r("update_pool set_admin pinit pnew")],
 ["configKept"])

prop("P18", "Supplier and borrower emissions accrue pro rata and are paid once",
 "While a reserve's emissions run, each account's claimable emissions grow by the emission rate times its share of that reserve's debt or supply over exactly the time it held it, never beyond the expiration, and are never lost or duplicated by later changes of the position. A claim pays the sum over the listed reserves out of the allowance from the backstop to the receiver, and zeroes it.",
 ["inputs", "histories", "configurations"],
 "every history of position changes, claims, reconfigurations and expirations",
 TESTS + "the accrual is tested per call from hand-set indices, not over histories where every mutation path must accrue first.",
 ["pool/src/emissions/distributor.rs", "pool/src/pool/user.rs"],
 [("update_emissions before every share change", "pool/src/pool/user.rs; pool/src/emissions/distributor.rs update_emissions"), ("execute_claim", "pool/src/emissions/distributor.rs execute_claim")],
 ["emis", "liq", "bad", "mix"],
 [r("pclaim"), r("*", "obs", keys="pool.*.eData.* pool.*.uEmis.*"), r("submit bad_debt new_liq", "ok", why="range")],
 ["indicesKept", "poolBlnd", "claimed", "earns"])

prop("P19", "A pool distributes gulped emissions to its reserves as configured",
 "When a pool collects its emissions from the backstop, each configured reserve token gets its configured share of the new amount plus what its running period had left, spread evenly over the next seven days, after its index was brought up to date. The shares the admin sets must be valid reserve tokens and add up to at most 100%.",
 ["inputs", "histories", "configurations"],
 "every split, amount, moment within a running period, and change of the split in between",
 TESTS + "rolled-over remainders and changed splits are sampled once.",
 ["pool/src/emissions/manager.rs"],
 [("gulp_emissions, set_pool_emissions, update_reserve_emission_config", "pool/src/emissions/manager.rs")],
 ["emis", "conf", "mix"],
 [r("pgulp set_emis"), r("*", "obs", keys="pool.*.eCfg.* pool.*.emisShare.*")],
 ["configKept", "indicesKept", "handedOut"])

prop("P20", "Pools are isolated from each other",
 "A call on one pool never changes another pool's reserves, positions, auctions, configuration or token balances (unless its tokens are sent there), nor the backstop deposits and allowance set aside for another pool. Only the owner's authorized calls, the filling of an auction against the account, or the assignment of its bad debt change an account's positions.",
 ["inputs", "histories"],
 "every interleaving of calls on two pools that share assets, users and the backstop",
 "The tests use one pool at a time.",
 ["pool/src/storage.rs", "backstop/src/storage.rs", "backstop/src/backstop/fund_management.rs"],
 [("each pool is its own contract", "pool/src/storage.rs"), ("backstop balances keyed by pool", "backstop/src/storage.rs")],
 ["mix", "lend", "bstop", "bad"],
 [r("submit bad_debt update_status set_status update_pool set_admin queue_res cancel_res set_res set_emis pgulp pclaim new_liq new_bad_debt new_interest", "obs", keys="@other"),
  r("submit bad_debt", "obs", keys="pool.*.pos.*"), r("bdraw", "ok", why="funds"), r("bdeposit bqueue bdequeue bwithdraw bdonate bdraw", "obs", keys="@otherbs")],
 ["isolated", "ownPositions"])

# ------------------------------------------------------------------------------- backstop
prop("B01", "Backstop deposits are always fully backed by held tokens",
 "The backstop holds at least as many backstop tokens as all pools' deposits together, deposits and withdrawals move exactly the stated tokens between the depositor and the backstop, and a withdrawal pays the proportional value of the shares, rounded down. A deposit mints shares at the current value, rounded down and never zero, and needs a pool known to the factory or one that already has deposits.",
 ["inputs", "histories"],
 "every history of deposits, withdrawals, draws, donations and claims over several pools",
 TESTS + "token backing over all pools and histories is never summed.",
 ["backstop/src/backstop/deposit.rs", "backstop/src/backstop/withdrawal.rs", "backstop/src/backstop/pool.rs"],
 [("execute_deposit, execute_withdraw", "backstop/src/backstop/deposit.rs; backstop/src/backstop/withdrawal.rs"), ("convert_to_shares, convert_to_tokens", "backstop/src/backstop/pool.rs")],
 ["bstop", "rz", "fac", "mix"],
 [r("bdeposit bwithdraw bqueue bdequeue bdonate bdraw bclaim", "obs ret", keys="bal.lp.* bs.pool.* bs.user.*"), r("bdeposit bwithdraw", "ok", why="*")],
 ["bsSolvent", "bsShares", "backstopMoves"])

prop("B02", "Backstop deposits leave only after 21 days in the queue",
 "Shares can be withdrawn only from queue entries at least 21 days old, oldest first; queueing stops them earning emissions and dequeuing takes the newest commitments back without shortening any other entry's wait. At most 21 entries exist per depositor and pool, and nobody can queue, dequeue or withdraw more than they have.",
 ["inputs", "histories"],
 "every sequence of queueing, dequeuing and withdrawing amounts and of times around each deadline",
 TESTS + "multi-entry queues with partial amounts at the exact deadline are sampled a few times.",
 ["backstop/src/backstop/user.rs", "backstop/src/backstop/withdrawal.rs"],
 [("queue_shares_for_withdrawal, dequeue_shares, withdraw_shares", "backstop/src/backstop/user.rs"), ("withdrawal entry points", "backstop/src/backstop/withdrawal.rs")],
 ["bstop", "status", "mix"],
 [r("bqueue bdequeue bwithdraw"), r("*", "obs getter", keys="bs.user.*.q.* bs.pool.*.q4w")],
 ["queueKept", "bsShares", "backstopMoves"])

prop("B03", "The value of a backstop share falls only when the pool draws",
 "No deposit, withdrawal, queueing, donation, claim or distribution lowers the token value of a pool's backstop shares; only a draw does. The pool's recorded shares, tokens and queued shares are exactly the sums over its depositors.",
 ["inputs", "histories"],
 "every history and amount, including dust deposits after large donations and draws",
 TESTS + "rounding of conversions after uneven histories is not explored.",
 ["backstop/src/backstop/pool.rs", "backstop/src/backstop/fund_management.rs", "backstop/src/emissions/claim.rs"],
 [("PoolBalance", "backstop/src/backstop/pool.rs deposit, withdraw, queue_for_withdraw, dequeue_q4w"), ("claim deposits", "backstop/src/emissions/claim.rs execute_claim")],
 ["bstop", "emis", "bad", "mix"],
 [r("bdeposit bqueue bdequeue bwithdraw bdonate bdraw bclaim", "obs ret", keys="bs.pool.* bs.user.*"), r("*", "obs", keys="bs.pool.*"), r("bdeposit bwithdraw", "ok", why="mint")],
 ["priceKept", "bsShares"])

prop("B04", "Backstop emissions accrue pro rata to unqueued shares and are paid once",
 "A depositor's claimable emissions grow by the pool's emission rate times their share of the unqueued deposits over exactly the time they held it, never past the expiration, and every change of shares or queue settles them first. A claim pays the sum over the listed pools once, converts it to backstop tokens and deposits those for the receiver into the same pools in proportion.",
 ["inputs", "histories", "configurations"],
 "every history of deposits, queueing, claims to oneself and others, over several pools",
 TESTS + "accrual is tested per call from hand-set indices.",
 ["backstop/src/emissions/distributor.rs", "backstop/src/emissions/claim.rs"],
 [("update_emissions before every share change", "backstop/src/emissions/distributor.rs"), ("execute_claim", "backstop/src/emissions/claim.rs")],
 ["emis", "bstop", "mix"],
 [r("bclaim"), r("*", "obs", keys="bs.uEmis.* bs.eData.*"), r("bdeposit bqueue bdequeue", "ok", why="range")],
 ["indicesKept", "bsBlnd", "bclaimed", "bearns"])

prop("B05", "Emissions are split 70/30 and by size among the reward zone",
 "Distributing the emissions received since the last time (allowed only when over an hour's worth is new) gives 70% to backstop depositors and 30% to pools, each reward zone pool getting the share of its unqueued tokens among all of them. Depositors' part is spread over seven days together with what the running period had left, and the pool's part is added to what it may collect.",
 ["inputs", "histories"],
 "every set of pools, sizes, queued amounts and distribution times",
 TESTS + "a fixed zone of two or three pools with round sizes is sampled.",
 ["backstop/src/emissions/manager.rs"],
 [("gulp_emissions, set_backstop_emission_eps", "backstop/src/emissions/manager.rs")],
 ["emis", "rz", "bstop", "mix"],
 [r("bgulp"), r("*", "obs", keys="bs.eCfg.* bs.poolEmis.* bs.lastDist")],
 ["bsBlnd", "indicesKept", "split"])

prop("B06", "The reward zone admits only qualified pools and never too many",
 "A pool enters the reward zone only if its backstop meets the minimum size and it is not already in; the zone's size grows by one about every 97 days from ten. When it is full a newcomer must replace a member with strictly fewer backstop tokens, and only if emissions were distributed within the last day.",
 ["inputs", "histories"],
 "every zone, candidate, victim, size and time around each limit",
 TESTS + "limits are tested at one point each.",
 ["backstop/src/emissions/manager.rs", "backstop/src/backstop/pool.rs"],
 [("add_to_reward_zone", "backstop/src/emissions/manager.rs"), ("require_pool_above_threshold", "backstop/src/backstop/pool.rs")],
 ["rz", "fac", "mix"],
 [r("badd_reward"), r("*", "obs", keys="bs.rz.*")],
 ["rewardZone", "admitted"])

prop("B07", "Only the pool itself can draw on its backstop, and donations need consent",
 "Backstop tokens leave a pool's deposits without a withdrawal only by a draw the pool itself authorizes, up to what is deposited, to the receiver it names. Donations need the donor's and the pool's authorization, add exactly the donated tokens, and mint no shares.",
 ["inputs", "histories"],
 "every caller, pool, amount and receiver",
 TESTS + "authorization is mocked.",
 ["backstop/src/backstop/fund_management.rs", "backstop/src/contract.rs"],
 [("pool_address.require_auth in draw and donate", "backstop/src/contract.rs"), ("execute_draw, execute_donate", "backstop/src/backstop/fund_management.rs")],
 ["bstop", "bad", "int", "mix"],
 [r("bdraw bdonate"), r("submit:7 submit:8", "obs ok", why="funds notpool self", keys="bs.pool.* bal.lp.*")],
 ["bsSolvent", "isolated", "backstopMoves"])

prop("B08", "The backstop's BLND covers everything it has promised",
 "The BLND held by the backstop always covers what pools may still collect, the allowances they have not used, and all depositors' unclaimed emissions. A pool's allowance grows only by the emissions assigned to it, which it can collect once, and only with its own authorization.",
 ["inputs", "histories"],
 "every history of distributions, pool collections, claims and transfers",
 TESTS + "promises are never summed over pools and users.",
 ["backstop/src/emissions/manager.rs", "backstop/src/emissions/claim.rs", "pool/src/emissions/manager.rs"],
 [("gulp_pool_emissions", "backstop/src/emissions/manager.rs"), ("claims", "backstop/src/emissions/claim.rs; pool/src/emissions/distributor.rs")],
 ["emis", "bstop", "rz", "mix"],
 [r("bgulp_pool pgulp bgulp bclaim pclaim"), r("*", "obs", keys="allow.* bal.blnd.backstop bs.poolEmis.*")],
 ["bsBlnd", "poolBlnd", "handedOut", "claimed"])

prop("B09", "The backstop token's value is refreshed from the liquidity pool",
 "Refreshing the token value records exactly the liquidity pool's BLND and USDC per share, rounded down, and the pool data served to lending pools is that value times the pool's tokens plus its queued share, rounded up. Before the first refresh, everything that depends on the value fails.",
 ["inputs", "histories"],
 "every composition of the liquidity pool and backstop balance",
 TESTS + "one composition is sampled.",
 ["backstop/src/backstop/fund_management.rs", "backstop/src/backstop/pool.rs"],
 [("execute_update_comet_token_value", "backstop/src/backstop/fund_management.rs"), ("load_pool_backstop_data", "backstop/src/backstop/pool.rs")],
 ["bstop", "status", "int", "mix"],
 [r("bupdate_val"), r("*", "obs getter", keys="bs.lp* view.*"), r("update_status set_status badd_reward new_interest new_bad_debt", "ok", why="lp threshold small")],
 ["valued"])

# ------------------------------------------------------------------------------- emitter, factory, system
prop("E01", "The emitter mints exactly one BLND per second to the current backstop",
 "Each distribution mints one BLND for every second since the previous distribution, to the current backstop and to nobody else, so that over any history the total equals the elapsed time. No other call mints BLND, apart from the one-off drop.",
 ["histories", "inputs"],
 "every sequence of distributions, swaps, drops and times",
 TESTS + "a distribution is tested in isolation.",
 ["emitter/src/emitter.rs"],
 [("execute_distribute", "emitter/src/emitter.rs")],
 ["em", "emis", "rz", "mix"],
 [r("distribute"), r("swap queue_swap cancel_swap edrop bdrop bgulp", "obs", keys="bal.blnd.* em.last.*"), r("*", "obs getter", keys="em.last.*")],
 ["minted"])

prop("E02", "The backstop is replaced only by a larger one after 31 days",
 "A swap can be queued only by a candidate holding strictly more of the current backstop token than the current backstop, only one at a time, and executed only 31 days later if that still holds; it can be cancelled exactly when it no longer holds. Executing it first pays the old backstop everything due and starts the new one's clock at that moment.",
 ["histories", "inputs"],
 "every order of queueing, cancelling, executing and balance changes around equality and the deadline",
 TESTS + "each step is tested at one balance and one time.",
 ["emitter/src/backstop_manager.rs"],
 [("execute_queue_swap_backstop, execute_cancel_swap_backstop, execute_swap_backstop, is_new_backstop_is_larger", "emitter/src/backstop_manager.rs")],
 ["em", "mix"],
 [r("queue_swap cancel_swap swap"), r("*", "obs getter", keys="em.swap.* em.backstop em.token")],
 ["swapSound", "minted"])

prop("E03", "Each backstop gets at most one drop, capped at 50 million BLND",
 "Only the current backstop can trigger a drop, at most once per backstop, of at most 50 million BLND in total, to exactly the listed addresses. The backstop's own drop pays exactly the list fixed at its initialization.",
 ["histories", "inputs"],
 "every list of recipients and amounts, before and after swaps",
 TESTS + "one valid and one invalid list are sampled.",
 ["emitter/src/emitter.rs", "backstop/src/contract.rs"],
 [("execute_drop", "emitter/src/emitter.rs"), ("drop", "backstop/src/contract.rs")],
 ["em", "mix"],
 [r("edrop bdrop"), r("*", "obs", keys="em.dropped.*")],
 ["minted", "dropped"])

prop("F01", "The factory vouches only for pools it deployed, each with valid, fixed wiring",
 "Deploying a pool needs the admin's authorization and valid arguments, initializes it once with the factory's backstop and BLND token, and at most one pool exists per admin and salt. Exactly the deployed addresses are reported as pools, forever, and only those can receive first backstop deposits.",
 ["inputs", "histories"],
 "every sequence of deployments, arguments, salts and queries",
 TESTS + "a single deployment is tested.",
 ["pool-factory/src/pool_factory.rs", "pool-factory/src/storage.rs", "backstop/src/backstop/pool.rs"],
 [("deploy, is_pool", "pool-factory/src/pool_factory.rs"), ("require_is_from_pool_factory", "backstop/src/backstop/pool.rs")],
 ["fac", "mix"],
 [r("deploy finit pnew"), r("*", "obs", keys="fac.*"), r("bdeposit bdonate", "ok", why="notpool self")],
 ["factoryKept"])

prop("X01", "Every call that spends or decides for someone needs their authorization",
 "Each state-changing call succeeds only with the authorization of exactly the parties it acts for: the account and spender of a submission, the claimer, the depositor, the pool for its backstop funds, the admin for administration, the new admin for a hand-over, the backstop for a drop. Calls meant to be permissionless need none.",
 ["inputs", "histories"],
 "every entry point of all four contracts, from every reachable state",
 "The unit tests mock all authorizations, so a missing or misplaced check passes them.",
 ["pool/src/contract.rs", "backstop/src/contract.rs", "emitter/src/emitter.rs", "pool-factory/src/pool_factory.rs"],
 [("require_auth at the entry points", "pool/src/contract.rs; backstop/src/contract.rs; pool-factory/src/pool_factory.rs; emitter/src/emitter.rs")],
 ["mix", "conf", "em", "fac", "emis", "bstop"],
 [r("*", "auth"), r("*", "ok", why="auth")],
 [])

prop("X02", "Contracts are initialized once",
 "After a pool, backstop, emitter or factory has been initialized, initializing it again always fails and changes nothing. Pools start in setup and every other contract with exactly the given wiring.",
 ["inputs", "histories"],
 "every later state and argument list",
 TESTS + "re-initialization is tried once right after initialization.",
 ["pool/src/pool/config.rs", "backstop/src/contract.rs", "emitter/src/contract.rs", "pool-factory/src/pool_factory.rs"],
 [("initialization guards", "pool/src/pool/config.rs execute_initialize; backstop/src/contract.rs; emitter/src/contract.rs; pool-factory/src/pool_factory.rs")],
 ["fac", "em", "conf", "mix"],
 [r("pinit binit einit finit pnew genesis"), r("*", "obs", keys="spare.* *.wiring pool.*.backstop pool.*.blnd pool.*.name"), r("*", "ok", why="init"), r("deploy", "obs ok", keys="fac.*")],
 ["atomic", "wiredOnce"])

prop("X03", "Read-only queries report the true state",
 "The positions, auctions, balances, pool data, backstop, distribution times and queued swap reported by the contracts' queries, and the positions and auctions returned by calls, are exactly the stored state at that moment. Querying never changes anything.",
 ["inputs", "histories"],
 "every reachable state",
 TESTS + "queries are compared with the state in a few places only.",
 ["pool/src/contract.rs", "backstop/src/contract.rs", "emitter/src/contract.rs"],
 [("get_positions, get_auction, user_balance, pool_data, get_backstop, get_last_distro, get_queued_swap, is_pool", "pool/src/contract.rs; backstop/src/contract.rs; emitter/src/contract.rs; pool-factory/src/pool_factory.rs")],
 ["mix", "liq", "bstop", "em", "int"],
 [r("*", "getter"), r("*", "ret"), r("*", "obs", keys="view.* fac.is.*")],
 [])

prop("X04", "Events tell exactly what happened",
 "Every successful call publishes its events with the true parties and amounts: tokens as actually moved (a repayment or withdrawal beyond the position counts only up to it) with the shares or positions that changed, deposits, queueing, draws, donations and claims, each fill with filler and requested percentage, each new auction with what it holds, each bad debt, and each change of configuration, status, admin, emission or emitter queue. Nothing else is published, and a failed call publishes nothing.",
 ["inputs", "histories"],
 "every successful call of the pools, the backstop, the emitter and the factory, in every reachable history",
 TESTS + "the events of a few calls are compared, while indexers and liquidators see the protocol only through them.",
 ["pool/src/pool/actions.rs", "pool/src/contract.rs", "backstop/src/contract.rs", "emitter/src/contract.rs", "pool-factory/src/pool_factory.rs"],
 [("publication of events", "pool/src/pool/actions.rs; pool/src/contract.rs; pool/src/pool/bad_debt.rs; pool/src/auctions/bad_debt_auction.rs; pool/src/emissions/manager.rs; backstop/src/contract.rs; backstop/src/emissions/claim.rs; emitter/src/contract.rs; pool-factory/src/pool_factory.rs")],
 ["mix", "liq", "bad", "bstop", "int", "em", "conf", "emis", "fac"],
 [r("*", "event", keys="event.*")],
 [])
