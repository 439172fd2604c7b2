"""Mutants of the contracts used to measure the checks: (id, property, file, old text, new text).
tools/mutate.py applies them one at a time to a scratch copy."""
M = []
def m(id, prop, file, old, new): M.append((id, prop, file, old, new))
A = "pool/src/pool/actions.rs"; U = "pool/src/pool/user.rs"; S = "pool/src/pool/submit.rs"; R = "pool/src/pool/reserve.rs"
I = "pool/src/pool/interest.rs"; H = "pool/src/pool/health_factor.rs"; PP = "pool/src/pool/pool.rs"; C = "pool/src/pool/config.rs"
ST = "pool/src/pool/status.rs"; BD = "pool/src/pool/bad_debt.rs"; AU = "pool/src/auctions/auction.rs"
UL = "pool/src/auctions/user_liquidation_auction.rs"; BA = "pool/src/auctions/bad_debt_auction.rs"; IA = "pool/src/auctions/backstop_interest_auction.rs"
EM = "pool/src/emissions/manager.rs"; ED = "pool/src/emissions/distributor.rs"; PC = "pool/src/contract.rs"
BU = "backstop/src/backstop/user.rs"; BW = "backstop/src/backstop/withdrawal.rs"; BDp = "backstop/src/backstop/deposit.rs"
BF = "backstop/src/backstop/fund_management.rs"; BP = "backstop/src/backstop/pool.rs"; BM = "backstop/src/emissions/manager.rs"
BE = "backstop/src/emissions/distributor.rs"; BC = "backstop/src/emissions/claim.rs"; BX = "backstop/src/contract.rs"
E = "emitter/src/emitter.rs"; EB = "emitter/src/backstop_manager.rs"; EX = "emitter/src/contract.rs"; F = "pool-factory/src/pool_factory.rs"

# P01 / P02 / P05
m("p01-withdraw-cap", "P01", A, "tokens_out = reserve.to_asset_from_b_token(cur_b_tokens);\n                }\n                from_state.remove_supply", "tokens_out = reserve.to_asset_from_b_token(cur_b_tokens) + 1;\n                }\n                from_state.remove_supply")
m("p01-accrue-credit-fill", "P01", IA, "reserve.backstop_credit -= lot_amount;", "reserve.backstop_credit = (reserve.backstop_credit - lot_amount).max(0);")
m("p01-fill-nostore", "P01", IA, "let mut reserve = pool.load_reserve(e, &res_asset_address, true);", "let mut reserve = pool.load_reserve(e, &res_asset_address, false);")
m("p02-rm-clamp", "P02", U, "            let mut reserve = pool.load_reserve(e, &asset, true);\n            self.remove_liabilities(e, &mut reserve, amount);", "            let mut reserve = pool.load_reserve(e, &asset, true);\n            let amount = amount.min(self.get_liabilities(reserve.index));\n            self.remove_liabilities(e, &mut reserve, amount);")
m("p02-rmcoll-full", "P02", U, "        if new_balance == 0 {\n            self.positions.collateral.remove(reserve.index);", "        if new_balance <= 1 {\n            self.positions.collateral.remove(reserve.index);")
m("p05-repay-refund", "P05", A, "if d_tokens_burnt > cur_d_tokens {", "if d_tokens_burnt > cur_d_tokens && cur_d_tokens > 0 {")
m("p05-repay-spender", "P05", A, "request.amount - reserve.to_asset_from_d_token(cur_d_tokens);", "request.amount - reserve.to_asset_from_d_token(cur_d_tokens) - if from_state.has_liabilities() && cur_d_tokens > 1_0000 { 0 } else { 1 };")
m("p05-wc-up", "P05", A, "                let cur_b_tokens = from_state.get_collateral(reserve.index);\n                let mut to_burn = reserve.to_b_token_up(request.amount);", "                let cur_b_tokens = from_state.get_collateral(reserve.index);\n                let mut to_burn = reserve.to_b_token_down(request.amount);")
m("p05-map", "P05", A, "            amount + self.pool_transfer.get(asset.clone()).unwrap_or(0),", "            amount.max(self.pool_transfer.get(asset.clone()).unwrap_or(0)),")
# P03
m("p03-irmod-min", "P03", I, "SCALAR_9 / 10", "SCALAR_9 / 5")
m("p03-gulp-credit", "P03", R, "(pre_update_supply + accrued_interest - new_backstop_credit)", "(reserve.total_supply() + accrued_interest - new_backstop_credit.min(accrued_interest - 1))")
m("p03-zero-accrual", "P03", R, "        if accrued_interest > 0 {", "        if accrued_interest > 1 {")
m("p03-util95", "P03", I, "} else if cur_util <= 0_9500000 {", "} else if cur_util <= 0_9600000 {")
# P04
m("p04-fullwithdraw", "P04", A, "                actions.add_for_pool_transfer(&reserve.asset, tokens_out);\n                check_health = true;", "                actions.add_for_pool_transfer(&reserve.asset, tokens_out);\n                check_health = check_health || tokens_out == request.amount;")
m("p04-after-repay", "P04", A, "                pool.cache_reserve(reserve);\n            }\n            RequestType::FillUserLiquidationAuction", "                check_health = check_health && from_state.positions.liabilities.len() > 1;\n                pool.cache_reserve(reserve);\n            }\n            RequestType::FillUserLiquidationAuction")
m("p04-hf-ceil", "P04", H, "                let asset_liability = reserve.to_effective_asset_from_d_token(d_token_balance);\n                liability_base += asset_to_base\n                    .fixed_mul_ceil(", "                let asset_liability = reserve.to_effective_asset_from_d_token(d_token_balance);\n                liability_base += asset_to_base\n                    .fixed_mul_floor(")
m("p04-badfill", "P04", A, "                    1,\n                    &request.address,\n                    &mut from_state,\n                    request.amount as u64,\n                );\n                check_health = true;", "                    1,\n                    &request.address,\n                    &mut from_state,\n                    request.amount as u64,\n                );\n                check_health = check_health || !from_state.positions.collateral.is_empty();")
# P06
m("p06-util-floor", "P06", R, "        if self.utilization() > i128(self.max_util) {", "        if self.utilization() > i128(self.max_util) + 1 {")
m("p06-order", "P06", A, "                from_state.add_liabilities(e, &mut reserve, d_tokens_minted);\n                reserve.require_utilization_below_max(e);", "                reserve.require_utilization_below_max(e);\n                from_state.add_liabilities(e, &mut reserve, d_tokens_minted);")
# P07
m("p07-setup", "P07", PP, "(self.config.status > 3 && (action_type == 2 || action_type == 0))", "((self.config.status == 4 || self.config.status == 5) && (action_type == 2 || action_type == 0))")
m("p07-once", "P07", PP, "(self.config.status > 1 && (action_type == 4 || action_type == 9))", "((self.config.status > 1 && action_type == 4) || (self.config.status > 2 && action_type == 9))")
# P08
m("p08-q60", "P08", ST, "if pool_backstop_data.q4w_pct >= 0_6000000 {", "if pool_backstop_data.q4w_pct > 0_6000000 {")
m("p08-2thr", "P08", ST, "            if pool_backstop_data.q4w_pct >= 0_7500000 {\n                // Q4W over 75% freezes the pool", "            if pool_backstop_data.q4w_pct > 0_7500000 {\n                // Q4W over 75% freezes the pool")
m("p08-set0", "P08", ST, "            if calc_pool_backstop_threshold(&pool_backstop_data) < SCALAR_7\n                || pool", "            if calc_pool_backstop_threshold(&pool_backstop_data) == 0\n                || pool")
# P09
m("p09-supply", "P09", PP, "if new_num > previous_num && self", "if new_num > previous_num + 1 && self")
m("p09-swap", "P09", A, "let prev_positions_count = from_state.positions.effective_count();", "let prev_positions_count = from_state.positions.effective_count().max(from_state.positions.supply.len());")
# P10
m("p10-cached", "P10", PP, "price_data.timestamp + 24 * 60 * 60 < e.ledger().timestamp()", "price_data.timestamp + 24 * 60 * 60 + 300 < e.ledger().timestamp()")
m("p10-list", "P10", PP, "if price_data.timestamp + 24 * 60 * 60 < e.ledger().timestamp() {", "if self.prices.is_empty() && price_data.timestamp + 24 * 60 * 60 < e.ledger().timestamp() {")
# P11
m("p11-eq", "P11", UL, "if position_data.liability_base < position_data.collateral_base {", "if position_data.liability_base <= position_data.collateral_base {")
m("p11-bkstp", "P11", AU, "if user_clone == e.current_contract_address() || user_clone == storage::get_backstop(e) {", "if user_clone == e.current_contract_address() {")
m("p11-115", "P11", UL, "is_hf_over(1_1500000)", "is_hf_over(1_1600000)")
m("p11-103", "P11", UL, "is_hf_under(1_0300000)", "is_hf_under(1_0200000)")
m("p11-full", "P11", UL, "if est_withdrawn_collateral < position_data.collateral_raw {", "if est_withdrawn_collateral * 100 < position_data.collateral_raw * 99 {")
m("p11-inprogress", "P11", UL, "    if storage::has_auction(e, &(AuctionType::UserLiquidation as u32), user) {", "    if storage::has_auction(e, &(AuctionType::UserLiquidation as u32), user) && percent_liquidated != 100 {")
m("p11-lotfloor", "P11", UL, "            .fixed_mul_ceil(est_withdrawn_collateral_pct, position_data.scalar)", "            .fixed_mul_floor(est_withdrawn_collateral_pct, position_data.scalar)")
# P13
m("p13-self", "P13", AU, "    if user.clone() == filler_state.address {", "    if user.clone() == filler_state.address && percent_filled == 100 {")
m("p13-del-status", "P13", A, "                auctions::delete_liquidation(e, &from);\n                check_health = true;", "                auctions::delete_liquidation(e, &from);\n                check_health = from_state.positions.liabilities.len() > 1;")
# P14
m("p14-threshold", "P14", BA, "if threshold < 0_0000003 {", "if threshold < 0_0000100 {")
m("p14-one-liab", "P14", BD, "if !user_state.positions.collateral.is_empty() || user_state.positions.liabilities.is_empty() {", "if (!user_state.positions.collateral.is_empty() && user_state.positions.liabilities.len() < 2) || user_state.positions.liabilities.is_empty() {")
m("p14-min", "P14", BA, "lot_amount = pool_backstop_data.tokens.min(lot_amount);", "if debt_value > oracle_scalar { lot_amount = pool_backstop_data.tokens.min(lot_amount); }")
# P15
m("p15-200", "P15", IA, "if interest_value <= (200 *", "if interest_value < (200 *")
m("p15-max-credit", "P15", IA, "reserve.backstop_credit -= lot_amount;", "reserve.backstop_credit -= lot_amount + if lot_amount > 1 { 0 } else { 1 };")
# P16
m("p16-frozen", "P16", C, "if storage::get_pool_config(e).status != 6 {", "if storage::get_pool_config(e).status < 4 {")
m("p16-requeue", "P16", C, "    if has_queued_reserve_set(e, asset) {", "    if has_queued_reserve_set(e, asset) && storage::get_queued_reserve_set(e, asset).unlock_time > e.ledger().timestamp() {")
m("p16-irmod", "P16", C, "            || reserve_config.r_three != config.r_three\n", "")
m("p16-util95", "P16", C, "metadata.util > 0_9500000", "metadata.util >= 1_0000000")
m("p16-noaccrue", "P16", C, "        reserve.store(e);\n    } else {", "        if reserve_config.util != config.util || reserve.ir_mod == SCALAR_9 {\n            reserve.store(e);\n        }\n    } else {")
m("p16-reuse", "P16", C, "    storage::del_queued_reserve_set(e, asset);\n\n    // initialize reserve\n    initialize_reserve(e, asset, &queued_init.new_config)", "    let index = initialize_reserve(e, asset, &queued_init.new_config);\n    if index + 1 == storage::get_res_list(e).len() {\n        storage::del_queued_reserve_set(e, asset);\n    }\n    index")
# P17
m("p17-setadmin", "P17", PC, "        new_admin.require_auth();\n", "")
m("p17-rate", "P17", C, "    if backstop_take_rate >= SCALAR_7 as u32 {", "    if backstop_take_rate > SCALAR_7 as u32 {")
# P18
m("p18-coll-emis", "P18", U, "        let balance = self.get_collateral(reserve.index);\n        self.update_b_emissions(e, reserve, self.get_total_supply(reserve.index));\n        self.positions", "        let balance = self.get_collateral(reserve.index);\n        self.update_b_emissions(e, reserve, balance);\n        self.positions")
m("p18-after", "P18", U, "        self.update_d_emissions(e, reserve, balance);\n        let new_balance = balance - amount;\n        require_nonnegative(e, &new_balance);", "        let new_balance = balance - amount;\n        require_nonnegative(e, &new_balance);\n        self.update_d_emissions(e, reserve, new_balance);")
m("p18-exp", "P18", ED, "if token_emission_data.last_time >= emis_config.expiration\n        || e", "if (token_emission_data.last_time >= emis_config.expiration && token_emission_data.index == 0)\n        || e")
m("p18-lasttime", "P18", ED, "        last_time: ledger_timestamp,", "        last_time: e.ledger().timestamp(),")
m("p18-claimbal", "P18", ED, "                        from_state.get_total_supply(reserve_index),", "                        from_state.get_collateral(reserve_index),")
# P19
m("p19-force", "P19", EM, "        if emission_data.last_time != e.ledger().timestamp() {", "        if emission_data.last_time != e.ledger().timestamp() && supply > 0 {")
m("p19-total", "P19", EM, "        total_share += metadata.share;", "        total_share = total_share.max(metadata.share);")
m("p19-left", "P19", EM, "if emis_config.expiration > e.ledger().timestamp() {", "if emis_config.expiration > e.ledger().timestamp() + 24 * 60 * 60 {")
m("p19-min", "P19", EM, "    if new_emissions < SCALAR_7 {", "    if new_emissions <= 0 {")
# B
m("b01-up", "B01", BP, "        shares\n            .fixed_mul_floor(self.tokens, self.shares)", "        shares\n            .fixed_mul_ceil(self.tokens, self.shares)")
m("b01-factory", "B01", BDp, "require_is_from_pool_factory(e, pool_address, pool_balance.shares);", "require_is_from_pool_factory(e, pool_address, pool_balance.tokens);")
m("b01-zeroret", "B01", BW, "    if to_return == 0 {", "    if to_return < 0 {")
m("b02-exp", "B02", BU, "                    cur_q4w.amount -= left_to_dequeue;", "                    cur_q4w.amount -= left_to_dequeue;\n                    if !require_expired { cur_q4w.exp = e.ledger().timestamp() + Q4W_LOCK_TIME; }")
m("b02-max", "B02", BU, "if self.q4w.len() >= MAX_Q4W_SIZE {", "if self.q4w.len() > MAX_Q4W_SIZE {")
m("b02-merge", "B02", BU, "        self.q4w.push_back(new_q4w.clone());", "        match self.q4w.last() {\n            Some(last) if last.exp + 600 >= new_q4w.exp => {\n                let merged = Q4W { amount: last.amount + to_q, exp: last.exp };\n                self.q4w.set(self.q4w.len() - 1, merged);\n            }\n            _ => self.q4w.push_back(new_q4w.clone()),\n        }")
m("b02-panicless", "B02", BU, "                panic_with_error!(e, BackstopError::NotExpired);", "                if left_to_dequeue == to_dequeue { panic_with_error!(e, BackstopError::NotExpired); }\n                left_to_dequeue = 0;\n                self.q4w.push_front(cur_q4w);\n                break;")
m("b03-claim", "B03", BC, "            let to_mint = pool_balance.convert_to_shares(deposit_amount);\n            pool_balance.deposit(deposit_amount, to_mint);", "            pool_balance.deposit(deposit_amount, 0);\n            let to_mint = pool_balance.convert_to_shares(deposit_amount);\n            pool_balance.deposit(0, to_mint);")
m("b03-q4w", "B03", BP, "        self.q4w -= shares;\n    }\n\n    /// Queue withdraw", "        self.q4w = (self.q4w - shares).min(self.shares);\n        if self.shares == 0 { self.q4w = 0; self.tokens = 0; }\n    }\n\n    /// Queue withdraw")
m("b04-deq", "B04", BW, "    user_balance.dequeue_shares_for_withdrawal(e, amount, false);\n    user_balance.add_shares(amount);", "    user_balance.dequeue_shares_for_withdrawal(e, amount, false);\n    user_balance.add_shares(amount);\n    if user_balance.q4w.is_empty() { emissions::update_emissions(e, pool_address, &pool_balance, from, &user_balance); }")
m("b04-first", "B04", BE, "    } else if user_balance.shares == 0 {", "    } else if user_balance.shares == 0 || !user_balance.q4w.is_empty() {")
m("b04-lasttime", "B04", BE, "    let max_timestamp = if e.ledger().timestamp() > emis_config.expiration {", "    let max_timestamp = if e.ledger().timestamp() > emis_config.expiration + 3600 {")
m("b04-claimzero", "B04", BE, "if user_data.index != emis_data.index || to_claim {", "if user_data.index != emis_data.index {")
m("b05-q4w", "B05", BM, "        let cur_pool_non_queued_tokens = cur_pool_balance.non_queued_tokens();", "        let cur_pool_non_queued_tokens = cur_pool_balance.tokens - cur_pool_balance.q4w.min(cur_pool_balance.tokens);")
m("b05-hour", "B05", BM, "if emitter_last_distribution <= (last_distribution + 60 * 60) {", "if emitter_last_distribution < (last_distribution + 60 * 60) {")
m("b05-poolset", "B05", BM, "storage::set_pool_emissions(e, &rz_pool, current_emissions + new_pool_emissions);", "storage::set_pool_emissions(e, &rz_pool, if share > 0 { current_emissions + new_pool_emissions } else { 0 });")
m("b06-lt", "B06", BM, "if pool_data.tokens <= storage::get_pool_balance(e, &to_remove).tokens {", "if pool_data.tokens < storage::get_pool_balance(e, &to_remove).tokens {")
m("b06-day", "B06", BM, "if last_distribution < e.ledger().timestamp() - 24 * 60 * 60 {", "if last_distribution < e.ledger().timestamp() - 7 * 24 * 60 * 60 {")
m("b06-len", "B06", BM, "    if max_rz_len > i128(reward_zone.len()) {", "    if max_rz_len >= i128(reward_zone.len()) {")
m("b07-drawauth", "B07", BX, "    fn draw(e: Env, pool_address: Address, amount: i128, to: Address) {\n        storage::extend_instance(&e);\n        pool_address.require_auth();", "    fn draw(e: Env, pool_address: Address, amount: i128, to: Address) {\n        storage::extend_instance(&e);\n        to.require_auth();")
m("b08-allow", "B08", BM, "let new_tokens = current_allowance + pool_emissions;", "let new_tokens = current_allowance.max(pool_emissions);")
m("b09-val", "B09", BF, "    let total_comet_shares = CometClient::new(e, backstop_token).get_total_supply();\n    let total_blnd", "    let total_comet_shares = CometClient::new(e, backstop_token).get_total_supply();\n    let prev_val = storage::get_lp_token_val(e).0;\n    let total_blnd")
m("b09-q4w", "B09", BP, "            .fixed_div_ceil(pool_balance.shares, SCALAR_7)", "            .fixed_div_floor(pool_balance.shares, SCALAR_7)")
# E, F
m("e01-again", "E01", E, "    storage::set_last_distro_time(e, backstop, timestamp);\n", "    if distribution_amount > 0 && distribution_amount < 365 * 86400 * SCALAR_7 {\n        storage::set_last_distro_time(e, backstop, timestamp);\n    }\n")
m("e02-eq", "E02", EB, "return new_backstop_balance > backstop_balance;", "return new_backstop_balance >= backstop_balance;")
m("e02-recheck", "E02", EB, "    if !is_new_backstop_is_larger(e, &swap.new_backstop, &backstop) {\n        panic_with_error!(e, EmitterError::InsufficientBackstopSize);\n    }\n\n    // distribute", "    if !is_new_backstop_is_larger(e, &swap.new_backstop, &backstop)\n        && e.ledger().timestamp() < swap.unlock_time + 31 * 24 * 60 * 60\n    {\n        panic_with_error!(e, EmitterError::InsufficientBackstopSize);\n    }\n\n    // distribute")
m("e02-nodistr", "E02", EB, "    emitter::execute_distribute(e, &backstop);\n\n    // swap backstop and token", "    if backstop != swap.new_backstop && storage::get_last_distro_time(e, &backstop) + 31 * 24 * 60 * 60 > e.ledger().timestamp() {\n        emitter::execute_distribute(e, &backstop);\n    }\n\n    // swap backstop and token")
m("e02-restart", "E02", EB, "    storage::set_last_distro_time(e, &swap.new_backstop, e.ledger().timestamp());", "    storage::set_last_distro_time(e, &swap.new_backstop, swap.unlock_time);")
m("e02-token", "E02", EB, "    storage::set_backstop_token(e, &swap.new_backstop_token);\n", "    if swap.new_backstop != backstop {\n        storage::set_backstop_token(e, &storage::get_backstop_token(e));\n    }\n")
m("e03-sum", "E03", E, "        drop_amount += amt;", "        drop_amount = amt.max(drop_amount);")
m("e03-status", "E03", E, "    storage::set_drop_status(e, &backstop);\n}", "    if drop_amount > 0 {\n        storage::set_drop_status(e, &backstop);\n    }\n}")
m("f01-salt", "F01", F, "salt_as_bytes.extend_from_array(&as_u8s);", "salt_as_bytes.extend_from_array(&as_u8s[..1].try_into().map(|b: [u8; 1]| b).unwrap_or([0u8; 1]));")
m("f01-rate", "F01", F, "    if backstop_take_rate >= SCALAR_7 {", "    if backstop_take_rate > SCALAR_7 {")
m("x01-claim", "X01", PC, "        from.require_auth();\n\n        let amount_claimed", "        to.require_auth();\n\n        let amount_claimed")
m("x01-spender", "X01", PC, "        if from != spender {\n            from.require_auth();\n        }", "        if from != spender && to != spender {\n            from.require_auth();\n        }")
m("x02-binit", "X02", BX, "        if storage::get_is_init(&e) {\n            panic_with_error!(e, BackstopError::AlreadyInitializedError);\n        }", "        if storage::get_is_init(&e) && storage::get_last_distribution_time(&e) + 365 * 86400 > e.ledger().timestamp() {\n            panic_with_error!(e, BackstopError::AlreadyInitializedError);\n        }")
m("x03-positions", "X03", PC, "        storage::get_user_positions(&e, &address)\n    }", "        let mut p = storage::get_user_positions(&e, &address);\n        if p.collateral.is_empty() { p.supply = soroban_sdk::Map::new(&e); }\n        p\n    }")
m("p12-del", "P12", AU, "    if remaining_auction.lot.is_empty() && remaining_auction.bid.is_empty() {", "    if remaining_auction.lot.is_empty() || remaining_auction.bid.is_empty() {")
m("p12-201", "P12", AU, "    if block_dif > 200 {", "    if block_dif > 201 {")
m("p12-400", "P12", AU, "        if block_dif < 400 {", "        if block_dif < 399 {")
m("p12-rembid", "P12", AU, "        let remaining_base = amount - to_fill_base;\n        if remaining_base > 0 {\n            remaining_auction.bid", "        let remaining_base = amount.fixed_mul_ceil(SCALAR_7 - percent_filled_i128, SCALAR_7).unwrap_optimized();\n        if remaining_base > 0 {\n            remaining_auction.bid")
m("p12-scaledrem", "P12", AU, "            .fixed_mul_floor(lot_modifier, SCALAR_7)", "            .fixed_mul_ceil(lot_modifier, SCALAR_7)")
m("p20-draw", "P20", BF, "    pool_balance.withdraw(e, amount, 0);", "    if amount > pool_balance.tokens && pool_balance.tokens > 0 { pool_balance.tokens = amount; }\n    pool_balance.withdraw(e, amount, 0);")
m("p20-spender", "P20", S, "        TokenClient::new(e, &address).transfer(&e.current_contract_address(), to, &amount);", "        let dest = if actions.spender_transfer.contains_key(address.clone()) { spender } else { to };\n        TokenClient::new(e, &address).transfer(&e.current_contract_address(), dest, &amount);")
