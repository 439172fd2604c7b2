From d7f4bcdb4055dbea7ccfe89072f2b07c52d50c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 1/8] fix: accrue the receiver's backstop emissions before a
 claim deposits for them

---
 backstop/src/emissions/claim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 3218655..5fbf561 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -5,7 +5,7 @@ use soroban_sdk::{
     panic_with_error, vec, Address, Env, IntoVal, Map, Symbol, Val, Vec,
 };
 
-use super::distributor::claim_emissions;
+use super::distributor::{claim_emissions, update_emissions};
 
 /// Perform a claim for backstop deposit emissions by a user from the backstop module
 pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to: &Address) -> i128 {
@@ -60,6 +60,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             let mut pool_balance = storage::get_pool_balance(e, &pool_id);
             let mut user_balance = storage::get_user_balance(e, &pool_id, to);
 
+            // accrue emissions for the receiver before their share balance changes
+            update_emissions(e, &pool_id, &pool_balance, to, &user_balance);
+
             // Deposit LP tokens into pool backstop
             let to_mint = pool_balance.convert_to_shares(deposit_amount);
             pool_balance.deposit(deposit_amount, to_mint);
-- 
2.43.0


From 47ddb23824cdece2509ab43687835e0c8aa89573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 2/8] fix: deposit a backstop claim once per pool when a pool
 is listed twice

---
 backstop/src/emissions/claim.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 5fbf561..ff27b1b 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -21,7 +21,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
         let claim_amt = claim_emissions(e, &pool_id, &pool_balance, from, &user_balance);
 
         claimed += claim_amt;
-        claims.set(pool_id, claim_amt);
+        // a pool listed more than once has nothing left to claim the second time
+        let prev_amt = claims.get(pool_id.clone()).unwrap_or(0);
+        claims.set(pool_id, prev_amt + claim_amt);
     }
 
     if claimed > 0 {
@@ -52,8 +54,7 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             &0,
             &e.current_contract_address(),
         );
-        for pool_id in pool_addresses.iter() {
-            let claim_amount = claims.get(pool_id.clone()).unwrap();
+        for (pool_id, claim_amount) in claims.iter() {
             let deposit_amount = lp_tokens_out
                 .fixed_mul_floor(claim_amount, claimed)
                 .unwrap();
-- 
2.43.0


From 852affdfb371713af45aa4b91c3ef78adfb2c7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 3/8] fix: do not divide by zero when all backstop shares are
 queued for withdrawal

---
 backstop/src/emissions/distributor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/backstop/src/emissions/distributor.rs b/backstop/src/emissions/distributor.rs
index cff6de4..91ee27b 100644
--- a/backstop/src/emissions/distributor.rs
+++ b/backstop/src/emissions/distributor.rs
@@ -80,9 +80,9 @@ pub fn update_emission_data_with_config(
     if emis_data.last_time >= emis_config.expiration
         || e.ledger().timestamp() == emis_data.last_time
         || emis_config.eps == 0
-        || pool_balance.shares == 0
+        || pool_balance.shares == pool_balance.q4w
     {
-        // emis_data already updated or expired
+        // emis_data already updated or expired, or there are no shares that earn emissions
         return emis_data;
     }
 
-- 
2.43.0


From eba2f082590379b3f6378c5ec91dbafae1e4cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 4/8] fix: let an interest auction be filled once its bid has
 reached zero

---
 pool/src/auctions/backstop_interest_auction.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 396683f..ddd167e 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -83,13 +83,16 @@ pub fn fill_interest_auction(
     }
     let backstop_client = BackstopClient::new(&e, &backstop);
     let backstop_token: Address = backstop_client.backstop_token();
-    let backstop_token_bid_amount = auction_data.bid.get_unchecked(backstop_token);
+    // the bid has no entry once it has been scaled down to zero
+    let backstop_token_bid_amount = auction_data.bid.get(backstop_token).unwrap_or(0);
 
-    backstop_client.donate(
-        &filler,
-        &e.current_contract_address(),
-        &backstop_token_bid_amount,
-    );
+    if backstop_token_bid_amount > 0 {
+        backstop_client.donate(
+            &filler,
+            &e.current_contract_address(),
+            &backstop_token_bid_amount,
+        );
+    }
 
     // lot contains underlying tokens, but the backstop credit must be updated on the reserve
     for (res_asset_address, lot_amount) in auction_data.lot.iter() {
-- 
2.43.0


From 8ab3b89594efaebb9e0c2dc5f80034b5e5982ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 5/8] fix: let a bad debt auction be filled while its lot is
 zero

---
 pool/src/auctions/bad_debt_auction.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pool/src/auctions/bad_debt_auction.rs b/pool/src/auctions/bad_debt_auction.rs
index d01d043..14aceee 100644
--- a/pool/src/auctions/bad_debt_auction.rs
+++ b/pool/src/auctions/bad_debt_auction.rs
@@ -87,12 +87,15 @@ pub fn fill_bad_debt_auction(
 
     let backstop_client = BackstopClient::new(e, &backstop_address);
     let backstop_token_id = backstop_client.backstop_token();
-    let lot_amount = auction_data.lot.get(backstop_token_id).unwrap_optimized();
-    backstop_client.draw(
-        &e.current_contract_address(),
-        &lot_amount,
-        &filler_state.address,
-    );
+    // the lot has no entry while it is scaled down to zero
+    let lot_amount = auction_data.lot.get(backstop_token_id).unwrap_or(0);
+    if lot_amount > 0 {
+        backstop_client.draw(
+            &e.current_contract_address(),
+            &lot_amount,
+            &filler_state.address,
+        );
+    }
 
     // If the backstop still has liabilities and less than 10% of the backstop threshold burn bad debt
     if !backstop_state.positions.liabilities.is_empty() {
-- 
2.43.0


From a279cafee664bb4dccedc933b88ab78cd3961a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 6/8] fix: reject duplicate assets when creating an interest
 auction

---
 pool/src/auctions/backstop_interest_auction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index ddd167e..8084a99 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -27,6 +27,10 @@ pub fn create_interest_auction_data(
 
     let mut interest_value = 0; // expressed in the oracle's decimals
     for res_asset_address in assets.iter() {
+        // an asset's interest must only be valued once
+        if auction_data.lot.contains_key(res_asset_address.clone()) {
+            panic_with_error!(e, PoolError::BadRequest);
+        }
         // don't store updated reserve data back to ledger. This will occur on the the auction's fill.
         let reserve = pool.load_reserve(e, &res_asset_address, false);
         if reserve.backstop_credit > 0 {
-- 
2.43.0


From 5cd95a3d52cd0b07b75174cee647cde86ac83e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:03 +0000
Subject: [PATCH 7/8] fix: end a bad debt auction once no debt is left to
 auction

---
 pool/src/auctions/auction.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pool/src/auctions/auction.rs b/pool/src/auctions/auction.rs
index 9143300..c7296d3 100644
--- a/pool/src/auctions/auction.rs
+++ b/pool/src/auctions/auction.rs
@@ -154,13 +154,17 @@ pub fn fill(
         panic_with_error!(e, PoolError::InvalidLiquidation);
     }
     let auction_data = storage::get_auction(e, &auction_type, user);
-    let (to_fill_auction, remaining_auction) = scale_auction(e, &auction_data, percent_filled);
+    let (to_fill_auction, mut remaining_auction) = scale_auction(e, &auction_data, percent_filled);
     match AuctionType::from_u32(e, auction_type) {
         AuctionType::UserLiquidation => {
             fill_user_liq_auction(e, pool, &to_fill_auction, user, filler_state)
         }
         AuctionType::BadDebtAuction => {
-            fill_bad_debt_auction(e, pool, &to_fill_auction, filler_state)
+            fill_bad_debt_auction(e, pool, &to_fill_auction, filler_state);
+            // no debt is left to auction, either it was all taken or the rest was written off
+            if storage::get_user_positions(e, user).liabilities.is_empty() {
+                remaining_auction = None;
+            }
         }
         AuctionType::InterestAuction => {
             fill_interest_auction(e, pool, &to_fill_auction, &filler_state.address)
-- 
2.43.0


From ab13b49effca1c5cfbd9615bf3b6a036a569f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 8/8] fix: split accrued interest by the old take rate when the
 rate changes

A changed take rate applied to interest that had already accrued. An
interest auction created before the change offered credit that was then
never booked: its fill made the credit negative, paying out tokens of
the suppliers.
---
 pool/src/pool/config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pool/src/pool/config.rs b/pool/src/pool/config.rs
index 7d1da91..25855dc 100644
--- a/pool/src/pool/config.rs
+++ b/pool/src/pool/config.rs
@@ -7,7 +7,7 @@ use crate::{
 };
 use soroban_sdk::{panic_with_error, Address, Env, String};
 
-use super::pool::Pool;
+use super::{pool::Pool, reserve::Reserve};
 
 /// Initialize the pool
 ///
@@ -61,6 +61,12 @@ pub fn execute_update_pool(e: &Env, backstop_take_rate: u32, max_positions: u32)
         panic_with_error!(e, PoolError::BadRequest);
     }
     let mut pool_config = storage::get_pool_config(e);
+    if pool_config.bstop_rate != backstop_take_rate {
+        // the interest accrued so far is split by the take rate that applied when it accrued
+        for asset in storage::get_res_list(e).iter() {
+            Reserve::load(e, &pool_config, &asset).store(e);
+        }
+    }
     pool_config.bstop_rate = backstop_take_rate;
     pool_config.max_positions = max_positions;
     storage::set_pool_config(e, &pool_config);
-- 
2.43.0

