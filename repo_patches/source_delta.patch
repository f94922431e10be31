From 632ad91de7bc91c372291f6543e089e257b415c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:38 +0000
Subject: [PATCH 01/14] fix: cross the initialized tick when a y-to-x swap
 limit equals its price

A swap with token y as input whose price limit is exactly the price of an
initialized tick moved the current tick onto that tick without crossing it,
so the pool's active liquidity, fee growth and time data no longer matched
its positions (wrong amounts later, positions that cannot be closed).
Treat such a tick as the limiting tick, as the contract already does when
the limit lies beyond it. Same change in the SDK's copy.
---
 contracts/oraiswap-v3/src/state.rs | 2 +-
 wasm/collections/tickmap.rs        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index aa4294c..4d9234e 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -382,7 +382,7 @@ pub fn get_closer_limit(
     };
 
     let sqrt_price = calculate_sqrt_price(index)?;
-    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price < sqrt_price_limit) {
+    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price <= sqrt_price_limit) {
         Ok((sqrt_price, Some((index, is_initialized))))
     } else {
         Ok((sqrt_price_limit, None))
diff --git a/wasm/collections/tickmap.rs b/wasm/collections/tickmap.rs
index 80cd654..5e690c5 100644
--- a/wasm/collections/tickmap.rs
+++ b/wasm/collections/tickmap.rs
@@ -230,7 +230,7 @@ impl Tickmap {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
@@ -246,7 +246,7 @@ impl Tickmap {
                 }
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, false))))
                 } else {
-- 
2.43.0


From 2d3b6a5864d7712c3373df00d8dea58c639701de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:38 +0000
Subject: [PATCH 02/14] fix: burning by an approved spender or operator closes
 the owner's position

handle_burn checked the permission against the token's owner but removed the
position at that index of the caller.
---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 93222dc..f351c77 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -768,8 +768,14 @@ pub fn handle_burn(
     let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
     check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;
 
+    // the position and its tokens belong to the owner, whoever is allowed to burn it
+    let owner_info = MessageInfo {
+        sender: Addr::unchecked(String::from_utf8(owner_raw.to_vec())?),
+        funds: info.funds,
+    };
+
     // remain action to help sync backend
-    remove_position(deps, env, info.clone(), index)
+    remove_position(deps, env, owner_info, index)
 }
 
 pub fn handle_send_nft(
-- 
2.43.0


From 21a7b5c0e2832931ae7e48d76d23237e638c9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:38 +0000
Subject: [PATCH 03/14] fix: liquidity ticks amount overflows when a range
 covers a whole tickmap word

---
 contracts/oraiswap-v3/src/entrypoints/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/query.rs b/contracts/oraiswap-v3/src/entrypoints/query.rs
index 83f81b9..e4a5a77 100644
--- a/contracts/oraiswap-v3/src/entrypoints/query.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/query.rs
@@ -308,7 +308,7 @@ pub fn get_liquidity_ticks_amount(
     let (max_chunk_index, max_bit) = tick_to_position(upper_tick, tick_spacing);
 
     let active_bits_in_range = |chunk, min_bit, max_bit| {
-        let range: u64 = (chunk >> min_bit) & ((1u64 << (max_bit - min_bit + 1)) - 1);
+        let range: u64 = (chunk >> min_bit) & (u64::MAX >> (CHUNK_SIZE as u8 - 1 - (max_bit - min_bit)));
         range.count_ones()
     };
 
-- 
2.43.0


From 35879fb65496520a47712d8c7909d54c0dc90bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:38 +0000
Subject: [PATCH 04/14] fix: positions and tokens pagination overflows for
 large limit plus offset

---
 contracts/oraiswap-v3/src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index 4d9234e..07724df 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -214,7 +214,7 @@ pub fn get_all_positions(
 ) -> Result<Vec<Position>, ContractError> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id).min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| get_position(store, account_id, index))
         .collect()
@@ -228,7 +228,7 @@ pub fn get_all_position_keys(
 ) -> Vec<Vec<u8>> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id).min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| position_key(account_id, index))
         .collect()
-- 
2.43.0


From f8a491ef98480a04c46409299b6b0f59ecf16780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:44 +0000
Subject: [PATCH 05/14] fix: do not refuse a swap because its remaining amount
 exceeds the current range

At each tick the check whether the remaining amount can move the price
returned an overflow or underflow error when that amount was too large for
the liquidity of the range just left, and the whole swap failed although
the next ranges could serve it. Same change in the SDK's copy.
---
 contracts/oraiswap-v3/src/storage/pool.rs | 4 +++-
 wasm/storage/pool.rs                      | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/storage/pool.rs b/contracts/oraiswap-v3/src/storage/pool.rs
index 0640cf1..07f7f5e 100644
--- a/contracts/oraiswap-v3/src/storage/pool.rs
+++ b/contracts/oraiswap-v3/src/storage/pool.rs
@@ -145,6 +145,7 @@ impl Pool {
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
+        // an amount too large for the liquidity of this range is enough to leave the range
         let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
@@ -152,7 +153,8 @@ impl Pool {
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        )?;
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
diff --git a/wasm/storage/pool.rs b/wasm/storage/pool.rs
index 65c21f7..c6cea1b 100644
--- a/wasm/storage/pool.rs
+++ b/wasm/storage/pool.rs
@@ -94,14 +94,16 @@ impl Pool {
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
+        // an amount too large for the liquidity of this range is enough to leave the range
+        let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
             self.liquidity,
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        ));
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
-- 
2.43.0


From 655b8e515cd927c54173b53fe73106e84409ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:00 +0000
Subject: [PATCH 06/14] fix: reject adding a fee tier that already exists

The documentation of add_fee_tier promises this error; a duplicate also
stayed enabled after remove_fee_tier.
---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 4 ++++
 contracts/oraiswap-v3/src/error.rs               | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index f351c77..e2d3ec0 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -625,6 +625,10 @@ pub fn add_fee_tier(
         return Err(ContractError::InvalidFee);
     }
 
+    if config.fee_tiers.contains(&fee_tier) {
+        return Err(ContractError::FeeTierAlreadyExist);
+    }
+
     config.fee_tiers.push(fee_tier);
 
     CONFIG.save(deps.storage, &config)?;
diff --git a/contracts/oraiswap-v3/src/error.rs b/contracts/oraiswap-v3/src/error.rs
index 80742a3..792a9ea 100644
--- a/contracts/oraiswap-v3/src/error.rs
+++ b/contracts/oraiswap-v3/src/error.rs
@@ -191,6 +191,9 @@ pub enum ContractError {
     #[error("FeeTierNotFound")]
     FeeTierNotFound,
 
+    #[error("fee tier already exist")]
+    FeeTierAlreadyExist,
+
     #[error("NotEmptyTickDeinitialization")]
     NotEmptyTickDeinitialization,
 }
-- 
2.43.0


From 58f83bc6c1b0933e2db67b19455544a693f42de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:13 +0000
Subject: [PATCH 07/14] fix: send_nft tells the receiving contract the
 identifier the position now has

Identifiers contain the owner; the receiver was given the one under the
previous owner, which no longer exists or names another position.
---
 contracts/oraiswap-v3/src/entrypoints/common.rs  | 6 ++++--
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/common.rs b/contracts/oraiswap-v3/src/entrypoints/common.rs
index 3edce64..eb7993e 100644
--- a/contracts/oraiswap-v3/src/entrypoints/common.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/common.rs
@@ -454,7 +454,7 @@ pub fn transfer_nft(
     info: &MessageInfo,
     recipient: &Addr,
     token_id: &[u8],
-) -> Result<(), ContractError> {
+) -> Result<Vec<u8>, ContractError> {
     let owner_raw = &token_id[..token_id.len() - 4];
     let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
     let account_id = Addr::unchecked(String::from_utf8(owner_raw.to_vec())?);
@@ -465,8 +465,10 @@ pub fn transfer_nft(
     state::remove_position(deps.storage, &account_id, index)?;
     // reset approvals when transfer
     pos.approvals = vec![];
+    let new_index = state::get_position_length(deps.storage, recipient);
     state::add_position(deps.storage, recipient, &pos)?;
-    Ok(())
+    // the identifier of the position under its new owner
+    Ok(state::position_key(recipient, new_index))
 }
 
 pub fn humanize_approvals(
diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index e2d3ec0..1375b8b 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -791,11 +791,11 @@ pub fn handle_send_nft(
     msg: Option<Binary>,
 ) -> Result<Response, ContractError> {
     // Transfer token
-    transfer_nft(deps, &env, &info, &contract, &token_id)?;
+    let token_id = transfer_nft(deps, &env, &info, &contract, &token_id)?;
 
     let send = Cw721ReceiveMsg {
         sender: info.sender.clone(),
-        token_id,
+        token_id: token_id.into(),
         msg,
     };
 
-- 
2.43.0


From 05b0d8ae336cbfed84cf75cefbeb4e0b63135776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:37 +0000
Subject: [PATCH 08/14] fix: count attached native coins once and refund all
 that is not owed

Each hop of a route checked the full attached amount again, so one coin
could pay several hops (and was refunded several times), and an attached
coin whose required amount turned out to be zero was kept. Deduct what is
owed from the attached funds and give the rest back at the end.
---
 .../oraiswap-v3/src/entrypoints/common.rs     |  8 ++--
 .../oraiswap-v3/src/entrypoints/execute.rs    | 17 ++++---
 contracts/oraiswap-v3/src/interface.rs        | 44 ++++++++-----------
 3 files changed, 33 insertions(+), 36 deletions(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/common.rs b/contracts/oraiswap-v3/src/entrypoints/common.rs
index eb7993e..7850fd4 100644
--- a/contracts/oraiswap-v3/src/entrypoints/common.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/common.rs
@@ -187,7 +187,7 @@ pub fn calculate_swap(
 pub fn swap_internal(
     store: &mut dyn Storage,
     api: &dyn Api,
-    info: &MessageInfo,
+    info: &mut MessageInfo,
     msgs: &mut Vec<CosmosMsg>,
     contract_address: &Addr,
     current_timestamp: u64,
@@ -229,8 +229,8 @@ pub fn swap_internal(
         amount: calculate_swap_result.amount_out.into(),
     };
 
-    asset_0.transfer_from(msgs, &info, contract_address.to_string())?;
-    asset_1.transfer(msgs, &info)?;
+    asset_0.transfer_from(msgs, info, contract_address.to_string())?;
+    asset_1.transfer(msgs, info)?;
 
     Ok(calculate_swap_result)
 }
@@ -239,7 +239,7 @@ pub fn swap_route_internal(
     store: &mut dyn Storage,
     api: &dyn Api,
     env: Env,
-    info: &MessageInfo,
+    info: &mut MessageInfo,
     msgs: &mut Vec<CosmosMsg>,
     amount_in: TokenAmount,
     swaps: Vec<SwapHop>,
diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 1375b8b..e56894d 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -159,7 +159,7 @@ pub fn change_fee_receiver(
 pub fn create_position(
     deps: DepsMut,
     env: Env,
-    info: MessageInfo,
+    mut info: MessageInfo,
     pool_key: PoolKey,
     lower_tick: i32,
     upper_tick: i32,
@@ -224,8 +224,9 @@ pub fn create_position(
     };
 
     let mut msgs = vec![];
-    asset_0.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
-    asset_1.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
+    asset_0.transfer_from(&mut msgs, &mut info, env.contract.address.to_string())?;
+    asset_1.transfer_from(&mut msgs, &mut info, env.contract.address.to_string())?;
+    Asset::refund(&mut msgs, &info);
 
     let event_attributes = vec![
         attr("action", "create_position"),
@@ -265,7 +266,7 @@ pub fn create_position(
 pub fn swap(
     deps: DepsMut,
     env: Env,
-    info: MessageInfo,
+    mut info: MessageInfo,
     pool_key: PoolKey,
     x_to_y: bool,
     amount: TokenAmount,
@@ -281,7 +282,7 @@ pub fn swap(
     } = swap_internal(
         deps.storage,
         deps.api,
-        &info,
+        &mut info,
         &mut msgs,
         &env.contract.address,
         env.block.time.millis(),
@@ -291,6 +292,7 @@ pub fn swap(
         by_amount_in,
         sqrt_price_limit,
     )?;
+    Asset::refund(&mut msgs, &info);
 
     Ok(Response::new()
         .add_messages(msgs)
@@ -322,7 +324,7 @@ pub fn swap(
 pub fn swap_route(
     deps: DepsMut,
     env: Env,
-    info: MessageInfo,
+    mut info: MessageInfo,
     amount_in: TokenAmount,
     expected_amount_out: TokenAmount,
     slippage: Percentage,
@@ -333,7 +335,7 @@ pub fn swap_route(
         deps.storage,
         deps.api,
         env,
-        &info,
+        &mut info,
         &mut msgs,
         amount_in,
         swaps,
@@ -344,6 +346,7 @@ pub fn swap_route(
     if amount_out < min_amount_out {
         return Err(ContractError::AmountUnderMinimumAmountOut);
     }
+    Asset::refund(&mut msgs, &info);
 
     Ok(Response::new()
         .add_messages(msgs)
diff --git a/contracts/oraiswap-v3/src/interface.rs b/contracts/oraiswap-v3/src/interface.rs
index 4f4f8bd..3be3e39 100644
--- a/contracts/oraiswap-v3/src/interface.rs
+++ b/contracts/oraiswap-v3/src/interface.rs
@@ -89,10 +89,12 @@ impl Asset {
         Ok(())
     }
 
+    /// Collects the asset from the sender. A native amount is deducted from `info.funds`,
+    /// so what is left there is what has to be given back, see `refund`.
     pub fn transfer_from(
         &self,
         msgs: &mut Vec<CosmosMsg>,
-        info: &MessageInfo,
+        info: &mut MessageInfo,
         recipient: String,
     ) -> Result<(), ContractError> {
         if !self.amount.is_zero() {
@@ -112,30 +114,9 @@ impl Asset {
                     );
                 }
                 AssetInfo::NativeToken { denom } => {
-                    match info.funds.iter().find(|x| x.denom.eq(denom)) {
-                        Some(coin) => {
-                            if coin.amount >= self.amount {
-                                let refund_amount = coin.amount - self.amount;
-                                // refund for user
-                                if !refund_amount.is_zero() {
-                                    msgs.push(
-                                        BankMsg::Send {
-                                            to_address: info.sender.to_string(),
-                                            amount: vec![Coin {
-                                                amount: refund_amount,
-                                                denom: denom.to_string(),
-                                            }],
-                                        }
-                                        .into(),
-                                    )
-                                }
-                            } else {
-                                return Err(ContractError::InvalidFunds {
-                                    transfer_amount: self.amount,
-                                });
-                            }
-                        }
-                        None => {
+                    match info.funds.iter_mut().find(|x| x.denom.eq(denom)) {
+                        Some(coin) if coin.amount >= self.amount => coin.amount -= self.amount,
+                        _ => {
                             return Err(ContractError::InvalidFunds {
                                 transfer_amount: self.amount,
                             });
@@ -147,6 +128,19 @@ impl Asset {
 
         Ok(())
     }
+
+    /// Gives the attached coins that were not needed back to the sender.
+    pub fn refund(msgs: &mut Vec<CosmosMsg>, info: &MessageInfo) {
+        for coin in info.funds.iter().filter(|coin| !coin.amount.is_zero()) {
+            msgs.push(
+                BankMsg::Send {
+                    to_address: info.sender.to_string(),
+                    amount: vec![coin.clone()],
+                }
+                .into(),
+            )
+        }
+    }
 }
 
 #[cw_serde]
-- 
2.43.0


From e35c27a20d98d7197903ea7e6817d9ab83150607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:32 +0000
Subject: [PATCH 09/14] fix: keep a tick crossed when the rest of the swap
 cannot move the price off it

Selling x, a swap can cross a tick and then have too little left to move the
price in the deeper liquidity below. The current tick was then recomputed
from the unchanged price, which put it back above the crossed tick while the
liquidity of the range below stayed active: positions could no longer be
closed and the pool paid out from the wrong liquidity.
---
 contracts/oraiswap-v3/src/storage/pool.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/storage/pool.rs b/contracts/oraiswap-v3/src/storage/pool.rs
index 07f7f5e..8d69815 100644
--- a/contracts/oraiswap-v3/src/storage/pool.rs
+++ b/contracts/oraiswap-v3/src/storage/pool.rs
@@ -139,8 +139,15 @@ impl Pool {
         let mut total_amount = TokenAmount(0);
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index =
-                get_tick_at_sqrt_price(result.next_sqrt_price, fee_tier.tick_spacing)?;
+            let tick_index = get_tick_at_sqrt_price(result.next_sqrt_price, fee_tier.tick_spacing)?;
+
+            // a tick that has been crossed downwards stays crossed even if what remains
+            // cannot move the price off it
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
 
             return Ok((total_amount, remaining_amount, has_crossed));
         };
-- 
2.43.0


From 35fc631aa5838f03573024be6aae4247951cf42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:03 +0000
Subject: [PATCH 10/14] fix: stop an exact-input x-to-y step at its target
 price

The amount required to reach the target is rounded up, so a slightly
smaller amount could be judged insufficient and yet move the price past
the target tick without crossing it (or, without a fee, underflow the fee).
---
 contracts/oraiswap-v3/src/math/clamm.rs | 7 ++++++-
 wasm/clamm.rs                           | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/math/clamm.rs b/contracts/oraiswap-v3/src/math/clamm.rs
index 2b90b35..0a2c887 100644
--- a/contracts/oraiswap-v3/src/math/clamm.rs
+++ b/contracts/oraiswap-v3/src/math/clamm.rs
@@ -31,7 +31,7 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
     if by_amount_in {
@@ -52,6 +52,11 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             )?;
+            // amount_in is rounded up, so a slightly smaller amount may already reach the target
+            if x_to_y && next_sqrt_price <= target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            }
         };
     } else {
         amount_out = (if x_to_y {
diff --git a/wasm/clamm.rs b/wasm/clamm.rs
index 034db07..4610955 100644
--- a/wasm/clamm.rs
+++ b/wasm/clamm.rs
@@ -43,7 +43,7 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
     if by_amount_in {
@@ -64,6 +64,11 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // amount_in is rounded up, so a slightly smaller amount may already reach the target
+            if x_to_y && next_sqrt_price <= target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
-- 
2.43.0


From 621ef38ee148b9417cd22bd15519d5c324b03446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:42 +0000
Subject: [PATCH 11/14] fix: cap the rounded-up input of an exact-input step at
 the given amount

Where the fee is smaller than the rounding of the input, the fee
computation underflowed and the swap was refused.
---
 contracts/oraiswap-v3/src/math/clamm.rs | 5 +++++
 wasm/clamm.rs                           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/contracts/oraiswap-v3/src/math/clamm.rs b/contracts/oraiswap-v3/src/math/clamm.rs
index 0a2c887..2069a42 100644
--- a/contracts/oraiswap-v3/src/math/clamm.rs
+++ b/contracts/oraiswap-v3/src/math/clamm.rs
@@ -91,6 +91,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in is rounded up, but can not exceed amount
+    if by_amount_in && amount_in > amount {
+        amount_in = amount;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
diff --git a/wasm/clamm.rs b/wasm/clamm.rs
index 4610955..3259b83 100644
--- a/wasm/clamm.rs
+++ b/wasm/clamm.rs
@@ -127,6 +127,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in is rounded up, but can not exceed amount
+    if by_amount_in && amount_in > amount {
+        amount_in = amount;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
-- 
2.43.0


From 9e0aef50a929300517820c4152013f06307cd295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:44 +0000
Subject: [PATCH 12/14] fix: report the other token's amount for a liquidity at
 full precision

Dropping the liquidity's fraction, or rounding before dividing by a small
price product, reported less than the deposit takes even when rounding up.
---
 contracts/oraiswap-v3/src/logic/math.rs | 50 +++++++++++--------------
 wasm/math.rs                            | 50 ++++++++++---------------
 2 files changed, 41 insertions(+), 59 deletions(-)

diff --git a/contracts/oraiswap-v3/src/logic/math.rs b/contracts/oraiswap-v3/src/logic/math.rs
index af110ef..e77a458 100644
--- a/contracts/oraiswap-v3/src/logic/math.rs
+++ b/contracts/oraiswap-v3/src/logic/math.rs
@@ -246,22 +246,19 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> Result<TokenAmount, ContractError> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
+    let nominator = nominator.big_mul_to_value(liquidity);
+    let denominator = U256::from(denominator.get());
 
-    Ok(if rounding_up {
-        TokenAmount::new(
-            ((U256::from(common) + U256::from(Liquidity::from_integer(1).get()) - U256::from(1))
-                / U256::from(Liquidity::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
-        )
+    let x = if rounding_up {
+        (nominator + denominator - U256::from(1)) / denominator
     } else {
-        TokenAmount::new(
-            (U256::from(common) / U256::from(Liquidity::from_integer(1).get()))
-                .try_into()
-                .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
-        )
-    })
+        nominator / denominator
+    };
+
+    Ok(TokenAmount::new(
+        x.try_into()
+            .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
+    ))
 }
 
 pub fn calculate_y(
@@ -269,23 +266,18 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> Result<TokenAmount, ContractError> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (((U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity))
-                + U256::from(SqrtPrice::from_integer(1).get() - 1))
-                / U256::from(SqrtPrice::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
-        )
+    let y = if rounding_up {
+        (sqrt_price_diff.big_mul_to_value_up(liquidity)
+            + U256::from(SqrtPrice::from_integer(1).get() - 1))
+            / U256::from(SqrtPrice::from_integer(1).get())
     } else {
-        TokenAmount::new(
-            (U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity)
-                / U256::from(SqrtPrice::from_integer(1).get()))
-            .try_into()
+        sqrt_price_diff.big_mul_to_value(liquidity) / U256::from(SqrtPrice::from_integer(1).get())
+    };
+
+    Ok(TokenAmount::new(
+        y.try_into()
             .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
-        )
-    })
+    ))
 }
 
 #[cfg(test)]
diff --git a/wasm/math.rs b/wasm/math.rs
index d7e1fdc..55da114 100644
--- a/wasm/math.rs
+++ b/wasm/math.rs
@@ -174,22 +174,18 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
+    let nominator = nominator.big_mul_to_value(liquidity);
+    let denominator = U256::from(denominator.get());
 
-    Ok(if rounding_up {
-        TokenAmount::new(
-            ((U256::from(common) + U256::from(Liquidity::from_integer(1).get()) - U256::from(1))
-                / U256::from(Liquidity::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| err!("Overflow while casting to TokenAmount"))?,
-        )
+    let x = if rounding_up {
+        (nominator + denominator - U256::from(1)) / denominator
     } else {
-        TokenAmount::new(
-            (U256::from(common) / U256::from(Liquidity::from_integer(1).get()))
-                .try_into()
-                .map_err(|_| err!("Overflow while casting to TokenAmount"))?,
-        )
-    })
+        nominator / denominator
+    };
+
+    Ok(TokenAmount::new(x.try_into().map_err(|_| {
+        err!("Overflow while casting to TokenAmount")
+    })?))
 }
 
 pub fn calculate_y(
@@ -197,21 +193,15 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (((U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity))
-                + U256::from(SqrtPrice::from_integer(1).get() - 1))
-                / U256::from(SqrtPrice::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| err!("Overflow in calculating TokenAmount"))?,
-        )
+    let y = if rounding_up {
+        (sqrt_price_diff.big_mul_to_value_up(liquidity)
+            + U256::from(SqrtPrice::from_integer(1).get() - 1))
+            / U256::from(SqrtPrice::from_integer(1).get())
     } else {
-        TokenAmount::new(
-            (U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity)
-                / U256::from(SqrtPrice::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| err!("Overflow in calculating TokenAmount"))?,
-        )
-    })
+        sqrt_price_diff.big_mul_to_value(liquidity) / U256::from(SqrtPrice::from_integer(1).get())
+    };
+
+    Ok(TokenAmount::new(y.try_into().map_err(|_| {
+        err!("Overflow in calculating TokenAmount")
+    })?))
 }
-- 
2.43.0


From 563658df50e0dd22e744655d3037ce814391e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:57 +0000
Subject: [PATCH 13/14] fix: get_liquidity reports the amounts of the liquidity
 it returns

With both tokens, the amounts mixed the two candidates and could exceed
the budget; at a price exactly on a boundary it divided by zero.
---
 contracts/oraiswap-v3/src/logic/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/oraiswap-v3/src/logic/math.rs b/contracts/oraiswap-v3/src/logic/math.rs
index e77a458..244c369 100644
--- a/contracts/oraiswap-v3/src/logic/math.rs
+++ b/contracts/oraiswap-v3/src/logic/math.rs
@@ -35,7 +35,7 @@ pub fn get_liquidity(
     let lower_sqrt_price = calculate_sqrt_price(lower_tick)?;
     let upper_sqrt_price = calculate_sqrt_price(upper_tick)?;
 
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         // single token y
         let result_by_y = get_liquidity_by_y_sqrt_price(
             y,
@@ -49,7 +49,7 @@ pub fn get_liquidity(
             y,
             l: result_by_y.l,
         });
-    } else if current_sqrt_price < lower_sqrt_price {
+    } else if current_sqrt_price <= lower_sqrt_price {
         // single token x
         let result_by_x = get_liquidity_by_x_sqrt_price(
             x,
@@ -81,12 +81,12 @@ pub fn get_liquidity(
     Ok(if result_by_y.l < result_by_x.l {
         LiquidityResult {
             x: result_by_y.amount,
-            y: result_by_x.amount,
+            y,
             l: result_by_y.l,
         }
     } else {
         LiquidityResult {
-            x: result_by_y.amount,
+            x,
             y: result_by_x.amount,
             l: result_by_x.l,
         }
-- 
2.43.0


From 7b8b1fba207092acd188e89ec2ba84a6a1c7b1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:00 +0000
Subject: [PATCH 14/14] hook: native tick input for the SDK's swap simulation
 (cfg verif_hooks)

---
 wasm/swap.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/wasm/swap.rs b/wasm/swap.rs
index 222ee50..e50c2fe 100644
--- a/wasm/swap.rs
+++ b/wasm/swap.rs
@@ -7,6 +7,7 @@ use crate::{
 };
 use crate::{LiquidityTick, Pool};
 use decimal::Decimal;
+#[cfg(not(verif_hooks))]
 use serde_wasm_bindgen::from_value;
 use traceable_result::TrackableResult;
 use traceable_result::*;
@@ -14,6 +15,12 @@ use wasm_bindgen::prelude::*;
 
 type LiquidityTicks = Vec<LiquidityTick>;
 
+// ticks for simulate_swap where there is no JavaScript to pass them
+#[cfg(verif_hooks)]
+thread_local! {
+    pub static VERIF_TICKS: std::cell::RefCell<LiquidityTicks> = std::cell::RefCell::new(vec![]);
+}
+
 #[wasm_bindgen(js_name = simulateSwap)]
 #[allow(non_snake_case)]
 pub fn simulate_swap(
@@ -26,7 +33,13 @@ pub fn simulate_swap(
     by_amount_in: bool,
     sqrt_price_limit: SqrtPrice,
 ) -> TrackableResult<CalculateSwapResult> {
+    #[cfg(not(verif_hooks))]
     let ticks: LiquidityTicks = from_value(ticks).unwrap();
+    #[cfg(verif_hooks)]
+    let ticks: LiquidityTicks = {
+        let _ = ticks;
+        VERIF_TICKS.with(|t| t.borrow().clone())
+    };
     if amount.is_zero() {
         return Err(err!("Amount is zero"));
     }
-- 
2.43.0

