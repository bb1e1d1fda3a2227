From e9c9a59d5f383396c1acae05b99aff4925962797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:50 +0000
Subject: [PATCH 01/14] fix: key trade info by the last denom of a multi-hop
 route

---
 packages/interface/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/interface/src/types.rs b/packages/interface/src/types.rs
index b4e4b76..2a28fec 100644
--- a/packages/interface/src/types.rs
+++ b/packages/interface/src/types.rs
@@ -69,11 +69,11 @@ impl From<SwapRoutes> for Vec<SwapAmountOutRoute> {
 
 impl SwapRoutes {
     pub fn dneom_first(&self) -> String {
-        self.0.last().unwrap().token_denom.clone()
+        self.0.first().unwrap().token_denom.clone()
     }
 
     pub fn denom_last(&self) -> String {
-        self.0.first().unwrap().token_denom.clone()
+        self.0.last().unwrap().token_denom.clone()
     }
 
     pub fn sim_swap_exact_in(
-- 
2.43.0


From bd6d4447b474889c8c864771fe82da7a1256c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:50 +0000
Subject: [PATCH 02/14] fix: skip the burn fee transfer when the fee rounds
 down to zero

---
 contracts/core/src/execute/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/core/src/execute/token.rs b/contracts/core/src/execute/token.rs
index 3b54958..39f2aa1 100644
--- a/contracts/core/src/execute/token.rs
+++ b/contracts/core/src/execute/token.rs
@@ -165,7 +165,7 @@ pub fn burn(
     };
 
     // send fee to collector
-    let fee_send_msg = burn_fee.map(|v| BankMsg::Send {
+    let fee_send_msg = burn_fee.filter(|v| !v.is_zero()).map(|v| BankMsg::Send {
         to_address: fee.collector.into_string(),
         amount: coins(v.u128(), &config.index_denom),
     });
-- 
2.43.0


From 31a6526677804c782231ef987ed6cec1b73d895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 03/14] fix: apply the minimum deposit and mint fee in
 simulate_mint as mint does

---
 contracts/core/src/query.rs       |  4 ++--
 contracts/core/src/state/units.rs | 14 +++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 3cb78d7..a1ff6d8 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -186,9 +186,9 @@ pub fn simulate_mint(
         .transpose()?
         .unwrap_or(index_units);
 
-    let spent = index_units.calc_require_amount(amount);
+    let spent = index_units.calc_deposit_amount(amount);
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
-    let mint_fee = fee.mint_fee.map(|v| v * amount);
+    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
 
     Ok(SimulateMintResponse {
diff --git a/contracts/core/src/state/units.rs b/contracts/core/src/state/units.rs
index ee7ad7f..6193b7c 100644
--- a/contracts/core/src/state/units.rs
+++ b/contracts/core/src/state/units.rs
@@ -131,16 +131,20 @@ impl Units {
             .collect::<Vec<_>>()
     }
 
+    // amount of each denom to deposit on mint: at least one base unit each
+    pub fn calc_deposit_amount(&self, index_amount: Uint128) -> Vec<Coin> {
+        self.calc_require_amount(index_amount)
+            .into_iter()
+            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
+            .collect::<Vec<_>>()
+    }
+
     pub fn calc_refund_amount(
         &self,
         mut funds: Vec<Coin>,
         index_amount: Uint128,
     ) -> Result<Vec<Coin>, ContractError> {
-        let required = self
-            .calc_require_amount(index_amount)
-            .into_iter()
-            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
-            .collect::<Vec<_>>();
+        let required = self.calc_deposit_amount(index_amount);
         let mut denoms: Vec<_> = funds.clone().into_iter().map(|v| Some(v.denom)).collect();
 
         for Coin { denom, amount } in required {
-- 
2.43.0


From 3a7f8cc0aba9faafc25e4acdc247af3f8ec73586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 04/14] fix: pay accrued streaming fees to the collector before
 the fee strategy is replaced

---
 contracts/core/src/execute/gov/update.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/gov/update.rs b/contracts/core/src/execute/gov/update.rs
index 82a4683..52d0654 100644
--- a/contracts/core/src/execute/gov/update.rs
+++ b/contracts/core/src/execute/gov/update.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
+use cosmwasm_std::{attr, BankMsg, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
 use ibcx_interface::{core::FeePayload, types::SwapRoutes};
 
 use crate::{
@@ -84,6 +84,20 @@ pub fn update_fee(
     // update
     let mut fee = FEE.load(deps.storage)?;
 
+    // pay what has been accrued so far to the current collector
+    let accrued = fee
+        .streaming_fee
+        .take()
+        .map(|v| v.collected)
+        .unwrap_or_default()
+        .into_iter()
+        .filter(|v| !v.amount.is_zero())
+        .collect::<Vec<_>>();
+    let accrued_send_msg = (!accrued.is_empty()).then(|| BankMsg::Send {
+        to_address: fee.collector.to_string(),
+        amount: accrued,
+    });
+
     fee.collector = deps.api.addr_validate(&new_fee.collector)?;
     fee.mint_fee = new_fee.mint_fee;
     fee.burn_fee = new_fee.burn_fee;
@@ -103,7 +117,9 @@ pub fn update_fee(
         attr("executor", info.sender),
     ];
 
-    let resp = Response::new().add_attributes(attrs);
+    let resp = Response::new()
+        .add_messages(accrued_send_msg)
+        .add_attributes(attrs);
 
     Ok(resp)
 }
-- 
2.43.0


From cd484bbcd0d5b3fe88161e7c6ff4d982247ec668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 05/14] fix: reject a rebalance with a zero inflation weight

---
 contracts/core/src/state/rebalance.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/core/src/state/rebalance.rs b/contracts/core/src/state/rebalance.rs
index b8a9df3..9dd6fae 100644
--- a/contracts/core/src/state/rebalance.rs
+++ b/contracts/core/src/state/rebalance.rs
@@ -35,6 +35,11 @@ impl Rebalance {
             return Err(ValidationError::invalid_rebalance("inflation", "duplicate denom").into());
         }
 
+        // check zero weight: it cannot take part in the distribution
+        if self.inflation.iter().any(|(_, weight)| weight.is_zero()) {
+            return Err(ValidationError::invalid_rebalance("inflation", "zero weight").into());
+        }
+
         // check index_units <-> deflation
         {
             let mut base_units = index_units;
-- 
2.43.0


From 7ccb446f95d7671581a7203fe9b2ed1a3b27ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:59 +0000
Subject: [PATCH 06/14] fix: verify bearer claims against the claim hash in the
 VerifyClaim query

---
 contracts/airdrop/src/query/claim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/airdrop/src/query/claim.rs b/contracts/airdrop/src/query/claim.rs
index b8b2841..26b4c53 100644
--- a/contracts/airdrop/src/query/claim.rs
+++ b/contracts/airdrop/src/query/claim.rs
@@ -108,7 +108,8 @@ pub fn verify_claim(
             }
 
             // validate claim hash
-            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &account, amount);
+            let verify_result =
+                verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);
             if let Err(e) = verify_result {
                 return Ok(resp.fail(e));
             }
-- 
2.43.0


From fb7310327226789b8e8aaf0be50cb1720579d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:01 +0000
Subject: [PATCH 07/14] fix: let a fully claimed airdrop be closed

---
 contracts/airdrop/src/execute/close.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/contracts/airdrop/src/execute/close.rs b/contracts/airdrop/src/execute/close.rs
index eb1956c..84f02e0 100644
--- a/contracts/airdrop/src/execute/close.rs
+++ b/contracts/airdrop/src/execute/close.rs
@@ -48,17 +48,20 @@ fn close_open(
     airdrop.closed_at = Some(env.block.height);
 
     // response
-    let send_msg = BankMsg::Send {
-        to_address: airdrop.creator.to_string(),
-        amount: coins(redeem_amount.u128(), &airdrop.denom),
-    };
+    let mut resp = Response::new();
+    if !redeem_amount.is_zero() {
+        resp = resp.add_message(BankMsg::Send {
+            to_address: airdrop.creator.to_string(),
+            amount: coins(redeem_amount.u128(), &airdrop.denom),
+        });
+    }
 
     let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);
 
     // apply states
     airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
 
-    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
+    Ok(resp.add_attributes(attrs))
 }
 
 fn close_bearer(
@@ -81,17 +84,20 @@ fn close_bearer(
     airdrop.closed_at = Some(env.block.height);
 
     // response
-    let send_msg = BankMsg::Send {
-        to_address: airdrop.creator.to_string(),
-        amount: coins(redeem_amount.u128(), &airdrop.denom),
-    };
+    let mut resp = Response::new();
+    if !redeem_amount.is_zero() {
+        resp = resp.add_message(BankMsg::Send {
+            to_address: airdrop.creator.to_string(),
+            amount: coins(redeem_amount.u128(), &airdrop.denom),
+        });
+    }
 
     let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, redeem_amount);
 
     // apply states
     airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
 
-    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
+    Ok(resp.add_attributes(attrs))
 }
 
 #[cfg(test)]
-- 
2.43.0


From ae5f01bb1fb299f0a992e9fe08830bafb33bfe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:46 +0000
Subject: [PATCH 08/14] fix: pow_int returned one instead of the base for an
 exponent of one

---
 packages/math/src/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/math/src/pow.rs b/packages/math/src/pow.rs
index 257a32e..7f9a890 100644
--- a/packages/math/src/pow.rs
+++ b/packages/math/src/pow.rs
@@ -43,7 +43,7 @@ pub fn pow(base: Decimal256, exp: Decimal256) -> Result<Decimal256, MathError> {
 }
 
 fn pow_int(mut base: Decimal256, power: Uint256) -> Decimal256 {
-    if power <= Uint256::one() {
+    if power.is_zero() {
         return Decimal256::one();
     }
 
-- 
2.43.0


From 4a7c9671238fbf5860e470b27fdab27a852d6c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:46 +0000
Subject: [PATCH 09/14] fix: finish_operation failed when nothing was left to
 refund

---
 contracts/periphery/src/execute.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index bb3cd3b..36310b7 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -319,17 +319,20 @@ pub fn finish_operation(
         .querier
         .query_balance(env.contract.address, &refund_asset)?;
 
-    let resp = Response::new()
-        .add_attributes(vec![
-            attr("method", "finish_operation"),
-            attr("refund_to", &refund_to),
-            attr("refund_asset", refund_asset),
-            attr("amount", balance.amount),
-        ])
-        .add_message(BankMsg::Send {
+    let mut resp = Response::new().add_attributes(vec![
+        attr("method", "finish_operation"),
+        attr("refund_to", &refund_to),
+        attr("refund_asset", refund_asset),
+        attr("amount", balance.amount),
+    ]);
+
+    // nothing left to sweep: an empty transfer would fail the whole operation
+    if !balance.amount.is_zero() {
+        resp = resp.add_message(BankMsg::Send {
             to_address: refund_to,
             amount: vec![balance],
         });
+    }
 
     Ok(resp)
 }
-- 
2.43.0


From 612093187507425e60353aea7019193ad159933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 10/14] fix: burn operations left assets behind when the burn
 fee was rounded differently from the core contract

---
 contracts/periphery/src/execute.rs | 6 +++---
 contracts/periphery/src/lib.rs     | 5 +++++
 contracts/periphery/src/query.rs   | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index 36310b7..f0bb3cb 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -7,7 +7,7 @@ use ibcx_interface::{core, helpers::IbcCore};
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::error::ContractError;
-use crate::{coin_sorter, deduct_fee, expand_fee, make_unit_converter};
+use crate::{coin_sorter, deduct_burn_fee, deduct_fee, expand_fee, make_unit_converter};
 
 pub fn mint_exact_amount_in(
     deps: DepsMut,
@@ -184,7 +184,7 @@ pub fn burn_exact_amount_in(
     let pool_ids = extract_pool_ids(swap_info.clone());
     let pools = query_pools(&deps.as_ref(), pool_ids)?;
 
-    let act_burn_amount = index_asset.amount * deduct_fee(core_fee.burn_fee)?;
+    let act_burn_amount = deduct_burn_fee(index_asset.amount, core_fee.burn_fee)?;
 
     let deps_ref = deps.as_ref();
     let sim = Simulator::new(&deps_ref, &pools, &swap_info, &core_portfolio.units);
@@ -262,7 +262,7 @@ pub fn burn_exact_amount_out(
         vec![coin(burn_amount.u128(), &core_config.index_denom)],
     )?;
 
-    let act_burn_amount = burn_amount * deduct_fee(core_fee.burn_fee)?;
+    let act_burn_amount = deduct_burn_fee(burn_amount, core_fee.burn_fee)?;
 
     let sim_res = sim.estimate_output_for_index(act_burn_amount, &desired_output.denom)?;
 
diff --git a/contracts/periphery/src/lib.rs b/contracts/periphery/src/lib.rs
index 26063a1..320ec26 100644
--- a/contracts/periphery/src/lib.rs
+++ b/contracts/periphery/src/lib.rs
@@ -30,6 +30,11 @@ pub fn expand_fee(rate: Option<Decimal>) -> Result<Decimal, ContractError> {
         .unwrap_or(Decimal::one()))
 }
 
+/// amount the core contract redeems for: it takes floor(amount * rate) as the fee
+pub fn deduct_burn_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
+    Ok(amount.checked_sub(rate.map(|v| amount * v).unwrap_or_default())?)
+}
+
 pub fn make_unit_converter(v: Uint128) -> Box<dyn Fn((String, Decimal)) -> Coin> {
     Box::new(move |(denom, unit)| coin((v * unit).u128(), denom))
 }
diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index fe90d57..0aa4ca4 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -8,7 +8,7 @@ use ibcx_interface::{
 };
 use ibcx_pool::{query_pools, Simulator};
 
-use crate::{deduct_fee, error::ContractError, expand_fee, make_unit_converter};
+use crate::{deduct_burn_fee, deduct_fee, error::ContractError, expand_fee, make_unit_converter};
 
 pub fn simulate_mint_exact_amount_in(
     deps: Deps,
@@ -95,7 +95,7 @@ pub fn simulate_burn_exact_amount_in(
     let pools = query_pools(&deps, pool_ids)?;
 
     // apply burn fee before simulating
-    let burn_amount = index_amount * deduct_fee(core_fee.burn_fee)?;
+    let burn_amount = deduct_burn_fee(index_amount, core_fee.burn_fee)?;
 
     let conv = make_unit_converter(burn_amount);
     let mut burn_redeem_amount: Vec<_> =
-- 
2.43.0


From cfaa45a9285abc241d1db0085b4d713347a5490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 11/14] fix: mint_exact_amount_in compared the minimum output
 with the amount before the mint fee

---
 contracts/periphery/src/execute.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index f0bb3cb..bc9df1b 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -32,11 +32,18 @@ pub fn mint_exact_amount_in(
 
     let deps_ref = deps.as_ref();
     let sim = Simulator::new(&deps_ref, &pools, &swap_info, &core_portfolio.units);
+
+    // the sender has to get min_index_amount after the core contract took its mint fee
+    let min_mint_amount = match core_fee.mint_fee {
+        Some(_) => min_index_amount * expand_fee(core_fee.mint_fee)? + Uint128::one(),
+        None => min_index_amount,
+    };
+
     let sim_res = sim
         .estimate_index_for_input(
             desired_asset.clone(),
-            Some(min_index_amount),
-            Some(min_index_amount),
+            Some(min_mint_amount),
+            Some(min_mint_amount),
             None,
         )?
         .est
-- 
2.43.0


From 3c19e2e8364a424298d7a50dc78e1849da241e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 12/14] fix: mint simulations added the mint fee instead of
 deducting it and simulated the net amount

---
 contracts/periphery/src/query.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index 0aa4ca4..585d9a8 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -29,11 +29,12 @@ pub fn simulate_mint_exact_amount_in(
         .estimate_index_for_input(input_asset.clone(), None, None, None)?
         .max;
 
+    let index_amount = sim_res.est_min_token_out.checked_sub(Uint128::new(100))?; // FIXME: hacky calibration
+
     // apply mint fee
-    let mint_amount =
-        (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
+    let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_unit_converter(index_amount);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
@@ -63,13 +64,13 @@ pub fn simulate_mint_exact_amount_out(
     // apply mint fee
     let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_unit_converter(index_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
     let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
-    let sim_res = sim.estimate_input_for_index(&input_asset, mint_amount)?;
+    let sim_res = sim.estimate_input_for_index(&input_asset, index_amount)?;
 
     Ok(SimulateMintExactAmountOutResponse {
         mint_amount,
-- 
2.43.0


From 671fb0f088275c480040c9a4bfd0c98d18334278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:48 +0000
Subject: [PATCH 13/14] fix: simulate_burn_exact_amount_out reported assets for
 the burn fee as redeemed

---
 contracts/periphery/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index 585d9a8..c943713 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -136,7 +136,8 @@ pub fn simulate_burn_exact_amount_out(
     // apply burn fee after simulation
     let burn_amount = sim_res.est_min_token_in * expand_fee(core_fee.burn_fee)?;
 
-    let conv = make_unit_converter(burn_amount);
+    // nothing is redeemed for the part taken as burn fee
+    let conv = make_unit_converter(sim_res.est_min_token_in);
     let mut burn_redeem_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     burn_redeem_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
-- 
2.43.0


From 10d82bdadb0c634b6400d879e62e48c80a6c64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:02 +0000
Subject: [PATCH 14/14] fix: a rebalance could not be finalized while dust
 below one token was left to trade

---
 .../core/src/execute/rebalance/finalize.rs    | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/finalize.rs b/contracts/core/src/execute/rebalance/finalize.rs
index bf7e6aa..3641425 100644
--- a/contracts/core/src/execute/rebalance/finalize.rs
+++ b/contracts/core/src/execute/rebalance/finalize.rs
@@ -1,9 +1,9 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, Storage};
+use cosmwasm_std::{attr, Decimal, DepsMut, Env, MessageInfo, Response, Storage, Uint128};
 
 use crate::{
     assert_sender,
     error::RebalanceError,
-    state::{FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS},
+    state::{FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS, TOTAL_SUPPLY},
     StdResult,
 };
 
@@ -18,6 +18,15 @@ fn unfreeze_streaming_fee(storage: &mut dyn Storage, now_in_sec: u64) -> StdResu
     Ok(())
 }
 
+// trades move whole tokens and round units down, so they can not settle less than one token
+// of the supply or the last digit of a unit
+fn is_tradable(unit: Decimal, total_supply: Option<Uint128>) -> bool {
+    match total_supply {
+        Some(total_supply) => unit.atomics() > Uint128::one() && !(unit * total_supply).is_zero(),
+        None => !unit.is_zero(),
+    }
+}
+
 pub fn finalize(deps: DepsMut, env: Env, info: MessageInfo) -> StdResult<Response> {
     unfreeze_streaming_fee(deps.storage, env.block.time.seconds())?;
 
@@ -30,12 +39,14 @@ pub fn finalize(deps: DepsMut, env: Env, info: MessageInfo) -> StdResult<Respons
     }
 
     let index_units = INDEX_UNITS.load(deps.storage)?;
+    let total_supply = TOTAL_SUPPLY.may_load(deps.storage)?;
 
     // check deflation
     for (denom, target_unit) in rebalance.deflation {
         let (_, current_unit) = index_units.get_key(&denom).unwrap();
+        let unit_gap = current_unit.saturating_sub(target_unit);
 
-        if &target_unit < current_unit {
+        if is_tradable(unit_gap, total_supply) {
             return Err(
                 RebalanceError::unable_to_finalize("deflation condition did not met").into(),
             );
@@ -44,7 +55,10 @@ pub fn finalize(deps: DepsMut, env: Env, info: MessageInfo) -> StdResult<Respons
 
     // check reserve unit has been flushed to inflation units
     let reserve_units = RESERVE_UNITS.load(deps.storage)?;
-    if !reserve_units.check_empty() {
+    if reserve_units
+        .iter()
+        .any(|(_, unit)| is_tradable(*unit, total_supply))
+    {
         return Err(RebalanceError::unable_to_finalize("inflation condition did not met").into());
     }
 
-- 
2.43.0

