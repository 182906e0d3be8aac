From 2798e3464c926d6b48b69a19aa21941ace955d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 1/2] fix: let governance manage a paused orderbook

sudo refused every message while the active switch was off, including
SetActive itself, so governance could not reopen a book it had paused
(and, without an admin, nobody could). Only swaps are gated now.
---
 contracts/sumtree-orderbook/src/sudo.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/contracts/sumtree-orderbook/src/sudo.rs b/contracts/sumtree-orderbook/src/sudo.rs
index 30614e7..fe1dcf1 100644
--- a/contracts/sumtree-orderbook/src/sudo.rs
+++ b/contracts/sumtree-orderbook/src/sudo.rs
@@ -20,7 +20,15 @@ use crate::{
 #[cfg_attr(not(feature = "imported"), entry_point)]
 pub fn sudo(deps: DepsMut, env: Env, msg: SudoMsg) -> ContractResult<Response> {
     // Ensure orderbook is active
-    ensure_is_active(deps.as_ref())?;
+    // Switch does not apply to admin messages, otherwise governance could never lift it again
+    if matches!(
+        msg,
+        SudoMsg::SwapExactAmountIn { .. }
+            | SudoMsg::SwapToTick { .. }
+            | SudoMsg::SwapExactAmountOut { .. }
+    ) {
+        ensure_is_active(deps.as_ref())?;
+    }
 
     match msg {
         SudoMsg::SwapExactAmountIn {
-- 
2.43.0


From e1b7cfde7f8dbd69b2c2b7b53526dc28a95f2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 2/2] fix: round up exactly when dividing by prices above 10^18

Dividing through Decimal256 truncates the quotient to 18 decimals before
rounding, so the cost of consuming bids at prices above 10^18 was rounded
down: takers were undercharged by a unit, and a bid worth less than 10^-18
of the base token cost zero and made every swap reaching it fail.
---
 contracts/sumtree-orderbook/src/tick_math.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/contracts/sumtree-orderbook/src/tick_math.rs b/contracts/sumtree-orderbook/src/tick_math.rs
index 06db154..b7a82ae 100644
--- a/contracts/sumtree-orderbook/src/tick_math.rs
+++ b/contracts/sumtree-orderbook/src/tick_math.rs
@@ -121,18 +121,20 @@ pub fn divide_by_price(
     price: Decimal256,
     rounding_direction: RoundingDirection,
 ) -> ContractResult<Uint256> {
-    let amount_to_send_dec256 = Decimal256::from_ratio(amount, Uint256::one()).checked_div(price);
-    ensure!(
-        amount_to_send_dec256.is_ok(),
+    // Round the exact quotient: a Decimal256 quotient is already truncated to 18 decimals, which
+    // would lose the remainder (and so round up to too small an amount) at prices above 10^18.
+    let uint256_amount = Uint256::from_uint128(amount);
+    match rounding_direction {
+        RoundingDirection::Down => uint256_amount.checked_div_floor(price),
+        RoundingDirection::Up => uint256_amount.checked_div_ceil(price),
+    }
+    .map_err(|_| {
         ContractError::Overflow(OverflowError {
             operation: OverflowOperation::Mul,
             operand1: amount.to_string(),
             operand2: price.to_string(),
         })
-    );
-    let amount_to_send = rounding_direction.round(amount_to_send_dec256?);
-
-    Ok(amount_to_send)
+    })
 }
 
 /// Converts a tick amount to it's value given a price and order direction
-- 
2.43.0

