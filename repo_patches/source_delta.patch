From fef1dab5621f00476dcdf2b6d724d7eced864ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 1/7] fix: count repeated liquidation payments in one debt
 token against the same debt

Each payment was compared with the full outstanding debt of its token, so a
liquidator sending the same token twice was credited twice. The surplus came
back as an overpayment when repaid, while the collateral for it was seized.
---
 controller/src/positions/liquidation.rs | 27 +++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index 42fe9f1..59d2838 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -548,7 +548,13 @@ pub trait PositionLiquidationModule:
         >,
     ) {
         let mut total_repaid = self.ray_zero();
-        let mut repaid_tokens = ManagedVec::new();
+        let mut repaid_tokens: ManagedVec<
+            MultiValue3<
+                EgldOrEsdtTokenPayment,
+                ManagedDecimal<Self::Api, NumDecimals>,
+                PriceFeedShort<Self::Api>,
+            >,
+        > = ManagedVec::new();
         for payment_ref in repayments {
             let token_price_feed = self.token_price(&payment_ref.token_identifier, cache);
             let original_borrow_position =
@@ -560,8 +566,25 @@ pub trait PositionLiquidationModule:
                 self.token_egld_value_ray(&payment_amount_decimal, &token_price_feed.price_wad);
 
             let outstanding_debt_ray = self.total_amount_ray(&original_borrow_position, cache);
-            let outstanding_debt_egld_ray =
+            let mut outstanding_debt_egld_ray =
                 self.token_egld_value_ray(&outstanding_debt_ray, &token_price_feed.price_wad);
+
+            // Earlier payments in the same token already cover part of this debt
+            let mut covered_egld_ray = self.ray_zero();
+            for repaid_token in repaid_tokens.iter() {
+                let (earlier_payment, earlier_egld_ray, _) = repaid_token.clone().into_tuple();
+                if earlier_payment.token_identifier == payment_ref.token_identifier {
+                    covered_egld_ray += earlier_egld_ray;
+                }
+            }
+            if covered_egld_ray > self.ray_zero() {
+                if covered_egld_ray >= outstanding_debt_egld_ray {
+                    refunds.push(payment_ref.clone());
+                    continue;
+                }
+                outstanding_debt_egld_ray -= covered_egld_ray;
+            }
+
             let mut adjusted_payment = payment_ref.clone();
             if payment_egld_value_ray > outstanding_debt_egld_ray {
                 let excess_egld_ray = payment_egld_value_ray - outstanding_debt_egld_ray.clone();
-- 
2.43.0


From c5abe681bd1bf0a6e46238a69c0148963168474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 2/7] fix: let bad debt be cleaned in a market that has no
 suppliers

Charging the loss divided by the total supplied value, so an account owing
from a market without suppliers could never be cleaned.
---
 liquidity_layer/src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liquidity_layer/src/utils.rs b/liquidity_layer/src/utils.rs
index e9305d3..9c33420 100644
--- a/liquidity_layer/src/utils.rs
+++ b/liquidity_layer/src/utils.rs
@@ -68,6 +68,10 @@ pub trait UtilsModule:
     ) {
         // Calculate total supplied value in RAY precision
         let total_supplied_value_ray = cache.calculate_original_supply_ray(&cache.supplied_ray);
+        // Without suppliers there is nobody to charge and no ratio to compute
+        if total_supplied_value_ray == self.ray_zero() {
+            return;
+        }
         // Convert bad debt to RAY precision
         // Cap bad debt to available value (prevent negative results)
         let capped_bad_debt_ray = self.min(bad_debt_amount_ray, total_supplied_value_ray.clone());
-- 
2.43.0


From e74a42b1737dd4ae378b7d0fe6eaf2c902bb0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 3/7] fix: track isolated debt in full USD precision for assets
 with fewer decimals

---
 controller/src/router.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller/src/router.rs b/controller/src/router.rs
index 722bd17..0ba5313 100644
--- a/controller/src/router.rs
+++ b/controller/src/router.rs
@@ -199,8 +199,11 @@ pub trait RouterModule:
         self.pools().insert(address.clone());
 
         // Init ManagedDecimal for future usage and avoiding storage decode errors for checks
+        // The tracker holds a USD amount and additions keep its scale, so it starts in WAD rather
+        // than in `asset_decimals` (the argument stays part of the call format)
+        let _ = asset_decimals;
         self.isolated_asset_debt_usd(&base_asset)
-            .set(self.to_decimal(BigUint::zero(), asset_decimals));
+            .set(self.wad_zero());
 
         require!(
             liquidation_threshold_bps > ltv,
-- 
2.43.0


From 14dbc58f4344df870f4352b1375d2d53aa9154dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 4/7] fix: keep a market usable whose suppliers were written
 off to nothing

---
 common/rates/src/rates.rs        | 4 ++++
 liquidity_layer/src/cache/mod.rs | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/rates/src/rates.rs b/common/rates/src/rates.rs
index 9dc0e35..df10d2f 100644
--- a/common/rates/src/rates.rs
+++ b/common/rates/src/rates.rs
@@ -203,6 +203,10 @@ pub trait InterestRates: common_math::SharedMathModule {
         if supplied != self.ray_zero() && rewards_increase != self.ray_zero() {
             let total_supplied_with_interest =
                 self.mul_half_up(&supplied, &old_supply_index, RAY_PRECISION);
+            // Claims written off to nothing have no ratio to grow by
+            if total_supplied_with_interest == self.ray_zero() {
+                return old_supply_index;
+            }
             let rewards_ratio = self.div_half_up(
                 &rewards_increase,
                 &total_supplied_with_interest,
diff --git a/liquidity_layer/src/cache/mod.rs b/liquidity_layer/src/cache/mod.rs
index d899b48..95bb499 100644
--- a/liquidity_layer/src/cache/mod.rs
+++ b/liquidity_layer/src/cache/mod.rs
@@ -134,11 +134,13 @@ where
     ///
     /// **Security Tip**: Handles division-by-zero by returning 0 when `supplied` is zero.
     pub fn calculate_utilization(&self) -> ManagedDecimal<C::Api, NumDecimals> {
-        if self.supplied_ray == self.sc_ref.ray_zero() {
+        // The value decides, not the scaled amount: after a total write-off of bad debt the scaled
+        // amount remains while its value can round to zero
+        let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
+        if total_supplied == self.sc_ref.ray_zero() {
             self.sc_ref.ray_zero()
         } else {
             let total_borrowed = self.calculate_original_borrow_ray(&self.borrowed_ray);
-            let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
             self.sc_ref
                 .div_half_up(&total_borrowed, &total_supplied, RAY_PRECISION)
         }
-- 
2.43.0


From f5acfd6a7140be4e1e829fe3e8a5f7474e1a2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 5/7] fix: market event of createStrategy reports the reserves
 left after the payout

---
 liquidity_layer/src/liquidity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liquidity_layer/src/liquidity.rs b/liquidity_layer/src/liquidity.rs
index ef2de53..221df2f 100644
--- a/liquidity_layer/src/liquidity.rs
+++ b/liquidity_layer/src/liquidity.rs
@@ -467,11 +467,11 @@ pub trait LiquidityModule:
 
         self.internal_add_protocol_revenue(&mut cache, strategy_fee.clone());
 
-        self.emit_market_update(&cache, price);
-
         // Send the net amount (after fee deduction) to the user
         self.send_asset(&cache, &amount_to_send, &self.blockchain().get_caller());
 
+        self.emit_market_update(&cache, price);
+
         position
     }
 
-- 
2.43.0


From 742b6d5a28336ebd47c393751071a346275d6ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 6/7] fix: refuse a further loan to an account that owes
 several assets of which one became siloed

---
 controller/src/positions/borrow.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/controller/src/positions/borrow.rs b/controller/src/positions/borrow.rs
index d0c8567..e9cff85 100644
--- a/controller/src/positions/borrow.rs
+++ b/controller/src/positions/borrow.rs
@@ -396,15 +396,15 @@ pub trait PositionBorrowModule:
             );
         }
 
-        // Check if trying to borrow a different asset when there's a siloed position
-        if borrow_positions.len() == 1 {
-            let first_position = borrow_positions.get(0);
-            let first_asset_config = cache.cached_asset_info(&first_position.asset_id);
+        // Check if trying to borrow a different asset when there's a siloed position.
+        // Every debt is checked: an asset may have become siloed after several were taken
+        for position in borrow_positions {
+            let existing_asset_config = cache.cached_asset_info(&position.asset_id);
 
             // If either the existing position or new borrow is siloed, they must be the same asset
-            if first_asset_config.is_siloed_borrowing() || asset_config.is_siloed_borrowing() {
+            if existing_asset_config.is_siloed_borrowing() || asset_config.is_siloed_borrowing() {
                 require!(
-                    token_id == &first_position.asset_id,
+                    token_id == &position.asset_id,
                     ERROR_ASSET_NOT_BORROWABLE_IN_SILOED
                 );
             }
-- 
2.43.0


From 218b027e5f73b13c30eb6633f5de3651a0827f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 7/7] fix: refuse a new e-mode category once the one-byte
 identifiers are used up

---
 common/errors/src/errors.rs | 2 ++
 controller/src/config.rs    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/common/errors/src/errors.rs b/common/errors/src/errors.rs
index 87f2d53..46b060c 100644
--- a/common/errors/src/errors.rs
+++ b/common/errors/src/errors.rs
@@ -95,6 +95,8 @@ pub static ERROR_ADDRESS_IS_ZERO: &[u8] = b"Address is zero.";
 
 pub static ERROR_EMODE_CATEGORY_DEPRECATED: &[u8] = b"E-mode category deprecated.";
 
+pub static ERROR_EMODE_CATEGORY_LIMIT_REACHED: &[u8] = b"E-mode category limit reached.";
+
 pub static ERROR_POSITION_NOT_FOUND: &[u8] = b"Position not found.";
 
 pub static ERROR_SWAP_COLLATERAL_NOT_SUPPORTED: &[u8] =
diff --git a/controller/src/config.rs b/controller/src/config.rs
index 2c8251c..b734fd9 100644
--- a/controller/src/config.rs
+++ b/controller/src/config.rs
@@ -392,6 +392,7 @@ pub trait ConfigModule:
         let map = self.last_e_mode_category_id();
 
         let last_id = map.get();
+        require!(last_id < u8::MAX, ERROR_EMODE_CATEGORY_LIMIT_REACHED);
         let category = EModeCategory {
             category_id: last_id + 1,
             loan_to_value_bps: self.to_decimal_bps(ltv),
-- 
2.43.0

