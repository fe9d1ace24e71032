From f86a5c4888e8e7b1971afa6f217695855926d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:46 +0000
Subject: [PATCH 1/2] fix: fixed price deposit quota overflows when the
 registry supply is worth more than u64::MAX quote

get_remaining_deposit_quota multiplied the remaining registry supply by the
price in u128 and failed every deposit of a presale that initialize_presale had
accepted, whenever supply * price exceeded u64::MAX quote token. The registry
supply is then simply not the binding limit, so saturate.
---
 .../presale/src/presale_mode_handler/fixed_price_presale.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
index d8005cc..3eb986c 100644
--- a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
+++ b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
@@ -228,10 +228,12 @@ impl PresaleModeHandler for FixedPricePresaleHandler {
         let registry_remaining_base_token =
             presale_registry.presale_supply.safe_sub(total_token_sold)?;
 
+        // Saturate: a registry can hold more base token than u64::MAX quote token can buy. In that case the registry supply doesn't limit the deposit.
         let registry_remaining_deposit_quota: u64 = u128::from(registry_remaining_base_token)
-            .safe_mul(self.q_price)?
+            .saturating_mul(self.q_price)
             .div_ceil(SCALE_MULTIPLIER)
-            .safe_cast()?;
+            .try_into()
+            .unwrap_or(u64::MAX);
 
         let personal_remaining_quota =
             escrow.get_remaining_deposit_quota(presale_registry.buyer_maximum_deposit_cap)?;
-- 
2.43.0


From 130d128ce47f9b023f462fd0e3a398187951f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:48 +0000
Subject: [PATCH 2/2] fix: closing the fixed price args announces the close
 event

---
 programs/presale/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/presale/src/lib.rs b/programs/presale/src/lib.rs
index c5d7119..a661d6e 100644
--- a/programs/presale/src/lib.rs
+++ b/programs/presale/src/lib.rs
@@ -60,9 +60,9 @@ pub mod presale {
     }
 
     pub fn close_fixed_price_presale_args(
-        _ctx: Context<CloseFixedPricePresaleArgsCtx>,
+        ctx: Context<CloseFixedPricePresaleArgsCtx>,
     ) -> Result<()> {
-        Ok(())
+        instructions::handle_close_fixed_price_presale_args(ctx)
     }
 
     pub fn initialize_presale<'a, 'b, 'c: 'info, 'info>(
-- 
2.43.0

