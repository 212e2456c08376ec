From bbfb768331bb9e9e81fd7952ca495601d93c2a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 1/7] fix: withdrawal fee must not panic when the oracle price
 is far below the spot price

---
 math/src/omnipool/math.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/math/src/omnipool/math.rs b/math/src/omnipool/math.rs
index c7d6324..9a1d5fd 100644
--- a/math/src/omnipool/math.rs
+++ b/math/src/omnipool/math.rs
@@ -303,7 +303,11 @@ pub fn calculate_withdrawal_fee(
 		return min_fee;
 	}
 
-	price_diff.div(oracle_price).clamp(min_fee, FixedU128::one())
+	// the ratio is beyond the maximum fee if it does not fit
+	price_diff
+		.checked_div(&oracle_price)
+		.unwrap_or_else(FixedU128::one)
+		.clamp(min_fee, FixedU128::one())
 }
 
 /// Calculate delta changes of remove liqudiity given current asset state and position from which liquidity should be removed.
-- 
2.43.0


From c2ac66e9288acb44049b4d1a9d96d0822f7dedd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 2/7] fix: price of a lopsided xyk pool must be an error, not a
 panic

---
 math/src/xyk/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/src/xyk/math.rs b/math/src/xyk/math.rs
index 2542c0e..95a8894 100644
--- a/math/src/xyk/math.rs
+++ b/math/src/xyk/math.rs
@@ -53,7 +53,7 @@ pub fn calculate_spot_price_with_fee(
 ) -> Result<FixedU128, MathError> {
 	ensure!(in_reserve != 0, ZeroReserve);
 
-	let spot_price_without_fee = FixedU128::from_rational(out_reserve, in_reserve);
+	let spot_price_without_fee = FixedU128::checked_from_rational(out_reserve, in_reserve).ok_or(Overflow)?;
 
 	if let Some((n, d)) = fee_rate {
 		// Formula: spot-price-with-fee = BA-spot-price-without-fee * (1 - fee)
-- 
2.43.0


From 79bbd86e9766cc8fe70876d18e5c94e277cfa4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:49 +0000
Subject: [PATCH 3/7] fix: dynamic fee recalculation must not panic when the
 traded volume dwarfs the liquidity

---
 math/src/dynamic_fees/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/src/dynamic_fees/math.rs b/math/src/dynamic_fees/math.rs
index ee1354f..945683e 100644
--- a/math/src/dynamic_fees/math.rs
+++ b/math/src/dynamic_fees/math.rs
@@ -2,7 +2,7 @@ use super::types::*;
 use crate::dynamic_fees::types::NetVolumeDirection::{InOut, OutIn};
 use num_traits::Zero;
 use sp_arithmetic::traits::Saturating;
-use sp_arithmetic::{FixedPointOperand, FixedU128, PerThing};
+use sp_arithmetic::{FixedPointNumber, FixedPointOperand, FixedU128, PerThing};
 
 /// Recalculate Omnipool's asset fee given previously calculated fee and oracle data.
 ///
@@ -66,7 +66,7 @@ where
 	// 2. if protocol fee, direction InOut: x = (Vi - Vo) / L
 	let (x, x_neg) = if !volume.liquidity.is_zero() {
 		let (diff, neg) = volume.net_volume(direction);
-		(FixedU128::from_rational(diff, volume.liquidity), neg)
+		(FixedU128::saturating_from_rational(diff, volume.liquidity), neg)
 	} else {
 		(FixedU128::zero(), false)
 	};
-- 
2.43.0


From 76b92e657b5e964c82182fda58cceb807c0f138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 4/7] fix: keep the minimum pool liquidity when withdrawing an
 exact amount

---
 pallets/stableswap/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/stableswap/src/lib.rs b/pallets/stableswap/src/lib.rs
index 13cf9ca..469bf2d 100644
--- a/pallets/stableswap/src/lib.rs
+++ b/pallets/stableswap/src/lib.rs
@@ -680,6 +680,10 @@ pub mod pallet {
 					|| current_share_balance.saturating_sub(shares) >= T::MinPoolLiquidity::get(),
 				Error::<T>::InsufficientShareBalance
 			);
+			ensure!(
+				share_issuance == shares || share_issuance.saturating_sub(shares) >= T::MinPoolLiquidity::get(),
+				Error::<T>::InsufficientLiquidityRemaining
+			);
 
 			// Burn shares and transfer asset to user.
 			T::Currency::withdraw(pool_id, &who, shares)?;
-- 
2.43.0


From 53dfef07cf5d882345691b96075389e68f8e73da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 5/7] fix: staking: votes with 5x conviction give five times
 the points

---
 pallets/staking/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/staking/src/types.rs b/pallets/staking/src/types.rs
index a4fc396..9364667 100644
--- a/pallets/staking/src/types.rs
+++ b/pallets/staking/src/types.rs
@@ -98,7 +98,7 @@ impl Conviction {
 			Conviction::Locked2x => FixedU128::from(2_u128),
 			Conviction::Locked3x => FixedU128::from(3_u128),
 			Conviction::Locked4x => FixedU128::from(4_u128),
-			Conviction::Locked5x => FixedU128::from(4_u128),
+			Conviction::Locked5x => FixedU128::from(5_u128),
 			Conviction::Locked6x => FixedU128::from(6_u128),
 		}
 	}
-- 
2.43.0


From 528df79b98612bc32514e8e274854cbe7ffff006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 6/7] fix: dca: terminate finds a schedule in any order of its
 block

---
 pallets/dca/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/dca/src/lib.rs b/pallets/dca/src/lib.rs
index f0504ba..5ac9267 100644
--- a/pallets/dca/src/lib.rs
+++ b/pallets/dca/src/lib.rs
@@ -556,9 +556,11 @@ pub mod pallet {
 				|maybe_schedule_ids| -> DispatchResult {
 					let schedule_ids = maybe_schedule_ids.as_mut().ok_or(Error::<T>::ScheduleNotFound)?;
 
+					// the ids are in the order in which they were planned, not sorted
 					let index = schedule_ids
-						.binary_search(&schedule_id)
-						.map_err(|_| Error::<T>::ScheduleNotFound)?;
+						.iter()
+						.position(|id| *id == schedule_id)
+						.ok_or(Error::<T>::ScheduleNotFound)?;
 
 					schedule_ids.remove(index);
 
-- 
2.43.0


From 5a15f827bd63c67234a7983597822927911ce01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 7/7] fix: liquidity-mining: withdraw shares of the deposit's
 pool only

The pool a deposit is withdrawn for was not compared with the pool of the
deposit. In xyk-liquidity-mining the caller names the pair, and gets back as
many shares of that pair's pool as were deposited: shares of a worthless pool
could be exchanged for shares of any other pool locked with the pallet.
---
 pallets/liquidity-mining/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index 2197c9a..4737011 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -1911,6 +1911,14 @@ impl<T: Config<I>, I: 'static> hydradx_traits::liquidity_mining::Mutate<T::Accou
 		yield_farm_id: YieldFarmId,
 		amm_pool_id: Self::AmmPoolId,
 	) -> Result<(Self::Balance, Option<(T::AssetId, Self::Balance, Self::Balance)>, bool), Self::Error> {
+		//NOTE: Withdrawn shares are shares of deposit's amm pool. Caller must not receive shares of any other pool.
+		if let Some(deposit) = Self::deposit(deposit_id) {
+			ensure!(
+				deposit.amm_pool_id == amm_pool_id,
+				Error::<T, I>::YieldFarmEntryNotFound
+			);
+		}
+
 		let claim_data = if Self::is_yield_farm_claimable(global_farm_id, yield_farm_id, amm_pool_id) {
 			let fail_on_doubleclaim = false;
 			let (_, reward_currency, claimed, unclaimable) =
-- 
2.43.0

