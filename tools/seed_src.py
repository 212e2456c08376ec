# Sources of the planted bugs: see seeds.py.
S = {}
def seed(id, property, edits, demo, needs, breaks):
    S[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)
OM = 'math/src/omnipool/math.rs'
XY = 'math/src/xyk/math.rs'
OUSE = '''
use hydra_dx_math::omnipool::types::*;
use hydra_dx_math::omnipool::*;
use sp_arithmetic::*;
#[allow(unused)]
fn st(reserve: u128, hub_reserve: u128) -> AssetReserveState<u128> {
	AssetReserveState { reserve, hub_reserve, shares: reserve, protocol_shares: 0 }
}
'''
seed('xyk-buy-round-up-low-word', 'M01', [(XY, '''	let result = to_balance!(buy_price_hp).ok();
	// We are rounding up to prevent value leaking from the pool
	round_up!(result.ok_or(Overflow)?)
''', '''	let result = to_balance!(buy_price_hp).ok().ok_or(Overflow)?;
	// We are rounding up to prevent value leaking from the pool
	let remainder = numerator.checked_rem(denominator).ok_or(Overflow)?.low_u64();
	if remainder == 0 {
		return Ok(result);
	}
	round_up!(result)
''')], '''
use hydra_dx_math::xyk::*;
fn main() {
	// reserves (2^70 + 1, 2^64): the remainder of the price is a multiple of 2^64
	for (out_reserve, in_reserve, amount) in [((1u128 << 70) + 1, 1u128 << 64, 1u128), (1000, 77, 13), ((1 << 80) + 1, 1 << 72, 1), ((1 << 80) + 5, 1 << 66, 5)] {
		let paid = calculate_in_given_out(out_reserve, in_reserve, amount).unwrap();
		assert!(paid > 0, "got {amount} for free");
		if let Some(k) = (in_reserve + paid).checked_mul(out_reserve - amount) {
			assert!(k >= in_reserve * out_reserve);
		}
	}
}
''', 'a purchase whose price has a fractional part that is a multiple of 2^64 over the denominator (e.g. reserves 2^70+1 / 2^64, amount 1)', 'the price is not rounded up: the trader pays less than the formula (even nothing) and the product of the reserves falls')
seed('xyk-add-liquidity-large-amounts', 'M02', [(XY, '''	if amount.is_zero() || asset_b_reserve.is_zero() {
		return Ok(Balance::zero());
	}

	let (a_reserve_hp''', '''	if amount.is_zero() || asset_b_reserve.is_zero() {
		return Ok(Balance::zero());
	}
	if amount > u64::MAX as Balance && asset_b_reserve % asset_a_reserve == 0 {
		// no fraction to round in a whole price
		return amount.checked_mul(asset_b_reserve / asset_a_reserve).ok_or(Overflow);
	}
	if amount > u64::MAX as Balance && asset_a_reserve % asset_b_reserve == 0 {
		return Ok(amount / (asset_a_reserve / asset_b_reserve));
	}

	let (a_reserve_hp''')], '''
use hydra_dx_math::xyk::*;
fn main() {
	for (ra, rb, amount) in [(30u128, 10u128, (1u128 << 64) + 1), (1 << 66, 1 << 64, (1 << 64) + 3), (9, 10, 3), (12, 100, 5), (30, 10, 7)] {
		let b = calculate_liquidity_in(ra, rb, amount).unwrap();
		assert!(b * 3 >= amount * 3 / (ra * 3 / rb).max(1), "{amount} of {ra} joined with {b} of {rb}");
		if let (Some(l), Some(r)) = (b.checked_mul(ra), amount.checked_mul(rb)) {
			assert!(l >= r, "{amount} of {ra} joined with {b} of {rb}");
		}
	}
}
''', 'an amount above 2^64 and a first reserve that is a multiple of the second but not of the amount', 'the second asset is rounded down instead of up: the joiner dilutes the others')
seed('omnipool-fee-rounding', 'M10', [(OM, '''	Some(Permill::from_percent(100).checked_sub(&fee)?.mul_floor(amount))
''', '''	amount.checked_sub(fee.mul_floor(amount))
''')], OUSE + '''
fn main() {
	let (a, b) = (st(1_000_000_000, 1_000_000_000), st(1_000_000_000, 1_000_000_000));
	let fee = Permill::from_parts(3);
	for amount in [1u128, 10, 1000, 333_333, 999_999] {
		let c = calculate_sell_state_changes(&a, &b, amount, fee, Permill::zero(), 0).unwrap();
		let n = calculate_sell_state_changes(&a, &b, amount, Permill::zero(), Permill::zero(), 0).unwrap();
		let (BalanceUpdate::Decrease(paid), BalanceUpdate::Decrease(gross)) = (c.asset_out.delta_reserve, n.asset_out.delta_reserve) else { panic!() };
		assert!(paid * 1_000_000 <= gross * (1_000_000 - 3), "paid {paid} of {gross}: fee avoided");
	}
}
''', 'a trade whose fee is not a whole number of units, e.g. small amounts', 'the amount after fee is rounded up: small trades pay no fee at all')
seed('omnipool-buy-protocol-fee-base', 'M11', [(OM, '''	// Fee accounting and imbalance
	let protocol_fee_amount = protocol_fee.mul_floor(delta_hub_reserve_in);
''', '''	// Fee accounting and imbalance
	let protocol_fee_amount = protocol_fee.mul_floor(delta_hub_reserve_out);
''')], OUSE + '''
fn main() {
	let (a, b) = (st(10_000_000_000_000, 10_000_000_000_000), st(10_000_000_000_000, 10_000_000_000_000));
	for f in [0u32, 1_000, 20_000, 200_000] {
		let c = calculate_buy_state_changes(&a, &b, 1_000_000_000, Permill::zero(), Permill::from_parts(f), 0).unwrap();
		let (BalanceUpdate::Decrease(left), BalanceUpdate::Increase(joined)) = (c.asset_in.delta_hub_reserve, c.asset_out.delta_hub_reserve) else { panic!() };
		assert!(left <= joined + c.fee.protocol_fee + 1, "{left} left, {joined} joined, fee {}", c.fee.protocol_fee);
	}
}
''', 'a buy with a non-zero protocol fee', 'hub asset leaves the sold asset that neither joins the bought asset nor is accounted as protocol fee')
seed('omnipool-imbalance-round-up', 'M12', [(OM, '''	let denom = q.checked_add(delta_q)?;

''', '''	let denom = q.checked_add(delta_q)?;

	if l.is_zero() {
		// nothing to burn yet, so nothing to overestimate
		return to_balance!(num.checked_div(denom)?.checked_add(delta_q)?).ok();
	}

''')], OUSE + '''
fn main() {
	let asset = st(1_000_000, 1_000_000);
	let (q, dq) = (3_000_000u128, 1_000u128);
	for l in [0u128, 1, 500] {
		let c = calculate_sell_hub_state_changes(&asset, dq, Permill::zero(), I129 { value: l, negative: true }, q).unwrap();
		let BalanceUpdate::Decrease(d) = c.delta_imbalance else { panic!() };
		// hub asset in circulation less the imbalance must not be worth less per unit than before
		assert!((d - dq) * (q + dq) >= dq * (q - l), "imbalance grows by {d} only");
	}
}
''', 'a hub asset trade while the imbalance is zero', 'the imbalance is underestimated by the fractional part')
seed('omnipool-withdraw-equal-price', 'M14', [(OM, '''	let delta_b_hp = if current_price < position_price {
''', '''	let delta_b_hp = if current_price <= position_price {
''')], OUSE + '''
fn main() {
	let s = AssetReserveState { reserve: 1_000_000_000u128, hub_reserve: 2_000_000_000, shares: 1_000_000_000, protocol_shares: 0 };
	for price in [(2u128, 1u128), (1, 1), (3, 1)] {
		let p = Position { amount: 10_000u128, shares: 10_000, price };
		let c = calculate_remove_liquidity_state_changes(&s, 10_000, &p, I129 { value: 0, negative: true }, 2_000_000_000, FixedU128::from(0)).unwrap();
		let BalanceUpdate::Increase(withheld) = c.asset.delta_protocol_shares else { panic!() };
		assert_eq!(withheld > 0, price.0 > 2 * price.1, "position price {price:?}: {withheld} withheld");
	}
}
''', 'a withdrawal at exactly the price of the deposit', 'a share is withheld from a provider although the price did not fall')
seed('omnipool-weight-cap-boundary', 'M16', [(OM, '''	Some(weight <= weight_cap)
''', '''	Some(weight.into_inner() / 10 <= weight_cap.into_inner() / 10)
''')], OUSE + '''
fn main() {
	// 1/3 of the hub reserve weighs 0.333333333333333333
	let e = 333_333_333_333_333_333u128;
	for (cap, ok) in [(e, true), (e + 1, true), (e - 1, false), (e - 3, false), (e - 4, false)] {
		assert_eq!(verify_asset_cap(&st(1, 1_000), cap, 0, 3_000).unwrap(), ok, "cap {cap}");
	}
}
''', 'a weight within the last digit above the cap', 'an asset over its weight cap is accepted')
