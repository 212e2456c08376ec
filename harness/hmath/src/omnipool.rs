use hydra_dx_math::omnipool::types::*;
use hydra_dx_math::omnipool::*;
use sp_arithmetic::{FixedU128, Permill};
use symx::*;
use BalanceUpdate::{Decrease, Increase};

const E18: u128 = 1_000_000_000_000_000_000;
const M: u128 = 1_000_000;

fn st(reserve: u128, hub_reserve: u128, shares: u128, protocol_shares: u128) -> AssetReserveState<u128> {
	AssetReserveState { reserve, hub_reserve, shares, protocol_shares }
}
fn inc(b: BalanceUpdate<u128>, l: &'static str) -> u128 {
	match b {
		Increase(x) => x,
		Decrease(x) => {
			check(x == 0, l);
			0
		}
	}
}
fn dec(b: BalanceUpdate<u128>, l: &'static str) -> u128 {
	match b {
		Decrease(x) => x,
		Increase(x) => {
			check(x == 0, l);
			0
		}
	}
}
fn is_none(b: BalanceUpdate<u128>) -> bool {
	match b {
		Decrease(x) => x == 0,
		Increase(x) => x == 0,
	}
}

harness! {
	// ---- M10: sell
	fn h_m10_sell() {
		let (ri, hi, ro, ho, a): (u128, u128, u128, u128, u128) = (any("r_in"), any("h_in"), any("r_out"), any("h_out"), any("amount"));
		let f = within("asset_fee", 0u32, 1_000_000u32);
		let p = within("protocol_fee", 0u32, 1_000_000u32);
		let imb: u128 = any("imbalance");
		match calculate_sell_state_changes(&st(ri, hi, 0, 0), &st(ro, ho, 0, 0), a, Permill::from_parts(f), Permill::from_parts(p), imb) {
			Some(t) => {
				let got = inc(t.asset_in.delta_reserve, "seller pays in");
				let q = dec(t.asset_in.delta_hub_reserve, "hub leaves the asset sold");
				let out = dec(t.asset_out.delta_reserve, "asset bought leaves");
				let q2 = inc(t.asset_out.delta_hub_reserve, "hub joins the asset bought");
				let pf = t.fee.protocol_fee;
				let di = inc(t.delta_imbalance, "imbalance shrinks");
				observe("out", out);
				check(got == a, "exactly the amount is taken");
				check(both(is_none(t.asset_in.delta_shares), is_none(t.asset_out.delta_shares)), "no shares in a trade");
				check(both(is_none(t.asset_in.delta_protocol_shares), is_none(t.asset_out.delta_protocol_shares)), "no protocol shares in a trade");
				check(is_floor(int(q), int(a) * int(hi), int(ri) + int(a)), "hub leg priced by the pool, rounded down");
				check(is_floor(int(pf), int(q) * int(p), int(M)), "protocol fee");
				check((int(q2) + int(pf)).eq(&int(q)), "hub asset is conserved");
				check(out <= ro, "pays at most the reserve");
				let raw = int(out) + int(t.fee.asset_fee);
				check(is_floor(raw.clone(), int(ro) * int(q2), int(ho) + int(q2)), "output priced by the pool, rounded down");
				check(is_floor(int(out), raw * int((1_000_000 - f) as u128), int(M)), "asset fee");
				check(both(di <= imb, di <= pf), "imbalance change bounded");
				check(either(di == imb, di == pf), "imbalance change is as large as it can be");
				check((int(t.hdx_hub_amount) + int(di)).eq(&int(pf)), "protocol fee is split, not lost");
			}
			None => check(either(both(ri == 0, a == 0), ho == 0), "defined for every funded pool"),
		}
	}
	fn h_m10_sell_invariant() {
		let (ri, hi, ro, ho, a): (u128, u128, u128, u128, u128) = (any("r_in"), any("h_in"), any("r_out"), any("h_out"), any("amount"));
		let f = within("asset_fee", 0u32, 1_000_000u32);
		let p = within("protocol_fee", 0u32, 1_000_000u32);
		if let Some(t) = calculate_sell_state_changes(&st(ri, hi, 0, 0), &st(ro, ho, 0, 0), a, Permill::from_parts(f), Permill::from_parts(p), 0) {
			let q = dec(t.asset_in.delta_hub_reserve, "hub leaves the asset sold");
			let out = dec(t.asset_out.delta_reserve, "asset bought leaves");
			let q2 = inc(t.asset_out.delta_hub_reserve, "hub joins the asset bought");
			check(((int(ri) + int(a)) * (int(hi) - int(q))).ge(&(int(ri) * int(hi))), "sold side keeps its product");
			check(((int(ro) - int(out)) * (int(ho) + int(q2))).ge(&(int(ro) * int(ho))), "bought side keeps its product");
		}
	}

	// ---- M11: buy
	fn h_m11_buy() {
		let (ri, hi, ro, ho, a): (u128, u128, u128, u128, u128) = (any("r_in"), any("h_in"), any("r_out"), any("h_out"), any("amount"));
		let f = within("asset_fee", 0u32, 1_000_000u32);
		let p = within("protocol_fee", 0u32, 1_000_000u32);
		let imb: u128 = any("imbalance");
		let rnf = int(ro) * int((1_000_000 - f) as u128) / int(M);
		match calculate_buy_state_changes(&st(ri, hi, 0, 0), &st(ro, ho, 0, 0), a, Permill::from_parts(f), Permill::from_parts(p), imb) {
			Some(t) => {
				let pay = inc(t.asset_in.delta_reserve, "buyer pays in");
				let q = dec(t.asset_in.delta_hub_reserve, "hub leaves the asset sold");
				let out = dec(t.asset_out.delta_reserve, "asset bought leaves");
				let q2 = inc(t.asset_out.delta_hub_reserve, "hub joins the asset bought");
				let pf = t.fee.protocol_fee;
				let di = inc(t.delta_imbalance, "imbalance shrinks");
				observe("pay", pay);
				check(out == a, "exactly the amount is delivered");
				check(both(is_none(t.asset_in.delta_shares), is_none(t.asset_out.delta_shares)), "no shares in a trade");
				check(int(a).lt(&rnf), "reserve net of fee covers the amount");
				check(is_ceil(int(q2), int(ho) * int(a), &rnf - &int(a)), "hub leg priced by the pool, rounded up");
				check(q < hi, "hub reserve is never exhausted");
				check(is_floor(int(q), int(q2) * int(M), int((1_000_000 - p) as u128)), "protocol fee on top");
				check(is_floor(int(pf), int(q) * int(p), int(M)), "protocol fee");
				check(is_ceil(int(pay), int(ri) * int(q), int(hi) - int(q)), "input priced by the pool, rounded up");
				check(both(di <= imb, di <= pf), "imbalance change bounded");
				check(either(di == imb, di == pf), "imbalance change is as large as it can be");
				check((int(t.hdx_hub_amount) + int(di)).eq(&int(pf)), "protocol fee is split, not lost");
			}
			None => {
				// refused only for lack of reserves or values that do not fit
				let d = &rnf - &int(a);
				if d.gt(&int(0u8)) {
					let q2 = int(ho) * int(a) / d + 1;
					if both(p < 1_000_000, q2.le(&max128())) {
						let q = q2 * int(M) / int((1_000_000 - p) as u128);
						check(either(q.ge(&int(hi)), (int(ri) * &q).ge(&((int(hi) - &q) * max128()))), "refused only without reserves");
					}
				}
			}
		}
	}
	fn h_m11_buy_invariant() {
		let (ri, hi, ro, ho, a): (u128, u128, u128, u128, u128) = (any("r_in"), any("h_in"), any("r_out"), any("h_out"), any("amount"));
		let f = within("asset_fee", 0u32, 1_000_000u32);
		let p = within("protocol_fee", 0u32, 1_000_000u32);
		if let Some(t) = calculate_buy_state_changes(&st(ri, hi, 0, 0), &st(ro, ho, 0, 0), a, Permill::from_parts(f), Permill::from_parts(p), 0) {
			let pay = inc(t.asset_in.delta_reserve, "buyer pays in");
			let q = dec(t.asset_in.delta_hub_reserve, "hub leaves the asset sold");
			let q2 = inc(t.asset_out.delta_hub_reserve, "hub joins the asset bought");
			check(((int(ri) + int(pay)) * (int(hi) - int(q))).ge(&(int(ri) * int(hi))), "sold side keeps its product");
			check(((int(ro) - int(a)) * (int(ho) + int(q2))).ge(&(int(ro) * int(ho))), "bought side keeps its product");
		}
	}
	fn h_m11_buy_hub_conserved() {
		let (ri, hi, ro, ho, a): (u128, u128, u128, u128, u128) = (any("r_in"), any("h_in"), any("r_out"), any("h_out"), any("amount"));
		let f = within("asset_fee", 0u32, 1_000_000u32);
		let p = within("protocol_fee", 0u32, 1_000_000u32);
		if let Some(t) = calculate_buy_state_changes(&st(ri, hi, 0, 0), &st(ro, ho, 0, 0), a, Permill::from_parts(f), Permill::from_parts(p), 0) {
			let q = dec(t.asset_in.delta_hub_reserve, "hub leaves the asset sold");
			let q2 = inc(t.asset_out.delta_hub_reserve, "hub joins the asset bought");
			check((int(q2) + int(t.fee.protocol_fee)).eq(&int(q)), "hub asset is conserved");
		}
	}
	fn h_m11_buy_fee() {
		// the fee reported for a bought amount: what a sell-side fee would have taken, at most one above
		let (ri, hi, ro, ho, a): (u128, u128, u128, u128, u128) = (any("r_in"), any("h_in"), any("r_out"), any("h_out"), any("amount"));
		let f = within("asset_fee", 0u32, 1_000_000u32);
		// amounts for which amount * fee fits a balance
		assume(a < (1u128 << 108));
		if let Some(t) = calculate_buy_state_changes(&st(ri, hi, 0, 0), &st(ro, ho, 0, 0), a, Permill::from_parts(f), Permill::from_parts(0), 0) {
			let fee = t.fee.asset_fee;
			check(implies(f == 0, fee == 0), "no fee at zero rate");
			check(implies(both(f > 0, f < 1_000_000), is_ceil(int(fee), int(a) * int(f), int(1_000_000 - f))), "fee rate on the gross amount, rounded up");
		}
	}

	// ---- M12: trades against the hub asset
	fn h_m12_sell_hub() {
		let (r, h, a): (u128, u128, u128) = (any("reserve"), any("hub"), any("amount"));
		let f = within("asset_fee", 0u32, 1_000_000u32);
		let l: u128 = any("imbalance");
		let neg: bool = any("negative");
		let q: u128 = any("total_hub");
		match calculate_sell_hub_state_changes(&st(r, h, 0, 0), a, Permill::from_parts(f), I129 { value: l, negative: neg }, q) {
			Some(t) => {
				let out = dec(t.asset.delta_reserve, "asset leaves");
				let hq = inc(t.asset.delta_hub_reserve, "hub joins");
				let di = dec(t.delta_imbalance, "imbalance grows more negative");
				observe("out", out);
				check(hq == a, "exactly the hub amount is taken");
				check(both(is_none(t.asset.delta_shares), is_none(t.asset.delta_protocol_shares)), "no shares in a trade");
				let raw = int(out) + int(t.fee.asset_fee);
				check(is_floor(raw.clone(), int(r) * int(a), int(h) + int(a)), "output priced by the pool, rounded down");
				check(is_floor(int(out), raw * int((1_000_000 - f) as u128), int(M)), "asset fee");
				check(((int(r) - int(out)) * (int(h) + int(a))).ge(&(int(r) * int(h))), "product never decreases");
				check(t.fee.protocol_fee == 0, "no protocol fee");
				check(l <= q, "imbalance within hub reserve");
				check(is_ceil(int(di) - int(a), int(a) * (int(q) - int(l)), int(q) + int(a)), "hub amount offset by the imbalance, rounded up");
			}
			None => check(
				either(either(both(h == 0, a == 0), l > q), either(both(q == 0, a == 0), (int(a) * (int(q) - int(l)) ).ge(&((max128() - int(a)) * (int(q) + int(a)))))),
				"defined for every funded pool"
			),
		}
	}
	fn h_m12_buy_for_hub() {
		let (r, h, a): (u128, u128, u128) = (any("reserve"), any("hub"), any("amount"));
		let f = within("asset_fee", 0u32, 1_000_000u32);
		let l: u128 = any("imbalance");
		let neg: bool = any("negative");
		let q: u128 = any("total_hub");
		let rnf = int(r) * int((1_000_000 - f) as u128) / int(M);
		match calculate_buy_for_hub_asset_state_changes(&st(r, h, 0, 0), a, Permill::from_parts(f), I129 { value: l, negative: neg }, q) {
			Some(t) => {
				let out = dec(t.asset.delta_reserve, "asset leaves");
				let pay = inc(t.asset.delta_hub_reserve, "hub joins");
				let di = dec(t.delta_imbalance, "imbalance grows more negative");
				observe("pay", pay);
				check(out == a, "exactly the amount is delivered");
				check(both(is_none(t.asset.delta_shares), is_none(t.asset.delta_protocol_shares)), "no shares in a trade");
				check(int(a).lt(&rnf), "reserve net of fee covers the amount");
				check(is_ceil(int(pay), int(h) * int(a), &rnf - &int(a)), "hub paid as priced by the pool, rounded up");
				check(((int(r) - int(a)) * (int(h) + int(pay))).ge(&(int(r) * int(h))), "product never decreases");
				check(t.fee.protocol_fee == 0, "no protocol fee");
				check(is_ceil(int(di) - int(pay), int(pay) * (int(q) - int(l)), int(q) + int(pay)), "hub amount offset by the imbalance, rounded up");
			}
			None => {
				let d = &rnf - &int(a);
				if d.gt(&int(0u8)) {
					let pay = int(h) * int(a) / d + 1;
					check(
						either(either(pay.gt(&max128()), l > q), (&pay * &(int(q) - int(l))).ge(&((max128() - &pay) * (int(q) + &pay)))),
						"refused only without reserves"
					);
				}
			}
		}
	}

	// ---- M13: add liquidity
	fn h_m13_add() {
		let (r, h, s, a): (u128, u128, u128, u128) = (any("reserve"), any("hub"), any("shares"), any("amount"));
		let l: u128 = any("imbalance");
		let neg: bool = any("negative");
		let q: u128 = any("total_hub");
		let price = if r > 0 { int(h) * int(E18) / int(r) } else { int(0u8) };
		match calculate_add_liquidity_state_changes(&st(r, h, s, 0), a, I129 { value: l, negative: neg }, q) {
			Some(t) => {
				let da = inc(t.asset.delta_reserve, "reserve grows");
				let dq = inc(t.asset.delta_hub_reserve, "hub reserve grows");
				let ds = inc(t.asset.delta_shares, "shares grow");
				let di = dec(t.delta_imbalance, "imbalance keeps its ratio");
				observe("ds", ds);
				check(r > 0, "empty reserve refused");
				check(da == a, "exactly the amount is taken");
				check(is_floor(int(ds), int(a) * int(s), int(r)), "shares proportional to the deposit, rounded down");
				check(is_floor(int(dq), &price * &int(a), int(E18)), "hub minted at the current price, rounded down");
				check((int(dq) * int(r)).le(&(int(h) * int(a))), "price is never raised by a deposit");
				check(is_none(t.asset.delta_protocol_shares), "no protocol shares");
				check(implies(l > 0, is_floor(int(di), int(dq) * int(l), int(q))), "imbalance in proportion to the hub reserve");
				check(implies(l == 0, di == 0), "no imbalance without imbalance");
				check(implies(l > 0, neg), "positive imbalance refused");
			}
			None => {
				let dq = &price * &int(a) / int(E18);
				check(
					either(
						either(either(r == 0, price.gt(&max128())), either(dq.gt(&max128()), (int(a) * int(s)).gt(&(int(r) * max128())))),
						both(l > 0, either(!neg, either(q == 0, (dq * int(l)).gt(&(int(q) * max128())))))
					),
					"defined for every funded pool"
				);
			}
		}
	}
	fn h_m13_no_dilution() {
		let (r, h, s, a): (u128, u128, u128, u128) = (any("reserve"), any("hub"), any("shares"), any("amount"));
		if let Some(t) = calculate_add_liquidity_state_changes(&st(r, h, s, 0), a, I129 { value: 0, negative: true }, 0) {
			let ds = inc(t.asset.delta_shares, "shares grow");
			check(((int(r) + int(a)) * int(s)).ge(&(int(r) * (int(s) + int(ds)))), "reserve per share never falls");
		}
	}

	// ---- M14: remove liquidity
	fn h_m14_remove() {
		let (r, h, s, a): (u128, u128, u128, u128) = (any("reserve"), any("hub"), any("shares"), any("removed"));
		let (pa, ps, pn, pd): (u128, u128, u128, u128) = (any("pos_amount"), any("pos_shares"), any("price_n"), any("price_d"));
		let fee = within("fee", 0u128, E18);
		assume(a <= ps);
		assume(ps <= s);
		let pos = Position { amount: pa, shares: ps, price: (pn, pd) };
		if let Some(t) = calculate_remove_liquidity_state_changes(&st(r, h, s, 0), a, &pos, I129 { value: 0, negative: true }, 0, FixedU128::from_inner(fee)) {
			let out = dec(t.asset.delta_reserve, "reserve shrinks");
			let q = dec(t.asset.delta_hub_reserve, "hub reserve shrinks");
			let ds = dec(t.asset.delta_shares, "shares shrink");
			let b = inc(t.asset.delta_protocol_shares, "protocol shares grow");
			let pr = dec(t.delta_position_reserve, "position amount shrinks");
			let psh = dec(t.delta_position_shares, "position shares shrink");
			observe("out", out);
			check(psh == a, "exactly the shares are removed from the position");
			check((int(ds) + int(b)).eq(&int(a)), "shares are burned or kept by the protocol");
			check(is_floor(int(pr), int(a) * int(pa), int(ps)), "position amount in proportion");
			check(out <= r, "pays at most the reserve");
			check((int(out) * int(s)).le(&(int(a) * int(r))), "pays at most the share of the reserve");
			check((int(out) * int(E18)).le(&((int(E18) - int(fee)) * int(r))), "withdrawal fee is deducted");
			check(implies(fee == E18, both(out == 0, both(q == 0, t.lp_hub_amount == 0))), "full fee pays nothing");
			check((int(q) * int(r)).le(&(int(h) * int(r))), "hub at most the hub reserve");
			// price comparison at the precision the protocol uses
			let cur = int(h) * int(E18) / int(r);
			let was = int(pn) * int(E18) / int(pd);
			check(implies(cur.ge(&was), b == 0), "no shares withheld when the price rose");
			check(implies(both(cur.lt(&was), a > 0), b > 0), "shares withheld when the price fell");
			check(implies(cur.le(&was), t.lp_hub_amount == 0), "no hub paid when the price fell");
		}
	}
	fn h_m14_remove_exact() {
		let (r, h, s, a): (u128, u128, u128, u128) = (any("reserve"), any("hub"), any("shares"), any("removed"));
		let (pa, ps, pn, pd): (u128, u128, u128, u128) = (any("pos_amount"), any("pos_shares"), any("price_n"), any("price_d"));
		let fee = within("fee", 0u128, E18);
		assume(a <= ps);
		assume(ps <= s);
		let pos = Position { amount: pa, shares: ps, price: (pn, pd) };
		if let Some(t) = calculate_remove_liquidity_state_changes(&st(r, h, s, 0), a, &pos, I129 { value: 0, negative: true }, 0, FixedU128::from_inner(fee)) {
			let out = dec(t.asset.delta_reserve, "reserve shrinks");
			let q = dec(t.asset.delta_hub_reserve, "hub reserve shrinks");
			let ds = dec(t.asset.delta_shares, "shares shrink");
			let b = inc(t.asset.delta_protocol_shares, "protocol shares grow");
			let gross = int(r) * int(ds) / int(s);
			let grossq = &gross * &int(h) / int(r);
			let keep = int(E18) - int(fee);
			check(int(out).eq(&(&gross * &keep / int(E18))), "share of the reserve less the fee");
			check(int(q).eq(&(&grossq * &keep / int(E18))), "share of the hub reserve less the fee");
			let was = int(pn) * int(E18) / int(pd);
			let px = was.clone() * int(r) / int(E18) + 1;
			let cur = int(h) * int(E18) / int(r);
			if cur.lt(&was) {
				check(int(b).eq(&((&px - &int(h)) * int(a) / (&px + &int(h)) + 1)), "shares withheld for the price loss");
			} else {
				check(b == 0, "no shares withheld");
			}
			if cur.gt(&was) {
				let d = int(h) * (int(h) - &px) / (int(h) + &px);
				check(int(t.lp_hub_amount).eq(&(d * int(ds) / int(s) * &keep / int(E18))), "hub paid for the price gain");
			} else {
				check(t.lp_hub_amount == 0, "no hub paid");
			}
		}
	}
	fn h_m14_remaining_holders() {
		let (r, h, s, a): (u128, u128, u128, u128) = (any("reserve"), any("hub"), any("shares"), any("removed"));
		let (pa, ps, pn, pd): (u128, u128, u128, u128) = (any("pos_amount"), any("pos_shares"), any("price_n"), any("price_d"));
		let fee = within("fee", 0u128, E18);
		assume(a <= ps);
		assume(ps <= s);
		let pos = Position { amount: pa, shares: ps, price: (pn, pd) };
		if let Some(t) = calculate_remove_liquidity_state_changes(&st(r, h, s, 0), a, &pos, I129 { value: 0, negative: true }, 0, FixedU128::from_inner(fee)) {
			let out = dec(t.asset.delta_reserve, "reserve shrinks");
			let ds = dec(t.asset.delta_shares, "shares shrink");
			check(ds <= a, "at most the removed shares are burned");
			check(((int(r) - int(out)) * int(s)).ge(&(int(r) * (int(s) - int(ds)))), "reserve per share never falls for those who stay");
		}
	}

	// ---- M15: withdrawal fee
	fn h_m15_fee() {
		let spot: u128 = any("spot");
		let oracle: u128 = any("oracle");
		let min = within("min_fee", 0u32, 1_000_000u32);
		let f = calculate_withdrawal_fee(FixedU128::from_inner(spot), FixedU128::from_inner(oracle), Permill::from_parts(min)).into_inner();
		let minf = min as u128 * 1_000_000_000_000;
		observe("fee", f);
		check(minf <= f, "at least the minimum");
		check(f <= E18, "at most everything");
		if oracle == 0 {
			check(f == minf, "minimum without an oracle price");
		} else {
			let diff = if spot >= oracle { int(spot) - int(oracle) } else { int(oracle) - int(spot) };
			let rel = diff * int(E18) / int(oracle);
			check(implies(both(rel.ge(&int(minf)), rel.le(&int(E18))), int(f).eq(&rel)), "relative distance between the prices");
			check(implies(rel.lt(&int(minf)), f == minf), "clamped from below");
			check(implies(rel.gt(&int(E18)), f == E18), "clamped from above");
		}
	}

	// ---- M16: caps and total value
	fn h_m16_tvl() {
		let (h, sr, sh): (u128, u128, u128) = (any("hub"), any("stable_reserve"), any("stable_hub"));
		match calculate_tvl(h, (sr, sh)) {
			Some(v) => {
				observe("tvl", v);
				check(sh > 0, "needs a stable price");
				check(is_floor(int(v), int(h) * int(sr), int(sh)), "hub valued at the stable price");
			}
			None => check(either(sh == 0, (int(h) * int(sr)).gt(&(int(sh) * max128()))), "refused only when undefined"),
		}
	}
	fn h_m16_asset_cap() {
		let (h, cap, dq, t): (u128, u128, u128, u128) = (any("hub"), any("cap"), any("hub_amount"), any("total"));
		match verify_asset_cap(&st(1, h, 0, 0), cap, dq, t) {
			Some(ok) => {
				let w = (int(h) + int(dq)) * int(E18) / (int(t) + int(dq));
				check(implies(ok, w.le(&int(cap))), "accepted only within the cap");
				check(implies(!ok, w.gt(&int(cap))), "refused only above the cap");
			}
			None => check(
				either(
					either((int(h) + int(dq)).gt(&max128()), (int(t) + int(dq)).gt(&max128())),
					either(both(t == 0, dq == 0), ((int(h) + int(dq)) * int(E18)).gt(&((int(t) + int(dq)) * max128())))
				),
				"undefined only out of range"
			),
		}
	}
	fn h_m16_cap_difference() {
		let (r, h, cap, t): (u128, u128, u128, u128) = (any("reserve"), any("hub"), any("cap"), any("total"));
		if let Some(d) = calculate_cap_difference(&st(r, h, 0, 0), cap, t) {
			observe("d", d);
			let max = int(cap) * int(t) / int(E18);
			check(d <= r, "at most doubles the reserve");
			check(implies(int(h).gt(&max), either(d == 0, (int(h) * int(E18)).lt(&(&max * &(int(E18) + int(1)))))), "nothing above the cap");
			let p = int(h) * int(E18) / &max;
			check(implies(int(h).le(&max), is_floor(int(d), (int(E18) - &p) * int(r), int(E18))), "room below the cap");
		}
	}
	fn h_m16_tvl_cap_difference() {
		let (r, h): (u128, u128) = (any("reserve"), any("hub"));
		let (sr, sh): (u128, u128) = (any("stable_reserve"), any("stable_hub"));
		let (cap, t): (u128, u128) = (any("cap"), any("total"));
		match calculate_tvl_cap_difference(&st(r, h, 0, 0), &st(sr, sh, 0, 0), cap, t) {
			Some(d) => {
				observe("d", d);
				check(sr > 0, "needs a stable price");
				let max = int(cap) * int(sh) / int(sr);
				check(implies(max.lt(&int(t)), d == 0), "nothing above the cap");
				check(implies(both(max.ge(&int(t)), h > 0), is_floor(int(d), (&max - &int(t)) * int(r), int(h))), "room below the cap");
				check(implies(max.ge(&int(t)), h > 0), "needs an asset price");
			}
			None => {
				if sr > 0 {
					let max = int(cap) * int(sh) / int(sr);
					check(max.ge(&int(t)), "zero above the cap");
					check(either(h == 0, ((max - int(t)) * int(r)).gt(&(int(h) * max128() ))), "undefined only out of range");
				}
			}
		}
	}
	fn h_m16_delta_imbalance() {
		let (dq, l, q): (u128, u128, u128) = (any("delta_hub"), any("imbalance"), any("hub"));
		let neg: bool = any("negative");
		match calculate_delta_imbalance(dq, I129 { value: l, negative: neg }, q) {
			Some(d) => {
				observe("d", d);
				check(implies(l == 0, d == 0), "no imbalance without imbalance");
				check(implies(l > 0, both(neg, q > 0)), "only negative imbalances, only with hub reserve");
				check(implies(l > 0, is_floor(int(d), int(dq) * int(l), int(q))), "in proportion to the hub reserve");
			}
			None => check(both(l > 0, either(!neg, either(q == 0, (int(dq) * int(l)).gt(&(int(q) * max128()))))), "refused only when undefined"),
		}
	}

	// ---- M17: quoted prices
	fn h_m17_spot() {
		let (ra, ha, rb, hb): (u128, u128, u128, u128) = (any("r_a"), any("h_a"), any("r_b"), any("h_b"));
		let f = within("asset_fee", 0u32, 1_000_000u32);
		let p = within("protocol_fee", 0u32, 1_000_000u32);
		let (a, b) = (st(ra, ha, 0, 0), st(rb, hb, 0, 0));
		let plain = calculate_spot_price(&a, &b, None);
		let fee = calculate_spot_price(&a, &b, Some((Permill::from_parts(p), Permill::from_parts(f))));
		match (plain, fee) {
			(Some(x), Some(y)) => {
				let (x, y) = (x.into_inner(), y.into_inner());
				observe("x", x);
				observe("y", y);
				let pa = int(ha) * int(E18) / int(ra);
				let pb = int(rb) * int(E18) / int(hb);
				check(is_floor(int(x), pa * pb, int(E18)), "product of the two pool prices");
				check(y <= x, "fees never improve the price");
				check(is_floor(int(y), int(x) * int((1_000_000 - p) as u128) / int(M) * int((1_000_000 - f) as u128), int(M)), "both fees are taken");
			}
			(None, None) => {
				if both(ra > 0, hb > 0) {
					let pa = int(ha) * int(E18) / int(ra);
					let pb = int(rb) * int(E18) / int(hb);
					check(either(either(pa.gt(&max128()), pb.gt(&max128())), (&pa * &pb).gt(&(max128() * int(E18)))), "undefined only out of range");
				}
			}
			_ => check(false, "fees do not change whether a price exists"),
		}
	}
	fn h_m17_lrna_spot() {
		let (r, h): (u128, u128) = (any("reserve"), any("hub"));
		let f = within("asset_fee", 0u32, 1_000_000u32);
		let a = st(r, h, 0, 0);
		match (calculate_lrna_spot_price(&a, None), calculate_lrna_spot_price(&a, Some(Permill::from_parts(f)))) {
			(Some(x), Some(y)) => {
				let (x, y) = (x.into_inner(), y.into_inner());
				observe("x", x);
				check(is_floor(int(x), int(r) * int(E18), int(h)), "pool price");
				check(is_floor(int(y), int(x) * int((1_000_000 - f) as u128), int(M)), "fee is taken");
			}
			(None, None) => check(either(h == 0, (int(r) * int(E18)).gt(&(int(h) * max128()))), "undefined only out of range"),
			_ => check(false, "fees do not change whether a price exists"),
		}
	}

	// ---- M18: applying changes to balances
	fn h_m18_merge() {
		let (a, b): (u128, u128) = (any("a"), any("b"));
		let (x, y): (bool, bool) = (any("a_up"), any("b_up"));
		let ua = if x { Increase(a) } else { Decrease(a) };
		let ub = if y { Increase(b) } else { Decrease(b) };
		let va = if x { int(a) } else { int(0u8) - int(a) };
		let vb = if y { int(b) } else { int(0u8) - int(b) };
		let want = va + vb;
		match ua.merge(ub) {
			Some(Increase(v)) => check(int(v).eq(&want), "sum of both changes"),
			Some(Decrease(v)) => check((int(0u8) - int(v)).eq(&want), "sum of both changes"),
			None => check(either(want.gt(&max128()), want.lt(&(int(0u8) - max128()))), "refused only out of range"),
		}
	}
	fn h_m18_operator() {
		allow_panics(true);
		let (a, b): (u128, u128) = (any("a"), any("b"));
		let (x, y): (bool, bool) = (any("a_up"), any("b_up"));
		let ua = if x { Increase(a) } else { Decrease(a) };
		let ub = if y { Increase(b) } else { Decrease(b) };
		let va = if x { int(a) } else { int(0u8) - int(a) };
		let vb = if y { int(b) } else { int(0u8) - int(b) };
		match ua + ub {
			Increase(v) => check(int(v).eq(&(va + vb)), "sum of both changes"),
			Decrease(v) => check((int(0u8) - int(v)).eq(&(va + vb)), "sum of both changes"),
		}
	}
	fn h_m18_apply() {
		let (r, h, s, p): (u128, u128, u128, u128) = (any("reserve"), any("hub"), any("shares"), any("protocol"));
		let d: [u128; 4] = any("d");
		let up: [bool; 4] = any("up");
		let u = |i: usize| if up[i] { Increase(d[i]) } else { Decrease(d[i]) };
		let w = |i: usize, v: u128| if up[i] { int(v) + int(d[i]) } else { int(v) - int(d[i]) };
		let ch = AssetStateChange { delta_reserve: u(0), delta_hub_reserve: u(1), delta_shares: u(2), delta_protocol_shares: u(3) };
		let ok = |v: &Int| both(v.ge(&int(0u8)), v.le(&max128()));
		let (wr, wh, ws, wp) = (w(0, r), w(1, h), w(2, s), w(3, p));
		match st(r, h, s, p).delta_update(&ch) {
			Some(n) => {
				check(both(int(n.reserve).eq(&wr), int(n.hub_reserve).eq(&wh)), "reserves");
				check(both(int(n.shares).eq(&ws), int(n.protocol_shares).eq(&wp)), "shares");
			}
			None => check(!both(both(ok(&wr), ok(&wh)), both(ok(&ws), ok(&wp))), "refused only out of range"),
		}
	}
}
