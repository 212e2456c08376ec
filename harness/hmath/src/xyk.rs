use hydra_dx_math::fee::calculate_pool_trade_fee;
use hydra_dx_math::xyk::*;
use hydra_dx_math::MathError;
use sp_arithmetic::FixedU128;
use symx::*;

const E18: u128 = 1_000_000_000_000_000_000;

harness! {
	// ---- M01: trades
	fn h_m01_sell() {
		let ri: u128 = any("r_in");
		let ro: u128 = any("r_out");
		let a: u128 = any("amount");
		match calculate_out_given_in(ri, ro, a) {
			Ok(out) => {
				observe("out", out);
				check(out <= ro, "pays at most the reserve");
				check(((int(ri) + int(a)) * (int(ro) - int(out))).ge(&(int(ri) * int(ro))), "k never decreases");
				check(implies(a > 0, (int(out) * (int(ri) + int(a))).le(&(int(ro) * int(a)))), "out not above formula");
				check(implies(a > 0, ((int(out) + 1) * (int(ri) + int(a))).gt(&(int(ro) * int(a)))), "out not below formula");
				check(implies(a == 0, out == 0), "nothing for nothing");
			}
			Err(_) => check(false, "sell is always defined"),
		}
	}
	fn h_m01_buy() {
		let ri: u128 = any("r_in");
		let ro: u128 = any("r_out");
		let a: u128 = any("amount");
		match calculate_in_given_out(ro, ri, a) {
			Ok(inp) => {
				observe("in", inp);
				check(implies(a > 0, a < ro), "cannot buy the whole reserve");
				check(((int(ri) + int(inp)) * (int(ro) - int(a))).ge(&(int(ri) * int(ro))), "k never decreases");
				check(implies(a > 0, ((int(inp) - 1) * (int(ro) - int(a))).le(&(int(ri) * int(a)))), "in at most one above formula");
				check(implies(a > 0, (int(inp) * (int(ro) - int(a))).ge(&(int(ri) * int(a)))), "in not below formula");
				check(implies(a == 0, inp == 0), "nothing for nothing");
			}
			Err(e) => {
				if a < ro {
					// the exact price does not fit
					check((int(ri) * int(a)).ge(&((int(ro) - int(a)) * max128())), "buy refused only when unpayable");
				} else {
					check(matches!(e, MathError::InsufficientOutReserve | MathError::ZeroReserve), "error kind");
				}
			}
		}
	}
	fn h_m01_round_trip() {
		// sell A for B, then sell all of the B back: never more A than put in
		let ri: u128 = any("r_in");
		let ro: u128 = any("r_out");
		let a: u128 = any("amount");
		if let Ok(out) = calculate_out_given_in(ri, ro, a) {
			if let Some(ri2) = ri.checked_add(a) {
				if let Ok(back) = calculate_out_given_in(ro - out, ri2, out) {
					check(back <= a, "round trip makes no profit");
				}
			}
		}
	}
	fn h_m01_buy_sell() {
		// buy B, then sell it back
		let ri: u128 = any("r_in");
		let ro: u128 = any("r_out");
		let a: u128 = any("amount");
		if let Ok(inp) = calculate_in_given_out(ro, ri, a) {
			if let Some(ri2) = ri.checked_add(inp) {
				if let Ok(back) = calculate_out_given_in(ro - a, ri2, a) {
					check(back <= inp, "buy then sell makes no profit");
				}
			}
		}
	}

	// ---- M02: liquidity
	fn h_m02_add_amounts() {
		let ra: u128 = any("r_a");
		let rb: u128 = any("r_b");
		let a: u128 = any("amount");
		match calculate_liquidity_in(ra, rb, a) {
			Ok(b) => {
				observe("b", b);
				check(ra > 0, "zero reserve refused");
				check((int(b) * int(ra)).ge(&(int(a) * int(rb))), "pool ratio never falls below");
				check(implies(both(a > 0, rb > 0), ((int(b) - 1) * int(ra)).le(&(int(a) * int(rb)))), "at most one above formula");
				check(implies(either(a == 0, rb == 0), b == 0), "nothing for nothing");
			}
			Err(_) => {
				check(either(ra == 0, (int(a) * int(rb)).ge(&(int(ra) * max128()))), "refused only when undefined or unpayable");
			}
		}
	}
	fn h_m02_shares() {
		let r: u128 = any("reserve");
		let a: u128 = any("amount");
		let s: u128 = any("issuance");
		match calculate_shares(r, a, s) {
			Some(sh) => {
				observe("shares", sh);
				check(r > 0, "zero reserve refused");
				check((int(sh) * int(r)).le(&(int(a) * int(s))), "no more shares than proportional");
				check(((int(sh) + 1) * int(r)).gt(&(int(a) * int(s))), "no fewer shares than proportional");
			}
			None => check(either(r == 0, (int(a) * int(s)).gt(&(int(r) * max128()))), "refused only when undefined"),
		}
	}
	fn h_m02_remove() {
		let ra: u128 = any("r_a");
		let rb: u128 = any("r_b");
		let a: u128 = any("amount");
		let t: u128 = any("total");
		assume(a <= t);
		match calculate_liquidity_out(ra, rb, a, t) {
			Ok((x, y)) => {
				observe("a", x);
				observe("b", y);
				check(t > 0, "empty pool refused");
				check(both(x <= ra, y <= rb), "never more than the reserves");
				check((int(x) * int(t)).le(&(int(a) * int(ra))), "a not above share");
				check((int(y) * int(t)).le(&(int(a) * int(rb))), "b not above share");
				check(((int(x) + 1) * int(t)).gt(&(int(a) * int(ra))), "a not below share");
				check(((int(y) + 1) * int(t)).gt(&(int(a) * int(rb))), "b not below share");
			}
			Err(_) => check(t == 0, "always defined for a non-empty pool"),
		}
	}
	fn h_m02_add_remove() {
		// join then leave: never gains either asset
		let ra: u128 = any("r_a");
		let rb: u128 = any("r_b");
		let a: u128 = any("amount");
		let t: u128 = any("total");
		assume(a > 0);
		assume(t > 0);
		if let (Ok(b), Some(sh)) = (calculate_liquidity_in(ra, rb, a), calculate_shares(ra, a, t)) {
			if let (Some(ra2), Some(rb2), Some(t2)) = (ra.checked_add(a), rb.checked_add(b), t.checked_add(sh)) {
				if let Ok((x, y)) = calculate_liquidity_out(ra2, rb2, sh, t2) {
					check(x <= a, "no gain in a");
					check(y <= b, "no gain in b");
				}
			}
		}
	}
	fn h_m02_no_dilution() {
		// holders who do nothing never own less of either reserve after a join
		let ra: u128 = any("r_a");
		let rb: u128 = any("r_b");
		let a: u128 = any("amount");
		let t: u128 = any("total");
		assume(t > 0);
		if let (Ok(b), Some(sh)) = (calculate_liquidity_in(ra, rb, a), calculate_shares(ra, a, t)) {
			check(((int(ra) + int(a)) * int(t)).ge(&(int(ra) * (int(t) + int(sh)))), "a per share");
			check(((int(rb) + int(b)) * int(t)).ge(&(int(rb) * (int(t) + int(sh)))), "b per share");
		}
	}

	// ---- M03: trade fee and quoted price
	fn h_m03_fee() {
		let a: u128 = any("amount");
		let n: u32 = any("num");
		let d: u32 = any("den");
		match calculate_pool_trade_fee(a, (n, d)) {
			Some(f) => {
				observe("fee", f);
				check(implies(both(n <= d, d > 0), f <= a), "fee at most the amount");
				check(implies(d > 0, (int(f) * int(d)).le(&(int(a) * int(n)))), "fee at most the rate");
				check(implies(d > 0, ((int(f) + int(n)) * int(d)).gt(&(int(a) * int(n) - int(1)))), "fee within one numerator of the rate");
				check(implies(either(n == 0, d == 0), f == 0), "no fee without a rate");
				check(implies(both(n == d, d > 0), f == a), "full rate takes everything");
			}
			None => check(n > d, "always defined for a rate of at most one"),
		}
	}
	fn h_m03_spot() {
		let ri: u128 = any("r_in");
		let ro: u128 = any("r_out");
		let a: u128 = any("amount");
		match calculate_spot_price(ri, ro, a) {
			Ok(p) => {
				observe("p", p);
				check(ri > 0, "zero reserve refused");
				check(is_floor(int(p), int(ro) * int(a), int(ri)), "reserve ratio times amount");
				if let Ok(out) = calculate_out_given_in(ri, ro, a) {
					check(out <= p, "a trade never beats the quoted spot price");
				}
			}
			Err(_) => check(either(ri == 0, (int(ro) * int(a)).gt(&(int(ri) * max128()))), "refused only when undefined"),
		}
	}
	fn h_m03_spot_fee() {
		let ri: u128 = any("r_in");
		let ro: u128 = any("r_out");
		let n: u32 = any("num");
		let d: u32 = any("den");
		assume(d > 0);
		assume(n <= d);
		let with: Result<FixedU128, _> = calculate_spot_price_with_fee(ri, ro, Some((n, d)));
		let without = calculate_spot_price_with_fee(ri, ro, None);
		match (with, without) {
			(Ok(w), Ok(p)) => {
				let (w, p) = (w.into_inner(), p.into_inner());
				observe("w", w);
				check(is_floor(int(p), int(ro) * int(E18), int(ri)), "fee-less price is the reserve ratio");
				check(w <= p, "a fee never improves the price");
				check(implies(n == 0, w == p), "zero fee changes nothing");
				check(((int(w) + 1) * int(d) + int(p)).ge(&(int(p) * (int(d) - int(n)))), "no more than the fee is taken");
				check((int(w) * int(d) * int(E18)).le(&(int(p) * (int(d) - int(n)) * int(E18) + int(p) * int(d) + int(d) * int(E18))), "the fee is taken");
			}
			_ => check(either(ri == 0, (int(ro) * int(E18)).gt(&(int(ri) * max128()))), "refused only when undefined"),
		}
	}
}
