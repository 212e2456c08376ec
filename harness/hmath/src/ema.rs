use hydra_dx_math::ema::*;
use hydra_dx_math::types::Fraction;
use symx::*;

fn one() -> u128 {
	1u128 << 127
}
fn average(prev: u128, inc: u128, w: u128, r: u128) {
	check(implies(inc >= prev, both(prev <= r, r <= inc)), "between both values");
	check(implies(inc <= prev, both(inc <= r, r <= prev)), "between both values");
	check(implies(w == 0, r == prev), "no weight keeps the value");
	check(implies(w == one(), r == inc), "full weight takes the value");
	// |r - exact| <= 1/2 where exact = prev + w (inc - prev)
	let e = int(prev) * int(one()) + int(w) * (int(inc) - int(prev));
	check(both((int(r) * int(one()) * 2 - int(one())).le(&(&e * 2)), (e * 2).le(&(int(r) * int(one()) * 2 + int(one())))), "weighted average");
}

harness! {
	fn h_m40_balance() {
		let (p, i): (u128, u128) = (any("prev"), any("incoming"));
		let w: u128 = within("weight", 0, 1u128 << 127);
		let r = balance_weighted_average(p, i, Fraction::from_bits(w));
		observe("r", r);
		average(p, i, w, r);
	}
	fn h_m40_volume() {
		let (p, i): ([u128; 4], [u128; 4]) = (any("prev"), any("incoming"));
		let w: u128 = within("weight", 0, 1u128 << 127);
		let f = Fraction::from_bits(w);
		let r = volume_weighted_average((p[0], p[1], p[2], p[3]), (i[0], i[1], i[2], i[3]), f);
		check(r.0 == balance_weighted_average(p[0], i[0], f), "a in");
		check(r.1 == balance_weighted_average(p[1], i[1], f), "b out");
		check(r.2 == balance_weighted_average(p[2], i[2], f), "a out");
		check(r.3 == balance_weighted_average(p[3], i[3], f), "b in");
	}
	fn h_m40_liquidity() {
		let (p, i): ([u128; 2], [u128; 2]) = (any("prev"), any("incoming"));
		let w: u128 = within("weight", 0, 1u128 << 127);
		let f = Fraction::from_bits(w);
		let r = liquidity_weighted_average((p[0], p[1]), (i[0], i[1]), f);
		check(r.0 == balance_weighted_average(p[0], i[0], f), "a");
		check(r.1 == balance_weighted_average(p[1], i[1], f), "b");
	}
	fn h_m40_smoothing() {
		let p: u64 = any("period");
		let s = smoothing_from_period(p).to_bits();
		let d = ite(p == 0, 1, p as u128);
		// nearest to 2 / (period + 1)
		let (n, d) = (int(one()) * 2, int(d) + 1);
		check(both((int(s) * &d * 2 - d.clone()).le(&(&n * 2)), (n * 2).le(&(int(s) * &d * 2 + d))), "2 / (period + 1)");
		check(s <= one(), "at most one");
	}
}
