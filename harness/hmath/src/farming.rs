use hydra_dx_math::liquidity_mining::*;
use sp_arithmetic::FixedU128;
use symx::*;

const E18: u128 = 1_000_000_000_000_000_000;
fn fx(v: u128) -> FixedU128 {
	FixedU128::from_inner(v)
}
fn p128() -> Int {
	max128() + 1
}

harness! {
	// ---- M50: loyalty
	fn h_m50_loyalty() {
		let t: u128 = any("periods");
		let i: u128 = within("initial", 0, 1_000_000_000_000_000_000);
		let s: u32 = any("scale");
		match calculate_loyalty_multiplier(t, fx(i), s) {
			Ok(m) => {
				let m = m.into_inner();
				observe("m", m);
				check(either(t > 0, s > 0), "undefined at zero over zero");
				check(is_floor(int(m), int(t) * int(E18) + int(i) * int(s), int(t) + int(s)), "(t + initial * scale) / (t + scale)");
				check(both(m >= i, m <= E18), "between the initial percentage and one");
				check(implies(both(t == 0, s > 0), m == i), "starts at the initial percentage");
			}
			Err(_) => check(either(both(t == 0, s == 0), ((int(t) + int(s)) * int(E18)).ge(&max128())), "defined unless out of range"),
		}
	}
	fn h_m50_monotone() {
		let (t, u): (u128, u128) = (any("periods"), any("later"));
		let i: u128 = within("initial", 0, 1_000_000_000_000_000_000);
		let s: u32 = any("scale");
		assume(t <= u);
		if let (Ok(m), Ok(n)) = (calculate_loyalty_multiplier(t, fx(i), s), calculate_loyalty_multiplier(u, fx(i), s)) {
			check(m.into_inner() <= n.into_inner(), "loyalty never falls with time");
		}
	}
	// ---- M51: accrual and claims
	fn h_m51_accumulated() {
		let (r, s, a): (u128, u128, u128) = (any("rps"), any("shares"), any("reward"));
		match calculate_accumulated_rps(fx(r), s, a) {
			Ok(n) => {
				let n = n.into_inner();
				check(s > 0, "no shares refused");
				check(n >= r, "never falls");
				check(is_floor(int(n) - int(r), int(a) * int(E18), int(s)), "grows by the reward per share");
			}
			Err(_) => check(either(s == 0, (int(a) * int(E18) + int(r) * int(s)).ge(&(max128() * int(s)))), "defined unless out of range"),
		}
	}
	fn h_m51_reward() {
		let (a, b, s): (u128, u128, u128) = (any("start"), any("now"), any("shares"));
		match calculate_reward(fx(a), fx(b), s) {
			Ok(r) => {
				observe("r", r);
				check(a <= b, "no reward for the past");
				check(is_floor(int(r), (int(b) - int(a)) * int(s), int(E18)), "reward per share times shares");
			}
			Err(_) => check(either(a > b, ((int(b) - int(a)) * int(s)).ge(&(p128() * int(E18)))), "defined unless out of range"),
		}
	}
	fn h_m51_user() {
		let (a, b, s, c): (u128, u128, u128, u128) = (any("start"), any("now"), any("shares"), any("claimed"));
		let l: u128 = any("loyalty");
		match calculate_user_reward(fx(a), s, c, fx(b), fx(l)) {
			Ok((user, unclaimable)) => {
				observe("user", user);
				observe("unclaimable", unclaimable);
				let max = ((int(b) - int(a)) * int(s)) / int(E18);
				let some = max.gt(&int(0u8));
				check(implies(!some, both(user == 0, unclaimable == 0)), "nothing accrued, nothing paid");
				check(implies(some, (int(user) + int(unclaimable) + int(c)).eq(&max)), "claimed, paid and forfeited add up to the accrued reward");
				check(implies(some, is_floor(int(user) + int(c), int(l) * max, int(E18))), "paid in proportion to loyalty");
			}
			Err(_) => {
				let max = ((int(b) - int(a)) * int(s)) / int(E18);
				check(either(a > b, either(max.gt(&max128()), either((int(l) * &max).ge(&((max.clone() + 1) * int(E18))), (int(l) * max).lt(&(int(c) * int(E18)))))), "defined unless more was claimed than earned");
			}
		}
	}
	fn h_m51_shares() {
		let (s, v, m): (u128, u128, u128) = (any("shares"), any("value"), any("multiplier"));
		match calculate_valued_shares(s, v) {
			Ok(r) => check(int(r).eq(&(int(s) * int(v))), "valued shares"),
			Err(_) => check((int(s) * int(v)).gt(&max128()), "valued shares defined"),
		}
		match calculate_global_farm_shares(v, fx(m)) {
			Ok(r) => check(is_floor(int(r), int(v) * int(m), int(E18)), "farm shares"),
			Err(_) => check((int(v) * int(m)).ge(&(p128() * int(E18))), "farm shares defined"),
		}
	}
	// ---- M52: farm rewards
	fn h_m52_global() {
		let (s, p, y, m, t): (u128, u128, u128, u128, u128) = (any("shares"), any("adjustment"), any("yield"), any("max"), any("periods"));
		let adj = (int(p) * int(s)) / int(E18);
		let n = &adj * int(y) * int(t);
		let cap = int(m) * int(t);
		match calculate_global_farm_rewards(s, fx(p), fx(y), m, t) {
			Ok(r) => {
				observe("r", r);
				check(int(r).le(&cap), "never above the limit per period");
				check((int(r) * int(E18)).le(&n), "never above the yield");
				check(either(int(r).eq(&cap), ((int(r) + 1) * int(E18)).gt(&n)), "all of the yield up to the limit");
			}
			Err(_) => check(either(adj.gt(&max128()), either(n.ge(&(p128() * int(E18))), cap.gt(&max128()))), "defined unless out of range"),
		}
	}
	fn h_m52_yield() {
		let (y, g, m, v): (u128, u128, u128, u128) = (any("yield_rpz"), any("global_rpz"), any("multiplier"), any("valued"));
		let stake = (int(m) * int(v)) / int(E18);
		match calculate_yield_farm_rewards(fx(y), fx(g), fx(m), v) {
			Ok((d, r)) => {
				let d = d.into_inner();
				observe("r", r);
				check(both(v > 0, y <= g), "undefined without shares or for the past");
				check(is_floor(int(r), (int(g) - int(y)) * &stake, int(E18)), "reward for the stake");
				check(is_floor(int(d), int(r) * int(E18), int(v)), "reward per share");
			}
			Err(_) => {
				let r = ((int(g) - int(y)) * &stake) / int(E18);
				check(either(either(v == 0, y > g), either(stake.gt(&max128()), either(r.gt(&max128()), (r * int(E18)).ge(&(p128() * int(v)))))), "defined unless out of range");
			}
		}
	}
}
