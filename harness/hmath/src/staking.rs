use core::num::NonZeroU128;
use hydra_dx_math::staking::*;
use sp_arithmetic::{FixedU128, Perbill, Permill};
use symx::*;

const E18: u128 = 1_000_000_000_000_000_000;
fn fx(v: u128) -> FixedU128 {
	FixedU128::from_inner(v)
}
fn p128() -> Int {
	max128() + 1
}

harness! {
	// ---- M60: rewards
	fn h_m60_accumulated() {
		let (r, p, s): (u128, u128, u128) = (any("rps"), any("pending"), any("stake"));
		match calculate_accumulated_rps(fx(r), p, s) {
			Some(n) => {
				let n = n.into_inner();
				check(both(s > 0, n >= r), "never falls");
				check(is_floor(int(n) - int(r), int(p) * int(E18), int(s)), "grows by the reward per stake");
			}
			None => check(either(s == 0, (int(p) * int(E18) + int(r) * int(s)).ge(&(max128() * int(s)))), "defined unless out of range"),
		}
	}
	fn h_m60_rewards() {
		let (a, b, s): (u128, u128, u128) = (any("now"), any("then"), any("stake"));
		match calculate_rewards(fx(a), fx(b), s) {
			Some(r) => {
				observe("r", r);
				check(both(b <= a, is_floor(int(r), (int(a) - int(b)) * int(s), int(E18))), "reward per stake times stake");
			}
			None => check(either(b > a, ((int(a) - int(b)) * int(s)).ge(&(p128() * int(E18)))), "defined unless out of range"),
		}
	}
	fn h_m60_percentage() {
		let (a, p): (u128, u128) = (any("amount"), any("percentage"));
		let r = calculate_percentage_amount(a, fx(p));
		observe("r", r);
		check(either(is_floor(int(r), int(a) * int(p), int(E18)), both(r == u128::MAX, (int(a) * int(p)).ge(&(max128() * int(E18))))), "percentage of the amount");
		check(implies(p <= E18, r <= a), "no more than the amount");
		let (x, y, z): (u128, u128, u128) = (any("x"), any("y"), any("z"));
		let t = calculate_total_rewards(x, y, z);
		check(either(int(t).eq(&(int(x) + int(y) + int(z))), both(t == u128::MAX, (int(x) + int(y) + int(z)).gt(&max128()))), "total");
	}
	// ---- M61: points
	fn h_m61_points() {
		let (c, n, ap, sl): (u128, u128, u128, u128) = (any("created"), any("now"), any("action"), any("slashed"));
		let pp: u8 = any("per_period");
		let tw: u32 = within("time_weight", 0, 1_000_000);
		let aw: u32 = within("action_weight", 0, 1_000_000_000);
		let tp = (int(n) - int(c)) * int(pp);
		let want = (&tp * int(tw)) / int(1_000_000u32) + (int(ap) * int(aw)) / int(1_000_000_000u32);
		match calculate_points(c, n, pp, Permill::from_parts(tw), ap, Perbill::from_parts(aw), sl) {
			Some(p) => {
				observe("p", p);
				check(c <= n, "not before the position was created");
				check((int(p) + int(sl)).eq(&want), "weighted time and action points less the slashed ones");
			}
			None => check(either(c > n, either(tp.gt(&max128()), either(want.gt(&max128()), want.lt(&int(sl))))), "defined unless out of range"),
		}
	}
	fn h_m61_slashed() {
		let (p, s, i, m): (u128, u128, u128, u128) = (any("points"), any("stake"), any("increase"), any("min"));
		let w: u8 = any("weight");
		match calculate_slashed_points(p, s, i, w, m) {
			Some(r) => {
				observe("r", r);
				check(both(s > 0, w > 0), "undefined without stake or weight");
				check(r <= p, "no more than the points");
				check(implies(r < p, r >= m), "at least the minimum");
				let d = int(s) * int(w);
				check(implies(both(r > m, r < p), is_floor(int(r), int(i) * int(p), d.clone())), "points in proportion to the increase");
				check(implies(both(r == m, r < p), (int(i) * int(p)).lt(&((int(m) + 1) * &d))), "the minimum only when proportion is lower");
				check(implies(both(r == p, m < p), (int(i) * int(p)).ge(&(int(p) * d))), "all only when proportion is higher");
			}
			None => check(either(either(s == 0, w == 0), either((int(s) * int(w)).gt(&max128()), (int(i) * int(p)).gt(&max128()))), "defined unless out of range"),
		}
	}
	fn h_m61_period() {
		let b: u128 = any("block");
		let l: u128 = within("length", 1, u128::MAX);
		if let Some(nz) = NonZeroU128::new(l) {
			let p = calculate_period_number(nz, b);
			check(is_floor(int(p), int(b), int(l)), "block over length");
		} else {
			check(false, "positive length");
		}
	}
	// ---- M62: payable share
	fn h_m62_sigmoid() {
		let (x, a): (u128, u128) = (any("points"), any("a"));
		let b: u32 = any("b");
		if let Some(r) = sigmoid(x, fx(a), b) {
			let r = r.into_inner();
			observe("r", r);
			check(r <= E18, "at most one");
			check(implies(either(x == 0, a == 0), r == 0), "zero at zero");
		}
	}
	fn h_m62_exact() {
		// no overflow for realistic parameters: a x below 2000
		let x: u128 = within("points", 0, 1 << 64);
		let a: u128 = any("a");
		let b: u32 = within("b", 1, u32::MAX);
		assume((int(a) * int(x)).lt(&(int(2000u32) * int(E18))));
		match sigmoid(x, fx(a), b) {
			Some(r) => {
				let r = r.into_inner();
				let ax = int(a) * int(x);
				let sq = (&ax * &ax) / int(E18);
				let q = (&sq * &sq) / int(E18);
				check(is_floor(int(r), &q * int(E18), q.clone() + int(b) * int(E18)), "(ax)^4 / (b + (ax)^4)");
				check(r < E18, "below one");
			}
			None => check(false, "defined"),
		}
	}
}
