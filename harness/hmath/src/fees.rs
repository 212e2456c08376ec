use hydra_dx_math::dynamic_fees::types::*;
use hydra_dx_math::dynamic_fees::*;
use hydra_dx_math::rate_limiter::*;
use sp_arithmetic::{FixedU128, Permill};
use symx::*;

const E18: u128 = 1_000_000_000_000_000_000;
const ONE: u32 = 1_000_000;
fn fx(v: u128) -> FixedU128 {
	FixedU128::from_inner(v)
}
struct In {
	ain: u128,
	aout: u128,
	liq: u128,
	prev: u32,
	diff: u128,
	min: u32,
	max: u32,
	decay: u128,
	amp: u128,
}
fn input() -> In {
	let r = In {
		ain: any("amount_in"),
		aout: any("amount_out"),
		liq: any("liquidity"),
		prev: within("previous", 0, ONE),
		diff: any("blocks"),
		min: within("min", 0, ONE),
		max: within("max", 0, ONE),
		decay: any("decay"),
		amp: any("amplification"),
	};
	assume(r.min <= r.max);
	r
}
fn params(i: &In) -> FeeParams<Permill> {
	FeeParams { min_fee: Permill::from_parts(i.min), max_fee: Permill::from_parts(i.max), decay: fx(i.decay), amplification: fx(i.amp) }
}
fn fee(i: &In, asset: bool) -> u32 {
	let v = OracleEntry { amount_in: i.ain, amount_out: i.aout, liquidity: i.liq };
	let p = Permill::from_parts(i.prev);
	let r = if asset { recalculate_asset_fee(v, p, i.diff, params(i)) } else { recalculate_protocol_fee(v, p, i.diff, params(i)) };
	r.deconstruct()
}
fn clampi(v: Int, lo: u32, hi: u32, r: u32) -> bool {
	// r == clamp(v, lo, hi)
	either(both(v.le(&int(lo)), r == lo), either(both(v.ge(&int(hi)), r == hi), int(r).eq(&v)))
}

harness! {
	fn h_m70_bounds() {
		let i = input();
		let asset: bool = any("asset");
		let r = fee(&i, asset);
		observe("fee", r as u128);
		check(both(i.min <= r, r <= i.max), "between minimum and maximum");
	}
	fn h_m70_quiet() {
		// no liquidity or no net volume: the fee decays
		let i = input();
		let asset: bool = any("asset");
		assume(either(i.liq == 0, i.ain == i.aout));
		assume(i.decay <= E18);
		assume(i.prev <= i.max);
		let r = fee(&i, asset);
		check(implies(i.prev >= i.min, r <= i.prev), "never rises without net volume");
		// one block: previous - decay, rounded down
		let exact = (int(i.prev) * int(1_000_000_000_000u128) - int(i.decay)) / int(1_000_000_000_000u128);
		check(implies(i.diff <= 1, clampi(exact, i.min, i.max, r)), "decays by the decay");
	}
	fn h_m70_direction() {
		// net outflow raises the asset fee relative to decay alone, net inflow lowers it; reversed for the protocol fee
		let i = input();
		let asset: bool = any("asset");
		let r = fee(&i, asset);
		let q = In { ain: 0, aout: 0, ..i };
		let d = fee(&q, asset);
		let up = if asset { i.aout >= i.ain } else { i.ain >= i.aout };
		let down = if asset { i.aout <= i.ain } else { i.ain <= i.aout };
		check(implies(up, r >= d), "not below the decayed fee");
		check(implies(down, r <= d), "not above the decayed fee");
	}
	fn h_m70_exact() {
		// consecutive blocks: previous + amplification * net volume / liquidity - decay
		let i = input();
		let asset: bool = any("asset");
		assume(i.diff <= 1);
		assume(i.liq > 0);
		assume(i.amp <= 1_000_000 * E18);
		assume(i.decay <= E18);
		let net = if asset { int(i.aout) - int(i.ain) } else { int(i.ain) - int(i.aout) };
		let pos = net.ge(&int(0u8));
		let mag = if pos { net } else { int(0u8) - net };
		assume(mag.le(&(int(i.liq) * int(1_000_000u128))));
		let x = (mag * int(E18)) / int(i.liq);
		let ax = (x * int(i.amp)) / int(E18);
		let prev = int(i.prev) * int(1_000_000_000_000u128);
		let v = (if pos { prev + ax } else { prev - ax }) - int(i.decay);
		let r = fee(&i, asset);
		check(clampi(v / int(1_000_000_000_000u128), i.min, i.max, r), "fee formula");
	}
	fn h_m70_skipped() {
		// after several blocks without an update the decay of the blocks in between is applied first, not below the minimum
		let i = input();
		let asset: bool = any("asset");
		assume(i.diff > 1);
		assume(i.diff < 1 << 40);
		assume(i.liq == 0);
		assume(i.decay <= E18);
		let u = int(1_000_000_000_000u128);
		let dec = int(i.prev) * &u - int(i.decay) * (int(i.diff) - 1);
		let floor = int(i.min) * &u;
		let base = if dec.ge(&floor) { dec } else { floor };
		let r = fee(&i, asset);
		check(clampi((base - int(i.decay)) / u, i.min, i.max, r), "decays for every block in between");
	}
	// ---- M71: rate limiter
	fn h_m71_deferred() {
		let (d, l, t): (u32, u128, u128) = (any("duration"), any("limit"), any("accumulated"));
		let r = calculate_deferred_duration(d, l, t);
		observe("r", r as u128);
		check(implies(t <= l, r == 0), "no delay below the limit");
		let d1 = ite(d == 0, 1, d as u128);
		let l1 = ite(l == 0, 1, l);
		let n = int(d1) * (int(t) - int(l));
		check(implies(both(t > l, n.le(&max128())), either(is_floor(int(r), n.clone(), int(l1)), both(r == u32::MAX, n.ge(&(int(u32::MAX) * int(l1)))))), "delay in proportion to the excess");
	}
	fn h_m71_monotone() {
		let (d, l, t, u): (u32, u128, u128, u128) = (any("duration"), any("limit"), any("accumulated"), any("more"));
		assume(t <= u);
		check(calculate_deferred_duration(d, l, t) <= calculate_deferred_duration(d, l, u), "more accumulated never waits less");
	}
	fn h_m71_decay() {
		let (d, l, a, b): (u32, u128, u128, u32) = (any("duration"), any("limit"), any("accumulated"), any("blocks"));
		let r = decay_accumulated_amount(d, l, a, b);
		observe("r", r);
		let d1 = int(ite(d == 0, 1, d as u128));
		let n = int(l) * int(b);
		check(r <= a, "never grows");
		let gone = &n / &d1;
		check(implies(n.le(&max128()), either((int(r) + &gone).eq(&int(a)), both(r == 0, gone.ge(&int(a))))), "decays by limit times blocks over duration");
		let inc: u128 = any("incoming");
		let s = calculate_new_accumulated_amount(d, l, inc, a, b);
		check(either(int(s).eq(&(int(inc) + int(r))), both(s == u128::MAX, (int(inc) + int(r)).gt(&max128()))), "incoming amount is added");
	}
}
