use fixed::types::{U1F127, U32F96};
use hydra_dx_math::ema::*;
use hydra_dx_math::transcendental::*;
use hydra_dx_math::types::{Fraction, Ratio};
use symx::*;

const ONE96: u128 = 1 << 96;
const ONE127: u128 = 1 << 127;

/// |r - x^n / one^(n-1)| <= slack
fn near_power(r: u128, x: &Int, n: usize, slack: u32, label: &'static str) {
	let one = int(ONE127);
	let (mut p, mut s) = (x.clone(), int(1u32));
	for _ in 1..n {
		p = p * x.clone();
		s = s * one.clone();
	}
	check(both((int(r) * s.clone()).le(&(p.clone() + int(slack) * s.clone())), p.le(&((int(r) + int(slack)) * s))), label);
}
fn high_precision(n: u32) {
	let x: u128 = within("x", 0, ONE127);
	let r: U1F127 = saturating_powi_high_precision::<U1F127, U1F127>(U1F127::from_bits(x), n);
	let r = r.to_bits();
	observe("r", r);
	check(r <= ONE127, "a power of a fraction is at most one");
	check(implies(x == ONE127, r == ONE127), "a power of one is one");
	check(implies(x == 0, r == 0), "a power of zero is zero");
	check(implies(n > 1, r <= x), "a power of a fraction is at most the fraction");
	near_power(r, &int(x), n as usize, 4 * n, "within 4 n units of the exact power");
}
fn chain(x: u128, n: u32) {
	match powi::<U32F96, U32F96>(U32F96::from_bits(x), n) {
		Ok(r) => {
			let mut e = int(x);
			for _ in 1..n {
				e = e * int(x) / int(ONE96);
			}
			observe("r", r.to_bits());
			check(int(r.to_bits()).eq(&e), "repeated product, each rounded down");
		}
		Err(_) => {
			let mut e = int(x);
			let mut over = false;
			for _ in 1..n {
				e = e * int(x) / int(ONE96);
				over = either(over, e.gt(&max128()));
			}
			check(over, "refused only when it does not fit");
		}
	}
}
fn smooth(n: u32) {
	let s: u128 = within("smoothing", 0, ONE127);
	let r = exp_smoothing(Fraction::from_bits(s), n).to_bits();
	check(r <= ONE127, "at most one");
	check(implies(s == 0, r == 0), "no smoothing stays none");
	check(implies(s == ONE127, r == ONE127), "full smoothing stays full");
	check(r >= s, "never less than a single step");
	near_power(ONE127 - r, &(int(ONE127) - int(s)), n as usize, 4 * n, "complement is the power of the complement");
}

harness! {
	fn h_m33_pow_special() {
		let (x, e): (u128, u128) = (any("x"), any("exponent"));
		let p = |a: u128, b: u128| pow::<U32F96, U32F96>(U32F96::from_bits(a), U32F96::from_bits(b)).map(|r| r.to_bits());
		check(p(0, e) == Ok(0), "zero to any power");
		if x > 0 {
			check(p(x, 0) == Ok(ONE96), "power zero is one");
			check(p(x, ONE96) == Ok(x), "power one is the value");
		}
		check(powi::<U32F96, U32F96>(U32F96::from_bits(0), 7).map(|r| r.to_bits()) == Ok(0), "integer power of zero");
		if x > 0 {
			check(powi::<U32F96, U32F96>(U32F96::from_bits(x), 0).map(|r| r.to_bits()) == Ok(ONE96), "integer power zero is one");
		}
		check(powi::<U32F96, U32F96>(U32F96::from_bits(x), 1).map(|r| r.to_bits()) == Ok(x), "integer power one is the value");
	}
	fn h_m33_powi_2() {
		chain(any("x"), 2);
	}
	fn h_m33_powi_3() {
		chain(any("x"), 3);
	}
	fn h_m33_powi_5() {
		chain(any("x"), 5);
	}
	fn h_m33_high_0() {
		let x: u128 = within("x", 0, ONE127);
		let r = saturating_powi_high_precision::<U1F127, U1F127>(U1F127::from_bits(x), 0).to_bits();
		check(r == ite(x == 0, 0, ONE127), "power zero");
	}
	fn h_m33_high_1() {
		let x: u128 = within("x", 0, ONE127);
		let r = saturating_powi_high_precision::<U1F127, U1F127>(U1F127::from_bits(x), 1).to_bits();
		check(r == x, "power one");
	}
	fn h_m33_high_2() {
		high_precision(2);
	}
	fn h_m33_high_3() {
		high_precision(3);
	}
	fn h_m33_high_4() {
		high_precision(4);
	}
	// ---- M41: smoothing over several blocks
	fn h_m41_smoothing_0_1() {
		let s: u128 = within("smoothing", 0, ONE127);
		let f = Fraction::from_bits(s);
		check(exp_smoothing(f, 1).to_bits() == s, "one step is the smoothing itself");
		check(implies(s < ONE127, exp_smoothing(f, 0).to_bits() == 0), "no step is no smoothing");
	}
	fn h_m41_smoothing_2() {
		smooth(2);
	}
	fn h_m41_smoothing_3() {
		smooth(3);
	}
	fn h_m41_iterated() {
		let (p, i): (u128, u128) = (any("prev"), any("incoming"));
		let s: u128 = within("smoothing", 0, ONE127);
		let n: u32 = any("iterations");
		let f = Fraction::from_bits(s);
		let c = saturating_powi_high_precision::<Fraction, Fraction>(Fraction::from_bits(ONE127 - s), n).to_bits();
		// bounds of the power: h_m33_high
		assume(c <= ONE127);
		let w = exp_smoothing(f, n);
		check(w.to_bits() == ONE127 - c, "complement of the power of the complement");
		let r = iterated_balance_ema(n, p, i, f);
		check(r == balance_weighted_average(p, i, w), "balance");
	}
	fn h_m41_iterated_volume() {
		let v: [u128; 4] = any("prev");
		let l: [u128; 2] = any("liquidity");
		let m: [u128; 2] = any("new_liquidity");
		let s: u128 = within("smoothing", 0, ONE127);
		let n: u32 = any("iterations");
		let f = Fraction::from_bits(s);
		let c = saturating_powi_high_precision::<Fraction, Fraction>(Fraction::from_bits(ONE127 - s), n).to_bits();
		assume(c <= ONE127);
		let w = Fraction::from_bits(ONE127 - c);
		let r = iterated_volume_ema(n, (v[0], v[1], v[2], v[3]), f);
		check(r.0 == balance_weighted_average(v[0], 0, w), "a in decays");
		check(r.1 == balance_weighted_average(v[1], 0, w), "b out decays");
		check(r.2 == balance_weighted_average(v[2], 0, w), "a out decays");
		check(r.3 == balance_weighted_average(v[3], 0, w), "b in decays");
		let q = iterated_liquidity_ema(n, (l[0], l[1]), (m[0], m[1]), f);
		check(q.0 == balance_weighted_average(l[0], m[0], w), "a liquidity");
		check(q.1 == balance_weighted_average(l[1], m[1], w), "b liquidity");
	}
	fn h_m41_integrate() {
		let (v, w): ([u128; 4], [u128; 4]) = (any("volume"), any("new_volume"));
		let (l, m): ([u128; 2], [u128; 2]) = (any("liquidity"), any("new_liquidity"));
		let (a, b): ([u128; 2], [u128; 2]) = (any("price"), any("new_price"));
		let s: u128 = within("smoothing", 0, ONE127);
		assume(both(a[1] > 0, b[1] > 0));
		let f = Fraction::from_bits(s);
		let (p, q) = (Ratio::new(a[0], a[1]), Ratio::new(b[0], b[1]));
		let r = calculate_new_by_integrating_incoming((p, (v[0], v[1], v[2], v[3]), (l[0], l[1])), (q, (w[0], w[1], w[2], w[3]), (m[0], m[1])), f);
		let e = price_weighted_average(p, q, f);
		check(both(r.0.n == e.n, r.0.d == e.d), "price");
		check((r.1).0 == balance_weighted_average(v[0], w[0], f), "a in");
		check((r.1).1 == balance_weighted_average(v[1], w[1], f), "b out");
		check((r.1).2 == balance_weighted_average(v[2], w[2], f), "a out");
		check((r.1).3 == balance_weighted_average(v[3], w[3], f), "b in");
		check((r.2).0 == balance_weighted_average(l[0], m[0], f), "a liquidity");
		check((r.2).1 == balance_weighted_average(l[1], m[1], f), "b liquidity");
	}
	fn h_m41_outdated() {
		let v: [u128; 4] = any("volume");
		let (l, m): ([u128; 2], [u128; 2]) = (any("liquidity"), any("new_liquidity"));
		let (a, b): ([u128; 2], [u128; 2]) = (any("price"), any("new_price"));
		let s: u128 = within("smoothing", 0, ONE127);
		let n: u32 = any("iterations");
		assume(both(a[1] > 0, b[1] > 0));
		let (p, q) = (Ratio::new(a[0], a[1]), Ratio::new(b[0], b[1]));
		let c = saturating_powi_high_precision::<Fraction, Fraction>(Fraction::from_bits(ONE127 - s), n).to_bits();
		assume(c <= ONE127);
		let f = Fraction::from_bits(ONE127 - c);
		let r = update_outdated_to_current(n, (p, (v[0], v[1], v[2], v[3]), (l[0], l[1])), (q, (m[0], m[1])), Fraction::from_bits(s));
		let e = price_weighted_average(p, q, f);
		check(both(r.0.n == e.n, r.0.d == e.d), "price");
		check((r.1).0 == balance_weighted_average(v[0], 0, f), "a in");
		check((r.1).1 == balance_weighted_average(v[1], 0, f), "b out");
		check((r.1).2 == balance_weighted_average(v[2], 0, f), "a out");
		check((r.1).3 == balance_weighted_average(v[3], 0, f), "b in");
		check((r.2).0 == balance_weighted_average(l[0], m[0], f), "a liquidity");
		check((r.2).1 == balance_weighted_average(l[1], m[1], f), "b liquidity");
		let t = iterated_price_ema(n, p, q, Fraction::from_bits(s));
		check(both(t.n == e.n, t.d == e.d), "iterated price");
	}
}
