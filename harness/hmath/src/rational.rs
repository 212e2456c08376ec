use hydra_dx_math::support::rational::*;
use hydra_dx_math::support::traits::*;
use primitive_types::{U256, U512};
use symx::*;

fn p128() -> Int {
	max128() + 1
}
fn pow2(k: usize) -> Int {
	let mut s = int(1u32);
	for _ in 0..k / 64 {
		s = s * int(1u128 << 64);
	}
	s * int(1u128 << (k % 64))
}
/// `r` is `n / d` cut to 128 bits, where the larger of the two has `bits` bits
fn rounded(n: &Int, d: &Int, bits: usize, r: (u128, u128), mode: Rounding) {
	let (a, b, one) = (int(r.0), int(r.1), int(1u32));
	if bits <= 128 {
		check(both(a.eq(n), b.eq(d)), "a ratio that fits is kept");
		return;
	}
	let s = pow2(bits - 128);
	check(both(implies(n.eq(&int(0u32)), r.0 <= 1), implies(n.ge(&one), r.0 >= 1)), "only zero becomes zero");
	check(r.1 >= 1, "no zero denominator");
	check(either(r.0 >= 1 << 127, r.1 >= 1 << 127), "all bits are used");
	// x is cut to v: v s <= x < (v + 1) s, one more when rounded away from zero; raised to one from zero, or capped
	let cut = |x: &Int, v: &Int, up: bool, label: &'static str| {
		let top = v.eq(&max128());
		if up {
			check(either(top, x.le(&(v.clone() * s.clone()))), label);
			check(either(v.eq(&one), ((v.clone() - one.clone()) * s.clone()).le(x)), label);
		} else {
			check(x.lt(&((v.clone() + one.clone()) * s.clone())), label);
			check(either(v.eq(&one), (v.clone() * s.clone()).le(x)), label);
		}
	};
	cut(n, &a, matches!(mode, Rounding::Up), "numerator within one unit, on the side asked for");
	cut(d, &b, matches!(mode, Rounding::Down), "denominator within one unit, on the side asked for");
}
fn wide(name: &'static str) -> U256 {
	let v: [u128; 2] = any(name);
	U256::from(v[1]) << 128usize | U256::from(v[0])
}
fn wide512(name: &'static str) -> U512 {
	let v: [u128; 4] = any(name);
	U512::from(v[3]) << 384usize | U512::from(v[2]) << 256usize | U512::from(v[1]) << 128usize | U512::from(v[0])
}
fn small_ratio(mode: Rounding) {
	let (n, d) = (wide("n"), wide("d"));
	rounded(&int(n), &int(d), n.bits().max(d.bits()), round_to_rational((n, d), mode), mode);
}
fn big_ratio(mode: Rounding) {
	let (n, d) = (wide512("n"), wide512("d"));
	rounded(&int(n), &int(d), n.bits().max(d.bits()), round_u512_to_rational((n, d), mode), mode);
}

harness! {
	fn h_m82_nearest() {
		small_ratio(Rounding::Nearest);
	}
	fn h_m82_down() {
		small_ratio(Rounding::Down);
	}
	fn h_m82_up() {
		small_ratio(Rounding::Up);
	}
	fn h_m82_wide_nearest() {
		big_ratio(Rounding::Nearest);
	}
	fn h_m82_wide_down() {
		big_ratio(Rounding::Down);
	}
	fn h_m82_wide_up() {
		big_ratio(Rounding::Up);
	}
	fn h_m82_into() {
		let (a, b): (u128, u128) = (any("a"), any("b"));
		let u: U256 = wide("u");
		check(int(a.checked_add_into(&b).unwrap()).eq(&(int(a) + int(b))), "wide sum");
		check(int(a.checked_mul_into(&b).unwrap()).eq(&(int(a) * int(b))), "wide product");
		match u.checked_div_inner(&a) {
			Some(q) => check(both(a > 0, int(q).eq(&(int(u) / int(a)))), "wide quotient"),
			None => check(a == 0, "quotient defined"),
		}
		match u.checked_mul_inner(&a) {
			Some(p) => check(int(p).eq(&(int(u) * int(a))), "wide product of a wide"),
			None => check((int(u) * int(a)).ge(&(p128() * p128())), "wide product defined"),
		}
	}
}
