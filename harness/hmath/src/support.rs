use core::cmp::Ordering;
use hydra_dx_math::fraction::{self, *};
use hydra_dx_math::ratio::Ratio;
use hydra_dx_math::support::rational::*;
use hydra_dx_math::types::Fraction;
use primitive_types::{U256, U512};
use sp_arithmetic::FixedU128;
use symx::*;

const E18: u128 = 1_000_000_000_000_000_000;
/// `q` is `n / d` rounded to the nearest, halves down.
fn nearest(q: Int, n: Int, d: Int) -> bool {
	let twice = &n * 2;
	both((&q * &d * 2 - d.clone()).lt(&twice), twice.le(&(q * &d * 2 + d)))
}
fn one() -> u128 {
	1u128 << 127
}

harness! {
	// ---- M80: ratios
	fn h_m80_order() {
		let (a, b, c, d): (u128, u128, u128, u128) = (any("n1"), any("d1"), any("n2"), any("d2"));
		let (x, y) = (Ratio::new(a, b), Ratio::new(c, d));
		check(both(x.d > 0, y.d > 0), "denominators are positive");
		let (l, r) = (int(x.n) * int(y.d), int(y.n) * int(x.d));
		match x.cmp(&y) {
			Ordering::Less => check(l.lt(&r), "less"),
			Ordering::Equal => check(l.eq(&r), "equal"),
			Ordering::Greater => check(l.gt(&r), "greater"),
		}
		check(x.partial_cmp(&y) == Some(x.cmp(&y)), "partial order is the order");
	}
	fn h_m80_invert() {
		let (a, b): (u128, u128) = (any("n"), any("d"));
		let x = Ratio::new(a, b);
		let i = x.inverted();
		check(implies(x.is_zero(), both(i.n == x.n, i.d == x.d)), "zero inverts to zero");
		check(implies(!x.is_zero(), both(i.n == x.d, i.d == x.n)), "inverse");
		check(i.d > 0, "no zero denominator");
		check(x.is_one() == (x.n == x.d), "one");
		check(x.is_zero() == (a == 0), "zero");
		let t: (u128, u128) = x.into();
		check(both(t.0 == x.n, t.1 == x.d), "as tuple");
		let f: Ratio = (a, b).into();
		check(both(f.n == x.n, f.d == x.d), "from tuple");
		check(either(b == 0, both(x.n == a, x.d == b)), "value kept");
	}
	// ---- M81: fractions
	fn h_m81_frac() {
		let (n, d): (u128, u128) = (any("n"), any("d"));
		assume(d > 0);
		assume(n <= d);
		check(nearest(int(frac(n, d).to_bits()), int(n) * int(one()), int(d)), "nearest representable");
	}
	fn h_m81_to_fixed() {
		let b: u128 = within("bits", 0, 1u128 << 127);
		let f = to_fixed(Fraction::from_bits(b)).into_inner();
		observe("f", f);
		check(nearest(int(f), int(b) * int(E18), int(one())), "nearest representable");
		check(f <= E18, "at most one");
		let r = to_rational(Fraction::from_bits(b));
		check(both(r.n() == b, r.d() == one()), "exact as a rational");
	}
	fn h_m81_from_fixed() {
		let v: u128 = within("v", 0, 1_000_000_000_000_000_000);
		let b = from_fixed(FixedU128::from_inner(v));
		check(nearest(int(b.to_bits()), int(v) * int(one()), int(E18)), "nearest representable");
		check(to_fixed(b).into_inner() == v, "round trip");
	}
	fn h_m81_balance() {
		let b: u128 = within("bits", 0, 1u128 << 127);
		let v: u128 = any("v");
		let r = multiply_by_balance(Fraction::from_bits(b), v);
		observe("r", r);
		check(nearest(int(r), int(b) * int(v), int(one())), "nearest");
		check(r <= v, "never more than the whole");
		check(implies(b == one(), r == v), "one keeps the balance");
	}
	fn h_m81_fixed() {
		let b: u128 = within("bits", 0, 1u128 << 127);
		let v: u128 = any("v");
		let r = multiply_by_fixed(Fraction::from_bits(b), FixedU128::from_inner(v)).into_inner();
		check(nearest(int(r), int(b) * int(v), int(one())), "nearest");
		check(r <= v, "never more than the whole");
	}
}
