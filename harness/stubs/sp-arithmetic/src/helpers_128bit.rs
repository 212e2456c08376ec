use crate::Rounding;
use core::cmp::Ordering;
use core::ops::Mul;
use primitive_types::U256;

/// `a * b / c` with the given rounding; `None` when `c` is zero or the result does not fit `u128`.
pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
	if c == 0 {
		return None;
	}
	let p = U256::from(a) * U256::from(b);
	let c256 = U256::from(c);
	let q = p / c256;
	if q > U256::from(u128::MAX) {
		return None;
	}
	let mut result: u128 = q.as_u128();
	match r {
		Rounding::Down => Some(result),
		_ => {
			let remainder = (p - q * c256).as_u128();
			let up = match r {
				Rounding::Up => remainder > 0,
				Rounding::NearestPrefUp => remainder >= c / 2 + c % 2,
				Rounding::NearestPrefDown => remainder > c / 2,
				Rounding::Down => false,
			};
			if up {
				result = match result.checked_add(1) {
					Some(v) => v,
					None => return None,
				};
			}
			Some(result)
		}
	}
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct BigUint(U256);
impl Mul for BigUint {
	type Output = BigUint;
	fn mul(self, o: Self) -> Self {
		BigUint(self.0 * o.0)
	}
}
impl PartialOrd for BigUint {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for BigUint {
	fn cmp(&self, o: &Self) -> Ordering {
		self.0.cmp(&o.0)
	}
}
pub fn to_big_uint(x: u128) -> BigUint {
	BigUint(U256::from(x))
}
