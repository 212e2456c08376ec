use crate::helpers_128bit::{multiply_by_rational_with_rounding, to_big_uint};
use crate::Rounding;
use core::cmp::Ordering;

#[derive(Clone, Copy, Default, Debug)]
pub struct Rational128(u128, u128);
impl Rational128 {
	pub fn zero() -> Self {
		Self(0, 1)
	}
	pub fn one() -> Self {
		Self(1, 1)
	}
	pub fn is_zero(&self) -> bool {
		self.0 == 0
	}
	pub fn from(n: u128, d: u128) -> Self {
		Self(n, d.max(1))
	}
	pub fn from_unchecked(n: u128, d: u128) -> Self {
		Self(n, d)
	}
	pub fn n(&self) -> u128 {
		self.0
	}
	pub fn d(&self) -> u128 {
		self.1
	}
}
impl PartialEq for Rational128 {
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o) == Ordering::Equal
	}
}
impl Eq for Rational128 {}
impl PartialOrd for Rational128 {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Rational128 {
	fn cmp(&self, other: &Self) -> Ordering {
		if self.1 == other.1 {
			self.0.cmp(&other.0)
		} else if self.1 == 0 {
			Ordering::Greater
		} else if other.1 == 0 {
			Ordering::Less
		} else {
			(to_big_uint(self.0) * to_big_uint(other.1)).cmp(&(to_big_uint(other.0) * to_big_uint(self.1)))
		}
	}
}

pub trait MultiplyRational: Sized {
	fn multiply_rational(self, n: Self, d: Self, r: Rounding) -> Option<Self>;
}
macro_rules! impl_mr {
	($($t:ty),*) => { $(
		impl MultiplyRational for $t {
			fn multiply_rational(self, n: Self, d: Self, r: Rounding) -> Option<Self> {
				multiply_by_rational_with_rounding(self as u128, n as u128, d as u128, r).and_then(|x| <$t>::try_from(x).ok())
			}
		}
	)* }
}
impl_mr!(u8, u16, u32, u64, u128);
