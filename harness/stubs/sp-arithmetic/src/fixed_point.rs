use crate::helpers_128bit::multiply_by_rational_with_rounding;
use crate::per_things::{PerThing, PtArg, Rounding};
use crate::traits::*;

pub trait FixedPointOperand:
	Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + TryFrom<u128>
{
}
impl<T> FixedPointOperand for T where
	T: Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + TryFrom<u128>
{
}

pub trait FixedPointNumber:
	Sized + Copy + Default + core::fmt::Debug + Saturating + Bounded + Eq + PartialEq + Ord + PartialOrd + CheckedSub
	+ CheckedAdd + CheckedMul + CheckedDiv + Add + Sub + Div + Mul + Zero + One
{
	type Inner: core::fmt::Debug + One + CheckedMul + CheckedDiv + FixedPointOperand;
	const DIV: Self::Inner;
	const SIGNED: bool;
	fn accuracy() -> Self::Inner {
		Self::DIV
	}
	fn from_inner(int: Self::Inner) -> Self;
	fn into_inner(self) -> Self::Inner;
	fn saturating_from_integer<N: FixedPointOperand>(int: N) -> Self {
		let n: u128 = int.unique_saturated_into();
		let v = n.saturating_mul(Self::DIV.unique_saturated_into());
		match Self::Inner::try_from(v) {
			Ok(v) => Self::from_inner(v),
			Err(_) => Self::max_value(),
		}
	}
	fn checked_from_integer<N: Into<Self::Inner>>(int: N) -> Option<Self> {
		let int: Self::Inner = int.into();
		int.checked_mul(&Self::DIV).map(Self::from_inner)
	}
	fn saturating_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Self {
		if d == D::zero() {
			panic!("attempt to divide by zero")
		}
		match Self::checked_from_rational(n, d) {
			Some(v) => v,
			None => Self::max_value(),
		}
	}
	fn checked_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Option<Self> {
		if d == D::zero() {
			return None;
		}
		let n: u128 = n.unique_saturated_into();
		let d: u128 = d.unique_saturated_into();
		let v = multiply_by_rational_with_rounding(n, Self::DIV.unique_saturated_into(), d, Rounding::Down)?;
		Self::Inner::try_from(v).ok().map(Self::from_inner)
	}
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
		let lhs: u128 = self.into_inner().unique_saturated_into();
		let rhs: u128 = n.unique_saturated_into();
		let v = multiply_by_rational_with_rounding(lhs, rhs, Self::DIV.unique_saturated_into(), Rounding::Down)?;
		N::try_from(v).ok()
	}
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N {
		match self.checked_mul_int(n) {
			Some(v) => v,
			None => N::max_value(),
		}
	}
	fn checked_div_int<N: FixedPointOperand>(self, d: N) -> Option<N> {
		let lhs: u128 = self.into_inner().unique_saturated_into();
		let rhs: u128 = d.unique_saturated_into();
		let v = lhs.checked_div(rhs)?.checked_div(Self::DIV.unique_saturated_into())?;
		N::try_from(v).ok()
	}
	fn saturating_div_int<N: FixedPointOperand>(self, d: N) -> N {
		if d == N::zero() {
			panic!("attempt to divide by zero")
		}
		match self.checked_div_int(d) {
			Some(v) => v,
			None => N::max_value(),
		}
	}
	fn saturating_mul_acc_int<N: FixedPointOperand>(self, n: N) -> N {
		self.saturating_mul_int(n).saturating_add(n)
	}
	fn reciprocal(self) -> Option<Self> {
		Self::one().checked_div(&self)
	}
	fn is_one(&self) -> bool {
		self.into_inner() == Self::Inner::one()
	}
	fn is_positive(self) -> bool {
		self.into_inner() >= Self::Inner::zero()
	}
	fn is_negative(self) -> bool {
		false
	}
	fn trunc(self) -> Self {
		let i: u128 = self.into_inner().unique_saturated_into();
		let d: u128 = Self::DIV.unique_saturated_into();
		Self::from_inner((i / d * d).unique_saturated_into_inner())
	}
	fn frac(self) -> Self {
		let i: u128 = self.into_inner().unique_saturated_into();
		let d: u128 = Self::DIV.unique_saturated_into();
		Self::from_inner((i % d).unique_saturated_into_inner())
	}
}
trait IntoInner<T> {
	fn unique_saturated_into_inner(self) -> T;
}
impl<T: TryFrom<u128> + Bounded> IntoInner<T> for u128 {
	fn unique_saturated_into_inner(self) -> T {
		T::try_from(self).unwrap_or_else(|_| T::max_value())
	}
}

macro_rules! implement_fixed {
	($name:ident, $inner:ty, $div:expr) => {
		#[derive(
			codec::Encode, codec::Decode, codec::CompactAs, codec::MaxEncodedLen, scale_info::TypeInfo, serde::Serialize,
			serde::Deserialize, Default, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash,
		)]
		pub struct $name($inner);
		impl core::fmt::Debug for $name {
			fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
				write!(f, "{}({}.{:018})", stringify!($name), self.0 / $div, self.0 % $div)
			}
		}
		impl From<$inner> for $name {
			fn from(int: $inner) -> Self {
				<Self as FixedPointNumber>::saturating_from_integer(int)
			}
		}
		impl<N: FixedPointOperand, D: FixedPointOperand> From<(N, D)> for $name {
			fn from(r: (N, D)) -> Self {
				<Self as FixedPointNumber>::saturating_from_rational(r.0, r.1)
			}
		}
		impl<P: PerThing> From<P> for $name
		where
			P::Inner: FixedPointOperand,
		{
			fn from(p: P) -> Self {
				<Self as FixedPointNumber>::saturating_from_rational(p.deconstruct(), P::ACCURACY)
			}
		}
		impl FixedPointNumber for $name {
			type Inner = $inner;
			const DIV: $inner = $div;
			const SIGNED: bool = false;
			fn from_inner(inner: $inner) -> Self {
				Self(inner)
			}
			fn into_inner(self) -> $inner {
				self.0
			}
		}
		impl $name {
			pub const DIV: $inner = $div;
			pub const fn from_inner(inner: $inner) -> Self {
				Self(inner)
			}
			pub const fn into_inner(self) -> $inner {
				self.0
			}
			pub const fn from_u32(n: u32) -> Self {
				Self((n as $inner) * $div)
			}
			pub fn from_float(x: f64) -> Self {
				Self((x * ($div as f64)) as $inner)
			}
			pub fn to_float(self) -> f64 {
				self.0 as f64 / $div as f64
			}
			/// Panics on a zero denominator and on overflow, like the original.
			pub fn from_rational(a: u128, b: u128) -> Self {
				Self::from_rational_with_rounding(a, b, Rounding::Down)
			}
			pub fn from_rational_with_rounding(a: u128, b: u128, rounding: Rounding) -> Self {
				if b == 0 {
					panic!("attempt to divide by zero in from_rational")
				}
				match multiply_by_rational_with_rounding($div as u128, a, b, rounding) {
					Some(x) => {
						if x > <$inner>::MAX as u128 {
							panic!("overflow in from_rational")
						}
						Self(x as $inner)
					}
					None => panic!("overflow in from_rational"),
				}
			}
			pub const fn const_checked_add(self, other: Self) -> Option<Self> {
				match self.0.checked_add(other.0) {
					Some(v) => Some(Self(v)),
					None => None,
				}
			}
			pub fn try_into_perthing<P: PerThing>(self) -> Result<P, P> {
				if self.0 < 0 {
					Err(P::zero())
				} else if self.0 > Self::DIV {
					Err(P::one())
				} else {
					Ok(P::from_rational(self.0 as u128, $div as u128))
				}
			}
			pub fn into_clamped_perthing<P: PerThing>(self) -> P {
				if self.0 < 0 {
					P::zero()
				} else {
					P::from_rational(self.0, $div)
				}
			}
		}
		impl Saturating for $name {
			fn saturating_add(self, rhs: Self) -> Self {
				Self(self.0.saturating_add(rhs.0))
			}
			fn saturating_sub(self, rhs: Self) -> Self {
				Self(self.0.saturating_sub(rhs.0))
			}
			fn saturating_mul(self, rhs: Self) -> Self {
				match self.checked_mul(&rhs) {
					Some(v) => v,
					None => Self(<$inner>::MAX),
				}
			}
			fn saturating_pow(self, exp: usize) -> Self {
				if exp == 0 {
					return <Self as FixedPointNumber>::saturating_from_integer(1 as $inner);
				}
				let exp = exp as u32;
				let msb_pos = 32 - exp.leading_zeros();
				let mut result = <Self as FixedPointNumber>::saturating_from_integer(1 as $inner);
				let mut pow_val = self;
				for i in 0..msb_pos {
					if ((1 << i) & exp) > 0 {
						result = result.saturating_mul(pow_val);
					}
					pow_val = pow_val.saturating_mul(pow_val);
				}
				result
			}
		}
		impl Add for $name {
			type Output = Self;
			fn add(self, rhs: Self) -> Self {
				Self(self.0 + rhs.0)
			}
		}
		impl Sub for $name {
			type Output = Self;
			fn sub(self, rhs: Self) -> Self {
				Self(self.0 - rhs.0)
			}
		}
		impl Mul for $name {
			type Output = Self;
			fn mul(self, rhs: Self) -> Self {
				match self.checked_mul(&rhs) {
					Some(v) => v,
					None => panic!("attempt to multiply with overflow"),
				}
			}
		}
		impl Div for $name {
			type Output = Self;
			fn div(self, rhs: Self) -> Self {
				if rhs.0 == 0 {
					panic!("attempt to divide by zero")
				}
				match self.checked_div(&rhs) {
					Some(v) => v,
					None => panic!("attempt to divide with overflow"),
				}
			}
		}
		impl CheckedSub for $name {
			fn checked_sub(&self, rhs: &Self) -> Option<Self> {
				self.0.checked_sub(rhs.0).map(Self)
			}
		}
		impl CheckedAdd for $name {
			fn checked_add(&self, rhs: &Self) -> Option<Self> {
				self.0.checked_add(rhs.0).map(Self)
			}
		}
		impl CheckedDiv for $name {
			fn checked_div(&self, other: &Self) -> Option<Self> {
				if other.0 == 0 {
					return None;
				}
				let v = multiply_by_rational_with_rounding(self.0 as u128, $div as u128, other.0 as u128, Rounding::Down)?;
				<$inner>::try_from(v).ok().map(Self)
			}
		}
		impl CheckedMul for $name {
			fn checked_mul(&self, other: &Self) -> Option<Self> {
				let v = multiply_by_rational_with_rounding(self.0 as u128, other.0 as u128, $div as u128, Rounding::Down)?;
				<$inner>::try_from(v).ok().map(Self)
			}
		}
		impl Bounded for $name {
			fn min_value() -> Self {
				Self(<$inner>::MIN)
			}
			fn max_value() -> Self {
				Self(<$inner>::MAX)
			}
		}
		impl Zero for $name {
			fn zero() -> Self {
				Self(0)
			}
			fn is_zero(&self) -> bool {
				self.0 == 0
			}
		}
		impl One for $name {
			fn one() -> Self {
				Self($div)
			}
		}
		impl core::fmt::Display for $name {
			fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
				write!(f, "{}", self.0)
			}
		}
		impl core::str::FromStr for $name {
			type Err = &'static str;
			fn from_str(s: &str) -> Result<Self, Self::Err> {
				let inner: $inner = s.parse().map_err(|_| "invalid string input for fixed point number")?;
				Ok(Self(inner))
			}
		}
	};
}
implement_fixed!(FixedU128, u128, 1_000_000_000_000_000_000u128);
implement_fixed!(FixedU64, u64, 1_000_000_000u64);
impl<P> PtArgMarker for P where P: PtArg {}
trait PtArgMarker {}
