use crate::helpers_128bit::multiply_by_rational_with_rounding;
use crate::traits::*;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefDown,
	NearestPrefUp,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum SignedRounding {
	High,
	Low,
	NearestPrefHigh,
	NearestPrefLow,
	Major,
	Minor,
	NearestPrefMajor,
	NearestPrefMinor,
}

pub type InnerOf<P> = <P as PerThing>::Inner;
pub type UpperOf<P> = <P as PerThing>::Upper;

/// Integer types a per-thing can be multiplied with or built from.
pub trait PtArg: Copy + PartialOrd + Zero {
	fn to_u128(self) -> u128;
	fn from_u128(v: u128) -> Self;
}
macro_rules! impl_ptarg { ($($t:ty),*) => { $(
	impl PtArg for $t {
		fn to_u128(self) -> u128 { self as u128 }
		fn from_u128(v: u128) -> Self { v as $t }
	}
)* } }
impl_ptarg!(u8, u16, u32, u64, u128, usize);

pub trait PerThing:
	Sized + Saturating + Copy + Default + Eq + PartialEq + Ord + PartialOrd + Bounded + core::fmt::Debug + CheckedAdd + CheckedSub
{
	type Inner: BaseArithmetic + Unsigned + Copy + Into<u128> + core::fmt::Debug + PtArg;
	type Upper: BaseArithmetic + Copy + From<Self::Inner> + Unsigned + core::fmt::Debug;
	const ACCURACY: Self::Inner;
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(parts: Self::Inner) -> Self;
	fn zero() -> Self {
		Self::from_parts(<Self::Inner as Zero>::zero())
	}
	fn is_zero(&self) -> bool {
		self.deconstruct() == <Self::Inner as Zero>::zero()
	}
	fn one() -> Self {
		Self::from_parts(Self::ACCURACY)
	}
	fn is_one(&self) -> bool {
		self.deconstruct() == Self::ACCURACY
	}
	fn from_rational<N: PtArg>(p: N, q: N) -> Self {
		Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or_else(|_| Self::one())
	}
	fn from_rational_with_rounding<N: PtArg>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
		let (p, q) = (p.to_u128(), q.to_u128());
		if q == 0 || p > q {
			return Err(());
		}
		let acc: u128 = Self::ACCURACY.into();
		let v = multiply_by_rational_with_rounding(acc, p, q, r).ok_or(())?;
		Ok(Self::from_parts(Self::Inner::from_u128(v)))
	}
	fn mul_floor<N: PtArg>(self, b: N) -> N {
		let acc: u128 = Self::ACCURACY.into();
		let d: u128 = self.deconstruct().into();
		N::from_u128(multiply_by_rational_with_rounding(b.to_u128(), d, acc, Rounding::Down).expect("part <= accuracy"))
	}
	fn mul_ceil<N: PtArg>(self, b: N) -> N {
		let acc: u128 = Self::ACCURACY.into();
		let d: u128 = self.deconstruct().into();
		N::from_u128(multiply_by_rational_with_rounding(b.to_u128(), d, acc, Rounding::Up).expect("part <= accuracy"))
	}
	fn left_from_one(self) -> Self {
		Self::one().saturating_sub(self)
	}
}

macro_rules! implement_per_thing {
	($name:ident, $inner:ty, $upper:ty, $max:expr, $($derive:tt)*) => {
		#[derive(
			codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo, serde::Serialize, serde::Deserialize,
			Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default,
		)]
		$($derive)*
		pub struct $name($inner);
		impl PerThing for $name {
			type Inner = $inner;
			type Upper = $upper;
			const ACCURACY: $inner = $max;
			fn deconstruct(self) -> $inner { self.0 }
			fn from_parts(parts: $inner) -> Self { Self(if parts > $max { $max } else { parts }) }
		}
		impl $name {
			pub const fn from_parts(parts: $inner) -> Self { Self(if parts > $max { $max } else { parts }) }
			pub const fn from_percent(x: $inner) -> Self {
				Self((if x > 100 { 100 } else { x } as $upper * ($max as $upper) / 100) as $inner)
			}
			pub const fn from_perthousand(x: $inner) -> Self {
				Self((if x as u128 > 1000 { 1000u128 } else { x as u128 } * ($max as u128) / 1000) as $inner)
			}
			pub const fn one() -> Self { Self($max) }
			pub const fn zero() -> Self { Self(0) }
			pub const fn deconstruct(self) -> $inner { self.0 }
			pub const fn is_one(&self) -> bool { self.0 == $max }
			pub const fn is_zero(&self) -> bool { self.0 == 0 }
			pub fn from_rational<N: PtArg>(p: N, q: N) -> Self { <Self as PerThing>::from_rational(p, q) }
			pub fn mul_floor<N: PtArg>(self, b: N) -> N { <Self as PerThing>::mul_floor(self, b) }
			pub fn mul_ceil<N: PtArg>(self, b: N) -> N { <Self as PerThing>::mul_ceil(self, b) }
			pub fn from_float(x: f64) -> Self { Self((x.max(0.).min(1.) * $max as f64) as $inner) }
			pub fn int_mul(self, b: $inner) -> Self { PerThing::from_parts(self.0.saturating_mul(b)) }
		}
		impl Bounded for $name {
			fn min_value() -> Self { Self(0) }
			fn max_value() -> Self { Self($max) }
		}
		impl Saturating for $name {
			fn saturating_add(self, rhs: Self) -> Self { PerThing::from_parts(self.0.saturating_add(rhs.0)) }
			fn saturating_sub(self, rhs: Self) -> Self { Self(self.0.saturating_sub(rhs.0)) }
			fn saturating_mul(self, rhs: Self) -> Self { self * rhs }
			fn saturating_pow(self, exp: usize) -> Self {
				let mut r = Self::one();
				for _ in 0..exp { r = r * self; }
				r
			}
		}
		impl CheckedAdd for $name {
			fn checked_add(&self, rhs: &Self) -> Option<Self> {
				let s = self.0.checked_add(rhs.0)?;
				if s <= $max { Some(Self(s)) } else { None }
			}
		}
		impl CheckedSub for $name {
			fn checked_sub(&self, rhs: &Self) -> Option<Self> { self.0.checked_sub(rhs.0).map(Self) }
		}
		impl Add for $name {
			type Output = Self;
			fn add(self, rhs: Self) -> Self {
				let inner = self.0.checked_add(rhs.0).unwrap_or(<$inner>::MAX);
				debug_assert!(inner <= $max);
				Self(inner)
			}
		}
		impl Sub for $name {
			type Output = Self;
			fn sub(self, rhs: Self) -> Self { Self(self.0 - rhs.0) }
		}
		impl Mul for $name {
			type Output = Self;
			fn mul(self, rhs: Self) -> Self {
				let p = (self.0 as u128) * (rhs.0 as u128) / ($max as u128);
				Self(p as $inner)
			}
		}
		impl Div for $name {
			type Output = Self;
			fn div(self, rhs: Self) -> Self { <Self as PerThing>::from_rational(self.0, rhs.0) }
		}
		impl Zero for $name {
			fn zero() -> Self { Self(0) }
			fn is_zero(&self) -> bool { self.0 == 0 }
		}
		impl<N: PtArg> Mul<N> for $name {
			type Output = N;
			fn mul(self, b: N) -> N {
				N::from_u128(
					multiply_by_rational_with_rounding(b.to_u128(), self.0 as u128, $max as u128, Rounding::NearestPrefDown)
						.expect("part <= accuracy"),
				)
			}
		}
	};
}
implement_per_thing!(Permill, u32, u64, 1_000_000u32,);
implement_per_thing!(Perbill, u32, u64, 1_000_000_000u32,);
implement_per_thing!(Perquintill, u64, u128, 1_000_000_000_000_000_000u64,);
implement_per_thing!(Percent, u8, u16, 100u8,);
implement_per_thing!(PerU16, u16, u32, 65535u16,);
