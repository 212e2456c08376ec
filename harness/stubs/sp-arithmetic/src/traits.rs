pub use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Rem, RemAssign, Shl, Shr, Sub, SubAssign};
pub use num_traits::{
	checked_pow, Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub, One,
	Signed, Unsigned, Zero,
};
use crate::ArithmeticError;

pub trait Saturating {
	fn saturating_add(self, rhs: Self) -> Self;
	fn saturating_sub(self, rhs: Self) -> Self;
	fn saturating_mul(self, rhs: Self) -> Self;
	fn saturating_pow(self, exp: usize) -> Self;
	fn saturating_less_one(self) -> Self
	where
		Self: One + Sized,
	{
		self.saturating_sub(One::one())
	}
	fn saturating_plus_one(self) -> Self
	where
		Self: One + Sized,
	{
		self.saturating_add(One::one())
	}
	fn saturating_inc(&mut self)
	where
		Self: One + Copy,
	{
		*self = (*self).saturating_add(One::one());
	}
	fn saturating_dec(&mut self)
	where
		Self: One + Copy,
	{
		*self = (*self).saturating_sub(One::one());
	}
	fn saturating_accrue(&mut self, amount: Self)
	where
		Self: One + Copy,
	{
		*self = (*self).saturating_add(amount);
	}
	fn saturating_reduce(&mut self, amount: Self)
	where
		Self: One + Copy,
	{
		*self = (*self).saturating_sub(amount);
	}
}

pub trait UniqueSaturatedFrom<T>: Sized {
	fn unique_saturated_from(t: T) -> Self;
}
pub trait UniqueSaturatedInto<T>: Sized {
	fn unique_saturated_into(self) -> T;
}
impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
	fn unique_saturated_from(t: T) -> Self {
		S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
	}
}
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
	fn unique_saturated_into(self) -> T {
		self.try_into().unwrap_or_else(|_| Bounded::max_value())
	}
}
pub trait SaturatedConversion {
	fn saturated_from<T>(t: T) -> Self
	where
		Self: UniqueSaturatedFrom<T>,
	{
		<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
	}
	fn saturated_into<T>(self) -> T
	where
		Self: UniqueSaturatedInto<T>,
		Self: Sized,
	{
		<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
	}
}
impl<T: Sized> SaturatedConversion for T {}

macro_rules! impl_sat {
	($($t:ty),*) => { $(
		impl Saturating for $t {
			fn saturating_add(self, rhs: Self) -> Self { <$t>::saturating_add(self, rhs) }
			fn saturating_sub(self, rhs: Self) -> Self { <$t>::saturating_sub(self, rhs) }
			fn saturating_mul(self, rhs: Self) -> Self { <$t>::saturating_mul(self, rhs) }
			fn saturating_pow(self, exp: usize) -> Self { <$t>::saturating_pow(self, exp as u32) }
		}
	)* }
}
impl_sat!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);

pub trait CheckedConversion {
	fn checked_from<T>(t: T) -> Option<Self>
	where
		Self: TryFrom<T>,
	{
		<Self as TryFrom<T>>::try_from(t).ok()
	}
	fn checked_into<T>(self) -> Option<T>
	where
		Self: TryInto<T>,
	{
		<Self as TryInto<T>>::try_into(self).ok()
	}
}
impl<T: Sized> CheckedConversion for T {}

pub trait Scale<Other> {
	type Output;
	fn mul(self, other: Other) -> Self::Output;
	fn div(self, other: Other) -> Self::Output;
	fn rem(self, other: Other) -> Self::Output;
}

pub trait BaseArithmetic:
	From<u8> + Zero + One + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self>
	+ Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self>
	+ CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Saturating + PartialOrd<Self> + Ord + Bounded + Sized + Clone
	+ TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64>
	+ TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
	+ UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16>
	+ UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64>
	+ UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<usize> + UniqueSaturatedInto<usize>
{
}
impl<T> BaseArithmetic for T where
	T: From<u8> + Zero + One + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self>
		+ Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self>
		+ CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Saturating + PartialOrd<Self> + Ord + Bounded + Sized + Clone
		+ TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64>
		+ TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
		+ UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16>
		+ UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64>
		+ UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<usize> + UniqueSaturatedInto<usize>
{
}
pub trait AtLeast8Bit: BaseArithmetic {}
impl<T: BaseArithmetic> AtLeast8Bit for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned + crate::per_things::PtArg {}
impl<T: AtLeast32Bit + Unsigned + crate::per_things::PtArg> AtLeast32BitUnsigned for T {}

macro_rules! ensure_op {
	($tr:ident, $f:ident, $bound:ident, $chk:ident, $err:expr) => {
		pub trait $tr: $bound + PartialOrd + Sized {
			fn $f(self, v: Self) -> Result<Self, ArithmeticError> {
				self.$chk(&v).ok_or_else(|| $err)
			}
		}
		impl<T: $bound + PartialOrd + Sized> $tr for T {}
	};
}
ensure_op!(EnsureAdd, ensure_add, CheckedAdd, checked_add, ArithmeticError::Overflow);
ensure_op!(EnsureSub, ensure_sub, CheckedSub, checked_sub, ArithmeticError::Underflow);
ensure_op!(EnsureMul, ensure_mul, CheckedMul, checked_mul, ArithmeticError::Overflow);
ensure_op!(EnsureDiv, ensure_div, CheckedDiv, checked_div, ArithmeticError::DivisionByZero);
