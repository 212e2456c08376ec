//! Offline stand-in for `sp-arithmetic` 23.0.0 (polkadot-sdk release v1.7.2).
//! Only the parts HydraDX uses. The observable arithmetic (rounding, saturation, panics) follows
//! the original; the implementation is over `U256` so that it is short and exact.
#![allow(clippy::all)]

pub mod traits;
pub mod helpers_128bit;
pub mod per_things;
pub mod fixed_point;
pub mod rational;

pub use fixed_point::{FixedPointNumber, FixedPointOperand, FixedU128, FixedU64};
pub use per_things::{InnerOf, PerThing, Perbill, Percent, Permill, Perquintill, PerU16, Rounding, SignedRounding, UpperOf};
pub use rational::{MultiplyRational, Rational128};

#[derive(Eq, PartialEq, Clone, Copy, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
impl From<ArithmeticError> for &'static str {
	fn from(e: ArithmeticError) -> &'static str {
		match e {
			ArithmeticError::Underflow => "An underflow would occur",
			ArithmeticError::Overflow => "An overflow would occur",
			ArithmeticError::DivisionByZero => "Division by zero",
		}
	}
}
