//! Harness vocabulary. Everything in `rt` is intercepted by the symbolic engine; the bodies here are
//! what runs when a harness is executed natively (counterexample replay, translator validation).
pub mod native;
use primitive_types::{U256, U512};

pub mod rt {
	use super::native;
	pub struct Int(pub(crate) native::Big);
	#[inline(never)]
	pub fn raw_any(name: &'static str, idx: usize, bits: u32) -> u128 {
		native::input(name, idx, bits)
	}
	#[inline(never)]
	pub fn assume(b: bool) {
		if !b {
			native::assume_failed()
		}
	}
	#[inline(never)]
	pub fn check(b: bool, label: &'static str) {
		native::checked(b, label)
	}
	#[inline(never)]
	pub fn observe(name: &'static str, v: u128) {
		native::observed(name, v)
	}
	/// From here on a panic of the code under test ends the path quietly instead of being a violation.
	#[inline(never)]
	pub fn allow_panics(on: bool) {
		native::allow_panics(on)
	}
	#[inline(never)]
	pub fn int_from(v: u128) -> Int {
		Int(native::Big::from_u128(v))
	}
	#[inline(never)]
	pub fn int_from_i(v: i128) -> Int {
		Int(native::Big::from_i128(v))
	}
	#[inline(never)]
	pub fn int_from_u256(v: primitive_types::U256) -> Int {
		Int(native::Big::from_limbs(&v.0))
	}
	#[inline(never)]
	pub fn int_from_u512(v: primitive_types::U512) -> Int {
		Int(native::Big::from_limbs(&v.0))
	}
	#[inline(never)]
	pub fn int_add(a: &Int, b: &Int) -> Int {
		Int(a.0.add(&b.0))
	}
	#[inline(never)]
	pub fn int_sub(a: &Int, b: &Int) -> Int {
		Int(a.0.sub(&b.0))
	}
	#[inline(never)]
	pub fn int_mul(a: &Int, b: &Int) -> Int {
		Int(a.0.mul(&b.0))
	}
	/// floor(a / b), b > 0
	#[inline(never)]
	pub fn int_div(a: &Int, b: &Int) -> Int {
		Int(a.0.div_floor(&b.0))
	}
	#[inline(never)]
	pub fn int_clone(a: &Int) -> Int {
		Int(a.0.clone())
	}
	#[inline(never)]
	pub fn int_le(a: &Int, b: &Int) -> bool {
		a.0.cmp(&b.0) != core::cmp::Ordering::Greater
	}
	#[inline(never)]
	pub fn int_eq(a: &Int, b: &Int) -> bool {
		a.0.cmp(&b.0) == core::cmp::Ordering::Equal
	}
	/// True under the engine only. Guards proof steps, which have no effect on a native run.
	#[inline(never)]
	pub fn symbolic() -> bool {
		false
	}
	/// The k-th 256-bit value replaced by an arbitrary one where the engine cut a loop on this path.
	#[inline(never)]
	pub fn ghost(_k: usize) -> Int {
		unreachable!()
	}
	/// Facts the next proof step may use; they are themselves proved from the path condition.
	#[inline(never)]
	pub fn given(_b: bool) {}
	#[inline(never)]
	pub fn given_le(_a: &Int, _b: &Int) {}
	/// In the next proof step this term is an arbitrary value.
	#[inline(never)]
	pub fn hide(_t: &Int) {}
	/// The value as a balance; the run ends when it is none.
	#[inline(never)]
	pub fn amount(t: &Int) -> u128 {
		let v = t.0.to_u128();
		assume(v.is_some());
		v.unwrap()
	}
	/// A new name for a term.
	#[inline(never)]
	pub fn alias(t: &Int) -> Int {
		t.clone()
	}
	/// Proof step: `goal` follows from the given facts alone.
	#[inline(never)]
	pub fn qed(_goal: bool, _label: &'static str) {}
	/// Boolean connectives that do not fork the symbolic execution.
	#[inline(never)]
	pub fn implies(a: bool, b: bool) -> bool {
		!a | b
	}
	#[inline(never)]
	pub fn both(a: bool, b: bool) -> bool {
		a & b
	}
	#[inline(never)]
	pub fn either(a: bool, b: bool) -> bool {
		a | b
	}
	/// What the solver chose for a function of the harness that it treats as any function: 0 nothing, 1 no
	/// result, 2 a result, which `part` 1 gives.
	#[inline(never)]
	pub fn chosen(f: &'static str, part: u32, a: u128, b: u128, c: u128, d: u128) -> u128 {
		native::chosen(f, part, a, b, c, d)
	}
	#[inline(never)]
	pub fn ite(c: bool, a: u128, b: u128) -> u128 {
		if c {
			a
		} else {
			b
		}
	}
}
/// The choice of the solver for `f(a, b, c, d)`, if there is one.
pub fn choice(f: &'static str, a: u128, b: u128, c: u128, d: u128) -> Option<Option<u128>> {
	match rt::chosen(f, 0, a, b, c, d) {
		0 => None,
		1 => Some(None),
		_ => Some(Some(rt::chosen(f, 1, a, b, c, d))),
	}
}
pub use rt::{alias, amount, allow_panics, assume, ghost, given, given_le, hide, qed, symbolic, both, check, either, implies, ite, observe, Int};

pub trait Any: Sized {
	fn any_at(name: &'static str, idx: usize) -> Self;
}
macro_rules! impl_any { ($($t:ty: $b:expr),*) => { $( impl Any for $t {
	fn any_at(name: &'static str, idx: usize) -> Self { rt::raw_any(name, idx, $b) as $t }
} )* } }
impl_any!(u8: 8, u16: 16, u32: 32, u64: 64, u128: 128, usize: 64);
impl Any for bool {
	fn any_at(name: &'static str, idx: usize) -> Self {
		rt::raw_any(name, idx, 1) == 1
	}
}
impl<T: Any, const N: usize> Any for [T; N] {
	fn any_at(name: &'static str, idx: usize) -> Self {
		core::array::from_fn(|i| T::any_at(name, idx * N + i))
	}
}
pub const NOIDX: usize = usize::MAX;
pub fn any<T: Any>(name: &'static str) -> T {
	T::any_at(name, 0)
}
pub fn any_at<T: Any>(name: &'static str, idx: usize) -> T {
	T::any_at(name, idx)
}
/// An arbitrary value in `lo..=hi`.
pub fn within<T: Any + PartialOrd + Copy>(name: &'static str, lo: T, hi: T) -> T {
	let v = T::any_at(name, 0);
	assume(lo <= v);
	assume(v <= hi);
	v
}

macro_rules! from_u { ($($t:ty),*) => { $( impl From<$t> for Int { fn from(v: $t) -> Int { rt::int_from(v as u128) } } )* } }
from_u!(u8, u16, u32, u64, u128, usize);
macro_rules! from_i { ($($t:ty),*) => { $( impl From<$t> for Int { fn from(v: $t) -> Int { rt::int_from_i(v as i128) } } )* } }
from_i!(i8, i16, i32, i64, i128);
impl From<U256> for Int {
	fn from(v: U256) -> Int {
		rt::int_from_u256(v)
	}
}
impl From<U512> for Int {
	fn from(v: U512) -> Int {
		rt::int_from_u512(v)
	}
}
pub fn int<T: Into<Int>>(v: T) -> Int {
	v.into()
}
impl Clone for Int {
	fn clone(&self) -> Int {
		rt::int_clone(self)
	}
}
macro_rules! binop { ($tr:ident, $f:ident, $rt:ident) => {
	impl core::ops::$tr<Int> for Int { type Output = Int; fn $f(self, o: Int) -> Int { rt::$rt(&self, &o) } }
	impl<'a> core::ops::$tr<&'a Int> for Int { type Output = Int; fn $f(self, o: &'a Int) -> Int { rt::$rt(&self, o) } }
	impl<'a> core::ops::$tr<Int> for &'a Int { type Output = Int; fn $f(self, o: Int) -> Int { rt::$rt(self, &o) } }
	impl<'a, 'b> core::ops::$tr<&'b Int> for &'a Int { type Output = Int; fn $f(self, o: &'b Int) -> Int { rt::$rt(self, o) } }
	impl core::ops::$tr<i128> for Int { type Output = Int; fn $f(self, o: i128) -> Int { rt::$rt(&self, &rt::int_from_i(o)) } }
	impl<'a> core::ops::$tr<i128> for &'a Int { type Output = Int; fn $f(self, o: i128) -> Int { rt::$rt(self, &rt::int_from_i(o)) } }
} }
binop!(Add, add, int_add);
binop!(Sub, sub, int_sub);
binop!(Mul, mul, int_mul);
/// Division by a positive value, rounded down.
binop!(Div, div, int_div);
/// `q == floor(n / d)` for d > 0.
pub fn is_floor(q: Int, n: Int, d: Int) -> bool {
	both((&q * &d).le(&n), n.lt(&((q + 1) * d)))
}
/// `q` is `floor(n / d)` or at most `slack` above it.
pub fn is_floor_plus(q: Int, n: Int, d: Int, slack: i128) -> bool {
	both(((&q - slack) * &d).le(&n), n.lt(&((q + 1) * d)))
}
/// `q` is at least `n / d` and at most one above it (rounded up, or the quotient plus one).
pub fn is_ceil(q: Int, n: Int, d: Int) -> bool {
	both(n.le(&(&q * &d)), (&q * &d).le(&(n + d)))
}
/// `lo <= v <= hi`
pub fn between(lo: Int, v: Int, hi: Int) -> bool {
	both(lo.le(&v), v.le(&hi))
}
pub fn max128() -> Int {
	int(u128::MAX)
}

impl Int {
	pub fn le(&self, o: &Int) -> bool {
		rt::int_le(self, o)
	}
	pub fn lt(&self, o: &Int) -> bool {
		!rt::int_le(o, self)
	}
	pub fn ge(&self, o: &Int) -> bool {
		rt::int_le(o, self)
	}
	pub fn gt(&self, o: &Int) -> bool {
		!rt::int_le(self, o)
	}
	pub fn eq(&self, o: &Int) -> bool {
		rt::int_eq(self, o)
	}
}
/// Operators; none of them forks.
impl PartialEq for Int {
	fn eq(&self, o: &Int) -> bool {
		rt::int_eq(self, o)
	}
	fn ne(&self, o: &Int) -> bool {
		!rt::int_eq(self, o)
	}
}
impl PartialOrd for Int {
	fn partial_cmp(&self, _: &Int) -> Option<core::cmp::Ordering> {
		unimplemented!()
	}
	fn le(&self, o: &Int) -> bool {
		rt::int_le(self, o)
	}
	fn lt(&self, o: &Int) -> bool {
		!rt::int_le(o, self)
	}
	fn ge(&self, o: &Int) -> bool {
		rt::int_le(o, self)
	}
	fn gt(&self, o: &Int) -> bool {
		!rt::int_le(self, o)
	}
}
