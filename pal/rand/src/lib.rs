//! Offline stand-in for `rand`: random values are any values.
pub trait SeedableRng: Sized {
	fn seed_from_u64(s: u64) -> Self;
}
pub mod rngs {
	pub struct StdRng {
		pub(crate) at: usize,
	}
}
impl SeedableRng for rngs::StdRng {
	fn seed_from_u64(s: u64) -> Self {
		rngs::StdRng { at: (s as usize).wrapping_mul(100) }
	}
}
pub trait Drawn: symx::Any + PartialOrd + Copy {}
impl Drawn for u8 {}
impl Drawn for u16 {}
impl Drawn for u32 {}
impl Drawn for u64 {}
impl Drawn for u128 {}
pub trait Rng {
	fn gen<T: Drawn>(&mut self) -> T;
	fn gen_range<T: Drawn>(&mut self, r: core::ops::RangeInclusive<T>) -> T {
		let v: T = self.gen();
		symx::assume(*r.start() <= v);
		symx::assume(v <= *r.end());
		v
	}
}
impl Rng for rngs::StdRng {
	fn gen<T: Drawn>(&mut self) -> T {
		let v = symx::any_at("random", self.at);
		self.at += 1;
		v
	}
}
