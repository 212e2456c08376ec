pub mod constants {
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub struct RocksDbWeight;
	impl RocksDbWeight {
		pub const fn get() -> super::RuntimeDbWeight {
			super::RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
		}
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo)]
pub struct Weight {
	ref_time: u64,
	proof_size: u64,
}
impl Weight {
	pub const fn is_zero(&self) -> bool {
		self.ref_time == 0 && self.proof_size == 0
	}
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Self { ref_time, proof_size }
	}
	pub const fn zero() -> Self {
		Self::from_parts(0, 0)
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Self::from_parts(self.ref_time.saturating_add(o.ref_time), self.proof_size.saturating_add(o.proof_size))
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Self::from_parts(self.ref_time.saturating_sub(o.ref_time), self.proof_size.saturating_sub(o.proof_size))
	}
	pub const fn saturating_mul(self, k: u64) -> Self {
		Self::from_parts(self.ref_time.saturating_mul(k), self.proof_size.saturating_mul(k))
	}
	pub const fn saturating_div(self, k: u64) -> Self {
		Self::from_parts(if k == 0 { u64::MAX } else { self.ref_time / k }, if k == 0 { u64::MAX } else { self.proof_size / k })
	}
	pub fn min(self, o: Self) -> Self {
		Self::from_parts(self.ref_time.min(o.ref_time), self.proof_size.min(o.proof_size))
	}
	pub fn saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o);
	}
	pub const fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
}
impl core::ops::Add for Weight {
	type Output = Weight;
	fn add(self, o: Weight) -> Weight {
		Weight::from_parts(self.ref_time + o.ref_time, self.proof_size + o.proof_size)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub const fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub const fn writes(self, w: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(w), 0)
	}
	pub const fn reads_writes(self, r: u64, w: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0)
	}
}
pub trait WeightToFee {
	type Balance;
	fn weight_to_fee(w: &Weight) -> Self::Balance;
}
