//! Offline stand-in for `frame-system`: origins, block number, configuration.
#![allow(clippy::all)]
use frame_support::pallet_prelude::*;
use frame_support::traits::EnsureOrigin;
use sp_runtime::traits::{AtLeast32BitUnsigned, BadOrigin, BlockNumberProvider};

#[derive(PartialEq, Eq, Clone, Debug)]
pub enum RawOrigin<A> {
	Root,
	Signed(A),
	None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
	fn from(s: Option<A>) -> Self {
		match s {
			Some(w) => RawOrigin::Signed(w),
			None => RawOrigin::None,
		}
	}
}
pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

pub trait Config: 'static + Eq + Clone {
	type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone;
	type RuntimeEvent: Parameter + Member;
	type RuntimeCall;
	type AccountId: Parameter + Member + MaybeSerializeDeserialize + Ord + MaxEncodedLen + sp_runtime::traits::AccountOfPallet;
	type Nonce: Parameter + Member + Copy + AtLeast32BitUnsigned;
	type Hash: Parameter + Member + Copy + Default + Ord + MaxEncodedLen + AsRef<[u8]>;
	type BlockNumber: Parameter + Member + MaybeSerializeDeserialize + AtLeast32BitUnsigned + Copy + Default + MaxEncodedLen + Bounded;
	type Lookup: sp_runtime::traits::StaticLookup<Target = Self::AccountId>;
	type DbWeight: Get<frame_support::weights::RuntimeDbWeight>;
	type BlockWeights: Get<limits::BlockWeights>;
	fn block_number() -> Self::BlockNumber;
}
use sp_runtime::traits::Bounded;

pub struct Pallet<T>(core::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
	pub fn block_number() -> T::BlockNumber {
		T::block_number()
	}
	pub fn deposit_event(_e: impl Into<T::RuntimeEvent>) {}
	pub fn parent_hash() -> T::Hash {
		T::Hash::default()
	}
	pub fn providers(_who: &T::AccountId) -> u32 {
		1
	}
	pub fn inc_providers(_who: &T::AccountId) {}
	pub fn dec_providers(_who: &T::AccountId) -> Result<(), sp_runtime::DispatchError> {
		Ok(())
	}
	pub fn inc_consumers(_who: &T::AccountId) -> Result<(), sp_runtime::DispatchError> {
		Ok(())
	}
	pub fn dec_consumers(_who: &T::AccountId) {}
	pub fn inc_sufficients(_who: &T::AccountId) {}
	pub fn dec_sufficients(_who: &T::AccountId) {}
}
impl<T: Config> BlockNumberProvider for Pallet<T> {
	type BlockNumber = T::BlockNumber;
	fn current_block_number() -> T::BlockNumber {
		T::block_number()
	}
}

pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Signed(w)) => Ok(w),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(w)) => Ok(Some(w)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub struct EnsureRoot<A>(core::marker::PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureSigned<A>(core::marker::PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(a) => Ok(a),
			r => Err(O::from(r)),
		})
	}
}

pub mod pallet_prelude {
	pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
	pub type BlockNumberFor<T> = <T as crate::Config>::BlockNumber;
}
pub use pallet_prelude::*;
pub mod offchain {
	pub trait SendTransactionTypes<C> {}
}
pub mod limits {
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct BlockWeights {
		pub max_block: frame_support::weights::Weight,
	}
}
