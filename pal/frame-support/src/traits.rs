use crate::weights::Weight;
use sp_runtime::{DispatchError, DispatchResult};
pub use sp_core::{ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TypedGet};

pub trait PalletError {}
pub type LockIdentifier = [u8; 8];

pub trait IsType<T>: Into<T> + From<T> {}
impl<T> IsType<T> for T {}

pub trait Hooks<B> {
	fn on_initialize(_n: B) -> Weight {
		Weight::zero()
	}
	fn on_finalize(_n: B) {}
	fn on_idle(_n: B, _w: Weight) -> Weight {
		Weight::zero()
	}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn offchain_worker(_n: B) {}
	fn integrity_test() {}
}
pub trait BuildGenesisConfig: Default {
	fn build(&self);
}
pub trait EnsureOrigin<O> {
	type Success;
	fn ensure_origin(o: O) -> Result<Self::Success, sp_runtime::traits::BadOrigin> {
		Self::try_origin(o).map_err(|_| sp_runtime::traits::BadOrigin)
	}
	fn try_origin(o: O) -> Result<Self::Success, O>;
}
pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub struct Everything;
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
pub struct Nothing;
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(v: u16) -> Self {
		Self(v)
	}
	pub fn get<P: PalletInfoAccess>() -> Self {
		panic!("versions of pallets are not modelled")
	}
	/// Versions of pallets are not modelled.
	pub fn put<P: PalletInfoAccess>(&self) {}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<core::cmp::Ordering> {
		self.0.partial_cmp(o)
	}
}
pub trait GetStorageVersion {
	fn on_chain_storage_version() -> StorageVersion;
}
pub trait PalletInfoAccess {
	fn name() -> &'static str {
		"Pallet"
	}
}
/// The names of a call.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct CallMetadata {
	pub function_name: &'static str,
	pub pallet_name: &'static str,
}
pub trait GetCallMetadata {
	fn get_call_metadata(&self) -> CallMetadata;
}
pub trait Defensive<T> {
	fn defensive(self) -> Self;
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive(self) -> Self {
		debug_assert!(self.is_some());
		self
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		debug_assert!(self.is_some());
		self.unwrap_or_default()
	}
}
impl<T, E> Defensive<T> for Result<T, E> {
	fn defensive(self) -> Self {
		debug_assert!(self.is_ok());
		self
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		debug_assert!(self.is_ok());
		self.unwrap_or_default()
	}
}
pub trait DefensiveOption<T> {
	fn defensive_ok_or<E>(self, e: E) -> Result<T, E>;
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> Result<T, E>;
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_ok_or<E>(self, e: E) -> Result<T, E> {
		debug_assert!(self.is_some());
		self.ok_or(e)
	}
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> Result<T, E> {
		debug_assert!(self.is_some());
		self.ok_or_else(f)
	}
}
pub trait Time {
	type Moment: sp_runtime::traits::AtLeast32BitUnsigned + codec::FullCodec + Clone + scale_info::TypeInfo + codec::MaxEncodedLen;
	fn now() -> Self::Moment;
}
pub trait Len {
	fn len(&self) -> usize;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
pub trait OnUnbalanced<I> {
	fn on_unbalanced(_a: I) {}
}
pub mod tokens {
	pub use super::fungibles;
	pub trait AssetId: codec::FullCodec + Clone + Eq + PartialEq + core::fmt::Debug + scale_info::TypeInfo + codec::MaxEncodedLen {}
	impl<T: codec::FullCodec + Clone + Eq + PartialEq + core::fmt::Debug + scale_info::TypeInfo + codec::MaxEncodedLen> AssetId for T {}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Preservation {
		Expendable,
		Protect,
		Preserve,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Fortitude {
		Polite,
		Force,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Precision {
		Exact,
		BestEffort,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Provenance {
		Minted,
		Extant,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum BalanceStatus {
		Free,
		Reserved,
	}
	pub mod nonfungibles {
		use sp_runtime::DispatchResult;
		pub trait Inspect<A> {
			type ItemId;
			type CollectionId;
			fn owner(c: &Self::CollectionId, i: &Self::ItemId) -> Option<A>;
			fn collection_owner(_c: &Self::CollectionId) -> Option<A> {
				None
			}
			fn can_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> bool {
				true
			}
		}
		pub trait Create<A>: Inspect<A> {
			fn create_collection(c: &Self::CollectionId, who: &A, admin: &A) -> DispatchResult;
		}
		pub trait Mutate<A>: Inspect<A> {
			fn mint_into(_c: &Self::CollectionId, _i: &Self::ItemId, _who: &A) -> DispatchResult {
				Err(sp_runtime::TokenError::Unsupported.into())
			}
			fn burn(_c: &Self::CollectionId, _i: &Self::ItemId, _who: Option<&A>) -> DispatchResult {
				Err(sp_runtime::TokenError::Unsupported.into())
			}
		}
		pub trait InspectEnumerable<A>: Inspect<A> {
			type OwnedInCollectionIterator: Iterator<Item = Self::ItemId>;
			fn owned_in_collection(c: &Self::CollectionId, who: &A) -> Self::OwnedInCollectionIterator;
		}
		pub trait Transfer<A>: Inspect<A> {
			fn transfer(c: &Self::CollectionId, i: &Self::ItemId, dest: &A) -> DispatchResult;
		}
	}
}
pub use tokens::nonfungibles;
pub mod fungibles {
	use super::tokens::{Fortitude, Preservation};
	use sp_runtime::DispatchError;
	pub trait Inspect<A> {
		type AssetId: crate::Parameter + Copy + codec::MaxEncodedLen;
		type Balance: crate::Parameter + Copy + codec::MaxEncodedLen;
		fn total_issuance(a: Self::AssetId) -> Self::Balance;
		fn minimum_balance(a: Self::AssetId) -> Self::Balance;
		fn balance(a: Self::AssetId, who: &A) -> Self::Balance;
		fn total_balance(a: Self::AssetId, who: &A) -> Self::Balance {
			Self::balance(a, who)
		}
		fn reducible_balance(a: Self::AssetId, who: &A, p: Preservation, f: Fortitude) -> Self::Balance;
	}
	pub trait Mutate<A>: Inspect<A> {
		fn mint_into(a: Self::AssetId, who: &A, v: Self::Balance) -> Result<Self::Balance, DispatchError>;
		fn transfer(a: Self::AssetId, s: &A, d: &A, v: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError>;
	}
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
}
pub fn _unused(_: DispatchError) -> DispatchResult {
	Ok(())
}
