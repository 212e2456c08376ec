//! Offline stand-in for `frame-support`: pallets compile against it unchanged. Storage is a table of
//! association lists (see `storage`), dispatch results and traits are as in FRAME.
#![allow(clippy::all)]
pub use frame_support_procedural::{pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, EqNoBound, PalletError, PartialEqNoBound, RuntimeDebugNoBound};
pub use sp_core::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec};
pub use sp_runtime;
pub use storage::{StorageDoubleMap, StorageMap, StorageValue};
pub mod rt;
pub mod storage;
pub mod traits;
pub mod weights;

/// Uninhabited.
#[derive(Clone, PartialEq, Eq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo)]
pub enum Never {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo)]
pub struct PalletId(pub [u8; 8]);

#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {{
		if !$x {
			return Err($y.into());
		}
	}};
}
#[macro_export]
macro_rules! fail {
	($y:expr) => {{
		return Err($y.into());
	}};
}
#[macro_export]
macro_rules! defensive {
	($($t:tt)*) => {
		debug_assert!(false);
	};
}
#[macro_export]
macro_rules! assert_ok {
	($x:expr) => { assert!($x.is_ok()) };
	($x:expr, $y:expr) => { assert_eq!($x, Ok($y)) };
}
#[macro_export]
macro_rules! parameter_types {
	($(#[$m:meta])* $vis:vis const $n:ident : $t:ty = $v:expr; $($rest:tt)*) => {
		$vis struct $n;
		impl $n { pub const fn get() -> $t { $v } }
		impl<X: From<$t>> $crate::traits::Get<X> for $n { fn get() -> X { X::from($v) } }
		$crate::parameter_types!($($rest)*);
	};
	() => {};
}

pub mod dispatch {
	pub use crate::weights::Weight;
	pub use sp_runtime::{DispatchError, DispatchErrorWithPostInfo as RtDispatchErrorWithPostInfo, DispatchResult};
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
	pub enum Pays {
		#[default]
		Yes,
		No,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
	pub struct PostDispatchInfo {
		pub actual_weight: Option<Weight>,
		pub pays_fee: Pays,
	}
	impl From<()> for PostDispatchInfo {
		fn from(_: ()) -> Self {
			Self::default()
		}
	}
	impl From<Pays> for PostDispatchInfo {
		fn from(p: Pays) -> Self {
			Self { actual_weight: None, pays_fee: p }
		}
	}
	impl From<Option<Weight>> for PostDispatchInfo {
		fn from(w: Option<Weight>) -> Self {
			Self { actual_weight: w, pays_fee: Pays::Yes }
		}
	}
	pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;
	pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo>;
	pub trait Parameter: codec::Codec + codec::EncodeLike + Clone + Eq + core::fmt::Debug + scale_info::TypeInfo + 'static {}
	impl<T: codec::Codec + codec::EncodeLike + Clone + Eq + core::fmt::Debug + scale_info::TypeInfo + 'static> Parameter for T {}
}
pub use dispatch::Parameter;

pub struct Blake2_128Concat;
pub struct Twox64Concat;
pub struct Identity;
pub struct Blake2_256;
pub struct Twox128;

pub mod pallet_prelude {
	pub use crate::dispatch::{DispatchError, DispatchErrorWithPostInfo, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays};
	pub use crate::storage::{
		CountedStorageMap, Key as NMapKey, OptionQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery,
	};
	pub use crate::traits::{BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, Hooks, IsType, StorageVersion};
	pub use crate::weights::Weight;
	pub use crate::{defensive, ensure, Blake2_128Concat, Identity, Twox64Concat};
	pub use codec::{Decode, Encode, MaxEncodedLen};
	pub use core::marker::PhantomData;
	pub use frame_support_procedural::{require_transactional, transactional, CloneNoBound, DebugNoBound, EqNoBound, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound};
	pub use scale_info::TypeInfo;
	pub use sp_core::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec};
	pub use sp_runtime::traits::{MaybeSerializeDeserialize, Member};
}

impl<A: sp_runtime::traits::AccountOfPallet> sp_runtime::traits::AccountIdConversion<A> for PalletId {
	fn into_sub_account_truncating<S: codec::Encode>(&self, sub: S) -> A {
		sub.using_encoded(|b| A::of_pallet(self.0, b.to_vec()))
	}
}
