//! Offline stand-in for `sp-core`: numbers, bounded collections, `Get`.
#![allow(clippy::all)]
pub use codec::{Decode, Encode, MaxEncodedLen};
pub use frame_support_procedural::RuntimeDebug;
pub use primitive_types::{H160, H256, U256, U512};
pub mod bounded;
pub use bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec};
pub use bounded as bounded_vec;

pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
macro_rules! consts { ($($n:ident $t:ty),*) => { $(
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
	pub struct $n<const N: $t>;
	impl<const N: $t> Get<$t> for $n<N> { fn get() -> $t { N } }
	impl<const N: $t> Get<Option<$t>> for $n<N> { fn get() -> Option<$t> { Some(N) } }
	impl<const N: $t> TypedGet for $n<N> { type Type = $t; fn get() -> $t { N } }
)* } }
consts!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI128 i128);

pub mod crypto {
	#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo)]
	pub struct AccountId32([u8; 32]);
	impl AccountId32 {
		pub const fn new(v: [u8; 32]) -> Self {
			Self(v)
		}
	}
	impl From<[u8; 32]> for AccountId32 {
		fn from(v: [u8; 32]) -> Self {
			Self(v)
		}
	}
	impl AsRef<[u8]> for AccountId32 {
		fn as_ref(&self) -> &[u8] {
			&self.0
		}
	}
	impl AsRef<[u8; 32]> for AccountId32 {
		fn as_ref(&self) -> &[u8; 32] {
			&self.0
		}
	}
	impl From<AccountId32> for [u8; 32] {
		fn from(v: AccountId32) -> Self {
			v.0
		}
	}
}
