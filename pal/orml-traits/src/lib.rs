//! Offline stand-in for `orml-traits`.
#![allow(clippy::all)]
use codec::FullCodec;
use sp_runtime::traits::{AtLeast32BitUnsigned, MaybeSerializeDeserialize};
use sp_runtime::{DispatchError, DispatchResult};
pub use frame_support::traits::tokens::BalanceStatus;
pub type LockIdentifier = [u8; 8];
pub mod arithmetic {
	pub use sp_runtime::traits::{CheckedAdd, CheckedSub, Saturating, Zero};
	pub use num_traits::Signed;
	pub trait SimpleArithmetic {}
	impl<T: Copy + PartialOrd + Sized> SimpleArithmetic for T {}
}
pub mod currency {
	pub use super::*;
	pub trait OnDust<A, C, B> {
		fn on_dust(who: &A, currency_id: C, amount: B);
	}
	pub trait MutationHooks<A, C, B> {}
}
pub trait GetByKey<K, V> {
	fn get(k: &K) -> V;
}
pub trait Happened<T> {
	fn happened(t: &T);
}
impl<T> Happened<T> for () {
	fn happened(_: &T) {}
}
pub trait MultiCurrency<A> {
	type CurrencyId: FullCodec + Eq + PartialEq + Copy + MaybeSerializeDeserialize + core::fmt::Debug + scale_info_bound::TypeInfo + codec::MaxEncodedLen;
	type Balance: AtLeast32BitUnsigned + FullCodec + Copy + MaybeSerializeDeserialize + core::fmt::Debug + Default + scale_info_bound::TypeInfo + codec::MaxEncodedLen;
	fn minimum_balance(c: Self::CurrencyId) -> Self::Balance;
	fn total_issuance(c: Self::CurrencyId) -> Self::Balance;
	fn total_balance(c: Self::CurrencyId, who: &A) -> Self::Balance;
	fn free_balance(c: Self::CurrencyId, who: &A) -> Self::Balance;
	fn ensure_can_withdraw(c: Self::CurrencyId, who: &A, v: Self::Balance) -> DispatchResult;
	fn transfer(c: Self::CurrencyId, from: &A, to: &A, v: Self::Balance) -> DispatchResult;
	fn deposit(c: Self::CurrencyId, who: &A, v: Self::Balance) -> DispatchResult;
	fn withdraw(c: Self::CurrencyId, who: &A, v: Self::Balance) -> DispatchResult;
	fn can_slash(c: Self::CurrencyId, who: &A, v: Self::Balance) -> bool;
	fn slash(c: Self::CurrencyId, who: &A, v: Self::Balance) -> Self::Balance;
}
mod scale_info_bound {
	pub trait TypeInfo {}
	impl<T> TypeInfo for T {}
}
pub trait MultiCurrencyExtended<A>: MultiCurrency<A> {
	type Amount: Copy;
	fn update_balance(c: Self::CurrencyId, who: &A, by: Self::Amount) -> DispatchResult;
}
pub trait MultiLockableCurrency<A>: MultiCurrency<A> {
	type Moment;
	fn set_lock(id: LockIdentifier, c: Self::CurrencyId, who: &A, v: Self::Balance) -> DispatchResult;
	fn extend_lock(id: LockIdentifier, c: Self::CurrencyId, who: &A, v: Self::Balance) -> DispatchResult;
	fn remove_lock(id: LockIdentifier, c: Self::CurrencyId, who: &A) -> DispatchResult;
}
pub trait MultiReservableCurrency<A>: MultiCurrency<A> {
	fn can_reserve(c: Self::CurrencyId, who: &A, v: Self::Balance) -> bool;
	fn slash_reserved(c: Self::CurrencyId, who: &A, v: Self::Balance) -> Self::Balance;
	fn reserved_balance(c: Self::CurrencyId, who: &A) -> Self::Balance;
	fn reserve(c: Self::CurrencyId, who: &A, v: Self::Balance) -> DispatchResult;
	fn unreserve(c: Self::CurrencyId, who: &A, v: Self::Balance) -> Self::Balance;
	fn repatriate_reserved(c: Self::CurrencyId, s: &A, b: &A, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait NamedMultiReservableCurrency<A>: MultiReservableCurrency<A> {
	type ReserveIdentifier: Copy;
	fn slash_reserved_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &A, v: Self::Balance) -> Self::Balance;
	fn reserved_balance_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &A) -> Self::Balance;
	fn reserve_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &A, v: Self::Balance) -> DispatchResult;
	fn unreserve_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &A, v: Self::Balance) -> Self::Balance;
	fn repatriate_reserved_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, s: &A, b: &A, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
