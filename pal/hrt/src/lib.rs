//! The runtime the pallets are executed in: accounts are `u64`, assets `u32`, balances `u128`; balances,
//! reservations and issuance live in a ledger with the semantics of orml-tokens without existential deposits.
#![allow(clippy::all)]
pub use {codec, frame_support, frame_system, hydradx_traits, orml_traits, scale_info, sp_core, sp_runtime, symx};
use frame_support::pallet_prelude::*;
use frame_support::storage::StorageInstance;
use orml_traits::*;
use sp_runtime::{ArithmeticError, TokenError};

pub type AccountId = u64;
pub type AssetId = u32;
pub type Balance = u128;
pub type Block = u32;

macro_rules! tables { ($($p:ident $id:expr),*) => { $( pub struct $p; impl StorageInstance for $p { fn id() -> u64 { $id } } )* } }
tables!(PInsuff 14, PUnknown 13, PDeposit 12, POwner 11, PKind 10, PNext 8, PDecimals 9, PFree 1, PReserved 2, PIssuance 3, PBlock 4, PLock 5, PNow 6, PNamed 7);
pub type Free = StorageDoubleMap<PFree, Identity, AccountId, Identity, AssetId, Balance, ValueQuery>;
pub type Reserved = StorageDoubleMap<PReserved, Identity, AccountId, Identity, AssetId, Balance, ValueQuery>;
pub type Issuance = StorageMap<PIssuance, Identity, AssetId, Balance, ValueQuery>;
pub type Locked = StorageDoubleMap<PLock, Identity, AccountId, Identity, AssetId, Balance, ValueQuery>;
pub type BlockNumber = StorageValue<PBlock, Block, ValueQuery>;
pub type Now = StorageValue<PNow, u64, ValueQuery>;

/// Executes a call as FRAME dispatches it: in a storage layer that is dropped when the call fails.
pub fn dispatch<R, Er, F: FnOnce() -> Result<R, Er>>(f: F) -> Result<R, Er> {
	frame_support::storage::transactional(f)
}

use frame_support::traits::fungibles;
use frame_support::traits::tokens::{Fortitude, Preservation};
impl fungibles::Inspect<AccountId> for Ledger {
	type AssetId = AssetId;
	type Balance = Balance;
	fn total_issuance(c: AssetId) -> Balance {
		Issuance::get(c)
	}
	fn minimum_balance(c: AssetId) -> Balance {
		Deposits::get(c).unwrap_or(0)
	}
	fn balance(c: AssetId, who: &AccountId) -> Balance {
		Free::get(who, c)
	}
	/// What can leave the account, keeping the existential deposit if asked to.
	fn reducible_balance(c: AssetId, who: &AccountId, p: Preservation, _: Fortitude) -> Balance {
		let b = Free::get(who, c);
		match p {
			Preservation::Expendable => b,
			_ => b.saturating_sub(Deposits::get(c).unwrap_or(0)),
		}
	}
}
impl fungibles::Mutate<AccountId> for Ledger {
	fn mint_into(c: AssetId, who: &AccountId, v: Balance) -> Result<Balance, DispatchError> {
		<Ledger as MultiCurrency<AccountId>>::deposit(c, who, v)?;
		Ok(v)
	}
	/// A sender that is to be preserved keeps the existential deposit.
	fn transfer(c: AssetId, s: &AccountId, d: &AccountId, v: Balance, p: Preservation) -> Result<Balance, DispatchError> {
		<Ledger as MultiCurrency<AccountId>>::transfer(c, s, d, v)?;
		if v != 0 && s != d && p != Preservation::Expendable {
			if let Some(ed) = Deposits::get(c) {
				if Free::get(s, c) < ed {
					return Err(TokenError::NotExpendable.into());
				}
			}
		}
		Ok(v)
	}
}
pub struct Ledger;
impl Ledger {
	/// Gives `who` that balance from nowhere (initial states).
	pub fn endow(c: AssetId, who: AccountId, v: Balance) {
		Free::insert(who, c, v);
	}
}
impl MultiCurrency<AccountId> for Ledger {
	type CurrencyId = AssetId;
	type Balance = Balance;
	fn minimum_balance(_c: AssetId) -> Balance {
		0
	}
	fn total_issuance(c: AssetId) -> Balance {
		Issuance::get(c)
	}
	fn total_balance(c: AssetId, who: &AccountId) -> Balance {
		Free::get(who, c) + Reserved::get(who, c)
	}
	fn free_balance(c: AssetId, who: &AccountId) -> Balance {
		Free::get(who, c)
	}
	fn ensure_can_withdraw(c: AssetId, who: &AccountId, v: Balance) -> DispatchResult {
		let b = Free::get(who, c);
		if v > b {
			return Err(TokenError::FundsUnavailable.into());
		}
		Ok(())
	}
	fn transfer(c: AssetId, from: &AccountId, to: &AccountId, v: Balance) -> DispatchResult {
		if from == to {
			return Ok(());
		}
		let a = Free::get(from, c);
		let b = Free::get(to, c);
		let a = a.checked_sub(v).ok_or(TokenError::FundsUnavailable)?;
		let b = b.checked_add(v).ok_or(ArithmeticError::Overflow)?;
		Free::insert(from, c, a);
		Free::insert(to, c, b);
		Ok(())
	}
	fn deposit(c: AssetId, who: &AccountId, v: Balance) -> DispatchResult {
		if v == 0 {
			return Ok(());
		}
		let t = Issuance::get(c).checked_add(v).ok_or(ArithmeticError::Overflow)?;
		let b = Free::get(who, c).checked_add(v).ok_or(ArithmeticError::Overflow)?;
		Issuance::insert(c, t);
		Free::insert(who, c, b);
		Ok(())
	}
	fn withdraw(c: AssetId, who: &AccountId, v: Balance) -> DispatchResult {
		if v == 0 {
			return Ok(());
		}
		let b = Free::get(who, c).checked_sub(v).ok_or(TokenError::FundsUnavailable)?;
		let t = Issuance::get(c).checked_sub(v).ok_or(ArithmeticError::Underflow)?;
		Issuance::insert(c, t);
		Free::insert(who, c, b);
		Ok(())
	}
	fn can_slash(c: AssetId, who: &AccountId, v: Balance) -> bool {
		Free::get(who, c) >= v
	}
	fn slash(_c: AssetId, _who: &AccountId, _v: Balance) -> Balance {
		unimplemented!()
	}
}
impl MultiCurrencyExtended<AccountId> for Ledger {
	type Amount = i128;
	fn update_balance(_c: AssetId, _who: &AccountId, _by: i128) -> DispatchResult {
		unimplemented!()
	}
}
impl MultiLockableCurrency<AccountId> for Ledger {
	type Moment = Block;
	fn set_lock(_id: LockIdentifier, c: AssetId, who: &AccountId, v: Balance) -> DispatchResult {
		Locked::insert(who, c, v);
		Ok(())
	}
	fn extend_lock(_id: LockIdentifier, c: AssetId, who: &AccountId, v: Balance) -> DispatchResult {
		let l = Locked::get(who, c);
		Locked::insert(who, c, if v > l { v } else { l });
		Ok(())
	}
	fn remove_lock(_id: LockIdentifier, c: AssetId, who: &AccountId) -> DispatchResult {
		Locked::remove(who, c);
		Ok(())
	}
}
impl MultiReservableCurrency<AccountId> for Ledger {
	fn can_reserve(c: AssetId, who: &AccountId, v: Balance) -> bool {
		Free::get(who, c) >= v
	}
	fn slash_reserved(_c: AssetId, _who: &AccountId, _v: Balance) -> Balance {
		unimplemented!()
	}
	fn reserved_balance(c: AssetId, who: &AccountId) -> Balance {
		Reserved::get(who, c)
	}
	fn reserve(c: AssetId, who: &AccountId, v: Balance) -> DispatchResult {
		if v == 0 {
			return Ok(());
		}
		let a = Free::get(who, c).checked_sub(v).ok_or(TokenError::FundsUnavailable)?;
		let r = Reserved::get(who, c).checked_add(v).ok_or(ArithmeticError::Overflow)?;
		Free::insert(who, c, a);
		Reserved::insert(who, c, r);
		Ok(())
	}
	/// Returns what could not be released.
	fn unreserve(c: AssetId, who: &AccountId, v: Balance) -> Balance {
		let r = Reserved::get(who, c);
		let x = if v <= r { v } else { r };
		Reserved::insert(who, c, r - x);
		let a = Free::get(who, c) + x;
		Free::insert(who, c, a);
		v - x
	}
	fn repatriate_reserved(_c: AssetId, _s: &AccountId, _b: &AccountId, _v: Balance, _st: BalanceStatus) -> Result<Balance, DispatchError> {
		unimplemented!()
	}
}
impl NamedMultiReservableCurrency<AccountId> for Ledger {
	type ReserveIdentifier = [u8; 8];
	fn slash_reserved_named(_id: &[u8; 8], _c: AssetId, _who: &AccountId, _v: Balance) -> Balance {
		unimplemented!()
	}
	fn reserved_balance_named(_id: &[u8; 8], c: AssetId, who: &AccountId) -> Balance {
		Reserved::get(who, c)
	}
	fn reserve_named(_id: &[u8; 8], c: AssetId, who: &AccountId, v: Balance) -> DispatchResult {
		Self::reserve(c, who, v)
	}
	fn unreserve_named(_id: &[u8; 8], c: AssetId, who: &AccountId, v: Balance) -> Balance {
		Self::unreserve(c, who, v)
	}
	fn repatriate_reserved_named(_id: &[u8; 8], _c: AssetId, _s: &AccountId, _b: &AccountId, _v: Balance, _st: BalanceStatus) -> Result<Balance, DispatchError> {
		unimplemented!()
	}
}

/// Assets by identifier: new ones are numbered from `NextAsset`; decimals are set by the harness.
pub type NextAsset = StorageValue<PNext, AssetId, ValueQuery>;
pub type Decimals = StorageMap<PDecimals, Identity, AssetId, u8, OptionQuery>;
/// The kind of an asset: 1 to 5 in the order of `AssetKind`, 0 for unknown assets.
pub type Kinds = StorageMap<PKind, Identity, AssetId, u8, ValueQuery>;
pub type Deposits = StorageMap<PDeposit, Identity, AssetId, Balance, OptionQuery>;
/// Assets that do not keep accounts alive.
pub type Insufficient = StorageMap<PInsuff, Identity, AssetId, bool, ValueQuery>;
/// Assets the registry does not know.
pub type Unknown = StorageMap<PUnknown, Identity, AssetId, bool, ValueQuery>;
pub struct Registry;
impl GetByKey<AssetId, Balance> for Registry {
	fn get(a: &AssetId) -> Balance {
		Deposits::get(*a).unwrap_or(0)
	}
}
impl hydradx_traits::registry::Inspect for Registry {
	type AssetId = AssetId;
	type Location = ();
	fn is_sufficient(a: AssetId) -> bool {
		!Insufficient::get(a)
	}
	fn exists(a: AssetId) -> bool {
		!Unknown::get(a)
	}
	fn decimals(a: AssetId) -> Option<u8> {
		Decimals::get(a)
	}
	fn asset_type(a: AssetId) -> Option<hydradx_traits::AssetKind> {
		use hydradx_traits::AssetKind::*;
		match Kinds::get(a) {
			1 => Some(Token),
			2 => Some(XYK),
			3 => Some(StableSwap),
			4 => Some(Bond),
			5 => Some(External),
			_ => None,
		}
	}
	fn is_banned(_: AssetId) -> bool {
		false
	}
	fn asset_name(_: AssetId) -> Option<Vec<u8>> {
		None
	}
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> {
		None
	}
	fn existential_deposit(a: AssetId) -> Option<u128> {
		Deposits::get(a)
	}
}
/// Non-fungible items by collection and number; each has one owner.
pub type Owners = StorageDoubleMap<POwner, Identity, u128, Identity, u128, AccountId, OptionQuery>;
pub struct Items;
use frame_support::traits::tokens::nonfungibles as nfts;
impl nfts::Inspect<AccountId> for Items {
	type ItemId = u128;
	type CollectionId = u128;
	fn owner(c: &u128, i: &u128) -> Option<AccountId> {
		Owners::get(*c, *i)
	}
}
impl nfts::InspectEnumerable<AccountId> for Items {
	type OwnedInCollectionIterator = std::vec::IntoIter<u128>;
	fn owned_in_collection(c: &u128, who: &AccountId) -> std::vec::IntoIter<u128> {
		let mut v = Vec::new();
		for (i, o) in Owners::iter_prefix(*c) {
			if o == *who {
				v.push(i);
			}
		}
		v.into_iter()
	}
}
impl nfts::Create<AccountId> for Items {
	fn create_collection(_c: &u128, _who: &AccountId, _admin: &AccountId) -> DispatchResult {
		Ok(())
	}
}
impl nfts::Mutate<AccountId> for Items {
	fn mint_into(c: &u128, i: &u128, who: &AccountId) -> DispatchResult {
		if Owners::get(*c, *i).is_some() {
			return Err(DispatchError::Other("item exists"));
		}
		Owners::insert(*c, *i, *who);
		Ok(())
	}
	fn burn(c: &u128, i: &u128, who: Option<&AccountId>) -> DispatchResult {
		let o = Owners::get(*c, *i).ok_or(DispatchError::Other("no such item"))?;
		if let Some(w) = who {
			if *w != o {
				return Err(DispatchError::Other("not the owner"));
			}
		}
		Owners::remove(*c, *i);
		Ok(())
	}
}
impl nfts::Transfer<AccountId> for Items {
	fn transfer(c: &u128, i: &u128, dest: &AccountId) -> DispatchResult {
		Owners::get(*c, *i).ok_or(DispatchError::Other("no such item"))?;
		Owners::insert(*c, *i, *dest);
		Ok(())
	}
}
pub type Name = frame_support::BoundedVec<u8, sp_runtime::traits::ConstU32<1000>>;
impl hydradx_traits::registry::Create<Balance> for Registry {
	type Error = DispatchError;
	type Name = Name;
	type Symbol = Name;
	fn register_asset(
		id: Option<AssetId>,
		_name: Option<Name>,
		_kind: hydradx_traits::AssetKind,
		_ed: Option<Balance>,
		_symbol: Option<Name>,
		_decimals: Option<u8>,
		_location: Option<()>,
		_limit: Option<Balance>,
		_sufficient: bool,
	) -> Result<AssetId, DispatchError> {
		Ok(id.unwrap_or_else(|| {
			let n = NextAsset::get();
			NextAsset::put(n + 1);
			n
		}))
	}
	fn get_or_register_asset(
		_name: Name,
		kind: hydradx_traits::AssetKind,
		ed: Option<Balance>,
		symbol: Option<Name>,
		decimals: Option<u8>,
		location: Option<()>,
		limit: Option<Balance>,
		sufficient: bool,
	) -> Result<AssetId, DispatchError> {
		Self::register_asset(None, None, kind, ed, symbol, decimals, location, limit, sufficient)
	}
}

impl frame_support::traits::Time for Clock {
	type Moment = u64;
	fn now() -> u64 {
		Now::get()
	}
}
pub struct Clock;
impl sp_runtime::traits::BlockNumberProvider for Clock {
	type BlockNumber = Block;
	fn current_block_number() -> Block {
		BlockNumber::get()
	}
}

/// Defines `Test`, its origin and event types and `frame_system::Config` for it.
#[macro_export]
macro_rules! runtime {
	($($pallet:ident),*) => { $crate::runtime!(call (); $($pallet),*); };
	(call $call:ty; $($pallet:ident),*) => {
		#[derive(Clone, PartialEq, Eq, Debug)]
		pub struct Test;
		#[derive(Clone, PartialEq, Eq, Debug)]
		pub struct Origin(pub $crate::frame_system::RawOrigin<$crate::AccountId>);
		impl From<$crate::frame_system::RawOrigin<$crate::AccountId>> for Origin {
			fn from(o: $crate::frame_system::RawOrigin<$crate::AccountId>) -> Self { Origin(o) }
		}
		impl From<Origin> for Result<$crate::frame_system::RawOrigin<$crate::AccountId>, Origin> {
			fn from(o: Origin) -> Self { Ok(o.0) }
		}
		impl Origin {
			pub fn signed(a: $crate::AccountId) -> Origin { Origin($crate::frame_system::RawOrigin::Signed(a)) }
			pub fn root() -> Origin { Origin($crate::frame_system::RawOrigin::Root) }
		}
		#[derive(Clone, PartialEq, Eq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo)]
		pub struct Ev;
		$( impl From<$pallet::Event<Test>> for Ev { fn from(_: $pallet::Event<Test>) -> Ev { Ev } } )*
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Debug, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo)]
		pub struct Hash([u8; 32]);
		impl AsRef<[u8]> for Hash { fn as_ref(&self) -> &[u8] { &self.0 } }
		pub struct Db;
		impl $crate::frame_support::traits::Get<$crate::frame_support::weights::RuntimeDbWeight> for Db {
			fn get() -> $crate::frame_support::weights::RuntimeDbWeight { Default::default() }
		}
		pub struct Weights;
		impl $crate::frame_support::traits::Get<$crate::frame_system::limits::BlockWeights> for Weights {
			fn get() -> $crate::frame_system::limits::BlockWeights {
				$crate::frame_system::limits::BlockWeights { max_block: $crate::frame_support::weights::Weight::from_parts(1_000_000_000_000, 5_000_000) }
			}
		}
		impl $crate::frame_system::Config for Test {
			type RuntimeOrigin = Origin;
			type RuntimeEvent = Ev;
			type RuntimeCall = $call;
			type AccountId = $crate::AccountId;
			type Nonce = u32;
			type Hash = Hash;
			type BlockNumber = $crate::Block;
			type Lookup = $crate::sp_runtime::traits::IdentityLookup<$crate::AccountId>;
			type DbWeight = Db;
			type BlockWeights = Weights;
			fn block_number() -> $crate::Block { $crate::BlockNumber::get() }
		}
	};
}
#[macro_export]
macro_rules! gets { ($($n:ident : $t:ty = $v:expr;)*) => { $( pub struct $n; impl $crate::frame_support::traits::Get<$t> for $n { fn get() -> $t { $v } } )* } }
/// Storage cells of the harness itself (configuration values).
#[macro_export]
macro_rules! cells { ($($p:ident $t:ident : $ty:ty = $id:expr;)*) => { $( pub struct $p; impl $crate::frame_support::storage::StorageInstance for $p { fn id() -> u64 { $id } } pub type $t = $crate::frame_support::pallet_prelude::StorageValue<$p, $ty, $crate::frame_support::pallet_prelude::ValueQuery>; )* } }
