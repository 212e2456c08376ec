//! Offline stand-in for `sp-runtime`.
#![allow(clippy::all)]
pub use frame_support_procedural::RuntimeDebug;
pub use sp_arithmetic::{
	helpers_128bit, per_things, rational, traits as arith_traits, ArithmeticError, FixedPointNumber, FixedPointOperand, FixedU128, FixedU64, InnerOf, PerThing, PerU16,
	Perbill, Percent, Permill, Perquintill, Rounding, SignedRounding, UpperOf,
};
pub use sp_arithmetic::traits::{SaturatedConversion, Saturating};
pub use sp_core::{bounded, BoundedBTreeMap, BoundedBTreeSet, BoundedVec};

#[derive(Eq, Clone, Copy, PartialEq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	#[codec(skip)]
	pub message: Option<&'static str>,
}
#[derive(Eq, Clone, Copy, PartialEq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Eq, Clone, Copy, PartialEq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
#[derive(Eq, Clone, Copy, PartialEq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo)]
pub enum DispatchError {
	Other(#[codec(skip)] &'static str),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		Self::Arithmetic(e)
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		Self::Token(e)
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		Self::BadOrigin
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		Self::CannotLookup
	}
}
impl From<&'static str> for DispatchError {
	fn from(e: &'static str) -> Self {
		Self::Other(e)
	}
}
impl From<DispatchError> for &'static str {
	fn from(_: DispatchError) -> &'static str {
		"dispatch error"
	}
}
pub type DispatchResult = Result<(), DispatchError>;
#[derive(Eq, PartialEq, Clone, Copy, Debug)]
pub struct DispatchErrorWithPostInfo<I> {
	pub post_info: I,
	pub error: DispatchError,
}
impl<I: Default, T: Into<DispatchError>> From<T> for DispatchErrorWithPostInfo<I> {
	fn from(e: T) -> Self {
		Self { post_info: I::default(), error: e.into() }
	}
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}

pub mod traits {
	pub trait IntegerSquareRoot: Sized {
		fn integer_sqrt_checked(&self) -> Option<Self>;
		fn integer_sqrt(&self) -> Self {
			self.integer_sqrt_checked().unwrap()
		}
	}
	macro_rules! sqrts { ($($t:ty),*) => { $( impl IntegerSquareRoot for $t {
		fn integer_sqrt_checked(&self) -> Option<$t> {
			let mut r: $t = 0;
			let mut b: $t = 1 << (<$t>::BITS / 2 - 1);
			while b != 0 {
				let n = r + b;
				if n <= *self / n { r = n; }
				b >>= 1;
			}
			Some(r)
		}
	} )* } }
	sqrts!(u8, u16, u32, u64, u128);
	pub use sp_core::{ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8};
	pub use sp_arithmetic::traits::*;
	pub use sp_core::{Get, TypedGet};
	#[derive(Debug, PartialEq, Eq)]
	pub struct BadOrigin;
	#[derive(Debug, PartialEq, Eq)]
	pub struct LookupError;
	pub trait MaybeSerializeDeserialize {}
	impl<T> MaybeSerializeDeserialize for T {}
	pub trait MaybeSerialize {}
	impl<T> MaybeSerialize for T {}
	pub trait MaybeDisplay {}
	impl<T> MaybeDisplay for T {}
	pub trait Member: Send + Sync + Sized + core::fmt::Debug + Eq + PartialEq + Clone + 'static {}
	impl<T: Send + Sync + Sized + core::fmt::Debug + Eq + PartialEq + Clone + 'static> Member for T {}
	pub trait BlockNumberProvider {
		type BlockNumber: codec::Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + scale_info::TypeInfo + core::fmt::Debug + codec::MaxEncodedLen + Copy;
		fn current_block_number() -> Self::BlockNumber;
	}
	/// Accounts of pallets and their parts. The real one encodes the seed into the account; here the
	/// account type says which one it is.
	pub trait AccountIdConversion<A>: Sized {
		fn into_account_truncating(&self) -> A {
			self.into_sub_account_truncating(())
		}
		fn try_into_account(&self) -> Option<A> {
			Some(self.into_account_truncating())
		}
		fn into_sub_account_truncating<S: codec::Encode>(&self, sub: S) -> A;
		fn try_into_sub_account<S: codec::Encode>(&self, sub: S) -> Option<A> {
			Some(self.into_sub_account_truncating(sub))
		}
	}
	pub trait AccountOfPallet {
		fn of_pallet(id: [u8; 8], sub: Vec<u8>) -> Self;
	}
	impl AccountOfPallet for u64 {
		fn of_pallet(id: [u8; 8], sub: Vec<u8>) -> u64 {
			let mut h = u64::from_le_bytes(id);
			for b in sub {
				h = h.wrapping_mul(257).wrapping_add(b as u64 + 1);
			}
			h
		}
	}
	pub trait Convert<A, B> {
		fn convert(a: A) -> B;
	}
	impl<A, B: Default> Convert<A, B> for () {
		fn convert(_a: A) -> B {
			Default::default()
		}
	}
	pub struct Identity;
	impl<T> Convert<T, T> for Identity {
		fn convert(a: T) -> T {
			a
		}
	}
	pub trait StaticLookup {
		type Source: codec::Codec + Clone + PartialEq + core::fmt::Debug + scale_info::TypeInfo;
		type Target;
		fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
		fn unlookup(t: Self::Target) -> Self::Source;
	}
	pub struct IdentityLookup<T>(core::marker::PhantomData<T>);
	impl<T: codec::Codec + Clone + PartialEq + core::fmt::Debug + scale_info::TypeInfo> StaticLookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(x: T) -> Result<T, LookupError> {
			Ok(x)
		}
		fn unlookup(x: T) -> T {
			x
		}
	}
	pub trait Hash {
		type Output: Copy + codec::Codec + Clone + PartialEq + Eq + core::fmt::Debug + Default + Send + Sync + scale_info::TypeInfo + codec::MaxEncodedLen + 'static + Ord + AsRef<[u8]>;
	}
	pub trait TryConvert<A, B> {
		fn try_convert(a: A) -> Result<B, A>;
	}
	pub trait IdentifyAccount {
		type AccountId;
	}
	pub trait Verify {
		type Signer: IdentifyAccount;
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct BlakeTwo256;
}
pub struct OpaqueExtrinsic;
pub struct MultiSignature;
pub struct MultiSigner;
impl traits::Verify for MultiSignature {
	type Signer = MultiSigner;
}
impl traits::IdentifyAccount for MultiSigner {
	type AccountId = u64;
}
pub mod generic {
	pub struct Header<N, H>(core::marker::PhantomData<(N, H)>);
	pub struct Block<H, E>(core::marker::PhantomData<(H, E)>);
}
