//! Offline stand-in: the parts of XCM v3 that decide which assets a message brings.
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
pub mod lts {
	use super::*;
	/// A location: parents and one number for its junctions.
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub struct MultiLocation {
		pub parents: u8,
		pub interior: u32,
	}
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub enum AssetId {
		Concrete(MultiLocation),
		Abstract([u8; 32]),
	}
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub enum AssetInstance {
		Undefined,
		Index(u128),
	}
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub enum Fungibility {
		Fungible(u128),
		NonFungible(AssetInstance),
	}
	#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
	pub struct MultiAsset {
		pub id: AssetId,
		pub fun: Fungibility,
	}
	#[derive(Clone, PartialEq, Eq, Debug, Default)]
	pub struct MultiAssets(pub Vec<MultiAsset>);
	impl MultiAssets {
		pub fn inner(&self) -> &Vec<MultiAsset> {
			&self.0
		}
		pub fn iter(&self) -> core::slice::Iter<'_, MultiAsset> {
			self.0.iter()
		}
		pub fn len(&self) -> usize {
			self.0.len()
		}
	}
	pub enum Instruction<Call> {
		WithdrawAsset(MultiAssets),
		ReserveAssetDeposited(MultiAssets),
		ReceiveTeleportedAsset(MultiAssets),
		ClearOrigin,
		Transact(core::marker::PhantomData<Call>),
	}
	impl<Call> Clone for Instruction<Call> {
		fn clone(&self) -> Self {
			match self {
				Self::WithdrawAsset(a) => Self::WithdrawAsset(a.clone()),
				Self::ReserveAssetDeposited(a) => Self::ReserveAssetDeposited(a.clone()),
				Self::ReceiveTeleportedAsset(a) => Self::ReceiveTeleportedAsset(a.clone()),
				Self::ClearOrigin => Self::ClearOrigin,
				Self::Transact(_) => Self::Transact(core::marker::PhantomData),
			}
		}
	}
	pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
	impl<Call> Clone for Xcm<Call> {
		fn clone(&self) -> Self {
			Xcm(self.0.clone())
		}
	}
	impl<Call> Xcm<Call> {
		pub fn first(&self) -> Option<&Instruction<Call>> {
			self.0.first()
		}
		pub fn last(&self) -> Option<&Instruction<Call>> {
			self.0.last()
		}
		pub fn inner(&self) -> &[Instruction<Call>] {
			&self.0
		}
		pub fn len(&self) -> usize {
			self.0.len()
		}
		pub fn is_empty(&self) -> bool {
			self.0.is_empty()
		}
	}
	pub mod prelude {
		pub use super::{
			AssetId::{self, *},
			AssetInstance::{self, Index},
			Fungibility::{self, *},
			Instruction::{self, *},
			MultiAsset, MultiAssets, MultiLocation, Xcm,
		};
	}
}
/// Messages of version 2 (here: whether they convert to version 3) and 3.
pub enum VersionedXcm<Call> {
	V2(Option<lts::Xcm<Call>>),
	V3(lts::Xcm<Call>),
}
impl<Call> Clone for VersionedXcm<Call> {
	fn clone(&self) -> Self {
		match self {
			Self::V2(x) => Self::V2(x.clone()),
			Self::V3(x) => Self::V3(x.clone()),
		}
	}
}
pub trait IntoVersion: Sized {
	fn into_version(self, v: u32) -> Result<Self, ()>;
}
impl<Call> IntoVersion for VersionedXcm<Call> {
	fn into_version(self, v: u32) -> Result<Self, ()> {
		match (self, v) {
			(VersionedXcm::V3(x), 3) => Ok(VersionedXcm::V3(x)),
			(VersionedXcm::V2(Some(x)), 3) => Ok(VersionedXcm::V3(x)),
			(VersionedXcm::V2(x), 2) => Ok(VersionedXcm::V2(x)),
			_ => Err(()),
		}
	}
}
