//! Stand-in for `pallet-democracy` where other pallets use it: its types and hooks are /repo's files, the pallet is not.
#![allow(clippy::all, unused)]
#[path = "/repo/pallets/democracy/src/conviction.rs"]
mod conviction;
#[path = "/repo/pallets/democracy/src/traits.rs"]
pub mod traits;
#[path = "/repo/pallets/democracy/src/types.rs"]
mod types;
#[path = "/repo/pallets/democracy/src/vote.rs"]
mod vote;
#[path = "/repo/pallets/democracy/src/vote_threshold.rs"]
mod vote_threshold;
pub use conviction::Conviction;
pub use types::{Delegations, ReferendumIndex, ReferendumInfo, ReferendumStatus, Tally, UnvoteScope};
pub use vote::{AccountVote, Vote, Voting};
pub use vote_threshold::{Approved, VoteThreshold};

pub trait Config: frame_system::Config {
	fn referendum(index: ReferendumIndex) -> Option<ReferendumInfo<u32, (), u128>>;
}
pub struct Pallet<T>(core::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
	pub fn referendum_info(index: ReferendumIndex) -> Option<ReferendumInfo<u32, (), u128>> {
		T::referendum(index)
	}
}
