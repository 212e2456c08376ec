//! Offline stand-in: the filter of deferred messages.
use frame_support::weights::Weight;
use polkadot_parachain::primitives::{Id, RelayChainBlockNumber};
pub trait XcmDeferFilter<Call> {
	fn deferred_by(para: Id, sent_at: RelayChainBlockNumber, xcm: &xcm::VersionedXcm<Call>) -> (Weight, Option<RelayChainBlockNumber>);
}
