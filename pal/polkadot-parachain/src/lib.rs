//! Offline stand-in.
pub mod primitives {
	pub type RelayChainBlockNumber = u32;
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
	pub struct Id(pub u32);
}
