#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hash(pub [u8; 32]);
impl Hash {
	pub fn as_fixed_bytes(&self) -> &[u8; 32] {
		&self.0
	}
}
pub trait RelayChainBlockHashProvider {
	fn parent_hash() -> Option<Hash>;
}
