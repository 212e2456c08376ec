//! Offline stand-in: the trait of session managers.
use sp_staking::SessionIndex;
pub trait SessionManager<V> {
	fn new_session(i: SessionIndex) -> Option<Vec<V>>;
	fn new_session_genesis(i: SessionIndex) -> Option<Vec<V>> {
		Self::new_session(i)
	}
	fn end_session(i: SessionIndex);
	fn start_session(i: SessionIndex);
}
