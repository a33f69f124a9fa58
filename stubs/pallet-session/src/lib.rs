//! The traits of pallet-session that pallet-parachain-staking implements; the session rotation itself is done by the
//! simulator, with the rules of pallet-session.

pub type SessionIndex = u32;
pub trait Config: frame_system::Config {}
pub trait ShouldEndSession<BlockNumber> {
	fn should_end_session(now: BlockNumber) -> bool;
}
pub trait SessionManager<ValidatorId> {
	fn new_session(new_index: SessionIndex) -> Option<Vec<ValidatorId>>;
	fn new_session_genesis(new_index: SessionIndex) -> Option<Vec<ValidatorId>> {
		Self::new_session(new_index)
	}
	fn end_session(end_index: SessionIndex);
	fn start_session(start_index: SessionIndex);
}
