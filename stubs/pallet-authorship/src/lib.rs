//! The trait of pallet-authorship that pallet-parachain-staking implements; the simulator tells it the authors.
pub trait Config: frame_system::Config {}
pub trait EventHandler<Author, BlockNumber> {
	fn note_author(author: Author);
}

/// The author of the block, as the simulator has told it.
pub const AUTHOR: &[u8] = b":sim:author";
pub struct Pallet<T>(core::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
	pub fn author() -> Option<T::AccountId> {
		frame_support::storage::unhashed::get(AUTHOR)
	}
}
