//! The part of orml-oracle the offchain worker uses: the call that feeds prices.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;

	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type OracleKey: Parameter + Member;
		type OracleValue: Parameter + Member + Ord;
		#[pallet::constant]
		type MaxFeedValues: Get<u32>;
	}

	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn feed_values(
			origin: OriginFor<T>,
			values: BoundedVec<(T::OracleKey, T::OracleValue), T::MaxFeedValues>,
		) -> DispatchResultWithPostInfo {
			let _ = (ensure_signed(origin)?, values);
			Ok(Pays::No.into())
		}
	}
}
