//! Stand-in for `pallet-timestamp`: the `Now` value, set by the simulated block author.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use sp_runtime::traits::{AtLeast32Bit, Scale};
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter + Default + AtLeast32Bit + Scale<frame_system::pallet_prelude::BlockNumberFor<Self>, Output = Self::Moment> + Copy + MaxEncodedLen + scale_info::StaticTypeInfo;
		type MinimumPeriod: Get<Self::Moment>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
	impl<T: Config> Pallet<T> {
		pub fn get() -> T::Moment { Now::<T>::get() }
		pub fn set_timestamp(now: T::Moment) { Now::<T>::put(now) }
	}
}
