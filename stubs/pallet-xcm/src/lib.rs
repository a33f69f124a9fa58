//! Stand-in for `pallet-xcm`: notify queries, response origin and sending, as the funding pallet uses them.
//! `on_response` follows the original: an unknown, foreign or expired query is ignored; a ready one dispatches the
//! stored call with its `query_id` and `response` arguments replaced, under the `Response` origin.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;
use frame_support::traits::OriginTrait;
use sp_runtime::traits::BadOrigin;
use xcm::v4::Location;
pub fn ensure_response<OuterOrigin>(o: OuterOrigin) -> Result<Location, BadOrigin>
where
	OuterOrigin: Into<Result<Origin, OuterOrigin>>,
{
	match o.into() {
		Ok(Origin::Response(location)) => Ok(location),
		_ => Err(BadOrigin),
	}
}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*};
	use frame_system::pallet_prelude::BlockNumberFor;
	use sp_runtime::traits::Dispatchable;
	use xcm::v4::{Junctions, QueryId, Response, SendError, SendXcm, Xcm, XcmHash};
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeOrigin: From<Origin> + From<<Self as frame_system::Config>::RuntimeOrigin> + OriginTrait;
		type RuntimeCall: Parameter + GetDispatchInfo + Dispatchable<RuntimeOrigin = <Self as Config>::RuntimeOrigin>;
		type XcmRouter: SendXcm;
	}
	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T>(_);
	#[pallet::origin]
	#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum Origin {
		Xcm(Location),
		Response(Location),
	}
	#[pallet::storage]
	pub type QueryCounter<T> = StorageValue<_, QueryId, ValueQuery>;
	/// responder, pallet and call index to notify, timeout
	#[pallet::storage]
	pub type Queries<T: Config> = StorageMap<_, Blake2_128Concat, QueryId, (Location, (u8, u8), BlockNumberFor<T>), OptionQuery>;
	impl<T: Config> Pallet<T> {
		pub fn new_notify_query(
			responder: impl Into<Location>,
			notify: impl Into<<T as Config>::RuntimeCall>,
			timeout: BlockNumberFor<T>,
			_match_querier: impl Into<Location>,
		) -> u64 {
			let encoded = notify.into().encode();
			let id = QueryCounter::<T>::mutate(|c| { let id = *c; *c += 1; id });
			Queries::<T>::insert(id, (responder.into(), (encoded[0], encoded[1]), timeout));
			id
		}
		pub fn send_xcm(interior: impl Into<Junctions>, dest: impl Into<Location>, message: Xcm<()>) -> Result<XcmHash, SendError> {
			let _ = interior.into();
			xcm::v4::send_xcm::<T::XcmRouter>(dest.into(), message).map(|(h, _)| h)
		}
		/// `None`: not an answer to a pending query. `Some(result)`: the notified call ran with that result.
		pub fn on_response(origin: &Location, query_id: QueryId, response: Response) -> Option<Result<(), sp_runtime::DispatchError>> {
			let (responder, (pallet, call), timeout) = Queries::<T>::get(query_id)?;
			if &responder != origin { return None }
			if timeout < frame_system::Pallet::<T>::block_number() { return None }
			Queries::<T>::remove(query_id);
			let bare = (pallet, call, query_id, response).encode();
			let call = <T as Config>::RuntimeCall::decode(&mut &bare[..]).ok()?;
			let origin: <T as Config>::RuntimeOrigin = Origin::Response(origin.clone()).into();
			Some(call.dispatch(origin).map(|_| ()).map_err(|e| e.error))
		}
	}
}
