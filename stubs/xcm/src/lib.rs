//! The part of XCM v4 the Polimec pallets use. Locations are at most two junctions deep here.
#![cfg_attr(not(feature = "std"), no_std)]
extern crate alloc;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::RuntimeDebug;

#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
pub enum VersionedLocation { #[codec(index = 4)] V4(v4::Location) }
pub mod opaque {
	pub mod v4 { pub use crate::v4::opaque::*; }
	pub type VersionedXcm = v4::Xcm;
}

/// Locations as fees name them.
pub mod v3 {
	use super::*;
	use serde::{Deserialize, Serialize};
	#[derive(Copy, Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo, MaxEncodedLen, Serialize, Deserialize)]
	pub enum Junction { Parachain(#[codec(compact)] u32), PalletInstance(u8), GeneralIndex(#[codec(compact)] u128) }
	#[derive(Copy, Clone, Default, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo, MaxEncodedLen, Serialize, Deserialize)]
	pub enum Junctions { #[default] Here, X1(Junction), X2(Junction, Junction), X3(Junction, Junction, Junction) }
	#[derive(Copy, Clone, Default, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo, MaxEncodedLen, Serialize, Deserialize)]
	pub struct MultiLocation { pub parents: u8, pub interior: Junctions }
}

pub mod v4 {
	use super::*;
	use alloc::{vec, vec::Vec};
	use frame_support::{traits::ConstU32, weights::Weight, BoundedVec};

	pub type QueryId = u64;
	pub type XcmHash = [u8; 32];
	pub type MaxPalletNameLen = ConstU32<48>;
	pub type MaxDispatchErrorLen = ConstU32<128>;
	pub mod opaque { pub type Xcm = super::Xcm<()>; }
	pub mod prelude {
		pub use super::{
			Asset, AssetFilter::{self, *}, AssetId, Assets, Fungibility::{self, *}, Instruction::{self, *},
			Junction::{self, *}, Junctions::{self, Here}, Location, MaybeErrorCode, OriginKind, PalletInfo, Parent, ParentThen,
			QueryId, QueryResponseInfo, Response, SendError, SendResult, SendXcm, WeightLimit::{self, *}, WildAsset::{self, *}, Xcm, XcmError,
			XcmHash, XcmResult,
		};
	}

	#[derive(Copy, Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum NetworkId { Polkadot, Kusama }
	#[derive(Copy, Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum Junction {
		Parachain(#[codec(compact)] u32),
		AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
		PalletInstance(u8),
		GeneralIndex(#[codec(compact)] u128),
	}
	#[derive(Copy, Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum Junctions { Here, X1([Junction; 1]), X2([Junction; 2]) }
	impl Junctions {
		pub fn as_slice(&self) -> &[Junction] {
			match self { Junctions::Here => &[], Junctions::X1(a) => a, Junctions::X2(a) => a }
		}
	}
	impl From<Junction> for Junctions { fn from(j: Junction) -> Self { Junctions::X1([j]) } }
	impl From<[Junction; 1]> for Junctions { fn from(j: [Junction; 1]) -> Self { Junctions::X1(j) } }
	impl From<[Junction; 2]> for Junctions { fn from(j: [Junction; 2]) -> Self { Junctions::X2(j) } }

	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub struct Location { pub parents: u8, pub interior: Junctions }
	impl Default for Location { fn default() -> Self { Location::here() } }
	impl Location {
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self { Location { parents, interior: interior.into() } }
		pub const fn here() -> Self { Location { parents: 0, interior: Junctions::Here } }
		pub const fn parent() -> Self { Location { parents: 1, interior: Junctions::Here } }
		pub fn unpack(&self) -> (u8, &[Junction]) { (self.parents, self.interior.as_slice()) }
	}
	impl From<Junctions> for Location { fn from(i: Junctions) -> Self { Location { parents: 0, interior: i } } }
	impl From<Junction> for Location { fn from(j: Junction) -> Self { Location { parents: 0, interior: j.into() } } }
	#[derive(Copy, Clone, PartialEq, Eq, RuntimeDebug)]
	pub struct Parent;
	#[derive(Copy, Clone, PartialEq, Eq, RuntimeDebug)]
	pub struct ParentThen(pub Junctions);
	impl From<Parent> for Location { fn from(_: Parent) -> Self { Location::parent() } }
	impl From<ParentThen> for Location { fn from(p: ParentThen) -> Self { Location { parents: 1, interior: p.0 } } }

	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo)]
	pub struct AssetId(pub Location);
	impl<T: Into<Location>> From<T> for AssetId { fn from(x: T) -> Self { Self(x.into()) } }
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo)]
	pub enum Fungibility { Fungible(#[codec(compact)] u128), NonFungible }
	impl From<u128> for Fungibility { fn from(x: u128) -> Self { Fungibility::Fungible(x) } }
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo)]
	pub struct Asset { pub id: AssetId, pub fun: Fungibility }
	impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for Asset {
		fn from((id, fun): (A, B)) -> Self { Asset { id: id.into(), fun: fun.into() } }
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, RuntimeDebug, TypeInfo, Default)]
	pub struct Assets(Vec<Asset>);
	impl Assets {
		pub fn new() -> Self { Assets(vec![]) }
		pub fn into_inner(self) -> Vec<Asset> { self.0 }
		pub fn inner(&self) -> &Vec<Asset> { &self.0 }
	}
	impl From<Vec<Asset>> for Assets { fn from(v: Vec<Asset>) -> Self { Assets(v) } }
	impl<T: Into<Asset>> From<T> for Assets { fn from(v: T) -> Self { Assets(vec![v.into()]) } }

	#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub enum WildAsset { All }
	#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub enum AssetFilter { Definite(Assets), Wild(WildAsset) }
	#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub enum WeightLimit { Unlimited, Limited(Weight) }
	#[derive(Copy, Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub enum OriginKind { Native, SovereignAccount, Superuser, Xcm }
	#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub struct QueryResponseInfo {
		pub destination: Location,
		#[codec(compact)]
		pub query_id: QueryId,
		pub max_weight: Weight,
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub struct PalletInfo {
		#[codec(compact)]
		pub index: u32,
		pub name: BoundedVec<u8, MaxPalletNameLen>,
		pub module_name: BoundedVec<u8, MaxPalletNameLen>,
		#[codec(compact)]
		pub major: u32,
		#[codec(compact)]
		pub minor: u32,
		#[codec(compact)]
		pub patch: u32,
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub enum MaybeErrorCode {
		Success,
		Error(BoundedVec<u8, MaxDispatchErrorLen>),
		TruncatedError(BoundedVec<u8, MaxDispatchErrorLen>),
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo, Default)]
	pub enum Response {
		#[default]
		Null,
		Assets(Assets),
		ExecutionResult(Option<(u32, XcmError)>),
		Version(u32),
		PalletsInfo(BoundedVec<PalletInfo, ConstU32<64>>),
		DispatchResult(MaybeErrorCode),
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub struct DoubleEncoded { pub encoded: Vec<u8> }
	impl From<Vec<u8>> for DoubleEncoded { fn from(encoded: Vec<u8>) -> Self { DoubleEncoded { encoded } } }

	#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub enum Instruction<Call> {
		WithdrawAsset(Assets),
		#[codec(index = 3)]
		QueryResponse { #[codec(compact)] query_id: QueryId, response: Response, max_weight: Weight, querier: Option<Location> },
		#[codec(index = 6)]
		Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded },
		#[codec(index = 13)]
		DepositAsset { assets: AssetFilter, beneficiary: Location },
		#[codec(index = 18)]
		ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter },
		#[codec(index = 19)]
		BuyExecution { fees: Asset, weight_limit: WeightLimit },
		#[codec(index = 20)]
		RefundSurplus,
		#[codec(index = 31)]
		QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
		#[codec(index = 33)]
		ReportTransactStatus(QueryResponseInfo),
		#[codec(index = 47)]
		UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
		#[codec(index = 255)]
		Never(core::marker::PhantomData<Call>),
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub struct Xcm<Call>(pub Vec<Instruction<Call>>);

	#[derive(Copy, Clone, Eq, PartialEq, RuntimeDebug)]
	pub enum SendError { NotApplicable, Transport(&'static str), Unroutable, DestinationUnsupported, ExceedsMaxMessageSize, MissingArgument, Fees }
	#[derive(Copy, Clone, Encode, Eq, PartialEq, RuntimeDebug, TypeInfo)]
	pub enum XcmError { Overflow, Unimplemented, BadOrigin, ExceedsMaxMessageSize, FailedToTransactAsset(#[codec(skip)] &'static str), Transport(#[codec(skip)] &'static str), NotHoldingFees, Unroutable }
	impl Decode for XcmError {
		fn decode<I: parity_scale_codec::Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> {
			i.read_byte().map(|_| XcmError::Unimplemented)
		}
	}
	pub use XcmError as Error;
	impl From<SendError> for XcmError {
		fn from(e: SendError) -> Self {
			match e {
				SendError::ExceedsMaxMessageSize => XcmError::ExceedsMaxMessageSize,
				SendError::Transport(s) => XcmError::Transport(s),
				_ => XcmError::Unroutable,
			}
		}
	}
	pub type XcmResult = Result<(), XcmError>;
	pub type SendResult<T> = Result<(T, Assets), SendError>;
	pub trait SendXcm {
		type Ticket;
		fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
		fn deliver(ticket: Self::Ticket) -> Result<XcmHash, SendError>;
	}
	pub fn send_xcm<T: SendXcm>(dest: Location, msg: Xcm<()>) -> Result<(XcmHash, Assets), SendError> {
		let (ticket, price) = T::validate(&mut Some(dest), &mut Some(msg))?;
		let hash = T::deliver(ticket)?;
		Ok((hash, price))
	}
}
