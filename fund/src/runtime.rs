//! The simulated Polimec chain: the real funding, linear-release, proxy-bonding, dispenser and on-slash-vesting
//! pallets on real frame-system, balances and vesting; the oracle's prices and the message router are harness code.
use crate::assets;
use frame_support::{
	derive_impl, parameter_types,
	storage::unhashed,
	traits::{ConstU32, ConstU64, ConstU8, WithdrawReasons},
	PalletId,
};
use frame_system::EnsureRoot;
use parity_scale_codec::{Decode, Encode};
use polimec_common::{
	credentials::{Cid, EnsureInvestor},
	ProvideAssetPrice, PLMC_DECIMALS, PLMC_FOREIGN_ID, USD_DECIMALS, USD_UNIT,
};
use sp_arithmetic::FixedU128;
use sp_runtime::{
	traits::{AccountIdConversion, Convert, ConvertBack, ConvertInto, IdentityLookup},
	AccountId32, Perbill,
};
use std::ops::RangeInclusive;
use xcm::v4::{Location, SendError, SendXcm, Xcm, XcmHash};

pub type Acc = AccountId32;
pub type Bal = u128;
pub type Bn = u64;
pub type Block = sp_runtime::generic::Block<
	sp_runtime::generic::Header<u64, sp_runtime::traits::BlakeTwo256>,
	sp_runtime::generic::UncheckedExtrinsic<Acc, RuntimeCall, (), ()>,
>;

pub const PLMC: u128 = 10_000_000_000;
pub const ED: u128 = PLMC / 100;
pub const USDT: u32 = 1984;
pub const USDC: u32 = 1337;
pub const DOT: u32 = 10;
pub const POLIMEC_PARA: u32 = 3344;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Timestamp: pallet_timestamp,
		Balances: pallet_balances,
		Vesting: pallet_vesting,
		LinearRelease: pallet_linear_release,
		ContributionTokens: assets::<Instance1>,
		ForeignAssets: assets::<Instance2>,
		PolkadotXcm: pallet_xcm,
		ProxyBonding: pallet_proxy_bonding,
		Dispenser: pallet_dispenser,
		Funding: pallet_funding::{Pallet, Call, Storage, Event<T>, HoldReason} = 52,
	}
);

pub type CtInst = frame_support::instances::Instance1;
pub type FaInst = frame_support::instances::Instance2;
pub type Hold = RuntimeHoldReason;
pub const PART: Hold = Hold::Funding(pallet_funding::HoldReason::Participation);
pub const EVAL: Hold = Hold::Funding(pallet_funding::HoldReason::Evaluation);

pub fn acc(b: u8) -> Acc {
	Acc::new([b; 32])
}
parameter_types! {
	pub const ExistentialDeposit: Bal = ED;
	pub const PalletFund: PalletId = PalletId(*b"plmc-fun");
	pub OpsTreasury: Acc = acc(201);
	pub BondTreasury: Acc = acc(202);
	pub CtTreasury: Acc = acc(203);
	pub FeeRecipient: Acc = acc(204);
	pub const MinVestedTransfer: u128 = 512;
	pub Reasons: WithdrawReasons = WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
	pub MsgSize: RangeInclusive<u32> = 50000..=102_400;
	pub Capacity: RangeInclusive<u32> = 8..=1000;
	pub const ReqCapacity: u32 = 8;
	pub const ReqMsg: u32 = 102_400;
	pub VerifierKey: [u8; 32] = [
		32, 118, 30, 171, 58, 212, 197, 27, 146, 122, 255, 243, 34, 245, 90, 244, 221, 37, 253,
		195, 18, 202, 111, 55, 39, 48, 123, 17, 101, 78, 215, 94,
	];
	pub const MinEvaluation: Bal = 100 * USD_UNIT;
	pub FeePercentage: Perbill = Perbill::from_rational(75u32, 1000u32);
	pub const RootId: PalletId = PalletId(*b"treasury");
	pub const DispenserId: PalletId = PalletId(*b"plmc/fct");
	pub const FreeDispense: Bal = 5 * PLMC;
	pub const InitialDispense: Bal = 700 * PLMC;
	pub WhitelistedPolicy: Cid = policy(99);
}
pub fn policy(i: u8) -> Cid {
	format!("Qmpolicy{i:03}").into_bytes().try_into().unwrap()
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<Bal>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Acc>;
	type Nonce = u64;
}
impl pallet_timestamp::Config for Rt {
	type MinimumPeriod = ConstU64<5>;
	type Moment = u64;
}
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = Bal;
	type DustRemoval = ();
	type ExistentialDeposit = ExistentialDeposit;
	type FreezeIdentifier = ();
	type MaxFreezes = ConstU32<16>;
	type MaxLocks = ConstU32<64>;
	type MaxReserves = ConstU32<16>;
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}
impl pallet_vesting::Config for Rt {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = Reasons;
	type WeightInfo = ();
	const MAX_VESTING_SCHEDULES: u32 = 12;
}
impl pallet_linear_release::Config for Rt {
	type Balance = Bal;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type UnvestedFundsAllowedWithdrawReasons = Reasons;
	type WeightInfo = ();
	const MAX_VESTING_SCHEDULES: u32 = 100;
}
impl assets::Config<CtInst> for Rt {}
impl assets::Config<FaInst> for Rt {}

/// Messages that left the chain, in order (kept in storage so that a rolled-back call sends nothing).
const OUTBOX: &[u8] = b":sim:outbox";
const ROUTER_DOWN: &[u8] = b":sim:router_down";
pub struct Router;
impl SendXcm for Router {
	type Ticket = (Location, Xcm<()>);
	fn validate(d: &mut Option<Location>, m: &mut Option<Xcm<()>>) -> Result<(Self::Ticket, xcm::v4::Assets), SendError> {
		let d = d.take().ok_or(SendError::Unroutable)?;
		let m = m.take().ok_or(SendError::Unroutable)?;
		Ok(((d, m), Default::default()))
	}
	fn deliver(t: Self::Ticket) -> Result<XcmHash, SendError> {
		if unhashed::exists(ROUTER_DOWN) {
			return Err(SendError::Transport("no channel"));
		}
		let mut v: Vec<(Location, Vec<u8>)> = unhashed::get_or_default(OUTBOX);
		v.push((t.0, t.1.encode()));
		unhashed::put(OUTBOX, &v);
		Ok([0; 32])
	}
}
pub fn set_router_down(down: bool) {
	if down {
		unhashed::put(ROUTER_DOWN, &1u8)
	} else {
		unhashed::kill(ROUTER_DOWN)
	}
}
pub fn take_outbox() -> Vec<(Location, Xcm<()>)> {
	let v: Vec<(Location, Vec<u8>)> = unhashed::get_or_default(OUTBOX);
	unhashed::kill(OUTBOX);
	v.into_iter().map(|(l, x)| (l, Xcm::<()>::decode(&mut &x[..]).expect("own encoding"))).collect()
}
pub fn outbox_len() -> usize {
	let v: Vec<(Location, Vec<u8>)> = unhashed::get_or_default(OUTBOX);
	v.len()
}
impl pallet_xcm::Config for Rt {
	type RuntimeCall = RuntimeCall;
	type RuntimeOrigin = RuntimeOrigin;
	type XcmRouter = Router;
}

fn price_key(id: u32) -> Vec<u8> {
	(b":sim:price".as_slice(), id).encode()
}
pub fn set_price(id: u32, p: Option<FixedU128>) {
	match p {
		Some(p) => unhashed::put(&price_key(id), &p),
		None => unhashed::kill(&price_key(id)),
	}
}
pub fn get_price(id: u32) -> Option<FixedU128> {
	unhashed::get(&price_key(id))
}
pub struct Prices;
impl ProvideAssetPrice for Prices {
	type AssetId = u32;
	type Price = FixedU128;
	fn get_price(id: u32) -> Option<FixedU128> {
		get_price(id)
	}
}
pub struct Identity;
impl Convert<Acc, [u8; 32]> for Identity {
	fn convert(a: Acc) -> [u8; 32] {
		a.into()
	}
}
impl ConvertBack<Acc, [u8; 32]> for Identity {
	fn convert_back(b: [u8; 32]) -> Acc {
		Acc::new(b)
	}
}

impl pallet_funding::Config for Rt {
	type AccountId32Conversion = Identity;
	type AllPalletsWithoutSystem = (Balances, LinearRelease, Funding);
	type AuctionRoundDuration = ConstU64<15>;
	type BlockNumber = Bn;
	type BlockchainOperationTreasury = OpsTreasury;
	type CommunityRoundDuration = ConstU64<18>;
	type ContributionTokenCurrency = ContributionTokens;
	type ContributionTreasury = CtTreasury;
	type DaysToBlocks = pallet_funding::types::DaysToBlocks;
	type EvaluationRoundDuration = ConstU64<10>;
	type EvaluationSuccessThreshold = shared_configuration::EarlyEvaluationThreshold;
	type EvaluatorSlash = shared_configuration::EvaluatorSlash;
	type FeeBrackets = shared_configuration::FeeBrackets;
	type FundingCurrency = ForeignAssets;
	type FundingSuccessThreshold = shared_configuration::FundingSuccessThreshold;
	type InvestorOrigin = EnsureInvestor<Rt>;
	type MaxBidsPerProject = ConstU32<40>;
	type MaxBidsPerUser = ConstU32<12>;
	type MaxCapacityThresholds = Capacity;
	type MaxContributionsPerUser = ConstU32<6>;
	type MaxEvaluationsPerProject = ConstU32<16>;
	type MaxEvaluationsPerUser = ConstU32<4>;
	type MaxMessageSizeThresholds = MsgSize;
	type MinUsdPerEvaluation = MinEvaluation;
	type Multiplier = pallet_funding::types::Multiplier;
	type NativeCurrency = Balances;
	type OnSlash = Vesting;
	type PalletId = PalletFund;
	type Price = FixedU128;
	type PriceProvider = Prices;
	type RemainderRoundDuration = ConstU64<6>;
	type RequiredMaxCapacity = ReqCapacity;
	type RequiredMaxMessageSize = ReqMsg;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type RuntimeOrigin = RuntimeOrigin;
	type StringLimit = ConstU32<64>;
	type VerifierPublicKey = VerifierKey;
	type WeightInfo = pallet_funding::weights::SubstrateWeight<Rt>;
}
impl pallet_proxy_bonding::Config for Rt {
	type BondingToken = Balances;
	type BondingTokenDecimals = ConstU8<PLMC_DECIMALS>;
	type BondingTokenId = ConstU32<PLMC_FOREIGN_ID>;
	type FeePercentage = FeePercentage;
	type FeeRecipient = FeeRecipient;
	type FeeToken = ForeignAssets;
	type Id = PalletId;
	type PriceProvider = Prices;
	type RootId = RootId;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Treasury = BondTreasury;
	type UsdDecimals = ConstU8<USD_DECIMALS>;
}
impl pallet_dispenser::Config for Rt {
	type AdminOrigin = EnsureRoot<Acc>;
	type BlockNumberToBalance = ConvertInto;
	type FreeDispenseAmount = FreeDispense;
	type InitialDispenseAmount = InitialDispense;
	type InvestorOrigin = EnsureInvestor<Rt>;
	type LockPeriod = ConstU64<30>;
	type PalletId = DispenserId;
	type RuntimeEvent = RuntimeEvent;
	type VerifierPublicKey = VerifierKey;
	type VestPeriod = ConstU64<50>;
	type VestingSchedule = Vesting;
	type WeightInfo = ();
	type WhitelistedPolicy = WhitelistedPolicy;
}

pub fn escrow(pid: u32) -> Acc {
	PalletFund::get().into_sub_account_truncating(pid + 1)
}
pub fn bonding(pid: u32) -> Acc {
	RootId::get().into_sub_account_truncating(pid + 1)
}
pub fn pallet_account() -> Acc {
	PalletFund::get().into_account_truncating()
}
pub fn dispenser_account() -> Acc {
	DispenserId::get().into_account_truncating()
}
pub fn fa_min(id: u32) -> u128 {
	match id {
		DOT => 100_000_000,
		_ => 70_000,
	}
}
