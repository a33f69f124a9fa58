//! The simulated chain: the real parachain-staking pallet on real frame-system and balances. Sessions are rotated by
//! the simulator with the rules of pallet-session, authors are noted as pallet-authorship does.
use frame_support::{derive_impl, parameter_types, traits::VariantCountOf};
use sp_runtime::traits::IdentityLookup;

pub type Bal = u128;
pub type A = u64;
pub type Block = frame_system::mocking::MockBlock<Rt>;
/// The account that pays the rewards.
pub const PM: A = 1000;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Staking: pallet_parachain_staking::{Pallet, Call, Storage, Event<T>, Config<T>, HoldReason},
	}
);

pub type Hold = RuntimeHoldReason;
pub const HC: Hold = Hold::Staking(pallet_parachain_staking::HoldReason::StakingCollator);
pub const HD: Hold = Hold::Staking(pallet_parachain_staking::HoldReason::StakingDelegator);

parameter_types! {
	pub static ExistentialDeposit: Bal = 1;
	pub static MinBlocksPerRound: u32 = 3;
	pub static LeaveCandidatesDelay: u32 = 2;
	pub static CandidateBondLessDelay: u32 = 2;
	pub static LeaveDelegatorsDelay: u32 = 2;
	pub static RevokeDelegationDelay: u32 = 2;
	pub static DelegationBondLessDelay: u32 = 2;
	pub static RewardPaymentDelay: u32 = 2;
	pub static MinSelectedCandidates: u32 = 1;
	pub static MaxTop: u32 = 4;
	pub static MaxBottom: u32 = 4;
	pub static MaxDelegations: u32 = 4;
	pub static MinCandidateStk: Bal = 10;
	pub static MinDelegatorStk: Bal = 5;
	pub static MinDelegation: Bal = 3;
	pub const PayMaster: A = PM;
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<Bal>;
	type AccountId = A;
	type Block = Block;
	type Lookup = IdentityLookup<A>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = Bal;
	type ExistentialDeposit = ExistentialDeposit;
	type FreezeIdentifier = RuntimeFreezeReason;
	type MaxFreezes = VariantCountOf<RuntimeFreezeReason>;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl pallet_session::Config for Rt {}
impl pallet_authorship::Config for Rt {}
impl pallet_parachain_staking::Config for Rt {
	type Balance = Bal;
	type CandidateBondLessDelay = CandidateBondLessDelay;
	type Currency = Balances;
	type DelegationBondLessDelay = DelegationBondLessDelay;
	type LeaveCandidatesDelay = LeaveCandidatesDelay;
	type LeaveDelegatorsDelay = LeaveDelegatorsDelay;
	type MaxBottomDelegationsPerCandidate = MaxBottom;
	type MaxDelegationsPerDelegator = MaxDelegations;
	type MaxTopDelegationsPerCandidate = MaxTop;
	type MinBlocksPerRound = MinBlocksPerRound;
	type MinCandidateStk = MinCandidateStk;
	type MinDelegation = MinDelegation;
	type MinDelegatorStk = MinDelegatorStk;
	type MinSelectedCandidates = MinSelectedCandidates;
	type MonetaryGovernanceOrigin = frame_system::EnsureRoot<A>;
	type OnCollatorPayout = ();
	type OnNewRound = ();
	type PayMaster = PayMaster;
	type PayoutCollatorReward = ();
	type RevokeDelegationDelay = RevokeDelegationDelay;
	type RewardPaymentDelay = RewardPaymentDelay;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}
