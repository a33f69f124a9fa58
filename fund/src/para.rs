//! The chain of a funded project: the real polimec-receiver on real frame-system, balances and vesting.
use frame_support::{
	derive_impl, parameter_types,
	traits::{ConstU128, ConstU32, WithdrawReasons},
};
use polimec_common::migration_types::MigrationInfo;
use polkadot_parachain_primitives::primitives::{Id as ParaId, Sibling};
use sp_runtime::{
	traits::{AccountIdConversion, Convert, ConvertInto, IdentityLookup},
	AccountId32,
};
pub type Acc = AccountId32;
pub type Bal = u128;
pub type Block = sp_runtime::generic::Block<
	sp_runtime::generic::Header<u64, sp_runtime::traits::BlakeTwo256>,
	sp_runtime::generic::UncheckedExtrinsic<Acc, RuntimeCall, (), ()>,
>;
frame_support::construct_runtime!(
	pub enum Para {
		System: frame_system,
		Balances: pallet_balances,
		Vesting: pallet_vesting,
		CumulusXcm: cumulus_pallet_xcm,
		PolimecReceiver: polimec_receiver = 51,
	}
);
parameter_types! {
	pub const One: Bal = 1;
	pub Polimec: ParaId = ParaId::from(3344u32);
	pub const Genesis: u64 = 1;
	pub Reasons: WithdrawReasons = WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig)]
impl frame_system::Config for Para {
	type AccountData = pallet_balances::AccountData<Bal>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Acc>;
	type Nonce = u64;
}
impl pallet_balances::Config for Para {
	type AccountStore = System;
	type Balance = Bal;
	type DustRemoval = ();
	type ExistentialDeposit = One;
	type FreezeIdentifier = ();
	type MaxFreezes = ConstU32<16>;
	type MaxLocks = ConstU32<64>;
	type MaxReserves = ConstU32<16>;
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}
impl pallet_vesting::Config for Para {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = ConstU128<1>;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = Reasons;
	type WeightInfo = ();
	const MAX_VESTING_SCHEDULES: u32 = 60;
}
impl cumulus_pallet_xcm::Config for Para {}
pub struct PerBlock;
impl Convert<MigrationInfo, Bal> for PerBlock {
	fn convert(i: MigrationInfo) -> Bal {
		(i.contribution_token_amount / u128::from(i.vesting_time.max(1))).max(1)
	}
}
impl polimec_receiver::Config for Para {
	type Balance = Bal;
	type Balances = Balances;
	type GenesisMoment = Genesis;
	type MaxMigrations = ConstU128<100>;
	type MigrationInfoToPerBlockBalance = PerBlock;
	type PolimecParaId = Polimec;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type Vesting = Vesting;
}
pub fn sovereign() -> Acc {
	Sibling(Polimec::get()).into_account_truncating()
}
