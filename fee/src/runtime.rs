//! The chain: the runtime's real fee handlers on real balances. Prices and the block's author are told by the simulator.
use crate::assets;
use frame_support::{
	derive_impl, parameter_types,
	traits::{fungibles, tokens::ConversionToAssetBalance, ConstU128},
	storage::unhashed,
	weights::{ConstantMultiplier, Weight},
};
use polimec_common::{ProvideAssetPrice, PLMC_DECIMALS, PLMC_FOREIGN_ID, USD_DECIMALS};
use shared_configuration::{fee, BlockchainOperationTreasury, TransactionByteFee};
use sp_runtime::{
	traits::{Convert, IdentityLookup},
	transaction_validity::InvalidTransaction,
	AccountId32, FixedPointNumber, FixedU128,
};
use xcm::v3::{Junction::*, Junctions::*, MultiLocation};

pub type Bal = u128;
pub type Acc = AccountId32;
pub type Block = frame_system::mocking::MockBlock<Rt>;
pub const ED: Bal = 10 * 10_000_000;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		ForeignAssets: assets,
		Staking: pallet_parachain_staking::{Pallet, Call, Storage, Event<T>, Config<T>, HoldReason},
	}
);

parameter_types! {
	pub const N: u32 = 3;
	pub const B: Bal = 10;
	pub const Pays: Acc = AccountId32::new([200; 32]);
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<Bal>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Acc>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = Bal;
	type ExistentialDeposit = ConstU128<ED>;
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl assets::Config for Rt {}
impl pallet_session::Config for Rt {}
impl pallet_authorship::Config for Rt {}
impl pallet_parachain_staking::Config for Rt {
	type Balance = Bal;
	type CandidateBondLessDelay = N;
	type Currency = Balances;
	type DelegationBondLessDelay = N;
	type LeaveCandidatesDelay = N;
	type LeaveDelegatorsDelay = N;
	type MaxBottomDelegationsPerCandidate = N;
	type MaxDelegationsPerDelegator = N;
	type MaxTopDelegationsPerCandidate = N;
	type MinBlocksPerRound = N;
	type MinCandidateStk = B;
	type MinDelegation = B;
	type MinDelegatorStk = B;
	type MinSelectedCandidates = N;
	type MonetaryGovernanceOrigin = frame_system::EnsureRoot<Acc>;
	type OnCollatorPayout = ();
	type OnNewRound = ();
	type PayMaster = Pays;
	type PayoutCollatorReward = ();
	type RevokeDelegationDelay = N;
	type RewardPaymentDelay = N;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}

impl pallet_transaction_payment::Config for Rt {
	type LengthToFee = ConstantMultiplier<Bal, TransactionByteFee>;
	type OnChargeTransaction = pallet_transaction_payment::FungibleAdapter<Balances, fee::DealWithFees<Rt>>;
	type WeightToFee = fee::WeightToFee;
}
impl pallet_asset_tx_payment::Config for Rt {
	type Fungibles = ForeignAssets;
	type OnChargeAssetTransaction = fee::TxFeeFungiblesAdapter<
		PlmcTo,
		Locations,
		fee::CreditFungiblesToAccount<Acc, ForeignAssets, BlockchainOperationTreasury>,
		ToAuthor,
	>;
}

impl fungibles::Balanced<Acc> for ForeignAssets {
	type OnDropCredit = fungibles::DecreaseIssuance<Acc, Self>;
	type OnDropDebt = fungibles::IncreaseIssuance<Acc, Self>;
}

pub struct ToAuthor;
impl pallet_asset_tx_payment::HandleCredit<Acc, ForeignAssets> for ToAuthor {
	fn handle_credit(credit: fungibles::Credit<Acc, ForeignAssets>) {
		if let Some(author) = pallet_authorship::Pallet::<Rt>::author() {
			let _ = <ForeignAssets as fungibles::Balanced<Acc>>::resolve(&author, credit);
		}
	}
}

pub fn price_key(id: u32) -> Vec<u8> {
	[b":sim:price".as_slice(), &id.to_le_bytes()].concat()
}
pub struct Prices;
impl ProvideAssetPrice for Prices {
	type AssetId = u32;
	type Price = FixedU128;
	fn get_price(id: u32) -> Option<FixedU128> {
		unhashed::get(&price_key(id))
	}
}

/// As the runtime's `ConvertMultilocationToAssetId`.
pub struct Locations;
impl Convert<MultiLocation, u32> for Locations {
	fn convert(l: MultiLocation) -> u32 {
		match l {
			MultiLocation { parents: 1, interior: Here } => 10,
			MultiLocation { parents: 1, interior: X3(Parachain(1000), PalletInstance(50), GeneralIndex(1337)) } => 1337,
			MultiLocation { parents: 1, interior: X3(Parachain(1000), PalletInstance(50), GeneralIndex(1984)) } => 1984,
			_ => 0,
		}
	}
}
/// As the runtime's `PLMCToFundingAssetBalance`.
pub struct PlmcTo;
impl ConversionToAssetBalance<Bal, u32, Bal> for PlmcTo {
	type Error = InvalidTransaction;
	fn to_asset_balance(plmc: Bal, id: u32) -> Result<Bal, Self::Error> {
		let plmc_price = Prices::get_decimals_aware_price(PLMC_FOREIGN_ID, USD_DECIMALS, PLMC_DECIMALS).ok_or(InvalidTransaction::Payment)?;
		let decimals = <ForeignAssets as fungibles::metadata::Inspect<Acc>>::decimals(id);
		let price = Prices::get_decimals_aware_price(id, USD_DECIMALS, decimals).ok_or(InvalidTransaction::Payment)?;
		Ok(price.reciprocal().ok_or(InvalidTransaction::Payment)?.saturating_mul_int(plmc_price.saturating_mul_int(plmc)))
	}
}

pub const BASE: Weight = Weight::from_parts(125_000_000, 0);
