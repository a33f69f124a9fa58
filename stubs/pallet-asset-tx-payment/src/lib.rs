//! The interfaces of pallet-asset-tx-payment for paying fees in other currencies; the simulator calls them as the
//! pallet's transaction extension does.
use frame_support::{
	traits::{
		fungibles::{Balanced, Credit, Inspect},
	},
	unsigned::TransactionValidityError,
};
use pallet_transaction_payment::OnChargeTransaction;
use parity_scale_codec::FullCodec;
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32BitUnsigned, DispatchInfoOf, MaybeSerializeDeserialize, PostDispatchInfoOf};

type BalanceOf<T> = <<T as pallet_transaction_payment::Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
type AssetBalanceOf<T> = <<T as Config>::Fungibles as Inspect<<T as frame_system::Config>::AccountId>>::Balance;

pub trait Config: frame_system::Config + pallet_transaction_payment::Config {
	type Fungibles: Balanced<Self::AccountId>;
	type OnChargeAssetTransaction: OnChargeAssetTransaction<Self, Balance = BalanceOf<Self>>;
}

pub trait OnChargeAssetTransaction<T: Config> {
	type Balance: AtLeast32BitUnsigned + FullCodec + Copy + core::fmt::Debug + Default + TypeInfo;
	type AssetId: FullCodec + Copy + MaybeSerializeDeserialize + core::fmt::Debug + Default + Eq + TypeInfo;
	type LiquidityInfo;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		asset_id: Self::AssetId,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		post_info: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(AssetBalanceOf<T>, AssetBalanceOf<T>), TransactionValidityError>;
}

pub trait HandleCredit<AccountId, B: Balanced<AccountId>> {
	fn handle_credit(credit: Credit<AccountId, B>);
}
