//! The part of pallet-transaction-payment that fee handlers are plugged into: taking the fee before a call, giving back
//! what was too much after it, and handing fee and tip on. Computing fees and calling this is the simulator's.
use core::marker::PhantomData;
use frame_support::{
	traits::{
		fungible::{Balanced, Credit, Debt, Inspect},
		tokens::{Fortitude, Precision, Preservation},
		Imbalance, OnUnbalanced,
	},
	unsigned::TransactionValidityError,
	weights::WeightToFee,
};
use parity_scale_codec::FullCodec;
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{AtLeast32BitUnsigned, DispatchInfoOf, PostDispatchInfoOf, Saturating, Zero},
	transaction_validity::InvalidTransaction,
};

pub trait Config: frame_system::Config {
	type OnChargeTransaction: OnChargeTransaction<Self>;
	type WeightToFee: WeightToFee<Balance = <Self::OnChargeTransaction as OnChargeTransaction<Self>>::Balance>;
	type LengthToFee: WeightToFee<Balance = <Self::OnChargeTransaction as OnChargeTransaction<Self>>::Balance>;
}

pub trait OnChargeTransaction<T: Config> {
	type Balance: AtLeast32BitUnsigned + FullCodec + Copy + core::fmt::Debug + Default + TypeInfo;
	type LiquidityInfo: Default;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		post_info: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError>;
}

pub struct FungibleAdapter<F, OU>(PhantomData<(F, OU)>);
impl<T, F, OU> OnChargeTransaction<T> for FungibleAdapter<F, OU>
where
	T: Config,
	F: Balanced<T::AccountId>,
	<F as Inspect<T::AccountId>>::Balance: FullCodec + TypeInfo,
	OU: OnUnbalanced<Credit<T::AccountId, F>>,
{
	type Balance = <F as Inspect<T::AccountId>>::Balance;
	type LiquidityInfo = Option<Credit<T::AccountId, F>>;

	fn withdraw_fee(
		who: &T::AccountId,
		_: &T::RuntimeCall,
		_: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		_: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None);
		}
		F::withdraw(who, fee, Precision::Exact, Preservation::Preserve, Fortitude::Polite)
			.map(Some)
			.map_err(|_| InvalidTransaction::Payment.into())
	}

	fn correct_and_deposit_fee(
		who: &T::AccountId,
		_: &DispatchInfoOf<T::RuntimeCall>,
		_: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError> {
		if let Some(paid) = already_withdrawn {
			let refund = paid.peek().saturating_sub(corrected_fee);
			let back = if F::total_balance(who) > F::Balance::zero() {
				F::deposit(who, refund, Precision::BestEffort).unwrap_or_else(|_| Debt::<T::AccountId, F>::zero())
			} else {
				Debt::<T::AccountId, F>::zero()
			};
			let adjusted: Credit<T::AccountId, F> =
				paid.offset(back).same().map_err(|_| TransactionValidityError::from(InvalidTransaction::Payment))?;
			let (tip, fee) = adjusted.split(tip);
			OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
		}
		Ok(())
	}
}
