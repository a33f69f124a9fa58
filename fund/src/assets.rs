//! A small multi-asset pallet with the fungibles interfaces pallet-funding needs (harness code; stands for
//! pallet-assets, with its rules: minimum balances, sufficient assets, touched accounts).
pub use pallet::*;

#[frame_support::pallet(dev_mode)]
pub mod pallet {
	use frame_support::{
		pallet_prelude::*,
		storage::KeyPrefixIterator,
		traits::{
			fungibles::{self, Dust},
			tokens::{DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence},
			AccountTouch, ContainsPair,
		},
	};
	use sp_runtime::{DispatchResult, TokenError};
	type Id = u32;
	type Bal = u128;

	#[derive(Encode, Decode, TypeInfo, Clone, Default, Debug)]
	pub struct Details {
		pub min: Bal,
		pub sufficient: bool,
		pub supply: Bal,
		pub decimals: u8,
		pub name: Vec<u8>,
		pub symbol: Vec<u8>,
	}
	#[derive(Encode, Decode, TypeInfo, Clone, Default, Debug)]
	pub struct Holding {
		pub balance: Bal,
		/// 0: sufficient, 1: consumer, 2: deposit held
		pub reason: u8,
	}

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::storage]
	pub type Asset<T, I = ()> = StorageMap<_, Blake2_128Concat, Id, Details, OptionQuery>;
	#[pallet::storage]
	pub type Account<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, Id, Blake2_128Concat, T::AccountId, Holding, OptionQuery>;

	impl<T: Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I> {
		type AssetId = Id;
		type Balance = Bal;
		fn total_issuance(a: Id) -> Bal {
			Asset::<T, I>::get(a).map(|d| d.supply).unwrap_or_default()
		}
		fn minimum_balance(a: Id) -> Bal {
			Asset::<T, I>::get(a).map(|d| d.min).unwrap_or_default()
		}
		fn total_balance(a: Id, who: &T::AccountId) -> Bal {
			Account::<T, I>::get(a, who).map(|h| h.balance).unwrap_or_default()
		}
		fn balance(a: Id, who: &T::AccountId) -> Bal {
			Self::total_balance(a, who)
		}
		fn reducible_balance(a: Id, who: &T::AccountId, p: Preservation, _f: Fortitude) -> Bal {
			let b = Self::total_balance(a, who);
			if p == Preservation::Expendable {
				b
			} else {
				b.saturating_sub(Self::minimum_balance(a))
			}
		}
		fn can_deposit(a: Id, who: &T::AccountId, amount: Bal, _p: Provenance) -> DepositConsequence {
			let Some(d) = Asset::<T, I>::get(a) else { return DepositConsequence::UnknownAsset };
			if amount == 0 {
				return DepositConsequence::Success;
			}
			if d.supply.checked_add(amount).is_none() {
				return DepositConsequence::Overflow;
			}
			if let Some(h) = Account::<T, I>::get(a, who) {
				if h.balance.checked_add(amount).is_none() {
					return DepositConsequence::Overflow;
				}
			} else {
				if amount < d.min {
					return DepositConsequence::BelowMinimum;
				}
				if !d.sufficient && !frame_system::Pallet::<T>::can_accrue_consumers(who, 2) {
					return DepositConsequence::CannotCreate;
				}
			}
			DepositConsequence::Success
		}
		fn can_withdraw(a: Id, who: &T::AccountId, amount: Bal) -> WithdrawConsequence<Bal> {
			let Some(d) = Asset::<T, I>::get(a) else { return WithdrawConsequence::UnknownAsset };
			if amount == 0 {
				return WithdrawConsequence::Success;
			}
			let Some(h) = Account::<T, I>::get(a, who) else { return WithdrawConsequence::BalanceLow };
			match h.balance.checked_sub(amount) {
				None => WithdrawConsequence::BalanceLow,
				Some(r) if r < d.min => WithdrawConsequence::ReducedToZero(r),
				Some(_) => WithdrawConsequence::Success,
			}
		}
		fn asset_exists(a: Id) -> bool {
			Asset::<T, I>::contains_key(a)
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Unbalanced<T::AccountId> for Pallet<T, I> {
		fn handle_dust(dust: Dust<T::AccountId, Self>) {
			Asset::<T, I>::mutate(dust.0, |d| {
				if let Some(d) = d {
					d.supply -= dust.1
				}
			});
		}
		fn write_balance(a: Id, who: &T::AccountId, amount: Bal) -> Result<Option<Bal>, DispatchError> {
			let d = Asset::<T, I>::get(a).ok_or(TokenError::UnknownAsset)?;
			match Account::<T, I>::get(a, who) {
				Some(mut h) =>
					if amount < d.min && !(h.reason == 2 && amount == 0 && h.balance == 0) {
						match h.reason {
							0 => {
								frame_system::Pallet::<T>::dec_sufficients(who);
							},
							1 => frame_system::Pallet::<T>::dec_consumers(who),
							_ => (),
						}
						Account::<T, I>::remove(a, who);
						Ok(if amount > 0 { Some(amount) } else { None })
					} else {
						h.balance = amount;
						Account::<T, I>::insert(a, who, h);
						Ok(None)
					},
				None => {
					if amount == 0 {
						return Ok(None);
					}
					if amount < d.min {
						return Err(TokenError::BelowMinimum.into());
					}
					let reason = if d.sufficient {
						frame_system::Pallet::<T>::inc_sufficients(who);
						0
					} else {
						frame_system::Pallet::<T>::inc_consumers(who)?;
						1
					};
					Account::<T, I>::insert(a, who, Holding { balance: amount, reason });
					Ok(None)
				},
			}
		}
		fn set_total_issuance(a: Id, amount: Bal) {
			Asset::<T, I>::mutate(a, |d| {
				if let Some(d) = d {
					d.supply = amount
				}
			});
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Mutate<T::AccountId> for Pallet<T, I> {
		// As in pallet-assets: moving or minting nothing is fine, and what would be left below the minimum goes along.
		fn mint_into(a: Id, who: &T::AccountId, amount: Bal) -> Result<Bal, DispatchError> {
			use fungibles::Inspect;
			if amount == 0 {
				return Ok(0);
			}
			Self::can_deposit(a, who, amount, Provenance::Minted).into_result()?;
			<Self as fungibles::Unbalanced<T::AccountId>>::increase_balance(a, who, amount, Precision::Exact)?;
			Asset::<T, I>::mutate(a, |d| {
				if let Some(d) = d {
					d.supply += amount
				}
			});
			Ok(amount)
		}
		fn transfer(
			a: Id,
			source: &T::AccountId,
			dest: &T::AccountId,
			amount: Bal,
			preservation: Preservation,
		) -> Result<Bal, DispatchError> {
			use fungibles::{Inspect, Unbalanced};
			if amount == 0 {
				return Ok(0);
			}
			let h = Account::<T, I>::get(a, source).ok_or(TokenError::FundsUnavailable)?;
			let min = Self::minimum_balance(a);
			let mut avail = h.balance;
			if preservation != Preservation::Expendable {
				avail = avail.saturating_sub(min);
			}
			ensure!(amount <= avail, TokenError::FundsUnavailable);
			let left = h.balance - amount;
			let moved = if left < min { h.balance } else { amount };
			if source == dest {
				return Ok(moved);
			}
			Self::can_deposit(a, dest, moved, Provenance::Extant).into_result()?;
			Self::write_balance(a, source, h.balance - moved)?;
			let b = Self::total_balance(a, dest);
			Self::write_balance(a, dest, b + moved)?;
			Ok(moved)
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Create<T::AccountId> for Pallet<T, I> {
		fn create(id: Id, _admin: T::AccountId, sufficient: bool, min: Bal) -> DispatchResult {
			ensure!(!Asset::<T, I>::contains_key(id), DispatchError::Other("InUse"));
			Asset::<T, I>::insert(id, Details { min, sufficient, ..Default::default() });
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Destroy<T::AccountId> for Pallet<T, I> {
		fn start_destroy(_: Id, _: Option<T::AccountId>) -> DispatchResult {
			Err(DispatchError::Other("unsupported"))
		}
		fn destroy_accounts(_: Id, _: u32) -> Result<u32, DispatchError> {
			Err(DispatchError::Other("unsupported"))
		}
		fn destroy_approvals(_: Id, _: u32) -> Result<u32, DispatchError> {
			Err(DispatchError::Other("unsupported"))
		}
		fn finish_destroy(_: Id) -> DispatchResult {
			Err(DispatchError::Other("unsupported"))
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::InspectEnumerable<T::AccountId> for Pallet<T, I> {
		type AssetsIterator = KeyPrefixIterator<Id>;
		fn asset_ids() -> Self::AssetsIterator {
			Asset::<T, I>::iter_keys()
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::metadata::Inspect<T::AccountId> for Pallet<T, I> {
		fn name(a: Id) -> Vec<u8> {
			Asset::<T, I>::get(a).map(|d| d.name).unwrap_or_default()
		}
		fn symbol(a: Id) -> Vec<u8> {
			Asset::<T, I>::get(a).map(|d| d.symbol).unwrap_or_default()
		}
		fn decimals(a: Id) -> u8 {
			Asset::<T, I>::get(a).map(|d| d.decimals).unwrap_or_default()
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::metadata::Mutate<T::AccountId> for Pallet<T, I> {
		fn set(a: Id, _from: &T::AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
			Asset::<T, I>::try_mutate(a, |d| {
				let d = d.as_mut().ok_or(TokenError::UnknownAsset)?;
				d.name = name;
				d.symbol = symbol;
				d.decimals = decimals;
				Ok(())
			})
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::metadata::MetadataDeposit<Bal> for Pallet<T, I> {
		fn calc_metadata_deposit(_: &[u8], _: &[u8]) -> Bal {
			0
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::roles::Inspect<T::AccountId> for Pallet<T, I> {
		fn owner(_: Id) -> Option<T::AccountId> {
			None
		}
		fn issuer(_: Id) -> Option<T::AccountId> {
			None
		}
		fn admin(_: Id) -> Option<T::AccountId> {
			None
		}
		fn freezer(_: Id) -> Option<T::AccountId> {
			None
		}
	}
	impl<T: Config<I>, I: 'static> AccountTouch<Id, T::AccountId> for Pallet<T, I> {
		type Balance = Bal;
		fn deposit_required(_: Id) -> Bal {
			0
		}
		fn should_touch(a: Id, who: &T::AccountId) -> bool {
			!Account::<T, I>::contains_key(a, who)
		}
		fn touch(a: Id, who: &T::AccountId, _depositor: &T::AccountId) -> DispatchResult {
			ensure!(Asset::<T, I>::contains_key(a), TokenError::UnknownAsset);
			ensure!(!Account::<T, I>::contains_key(a, who), DispatchError::Other("AlreadyExists"));
			Account::<T, I>::insert(a, who, Holding { balance: 0, reason: 2 });
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> ContainsPair<Id, T::AccountId> for Pallet<T, I> {
		fn contains(a: &Id, who: &T::AccountId) -> bool {
			Account::<T, I>::contains_key(a, who)
		}
	}
}
