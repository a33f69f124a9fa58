//! The types and constants of `parachains-common` that are used: 12-second blocks.
#![cfg_attr(not(feature = "std"), no_std)]
use frame_support::weights::{constants::WEIGHT_REF_TIME_PER_SECOND, Weight};
use sp_runtime::Perbill;

pub type AccountId = sp_runtime::AccountId32;
pub type Balance = u128;
pub type BlockNumber = u32;
pub type AssetIdForTrustBackedAssets = u32;
pub const MILLISECS_PER_BLOCK: u64 = 12000;
pub const SLOT_DURATION: u64 = MILLISECS_PER_BLOCK;
pub const MINUTES: u32 = 60_000 / (MILLISECS_PER_BLOCK as u32);
pub const HOURS: u32 = MINUTES * 60;
pub const DAYS: u32 = HOURS * 24;
pub const AVERAGE_ON_INITIALIZE_RATIO: Perbill = Perbill::from_percent(5);
pub const NORMAL_DISPATCH_RATIO: Perbill = Perbill::from_percent(75);
pub const MAXIMUM_BLOCK_WEIGHT: Weight = Weight::from_parts(WEIGHT_REF_TIME_PER_SECOND.saturating_div(2), 5 * 1024 * 1024);
pub mod impls {
	pub type AccountIdOf<R> = <R as frame_system::Config>::AccountId;
}
