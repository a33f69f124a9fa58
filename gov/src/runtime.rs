//! The simulated runtime: the real governance pallets of the repository on real frame-system,
//! balances, preimage, scheduler and vesting pallets, plus a small probe pallet (harness code).
use frame_support::{
	derive_impl, ord_parameter_types, parameter_types,
	traits::{
		fungible::{BalancedHold, InspectHold, MutateHold},
		ChangeMembers, ConstU32, EqualPrivilegeOnly, InitializeMembers, SortedMembers, WithdrawReasons,
	},
	weights::Weight,
};
use frame_system::{EnsureRoot, EnsureSigned, EnsureSignedBy};
use sp_runtime::traits::{ConvertInto, IdentityLookup};

pub type Acc = u64;
pub type Bal = u128;
pub type Bn = u64;
pub type Block = frame_system::mocking::MockBlock<Rt>;

#[frame_support::pallet(dev_mode)]
pub mod probe {
	use super::*;
	use frame_support::{pallet_prelude::*, traits::tokens::Precision};
	use frame_system::pallet_prelude::*;

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::config]
	pub trait Config: frame_system::Config<AccountId = Acc> + pallet_vesting::Config {
		type RuntimeHoldReason: From<HoldReason>;
		type Fungible: MutateHold<Acc, Balance = Bal, Reason = <Self as Config>::RuntimeHoldReason> + BalancedHold<Acc>;
		type OnSlash: on_slash_vesting::OnSlash<Acc, Bal>;
	}

	/// Funds held by "some other pallet" (funding, staking): competes with governance holds.
	#[pallet::composite_enum]
	pub enum HoldReason {
		Other,
	}

	/// Root calls that were enacted: (payload, block).
	#[pallet::storage]
	pub type Log<T> = StorageValue<_, Vec<(u32, Bn)>, ValueQuery>;
	/// What the collective was told last.
	#[pallet::storage]
	pub type CollMembers<T> = StorageValue<_, Vec<Acc>, ValueQuery>;
	#[pallet::storage]
	pub type CollPrime<T> = StorageValue<_, Acc, OptionQuery>;
	/// Complaints of the collective about an inconsistent change.
	#[pallet::storage]
	pub type CollBad<T> = StorageValue<_, u32, ValueQuery>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn enact(origin: OriginFor<T>, id: u32, pad: Vec<u8>) -> DispatchResult {
			let _ = pad;
			ensure_root(origin)?;
			let n: u64 = TryInto::<u64>::try_into(frame_system::Pallet::<T>::block_number()).ok().unwrap();
			Log::<T>::mutate(|l| l.push((id, n)));
			if id % 5 == 4 {
				return Err(DispatchError::Other("this proposal fails when enacted"));
			}
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn hold(origin: OriginFor<T>, amount: Bal) -> DispatchResult {
			let who = ensure_signed(origin)?;
			T::Fungible::hold(&HoldReason::Other.into(), &who, amount)
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn release(origin: OriginFor<T>, amount: Bal) -> DispatchResult {
			let who = ensure_signed(origin)?;
			T::Fungible::release(&HoldReason::Other.into(), &who, amount, Precision::BestEffort)?;
			Ok(())
		}
		/// What pallet-funding does to an evaluator of a failed project: slash held funds, then
		/// tell the slash handler.
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(1_000, 0))]
		pub fn slash(origin: OriginFor<T>, who: Acc, amount: Bal) -> DispatchResult {
			ensure_root(origin)?;
			let held = T::Fungible::balance_on_hold(&HoldReason::Other.into(), &who);
			let amount = amount.min(held);
			let (credit, missing) = T::Fungible::slash(&HoldReason::Other.into(), &who, amount);
			let done = amount - missing;
			drop(credit);
			<T::OnSlash as on_slash_vesting::OnSlash<Acc, Bal>>::on_slash(&who, done);
			Ok(())
		}
		/// A heavy call, to fill blocks.
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(*w, 0))]
		pub fn burn_weight(origin: OriginFor<T>, w: u64) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = w;
			Ok(())
		}
	}
}

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system = 0,
		Balances: pallet_balances = 10,
		Vesting: pallet_vesting = 12,
		Democracy: pallet_democracy::{Pallet, Call, Storage, Config<T>, Event<T>, HoldReason, FreezeReason} = 41,
		Elections: pallet_elections_phragmen::{Pallet, Call, Storage, Event<T>, Config<T>, HoldReason, FreezeReason} = 44,
		Preimage: pallet_preimage::{Pallet, Call, Storage, Event<T>} = 45,
		Scheduler: pallet_scheduler = 46,
		Probe: probe::{Pallet, Call, Storage, HoldReason} = 60,
	}
);

parameter_types! {
	pub BlockWeights: frame_system::limits::BlockWeights =
		frame_system::limits::BlockWeights::simple_max(Weight::from_parts(2_000_000_000_000, u64::MAX));
	pub static SchedWeight: Weight = Weight::from_parts(1_600_000_000_000, u64::MAX);
	pub static Ed: Bal = 1;
	// democracy
	pub static VotingPeriod: Bn = 2;
	pub static LaunchPeriod: Bn = 2;
	pub static EnactmentPeriod: Bn = 2;
	pub static VoteLockingPeriod: Bn = 3;
	pub static CooloffPeriod: Bn = 2;
	pub static FastTrackVotingPeriod: Bn = 2;
	pub static MinimumDeposit: Bal = 1;
	pub static InstantAllowed: bool = false;
	pub static MaxVotes: u32 = 100;
	pub static MaxProposals: u32 = 100;
	pub static MaxDeposits: u32 = 100;
	pub static MaxBlacklisted: u32 = 5;
	// elections
	pub static CandidacyBond: Bal = 3;
	pub static DesiredMembers: u32 = 2;
	pub static DesiredRunnersUp: u32 = 2;
	pub static TermDuration: Bn = 5;
	pub static VotingLockPeriod: Bn = 2;
	pub static MaxCandidates: u32 = 100;
	pub static MaxVoters: u32 = 100;
	pub static MaxVotesPerVoter: u32 = 16;
	// vesting
	pub static MinVestedTransfer: Bal = 2;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}

pub const EXT_DEFAULT: Acc = 101;
pub const EXTERNAL: Acc = 102;
pub const EXT_MAJORITY: Acc = 103;
pub const CANCELLER: Acc = 104;
pub const FASTTRACK: Acc = 105;
pub const INSTANT: Acc = 106;
pub const VETO_LO: Acc = 111;
pub const VETO_HI: Acc = 116;
pub const TREASURY: Acc = 900;
pub const SUDO: Acc = 999;

ord_parameter_types! {
	pub const AccExtDefault: Acc = EXT_DEFAULT;
	pub const AccExternal: Acc = EXTERNAL;
	pub const AccExtMajority: Acc = EXT_MAJORITY;
	pub const AccCanceller: Acc = CANCELLER;
	pub const AccFastTrack: Acc = FASTTRACK;
	pub const AccInstant: Acc = INSTANT;
}
pub struct Vetoers;
impl SortedMembers<Acc> for Vetoers {
	fn sorted_members() -> Vec<Acc> {
		(VETO_LO..=VETO_HI).collect()
	}
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<Bal>;
	type AccountId = Acc;
	type Block = Block;
	type BlockWeights = BlockWeights;
	type Lookup = IdentityLookup<Acc>;
}

impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = Bal;
	type DustRemoval = ();
	type ExistentialDeposit = Ed;
	type FreezeIdentifier = RuntimeFreezeReason;
	type MaxFreezes = ConstU32<10>;
	type MaxLocks = ConstU32<10>;
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}

impl pallet_preimage::Config for Rt {
	type Consideration = ();
	type Currency = Balances;
	type ManagerOrigin = EnsureRoot<Acc>;
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
}

impl pallet_scheduler::Config for Rt {
	type MaxScheduledPerBlock = ConstU32<64>;
	type MaximumWeight = SchedWeight;
	type OriginPrivilegeCmp = EqualPrivilegeOnly;
	type PalletsOrigin = OriginCaller;
	type Preimages = Preimage;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type ScheduleOrigin = EnsureRoot<Acc>;
	type WeightInfo = ();
}

impl pallet_vesting::Config for Rt {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 6;
}

/// As in runtimes/polimec: issuance without what the treasury holds.
pub struct Electorate;
impl pallet_democracy::GetElectorate<Bal> for Electorate {
	fn get_electorate() -> Bal {
		Balances::total_issuance().saturating_sub(Balances::free_balance(TREASURY))
	}
}

impl pallet_democracy::Config for Rt {
	type BlacklistOrigin = EnsureRoot<Acc>;
	type CancelProposalOrigin = EnsureRoot<Acc>;
	type CancellationOrigin = EnsureSignedBy<AccCanceller, Acc>;
	type CooloffPeriod = CooloffPeriod;
	type Electorate = Electorate;
	type EnactmentPeriod = EnactmentPeriod;
	type ExternalDefaultOrigin = EnsureSignedBy<AccExtDefault, Acc>;
	type ExternalMajorityOrigin = EnsureSignedBy<AccExtMajority, Acc>;
	type ExternalOrigin = EnsureSignedBy<AccExternal, Acc>;
	type FastTrackOrigin = EnsureSignedBy<AccFastTrack, Acc>;
	type FastTrackVotingPeriod = FastTrackVotingPeriod;
	type Fungible = Balances;
	type InstantAllowed = InstantAllowed;
	type InstantOrigin = EnsureSignedBy<AccInstant, Acc>;
	type LaunchPeriod = LaunchPeriod;
	type MaxBlacklisted = MaxBlacklisted;
	type MaxDeposits = MaxDeposits;
	type MaxProposals = MaxProposals;
	type MaxVotes = MaxVotes;
	type MinimumDeposit = MinimumDeposit;
	type PalletsOrigin = OriginCaller;
	type Preimages = Preimage;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Scheduler = Scheduler;
	type Slash = ();
	type SubmitOrigin = EnsureSigned<Acc>;
	type VetoOrigin = EnsureSignedBy<Vetoers, Acc>;
	type VoteLockingPeriod = VoteLockingPeriod;
	type VotingPeriod = VotingPeriod;
	type WeightInfo = ();
}

/// Stands in for pallet-collective: keeps what it is told, and checks that each change is
/// consistent with what it knew.
pub struct Collective;
impl ChangeMembers<Acc> for Collective {
	fn change_members_sorted(incoming: &[Acc], outgoing: &[Acc], new: &[Acc]) {
		let old = probe::CollMembers::<Rt>::get();
		let sorted = |v: &[Acc]| v.windows(2).all(|w| w[0] < w[1]);
		let mut a = old.clone();
		a.retain(|x| !outgoing.contains(x));
		a.extend_from_slice(incoming);
		a.sort();
		if !sorted(new) ||
			!sorted(incoming) ||
			!sorted(outgoing) ||
			a != new ||
			outgoing.iter().any(|o| !old.contains(o)) ||
			incoming.iter().any(|i| old.contains(i))
		{
			probe::CollBad::<Rt>::mutate(|b| *b += 1);
		}
		probe::CollMembers::<Rt>::put(new.to_vec());
		probe::CollPrime::<Rt>::kill();
	}
	fn set_prime(p: Option<Acc>) {
		match p {
			Some(p) => probe::CollPrime::<Rt>::put(p),
			None => probe::CollPrime::<Rt>::kill(),
		}
	}
	fn get_prime() -> Option<Acc> {
		probe::CollPrime::<Rt>::get()
	}
}
impl InitializeMembers<Acc> for Collective {
	fn initialize_members(m: &[Acc]) {
		probe::CollMembers::<Rt>::put(m.to_vec());
	}
}

impl pallet_elections_phragmen::Config for Rt {
	type Balance = Bal;
	type CandidacyBond = CandidacyBond;
	type ChangeMembers = Collective;
	type Currency = Balances;
	type CurrencyToVote = sp_staking::currency_to_vote::U128CurrencyToVote;
	type DesiredMembers = DesiredMembers;
	type DesiredRunnersUp = DesiredRunnersUp;
	type InitializeMembers = Collective;
	type LoserCandidate = ();
	type MaxCandidates = MaxCandidates;
	type MaxVoters = MaxVoters;
	type MaxVotesPerVoter = MaxVotesPerVoter;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type TermDuration = TermDuration;
	type VotingLockPeriod = VotingLockPeriod;
	type WeightInfo = ();
}

impl probe::Config for Rt {
	type Fungible = Balances;
	type OnSlash = Vesting;
	type RuntimeHoldReason = RuntimeHoldReason;
}

pub fn set_sched_stalled(stalled: bool) {
	use pallet_scheduler::WeightInfo;
	if stalled {
		let w = <() as WeightInfo>::service_agendas_base();
		SchedWeight::set(w.saturating_add(Weight::from_parts(1, 1)));
	} else {
		SchedWeight::set(Weight::from_parts(1_600_000_000_000, u64::MAX));
	}
}
