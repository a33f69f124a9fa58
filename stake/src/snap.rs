//! What the chain's state says, read through the pallet's public queries.
use crate::runtime::*;
use frame_support::traits::fungible::InspectHold;
use pallet_parachain_staking as ps;
use ps::{CapacityStatus, CollatorStatus, DelegationAction};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

type S = ps::Pallet<Rt>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
	Revoke(u128),
	Decrease(u128),
}
impl Act {
	pub fn amount(&self) -> u128 {
		match self {
			Act::Revoke(x) | Act::Decrease(x) => *x,
		}
	}
	pub fn revoke(&self) -> bool {
		matches!(self, Act::Revoke(_))
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
	Active,
	Idle,
	Leaving(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cap {
	Full,
	Empty,
	Partial,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cand {
	pub bond: u128,
	pub count: u32,
	pub counted: u128,
	pub low_top: u128,
	pub hi_bot: u128,
	pub low_bot: u128,
	pub top_cap: Cap,
	pub bot_cap: Cap,
	pub req: Option<(u128, u32)>,
	pub status: Status,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dele {
	pub dels: BTreeMap<A, u128>,
	pub total: u128,
	pub less: u128,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Shot {
	pub bond: u128,
	pub dels: Vec<(A, u128, u8)>,
	pub total: u128,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Acct {
	pub free: u128,
	pub hc: u128,
	pub hd: u128,
	pub reserved: u128,
	pub frozen: u128,
}
impl Acct {
	pub fn total(&self) -> u128 {
		self.free + self.reserved
	}
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Infl {
	pub expect: [u128; 3],
	pub annual: [u32; 3],
	pub round: [u32; 3],
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Snap {
	pub round: (u32, u64, u32),
	pub total: u128,
	pub total_selected: u32,
	pub commission: u32,
	pub pb: (A, u8),
	pub infl: Infl,
	pub cands: BTreeMap<A, Cand>,
	pub top: BTreeMap<A, (Vec<(A, u128)>, u128)>,
	pub bot: BTreeMap<A, (Vec<(A, u128)>, u128)>,
	pub dels: BTreeMap<A, Dele>,
	pub reqs: BTreeMap<A, Vec<(A, Act, u32)>>,
	pub ac: BTreeMap<A, Vec<(A, u8)>>,
	pub selected: Vec<A>,
	pub pool: Vec<(A, u128)>,
	pub at: BTreeMap<(u32, A), Shot>,
	pub delayed: BTreeMap<u32, (u128, u128, u32)>,
	pub staked: BTreeMap<u32, u128>,
	pub points: BTreeMap<u32, u32>,
	pub awarded: BTreeMap<(u32, A), u32>,
	pub bal: BTreeMap<A, Acct>,
	pub issuance: u128,
}

fn cap(c: &CapacityStatus) -> Cap {
	match c {
		CapacityStatus::Full => Cap::Full,
		CapacityStatus::Empty => Cap::Empty,
		CapacityStatus::Partial => Cap::Partial,
	}
}
fn arr(r: &ps::Range<sp_runtime::Perbill>) -> [u32; 3] {
	[r.min.deconstruct(), r.ideal.deconstruct(), r.max.deconstruct()]
}

impl Snap {
	pub fn take(users: u64) -> Snap {
		let mut s = Snap::default();
		let r = S::round();
		s.round = (r.current, r.first, r.length);
		s.total = S::total();
		s.total_selected = S::total_selected();
		s.commission = S::collator_commission().deconstruct();
		let pb = S::parachain_bond_info();
		s.pb = (pb.account, pb.percent.deconstruct());
		let i = S::inflation_config();
		s.infl = Infl { expect: [i.expect.min, i.expect.ideal, i.expect.max], annual: arr(&i.annual), round: arr(&i.round) };
		for a in (0..=users).chain([PM]) {
			if let Some(c) = S::candidate_info(a) {
				s.cands.insert(
					a,
					Cand {
						bond: c.bond,
						count: c.delegation_count,
						counted: c.total_counted,
						low_top: c.lowest_top_delegation_amount,
						hi_bot: c.highest_bottom_delegation_amount,
						low_bot: c.lowest_bottom_delegation_amount,
						top_cap: cap(&c.top_capacity),
						bot_cap: cap(&c.bottom_capacity),
						req: c.request.map(|r| (r.amount, r.when_executable)),
						status: match c.status {
							CollatorStatus::Active => Status::Active,
							CollatorStatus::Idle => Status::Idle,
							CollatorStatus::Leaving(w) => Status::Leaving(w),
						},
					},
				);
			}
			if let Some(d) = S::top_delegations(a) {
				s.top.insert(a, (d.delegations.iter().map(|b| (b.owner, b.amount)).collect(), d.total));
			}
			if let Some(d) = S::bottom_delegations(a) {
				s.bot.insert(a, (d.delegations.iter().map(|b| (b.owner, b.amount)).collect(), d.total));
			}
			if let Some(d) = S::delegator_state(a) {
				s.dels.insert(
					a,
					Dele { dels: d.delegations.0.iter().map(|b| (b.owner, b.amount)).collect(), total: d.total, less: d.less_total },
				);
			}
			let q = S::delegation_scheduled_requests(a);
			if !q.is_empty() {
				s.reqs.insert(
					a,
					q.iter()
						.map(|r| {
							let act = match r.action {
								DelegationAction::Revoke(x) => Act::Revoke(x),
								DelegationAction::Decrease(x) => Act::Decrease(x),
							};
							(r.delegator, act, r.when_executable)
						})
						.collect(),
				);
			}
			let q = S::auto_compounding_delegations(a);
			if !q.is_empty() {
				s.ac.insert(a, q.iter().map(|c| (c.delegator, c.value.deconstruct())).collect());
			}
			let x = frame_system::Account::<Rt>::get(a).data;
			s.bal.insert(
				a,
				Acct {
					free: x.free,
					hc: Balances::balance_on_hold(&HC, &a),
					hd: Balances::balance_on_hold(&HD, &a),
					reserved: x.reserved,
					frozen: x.frozen,
				},
			);
		}
		s.selected = S::selected_candidates();
		s.pool = S::candidate_pool().0.iter().map(|b| (b.owner, b.amount)).collect();
		for (r, a, x) in ps::AtStake::<Rt>::iter() {
			s.at.insert(
				(r, a),
				Shot {
					bond: x.bond,
					dels: x.delegations.iter().map(|d| (d.owner, d.amount, d.auto_compound.deconstruct())).collect(),
					total: x.total,
				},
			);
		}
		for (r, p) in ps::DelayedPayouts::<Rt>::iter() {
			s.delayed.insert(r, (p.round_issuance, p.total_staking_reward, p.collator_commission.deconstruct()));
		}
		s.staked = ps::Staked::<Rt>::iter().collect();
		s.points = ps::Points::<Rt>::iter().collect();
		s.awarded = ps::AwardedPts::<Rt>::iter().map(|(r, a, p)| ((r, a), p)).collect();
		s.issuance = pallet_balances::TotalIssuance::<Rt>::get();
		s
	}
	/// Delegations to a candidate, counted and uncounted.
	pub fn backers(&self, c: A) -> BTreeMap<A, u128> {
		let v = |m: &BTreeMap<A, (Vec<(A, u128)>, u128)>| m.get(&c).map(|x| x.0.clone()).unwrap_or_default();
		v(&self.top).into_iter().chain(v(&self.bot)).collect()
	}
}
