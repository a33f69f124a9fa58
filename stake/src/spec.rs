//! Reference model of staking: who bonded and delegated what, which requests are pending, what each round owes.
//! Ranking and totals are derived from that, never stored.
use crate::{
	runtime::{A, PM},
	snap::{Acct, Act, Cap, Infl, Shot, Snap, Status},
};
use serde::{Deserialize, Serialize};
use sp_runtime::{Perbill, Percent};
use std::collections::{BTreeMap, BTreeSet};

pub const BLOCKS_PER_YEAR: u32 = 31_557_600 / 12;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Params {
	pub ed: u128,
	pub min_blocks: u32,
	pub leave_cand: u32,
	pub less_cand: u32,
	pub leave_del: u32,
	pub revoke: u32,
	pub less_del: u32,
	pub pay: u32,
	pub min_selected: u32,
	pub top: u32,
	pub bottom: u32,
	pub max_dels: u32,
	pub min_cand: u128,
	pub min_delegator: u128,
	pub min_delegation: u128,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
	Expect([u128; 3]),
	Inflation([u32; 3]),
	BondAccount(A),
	BondPercent(u8),
	TotalSelected(u32),
	Commission(u32),
	BlocksPerRound(u32),
	Join { bond: u128, hint: u32 },
	SchedLeave { hint: u32 },
	ExecLeave { c: A, hint: u32 },
	CancelLeave { hint: u32 },
	Offline,
	Online,
	More(u128),
	SchedLess(u128),
	ExecLess { c: A },
	CancelLess,
	/// `ac` None: the plain delegate call.
	Delegate { c: A, amt: u128, ac: Option<u8>, backers: u32, compounding: u32, mine: u32 },
	SchedLeaveDel,
	ExecLeaveDel { d: A, hint: u32 },
	CancelLeaveDel,
	Revoke { c: A },
	DelMore { c: A, amt: u128 },
	DelLess { c: A, amt: u128 },
	ExecReq { d: A, c: A },
	CancelReq { c: A },
	SetAc { c: A, v: u8, compounding: u32, mine: u32 },
	Hotfix(Vec<A>),
}
impl Op {
	pub fn name(&self) -> &'static str {
		match self {
			Op::Expect(_) => "set_staking_expectations",
			Op::Inflation(_) => "set_inflation",
			Op::BondAccount(_) => "set_parachain_bond_account",
			Op::BondPercent(_) => "set_parachain_bond_reserve_percent",
			Op::TotalSelected(_) => "set_total_selected",
			Op::Commission(_) => "set_collator_commission",
			Op::BlocksPerRound(_) => "set_blocks_per_round",
			Op::Join { .. } => "join_candidates",
			Op::SchedLeave { .. } => "schedule_leave_candidates",
			Op::ExecLeave { .. } => "execute_leave_candidates",
			Op::CancelLeave { .. } => "cancel_leave_candidates",
			Op::Offline => "go_offline",
			Op::Online => "go_online",
			Op::More(_) => "candidate_bond_more",
			Op::SchedLess(_) => "schedule_candidate_bond_less",
			Op::ExecLess { .. } => "execute_candidate_bond_less",
			Op::CancelLess => "cancel_candidate_bond_less",
			Op::Delegate { ac: None, .. } => "delegate",
			Op::Delegate { .. } => "delegate_with_auto_compound",
			Op::SchedLeaveDel => "schedule_leave_delegators",
			Op::ExecLeaveDel { .. } => "execute_leave_delegators",
			Op::CancelLeaveDel => "cancel_leave_delegators",
			Op::Revoke { .. } => "schedule_revoke_delegation",
			Op::DelMore { .. } => "delegator_bond_more",
			Op::DelLess { .. } => "schedule_delegator_bond_less",
			Op::ExecReq { .. } => "execute_delegation_request",
			Op::CancelReq { .. } => "cancel_delegation_request",
			Op::SetAc { .. } => "set_auto_compound",
			Op::Hotfix(_) => "hotfix_remove_delegation_requests_exited_candidates",
		}
	}
	/// The property whose mechanism the call is.
	pub fn owner(&self) -> &'static str {
		match self {
			Op::Expect(_)
			| Op::Inflation(_)
			| Op::BondAccount(_)
			| Op::BondPercent(_)
			| Op::TotalSelected(_)
			| Op::Commission(_)
			| Op::BlocksPerRound(_) => "K11",
			Op::Join { .. } | Op::Hotfix(_) => "K05",
			Op::Delegate { .. } => "K03",
			Op::Offline | Op::Online => "K06",
			Op::More(_) | Op::DelMore { .. } => "K02",
			Op::SetAc { .. } => "K09",
			_ => "K04",
		}
	}
}

pub type No = &'static str;
macro_rules! ensure {
	($c:expr, $w:expr) => {
		if !$c {
			return Err($w);
		}
	};
}

#[derive(Clone, Debug)]
pub struct MCand {
	pub bond: u128,
	pub status: Status,
	pub req: Option<(u128, u32)>,
	pub dels: BTreeMap<A, u128>,
	pub reqs: BTreeMap<A, (Act, u32)>,
	pub ac: BTreeMap<A, u8>,
}

#[derive(Clone, Debug)]
pub struct Model {
	pub p: Params,
	pub round: (u32, u64, u32),
	pub cands: BTreeMap<A, MCand>,
	pub selected: Vec<A>,
	pub shots: BTreeMap<(u32, A), Shot>,
	pub staked: BTreeMap<u32, u128>,
	pub awarded: BTreeMap<(u32, A), u32>,
	pub points: BTreeMap<u32, u32>,
	pub payouts: BTreeMap<u32, (u128, u32)>,
	pub total_selected: u32,
	pub commission: u32,
	pub pb: (A, u8),
	pub infl: Infl,
	pub wealth: BTreeMap<A, u128>,
	pub issuance: u128,
	/// Events the last step must have produced.
	pub rewarded: Vec<(A, u128)>,
	pub compounded: Vec<(A, A, u128)>,
	/// Delegations displaced by the last step.
	pub kicked: Vec<(A, A, u128)>,
}

pub enum Src {
	Root,
	Signed(A),
	None,
}

pub fn valid(r: &[u128; 3]) -> bool {
	r[2] >= r[1] && r[1] >= r[0]
}
/// The inflation of a round that compounds to the annual one, in parts per billion.
pub fn per_round(annual: u32, len: u32) -> f64 {
	let n = (BLOCKS_PER_YEAR / len).max(1) as f64;
	((annual as f64 / 1e9).ln_1p() / n).exp_m1() * 1e9
}

impl Model {
	pub fn new(p: Params, wealth: BTreeMap<A, u128>, issuance: u128) -> Model {
		Model {
			p,
			round: (1, 1, 20),
			cands: Default::default(),
			selected: vec![],
			shots: Default::default(),
			staked: Default::default(),
			awarded: Default::default(),
			points: Default::default(),
			payouts: Default::default(),
			total_selected: 0,
			commission: 0,
			pb: (0, 0),
			infl: Default::default(),
			wealth,
			issuance,
			rewarded: vec![],
			compounded: vec![],
			kicked: vec![],
		}
	}
	pub fn held(&self, a: A) -> (u128, u128) {
		let c = self.cands.get(&a).map_or(0, |c| c.bond);
		let d = self.cands.values().filter_map(|c| c.dels.get(&a)).sum();
		(c, d)
	}
	pub fn free(&self, a: A) -> u128 {
		let (c, d) = self.held(a);
		self.wealth.get(&a).copied().unwrap_or(0).saturating_sub(c + d)
	}
	pub fn spendable(&self, a: A) -> u128 {
		self.free(a).saturating_sub(self.p.ed)
	}
	pub fn mine(&self, d: A) -> BTreeMap<A, u128> {
		self.cands.iter().filter_map(|(c, x)| x.dels.get(&d).map(|v| (*c, *v))).collect()
	}
	pub fn is_delegator(&self, d: A) -> bool {
		self.cands.values().any(|x| x.dels.contains_key(&d))
	}
	pub fn less(&self, d: A) -> u128 {
		self.cands.values().filter_map(|c| c.reqs.get(&d)).map(|r| r.0.amount()).sum()
	}
	/// Amounts delegated to a candidate, greatest first.
	pub fn amounts(&self, c: A) -> Vec<u128> {
		let mut v: Vec<u128> = self.cands[&c].dels.values().copied().collect();
		v.sort_by(|a, b| b.cmp(a));
		v
	}
	pub fn counted(&self, c: A) -> u128 {
		self.cands[&c].bond + self.amounts(c).iter().take(self.p.top as usize).sum::<u128>()
	}
	pub fn total(&self) -> u128 {
		self.cands.values().map(|c| c.bond + c.dels.values().sum::<u128>()).sum()
	}
	pub fn pool(&self) -> Vec<(A, u128)> {
		self.cands.iter().filter(|(_, c)| c.status == Status::Active).map(|(a, _)| (*a, self.counted(*a))).collect()
	}
	fn drop_del(&mut self, c: A, d: A) {
		let x = self.cands.get_mut(&c).unwrap();
		x.dels.remove(&d);
		x.reqs.remove(&d);
		x.ac.remove(&d);
	}

	/// What a call does, or why it must be refused. `pre` and `post` settle what the rules leave open: which of
	/// several equal delegations at the bottom is displaced.
	pub fn apply(&mut self, src: Src, op: &Op, pre: &Snap, post: &Snap) -> Result<(), No> {
		self.rewarded.clear();
		self.compounded.clear();
		self.kicked.clear();
		let p = self.p.clone();
		let now = self.round.0;
		match op {
			Op::Expect(_)
			| Op::Inflation(_)
			| Op::BondAccount(_)
			| Op::BondPercent(_)
			| Op::TotalSelected(_)
			| Op::Commission(_)
			| Op::BlocksPerRound(_) => {
				ensure!(matches!(src, Src::Root), "K11:only governance sets this");
				return self.set(op, post);
			},
			_ => (),
		}
		let Src::Signed(who) = src else { return Err("K05:needs a signer") };
		match op {
			Op::Join { bond, hint } => {
				ensure!(!self.cands.contains_key(&who), "K05:already a candidate");
				ensure!(!self.is_delegator(who), "K05:a delegator cannot be a candidate");
				ensure!(*bond >= p.min_cand, "K05:bond below the minimum");
				ensure!(*hint as usize >= self.pool().len(), "K05:candidate count hint too low");
				ensure!(self.spendable(who) >= *bond, "K01:not enough free balance");
				self.cands.insert(
					who,
					MCand {
						bond: *bond,
						status: Status::Active,
						req: None,
						dels: Default::default(),
						reqs: Default::default(),
						ac: Default::default(),
					},
				);
			},
			Op::SchedLeave { hint } => {
				let n = self.pool().len();
				let x = self.cands.get_mut(&who).ok_or("K05:not a candidate")?;
				ensure!(!matches!(x.status, Status::Leaving(_)), "K04:already leaving");
				ensure!(*hint as usize >= n, "K05:candidate count hint too low");
				x.status = Status::Leaving(now + p.leave_cand);
			},
			Op::ExecLeave { c, hint } => {
				let x = self.cands.get(c).ok_or("K05:not a candidate")?;
				ensure!(*hint as usize >= x.dels.len(), "K05:delegation count hint too low");
				let Status::Leaving(when) = x.status else { return Err("K04:exit not scheduled") };
				ensure!(now >= when, "K04:exit not due");
				self.cands.remove(c);
			},
			Op::CancelLeave { hint } => {
				let n = self.pool().len();
				let x = self.cands.get_mut(&who).ok_or("K05:not a candidate")?;
				ensure!(matches!(x.status, Status::Leaving(_)), "K04:exit not scheduled");
				ensure!(*hint as usize >= n, "K05:candidate count hint too low");
				x.status = Status::Active;
			},
			Op::Offline => {
				let x = self.cands.get_mut(&who).ok_or("K05:not a candidate")?;
				ensure!(x.status == Status::Active, "K06:already offline");
				x.status = Status::Idle;
			},
			Op::Online => {
				let x = self.cands.get_mut(&who).ok_or("K05:not a candidate")?;
				ensure!(x.status == Status::Idle, "K06:not offline");
				x.status = Status::Active;
			},
			Op::More(more) => {
				let s = self.spendable(who);
				let x = self.cands.get_mut(&who).ok_or("K05:not a candidate")?;
				ensure!(s >= *more, "K01:not enough free balance");
				x.bond += more;
			},
			Op::SchedLess(less) => {
				let x = self.cands.get_mut(&who).ok_or("K05:not a candidate")?;
				ensure!(x.req.is_none(), "K04:a request is pending");
				ensure!(x.bond > *less && x.bond - less >= p.min_cand, "K05:bond below the minimum");
				x.req = Some((*less, now + p.less_cand));
			},
			Op::ExecLess { c } => {
				let x = self.cands.get_mut(c).ok_or("K05:not a candidate")?;
				let (amount, when) = x.req.ok_or("K04:no such request")?;
				ensure!(now >= when, "K04:request not due");
				x.bond -= amount;
				x.req = None;
			},
			Op::CancelLess => {
				let x = self.cands.get_mut(&who).ok_or("K05:not a candidate")?;
				ensure!(x.req.is_some(), "K04:no such request");
				x.req = None;
			},
			Op::Delegate { c, amt, ac, backers, compounding, mine } => {
				ensure!(self.spendable(who) >= *amt, "K01:not enough free balance");
				let own = self.mine(who);
				if own.is_empty() {
					ensure!(*amt >= p.min_delegator, "K05:stake below the minimum");
					ensure!(!self.cands.contains_key(&who), "K05:a candidate cannot delegate");
				} else {
					ensure!(*amt >= p.min_delegation, "K05:delegation below the minimum");
					ensure!(*mine as usize >= own.len(), "K05:delegation count hint too low");
					ensure!(own.len() < p.max_dels as usize, "K05:too many delegations");
					ensure!(!own.contains_key(c), "K05:already delegated");
				}
				let x = self.cands.get(c).ok_or("K05:not a candidate")?;
				ensure!(*backers as usize >= x.dels.len(), "K05:delegation count hint too low");
				let v = ac.unwrap_or(0);
				ensure!(v == 0 || *compounding as usize >= x.ac.len(), "K05:auto-compound count hint too low");
				if x.dels.len() == (p.top + p.bottom) as usize {
					let low = *x.dels.values().min().unwrap();
					ensure!(*amt > low, "K03:does not outbid the lowest");
					// The lowest of the uncounted makes room; among equals any of them.
					let ties: BTreeSet<A> =
						pre.bot.get(c).map(|b| b.0.iter().filter(|d| d.1 == low).map(|d| d.0).collect()).unwrap_or_default();
					let now_there = post.backers(*c);
					let out = ties.iter().find(|d| !now_there.contains_key(d)).or(ties.iter().next()).copied();
					if let Some(out) = out {
						self.drop_del(*c, out);
						self.kicked.push((out, *c, low));
					}
				}
				let x = self.cands.get_mut(c).unwrap();
				x.dels.insert(who, *amt);
				if v != 0 {
					x.ac.insert(who, v);
				}
			},
			Op::SchedLeaveDel => {
				ensure!(self.is_delegator(who), "K05:not a delegator");
				let own = self.mine(who);
				let all = own.keys().all(|c| self.cands[c].reqs.get(&who).is_some_and(|r| r.0.revoke()));
				ensure!(!all, "K04:already leaving");
				for (c, amt) in own {
					let r = self.cands.get_mut(&c).unwrap().reqs.entry(who).or_insert((Act::Decrease(0), 0));
					if !r.0.revoke() {
						*r = (Act::Revoke(amt), now + p.leave_del);
					}
				}
			},
			Op::ExecLeaveDel { d, hint } => {
				ensure!(self.is_delegator(*d), "K05:not a delegator");
				let own = self.mine(*d);
				ensure!(*hint as usize >= own.len(), "K05:delegation count hint too low");
				for c in own.keys() {
					let r = self.cands[c].reqs.get(d);
					ensure!(r.is_some_and(|r| r.0.revoke()), "K04:exit not scheduled");
					ensure!(now >= r.unwrap().1, "K04:exit not due");
				}
				for c in own.keys() {
					self.drop_del(*c, *d);
				}
			},
			Op::CancelLeaveDel => {
				ensure!(self.is_delegator(who), "K05:not a delegator");
				let own = self.mine(who);
				for c in own.keys() {
					ensure!(self.cands[c].reqs.get(&who).is_some_and(|r| r.0.revoke()), "K04:exit not scheduled");
				}
				for c in own.keys() {
					self.cands.get_mut(c).unwrap().reqs.remove(&who);
				}
			},
			Op::Revoke { c } => {
				ensure!(self.is_delegator(who), "K05:not a delegator");
				let x = self.cands.get_mut(c).ok_or("K05:no such delegation")?;
				let amt = *x.dels.get(&who).ok_or("K05:no such delegation")?;
				ensure!(!x.reqs.contains_key(&who), "K04:a request is pending");
				x.reqs.insert(who, (Act::Revoke(amt), now + p.revoke));
			},
			Op::DelMore { c, amt } => {
				let s = self.spendable(who);
				let x = self.cands.get_mut(c).ok_or("K05:no such delegation")?;
				ensure!(!x.reqs.get(&who).is_some_and(|r| r.0.revoke()), "K04:a revocation is pending");
				ensure!(x.dels.contains_key(&who), "K05:no such delegation");
				ensure!(s >= *amt, "K01:not enough free balance");
				*x.dels.get_mut(&who).unwrap() += amt;
			},
			Op::DelLess { c, amt } => {
				let net = self.mine(who).values().sum::<u128>().saturating_sub(self.less(who));
				let x = self.cands.get_mut(c).ok_or("K05:no such delegation")?;
				let have = *x.dels.get(&who).ok_or("K05:no such delegation")?;
				ensure!(!x.reqs.contains_key(&who), "K04:a request is pending");
				ensure!(have > *amt && have - amt >= p.min_delegation, "K05:delegation below the minimum");
				ensure!(*amt <= net.saturating_sub(p.min_delegator), "K05:stake below the minimum");
				x.reqs.insert(who, (Act::Decrease(*amt), now + p.less_del));
			},
			Op::ExecReq { d, c } => {
				let own = self.mine(*d);
				let all: u128 = own.values().sum();
				let x = self.cands.get_mut(c).ok_or("K04:no such request")?;
				let (act, when) = *x.reqs.get(d).ok_or("K04:no such request")?;
				ensure!(now >= when, "K04:request not due");
				match act {
					Act::Revoke(_) => {
						ensure!(
							own.len() == 1 || all.saturating_sub(p.min_delegator) >= own[c],
							"K05:stake below the minimum"
						);
						self.drop_del(*c, *d);
					},
					Act::Decrease(less) => {
						ensure!(own[c] > less, "K05:delegation below the minimum");
						let left = all - less;
						ensure!(left >= p.min_delegation && left >= p.min_delegator, "K05:stake below the minimum");
						*x.dels.get_mut(d).unwrap() -= less;
						x.reqs.remove(d);
					},
				}
			},
			Op::CancelReq { c } => {
				ensure!(self.is_delegator(who), "K05:not a delegator");
				let x = self.cands.get_mut(c).ok_or("K04:no such request")?;
				x.reqs.remove(&who).ok_or("K04:no such request")?;
			},
			Op::SetAc { c, v, compounding, mine } => {
				let own = self.mine(who);
				ensure!(!own.is_empty(), "K05:not a delegator");
				ensure!(*mine as usize >= own.len(), "K05:delegation count hint too low");
				ensure!(own.contains_key(c), "K05:no such delegation");
				let x = self.cands.get_mut(c).unwrap();
				ensure!(*compounding as usize >= x.ac.len(), "K05:auto-compound count hint too low");
				if *v == 0 {
					x.ac.remove(&who);
				} else {
					x.ac.insert(who, *v);
				}
			},
			Op::Hotfix(v) => {
				ensure!(v.len() < 100, "K05:too many");
				for c in v {
					ensure!(!self.cands.contains_key(c), "K05:still a candidate");
				}
			},
			_ => unreachable!(),
		}
		Ok(())
	}

	fn set(&mut self, op: &Op, post: &Snap) -> Result<(), No> {
		let p = &self.p;
		match op {
			Op::Expect(r) => {
				ensure!(valid(r), "K11:not a range");
				ensure!(*r != self.infl.expect, "K11:same value");
				self.infl.expect = *r;
			},
			Op::Inflation(r) => {
				ensure!(valid(&r.map(|x| x as u128)), "K11:not a range");
				ensure!(*r != self.infl.annual, "K11:same value");
				self.infl.annual = *r;
				self.infl.round = post.infl.round;
			},
			Op::BondAccount(a) => {
				ensure!(*a != self.pb.0, "K11:same value");
				self.pb.0 = *a;
			},
			Op::BondPercent(x) => {
				ensure!(*x != self.pb.1, "K11:same value");
				self.pb.1 = *x;
			},
			Op::TotalSelected(n) => {
				ensure!(*n >= p.min_selected, "K11:below the minimum");
				ensure!(*n != self.total_selected, "K11:same value");
				ensure!(*n < self.round.2, "K11:more collators than a round has blocks");
				self.total_selected = *n;
			},
			Op::Commission(x) => {
				ensure!(*x != self.commission, "K11:same value");
				self.commission = *x;
			},
			Op::BlocksPerRound(n) => {
				ensure!(*n >= p.min_blocks, "K11:below the minimum");
				ensure!(*n != self.round.2, "K11:same value");
				ensure!(*n > self.total_selected, "K11:more collators than a round has blocks");
				self.round.2 = *n;
				self.infl.round = post.infl.round;
			},
			_ => unreachable!(),
		}
		Ok(())
	}
	/// Whether the inflation per round is the one that compounds to the annual inflation (rounded up).
	pub fn round_rate_ok(&self) -> Option<String> {
		for i in 0..3 {
			let r = per_round(self.infl.annual[i], self.round.2);
			let x = self.infl.round[i] as f64;
			if x < r - 0.01 || x > r + 1.01 {
				return Some(format!("{:?} per year is {x} ppb per round of {}, not {r:.2}", self.infl.annual, self.round.2));
			}
		}
		None
	}

	/// The active candidates with the greatest counted stake, ties in favour of the greater account.
	pub fn best(&self) -> Vec<A> {
		let mut v: Vec<(u128, A)> = self.pool().into_iter().map(|(a, x)| (x, a)).collect();
		v.sort_by(|a, b| b.cmp(a));
		let mut v: Vec<A> = v.into_iter().take(self.total_selected as usize).map(|x| x.1).collect();
		v.sort();
		v
	}
	pub fn select(&mut self, round: u32, pre: &Snap, post: &Snap) {
		let best = self.best();
		if best.is_empty() {
			let last: Vec<(A, Shot)> =
				self.shots.range((round - 1, 0)..(round, 0)).map(|((_, a), s)| (*a, s.clone())).collect();
			for (a, s) in last {
				self.shots.insert((round, a), s);
			}
		} else {
			for a in &best {
				let x = &self.cands[a];
				let mut off = 0u128;
				let mut dels: Vec<(A, u128, u8)> = vec![];
				let top = pre.top.get(a).map(|t| t.0.clone()).unwrap_or_default();
				for (d, _) in top {
					let have = x.dels.get(&d).copied().unwrap_or(0);
					let amt = match x.reqs.get(&d) {
						None => have,
						Some((Act::Revoke(_), _)) => 0,
						Some((Act::Decrease(less), _)) => have.saturating_sub(*less),
					};
					off += have - amt;
					dels.push((d, amt, x.ac.get(&d).copied().unwrap_or(0)));
				}
				// The order within the snapshot is the chain's affair.
				if let Some(real) = post.at.get(&(round, *a)) {
					let mut a1 = dels.clone();
					let mut a2 = real.dels.clone();
					a1.sort();
					a2.sort();
					if a1 == a2 {
						dels = real.dels.clone();
					}
				}
				self.shots.insert((round, *a), Shot { bond: x.bond, dels, total: self.counted(*a) - off });
			}
			self.selected = best;
		}
		self.staked.insert(round, self.total());
	}

	fn pay(&mut self, to: A, amt: u128) -> bool {
		if amt > self.spendable(PM) || (amt > 0 && self.free(to) + amt < self.p.ed) {
			return false;
		}
		if amt > 0 {
			*self.wealth.entry(PM).or_default() -= amt;
			*self.wealth.entry(to).or_default() += amt;
		}
		self.rewarded.push((to, amt));
		true
	}
	fn pay_one(&mut self, r: u32, c: A) {
		let (issuance, commission) = self.payouts[&r];
		let total_points = self.points.get(&r).copied().unwrap_or(0);
		let shot = self.shots.remove(&(r, c)).unwrap();
		let pts = self.awarded.remove(&(r, c)).unwrap_or(0);
		if pts == 0 {
			return;
		}
		let share = Perbill::from_rational(pts, total_points);
		let due = share * issuance;
		if shot.dels.is_empty() {
			self.pay(c, due);
			return;
		}
		let fee = share * (Perbill::from_parts(commission) * issuance);
		let rest = due.saturating_sub(fee);
		let own = Perbill::from_rational(shot.bond, shot.total) * rest + fee;
		self.pay(c, own);
		for (d, amt, ac) in shot.dels {
			let x = Perbill::from_rational(amt, shot.total) * rest;
			if x == 0 || !self.pay(d, x) {
				continue;
			}
			let more = Percent::from_parts(ac).mul_ceil(x);
			if more == 0 || self.spendable(d) < more {
				continue;
			}
			let Some(k) = self.cands.get_mut(&c) else { continue };
			if k.reqs.get(&d).is_some_and(|q| q.0.revoke()) {
				continue;
			}
			if let Some(v) = k.dels.get_mut(&d) {
				*v += more;
				self.compounded.push((c, d, more));
			}
		}
	}
	/// The hooks of a block. Returns the collator paid, and the round it was paid for.
	pub fn block(&mut self, n: u64, author: Option<A>, pre: &Snap, post: &Snap) -> Option<(u32, A)> {
		self.rewarded.clear();
		self.compounded.clear();
		self.kicked.clear();
		if let Some(a) = author {
			*self.awarded.entry((self.round.0, a)).or_default() += 20;
			*self.points.entry(self.round.0).or_default() += 20;
		}
		if n - self.round.1 >= self.round.2 as u64 {
			self.round.0 += 1;
			self.round.1 = n;
			let now = self.round.0;
			if now > self.p.pay {
				let r = now - self.p.pay;
				if self.points.get(&r).copied().unwrap_or(0) > 0 {
					let staked = self.staked.remove(&r).unwrap_or(0);
					let i = if staked < self.infl.expect[0] {
						0
					} else if staked > self.infl.expect[2] {
						2
					} else {
						1
					};
					let issuance = Perbill::from_parts(self.infl.round[i]) * self.issuance;
					self.payouts.insert(r, (issuance, self.commission));
				}
			}
			self.select(now, pre, post);
			return None;
		}
		if self.round.0 < self.p.pay {
			return None;
		}
		let r = self.round.0 - self.p.pay;
		if !self.payouts.contains_key(&r) {
			return None;
		}
		let left: Vec<A> = self.shots.range((r, 0)..(r + 1, 0)).map(|(k, _)| k.1).collect();
		if left.is_empty() {
			self.payouts.remove(&r);
			self.points.remove(&r);
			return None;
		}
		// Which of them comes next is the chain's affair.
		let gone: Vec<A> = left.iter().filter(|a| !post.at.contains_key(&(r, **a))).copied().collect();
		let c = *gone.first().unwrap_or(&left[0]);
		self.pay_one(r, c);
		Some((r, c))
	}

	/// Differences between the chain and the model, by the part of the state.
	pub fn diff(&self, s: &Snap) -> Vec<(&'static str, String)> {
		let mut out: Vec<(&'static str, String)> = vec![];
		macro_rules! eq {
			($f:expr, $what:expr, $real:expr, $want:expr) => {{
				let (r, w) = ($real, $want);
				if r != w {
					out.push(($f, format!("{}: {:?}, expected {:?}", $what, r, w)));
				}
			}};
		}
		eq!("round", "round", s.round, self.round);
		eq!("settings", "collators per round", s.total_selected, self.total_selected);
		eq!("settings", "commission", s.commission, self.commission);
		eq!("settings", "parachain bond", s.pb, self.pb);
		eq!("settings", "inflation", &s.infl, &self.infl);
		eq!("payout", "total issuance", s.issuance, self.issuance);
		eq!("totals", "total stake", s.total, self.total());
		eq!("pool", "candidate pool", &s.pool, &self.pool());
		let ids = |m: Vec<A>| m;
		eq!("candidate", "candidates", ids(s.cands.keys().copied().collect()), ids(self.cands.keys().copied().collect()));
		eq!("ranking", "candidates with a ranking", ids(s.top.keys().copied().collect()), ids(self.cands.keys().copied().collect()));
		eq!("ranking", "candidates with a ranking", ids(s.bot.keys().copied().collect()), ids(self.cands.keys().copied().collect()));
		for (a, c) in &self.cands {
			let Some(x) = s.cands.get(a) else { continue };
			eq!("candidate", format!("bond of {a}"), x.bond, c.bond);
			eq!("candidate", format!("status of {a}"), x.status, c.status);
			eq!("requests", format!("bond request of {a}"), x.req, c.req);
			eq!("totals", format!("delegation count of {a}"), x.count as usize, c.dels.len());
			eq!("totals", format!("counted stake of {a}"), x.counted, self.counted(*a));
			let empty = (vec![], 0);
			let (top, bot) = (s.top.get(a).unwrap_or(&empty), s.bot.get(a).unwrap_or(&empty));
			let am = |v: &[(A, u128)]| v.iter().map(|d| d.1).collect::<Vec<_>>();
			let all = self.amounts(*a);
			let k = all.len().min(self.p.top as usize);
			eq!("ranking", format!("counted delegations of {a}"), am(&top.0), all[..k].to_vec());
			eq!("ranking", format!("uncounted delegations of {a}"), am(&bot.0), all[k..].to_vec());
			eq!("ranking", format!("total of the counted of {a}"), top.1, all[..k].iter().sum::<u128>());
			eq!("ranking", format!("total of the uncounted of {a}"), bot.1, all[k..].iter().sum::<u128>());
			eq!("delegator", format!("delegations to {a}"), &s.backers(*a), &c.dels);
			eq!("ranking", format!("entries of {a}"), top.0.len() + bot.0.len(), c.dels.len());
			let cap = |n: usize, m: u32| {
				if n >= m as usize {
					Cap::Full
				} else if n == 0 {
					Cap::Empty
				} else {
					Cap::Partial
				}
			};
			let ends = |v: &[u128]| (v.first().copied().unwrap_or(0), v.last().copied().unwrap_or(0));
			eq!("ranking", format!("lowest counted of {a}"), x.low_top, ends(&all[..k]).1);
			eq!("ranking", format!("highest uncounted of {a}"), x.hi_bot, ends(&all[k..]).0);
			eq!("ranking", format!("lowest uncounted of {a}"), x.low_bot, ends(&all[k..]).1);
			eq!("ranking", format!("room among the counted of {a}"), x.top_cap, cap(k, self.p.top));
			eq!("ranking", format!("room among the uncounted of {a}"), x.bot_cap, cap(all.len() - k, self.p.bottom));
			let empty = vec![];
			let q = s.reqs.get(a).unwrap_or(&empty);
			let m: BTreeMap<A, (Act, u32)> = q.iter().map(|r| (r.0, (r.1, r.2))).collect();
			eq!("requests", format!("requests for {a}"), &m, &c.reqs);
			eq!("requests", format!("number of requests for {a}"), q.len(), c.reqs.len());
			let empty = vec![];
			let m = s.ac.get(a).unwrap_or(&empty);
			let want: Vec<(A, u8)> = c.ac.iter().map(|x| (*x.0, *x.1)).collect();
			eq!("auto-compound", format!("auto-compounding for {a}"), m, &want);
		}
		for a in s.reqs.keys().filter(|a| !self.cands.contains_key(a)) {
			out.push(("requests", format!("requests for {a}, who is not a candidate: {:?}", s.reqs[a])));
		}
		for a in s.ac.keys().filter(|a| !self.cands.contains_key(a)) {
			out.push(("auto-compound", format!("auto-compounding for {a}, who is not a candidate: {:?}", s.ac[a])));
		}
		for (a, x) in &s.bal {
			let (hc, hd) = self.held(*a);
			eq!("holds", format!("bond of {a} on hold"), x.hc, hc);
			eq!("holds", format!("delegations of {a} on hold"), x.hd, hd);
			eq!("holds", format!("balance of {a} on hold"), x.reserved, hc + hd);
			eq!("wealth", format!("balance of {a}"), Acct::total(x), self.wealth.get(a).copied().unwrap_or(0));
			let own = self.mine(*a);
			match s.dels.get(a) {
				None => eq!("delegator", format!("delegations of {a}"), BTreeMap::<A, u128>::new(), own),
				Some(d) => {
					eq!("delegator", format!("total of {a}"), d.total, own.values().sum::<u128>());
					eq!("requests", format!("amount {a} asked to withdraw"), d.less, self.less(*a));
					if own.is_empty() {
						out.push(("delegator", format!("{a} has a delegator record without delegations")));
					}
					eq!("delegator", format!("delegations of {a}"), &d.dels, &own);
				},
			}
		}
		eq!("selected", "collators", &s.selected, &self.selected);
		eq!("snapshot", "unpaid snapshots", s.at.keys().collect::<Vec<_>>(), self.shots.keys().collect::<Vec<_>>());
		for (k, w) in &self.shots {
			if let Some(r) = s.at.get(k) {
				eq!("snapshot", format!("snapshot of {} in round {}", k.1, k.0), r, w);
			}
		}
		let d: BTreeMap<u32, (u128, u128, u32)> = self.payouts.iter().map(|(r, (i, c))| (*r, (*i, *i, *c))).collect();
		eq!("payout", "payouts", &s.delayed, &d);
		eq!("payout", "stake of rounds", &s.staked, &self.staked);
		eq!("points", "points of rounds", &s.points, &self.points);
		eq!("points", "points of collators", &s.awarded, &self.awarded);
		out
	}
}
