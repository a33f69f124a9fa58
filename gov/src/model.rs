//! Reference model of the governance pallets, written from the documented behaviour: tallies are
//! recomputed from scratch from live votes and delegations, deposits and locks from the open items
//! that justify them. It never reads the pallets' own storage; from the chain it takes only facts
//! of trusted dependencies (can this balance be put on hold, is this preimage there).
use crate::runtime::*;
use frame_support::traits::{fungible::InspectHold, Bounded};
use pallet_democracy::{AccountVote, Conviction, MetadataOwner, VoteThreshold};
use parity_scale_codec::{Decode, Encode};
use sp_core::H256;
use std::collections::{BTreeMap, BTreeSet};

pub type BCall = Bounded<RuntimeCall, sp_runtime::traits::BlakeTwo256>;
pub type Tags = &'static [&'static str];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Org {
	Root,
	Signed(Acc),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ref {
	Ongoing { end: Bn, prop: BCall, thr: VoteThreshold, delay: Bn },
	Finished { end: Bn, approved: bool },
}

#[derive(Clone, Debug)]
pub enum Vk {
	Direct(BTreeMap<u32, AccountVote<Bal>>),
	Deleg { target: Acc, conv: Conviction, bal: Bal },
}
#[derive(Clone, Debug)]
pub struct Voter {
	pub k: Vk,
	pub until: Bn,
	pub amt: Bal,
}
impl Default for Voter {
	fn default() -> Self {
		Voter { k: Vk::Direct(Default::default()), until: 0, amt: 0 }
	}
}

#[derive(Clone, Debug, PartialEq)]
pub struct Seat {
	pub who: Acc,
	pub stake: Bal,
	pub deposit: Bal,
}
#[derive(Clone, Debug, PartialEq)]
pub struct EVoter {
	pub votes: Vec<Acc>,
	pub stake: Bal,
	pub till: Bn,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
	pub now: Bn,
	// democracy
	pub props: BTreeMap<u32, (BCall, Acc)>,
	pub prop_count: u32,
	pub deposits: BTreeMap<u32, (Vec<Acc>, Bal)>,
	pub refs: BTreeMap<u32, Ref>,
	pub ref_count: u32,
	pub voting: BTreeMap<Acc, Voter>,
	pub dfrozen: BTreeMap<Acc, Bal>,
	pub last_ext: bool,
	pub next_ext: Option<(BCall, VoteThreshold)>,
	pub blacklist: BTreeMap<H256, (Bn, BTreeSet<Acc>)>,
	pub cancelled: BTreeSet<H256>,
	pub meta: BTreeMap<Vec<u8>, H256>,
	pub pending: BTreeMap<u32, (Bn, BCall)>,
	pub unavailable: BTreeSet<u32>,
	pub log: Vec<(u32, Bn)>,
	// elections
	pub members: Vec<Seat>,
	pub runners: Vec<Seat>,
	pub cands: BTreeMap<Acc, Bal>,
	pub evoters: BTreeMap<Acc, EVoter>,
	pub efrozen: BTreeMap<Acc, Bal>,
	pub prime: Option<Acc>,
	pub rounds: u32,
	pub last_election: Option<bool>,
	// money
	pub total: BTreeMap<Acc, Bal>,
	pub other_held: BTreeMap<Acc, Bal>,
	/// Calls that may be proposed, by hash.
	pub universe: std::sync::Arc<BTreeMap<H256, RuntimeCall>>,
	/// Finished by being approved/rejected: for probes.
	pub approved_n: u32,
	pub rejected_n: u32,
	/// The last call added the candidate one above the limit.
	pub over_limit: bool,
}

pub fn hash_of(b: &BCall) -> H256 {
	match b {
		Bounded::Inline(x) => H256::from(sp_io::hashing::blake2_256(x)),
		Bounded::Legacy { hash, .. } => *hash,
		Bounded::Lookup { hash, .. } => *hash,
	}
}

/// (votes, capital) of a standard vote or delegation.
pub fn weigh(c: Conviction, bal: Bal) -> (Bal, Bal) {
	let v = match c {
		Conviction::None => bal / 10,
		Conviction::Locked1x => bal,
		Conviction::Locked2x => bal * 2,
		Conviction::Locked3x => bal * 3,
		Conviction::Locked4x => bal * 4,
		Conviction::Locked5x => bal * 5,
		Conviction::Locked6x => bal * 6,
	};
	(v, bal)
}
pub fn periods(c: Conviction) -> u64 {
	match c {
		Conviction::None => 0,
		Conviction::Locked1x => 1,
		Conviction::Locked2x => 2,
		Conviction::Locked3x => 4,
		Conviction::Locked4x => 8,
		Conviction::Locked5x => 16,
		Conviction::Locked6x => 32,
	}
}
fn vote_bal(v: &AccountVote<Bal>) -> Bal {
	match v {
		AccountVote::Standard { balance, .. } => *balance,
		AccountVote::Split { aye, nay } => aye.saturating_add(*nay),
	}
}
fn isqrt(n: u128) -> u128 {
	if n < 2 {
		return n;
	}
	let mut lo = 1u128;
	let mut hi = 1u128 << 64;
	while lo + 1 < hi {
		let mid = (lo + hi) / 2;
		if mid.checked_mul(mid).map_or(false, |m| m <= n) {
			lo = mid
		} else {
			hi = mid
		}
	}
	lo
}
/// a*b < c*d without overflow.
fn mul_lt(a: u128, b: u128, c: u128, d: u128) -> bool {
	sp_core::U512::from(a) * sp_core::U512::from(b) < sp_core::U512::from(c) * sp_core::U512::from(d)
}
pub fn passes(thr: VoteThreshold, ayes: Bal, nays: Bal, turnout: Bal, electorate: Bal) -> bool {
	let st = isqrt(turnout);
	let se = isqrt(electorate);
	if st == 0 {
		return false;
	}
	match thr {
		VoteThreshold::SuperMajorityApprove => mul_lt(nays, se, ayes, st), // nays/st < ayes/se
		VoteThreshold::SuperMajorityAgainst => mul_lt(nays, st, ayes, se), // nays/se < ayes/st
		VoteThreshold::SimpleMajority => ayes > nays,
	}
}

/// What a call is expected to do.
pub enum Expect {
	Ok,
	/// Must be refused; the tags of the guard that refuses it.
	Err(Tags),
	/// A call of a trusted pallet: take its effect on balances from the chain.
	Observe,
}

/// Properties a wrong acceptance/refusal of a call breaks.
pub fn base_tags(c: &RuntimeCall) -> Tags {
	use pallet_democracy::Call as D;
	use pallet_elections_phragmen::Call as E;
	match c {
		RuntimeCall::Democracy(d) => match d {
			D::propose { .. } | D::second { .. } => &["D05"],
			D::vote { .. } => &["D01", "D10"],
			D::delegate { .. } | D::undelegate { .. } => &["D10"],
			D::remove_vote { .. } | D::remove_other_vote { .. } => &["D02", "D10"],
			D::unlock { .. } => &["D02"],
			D::emergency_cancel { .. } | D::blacklist { .. } | D::veto_external { .. } | D::cancel_referendum { .. } =>
				&["D07"],
			D::cancel_proposal { .. } | D::clear_public_proposals { .. } => &["D05"],
			D::external_propose { .. } | D::external_propose_majority { .. } | D::external_propose_default { .. } =>
				&["D08"],
			D::fast_track { .. } => &["D08"],
			D::set_metadata { .. } => &["D09"],
			_ => &[],
		},
		RuntimeCall::Elections(e) => match e {
			E::vote { .. } | E::remove_voter { .. } => &["E03"],
			E::submit_candidacy { .. } => &["E02", "E01"],
			E::renounce_candidacy { .. } => &["E05", "E02"],
			E::remove_member { .. } => &["E05", "E02"],
			E::clean_defunct_voters { .. } => &["E03"],
			_ => &[],
		},
		RuntimeCall::Probe(probe::Call::slash { .. }) => &["V01"],
		_ => &[],
	}
}

impl Model {
	pub fn total(&self, a: Acc) -> Bal {
		self.total.get(&a).copied().unwrap_or(0)
	}
	pub fn issuance(&self) -> Bal {
		self.total.values().sum()
	}
	pub fn dheld(&self, a: Acc) -> Bal {
		self.deposits.values().map(|(w, amt)| w.iter().filter(|x| **x == a).count() as u128 * amt).sum()
	}
	pub fn cheld(&self, a: Acc) -> Bal {
		self.cands.get(&a).copied().unwrap_or(0) +
			self.members.iter().chain(self.runners.iter()).filter(|s| s.who == a).map(|s| s.deposit).sum::<Bal>()
	}
	/// Voting power delegated to `a`.
	pub fn delegations(&self, a: Acc) -> (Bal, Bal) {
		let mut r = (0, 0);
		for v in self.voting.values() {
			if let Vk::Deleg { target, conv, bal } = &v.k {
				if *target == a {
					let w = weigh(*conv, *bal);
					r.0 += w.0;
					r.1 += w.1;
				}
			}
		}
		r
	}
	/// (ayes, nays, turnout) from scratch.
	pub fn tally(&self, r: u32) -> (Bal, Bal, Bal) {
		let mut t = (0, 0, 0);
		for (a, v) in &self.voting {
			if let Vk::Direct(votes) = &v.k {
				match votes.get(&r) {
					Some(AccountVote::Standard { vote, balance }) => {
						let w = weigh(vote.conviction, *balance);
						let d = self.delegations(*a);
						let n = w.0 + d.0;
						if vote.aye {
							t.0 += n
						} else {
							t.1 += n
						}
						t.2 += w.1 + d.1;
					},
					Some(AccountVote::Split { aye, nay }) => {
						t.0 += aye / 10;
						t.1 += nay / 10;
						t.2 += aye + nay;
					},
					None => {},
				}
			}
		}
		t
	}
	/// What the account's vote freeze must be after an unlock at block `now`.
	pub fn lock_needed(&self, a: Acc, now: Bn) -> Bal {
		let Some(v) = self.voting.get(&a) else { return 0 };
		let prior = if now >= v.until { 0 } else { v.amt };
		match &v.k {
			Vk::Direct(votes) => votes.values().map(vote_bal).fold(prior, |a, b| a.max(b)),
			Vk::Deleg { bal, .. } => prior.max(*bal),
		}
	}
	fn accumulate(v: &mut Voter, until: Bn, amt: Bal) {
		v.until = v.until.max(until);
		v.amt = v.amt.max(amt);
	}
	fn freeze_at_least(&mut self, a: Acc, b: Bal) {
		let f = self.dfrozen.entry(a).or_default();
		*f = (*f).max(b);
	}
	fn meta_move(&mut self, from: MetadataOwner, to: MetadataOwner) {
		if let Some(h) = self.meta.remove(&from.encode()) {
			self.meta.insert(to.encode(), h);
		}
	}
	fn meta_clear(&mut self, o: MetadataOwner) {
		self.meta.remove(&o.encode());
	}
	fn slash_total(&mut self, a: Acc, amt: Bal) {
		let t = self.total.entry(a).or_default();
		*t = t.saturating_sub(amt);
	}
	fn inject(&mut self, end: Bn, prop: BCall, thr: VoteThreshold, delay: Bn) -> u32 {
		let i = self.ref_count;
		self.ref_count += 1;
		self.refs.insert(i, Ref::Ongoing { end, prop, thr, delay });
		i
	}
	fn cancel_ref(&mut self, i: u32) {
		self.refs.remove(&i);
		self.meta_clear(MetadataOwner::Referendum(i));
	}
	fn drop_prop_slashed(&mut self, i: u32) {
		self.props.remove(&i);
		if let Some((whos, amt)) = self.deposits.remove(&i) {
			for w in whos {
				self.slash_total(w, amt);
			}
		}
		self.meta_clear(MetadataOwner::Proposal(i));
	}
	fn blacklisted(&self, h: &H256) -> bool {
		self.blacklist.get(h).map_or(false, |(until, _)| self.now < *until)
	}
	pub fn ongoing(&self, i: u32) -> bool {
		matches!(self.refs.get(&i), Some(Ref::Ongoing { .. }))
	}

	pub fn apply(&mut self, org: Org, call: &RuntimeCall) -> Expect {
		match call {
			RuntimeCall::Democracy(c) => self.democracy(org, c),
			RuntimeCall::Elections(c) => self.elections(org, c),
			RuntimeCall::Probe(probe::Call::enact { id, .. }) => {
				if org != Org::Root {
					return Expect::Err(&["D04"]);
				}
				if id % 5 == 4 {
					return Expect::Err(&[]);
				}
				self.log.push((*id, self.now));
				Expect::Ok
			},
			_ => Expect::Observe,
		}
	}

	fn democracy(&mut self, org: Org, c: &pallet_democracy::Call<Rt>) -> Expect {
		use pallet_democracy::Call as D;
		const BAD: Expect = Expect::Err(&["D08"]);
		let signed = match org {
			Org::Signed(a) => Some(a),
			Org::Root => None,
		};
		macro_rules! who {
			() => {
				match signed {
					Some(a) => a,
					None => return BAD,
				}
			};
		}
		macro_rules! guard {
			($c:expr, $t:expr) => {
				if !$c {
					return Expect::Err(&$t);
				}
			};
		}
		match c {
			D::propose { proposal, value } => {
				let who = who!();
				guard!(*value >= MinimumDeposit::get(), ["D05"]);
				guard!((self.props.len() as u32) < MaxProposals::get(), ["D05"]);
				guard!(!self.blacklisted(&hash_of(proposal)), ["D07"]);
				guard!(
					Balances::can_hold(&pallet_democracy::HoldReason::Proposal.into(), &who, *value),
					["D05"]
				);
				let i = self.prop_count;
				self.prop_count += 1;
				self.deposits.insert(i, (vec![who], *value));
				self.props.insert(i, (proposal.clone(), who));
				Expect::Ok
			},
			D::second { proposal } => {
				let who = who!();
				let Some((whos, amt)) = self.deposits.get(proposal) else { return Expect::Err(&["D05"]) };
				guard!((whos.len() as u32) < MaxDeposits::get(), ["D05"]);
				guard!(Balances::can_hold(&pallet_democracy::HoldReason::Proposal.into(), &who, *amt), ["D05"]);
				self.deposits.get_mut(proposal).unwrap().0.push(who);
				Expect::Ok
			},
			D::vote { ref_index, vote } => {
				let who = who!();
				guard!(self.ongoing(*ref_index), ["D01", "D03"]);
				guard!(vote_bal(vote) <= self.total(who), ["D01", "D02"]);
				let v = self.voting.entry(who).or_default();
				match &mut v.k {
					Vk::Deleg { .. } => return Expect::Err(&["D10"]),
					Vk::Direct(votes) => {
						if !votes.contains_key(ref_index) && votes.len() as u32 >= MaxVotes::get() {
							return Expect::Err(&["D10"]);
						}
						votes.insert(*ref_index, *vote);
					},
				}
				self.freeze_at_least(who, vote_bal(vote));
				Expect::Ok
			},
			D::remove_vote { index } => {
				let who = who!();
				self.remove_vote(who, *index, true)
			},
			D::remove_other_vote { target, index } => {
				let who = who!();
				self.remove_vote(*target, *index, *target == who)
			},
			D::unlock { target } => {
				let _ = who!();
				let n = self.lock_needed(*target, self.now);
				if let Some(v) = self.voting.get_mut(target) {
					if self.now >= v.until {
						v.until = 0;
						v.amt = 0;
					}
				}
				self.dfrozen.insert(*target, n);
				Expect::Ok
			},
			D::delegate { to, conviction, balance } => {
				let who = who!();
				guard!(who != *to, ["D10"]);
				guard!(*balance <= self.total(who), ["D10", "D02"]);
				let now = self.now;
				let v = self.voting.entry(who).or_default();
				match v.k.clone() {
					Vk::Direct(votes) => guard!(votes.is_empty(), ["D10"]),
					Vk::Deleg { conv, bal, .. } =>
						Self::accumulate(v, now.saturating_add(VoteLockingPeriod::get().saturating_mul(periods(conv))), bal),
				}
				v.k = Vk::Deleg { target: *to, conv: *conviction, bal: *balance };
				self.freeze_at_least(who, *balance);
				Expect::Ok
			},
			D::undelegate {} => {
				let who = who!();
				let now = self.now;
				let v = self.voting.entry(who).or_default();
				match v.k.clone() {
					Vk::Direct(_) => return Expect::Err(&["D10"]),
					Vk::Deleg { conv, bal, .. } => {
						Self::accumulate(v, now.saturating_add(VoteLockingPeriod::get().saturating_mul(periods(conv))), bal);
						v.k = Vk::Direct(Default::default());
					},
				}
				Expect::Ok
			},
			D::external_propose { proposal } => {
				guard!(signed == Some(EXTERNAL), ["D08"]);
				guard!(self.next_ext.is_none(), ["D08"]);
				guard!(!self.blacklisted(&hash_of(proposal)), ["D07"]);
				self.next_ext = Some((proposal.clone(), VoteThreshold::SuperMajorityApprove));
				Expect::Ok
			},
			D::external_propose_majority { proposal } => {
				guard!(signed == Some(EXT_MAJORITY), ["D08"]);
				self.meta_clear(MetadataOwner::External);
				self.next_ext = Some((proposal.clone(), VoteThreshold::SimpleMajority));
				Expect::Ok
			},
			D::external_propose_default { proposal } => {
				guard!(signed == Some(EXT_DEFAULT), ["D08"]);
				self.meta_clear(MetadataOwner::External);
				self.next_ext = Some((proposal.clone(), VoteThreshold::SuperMajorityAgainst));
				Expect::Ok
			},
			D::fast_track { proposal_hash, voting_period, delay } => {
				let fast = signed == Some(FASTTRACK) && *voting_period >= FastTrackVotingPeriod::get();
				let instant = signed == Some(INSTANT) && InstantAllowed::get();
				guard!(fast || instant, ["D08"]);
				guard!(*voting_period > 0, ["D08"]);
				let Some((p, thr)) = self.next_ext.clone() else { return Expect::Err(&["D08"]) };
				guard!(thr != VoteThreshold::SuperMajorityApprove, ["D08"]);
				guard!(hash_of(&p) == *proposal_hash, ["D08"]);
				self.next_ext = None;
				let i = self.inject(self.now.saturating_add(*voting_period), p, thr, *delay);
				self.meta_move(MetadataOwner::External, MetadataOwner::Referendum(i));
				Expect::Ok
			},
			D::veto_external { proposal_hash } => {
				let who = who!();
				guard!((VETO_LO..=VETO_HI).contains(&who), ["D08"]);
				guard!(self.next_ext.as_ref().map_or(false, |(p, _)| hash_of(p) == *proposal_hash), ["D07"]);
				let mut e = self.blacklist.get(proposal_hash).cloned().unwrap_or_default();
				guard!(!e.1.contains(&who), ["D07"]);
				guard!((e.1.len() as u32) < MaxBlacklisted::get(), ["D07"]);
				e.1.insert(who);
				e.0 = e.0.max(self.now.saturating_add(CooloffPeriod::get()));
				self.blacklist.insert(*proposal_hash, e);
				self.next_ext = None;
				self.meta_clear(MetadataOwner::External);
				Expect::Ok
			},
			D::emergency_cancel { ref_index } => {
				guard!(signed == Some(CANCELLER), ["D08"]);
				let Some(Ref::Ongoing { prop, .. }) = self.refs.get(ref_index) else {
					return Expect::Err(&["D07"])
				};
				let h = hash_of(prop);
				guard!(!self.cancelled.contains(&h), ["D07"]);
				self.cancelled.insert(h);
				self.cancel_ref(*ref_index);
				Expect::Ok
			},
			D::cancel_referendum { ref_index } => {
				guard!(org == Org::Root, ["D08"]);
				self.cancel_ref(*ref_index);
				Expect::Ok
			},
			D::blacklist { proposal_hash, maybe_ref_index } => {
				guard!(org == Org::Root, ["D08"]);
				self.blacklist.insert(*proposal_hash, (Bn::MAX, Default::default()));
				let gone: Vec<u32> =
					self.props.iter().filter(|(_, p)| hash_of(&p.0) == *proposal_hash).map(|x| *x.0).collect();
				for i in gone {
					self.drop_prop_slashed(i);
				}
				if self.next_ext.as_ref().map_or(false, |(p, _)| hash_of(p) == *proposal_hash) {
					self.next_ext = None;
					self.meta_clear(MetadataOwner::External);
				}
				if let Some(r) = maybe_ref_index {
					if matches!(self.refs.get(r), Some(Ref::Ongoing { prop, .. }) if hash_of(prop) == *proposal_hash) {
						self.cancel_ref(*r);
					}
				}
				Expect::Ok
			},
			D::cancel_proposal { prop_index } => {
				guard!(org == Org::Root, ["D08"]);
				self.drop_prop_slashed(*prop_index);
				Expect::Ok
			},
			D::clear_public_proposals {} => {
				guard!(org == Org::Root, ["D08"]);
				for i in self.props.keys().copied().collect::<Vec<_>>() {
					self.meta_clear(MetadataOwner::Proposal(i));
				}
				self.props.clear();
				self.deposits.clear();
				Expect::Ok
			},
			D::set_metadata { owner, maybe_hash } => {
				match owner {
					MetadataOwner::External => {
						let Some((_, thr)) = &self.next_ext else { return Expect::Err(&["D09"]) };
						let need = match thr {
							VoteThreshold::SuperMajorityApprove => EXTERNAL,
							VoteThreshold::SuperMajorityAgainst => EXT_DEFAULT,
							VoteThreshold::SimpleMajority => EXT_MAJORITY,
						};
						guard!(signed == Some(need), ["D08", "D09"]);
					},
					MetadataOwner::Proposal(i) => {
						let who = who!();
						guard!(self.props.get(i).map_or(false, |p| p.1 == who), ["D09"]);
					},
					MetadataOwner::Referendum(i) =>
						if org != Org::Root {
							guard!(maybe_hash.is_none(), ["D09"]);
							guard!(!self.ongoing(*i), ["D09"]);
						},
				}
				match maybe_hash {
					Some(h) => {
						guard!(
							<Preimage as frame_support::traits::QueryPreimage>::len(h).is_some(),
							["D09"]
						);
						self.meta.insert(owner.encode(), *h);
					},
					None => self.meta_clear(owner.clone()),
				}
				Expect::Ok
			},
			_ => Expect::Observe,
		}
	}

	fn remove_vote(&mut self, who: Acc, idx: u32, any: bool) -> Expect {
		let now = self.now;
		let info = self.refs.get(&idx).cloned();
		let v = self.voting.entry(who).or_default();
		let vote = match &v.k {
			// An account that delegates has no votes: nothing happens.
			Vk::Deleg { .. } => return Expect::Ok,
			Vk::Direct(votes) => match votes.get(&idx) {
				Some(x) => *x,
				None => return Expect::Err(&["D10"]),
			},
		};
		match info {
			Some(Ref::Ongoing { .. }) =>
				if !any {
					return Expect::Err(&["D02", "D01"]);
				},
			Some(Ref::Finished { end, approved }) =>
				if let AccountVote::Standard { vote, balance } = vote {
					if vote.aye == approved {
						let unlock = end.saturating_add(VoteLockingPeriod::get().saturating_mul(periods(vote.conviction)));
						if now < unlock {
							if !any {
								return Expect::Err(&["D02"]);
							}
							Self::accumulate(v, unlock, balance);
						}
					}
				},
			None => {},
		}
		if let Vk::Direct(votes) = &mut v.k {
			votes.remove(&idx);
		}
		Expect::Ok
	}

	/// Start of a block for democracy. `tabled` is the public proposal the chain tabled, if any:
	/// the model only insists that it was one of the best backed.
	/// Returns complaints.
	pub fn democracy_begin(&mut self, electorate: Bal, chain_props: &BTreeSet<u32>) -> Vec<(Tags, String)> {
		let mut bad: Vec<(Tags, String)> = vec![];
		let now = self.now;
		let last = self.ref_count;
		if now % LaunchPeriod::get() == 0 {
			let was_ext = std::mem::take(&mut self.last_ext);
			let order: [bool; 2] = if was_ext { [false, true] } else { [true, false] };
			for ext in order {
				if ext {
					if let Some((p, thr)) = self.next_ext.take() {
						self.last_ext = true;
						let i = self.inject(now.saturating_add(VotingPeriod::get()), p, thr, EnactmentPeriod::get());
						self.meta_move(MetadataOwner::External, MetadataOwner::Referendum(i));
						break;
					}
				} else if !self.props.is_empty() {
					let backing = |i: &u32| self.deposits.get(i).map_or(0, |(w, a)| a * w.len() as u128);
					let best = self.props.keys().map(backing).max().unwrap();
					let bests: Vec<u32> = self.props.keys().copied().filter(|i| backing(i) == best).collect();
					let gone: Vec<u32> = self.props.keys().copied().filter(|i| !chain_props.contains(i)).collect();
					let pick = match gone.as_slice() {
						[g] if bests.contains(g) => *g,
						_ => {
							bad.push((
								&["D06"],
								format!("block {now}: one of the best backed proposals {bests:?} is due to be tabled, the chain removed {gone:?}"),
							));
							*bests.last().unwrap()
						},
					};
					let (p, _) = self.props.remove(&pick).unwrap();
					self.deposits.remove(&pick);
					let i = self.inject(
						now.saturating_add(VotingPeriod::get()),
						p,
						VoteThreshold::SuperMajorityApprove,
						EnactmentPeriod::get(),
					);
					self.meta_move(MetadataOwner::Proposal(pick), MetadataOwner::Referendum(i));
					break;
				}
			}
		}
		for i in 0..last {
			if let Some(Ref::Ongoing { end, prop, thr, delay }) = self.refs.get(&i).cloned() {
				if end == now {
					let (a, n, t) = self.tally(i);
					let approved = passes(thr, a, n, t, electorate);
					if approved {
						self.pending.insert(i, (now.saturating_add(delay.max(1)), prop));
						self.approved_n += 1;
					} else {
						self.rejected_n += 1;
					}
					self.refs.insert(i, Ref::Finished { end: now, approved });
				}
			}
		}
		bad
	}

	/// The call behind a bounded proposal.
	pub fn call_of(&self, b: &BCall) -> Option<RuntimeCall> {
		match b {
			Bounded::Inline(x) => RuntimeCall::decode(&mut &x[..]).ok(),
			_ => self.universe.get(&hash_of(b)).cloned(),
		}
	}

	// ---------------------------------------------------------------- elections

	fn is_member(&self, a: Acc) -> bool {
		self.members.iter().any(|s| s.who == a)
	}
	fn is_runner(&self, a: Acc) -> bool {
		self.runners.iter().any(|s| s.who == a)
	}
	pub fn defunct(&self, v: &EVoter) -> bool {
		v.votes.iter().all(|c| !self.is_member(*c) && !self.is_runner(*c) && !self.cands.contains_key(c))
	}
	/// The order in which the chain iterates a Twox64Concat map keyed by account.
	pub fn iter_order(keys: impl Iterator<Item = Acc>) -> Vec<Acc> {
		let mut v: Vec<(Vec<u8>, Acc)> = keys
			.map(|a| {
				let mut k = sp_io::hashing::twox_64(&a.encode()).to_vec();
				k.extend(a.encode());
				(k, a)
			})
			.collect();
		v.sort();
		v.into_iter().map(|x| x.1).collect()
	}

	fn elections(&mut self, org: Org, c: &pallet_elections_phragmen::Call<Rt>) -> Expect {
		use pallet_elections_phragmen::{Call as E, Renouncing};
		let signed = match org {
			Org::Signed(a) => Some(a),
			Org::Root => None,
		};
		macro_rules! who {
			() => {
				match signed {
					Some(a) => a,
					None => return Expect::Err(&["D08"]),
				}
			};
		}
		macro_rules! guard {
			($c:expr, $t:expr) => {
				if !$c {
					return Expect::Err(&$t);
				}
			};
		}
		match c {
			E::vote { votes, value } => {
				let who = who!();
				let allowed = self.cands.len() + self.members.len() + self.runners.len();
				guard!(!votes.is_empty() && votes.len() <= MaxVotesPerVoter::get() as usize, ["E03"]);
				guard!(votes.len() <= allowed, ["E03"]);
				match self.evoters.get(&who) {
					Some(v) if self.now < v.till => guard!(*value >= v.stake, ["E03"]),
					_ => guard!(*value > Ed::get(), ["E03"]),
				}
				let stake = (*value).min(self.total(who));
				self.efrozen.insert(who, stake);
				self.evoters.insert(
					who,
					EVoter { votes: votes.clone(), stake, till: self.now + VotingLockPeriod::get() },
				);
				Expect::Ok
			},
			E::remove_voter {} => {
				let who = who!();
				let Some(v) = self.evoters.get(&who) else { return Expect::Err(&["E03"]) };
				guard!(v.till <= self.now, ["E03"]);
				self.evoters.remove(&who);
				self.efrozen.remove(&who);
				Expect::Ok
			},
			E::submit_candidacy { candidate_count } => {
				let who = who!();
				let n = self.cands.len() as u32;
				guard!(n <= *candidate_count, ["E01"]);
				if n >= MaxCandidates::get() {
					// One more than the limit is a known finding: see known-findings.txt.
					self.over_limit = n == MaxCandidates::get();
					if !self.over_limit {
						return Expect::Err(&["E01"]);
					}
				}
				guard!(!self.cands.contains_key(&who), ["E01", "E02"]);
				guard!(!self.is_member(who) && !self.is_runner(who), ["E01", "E02"]);
				guard!(
					Balances::can_hold(
						&pallet_elections_phragmen::HoldReason::Candidacy.into(),
						&who,
						CandidacyBond::get()
					),
					["E02"]
				);
				self.cands.insert(who, CandidacyBond::get());
				Expect::Ok
			},
			E::renounce_candidacy { renouncing } => {
				let who = who!();
				match renouncing {
					Renouncing::Member => {
						guard!(self.is_member(who), ["E05"]);
						self.remove_member(who, false);
					},
					Renouncing::RunnerUp => {
						guard!(self.is_runner(who), ["E05"]);
						self.runners.retain(|s| s.who != who);
					},
					Renouncing::Candidate(n) => {
						guard!(*n >= self.cands.len() as u32, ["E01"]);
						guard!(self.cands.contains_key(&who), ["E05"]);
						self.cands.remove(&who);
					},
				}
				Expect::Ok
			},
			E::remove_member { who, slash_bond, rerun_election } => {
				guard!(org == Org::Root, ["E05"]);
				guard!(self.is_member(*who), ["E05"]);
				self.remove_member(*who, *slash_bond);
				if *rerun_election {
					self.phragmen();
				}
				Expect::Ok
			},
			E::clean_defunct_voters { num_voters, num_defunct } => {
				guard!(org == Org::Root, ["E03"]);
				let gone: Vec<Acc> = Self::iter_order(self.evoters.keys().copied())
					.into_iter()
					.take(*num_voters as usize)
					.filter(|a| self.defunct(&self.evoters[a]))
					.take(*num_defunct as usize)
					.collect();
				for a in gone {
					self.evoters.remove(&a);
					self.efrozen.remove(&a);
				}
				Expect::Ok
			},
			_ => Expect::Observe,
		}
	}

	fn remove_member(&mut self, who: Acc, slash: bool) {
		let i = self.members.iter().position(|s| s.who == who).unwrap();
		let s = self.members.remove(i);
		if slash {
			self.slash_total(who, s.deposit);
		}
		if let Some(r) = self.runners.pop() {
			self.members.push(r);
			self.members.sort_by_key(|s| s.who);
		}
		if self.prime == Some(who) {
			self.prime = None;
		}
	}

	pub fn elections_begin(&mut self) {
		let t = TermDuration::get();
		if t != 0 && self.now % t == 0 {
			self.phragmen();
		}
	}

	fn phragmen(&mut self) {
		use sp_npos_elections::{seq_phragmen, ElectionResult};
		use sp_runtime::Perbill;
		use sp_staking::currency_to_vote::{CurrencyToVote, U128CurrencyToVote};
		let mut all: Vec<(Acc, Bal)> = self.cands.iter().map(|(a, d)| (*a, *d)).collect();
		all.extend(self.members.iter().chain(self.runners.iter()).map(|s| (s.who, s.deposit)));
		self.last_election = None;
		if all.is_empty() {
			return;
		}
		if self.evoters.len() > MaxVoters::get() as usize {
			self.last_election = Some(false);
			return;
		}
		let issuance = self.issuance();
		let voters: Vec<(Acc, u64, Vec<Acc>)> = Self::iter_order(self.evoters.keys().copied())
			.into_iter()
			.map(|a| {
				let v = &self.evoters[&a];
				(a, U128CurrencyToVote::to_vote(v.stake, issuance), v.votes.clone())
			})
			.collect();
		let seats = DesiredMembers::get() as usize;
		let ups = DesiredRunnersUp::get() as usize;
		let Ok(ElectionResult::<Acc, Perbill> { winners, .. }) =
			seq_phragmen(seats + ups, all.iter().map(|x| x.0).collect(), voters, None)
		else {
			self.last_election = Some(false);
			return;
		};
		let won: Vec<(Acc, Bal)> = winners
			.into_iter()
			.filter(|(_, b)| *b != 0)
			.map(|(a, b)| (a, U128CurrencyToVote::to_currency(b, issuance)))
			.collect();
		let dep = |a: Acc| all.iter().find(|x| x.0 == a).map_or(0, |x| x.1);
		let mut members: Vec<Seat> =
			won.iter().take(seats).map(|(a, s)| Seat { who: *a, stake: *s, deposit: dep(*a) }).collect();
		members.sort_by_key(|s| s.who);
		let mut runners: Vec<Seat> =
			won.iter().skip(seats).map(|(a, s)| Seat { who: *a, stake: *s, deposit: dep(*a) }).collect();
		runners.reverse();
		for (a, d) in &all {
			if !won.iter().any(|w| w.0 == *a) {
				self.slash_total(*a, *d);
			}
		}
		// Prime: highest Borda score, ties to the highest account.
		let mut best: Option<(Bal, Acc)> = None;
		for m in &members {
			let mut score: Bal = 0;
			for v in self.evoters.values() {
				for (pos, c) in v.votes.iter().enumerate() {
					if *c == m.who {
						score = score.saturating_add(v.stake.saturating_mul((MaxVotesPerVoter::get() as usize - pos) as u128));
					}
				}
			}
			if best.map_or(true, |b| (score, m.who) >= b) {
				best = Some((score, m.who));
			}
		}
		self.prime = best.map(|b| b.1);
		self.members = members;
		self.runners = runners;
		self.cands.clear();
		self.rounds += 1;
		self.last_election = Some(true);
	}
}
