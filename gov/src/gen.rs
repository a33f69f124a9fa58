//! Seeded choice of configurations, operations and faults.
use crate::{exec::encode_call, model::*, runtime::*, world::*};
use frame_support::traits::Bounded;
use pallet_democracy::{AccountVote, Conviction, MetadataOwner, Vote};
use pallet_elections_phragmen::Renouncing;
use parity_scale_codec::Encode;
use simcore::Rng;
use sp_core::H256;

pub fn cfg(r: &mut Rng, prop: &str) -> Cfg {
	let nodes = match prop {
		"S01" => r.range(2, 4) as usize,
		_ if r.chance(0.12) => r.range(2, 3) as usize,
		_ => 1,
	};
	let users = if prop.starts_with('E') { r.range(4, 12) } else { r.range(3, 9) };
	let scale: u128 = *r.pick(&[1u128, 1, 1, 100, 10_000_000_000]);
	let mut balances: Vec<(u64, String)> =
		(1..=users).map(|a| (a, ((10 + r.below(200)) as u128 * scale).to_string())).collect();
	balances.push((TREASURY, ((10 + r.below(300)) as u128 * scale).to_string()));
	let lim = |r: &mut Rng, v: &[u32]| *r.pick(v);
	let endless = r.chance(0.02);
	let endless_or = |r: &mut Rng, lo: u64, hi: u64| if r.chance(0.03) { Bn::MAX - r.below(3) } else { r.range(lo, hi) };
	Cfg {
		nodes,
		users,
		balances,
		ed: *r.pick(&[1, 1, 2, 5, 10]),
		voting: if endless { Bn::MAX - r.below(3) } else { r.range(1, 6) },
		launch: r.range(1, 5),
		enact: endless_or(r, 0, 4),
		lock: endless_or(r, 1, 5),
		cooloff: endless_or(r, 1, 8),
		fast: r.range(1, 4),
		min_deposit: r.range(1, 12),
		instant: r.chance(0.5),
		max_votes: lim(r, &[2, 3, 5, 100, 100]),
		max_props: lim(r, &[1, 2, 4, 100, 100]),
		max_deposits: lim(r, &[1, 2, 4, 100, 100]),
		max_blacklisted: lim(r, &[1, 2, 5]),
		bond: r.range(1, 10),
		seats: r.range(1, 4) as u32,
		runners: r.range(0, 5) as u32,
		term: if r.chance(0.05) { 0 } else { r.range(2, 9) },
		elock: r.range(0, 5),
		max_cands: lim(r, &[1, 2, 3, 5, 100, 100]),
		max_voters: if prop == "E07" { lim(r, &[1, 2, 3, 4]) } else { lim(r, &[2, 4, 100, 100, 100]) },
		max_per_voter: lim(r, &[1, 2, 3, 8, 16]),
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
	Vote,
	RemoveVote,
	RemoveOther,
	Delegate,
	Undelegate,
	Unlock,
	Propose,
	Second,
	External,
	FastTrack,
	Veto,
	EmergencyCancel,
	CancelRef,
	Blacklist,
	CancelProposal,
	ClearProposals,
	SetMetadata,
	Note,
	Unnote,
	EVote,
	RemoveVoter,
	Submit,
	Renounce,
	RemoveMember,
	CleanDefunct,
	Transfer,
	SetBalance,
	Vest,
	VestedTransfer,
	ForceVested,
	Merge,
	Hold,
	Release,
	Slash,
	Burn,
	Wrong,
}
use Op::*;
const OPS: &[Op] = &[
	Vote, RemoveVote, RemoveOther, Delegate, Undelegate, Unlock, Propose, Second, External, FastTrack, Veto,
	EmergencyCancel, CancelRef, Blacklist, CancelProposal, ClearProposals, SetMetadata, Note, Unnote, EVote, RemoveVoter,
	Submit, Renounce, RemoveMember, CleanDefunct, Transfer, SetBalance, Vest, VestedTransfer, ForceVested, Merge, Hold,
	Release, Slash, Burn, Wrong,
];

fn focus(prop: &str) -> &'static [(Op, u32)] {
	match prop {
		"D01" => &[(Vote, 10), (RemoveVote, 3), (Delegate, 5), (Undelegate, 3), (External, 4), (FastTrack, 4), (Propose, 3)],
		"D02" => &[(Vote, 9), (RemoveVote, 5), (RemoveOther, 4), (Delegate, 5), (Undelegate, 4), (Unlock, 5), (FastTrack, 4), (External, 4), (Propose, 3), (Transfer, 3)],
		"D03" => &[(Vote, 10), (Delegate, 3), (External, 5), (FastTrack, 5), (Propose, 4)],
		"D04" => &[(Vote, 8), (External, 6), (FastTrack, 6), (Propose, 4), (Note, 3), (Unnote, 2), (CancelRef, 2)],
		"D05" => &[(Propose, 9), (Second, 8), (CancelProposal, 3), (ClearProposals, 2), (Blacklist, 2), (Transfer, 3), (Hold, 2)],
		"D06" => &[(Propose, 8), (Second, 6), (External, 6), (Vote, 2), (CancelProposal, 1)],
		"D07" => &[(Propose, 6), (External, 8), (Veto, 8), (Blacklist, 4), (EmergencyCancel, 5), (FastTrack, 4), (CancelRef, 2)],
		"D08" => &[(External, 9), (FastTrack, 9), (Veto, 3), (Wrong, 6), (Propose, 2)],
		"D09" => &[(SetMetadata, 10), (Note, 4), (Propose, 5), (Second, 3), (External, 5), (FastTrack, 3), (Veto, 2), (CancelProposal, 2), (Blacklist, 2), (CancelRef, 2)],
		"D10" => &[(Vote, 8), (RemoveVote, 5), (Delegate, 9), (Undelegate, 5), (External, 4), (FastTrack, 4), (Propose, 3)],
		"E01" => &[(Submit, 9), (EVote, 8), (Renounce, 5), (RemoveMember, 3)],
		"E02" => &[(Submit, 9), (EVote, 7), (Renounce, 5), (RemoveMember, 4), (Slash, 2), (Hold, 3)],
		"E03" => &[(Submit, 7), (EVote, 10), (RemoveVoter, 5), (CleanDefunct, 3), (Renounce, 3), (Transfer, 3)],
		"E04" => &[(Submit, 8), (EVote, 10), (RemoveVoter, 2), (Transfer, 2), (RemoveMember, 1)],
		"E05" => &[(Submit, 8), (EVote, 8), (Renounce, 6), (RemoveMember, 5)],
		"E06" => &[(Submit, 8), (EVote, 10), (Renounce, 3), (RemoveMember, 3)],
		"E07" => &[(Submit, 8), (EVote, 12), (RemoveVoter, 2), (Renounce, 2)],
		"E08" => &[(Submit, 8), (EVote, 9), (Renounce, 5), (RemoveMember, 5)],
		"V01" | "V02" => &[(ForceVested, 9), (VestedTransfer, 7), (Hold, 9), (Slash, 9), (Vest, 3), (Release, 1), (Merge, 3), (Transfer, 2)],
		_ => &[],
	}
}

/// Nothing the operation could act on.
fn pointless(op: Op, m: &Model) -> bool {
	let ongoing = || m.refs.values().any(|x| matches!(x, Ref::Ongoing { .. }));
	match op {
		Vote | EmergencyCancel | CancelRef => !ongoing(),
		RemoveVote | RemoveOther => !m.voting.values().any(|v| matches!(&v.k, Vk::Direct(x) if !x.is_empty())),
		Undelegate => !m.voting.values().any(|v| matches!(v.k, Vk::Deleg { .. })),
		Second | CancelProposal | ClearProposals => m.props.is_empty(),
		Veto => m.next_ext.is_none(),
		SetMetadata => m.next_ext.is_none() && m.props.is_empty() && !ongoing(),
		EVote => m.cands.is_empty() && m.members.is_empty() && m.runners.is_empty(),
		Renounce => m.cands.is_empty() && m.members.is_empty() && m.runners.is_empty(),
		RemoveMember => m.members.is_empty(),
		RemoveVoter | CleanDefunct => m.evoters.is_empty(),
		_ => false,
	}
}

fn needs(prop: &str) -> &'static [Op] {
	match prop.as_bytes()[0] {
		b'D' => &[Vote, External, FastTrack, Propose],
		b'E' => &[Submit, EVote],
		b'V' => &[ForceVested, Hold, Slash],
		_ => &[],
	}
}

pub struct Gen {
	pub w: Vec<u32>,
	pub next_id: u64,
	pub p_produce: f64,
	pub p_jump: f64,
	pub p_stall: f64,
	pub p_bond: f64,
	pub p_crash: f64,
	pub p_flush: f64,
	pub p_part: f64,
	pub p_net: f64,
	pub p_loss: f64,
	pub p_dup: f64,
	/// Signed by somebody else than the call is made for.
	pub p_signer: f64,
	pub bond: u64,
	pub calls: Vec<RuntimeCall>,
	pub faults: bool,
	pub blocks: u64,
}

impl Gen {
	pub fn new(r: &mut Rng, prop: &str, c: &Cfg) -> Gen {
		let mut w: Vec<u32> = OPS
			.iter()
			.map(|op| {
				let base = match op {
					Burn | Wrong | SetBalance | ClearProposals | Blacklist | CancelProposal | CleanDefunct | Merge | Slash => 1,
					Vote | Propose | External | FastTrack | EVote | Submit => 4,
					_ => 2,
				};
				if r.chance(0.3) {
					0
				} else {
					base
				}
			})
			.collect();
		for (op, x) in focus(prop) {
			let i = OPS.iter().position(|o| o == op).unwrap();
			// Swarm: even operations in focus are sometimes left out or made rare.
			w[i] += if needs(prop).contains(op) || r.chance(0.8) { *x * 2 } else { 0 };
		}
		if prop.starts_with('S') {
			for op in [Vote, External, FastTrack, Propose, Submit, EVote] {
				w[OPS.iter().position(|o| *o == op).unwrap()] += 4;
			}
		} else if prop.starts_with('E') || prop.starts_with('V') {
			// Less of the other subsystem.
			let other: &[Op] = &[
				Vote, RemoveVote, RemoveOther, Delegate, Undelegate, Propose, Second, External, FastTrack, Veto,
				EmergencyCancel, CancelRef, SetMetadata,
			];
			if r.chance(0.6) {
				for op in other {
					w[OPS.iter().position(|o| o == op).unwrap()] = 0;
				}
			}
		} else if prop.starts_with('D') && r.chance(0.6) {
			for op in [Submit, EVote, Renounce, RemoveMember, RemoveVoter, CleanDefunct] {
				w[OPS.iter().position(|o| *o == op).unwrap()] = 0;
			}
		}
		let faults = r.chance(0.75);
		let f = |r: &mut Rng, hi: f64| if faults && r.chance(0.6) { (r.below(1000) as f64 / 1000.0) * hi } else { 0.0 };
		Gen {
			w,
			next_id: 1,
			p_produce: 0.15 + 0.5 * (r.below(1000) as f64 / 1000.0),
			p_jump: if r.chance(0.6) { 0.03 } else { 0.0 },
			p_stall: f(r, 0.5),
			p_bond: f(r, 0.2),
			p_crash: f(r, 0.03),
			p_flush: 0.02 + 0.1 * (r.below(1000) as f64 / 1000.0),
			p_part: f(r, 0.03),
			p_net: 0.3 + 0.5 * (r.below(1000) as f64 / 1000.0),
			p_loss: f(r, 0.3),
			p_dup: f(r, 0.3),
			p_signer: f(r, 0.08),
			bond: c.bond,
			calls: universe(c.users),
			faults,
			blocks: 0,
		}
	}
	pub fn id(&mut self) -> u64 {
		self.next_id += 1;
		self.next_id - 1
	}

	fn bounded(&self, r: &mut Rng) -> BCall {
		let c = if r.chance(0.6) { r.pick(&self.calls[..12]) } else { r.pick(&self.calls) };
		let e = c.encode();
		let hash = H256::from(sp_io::hashing::blake2_256(&e));
		let len = e.len() as u32;
		if len <= 128 && r.chance(0.75) {
			return Bounded::Inline(e.try_into().unwrap());
		}
		if r.chance(0.8) {
			Bounded::Lookup { hash, len }
		} else {
			Bounded::Legacy { hash, dummy: Default::default() }
		}
	}

	pub fn produce(&mut self, r: &mut Rng, node: usize) -> Step {
		if r.chance(self.p_bond) {
			self.bond = r.range(1, 12);
		}
		self.blocks += 1;
		Step::Produce {
			id: self.id(),
			node,
			stalled: r.chance(self.p_stall),
			bond: self.bond,
			max: if r.chance(0.1) { r.range(0, 3) as usize } else { 1000 },
		}
	}

	pub fn steps(&mut self, r: &mut Rng, w: &World) -> Vec<Step> {
		let n = w.nodes.len();
		let up: Vec<usize> = (0..n).filter(|i| w.nodes[*i].up).collect();
		if up.is_empty() || (up.len() < n && r.chance(0.15)) {
			let down: Vec<usize> = (0..n).filter(|i| !w.nodes[*i].up).collect();
			return vec![Step::Restart { node: *r.pick(&down) }];
		}
		if r.chance(self.p_crash) {
			return vec![Step::Crash { node: *r.pick(&up) }];
		}
		if r.chance(self.p_flush) {
			return vec![Step::Flush { node: *r.pick(&up) }];
		}
		if n > 1 {
			if r.chance(self.p_part) {
				let groups =
					if w.groups.iter().any(|g| *g != 0) && r.chance(0.7) { vec![0; n] } else { (0..n).map(|_| r.below(2) as u8).collect() };
				return vec![Step::Partition { groups }];
			}
			if !w.net.is_empty() && r.chance(self.p_net) {
				// Mostly the oldest first.
				let k = if r.chance(0.6) { 0 } else { r.below(w.net.len() as u64) as usize };
				let m = w.net[k];
				let act = if r.chance(self.p_loss) {
					Act::Drop
				} else if r.chance(self.p_dup) {
					Act::Duplicate
				} else {
					Act::Deliver
				};
				return vec![Step::Net { src: m.src, dst: m.dst, block: m.block, id: m.id, act }];
			}
		}
		let node = *r.pick(&up);
		if r.chance(self.p_jump) {
			let k = r.range(2, 12);
			return (0..k).map(|_| self.produce(r, node)).collect();
		}
		if r.chance(self.p_produce) {
			return vec![self.produce(r, node)];
		}
		let m = w.head_model(node);
		match self.call(r, &m, &w.cfg) {
			Some((who, c)) => {
				let who = if r.chance(self.p_signer) {
					*r.pick(&[1, 2, 3, EXT_DEFAULT, EXTERNAL, EXT_MAJORITY, CANCELLER, FASTTRACK, INSTANT, VETO_LO, VETO_HI, SUDO])
				} else {
					who
				};
				vec![Step::Submit { id: self.id(), node, who, call: encode_call(&c) }]
			},
			None => vec![self.produce(r, node)],
		}
	}

	fn amount(&self, r: &mut Rng, total: Bal) -> Bal {
		match r.below(10) {
			0 => 1 + r.below(5) as Bal,
			1 => total,
			2 => total + 1,
			3 => total / 2,
			4 => 0,
			5 => 9,
			_ => r.below128(total.max(1)) + 1,
		}
	}
	fn conviction(&self, r: &mut Rng) -> Conviction {
		match r.below(9) {
			0 | 1 => Conviction::None,
			2 | 3 => Conviction::Locked1x,
			4 => Conviction::Locked2x,
			5 => Conviction::Locked3x,
			6 => Conviction::Locked4x,
			7 => Conviction::Locked5x,
			_ => Conviction::Locked6x,
		}
	}

	pub fn call(&self, r: &mut Rng, m: &Model, c: &Cfg) -> Option<(Acc, RuntimeCall)> {
		use pallet_democracy::Call as D;
		use pallet_elections_phragmen::Call as E;
		let user = |r: &mut Rng| 1 + r.below(c.users);
		let mut op = OPS[r.weighted(&self.w)];
		for _ in 0..4 {
			if !pointless(op, m) || r.chance(0.1) {
				break;
			}
			op = OPS[r.weighted(&self.w)];
		}
		let ongoing: Vec<u32> = m.refs.iter().filter(|(_, x)| matches!(x, Ref::Ongoing { .. })).map(|x| *x.0).collect();
		let any_ref = |r: &mut Rng| -> u32 {
			if !ongoing.is_empty() && r.chance(0.85) {
				*r.pick(&ongoing)
			} else {
				r.below(m.ref_count as u64 + 1) as u32
			}
		};
		let voters: Vec<(Acc, u32)> = m
			.voting
			.iter()
			.flat_map(|(a, v)| match &v.k {
				Vk::Direct(x) => x.keys().map(|k| (*a, *k)).collect::<Vec<_>>(),
				_ => vec![],
			})
			.collect();
		let dem = RuntimeCall::Democracy;
		let ele = RuntimeCall::Elections;
		let known_hash = |r: &mut Rng, s: &Self| -> H256 {
			let mut v: Vec<H256> = m.props.values().map(|p| hash_of(&p.0)).collect();
			v.extend(m.next_ext.iter().map(|p| hash_of(&p.0)));
			v.extend(m.refs.values().filter_map(|x| match x {
				Ref::Ongoing { prop, .. } => Some(hash_of(prop)),
				_ => None,
			}));
			if v.is_empty() || r.chance(0.1) {
				H256::from(sp_io::hashing::blake2_256(&r.pick(&s.calls).encode()))
			} else {
				*r.pick(&v)
			}
		};
		Some(match op {
			Vote => {
				let who = user(r);
				let t = m.total(who);
				let vote = if r.chance(0.8) {
					AccountVote::Standard {
						vote: pallet_democracy::Vote { aye: r.chance(0.6), conviction: self.conviction(r) },
						balance: self.amount(r, t),
					}
				} else {
					AccountVote::Split { aye: self.amount(r, t / 2), nay: self.amount(r, t / 2) }
				};
				(who, dem(D::vote { ref_index: any_ref(r), vote }))
			},
			RemoveVote => match r.pick_opt(&voters) {
				Some((a, i)) if r.chance(0.9) => (*a, dem(D::remove_vote { index: *i })),
				_ => (user(r), dem(D::remove_vote { index: any_ref(r) })),
			},
			RemoveOther => match r.pick_opt(&voters) {
				Some((a, i)) if r.chance(0.9) => (user(r), dem(D::remove_other_vote { target: *a, index: *i })),
				_ => (user(r), dem(D::remove_other_vote { target: user(r), index: any_ref(r) })),
			},
			Delegate => {
				let free: Vec<Acc> = (1..=c.users)
					.filter(|a| m.voting.get(a).map_or(true, |v| !matches!(&v.k, Vk::Direct(x) if !x.is_empty())))
					.collect();
				let who = match r.pick_opt(&free) {
					Some(a) if r.chance(0.9) => *a,
					_ => user(r),
				};
				(
					who,
					dem(D::delegate { to: user(r), conviction: self.conviction(r), balance: self.amount(r, m.total(who)) }),
				)
			},
			Undelegate => {
				let d: Vec<Acc> =
					m.voting.iter().filter(|(_, v)| matches!(v.k, Vk::Deleg { .. })).map(|x| *x.0).collect();
				match r.pick_opt(&d) {
					Some(a) if r.chance(0.95) => (*a, dem(D::undelegate {})),
					_ => (user(r), dem(D::undelegate {})),
				}
			},
			Unlock => {
				let t = user(r);
				(user(r), dem(D::unlock { target: t }))
			},
			Propose => {
				let value = match r.below(6) {
					0 => c.min_deposit as Bal - 1,
					1 => self.amount(r, m.total(1)),
					_ => c.min_deposit as Bal + r.below(4) as Bal,
				};
				(user(r), dem(D::propose { proposal: self.bounded(r), value }))
			},
			Second => {
				let k: Vec<u32> = m.deposits.keys().copied().collect();
				let i = match r.pick_opt(&k) {
					Some(i) if r.chance(0.95) => *i,
					_ => r.below(m.prop_count as u64 + 1) as u32,
				};
				(user(r), dem(D::second { proposal: i }))
			},
			External => {
				let proposal = self.bounded(r);
				match r.below(4) {
					0 => (EXTERNAL, dem(D::external_propose { proposal })),
					1 => (EXT_DEFAULT, dem(D::external_propose_default { proposal })),
					_ => (EXT_MAJORITY, dem(D::external_propose_majority { proposal })),
				}
			},
			FastTrack => {
				if m.next_ext.is_none() && r.chance(0.7) {
					return Some((EXT_MAJORITY, dem(D::external_propose_majority { proposal: self.bounded(r) })));
				}
				let h = match &m.next_ext {
					Some((p, _)) if r.chance(0.92) => hash_of(p),
					_ => known_hash(r, self),
				};
				let vp = if r.chance(0.15) { r.below(2) } else { c.fast + r.below(4) };
				let vp = if r.chance(0.02) { Bn::MAX } else { vp };
				(
					if r.chance(0.6) { FASTTRACK } else { INSTANT },
					dem(D::fast_track { proposal_hash: h, voting_period: vp, delay: if r.chance(0.06) { Bn::MAX - r.below(3) } else { r.below(5) } }),
				)
			},
			Veto => {
				let h = match &m.next_ext {
					Some((p, _)) if r.chance(0.92) => hash_of(p),
					_ => known_hash(r, self),
				};
				(VETO_LO + r.below(VETO_HI - VETO_LO + 1), dem(D::veto_external { proposal_hash: h }))
			},
			EmergencyCancel => (CANCELLER, dem(D::emergency_cancel { ref_index: any_ref(r) })),
			CancelRef => (SUDO, dem(D::cancel_referendum { ref_index: any_ref(r) })),
			Blacklist => {
				let h = known_hash(r, self);
				let maybe_ref_index = if r.chance(0.6) {
					let same: Vec<u32> = m
						.refs
						.iter()
						.filter(|(_, x)| matches!(x, Ref::Ongoing { prop, .. } if hash_of(prop) == h))
						.map(|x| *x.0)
						.collect();
					Some(match r.pick_opt(&same) {
						Some(i) if r.chance(0.8) => *i,
						_ => any_ref(r),
					})
				} else {
					None
				};
				(SUDO, dem(D::blacklist { proposal_hash: h, maybe_ref_index }))
			},
			CancelProposal => {
				let k: Vec<u32> = m.props.keys().copied().collect();
				let i = match r.pick_opt(&k) {
					Some(i) if r.chance(0.95) => *i,
					_ => r.below(m.prop_count as u64 + 1) as u32,
				};
				(SUDO, dem(D::cancel_proposal { prop_index: i }))
			},
			ClearProposals => (SUDO, dem(D::clear_public_proposals {})),
			SetMetadata => {
				let hash = H256::from(sp_io::hashing::blake2_256(&r.pick(&self.calls[8..]).encode()));
				let maybe_hash = if r.chance(0.75) { Some(hash) } else { None };
				let (owner, who) = match r.below(3) {
					0 => (
						MetadataOwner::External,
						match m.next_ext.as_ref().map(|x| x.1) {
							Some(pallet_democracy::VoteThreshold::SuperMajorityApprove) => EXTERNAL,
							Some(pallet_democracy::VoteThreshold::SuperMajorityAgainst) => EXT_DEFAULT,
							_ => EXT_MAJORITY,
						},
					),
					1 => {
						let k: Vec<(u32, Acc)> = m.props.iter().map(|(i, p)| (*i, p.1)).collect();
						match r.pick_opt(&k) {
							// Sometimes somebody who only backs it.
							Some((i, _)) if r.chance(0.15) && m.deposits.contains_key(i) =>
								(MetadataOwner::Proposal(*i), *r.pick(&m.deposits[i].0)),
							Some((i, a)) => (MetadataOwner::Proposal(*i), *a),
							None => (MetadataOwner::Proposal(r.below(3) as u32), user(r)),
						}
					},
					_ => (MetadataOwner::Referendum(any_ref(r)), SUDO),
				};
				let who = match r.below(12) {
					0 => user(r),
					1 => *r.pick(&[EXTERNAL, EXT_DEFAULT, EXT_MAJORITY, SUDO]),
					_ => who,
				};
				(who, dem(D::set_metadata { owner, maybe_hash }))
			},
			Note => {
				let bytes = if r.chance(0.8) { r.pick(&self.calls[8..]).encode() } else { r.pick(&self.calls).encode() };
				(user(r), RuntimeCall::Preimage(pallet_preimage::Call::note_preimage { bytes }))
			},
			Unnote => {
				let hash = H256::from(sp_io::hashing::blake2_256(&r.pick(&self.calls[8..]).encode()));
				let who = user(r);
				(who, RuntimeCall::Preimage(pallet_preimage::Call::unnote_preimage { hash }))
			},
			EVote => {
				let who = user(r);
				let mut t: Vec<Acc> = m.cands.keys().copied().collect();
				t.extend(m.members.iter().chain(m.runners.iter()).map(|s| s.who));
				if r.chance(0.1) || t.is_empty() {
					t.push(user(r));
				}
				r.shuffle(&mut t);
				let k = match r.below(8) {
					0 if r.chance(0.3) => c.max_per_voter as usize + 1,
					1 if r.chance(0.3) => 0,
					_ => 1 + r.below(c.max_per_voter.min(5) as u64) as usize,
				};
				let mut votes: Vec<Acc> = t.into_iter().take(k).collect();
				if r.chance(0.04) && !votes.is_empty() {
					votes.push(votes[0]);
				}
				let value = match m.evoters.get(&who) {
					Some(v) if r.chance(0.6) => v.stake + r.below(4) as Bal,
					_ => self.amount(r, m.total(who)),
				};
				(who, ele(E::vote { votes, value }))
			},
			RemoveVoter => {
				let k: Vec<Acc> = m.evoters.keys().copied().collect();
				match r.pick_opt(&k) {
					Some(a) if r.chance(0.95) => (*a, ele(E::remove_voter {})),
					_ => (user(r), ele(E::remove_voter {})),
				}
			},
			Submit => {
				let n = m.cands.len() as u32;
				let candidate_count = if r.chance(0.06) { n.saturating_sub(1) } else { n + r.below(3) as u32 };
				(user(r), ele(E::submit_candidacy { candidate_count }))
			},
			Renounce => {
				let n = m.cands.len() as u32;
				let mut k: Vec<(Acc, Renouncing)> = m.members.iter().map(|s| (s.who, Renouncing::Member)).collect();
				k.extend(m.runners.iter().map(|s| (s.who, Renouncing::RunnerUp)));
				k.extend(m.cands.keys().map(|a| (*a, Renouncing::Candidate(n + r.below(2) as u32))));
				let (who, renouncing) = match r.below(10) {
					0 => (user(r), Renouncing::Member),
					1 => (user(r), Renouncing::RunnerUp),
					2 => (user(r), Renouncing::Candidate((n + r.below(2) as u32).saturating_sub(r.below(2) as u32))),
					_ => match r.pick_opt(&k) {
						Some(x) => x.clone(),
						None => (user(r), Renouncing::Member),
					},
				};
				let who = if r.chance(0.05) { user(r) } else { who };
				(who, ele(E::renounce_candidacy { renouncing }))
			},
			RemoveMember => {
				let k: Vec<Acc> = m.members.iter().map(|s| s.who).collect();
				let who = match r.pick_opt(&k) {
					Some(a) if r.chance(0.95) => *a,
					_ => user(r),
				};
				(
					if r.chance(0.95) { SUDO } else { user(r) },
					ele(E::remove_member { who, slash_bond: r.chance(0.5), rerun_election: r.chance(0.25) }),
				)
			},
			CleanDefunct => (
				if r.chance(0.95) { SUDO } else { user(r) },
				ele(E::clean_defunct_voters { num_voters: r.below(8) as u32, num_defunct: r.below(6) as u32 }),
			),
			Transfer => {
				let who = user(r);
				let dest = if r.chance(0.1) { TREASURY } else { user(r) };
				let value = self.amount(r, m.total(who));
				use pallet_balances::Call as B;
				(
					who,
					RuntimeCall::Balances(match r.below(3) {
						0 => B::transfer_keep_alive { dest, value },
						1 => B::transfer_all { dest, keep_alive: true },
						_ => B::transfer_allow_death { dest, value },
					}),
				)
			},
			SetBalance => {
				let who = user(r);
				let t = m.total(who);
				let new_free = if r.chance(0.5) { t + self.amount(r, t) } else { self.amount(r, t) };
				(SUDO, RuntimeCall::Balances(pallet_balances::Call::force_set_balance { who, new_free }))
			},
			Vest => (user(r), RuntimeCall::Vesting(pallet_vesting::Call::vest {})),
			VestedTransfer | ForceVested => {
				let source = user(r);
				// To oneself: an assertion of pallet-balances fails.
				let target = 1 + (source + r.below(c.users - 1)) % c.users;
				let t = m.total(source) / 2;
				let locked = self.amount(r, t).max(2);
				let len = 1 + r.below(20) as Bal;
				let per = if r.chance(0.2) { 1 + r.below(4) as Bal } else { (locked / len).max(1) };
				let start = (m.now + r.below(12)).saturating_sub(6);
				let schedule = pallet_vesting::VestingInfo::new(locked, per, start);
				if op == ForceVested {
					(SUDO, RuntimeCall::Vesting(pallet_vesting::Call::force_vested_transfer { source, target, schedule }))
				} else {
					(source, RuntimeCall::Vesting(pallet_vesting::Call::vested_transfer { target, schedule }))
				}
			},
			Merge => (
				user(r),
				RuntimeCall::Vesting(pallet_vesting::Call::merge_schedules { schedule1_index: 0, schedule2_index: 1 }),
			),
			Hold => {
				let who = user(r);
				(who, RuntimeCall::Probe(probe::Call::hold { amount: self.amount(r, m.total(who)) }))
			},
			Release => {
				let who = user(r);
				(who, RuntimeCall::Probe(probe::Call::release { amount: self.amount(r, m.total(who)) }))
			},
			Slash => {
				let k: Vec<Acc> = m.other_held.iter().filter(|x| *x.1 > 0).map(|x| *x.0).collect();
				let who = r.pick_opt(&k).copied().unwrap_or_else(|| user(r));
				let amount = self.amount(r, m.other_held.get(&who).copied().unwrap_or(1));
				(SUDO, RuntimeCall::Probe(probe::Call::slash { who, amount }))
			},
			Burn => (
				user(r),
				RuntimeCall::Probe(probe::Call::burn_weight { w: 200_000_000_000 + r.below(1_200_000_000_000) }),
			),
			Wrong => {
				// Someone without the right calls a privileged call.
				let who = match r.below(3) {
					0 => user(r),
					1 => *r.pick(&[EXT_DEFAULT, EXTERNAL, EXT_MAJORITY, CANCELLER, FASTTRACK, INSTANT, VETO_LO]),
					_ => SUDO,
				};
				let h = match &m.next_ext {
					Some((p, _)) => hash_of(p),
					_ => known_hash(r, self),
				};
				let call = match r.below(12) {
					0 => dem(D::external_propose { proposal: self.bounded(r) }),
					1 => dem(D::external_propose_default { proposal: self.bounded(r) }),
					2 => dem(D::external_propose_majority { proposal: self.bounded(r) }),
					3 => dem(D::fast_track { proposal_hash: h, voting_period: c.fast, delay: 1 }),
					4 => dem(D::veto_external { proposal_hash: h }),
					5 => dem(D::emergency_cancel { ref_index: any_ref(r) }),
					6 => dem(D::cancel_referendum { ref_index: any_ref(r) }),
					7 => dem(D::blacklist { proposal_hash: h, maybe_ref_index: None }),
					8 => dem(D::cancel_proposal { prop_index: r.below(4) as u32 }),
					9 => dem(D::clear_public_proposals {}),
					10 => RuntimeCall::Probe(probe::Call::enact { id: 1, pad: vec![] }),
					_ => dem(D::propose { proposal: self.bounded(r), value: 100 }),
				};
				(who, call)
			},
		})
	}

	/// At the end: everybody takes back votes and delegations, time passes, everybody unlocks.
	pub fn drain(&mut self, r: &mut Rng, w: &World) -> Vec<Step> {
		let mut v = vec![Step::Settle];
		let m = w.models[&w.nodes.iter().map(|n| n.head).max_by_key(|h| (w.number(*h), *h)).unwrap()].clone();
		let sub = |g: &mut Self, who: Acc, c: RuntimeCall| Step::Submit { id: g.id(), node: 0, who, call: encode_call(&c) };
		let mut until = m.now + 1;
		for (_, (when, _)) in &m.pending {
			until = until.max(*when);
		}
		let _ = r;
		for (a, x) in &m.voting {
			match &x.k {
				Vk::Direct(k) =>
					for i in k.keys() {
						if let Some(Ref::Ongoing { end, .. }) = m.refs.get(i) {
							until = until.max((*end).min(m.now + 50));
						}
						v.push(sub(self, *a, RuntimeCall::Democracy(pallet_democracy::Call::remove_vote { index: *i })));
					},
				Vk::Deleg { conv, .. } => {
					until = until.max(VoteLockingPeriod::get().saturating_mul(periods(*conv)).saturating_add(m.now + 1));
					v.push(sub(self, *a, RuntimeCall::Democracy(pallet_democracy::Call::undelegate {})));
				},
			}
			until = until.max(x.until);
		}
		for _ in 0..((until - m.now).min(60) + 1) {
			let id = self.id();
			v.push(Step::Produce { id, node: 0, stalled: false, bond: self.bond, max: 1000 });
		}
		for a in m.voting.keys() {
			v.push(sub(self, *a, RuntimeCall::Democracy(pallet_democracy::Call::unlock { target: *a })));
		}
		for _ in 0..2 {
			let id = self.id();
			v.push(Step::Produce { id, node: 0, stalled: false, bond: self.bond, max: 1000 });
		}
		v.push(Step::Settle);
		v
	}
}

#[allow(unused)]
fn _unused(_: Vote) {}
