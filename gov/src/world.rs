//! Nodes, their disks and pools, and the network between them: everything nondeterministic is a
//! step chosen by the seeded scheduler or read back from a replay file.
use crate::{exec::*, model::*, runtime::*};
use frame_support::traits::fungible::Inspect;
use parity_scale_codec::Encode;
use serde::{Deserialize, Serialize};
use simcore::{guarded, Oracle};
use sp_core::{storage::Storage, H256};
use sp_runtime::BuildStorage;
use sp_state_machine::BasicExternalities;
use std::{
	collections::{BTreeMap, BTreeSet},
	rc::Rc,
	sync::Arc,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
	pub nodes: usize,
	pub users: u64,
	pub balances: Vec<(u64, String)>,
	pub ed: u64,
	pub voting: u64,
	pub launch: u64,
	pub enact: u64,
	pub lock: u64,
	pub cooloff: u64,
	pub fast: u64,
	pub min_deposit: u64,
	pub instant: bool,
	pub max_votes: u32,
	pub max_props: u32,
	pub max_deposits: u32,
	pub max_blacklisted: u32,
	pub bond: u64,
	pub seats: u32,
	pub runners: u32,
	pub term: u64,
	pub elock: u64,
	pub max_cands: u32,
	pub max_voters: u32,
	pub max_per_voter: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
	/// A client hands a transaction to a node.
	Submit { id: u64, node: usize, who: Acc, call: String },
	/// A node authors a block on its best block from its pool.
	Produce { id: u64, node: usize, stalled: bool, bond: u64, max: usize },
	/// Something happens to a message in flight.
	Net { src: usize, dst: usize, block: bool, id: u64, act: Act },
	Partition { groups: Vec<u8> },
	Crash { node: usize },
	Restart { node: usize },
	/// The node's disk is flushed: everything it knows survives a crash.
	Flush { node: usize },
	/// Faults stop: heal, restart, deliver everything; all nodes must agree in a bounded number of
	/// rounds.
	Settle,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
	Deliver,
	/// Deliver, and keep a copy in flight.
	Duplicate,
	Drop,
}

pub fn universe(users: u64) -> Vec<RuntimeCall> {
	let mut v: Vec<RuntimeCall> = vec![];
	for id in 0..8u32 {
		v.push(RuntimeCall::Probe(probe::Call::enact { id, pad: vec![] }));
	}
	for id in 8..12u32 {
		v.push(RuntimeCall::Probe(probe::Call::enact { id, pad: vec![id as u8; 150] }));
	}
	let h = |c: &RuntimeCall| H256::from(sp_io::hashing::blake2_256(&c.encode()));
	let h0 = h(&v[0]);
	let h9 = h(&v[9]);
	use pallet_democracy::Call as D;
	use pallet_elections_phragmen::Call as E;
	v.push(RuntimeCall::Democracy(D::cancel_referendum { ref_index: 1 }));
	v.push(RuntimeCall::Democracy(D::cancel_referendum { ref_index: 3 }));
	v.push(RuntimeCall::Democracy(D::blacklist { proposal_hash: h0, maybe_ref_index: Some(2) }));
	v.push(RuntimeCall::Democracy(D::blacklist { proposal_hash: h9, maybe_ref_index: None }));
	v.push(RuntimeCall::Democracy(D::cancel_proposal { prop_index: 2 }));
	v.push(RuntimeCall::Democracy(D::clear_public_proposals {}));
	v.push(RuntimeCall::Elections(E::remove_member { who: 1 + users / 2, slash_bond: true, rerun_election: false }));
	v.push(RuntimeCall::Elections(E::remove_member { who: 1, slash_bond: false, rerun_election: true }));
	v.push(RuntimeCall::Elections(E::clean_defunct_voters { num_voters: 4, num_defunct: 2 }));
	v
}

pub struct Node {
	pub up: bool,
	pub head: u64,
	pub durable_head: u64,
	pub states: BTreeMap<u64, Rc<Storage>>,
	pub durable: BTreeSet<u64>,
	pub pool: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Msg {
	pub src: usize,
	pub dst: usize,
	pub block: bool,
	pub id: u64,
}

pub struct World {
	pub cfg: Cfg,
	pub o: Oracle,
	pub accounts: Vec<Acc>,
	pub txs: BTreeMap<u64, Rc<Tx>>,
	pub blocks: BTreeMap<u64, Rc<Blk>>,
	pub models: BTreeMap<u64, Rc<Model>>,
	pub hashes: BTreeMap<u64, u64>,
	pub included: BTreeMap<u64, Rc<BTreeSet<u64>>>,
	pub nodes: Vec<Node>,
	pub net: Vec<Msg>,
	pub groups: Vec<u8>,
	pub dead: bool,
	pub calls: Arc<BTreeMap<H256, RuntimeCall>>,
}

pub fn apply_params(c: &Cfg) {
	Ed::set(c.ed as Bal);
	VotingPeriod::set(c.voting);
	LaunchPeriod::set(c.launch);
	EnactmentPeriod::set(c.enact);
	VoteLockingPeriod::set(c.lock);
	CooloffPeriod::set(c.cooloff);
	FastTrackVotingPeriod::set(c.fast);
	MinimumDeposit::set(c.min_deposit as Bal);
	InstantAllowed::set(c.instant);
	MaxVotes::set(c.max_votes);
	MaxProposals::set(c.max_props);
	MaxDeposits::set(c.max_deposits);
	MaxBlacklisted::set(c.max_blacklisted);
	CandidacyBond::set(c.bond as Bal);
	DesiredMembers::set(c.seats);
	DesiredRunnersUp::set(c.runners);
	TermDuration::set(c.term);
	VotingLockPeriod::set(c.elock);
	MaxCandidates::set(c.max_cands);
	MaxVoters::set(c.max_voters);
	MaxVotesPerVoter::set(c.max_per_voter);
	MinVestedTransfer::set(2);
}

const GENESIS: u64 = 0;

impl World {
	pub fn new(cfg: Cfg, o: Oracle) -> World {
		apply_params(&cfg);
		let mut accounts: Vec<Acc> = (1..=cfg.users).collect();
		accounts.push(TREASURY);
		let balances: Vec<(Acc, Bal)> = cfg.balances.iter().map(|(a, b)| (*a, b.parse().unwrap())).collect();
		let mut st = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
		pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut st).unwrap();
		let calls: Arc<BTreeMap<H256, RuntimeCall>> = Arc::new(
			universe(cfg.users)
				.into_iter()
				.map(|c| (H256::from(sp_io::hashing::blake2_256(&c.encode())), c))
				.collect(),
		);
		let mut m = Model { universe: calls.clone(), ..Default::default() };
		let mut ext = BasicExternalities::new(st);
		ext.execute_with(|| {
			for a in &accounts {
				m.total.insert(*a, Balances::total_balance(a));
			}
		});
		let st = Rc::new(ext.into_storages());
		let h = state_hash(&st);
		let mut w = World {
			accounts,
			o,
			txs: Default::default(),
			blocks: Default::default(),
			models: Default::default(),
			hashes: Default::default(),
			included: Default::default(),
			nodes: vec![],
			net: vec![],
			groups: vec![0; cfg.nodes],
			dead: false,
			calls,
			cfg,
		};
		w.blocks.insert(
			GENESIS,
			Rc::new(Blk { label: GENESIS, parent: GENESIS, number: 0, stalled: false, bond: w.cfg.bond as Bal, txs: vec![] }),
		);
		w.models.insert(GENESIS, Rc::new(m));
		w.hashes.insert(GENESIS, h);
		w.included.insert(GENESIS, Rc::new(Default::default()));
		for _ in 0..w.cfg.nodes {
			w.nodes.push(Node {
				up: true,
				head: GENESIS,
				durable_head: GENESIS,
				states: [(GENESIS, st.clone())].into_iter().collect(),
				durable: [GENESIS].into_iter().collect(),
				pool: vec![],
			});
		}
		w
	}

	pub fn number(&self, label: u64) -> Bn {
		self.blocks[&label].number
	}
	pub fn head_model(&self, n: usize) -> Rc<Model> {
		self.models[&self.nodes[n].head].clone()
	}
	pub fn linked(&self, a: usize, b: usize) -> bool {
		self.groups[a] == self.groups[b]
	}
	fn send(&mut self, src: usize, block: bool, id: u64) {
		for dst in 0..self.nodes.len() {
			if dst != src {
				let m = Msg { src, dst, block, id };
				if !self.net.contains(&m) {
					self.net.push(m);
				}
			}
		}
	}

	pub fn step(&mut self, i: usize, s: &Step) {
		if self.dead || self.o.done() {
			return;
		}
		self.o.step = i;
		self.o.stats.steps += 1;
		match s {
			Step::Submit { id, node, who, call } => {
				let Some(call) = decode_call(call) else { return };
				self.txs.insert(*id, Rc::new(Tx { who: *who, call }));
				let n = &mut self.nodes[*node];
				if n.up {
					n.pool.push(*id);
					self.send(*node, false, *id);
				}
			},
			Step::Produce { id, node, stalled, bond, max } => self.produce(*id, *node, *stalled, *bond as Bal, *max),
			Step::Net { src, dst, block, id, act } => {
				let m = Msg { src: *src, dst: *dst, block: *block, id: *id };
				let Some(k) = self.net.iter().position(|x| *x == m) else { return };
				if k > 0 {
					self.o.stats.inc("fault/message_reordered");
				}
				match act {
					Act::Drop => {
						self.o.stats.inc("fault/message_lost");
						self.net.remove(k);
					},
					Act::Deliver => {
						self.net.remove(k);
						self.deliver(m);
					},
					Act::Duplicate => {
						self.o.stats.inc("fault/message_duplicated");
						self.deliver(m);
					},
				}
			},
			Step::Partition { groups } => {
				self.groups = groups.clone();
				self.groups.resize(self.nodes.len(), 0);
				let d: BTreeSet<u8> = self.groups.iter().copied().collect();
				self.o.stats.inc(if d.len() > 1 { "fault/partition" } else { "fault/heal" });
			},
			Step::Crash { node } => {
				let n = &mut self.nodes[*node];
				if n.up {
					n.up = false;
					let lost = n.states.keys().filter(|k| !n.durable.contains(k)).count();
					n.states.retain(|k, _| n.durable.contains(k));
					let reverted = n.head != n.durable_head;
					n.head = n.durable_head;
					n.pool.clear();
					self.o.stats.inc("fault/crash");
					if lost > 0 {
						self.o.stats.add("fault/unsynced_block_lost", lost as u64);
					}
					if reverted {
						self.o.stats.inc("fault/chain_reverted_by_crash");
					}
				}
			},
			Step::Restart { node } =>
				if !self.nodes[*node].up {
					self.nodes[*node].up = true;
					self.o.stats.inc("fault/restart");
				},
			Step::Flush { node } => {
				let n = &mut self.nodes[*node];
				if n.up {
					n.durable = n.states.keys().copied().collect();
					n.durable_head = n.head;
				}
			},
			Step::Settle => self.settle(),
		}
	}

	fn produce(&mut self, id: u64, node: usize, stalled: bool, bond: Bal, max: usize) {
		if !self.nodes[node].up {
			return;
		}
		let parent = self.nodes[node].head;
		let inc = self.included[&parent].clone();
		let txs: Vec<u64> = self.nodes[node].pool.iter().copied().filter(|t| !inc.contains(t)).take(max).collect();
		let blk = Blk { label: id, parent, number: self.number(parent) + 1, stalled, bond, txs };
		let mut m = (*self.models[&parent]).clone();
		let state = self.nodes[node].states[&parent].clone();
		let accounts = std::mem::take(&mut self.accounts);
		let mut w = Watch { m: &mut m, o: &mut self.o, accounts: &accounts, included: vec![] };
		// The model cannot follow a chain that already went wrong: that is not a verdict.
		let r = guarded(|| exec(&state, &blk, &self.txs, Some(&mut w)));
		let done = std::mem::take(&mut w.included);
		self.accounts = accounts;
		match r {
			Ok(Ok(st)) => {
				if self.o.done() {
					return;
				}
				let mut inc2 = (*inc).clone();
				inc2.extend(done.iter().copied());
				// What did not fit is not part of the block.
				let blk = Blk { txs: done, ..blk };
				let h = state_hash(&st);
				self.o.th.u(h);
				abstract_state(&m, &mut self.o);
				self.blocks.insert(id, Rc::new(blk));
				self.models.insert(id, Rc::new(m));
				self.hashes.insert(id, h);
				self.included.insert(id, Rc::new(inc2));
				let n = &mut self.nodes[node];
				n.states.insert(id, Rc::new(st));
				n.head = id;
				self.send(node, true, id);
			},
			Ok(Err(e)) => {
				self.dead = true;
				if e.starts_with("outside of a call") {
					self.o.stats.inc("harness/panic_outside");
					if std::env::var_os("SIM_DEBUG").is_some() {
						eprintln!("{e}");
					}
				}
			},
			Err(e) => {
				self.o.stats.inc("harness/model_panic");
				if std::env::var_os("SIM_DEBUG").is_some() {
					eprintln!("model panic {e}");
				}
				self.dead = true;
			},
		}
	}

	fn deliver(&mut self, m: Msg) {
		if !self.nodes[m.dst].up || !self.linked(m.src, m.dst) {
			self.o.stats.inc("fault/message_lost_to_partition_or_crash");
			return;
		}
		if !m.block {
			if self.txs.contains_key(&m.id) && !self.nodes[m.dst].pool.contains(&m.id) {
				self.nodes[m.dst].pool.push(m.id);
			}
			return;
		}
		self.import(m.src, m.dst, m.id);
	}

	/// `dst` fetches a block and its missing ancestors, executes them itself, and compares the state
	/// it gets with the author's.
	fn import(&mut self, _src: usize, dst: usize, label: u64) {
		let mut chain = vec![];
		let mut at = label;
		while !self.nodes[dst].states.contains_key(&at) {
			if !self.blocks.contains_key(&at) {
				return;
			}
			chain.push(at);
			at = self.blocks[&at].parent;
		}
		for l in chain.into_iter().rev() {
			let b = self.blocks[&l].clone();
			let st = self.nodes[dst].states[&b.parent].clone();
			let me = dst;
			match exec(&st, &b, &self.txs, None) {
				Ok(s) => {
					let h = state_hash(&s);
					let want = self.hashes[&l];
					let same = h == want;
					self.o.touch(&["S01"]);
					self.o.stats.inc("probe/block_reexecuted");
					self.o.check(same, &["S01"], "replica-diverged", || {
						let diff = String::new();
						format!("node {me} executed block {} (label {l}) to state {h:016x}, its author got {want:016x}{diff}", b.number)
					});
					self.nodes[dst].states.insert(l, Rc::new(s));
				},
				Err(e) => {
					self.o.fail(&["S01", "S02"], "import-panic", || {
						format!("node {me} could not execute block {} (label {l}) its author executed: {e}", b.number)
					});
					return;
				},
			}
			if self.o.done() {
				return;
			}
		}
		let head = self.nodes[dst].head;
		if self.number(label) > self.number(head) {
			let mut a = label;
			while self.number(a) > self.number(head) {
				a = self.blocks[&a].parent;
			}
			if a != head {
				self.o.stats.inc("fault/reorg");
				let mut depth = 0;
				let mut b = head;
				while a != b {
					a = self.blocks[&a].parent;
					b = self.blocks[&b].parent;
					depth += 1;
				}
				if depth >= 3 {
					self.o.stats.inc("probe/deep_reorg");
				}
			}
			self.nodes[dst].head = label;
		}
	}

	fn settle(&mut self) {
		self.groups = vec![0; self.nodes.len()];
		for n in &mut self.nodes {
			n.up = true;
		}
		let best = (0..self.nodes.len()).max_by_key(|i| (self.number(self.nodes[*i].head), self.nodes[*i].head)).unwrap();
		let head = self.nodes[best].head;
		self.net.clear();
		for n in 0..self.nodes.len() {
			self.import(best, n, head);
			if self.o.done() {
				return;
			}
			self.nodes[n].head = head;
		}
		let hs: BTreeSet<u64> = (0..self.nodes.len()).map(|n| state_hash(&self.nodes[n].states[&head])).collect();
		self.o.check(hs.len() == 1, &["S01"], "no-agreement", || {
			format!("after all faults stopped the nodes hold {} different states at the same block", hs.len())
		});
		self.o.stats.inc("probe/settled");
	}
}

/// An abstraction of the model's state, to count distinct situations reached.
fn abstract_state(m: &Model, o: &mut Oracle) {
	let mut h = simcore::H::default();
	let b = |n: usize| n.min(3) as u64;
	let ongoing = m.refs.values().filter(|r| matches!(r, Ref::Ongoing { .. })).count();
	h.u(b(ongoing));
	h.u(b(m.props.len()));
	h.u(b(m.deposits.values().map(|d| d.0.len()).max().unwrap_or(0)));
	h.u(m.next_ext.as_ref().map_or(0, |x| 1 + x.1 as u64));
	h.u(b(m.blacklist.len()));
	h.u(b(m.pending.len()));
	h.u(b(m.unavailable.len()));
	h.u(b(m.voting.values().filter(|v| matches!(v.k, Vk::Deleg { .. })).count()));
	h.u(b(m.voting.values().filter(|v| matches!(&v.k, Vk::Direct(x) if x.len() > 1)).count()));
	h.u(b(m.voting.values().filter(|v| v.until > m.now).count()));
	h.u(b(m.meta.len()));
	h.u(m.members.len() as u64);
	h.u(m.runners.len() as u64);
	h.u(b(m.cands.len()));
	h.u(b(m.evoters.len()));
	h.u(m.prime.is_some() as u64);
	h.u(b(m.evoters.values().filter(|v| m.defunct(v)).count()));
	o.stats.states.insert(h.0);
}
