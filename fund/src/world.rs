//! One simulated world: the Polimec chain, the chains of funded projects, the relay chain between them, the oracle
//! and the people. Everything that varies is a step chosen by the seeded scheduler or read from a replay file.
use crate::{inv, views, ops::*, para, runtime::*, snap::*, spec, spec::Ctx};
use frame_support::{
	assert_ok,
	dispatch::GetDispatchInfo,
	storage::{with_transaction, TransactionOutcome},
	traits::{fungible::Inspect, fungibles, Currency, ExistenceRequirement, WithdrawReasons},
};
use pallet_funding::{types::*, ParticipationMode};
use parity_scale_codec::{Decode, Encode};
use polimec_common::migration_types::{MigrationStatus, ParticipationType};
use polkadot_parachain_primitives::primitives::Id as ParaId;
use serde::{Deserialize, Serialize};
use simcore::{guarded, Oracle, Rng, H};
use sp_runtime::{traits::Dispatchable, DispatchError};
use sp_arithmetic::FixedPointNumber;
use std::collections::{BTreeMap, BTreeSet};
use xcm::v4::{prelude::*, PalletInfo, Response};

pub const PLMC_ID: u32 = 3344;
pub const T0: u64 = 1_700_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
	pub users: u8,
	/// credentials of the users: DID and investor type
	pub dids: Vec<u8>,
	pub types: Vec<u8>,
	/// whole PLMC and whole USD of every funding asset
	pub plmc: Vec<u64>,
	pub usd: Vec<u64>,
	pub treasury: u64,
	pub dispenser: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
	Call { who: A, op: Op, reorg: bool },
	/// time passes: blocks, and milliseconds on the chain's clock
	Time { blocks: u64, ms: u64 },
	/// the oracle's answer, in thousandths of a USD
	Price { asset: u32, milli: Option<u64> },
	Router { down: bool },
	/// what happens to a message in flight
	Net { nth: usize, act: Act },
	/// a response nobody asked for, or a false one
	Inject { from: u32, query: u64, response: Resp },
	/// a response (migration or readiness) that claims to come from anywhere
	Direct { from: From, confirm: bool, query: u64, response: Resp },
	/// the relay chain reports that a chain asks for a channel, or has accepted ours
	ChannelRequest { para: u32, size: u32, capacity: u32 },
	ChannelAccepted { para: u32 },
	/// the project chain funds our sovereign account there; installs or lacks the receiver pallet
	Para {
		para: u32,
		#[serde(with = "n128")]
		fund: u128,
		receiver: bool,
	},
	/// faults stop and everybody does what is due: everything must come to its end
	Finish { seed: u64 },
	/// a call left out elsewhere because of a known finding; the run ends with it
	Raw { who: A, op: Op },
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
	Deliver,
	Duplicate,
	Drop,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum From {
	Chain(u32),
	/// an account on that chain
	Inside(u32),
	/// a location below this chain that names it
	Below(u32),
	/// beyond the relay chain
	Beyond(u32),
	Here,
	Relay,
}
impl From {
	pub fn real(&self) -> Location {
		use xcm::v4::Junction::AccountId32;
		match *self {
			From::Chain(p) => Location::new(1, Parachain(p)),
			From::Inside(p) => Location::new(1, [Parachain(p), AccountId32 { network: None, id: [7; 32] }]),
			From::Below(p) => Location::new(0, Parachain(p)),
			From::Beyond(p) => Location::new(2, Parachain(p)),
			From::Here => Location::here(),
			From::Relay => Location::parent(),
		}
	}
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Resp {
	Null,
	NoAssets,
	Assets {
		loc: u32,
		#[serde(with = "n128")]
		amount: u128,
	},
	NoPallets,
	Pallet { right: bool, index: u32, twice: bool },
	Dispatch { ok: bool },
	Execution,
}
impl Resp {
	pub fn real(&self) -> Response {
		match self {
			Resp::Null => Response::Null,
			Resp::NoAssets => Response::Assets(Assets::new()),
			Resp::Assets { loc, amount } =>
				Response::Assets(vec![Asset::from((Location::new(1, Parachain(*loc)), *amount))].into()),
			Resp::NoPallets => Response::PalletsInfo(Default::default()),
			Resp::Pallet { right, index, twice } => {
				let name: &[u8] = if *right { b"polimec_receiver" } else { b"polimec_believer" };
				let p = pallet_info(*index, name);
				let v = if *twice { vec![p.clone(), p] } else { vec![p] };
				Response::PalletsInfo(v.try_into().unwrap())
			},
			Resp::Dispatch { ok: true } => Response::DispatchResult(MaybeErrorCode::Success),
			Resp::Dispatch { ok: false } =>
				Response::DispatchResult(MaybeErrorCode::Error(vec![3, 1, 0].try_into().unwrap())),
			Resp::Execution => Response::ExecutionResult(None),
		}
	}
}
fn pallet_info(index: u32, module: &[u8]) -> PalletInfo {
	PalletInfo {
		index,
		name: b"PolimecReceiver".to_vec().try_into().unwrap(),
		module_name: module.to_vec().try_into().unwrap(),
		major: 1,
		minor: 0,
		patch: 0,
	}
}

#[derive(Clone, Debug)]
pub enum Wire {
	/// to the relay chain
	Relay(Xcm<()>),
	/// to a project's chain
	Para(u32, Xcm<()>),
	/// from the relay chain: this chain accepted our channel
	Accepted(u32),
	Answer { from: u32, query: u64, response: Response },
}

pub struct Chain {
	ext: sp_state_machine::BasicExternalities,
	pub receiver: bool,
	pub funded: u128,
}

pub struct World {
	pub cfg: Cfg,
	pub o: Oracle,
	pub ext: sp_state_machine::BasicExternalities,
	pub dead: bool,
	pub now: u64,
	pub ms: u64,
	pub router_down: bool,
	pub cur: Snap,
	pub net: Vec<Wire>,
	pub chains: BTreeMap<u32, Chain>,
	/// prices (PLMC, asset) when the bid or contribution (true) was made
	pub at: BTreeMap<(bool, u32), (Option<P>, Option<P>)>,
	/// confirmed by the issuer, or because its chain lied
	pub excused: BTreeSet<(u32, A)>,
	/// chains that named another pallet than the receiver to call
	pub misled: BTreeSet<u32>,
	/// projects that ran into a known finding
	pub tainted: BTreeSet<u32>,
	pub book: inv::Book,
	pub finishing: bool,
}

pub fn default_price(id: u32) -> u64 {
	match id {
		PLMC_ID => 8_400,
		DOT => 69_000,
		USDC => 970,
		_ => 1_000,
	}
}

/// The property of an operation itself.
pub fn owner(op: &Op) -> &'static str {
	match op {
		Op::Create { .. } | Op::Edit { .. } | Op::Remove { .. } | Op::StartEvaluation { .. } | Op::EndEvaluation { .. } |
		Op::MarkSettled { .. } => "F05",
		Op::Evaluate { .. } => "F13",
		Op::Bid { .. } => "F04",
		Op::EndAuction { .. } => "F06",
		Op::Contribute { .. } => "F14",
		Op::EndFunding { .. } | Op::StartSettlement { .. } => "F07",
		Op::SettleEvaluation { .. } | Op::SettleBid { .. } | Op::SettleContribution { .. } => "F08",
		Op::StartOffchain { .. } | Op::ConfirmOffchain { .. } | Op::StartPallet { .. } | Op::Readiness { .. } |
		Op::SendMigration { .. } | Op::MarkFinished { .. } => "F11",
		Op::FakeAnswer { .. } => "F12",
		Op::Vest | Op::VestOther { .. } | Op::VestAll | Op::VestAllOther { .. } | Op::Merge { .. } | Op::VestedTransfer { .. } => "L01",
		Op::BondsBack { .. } | Op::FeesOut { .. } => "P01",
		Op::Dispense { .. } | Op::SetDispense { .. } => "F15",
		Op::Transfer { .. } => "F01",
	}
}
pub fn lively(op: &Op) -> bool {
	matches!(
		op,
		Op::EndEvaluation { .. } |
			Op::EndAuction { .. } |
			Op::EndFunding { .. } |
			Op::StartSettlement { .. } |
			Op::SettleEvaluation { .. } |
			Op::SettleBid { .. } |
			Op::SettleContribution { .. } |
			Op::MarkSettled { .. } |
			Op::MarkFinished { .. } |
			Op::ConfirmOffchain { .. } |
			Op::SendMigration { .. }
	)
}
pub fn pid_of(op: &Op) -> Option<u32> {
	match op {
		Op::Edit { pid, .. } | Op::Remove { pid, .. } | Op::StartEvaluation { pid, .. } | Op::Evaluate { pid, .. } |
		Op::EndEvaluation { pid } | Op::Bid { pid, .. } | Op::EndAuction { pid } | Op::Contribute { pid, .. } |
		Op::EndFunding { pid } | Op::StartSettlement { pid } | Op::SettleEvaluation { pid, .. } | Op::SettleBid { pid, .. } |
		Op::SettleContribution { pid, .. } | Op::MarkSettled { pid } | Op::StartOffchain { pid, .. } |
		Op::ConfirmOffchain { pid, .. } | Op::StartPallet { pid, .. } | Op::Readiness { pid, .. } | Op::SendMigration { pid, .. } |
		Op::MarkFinished { pid } | Op::BondsBack { pid, .. } | Op::FeesOut { pid, .. } => Some(*pid),
		_ => None,
	}
}
/// Further properties a difference in this part of the state breaks.
fn part(field: &str) -> &'static [&'static str] {
	match field {
		"plmc" => &["F02"],
		"fa" => &["F03"],
		"issuance" | "fa_supply" | "ct_supply" | "ct" => &["F01"],
		"sched" => &["L01"],
		"rel" => &["P01"],
		"active" => &["F10"],
		"evals" | "eval_count" => &["F13"],
		"bids" | "bucket" | "bid_count" => &["F04"],
		"cons" => &["F14"],
		"mig" | "unmig" | "queue" | "queries" | "query_next" | "out" => &["F11"],
		"dispensed" | "vest" | "dispense_amount" => &["F15"],
		"auc_usd" | "con_usd" | "winning" => &["F10"],
		_ => &[],
	}
}
fn id_of(tag: &str) -> &str {
	tag.split(':').next().unwrap_or(tag)
}

impl World {
	pub fn new(cfg: Cfg, o: Oracle) -> World {
		let mut ext = sp_state_machine::BasicExternalities::default();
		ext.execute_with(|| {
			use frame_support::traits::fungible::Mutate;
			System::set_block_number(1);
			pallet_timestamp::Pallet::<Rt>::set_timestamp(T0);
			for id in [PLMC_ID, DOT, USDC, USDT] {
				set_price(id, Some(milli(default_price(id))));
			}
			for (id, d) in [(DOT, 10u8), (USDC, 6), (USDT, 6)] {
				crate::assets::Asset::<Rt, FaInst>::insert(
					id,
					crate::assets::Details {
						min: fa_min(id),
						sufficient: true,
						supply: 0,
						decimals: d,
						name: vec![],
						symbol: vec![],
					},
				);
				for a in [OPS, BTRE, CTT, FEE] {
					assert_ok!(<ForeignAssets as fungibles::Mutate<Acc>>::mint_into(id, &account(a), 1000 * 10u128.pow(d as u32)));
				}
			}
			for u in 1..=cfg.users {
				let i = u as usize - 1;
				assert_ok!(Balances::mint_into(&acc(u), cfg.plmc[i] as u128 * PLMC + ED));
				for (id, d) in [(DOT, 10u32), (USDC, 6), (USDT, 6)] {
					let x = cfg.usd[i] as u128 * 10u128.pow(d) / if id == DOT { 69 } else { 1 };
					if x > fa_min(id) {
						assert_ok!(<ForeignAssets as fungibles::Mutate<Acc>>::mint_into(id, &acc(u), x));
					}
				}
			}
			for a in [OPS, CTT, FEE, PALLET] {
				assert_ok!(Balances::mint_into(&account(a), 10 * PLMC));
			}
			assert_ok!(Balances::mint_into(&account(BTRE), cfg.treasury as u128 * PLMC));
			assert_ok!(Balances::mint_into(&account(DISP), cfg.dispenser as u128 * PLMC));
		});
		let cur = ext.execute_with(Snap::take);
		World {
			cfg,
			o,
			ext,
			dead: false,
			now: 1,
			ms: T0,
			router_down: false,
			cur,
			net: vec![],
			chains: Default::default(),
			at: Default::default(),
			excused: Default::default(),
			misled: Default::default(),
			tainted: Default::default(),
			book: Default::default(),
			finishing: false,
		}
	}

	pub fn step(&mut self, i: usize, s: &Step) {
		self.o.step = i;
		self.o.stats.steps += 1;
		self.one(s);
	}
	fn one(&mut self, s: &Step) {
		if self.dead || self.o.done() {
			return;
		}
		match s {
			Step::Call { who, op, reorg } => self.call(*who, op, *reorg),
			Step::Time { blocks, ms } => self.time(*blocks, *ms),
			Step::Price { asset, milli: m } => {
				self.o.stats.inc(match m {
					None => "fault/oracle_silent",
					Some(_) => "fault/price_change",
				});
				let (a, m) = (*asset, m.map(milli));
				self.ext.execute_with(|| set_price(a, m));
			},
			Step::Router { down } => {
				if *down {
					self.o.stats.inc("fault/router_down");
				}
				self.router_down = *down;
				let d = *down;
				self.ext.execute_with(|| set_router_down(d));
			},
			Step::Net { nth, act } => self.net(*nth, *act),
			Step::Inject { from, query, response } => {
				self.o.stats.inc("fault/forged_response");
				self.answer(*from, *query, &response.real(), true)
			},
			Step::Direct { from, confirm, query, response } => self.direct(*from, *confirm, *query, &response.real()),
			Step::ChannelRequest { para, size, capacity } => self.channel_request(*para, *size, *capacity),
			Step::ChannelAccepted { para } => self.channel_accepted(*para),
			Step::Para { para, fund, receiver } => self.para_set(*para, *fund, *receiver),
			Step::Finish { seed } => self.finish(*seed),
			Step::Raw { who, op } => self.raw(*who, op),
		}
	}
	/// A call left out elsewhere because of a known finding: the finding is looked for and the run ends.
	fn raw(&mut self, who: A, op: &Op) {
		let Some(key) = self.masked(who, op) else { return };
		let Some(c) = op.call() else { return };
		self.dead = true;
		let done = self.ext.execute_with(|| c.dispatch(RuntimeOrigin::signed(account(who))).is_ok());
		if !done {
			return;
		}
		let post = self.ext.execute_with(Snap::take);
		match (key, op) {
			("vest-releases-foreign-bonds", _) => {
				for a in self.cur.plmc.keys().copied().filter(|a| *a < 200).collect::<Vec<_>>() {
					let owed: u128 = post
						.bids
						.iter()
						.map(|(k, b)| (k.1, b.mode, b.plmc_bond))
						.chain(post.cons.iter().map(|(k, c)| (k.1, c.mode, c.plmc_bond)))
						.filter(|x| x.0 == a && x.1 != ParticipationMode::OTM)
						.map(|x| x.2)
						.sum();
					if post.part(a) < owed {
						self.known("F02", key, format!("{op:?} leaves {a} with {} on hold for unsettled bonds of {owed}", post.part(a)));
					}
				}
			},
			("fees-out-before-refunds", Op::FeesOut { pid, asset }) => {
				let id = fa_id(*asset);
				let owed = |b: &AcceptedFundingAsset, m: ParticipationMode| b.id() == id && m == ParticipationMode::OTM;
				let open = post.bids.iter().any(|(k, b)| k.0 == *pid && b.status == BidStatus::Rejected && owed(&b.funding_asset, b.mode));
				let left = post.asset(id, BOND + *pid as u16);
				if open && left == 0 {
					self.known("P01", key, format!("{op:?} empties the fees of project {pid} while rejected bids are owed theirs"));
				}
			},
			_ => (),
		}
	}

	fn env(&self) -> spec::Env {
		spec::Env { now: self.now, now_ms: self.ms, router_down: self.router_down }
	}

	/// After something happened on the Polimec chain: invariants, messages, transcript.
	fn after(&mut self, mut post: Snap, label: &str) {
		let sent = self.ext.execute_with(|| {
			System::reset_events();
			take_outbox()
		});
		for (l, x) in sent {
			match l.unpack() {
				(1, []) => self.net.push(Wire::Relay(x)),
				(1, [Parachain(p)]) => self.net.push(Wire::Para(*p, x)),
				_ => self.o.fail(&["F11"], "message to nowhere", || format!("{l:?}")),
			}
		}
		post.out = 0;
		inv::check(&mut self.o, &self.cur, &post, &mut self.book, self.now, &mut self.tainted);
		if self.o.prop == "F16" {
			let (o, now) = (&mut self.o, self.now);
			self.ext.execute_with(|| views::check(o, &post, now));
		}
		self.cur = post;
		let mut h = H::default();
		for (p, d) in &self.cur.det {
			if let Some(MigrationType::Pallet(i)) = &d.migration_type {
				if let Some(CheckOutcome::Passed(Some(n))) = i.migration_readiness_check.as_ref().map(|c| c.pallet_check.1.clone()) {
					if n != 51 {
						self.misled.insert(i.parachain_id.into());
					}
				}
			}
			h.u(*p as u64);
			h.s(&format!("{:?}", std::mem::discriminant(&d.status)));
			h.u(self.cur.evals.range((*p, 0, 0)..(*p + 1, 0, 0)).count() as u64);
			h.u(self.cur.bids.range((*p, 0, 0)..(*p + 1, 0, 0)).count() as u64);
			h.u(self.cur.cons.range((*p, 0, 0)..(*p + 1, 0, 0)).count() as u64);
			h.u(self.cur.unmig.get(p).copied().unwrap_or(0) as u64);
		}
		h.u(self.cur.sched.len() as u64);
		h.u(self.net.len() as u64);
		self.o.stats.states.insert(h.0);
		self.o.th.s(label);
		let s = format!("{:?}", (&self.cur.plmc, &self.cur.fa, &self.cur.det, &self.cur.ct, &self.cur.mig, &self.cur.sched));
		self.o.th.s(&s);
	}

	/// Calls that are known to go wrong in ways that would mask everything after them.
	pub fn masked(&self, who: A, op: &Op) -> Option<&'static str> {
		let bonds = |a: A| {
			self.cur.bids.iter().any(|(k, b)| k.1 == a && b.mode != ParticipationMode::OTM) ||
				self.cur.cons.iter().any(|(k, b)| k.1 == a && b.mode != ParticipationMode::OTM)
		};
		match op {
			Op::Vest | Op::VestAll | Op::Merge { .. } if bonds(who) => Some("vest-releases-foreign-bonds"),
			Op::VestOther { who: a } | Op::VestAllOther { who: a } if bonds(*a) || *a >= 200 => Some("vest-releases-foreign-bonds"),
			Op::VestedTransfer { to, locked, .. } => {
				if bonds(*to) || *to >= 200 || *to == who {
					return Some("vest-releases-foreign-bonds");
				}
				let f = self.cur.plmc.get(&who).cloned().unwrap_or_default();
				(f.free < locked.saturating_add(ED + f.frozen)).then_some("edge")
			},
			Op::FeesOut { pid, .. }
				if self.cur.bids.iter().any(|(k, b)| k.0 == *pid && b.mode == ParticipationMode::OTM) ||
					self.cur.cons.iter().any(|(k, b)| k.0 == *pid && b.mode == ParticipationMode::OTM) =>
				Some("fees-out-before-refunds"),
			Op::BondsBack { pid, .. }
				if matches!(self.cur.rel.get(pid), Some(Rel::Refunded)) &&
					(self.cur.bids.iter().any(|(k, b)| k.0 == *pid && b.mode == ParticipationMode::OTM) ||
						self.cur.cons.iter().any(|(k, b)| k.0 == *pid && b.mode == ParticipationMode::OTM)) =>
				None,
			Op::Transfer { to, .. } if *to >= 200 => Some("edge"),
			_ => None,
		}
	}

	pub fn call(&mut self, who: A, op: &Op, reorg: bool) {
		if let Some(k) = self.masked(who, op) {
			self.o.stats.inc(&format!("probe/not_sent:{k}"));
			return;
		}
		if self.o.verbose {
			eprintln!("{} #{} {who} {op:?}", self.o.step, self.now);
		}
		let run = || -> Result<(), DispatchError> {
			let origin = if who == 0 { RuntimeOrigin::root() } else { RuntimeOrigin::signed(account(who)) };
			match op.call() {
				Some(c) => c.dispatch(origin).map(|_| ()).map_err(|e| e.error),
				None => {
					let Op::Transfer { to, asset, amount } = op else { unreachable!() };
					with_transaction(|| {
						let r = <ForeignAssets as fungibles::Mutate<Acc>>::transfer(
							fa_id(*asset),
							&account(who),
							&account(*to),
							*amount,
							frame_support::traits::tokens::Preservation::Preserve,
						);
						match r {
							Ok(_) => TransactionOutcome::Commit(Ok(())),
							Err(e) => TransactionOutcome::Rollback(Err(e)),
						}
					})
				},
			}
		};
		let own = owner(op);
		let ext = &mut self.ext;
		let first = if reorg {
			self.o.stats.inc("fault/block_reverted_and_replayed");
			let r = guarded(|| {
				ext.execute_with(|| {
					with_transaction(|| {
						let r = run();
						let s = Snap::take();
						TransactionOutcome::Rollback(Ok::<_, DispatchError>((r, s)))
					})
					.unwrap()
				})
			});
			r.ok()
		} else {
			None
		};
		let res = guarded(|| {
			ext.execute_with(|| {
				let r = run();
				(r, Snap::take())
			})
		});
		let (res, post) = match res {
			Ok(x) => x,
			Err(p) => {
				self.o.fail(&[own, "F09"], "panic", || format!("{} panics: {p}", op.name()));
				self.dead = true;
				return;
			},
		};
		if let Some((r, s)) = first {
			self.o.check(r == res && s == post, &[own], "not repeatable", || {
				format!("{} differs when its block is executed again: {r:?} / {res:?} {:?}", op.name(), s.diff(&post))
			});
		}
		let ok = res.is_ok();
		self.o.stats.inc(&format!("op/{}:{}", op.name(), if ok { "ok" } else { "refused" }));
		let before = self.cur.clone();
		let mut exp = self.cur.clone();
		let env = self.env();
		let (want, may) = self.ext.execute_with(|| {
			let mut c = Ctx { s: &mut exp, e: env, post: &post, may: false };
			let src = if who == 0 { spec::Src::Root } else { spec::Src::Signed(who) };
			let w = c.apply(src, op);
			(w, c.may)
		});
		self.compare(own, lively(op), op.name(), pid_of(op), want, may, res, exp, &post);
		if ok {
			self.o.touch(&[own]);
			self.note(op, &before, &post);
		}
		self.after(post, op.name());
	}

	/// The specification against what happened.
	#[allow(clippy::too_many_arguments)]
	fn compare(
		&mut self,
		own: &'static str,
		live: bool,
		name: &str,
		pid: Option<u32>,
		want: Result<(), spec::No>,
		may: bool,
		res: Result<(), DispatchError>,
		mut exp: Snap,
		post: &Snap,
	) {
		match (&want, &res) {
			(Ok(()), Ok(())) => {
				exp.tidy();
				let d = exp.diff(post);
				self.o.stats.checks += 1;
				for (field, msg) in d {
					let mut tags = vec![own];
					tags.extend(part(field));
					if field == "plmc" && name.contains("bond") {
						tags.push("P01");
					}
					self.o.fail(&tags, &format!("{name}: {field}"), || format!("after {name}: {field} {msg}"));
				}
			},
			(Err(why), Err(_)) => {
				self.refused(name, post);
				if let Some(k) = why.strip_prefix("KF:") {
					self.known("F09", k, format!("{name} fails"));
					if let Some(p) = pid {
						self.tainted.insert(p);
					}
				} else {
					self.o.touch(&[id_of(why)]);
					self.o.stats.inc(&format!("probe/{}", why));
				}
			},
			(Err(why), Ok(())) => {
				if why.starts_with("KF:") {
					return;
				}
				let why = *why;
				self.o.check(false, &[id_of(why), own], &format!("{name} accepted"), || {
					format!("{name} succeeded although it must be refused: {why}")
				});
			},
			(Ok(()), Err(e)) => {
				self.refused(name, post);
				if may {
					self.o.stats.inc("probe/edge_refused");
					return;
				}
				let mut tags = vec![own];
				if live {
					tags.push("F09")
				}
				self.o.check(false, &tags, &format!("{name} refused"), || {
					format!("{name} is due and must succeed, but fails: {e:?}")
				});
			},
		}
	}
	fn refused(&mut self, name: &str, post: &Snap) {
		let mut c = self.cur.clone();
		c.tidy();
		let d = c.diff(post);
		self.o.stats.checks += 1;
		for (f, m) in d {
			let mut tags = vec!["F01"];
			tags.extend(part(f));
			self.o.fail(&tags, "a refused call left traces", || format!("{name} was refused but changed {f}: {m}"));
		}
	}
	pub fn known(&mut self, prop: &str, key: &str, msg: String) {
		self.o.stats.inc(&format!("probe/known:{key}"));
		if self.o.prop != prop {
			return;
		}
		if self.o.known_ids.contains(key) {
			self.o.known.insert(key.to_string());
		} else {
			self.o.fail(&[prop], key, || msg);
		}
	}

	/// What the independent checks have to remember about a call that succeeded.
	fn note(&mut self, op: &Op, pre: &Snap, post: &Snap) {
		match op {
			Op::Bid { .. } => {
				for (k, b) in post.bids.iter().filter(|(k, _)| !pre.bids.contains_key(k)) {
					let id = b.funding_asset.id();
					let p = self.ext.execute_with(|| (spec::dprice(PLMC_ID), spec::dprice(id)));
					self.at.insert((false, k.2), p);
				}
			},
			Op::Contribute { .. } => {
				for (k, b) in post.cons.iter().filter(|(k, _)| !pre.cons.contains_key(k)) {
					let id = b.funding_asset.id();
					let p = self.ext.execute_with(|| (spec::dprice(PLMC_ID), spec::dprice(id)));
					self.at.insert((true, k.2), p);
				}
			},
			Op::SettleBid { pid, who, id } => {
				// What an accepted bid pays is decided by the auction: not by what prices do afterwards.
				let b = &pre.bids[&(*pid, *who, *id)];
				let d = &pre.det[pid];
				let won = d.status == ProjectStatus::SettlementStarted(FundingOutcome::Success) && b.status != BidStatus::Rejected;
				if let (true, Some((_, Some(p0))), Some(wap)) = (won, self.at.get(&(false, *id)), d.weighted_average_price) {
					let usd = b.original_ct_usd_price.min(wap).saturating_mul_int(spec::final_ct(b));
					let fair = p0.reciprocal().and_then(|r| r.checked_mul_int(usd)).unwrap_or(0).min(b.funding_asset_amount_locked);
					let a = b.funding_asset.id();
					let esc = ESC + *pid as u16;
					let dest = num(&pre.meta[pid].funding_destination_account);
					let paid = if dest == *who { fair } else { post.asset(a, dest) - pre.asset(a, dest) };
					let _ = esc;
					let now = self.ext.execute_with(|| spec::dprice(a));
					if paid.abs_diff(fair) > fa_min(a) {
						if now != Some(*p0) {
							self.known("F08", "refund-at-current-price", format!("bid {id} pays {paid} where the auction says {fair}"));
						} else {
							self.o.fail(&["F08"], "bid pays the wrong amount", || {
								format!("bid {id} pays {paid}, the auction says {fair}")
							});
						}
					}
				}
			},
			Op::ConfirmOffchain { pid, who } => {
				self.excused.insert((*pid, *who));
			},
			_ => (),
		}
	}

	pub fn time(&mut self, blocks: u64, ms: u64) {
		if blocks > 100 {
			self.o.stats.inc("fault/long_silence");
		}
		if ms > blocks.saturating_mul(12_000) + 60_000 {
			self.o.stats.inc("fault/clock_jump");
		} else if ms < blocks.saturating_mul(12_000) / 2 {
			self.o.stats.inc("fault/clock_stall");
		}
		self.now += blocks;
		self.ms += ms;
		self.o.stats.sim_time += blocks.min(10_000_000);
		let (now, ms) = (self.now, self.ms);
		self.ext.execute_with(|| {
			System::set_block_number(now);
			pallet_timestamp::Pallet::<Rt>::set_timestamp(ms);
		});
	}

	fn net(&mut self, nth: usize, act: Act) {
		if self.net.is_empty() {
			return;
		}
		let i = nth % self.net.len();
		if i != 0 {
			self.o.stats.inc("fault/message_reordered");
		}
		match act {
			Act::Drop => {
				self.net.remove(i);
				self.o.stats.inc("fault/message_lost");
			},
			Act::Deliver => {
				let m = self.net.remove(i);
				self.deliver(m);
			},
			Act::Duplicate => {
				let m = self.net[i].clone();
				self.o.stats.inc("fault/message_duplicated");
				self.deliver(m);
			},
		}
	}
	fn deliver(&mut self, m: Wire) {
		match m {
			Wire::Relay(x) => {
				// The relay chain forwards our acceptance and request; the other chain accepts.
				let mut to = None;
				for i in &x.0 {
					if let Instruction::Transact { call, .. } = i {
						if call.encoded.len() >= 6 && call.encoded[..2] == [60, 0] {
							to = u32::decode(&mut &call.encoded[2..6]).ok();
						}
					}
				}
				if let Some(p) = to {
					self.net.push(Wire::Accepted(p));
				}
			},
			Wire::Accepted(p) => self.channel_accepted(p),
			Wire::Para(p, x) => self.execute(p, x),
			Wire::Answer { from, query, response } => self.answer(from, query, &response, false),
		}
	}

	fn hook(
		&mut self,
		name: &'static str,
		real: impl Fn() -> XcmResult,
		want: impl Fn(&mut Ctx) -> Result<(), spec::No>,
	) {
		let ext = &mut self.ext;
		let res = guarded(|| {
			ext.execute_with(|| {
				let r = with_transaction(|| match real() {
					Ok(()) => TransactionOutcome::Commit(Ok::<(), DispatchError>(())),
					Err(e) => TransactionOutcome::Rollback(Err(DispatchError::Other(match e {
						XcmError::BadOrigin => "bad origin",
						_ => "refused",
					}))),
				});
				(r, Snap::take())
			})
		});
		let (res, post) = match res {
			Ok(x) => x,
			Err(p) => {
				self.o.fail(&["F12"], "panic", || format!("{name} panics: {p}"));
				self.dead = true;
				return;
			},
		};
		self.o.stats.inc(&format!("op/{name}:{}", if res.is_ok() { "ok" } else { "refused" }));
		let mut exp = self.cur.clone();
		let env = self.env();
		let (w, may) = self.ext.execute_with(|| {
			let mut c = Ctx { s: &mut exp, e: env, post: &post, may: false };
			let w = want(&mut c);
			(w, c.may)
		});
		if res.is_ok() {
			self.o.touch(&["F11", "F12"]);
		}
		self.compare("F11", false, name, None, w, may, res, exp, &post);
		self.after(post, name);
	}
	fn channel_request(&mut self, para: u32, size: u32, capacity: u32) {
		self.hook(
			"channel_request",
			move || <Funding as xcm_executor::traits::HandleHrmpNewChannelOpenRequest>::handle(para, size, capacity),
			move |c| c.channel_request(para, size, capacity),
		)
	}
	fn channel_accepted(&mut self, para: u32) {
		self.hook(
			"channel_accepted",
			move || <Funding as xcm_executor::traits::HandleHrmpChannelAccepted>::handle(para),
			move |c| c.channel_accepted(para),
		)
	}

	fn answer(&mut self, from: u32, query: u64, response: &Response, forged: bool) {
		if self.o.verbose {
			eprintln!("{} #{} answer from {from} to {query}: {response:?}", self.o.step, self.now);
		}
		let ext = &mut self.ext;
		let loc = Location::new(1, Parachain(from));
		let res = guarded(|| {
			ext.execute_with(|| (pallet_xcm::Pallet::<Rt>::on_response(&loc, query, response.clone()), Snap::take()))
		});
		let (res, post) = match res {
			Ok(x) => x,
			Err(p) => {
				self.o.fail(&["F12"], "panic", || format!("the answer {response:?} to query {query} makes the pallet panic: {p}"));
				self.dead = true;
				return;
			},
		};
		let mut exp = self.cur.clone();
		let env = self.env();
		let (want, may) = self.ext.execute_with(|| {
			let mut c = Ctx { s: &mut exp, e: env, post: &post, may: false };
			let w = c.answer(from, query, response);
			(w, c.may)
		});
		let label = match &res {
			None => "ignored",
			Some(Ok(())) => "ok",
			Some(Err(_)) => "refused",
		};
		self.o.stats.inc(&format!("op/answer:{label}"));
		if want.is_some() {
			self.o.touch(&["F12"]);
			if forged {
				self.o.stats.inc("fault/false_answer_to_open_query");
			}
		}
		match (want, res) {
			(None, None) => self.refused("answer", &post),
			(Some(w), Some(r)) => {
				if let Err(_) = w {
					// the query is spent: everything else stays
					let mut c = exp.clone();
					c.tidy();
					let d = c.diff(&post);
					if r.is_err() {
						for (f, m) in d {
							self.o.fail(&["F12"], "a refused answer left traces", || format!("{f}: {m}"));
						}
						self.o.stats.inc("probe/answer_refused");
						if self.cur.queue.contains_key(&query) {
							let p = self.cur.queue[&query].0;
							self.o.stats.inc("probe/migration_answer_lost");
							let _ = p;
						}
					} else {
						self.o.check(false, &["F12"], "answer accepted", || {
							format!("{response:?} from {from} to query {query} was accepted")
						});
					}
				} else {
					self.compare("F12", false, "answer", None, w, may, r, exp, &post);
				}
			},
			(a, b) => self.o.fail(&["F12"], "answer handled", || format!("query {query} from {from}: expected {a:?}, found {b:?}")),
		}
		for (k, (st, _)) in &post.mig {
			if *st == MigrationStatus::Confirmed && self.cur.mig.get(k).map(|x| &x.0) != Some(st) && forged {
				self.excused.insert(*k);
			}
		}
		self.after(post, "answer");
		self.across();
	}

	/// The answering calls themselves, with a response origin of any location.
	fn direct(&mut self, from: From, confirm: bool, query: u64, response: &Response) {
		self.o.stats.inc("fault/forged_origin");
		let ext = &mut self.ext;
		let res = guarded(|| {
			ext.execute_with(|| {
				use pallet_funding::Call as F;
				let response = response.clone();
				let c = RuntimeCall::Funding(if confirm {
					F::confirm_pallet_migrations { query_id: query, response }
				} else {
					F::pallet_migration_readiness_response { query_id: query, response }
				});
				let o: RuntimeOrigin = pallet_xcm::Origin::Response(from.real()).into();
				let r = frame_support::storage::with_storage_layer(|| c.dispatch(o).map_err(|e| e.error));
				(r.map(|_| ()), Snap::take())
			})
		});
		let (res, post) = match res {
			Ok(x) => x,
			Err(p) => {
				self.o.fail(&["F12"], "panic", || format!("the answer {response:?} to query {query} makes the pallet panic: {p}"));
				self.dead = true;
				return;
			},
		};
		let mut exp = self.cur.clone();
		let env = self.env();
		let want = self.ext.execute_with(|| {
			let mut c = Ctx { s: &mut exp, e: env, post: &post, may: false };
			c.direct(match from { From::Chain(p) => Some(p), _ => None }, confirm, query, response)
		});
		self.o.stats.inc(&format!("op/direct_answer:{}", if res.is_ok() { "ok" } else { "refused" }));
		self.compare("F12", false, "direct answer", None, want, false, res, exp, &post);
		for (k, (st, _)) in &post.mig {
			if *st == MigrationStatus::Confirmed && self.cur.mig.get(k).map(|x| &x.0) != Some(st) {
				self.excused.insert(*k);
			}
		}
		self.after(post, "answer");
		self.across();
	}

	pub fn chain(&mut self, p: u32) -> &mut Chain {
		self.chains.entry(p).or_insert_with(|| {
			let mut ext = sp_state_machine::BasicExternalities::default();
			ext.execute_with(|| frame_system::Pallet::<para::Para>::set_block_number(1));
			Chain { ext, receiver: false, funded: 0 }
		})
	}
	fn para_set(&mut self, p: u32, fund: u128, receiver: bool) {
		let c = self.chain(p);
		c.receiver = receiver;
		c.funded += fund;
		c.ext.execute_with(|| {
			let _ = <para::Balances as Currency<_>>::deposit_creating(&para::sovereign(), fund);
		});
		if !receiver {
			self.o.stats.inc("fault/receiver_missing");
		}
	}
	/// A project chain executes a message of ours.
	fn execute(&mut self, p: u32, x: Xcm<()>) {
		self.chain(p);
		let c = self.chains.get_mut(&p).unwrap();
		let receiver = c.receiver;
		let mut answers: Vec<(Location, u64, Response)> = vec![];
		let mut bad = None;
		let n = &mut self.o.stats;
		let misled = self.misled.contains(&p);
		c.ext.execute_with(|| {
			type B = para::Balances;
			let sov = para::sovereign();
			let mut holding = 0u128;
			let mut status = MaybeErrorCode::Success;
			for i in x.0 {
				match i {
					Instruction::UnpaidExecution { .. } => (),
					Instruction::WithdrawAsset(a) => {
						for a in a.inner() {
							let Fungible(amount) = a.fun else { return };
							if a.id.0 != Location::here() {
								return;
							}
							let r = <B as Currency<_>>::withdraw(
								&sov,
								amount,
								WithdrawReasons::TRANSFER,
								ExistenceRequirement::AllowDeath,
							);
							match r {
								Ok(imbalance) => {
									holding += amount;
									drop(imbalance);
								},
								Err(_) => {
									n.inc("fault/project_chain_underfunded");
									return;
								},
							}
						}
					},
					Instruction::ReportHolding { response_info: r, .. } => {
						let a: Assets = if holding > 0 {
							vec![Asset::from((Location::new(1, Parachain(p)), holding))].into()
						} else {
							Assets::new()
						};
						answers.push((r.destination, r.query_id, Response::Assets(a)));
					},
					Instruction::QueryPallet { module_name, response_info: r } => {
						let v = if receiver && module_name == b"polimec_receiver" {
							vec![pallet_info(51, b"polimec_receiver")]
						} else {
							vec![]
						};
						answers.push((r.destination, r.query_id, Response::PalletsInfo(v.try_into().unwrap())));
					},
					Instruction::DepositAsset { .. } => {
						let _ = <B as Currency<_>>::deposit_creating(&sov, holding);
						holding = 0;
					},
					Instruction::Transact { require_weight_at_most: w, call, .. } => {
						if !receiver {
							return;
						}
						if misled && call.encoded[0] != 51 {
							n.inc("probe/chain_misled_about_itself");
							return;
						}
						let Ok(call) = para::RuntimeCall::decode(&mut &call.encoded[..]) else {
							bad = Some("a call the project's chain cannot decode");
							return;
						};
						if !call.get_dispatch_info().weight.all_lte(w) {
							bad = Some("a call that exceeds its own weight limit");
							return;
						}
						let origin =
							para::RuntimeOrigin::from(cumulus_pallet_xcm::Origin::SiblingParachain(ParaId::from(POLIMEC_PARA)));
						status = match call.dispatch(origin) {
							Ok(_) => MaybeErrorCode::Success,
							Err(e) => {
								n.inc("probe/migration_failed_on_the_chain");
								MaybeErrorCode::Error(e.error.encode().try_into().unwrap())
							},
						};
						frame_system::Pallet::<para::Para>::reset_events();
					},
					Instruction::ReportTransactStatus(r) =>
						answers.push((r.destination, r.query_id, Response::DispatchResult(status.clone()))),
					_ => return,
				}
			}
		});
		self.o.stats.inc("op/message_executed");
		if let Some(b) = bad {
			self.o.fail(&["F11"], "useless message", || format!("chain {p} got {b}"));
		}
		for (to, query, response) in answers {
			self.o.check(to == Location::new(1, Parachain(POLIMEC_PARA)), &["F11"], "answer sent elsewhere", || format!("{to:?}"));
			self.net.push(Wire::Answer { from: p, query, response });
		}
		self.across();
	}

	/// Both chains together: every token paid out there was owed here, once.
	fn across(&mut self) {
		let mut owed: BTreeMap<(u32, A), BTreeMap<(u8, u32), (u32, u128)>> = BTreeMap::new();
		for ((pid, user), (_, v)) in &self.cur.mig {
			let Some(d) = self.cur.det.get(pid) else { continue };
			let Some(MigrationType::Pallet(i)) = &d.migration_type else { continue };
			let e = owed.entry((i.parachain_id.into(), *user)).or_default();
			for m in v {
				e.insert((ty(&m.origin.participation_type), m.origin.id), (*pid, m.info.contribution_token_amount));
			}
		}
		for (p, c) in self.chains.iter_mut() {
			let users: Vec<A> = (1..=250).collect();
			let (done, bal, sov) = c.ext.execute_with(|| {
				let done: Vec<(A, u8, u32)> = polimec_receiver::ExecutedMigrations::<para::Para>::iter()
					.filter(|x| x.1)
					.map(|((l, t, id), _)| {
						let a = match l.unpack() {
							(0, [AccountId32 { id, .. }]) => num(&Acc::new(*id)),
							_ => 999,
						};
						(a, ty(&t), id)
					})
					.collect();
				let bal: BTreeMap<A, u128> = users
					.iter()
					.map(|u| (*u, <para::Balances as Inspect<_>>::total_balance(&account(*u))))
					.filter(|x| x.1 > 0)
					.collect();
				(done, bal, <para::Balances as Inspect<_>>::total_balance(&para::sovereign()))
			});
			let mut sum: BTreeMap<A, u128> = BTreeMap::new();
			let mut set = BTreeSet::new();
			for (a, t, id) in &done {
				match owed.get(&(*p, *a)).and_then(|m| m.get(&(*t, *id))) {
					Some((pid, x)) => {
						*sum.entry(*a).or_default() += x;
						set.insert((*pid, *a, *t, *id));
					},
					None => self.o.fail(&["F11"], "migration nobody ordered", || format!("chain {p} executed {a} {t} {id}")),
				}
			}
			self.o.check(sum == bal, &["F11"], "paid out on the project chain", || {
				format!("chain {p} paid {bal:?}, its executed migrations say {sum:?}")
			});
			let paid: u128 = bal.values().sum();
			self.o.check(sov + paid <= c.funded, &["F11"], "tokens out of nothing", || format!("chain {p}: {sov}+{paid} of {}", c.funded));
			for ((pp, a), m) in owed.range((*p, 0)..=(*p, A::MAX)) {
				for ((t, id), (pid, _)) in m {
					let st = &self.cur.mig[&(*pid, *a)].0;
					if *st == MigrationStatus::Confirmed && !self.excused.contains(&(*pid, *a)) {
						self.o.touch(&["F11"]);
						self.o.check(set.contains(&(*pid, *a, *t, *id)), &["F11"], "confirmed but not executed", || {
							format!("migration {t}/{id} of {a} in project {pid} is confirmed; chain {pp} has not executed it")
						});
					}
				}
			}
		}
	}
}
fn ty(t: &ParticipationType) -> u8 {
	match t {
		ParticipationType::Evaluation => 0,
		ParticipationType::Bid => 1,
		ParticipationType::Contribution => 2,
	}
}
pub fn milli(m: u64) -> P {
	P::saturating_from_rational(m as u128, 1000u128)
}

impl World {
	fn good_jwt(&self, a: A, did: u8, ty: u8, policy: u8) -> Jwt {
		Jwt { bad_sig: false, subject: a as u8, did, ty, policy, exp: Some(self.ms / 1000 + 3600) }
	}
	fn until(&mut self, b: u64) {
		if b > self.now {
			let n = b - self.now;
			self.time(n, n.saturating_mul(12_000));
		}
	}
	fn quiet_net(&mut self, r: &mut Rng) {
		let mut n = 0;
		while !self.net.is_empty() && n < 400 && !self.dead && !self.o.done() {
			let i = r.below(self.net.len() as u64) as usize;
			let m = self.net.remove(i);
			self.deliver(m);
			n += 1;
		}
	}
	/// Faults stop; everybody does what is due, in any order. Every project must come to its end.
	fn finish(&mut self, seed: u64) {
		let mut r = Rng::new(seed);
		self.finishing = true;
		self.router_down = false;
		self.ext.execute_with(|| {
			set_router_down(false);
			for id in [PLMC_ID, DOT, USDC, USDT] {
				if get_price(id).is_none() {
					set_price(id, Some(milli(default_price(id))));
				}
			}
		});
		let mut pids: Vec<u32> = self.cur.det.keys().copied().collect();
		r.shuffle(&mut pids);
		let mut moves = 0;
		while moves < 600 && !pids.is_empty() && !self.dead && !self.o.done() {
			moves += 1;
			let i = r.below(pids.len() as u64) as usize;
			let pid = pids[i];
			if self.tainted.contains(&pid) || !self.advance(pid, &mut r) {
				pids.remove(i);
			}
		}
		if self.dead || self.o.done() {
			return;
		}
		for (pid, d) in self.cur.det.clone() {
			if self.tainted.contains(&pid) {
				continue;
			}
			let end = matches!(
				d.status,
				ProjectStatus::Application | ProjectStatus::SettlementFinished(FundingOutcome::Failure) | ProjectStatus::CTMigrationFinished
			);
			let shared = self.shares_chain(pid);
			if end {
				self.o.touch(&["F09"]);
				self.o.stats.inc("probe/project_reached_its_end");
			}
			let tags: &[&str] = if d.status == ProjectStatus::CTMigrationStarted { &["F09", "F11"] } else { &["F09"] };
			self.o.check(end || shared, tags, "project is stuck", || {
				format!("project {pid} stays {:?} although everything due was done ({moves} moves); migration: {:?}", d.status, d.migration_type)
			});
			if end && d.status != ProjectStatus::Application {
				for id in [DOT, USDC, USDT] {
					let x = self.cur.asset(id, ESC + pid as u16);
					let dirty = self.book.dusty.contains(&(pid, id));
					self.o.check(x == 0 || dirty, &["F03", "F08"], "money stranded", || format!("{x} of asset {id} stay in the escrow of project {pid}"));
				}
			}
		}
		// In the end every bond is free again.
		let last = self.cur.sched.values().flatten().map(spec::sched_end).max().unwrap_or(0).min(u64::MAX as u128 / 4) as u64;
		let rel = self.cur.rel.values().map(|x| match x {
			Rel::Locked(b) => *b,
			_ => 0,
		});
		let last = last.max(rel.max().unwrap_or(0));
		self.until(last + 1);
		let who: Vec<A> = self.cur.sched.keys().filter(|k| k.1 == 1).map(|k| k.0).collect();
		for a in who {
			let all = r.chance(0.5);
			self.call(1, &if all { Op::VestAllOther { who: a } } else { Op::VestOther { who: a } }, false);
		}
		for pid in self.cur.rel.keys().copied().collect::<Vec<_>>() {
			if pid < 1000 && !self.tainted.contains(&pid) {
				self.call(1, &Op::BondsBack { pid, eval: false }, false);
				let left = self.cur.part(BOND + pid as u16);
				self.o.check(left == 0, &["P01"], "bonds of the treasury stranded", || format!("{left} in project {pid}"));
				for asset in 0..3 {
					if matches!(self.cur.rel.get(&pid), Some(Rel::Locked(_))) && self.cur.asset(fa_id(asset), BOND + pid as u16) > 0 {
						self.call(1, &Op::FeesOut { pid, asset }, false);
					}
				}
			}
		}
		let masked: BTreeSet<A> = self
			.cur
			.bids
			.iter()
			.map(|x| x.0 .1)
			.chain(self.cur.cons.iter().map(|x| x.0 .1))
			.chain(self.cur.evals.iter().map(|x| x.0 .1))
			.collect();
		for (a, p) in self.cur.plmc.clone() {
			if a < BOND && !masked.contains(&a) {
				self.o.check(p.part == 0 && p.eval == 0, &["F02", "L01"], "bond never freed", || {
					format!("{a} still has {p:?} on hold after everything is settled and every schedule over")
				});
			}
		}
	}
	fn shares_chain(&self, pid: u32) -> bool {
		let para = |p: &u32| match self.cur.det.get(p).map(|d| (&d.migration_type, &d.status)) {
			Some((Some(MigrationType::Pallet(i)), _)) => Some(u32::from(i.parachain_id)),
			_ => None,
		};
		let Some(mine) = para(&pid) else { return false };
		self.cur.det.keys().any(|p| *p != pid && para(p) == Some(mine))
	}
	/// One thing that is due for this project; `false`: nothing left.
	fn advance(&mut self, pid: u32, r: &mut Rng) -> bool {
		let Some(d) = self.cur.det.get(&pid).cloned() else { return false };
		let issuer = num(&d.issuer_account);
		let who = r.range(1, self.cfg.users as u64) as A;
		let jwt = self.good_jwt(issuer, did_num(&d.issuer_did), 2, 1);
		if let Some(e) = d.round_duration.end() {
			if matches!(
				d.status,
				ProjectStatus::EvaluationRound |
					ProjectStatus::AuctionRound |
					ProjectStatus::CommunityRound(_) |
					ProjectStatus::FundingFailed |
					ProjectStatus::FundingSuccessful
			) {
				self.until(e);
			}
		}
		match d.status {
			ProjectStatus::Application | ProjectStatus::CTMigrationFinished | ProjectStatus::SettlementFinished(FundingOutcome::Failure) =>
				return false,
			ProjectStatus::EvaluationRound => self.call(who, &Op::EndEvaluation { pid }, false),
			ProjectStatus::AuctionRound => self.call(who, &Op::EndAuction { pid }, false),
			ProjectStatus::CommunityRound(_) => self.call(who, &Op::EndFunding { pid }, false),
			ProjectStatus::FundingFailed | ProjectStatus::FundingSuccessful => self.call(who, &Op::StartSettlement { pid }, false),
			ProjectStatus::SettlementStarted(_) => {
				let range = (pid, 0, 0)..=(pid, A::MAX, u32::MAX);
				let mut ops: Vec<Op> = vec![];
				ops.extend(self.cur.evals.range(range.clone()).map(|(k, _)| Op::SettleEvaluation { pid, who: k.1, id: k.2 }));
				ops.extend(self.cur.bids.range(range.clone()).map(|(k, _)| Op::SettleBid { pid, who: k.1, id: k.2 }));
				ops.extend(self.cur.cons.range(range).map(|(k, _)| Op::SettleContribution { pid, who: k.1, id: k.2 }));
				if ops.is_empty() {
					self.call(who, &Op::MarkSettled { pid }, false);
				} else {
					let op = r.pick(&ops).clone();
					self.call(who, &op, false);
				}
			},
			ProjectStatus::SettlementFinished(FundingOutcome::Success) =>
				if r.chance(0.4) {
					self.call(issuer, &Op::StartOffchain { jwt, pid }, false)
				} else {
					self.call(issuer, &Op::StartPallet { jwt, pid, para: 2000 + pid }, false)
				},
			ProjectStatus::CTMigrationStarted => {
				let users: Vec<(A, MigrationStatus)> =
					self.cur.mig.range((pid, 0)..=(pid, A::MAX)).map(|(k, v)| (k.1, v.0.clone())).collect();
				match d.migration_type {
					Some(MigrationType::Offchain) => match users.iter().find(|x| x.1 != MigrationStatus::Confirmed) {
						Some((u, _)) => self.call(issuer, &Op::ConfirmOffchain { pid, who: *u }, false),
						None => self.call(who, &Op::MarkFinished { pid }, false),
					},
					Some(MigrationType::Pallet(i)) => {
						if self.shares_chain(pid) {
							return false;
						}
						let para = u32::from(i.parachain_id);
						let need = self.cur.ct_supply.get(&pid).copied().unwrap_or(0) + 1000;
						let c = self.chain(para);
						// (a readiness check asks for the whole supply, whatever has been paid out before)
						let have = c.ext.execute_with(|| <para::Balances as Currency<_>>::free_balance(&para::sovereign()));
						if !c.receiver || have < need {
							let fund = need.saturating_sub(have);
							self.para_set(para, fund, true);
						}
						let ready = matches!(
							&i.migration_readiness_check,
							Some(c) if c.holding_check.1 == CheckOutcome::Passed(None) &&
								matches!(c.pallet_check.1, CheckOutcome::Passed(Some(_)))
						);
						let before = (self.cur.det.get(&pid).cloned(), self.cur.mig.clone());
						if i.hrmp_channel_status.project_to_polimec != ChannelStatus::Open {
							self.channel_request(para, 102_400, 1000);
						} else if i.hrmp_channel_status.polimec_to_project != ChannelStatus::Open || i.migration_readiness_check.is_none() {
							self.quiet_net(r);
							if self.cur.det.get(&pid) == before.0.as_ref() {
								self.channel_accepted(para);
							}
						} else if !ready {
							self.quiet_net(r);
							let again = match self.cur.det.get(&pid).and_then(|d| d.migration_type.clone()) {
								Some(MigrationType::Pallet(j)) => j.migration_readiness_check == i.migration_readiness_check,
								_ => false,
							};
							if again {
								self.call(issuer, &Op::Readiness { jwt, pid }, false);
							}
						} else if let Some((u, _)) =
							users.iter().find(|x| matches!(x.1, MigrationStatus::NotStarted | MigrationStatus::Failed))
						{
							self.call(who, &Op::SendMigration { pid, who: *u }, false);
							if r.chance(0.7) {
								self.quiet_net(r);
							}
						} else if let Some((u, _)) = users.iter().find(|x| matches!(x.1, MigrationStatus::Sent(_))) {
							self.quiet_net(r);
							if self.cur.mig.get(&(pid, *u)).map(|x| &x.0) == before.1.get(&(pid, *u)).map(|x| &x.0) {
								self.o.stats.inc("probe/migration_answer_never_came");
								self.call(issuer, &Op::ConfirmOffchain { pid, who: *u }, false);
							}
						} else {
							self.call(who, &Op::MarkFinished { pid }, false);
						}
					},
					None => return false,
				}
			},
			_ => return false,
		}
		true
	}
}
