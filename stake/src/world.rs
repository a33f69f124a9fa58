//! Executes steps on the simulated chain and compares what happened with the reference model.
use crate::{
	runtime::*,
	snap::*,
	spec::{Model, Op, Params, Src},
};
use frame_support::{
	assert_ok,
	traits::{
		fungible::Mutate, BuildGenesisConfig, EstimateNextSessionRotation, Hooks, LockableCurrency, WithdrawReasons,
	},
	storage::{with_transaction, TransactionOutcome},
};
use pallet_authorship::EventHandler;
use pallet_parachain_staking as ps;
use pallet_session::{SessionManager, ShouldEndSession};
use serde::{Deserialize, Serialize};
use simcore::{guarded, Oracle, H};
use sp_runtime::{traits::Dispatchable, DispatchError, Perbill, Percent};

type S = ps::Pallet<Rt>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
	pub p: Params,
	pub users: u64,
	pub wealth: Vec<u128>,
	pub pm: u128,
	pub cands: Vec<(A, u128)>,
	pub dels: Vec<(A, A, u128, u8)>,
	pub expect: [u128; 3],
	pub annual: [u32; 3],
	pub round_rate: [u32; 3],
	pub commission: u32,
	pub reserve: u8,
	pub len: u32,
	pub selected: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
	/// `who` 0 is root. `unsigned`: without a signer.
	Call { who: A, op: Op, reorg: bool, unsigned: bool },
	/// One block: `author` picks among the validators of the session (none: nobody is credited).
	Block { author: Option<u8>, reorg: bool },
	Transfer { from: A, to: A, amount: u128 },
	Lock { who: A, amount: u128 },
	Fund { amount: u128 },
	Drain { left: u128 },
	Finish { seed: u64 },
}

#[derive(Clone, Default)]
struct Session {
	index: u32,
	validators: Vec<A>,
	queued: Vec<A>,
}

pub struct World {
	pub cfg: Cfg,
	pub o: Oracle,
	pub dead: bool,
	ext: sp_state_machine::BasicExternalities,
	pub now: u64,
	pub cur: Snap,
	pub m: Model,
	session: Session,
	finishing: bool,
}

fn part(field: &str) -> &'static [&'static str] {
	match field {
		"holds" => &["K01"],
		"wealth" => &["K01", "K08"],
		"candidate" | "totals" | "delegator" => &["K02"],
		"ranking" => &["K03", "K02"],
		"requests" => &["K04"],
		"auto-compound" => &["K09"],
		"pool" => &["K02", "K06"],
		"selected" => &["K06"],
		"snapshot" => &["K07"],
		"payout" => &["K08"],
		"points" => &["K08", "K10"],
		"round" => &["K10"],
		"settings" => &["K11"],
		_ => &[],
	}
}

pub fn call(op: &Op) -> RuntimeCall {
	use ps::Call as C;
	let c: ps::Call<Rt> = match op.clone() {
		Op::Expect(r) => C::set_staking_expectations { expectations: ps::Range { min: r[0], ideal: r[1], max: r[2] } },
		Op::Inflation(r) => C::set_inflation { schedule: range(r) },
		Op::BondAccount(new) => C::set_parachain_bond_account { new },
		Op::BondPercent(x) => C::set_parachain_bond_reserve_percent { new: Percent::from_parts(x) },
		Op::TotalSelected(new) => C::set_total_selected { new },
		Op::Commission(x) => C::set_collator_commission { new: Perbill::from_parts(x) },
		Op::BlocksPerRound(new) => C::set_blocks_per_round { new },
		Op::Join { bond, hint } => C::join_candidates { bond, candidate_count: hint },
		Op::SchedLeave { hint } => C::schedule_leave_candidates { candidate_count: hint },
		Op::ExecLeave { c, hint } => C::execute_leave_candidates { candidate: c, candidate_delegation_count: hint },
		Op::CancelLeave { hint } => C::cancel_leave_candidates { candidate_count: hint },
		Op::Offline => C::go_offline {},
		Op::Online => C::go_online {},
		Op::More(more) => C::candidate_bond_more { more },
		Op::SchedLess(less) => C::schedule_candidate_bond_less { less },
		Op::ExecLess { c } => C::execute_candidate_bond_less { candidate: c },
		Op::CancelLess => C::cancel_candidate_bond_less {},
		Op::Delegate { c, amt, ac: None, backers, mine, .. } =>
			C::delegate { candidate: c, amount: amt, candidate_delegation_count: backers, delegation_count: mine },
		Op::Delegate { c, amt, ac: Some(v), backers, compounding, mine } => C::delegate_with_auto_compound {
			candidate: c,
			amount: amt,
			auto_compound: Percent::from_parts(v),
			candidate_delegation_count: backers,
			candidate_auto_compounding_delegation_count: compounding,
			delegation_count: mine,
		},
		Op::SchedLeaveDel => C::schedule_leave_delegators {},
		Op::ExecLeaveDel { d, hint } => C::execute_leave_delegators { delegator: d, delegation_count: hint },
		Op::CancelLeaveDel => C::cancel_leave_delegators {},
		Op::Revoke { c } => C::schedule_revoke_delegation { collator: c },
		Op::DelMore { c, amt } => C::delegator_bond_more { candidate: c, more: amt },
		Op::DelLess { c, amt } => C::schedule_delegator_bond_less { candidate: c, less: amt },
		Op::ExecReq { d, c } => C::execute_delegation_request { delegator: d, candidate: c },
		Op::CancelReq { c } => C::cancel_delegation_request { candidate: c },
		Op::SetAc { c, v, compounding, mine } => C::set_auto_compound {
			candidate: c,
			value: Percent::from_parts(v),
			candidate_auto_compounding_delegation_count_hint: compounding,
			delegation_count_hint: mine,
		},
		Op::Hotfix(candidates) => C::hotfix_remove_delegation_requests_exited_candidates { candidates },
	};
	c.into()
}
fn range(r: [u32; 3]) -> ps::Range<Perbill> {
	ps::Range { min: Perbill::from_parts(r[0]), ideal: Perbill::from_parts(r[1]), max: Perbill::from_parts(r[2]) }
}
fn set_params(p: &Params) {
	ExistentialDeposit::set(p.ed);
	MinBlocksPerRound::set(p.min_blocks);
	LeaveCandidatesDelay::set(p.leave_cand);
	CandidateBondLessDelay::set(p.less_cand);
	LeaveDelegatorsDelay::set(p.leave_del);
	RevokeDelegationDelay::set(p.revoke);
	DelegationBondLessDelay::set(p.less_del);
	RewardPaymentDelay::set(p.pay);
	MinSelectedCandidates::set(p.min_selected);
	MaxTop::set(p.top);
	MaxBottom::set(p.bottom);
	MaxDelegations::set(p.max_dels);
	MinCandidateStk::set(p.min_cand);
	MinDelegatorStk::set(p.min_delegator);
	MinDelegation::set(p.min_delegation);
}
fn events() -> Vec<ps::Event<Rt>> {
	System::read_events_no_consensus()
		.filter_map(|e| match e.event {
			RuntimeEvent::Staking(e) => Some(e),
			_ => None,
		})
		.collect()
}

impl World {
	pub fn new(cfg: Cfg, o: Oracle) -> World {
		set_params(&cfg.p);
		let mut ext = sp_state_machine::BasicExternalities::default();
		let users = cfg.users;
		let gen = ps::GenesisConfig::<Rt> {
			candidates: cfg.cands.clone(),
			delegations: cfg.dels.iter().map(|d| (d.0, d.1, d.2, Percent::from_parts(d.3))).collect(),
			inflation_config: ps::InflationInfo {
				expect: ps::Range { min: cfg.expect[0], ideal: cfg.expect[1], max: cfg.expect[2] },
				annual: range(cfg.annual),
				round: range(cfg.round_rate),
			},
			collator_commission: Perbill::from_parts(cfg.commission),
			parachain_bond_reserve_percent: Percent::from_parts(cfg.reserve),
			blocks_per_round: cfg.len,
			num_selected_candidates: cfg.selected,
		};
		let r = guarded(|| {
			ext.execute_with(|| {
				for a in 1..=users {
					assert_ok!(Balances::mint_into(&a, cfg.wealth[a as usize - 1]));
				}
				assert_ok!(Balances::mint_into(&PM, cfg.pm));
				let pre = Snap::take(users);
				gen.build();
				(pre, Snap::take(users))
			})
		});
		let mut w = World {
			m: Model::new(cfg.p.clone(), Default::default(), 0),
			cfg,
			o,
			dead: false,
			ext,
			now: 0,
			cur: Snap::default(),
			session: Default::default(),
			finishing: false,
		};
		let (pre, post) = match r {
			Ok(x) => x,
			Err(p) => {
				w.o.fail(&["K12"], "panic", || format!("genesis panics: {p}"));
				w.dead = true;
				return w;
			},
		};
		w.m.issuance = pre.issuance;
		w.m.wealth = pre.bal.iter().map(|(a, x)| (*a, x.total())).collect();
		let cfg = w.cfg.clone();
		for (c, bond) in &cfg.cands {
			let hint = w.m.cands.len() as u32;
			let _ = w.m.apply(Src::Signed(*c), &Op::Join { bond: *bond, hint }, &pre, &post);
		}
		for (d, c, amt, ac) in &cfg.dels {
			let op = Op::Delegate { c: *c, amt: *amt, ac: Some(*ac), backers: 1000, compounding: 1000, mine: 1000 };
			// A genesis never fills a candidate, so nothing is displaced.
			let _ = w.m.apply(Src::Signed(*d), &op, &pre, &post);
		}
		w.m.round = (1, 0, cfg.len);
		w.m.total_selected = cfg.selected;
		w.m.commission = cfg.commission;
		w.m.pb = (0, cfg.reserve);
		w.m.infl = Infl { expect: cfg.expect, annual: cfg.annual, round: cfg.round_rate };
		w.m.select(1, &post, &post);
		w.compare(&["K02"], "genesis", &post);
		let (a, b) = w.ext.execute_with(|| (S::new_session_genesis(0), S::new_session_genesis(1)));
		w.session = Session { index: 0, validators: a.clone().unwrap_or_default(), queued: b.or(a).unwrap_or_default() };
		w.after(post, "genesis");
		// Events are recorded from the first block on.
		w.block(None, false);
		w
	}

	pub fn step(&mut self, i: usize, s: &Step) {
		self.o.step = i;
		self.o.stats.steps += 1;
		self.one(s);
	}
	fn one(&mut self, s: &Step) {
		if self.dead || self.o.done() {
			return;
		}
		match s {
			Step::Call { who, op, reorg, unsigned } => self.call(*who, op, *reorg, *unsigned),
			Step::Block { author, reorg } => self.block(*author, *reorg),
			Step::Transfer { from, to, amount } => {
				let c: RuntimeCall = pallet_balances::Call::transfer_allow_death { dest: *to, value: *amount }.into();
				let f = *from;
				self.outside("balance_moved", || {
					let _ = c.dispatch(RuntimeOrigin::signed(f));
				})
			},
			Step::Lock { who, amount } => {
				let (w, x) = (*who, *amount);
				self.outside("balance_locked", || {
					if x == 0 || System::providers(&w) == 0 {
						Balances::remove_lock(*b"simlock!", &w)
					} else {
						Balances::set_lock(*b"simlock!", &w, x, WithdrawReasons::all())
					}
				})
			},
			Step::Fund { amount } => {
				let x = *amount;
				self.outside("treasury_funded", || {
					let _ = Balances::mint_into(&PM, x);
				})
			},
			Step::Drain { left } => {
				let x = *left;
				self.outside("treasury_drained", || {
					use frame_support::traits::{
						fungible::Inspect,
						tokens::{Fortitude, Precision, Preservation},
					};
					let have = Balances::balance(&PM);
					if have > x {
						let _ = Balances::burn_from(
							&PM,
							have - x,
							Preservation::Preserve,
							Precision::BestEffort,
							Fortitude::Force,
						);
					}
				})
			},
			Step::Finish { seed } => self.finish(*seed),
		}
	}

	/// Something other than staking changes balances: what it did is taken as it is.
	fn outside(&mut self, label: &str, f: impl FnOnce()) {
		self.o.stats.inc(&format!("fault/{label}"));
		let users = self.cfg.users;
		let post = self.ext.execute_with(|| {
			f();
			Snap::take(users)
		});
		self.m.issuance = post.issuance;
		for (a, x) in &post.bal {
			self.m.wealth.insert(*a, x.total());
		}
		self.compare(&["K01"], label, &post);
		self.after(post, label);
	}

	/// Run `f` on the chain; when `reorg`, run it first on a fork that is abandoned, and compare.
	fn exec<R: PartialEq + std::fmt::Debug>(
		&mut self,
		own: &'static str,
		name: &str,
		reorg: bool,
		f: impl Fn() -> R,
	) -> Option<(R, Snap)> {
		let users = self.cfg.users;
		let ext = &mut self.ext;
		let first = if reorg {
			self.o.stats.inc("fault/block_reverted_and_replayed");
			guarded(|| {
				ext.execute_with(|| {
					with_transaction(|| {
						let r = f();
						let s = Snap::take(users);
						TransactionOutcome::Rollback(Ok::<_, DispatchError>((r, s)))
					})
					.unwrap()
				})
			})
			.ok()
		} else {
			None
		};
		let res = guarded(|| {
			ext.execute_with(|| {
				let r = f();
				(r, Snap::take(users))
			})
		});
		match res {
			Err(p) => {
				self.o.fail(&[own, "K12"], "panic", || format!("{name} panics: {p}"));
				self.dead = true;
				None
			},
			Ok((r, post)) => {
				if let Some((r1, s1)) = first {
					self.o.check(r1 == r && s1 == post, &[own], "not repeatable", || {
						format!("{name} differs when its block is executed again: {r1:?} / {r:?}")
					});
				}
				Some((r, post))
			},
		}
	}

	pub fn call(&mut self, who: A, op: &Op, reorg: bool, unsigned: bool) {
		if self.o.verbose {
			eprintln!("{} #{} {who} {op:?}", self.o.step, self.now);
		}
		let own = op.owner();
		let c = call(op);
		let origin = || {
			if unsigned {
				RuntimeOrigin::none()
			} else if who == 0 {
				RuntimeOrigin::root()
			} else {
				RuntimeOrigin::signed(who)
			}
		};
		let Some(((res, ev), post)) = self.exec(own, op.name(), reorg, || {
			let r = c.clone().dispatch(origin()).map(|_| ()).map_err(|e| e.error);
			(r, format!("{:?}", events()))
		}) else {
			return;
		};
		let ok = res.is_ok();
		self.o.stats.inc(&format!("op/{}:{}", op.name(), if ok { "ok" } else { "refused" }));
		let src = if unsigned {
			Src::None
		} else if who == 0 {
			Src::Root
		} else {
			Src::Signed(who)
		};
		let mut m = self.m.clone();
		let want = m.apply(src, op, &self.cur, &post);
		match (&want, &res) {
			(Ok(()), Ok(())) => {
				self.probe(op, &m);
				let before = std::mem::replace(&mut self.m, m);
				self.compare(&[own], op.name(), &post);
				self.first_come(who, op, &before, &post);
				self.keeps_place(op, &post);
				self.said(who, op, &before, &ev);
				if matches!(op, Op::Inflation(_) | Op::BlocksPerRound(_)) {
					let bad = self.m.round_rate_ok();
					self.o.check(bad.is_none(), &["K11"], "inflation per round", || bad.unwrap_or_default());
				}
				self.o.touch(&[own, "K01", "K02"]);
			},
			(Err(why), Err(_)) => {
				self.o.stats.inc(&format!("probe/{why}"));
				self.o.touch(&[&why[..3], "K05"]);
				let same = post == self.cur;
				self.o.check(same, &["K05", own], "a refused call left traces", || {
					format!("{} was refused but changed {:?}", op.name(), self.m.diff(&post))
				});
			},
			(Err(why), Ok(())) => {
				let tag = &why[..3];
				self.o.check(false, &[tag, own], &format!("{} accepted", op.name()), || {
					format!("{op:?} by {who} succeeded although it must be refused: {why}")
				});
				self.dead = true;
			},
			(Ok(()), Err(e)) => {
				let leaving = matches!(
					op,
					Op::SchedLeave { .. } |
						Op::ExecLeave { .. } | Op::SchedLeaveDel |
						Op::ExecLeaveDel { .. } | Op::Revoke { .. } |
						Op::ExecReq { .. }
				);
				let tags: &[&str] = if self.finishing || leaving { &[own, "K12"] } else { &[own, "K05"] };
				self.o.check(false, tags, &format!("{} refused", op.name()), || {
					format!("{op:?} by {who} is in order and must succeed, but fails: {e:?}")
				});
				self.dead = true;
			},
		}
		self.after(post, op.name());
	}

	/// Among equal delegations the earlier ones keep their place: a new one is counted only when there is room or it
	/// is bigger than the lowest counted one, and who gives way is the last listed.
	fn first_come(&mut self, who: A, op: &Op, before: &Model, post: &Snap) {
		let Op::Delegate { c, amt, .. } = op else { return };
		let list = |m: &std::collections::BTreeMap<A, (Vec<(A, u128)>, u128)>| -> Vec<(A, u128)> {
			m.get(c).map(|x| x.0.clone()).unwrap_or_default()
		};
		let (top, bot) = (list(&self.cur.top), list(&self.cur.bot));
		let k = before.p.top as usize;
		let counted = top.len() < k || top.last().is_some_and(|x| *amt > x.1);
		let mut want: Vec<A> = top.iter().map(|x| x.0).collect();
		if counted {
			want.truncate(k - 1);
			want.push(who);
		}
		let mut real: Vec<A> = list(&post.top).iter().map(|x| x.0).collect();
		want.sort();
		real.sort();
		self.o.check(real == want, &["K03"], "who is counted", || {
			format!("after {who} delegated {amt} to {c} the counted are {real:?}, expected {want:?}")
		});
		if let Some((out, _, _)) = self.m.kicked.first() {
			let last = bot.last().map(|x| x.0);
			self.o.check(Some(*out) == last, &["K03"], "who gives way", || {
				format!("{out} was displaced, not {last:?}, the last of the uncounted")
			});
		}
	}

	/// A delegation that stops being counted gave way to greater ones only.
	fn keeps_place(&mut self, op: &Op, post: &Snap) {
		for (c, (was, _)) in &self.cur.top {
			let Some((now, _)) = post.top.get(c) else { continue };
			let Some((rest, _)) = post.bot.get(c) else { continue };
			let came = now.iter().filter(|x| !was.iter().any(|y| y.0 == x.0)).map(|x| x.1).min();
			let left = rest.iter().filter(|x| was.iter().any(|y| y.0 == x.0)).map(|x| x.1).max();
			if let (Some(came), Some(left)) = (came, left) {
				self.o.check(came > left, &["K03"], "who gives way", || {
					format!("{}: a delegation of {left} to {c} is no longer counted, but one of {came} now is", op.name())
				});
			}
		}
	}

	/// The event that reports the call says what happened.
	fn said(&mut self, who: A, op: &Op, before: &Model, ev: &str) {
		use ps::Event as E;
		let now = self.m.round.0;
		let p = self.m.p.clone();
		let sum = |c: A| before.cands[&c].bond + before.cands[&c].dels.values().sum::<u128>();
		let want: Vec<E<Rt>> = match op {
			Op::Join { bond, .. } => vec![E::JoinedCollatorCandidates {
				account: who,
				amount_locked: *bond,
				new_total_amt_locked: self.m.total(),
			}],
			Op::SchedLeave { .. } => vec![E::CandidateScheduledExit {
				exit_allowed_round: now,
				candidate: who,
				scheduled_exit: now + p.leave_cand,
			}],
			Op::ExecLeave { c, .. } => vec![E::CandidateLeft {
				ex_candidate: *c,
				unlocked_amount: sum(*c),
				new_total_amt_locked: self.m.total(),
			}],
			Op::More(x) =>
				vec![E::CandidateBondedMore { candidate: who, amount: *x, new_total_bond: self.m.cands[&who].bond }],
			Op::SchedLess(x) => vec![E::CandidateBondLessRequested {
				candidate: who,
				amount_to_decrease: *x,
				execute_round: now + p.less_cand,
			}],
			Op::ExecLess { c } => vec![E::CandidateBondedLess {
				candidate: *c,
				amount: before.cands[c].req.map_or(0, |r| r.0),
				new_bond: self.m.cands[c].bond,
			}],
			Op::Delegate { .. } => self
				.m
				.kicked
				.iter()
				.map(|(d, c, x)| E::DelegationKicked { delegator: *d, candidate: *c, unstaked_amount: *x })
				.collect(),
			Op::SchedLeaveDel =>
				vec![E::DelegatorExitScheduled { round: now, delegator: who, scheduled_exit: now + p.leave_del }],
			Op::ExecLeaveDel { d, .. } =>
				vec![E::DelegatorLeft { delegator: *d, unstaked_amount: before.mine(*d).values().sum() }],
			Op::Revoke { c } => vec![E::DelegationRevocationScheduled {
				round: now,
				delegator: who,
				candidate: *c,
				scheduled_exit: now + p.revoke,
			}],
			Op::DelLess { c, amt } => vec![E::DelegationDecreaseScheduled {
				delegator: who,
				candidate: *c,
				amount_to_decrease: *amt,
				execute_round: now + p.less_del,
			}],
			Op::ExecReq { d, c } => match before.cands[c].reqs[d].0 {
				Act::Revoke(_) => vec![E::DelegationRevoked {
					delegator: *d,
					candidate: *c,
					unstaked_amount: before.cands[c].dels[d],
				}],
				Act::Decrease(_) => vec![],
			},
			_ => vec![],
		};
		for e in want {
			let s = format!("{e:?}");
			let own = op.owner();
			self.o.check(ev.contains(&s), &[own], "event", || format!("{} does not report {s} but {ev}", op.name()));
		}
	}

	/// Rare conditions.
	fn probe(&mut self, op: &Op, m: &Model) {
		let s = &mut self.o.stats;
		match op {
			Op::Delegate { c, .. } => {
				let n = m.cands[c].dels.len() as u32;
				if !m.kicked.is_empty() {
					s.inc("probe/delegation_displaced");
				} else if n > m.p.top {
					s.inc("probe/delegation_among_uncounted");
				}
				if matches!(m.cands[c].status, Status::Leaving(_)) {
					s.inc("probe/delegated_to_leaving_candidate");
				}
			},
			Op::ExecReq { d, c } => {
				if self.m.cands[c].dels.len() as u32 > m.p.top {
					s.inc("probe/request_executed_with_uncounted_delegations");
				}
				if self.cur.bot.get(c).is_some_and(|b| b.0.iter().any(|x| x.0 == *d)) {
					s.inc("probe/request_executed_on_uncounted_delegation");
				}
			},
			Op::ExecLeave { c, .. } => {
				let x = &self.m.cands[c];
				if x.dels.len() as u32 > m.p.top {
					s.inc("probe/candidate_left_with_uncounted_delegations");
				}
				if !x.reqs.is_empty() {
					s.inc("probe/candidate_left_with_pending_requests");
				}
				if self.m.shots.keys().any(|k| k.1 == *c) {
					s.inc("probe/candidate_left_with_unpaid_rounds");
				}
			},
			Op::SchedLeaveDel => {
				if self.m.cands.values().any(|c| c.reqs.values().any(|r| !r.0.revoke())) {
					s.inc("probe/exit_scheduled_over_pending_decreases");
				}
			},
			_ => (),
		}
	}


	fn block(&mut self, author: Option<u8>, reorg: bool) {
		self.now += 1;
		let n = self.now;
		let sess = self.session.clone();
		let author = author.and_then(|i| {
			let v = &sess.validators;
			if v.is_empty() {
				None
			} else {
				Some(v[i as usize % v.len()])
			}
		});
		if author.is_none() {
			self.o.stats.inc("fault/nobody_credited");
		}
		let Some(((ends, new, sess2, est, ev), post)) = self.exec("K10", "a block", reorg, || {
			System::set_block_number(n);
			let mut sess = sess.clone();
			if let Some(a) = author {
				<S as EventHandler<A, u64>>::note_author(a);
			}
			let ends = <S as ShouldEndSession<u64>>::should_end_session(n);
			let mut new = None;
			if ends {
				<S as SessionManager<A>>::end_session(sess.index);
				sess.validators = sess.queued.clone();
				sess.index += 1;
				<S as SessionManager<A>>::start_session(sess.index);
				new = <S as SessionManager<A>>::new_session(sess.index + 1);
				if let Some(v) = &new {
					sess.queued = v.clone();
				}
			}
			let _ = S::on_initialize(n);
			let est = (
				<S as EstimateNextSessionRotation<u64>>::average_session_length(),
				<S as EstimateNextSessionRotation<u64>>::estimate_next_session_rotation(n).0,
				<S as EstimateNextSessionRotation<u64>>::estimate_current_session_progress(n).0,
			);
			(ends, new, (sess.index, sess.validators, sess.queued), est, events_of_block())
		}) else {
			return;
		};
		self.o.stats.sim_time += 1;
		let (cur, first, len) = self.m.round;
		let due = n - first >= len as u64;
		self.o.check(ends == due, &["K10"], "session end", || {
			format!("at block {n} the session {}, round {cur} began at {first} and lasts {len}", if ends { "ends" } else { "goes on" })
		});
		if due {
			let want = if self.m.selected.is_empty() { None } else { Some(self.m.selected.clone()) };
			self.o.check(new == want, &["K10", "K06"], "session collators", || {
				format!("the next session gets {new:?}, the collators are {want:?}")
			});
		}
		self.session = Session { index: sess2.0, validators: sess2.1, queued: sess2.2 };
		let pre = self.cur.clone();
		let paid = self.m.block(n, author, &pre, &post);
		let (_, first, len) = self.m.round;
		let want = (
			len as u64,
			Some(first + len as u64),
			Some(sp_runtime::Permill::from_rational(n - first, len as u64)),
		);
		self.o.check(est == want, &["K10"], "session estimate", || format!("{est:?}, expected {want:?}"));
		if due {
			self.o.touch(&["K06", "K07", "K10"]);
			self.o.stats.inc("probe/new_round");
			if self.m.pool().is_empty() {
				self.o.stats.inc("probe/new_round_without_candidates");
			}
			if self.m.pool().len() > self.m.selected.len() {
				self.o.stats.inc("probe/candidates_compete");
			}
			if self.cur.reqs.iter().any(|(c, q)| !q.is_empty() && self.m.selected.contains(c)) {
				self.o.stats.inc("probe/selected_with_pending_requests");
			}
		}
		if let Some((r, c)) = paid {
			self.o.touch(&["K08"]);
			self.o.stats.inc("probe/collator_paid");
			if !self.m.compounded.is_empty() {
				self.o.touch(&["K09"]);
				self.o.stats.inc("probe/compounded");
			}
			if !self.m.cands.contains_key(&c) {
				self.o.stats.inc("probe/paid_after_leaving");
			}
			let was = &pre.at[&(r, c)];
			if was.dels.iter().any(|d| !self.m.cands.get(&c).is_some_and(|k| k.dels.contains_key(&d.0))) {
				self.o.stats.inc("probe/delegator_paid_after_leaving");
			}
			if self.m.spendable(PM) < 1000 {
				self.o.stats.inc("probe/treasury_empty");
			}
		}
		// What the events report.
		let mut re: Vec<(A, u128)> = vec![];
		let mut co: Vec<(A, A, u128)> = vec![];
		let mut chosen: Vec<(A, u128)> = vec![];
		let mut rounds = vec![];
		for e in ev {
			match e {
				Ev::Rewarded(a, x) => re.push((a, x)),
				Ev::Compounded(c, d, x) => co.push((c, d, x)),
				Ev::Chosen(a, x) => chosen.push((a, x)),
				Ev::Round(a, b, c, d) => rounds.push((a, b, c, d)),
			}
		}
		let (w1, w2) = (self.m.rewarded.clone(), self.m.compounded.clone());
		self.o.check(re == w1, &["K08"], "rewards reported", || format!("rewards {re:?}, expected {w1:?}"));
		self.o.check(co == w2, &["K09"], "compounding reported", || format!("compounded {co:?}, expected {w2:?}"));
		if due && !self.m.pool().is_empty() {
			let want: Vec<(A, u128)> = self.m.selected.iter().map(|a| (*a, self.m.counted(*a))).collect();
			self.o.check(chosen == want, &["K06"], "collators reported", || format!("chosen {chosen:?}, expected {want:?}"));
			let all = want.iter().map(|x| x.1).sum::<u128>();
			let want = vec![(n, self.m.round.0, want.len() as u32, all)];
			self.o.check(rounds == want, &["K10"], "round reported", || format!("{rounds:?}, expected {want:?}"));
		}
		self.compare(&[], if due { "a new round" } else { "a block" }, &post);
		self.after(post, "block");
	}

	fn compare(&mut self, own: &[&'static str], name: &str, post: &Snap) {
		self.o.stats.checks += 20;
		for (field, msg) in self.m.diff(post) {
			let mut tags: Vec<&str> = own.to_vec();
			tags.extend(part(field));
			if name == "a block" && field != "round" && field != "points" {
				tags.push("K08");
				if !self.m.compounded.is_empty() {
					tags.push("K09");
				}
			}
			self.o.fail(&tags, &format!("{name}: {field}"), || format!("after {name}: {msg}"));
			self.dead = true;
		}
	}

	fn after(&mut self, post: Snap, label: &str) {
		self.ext.execute_with(System::reset_events);
		self.cur = post;
		let mut h = H::default();
		h.u(self.m.payouts.len() as u64);
		h.u(self.m.selected.len() as u64);
		for c in self.m.cands.values() {
			h.u(c.dels.len() as u64);
			h.u(c.reqs.len() as u64);
			h.u(c.ac.len() as u64);
			h.u(match c.status {
				Status::Active => 0,
				Status::Idle => 1,
				Status::Leaving(w) => 2 + (w <= self.m.round.0) as u64,
			});
			h.u(c.req.is_some() as u64);
		}
		self.o.stats.states.insert(h.0);
		self.o.th.s(label);
		let s = format!("{:?}", (&self.cur.bal, &self.cur.cands, &self.cur.dels, &self.cur.reqs, &self.cur.selected, &self.cur.at));
		self.o.th.s(&s);
	}

	/// Faults stop; everybody leaves, and within the delays everything comes back.
	fn finish(&mut self, seed: u64) {
		self.finishing = true;
		let mut r = simcore::Rng::new(seed);
		self.one(&Step::Fund { amount: 1_000_000_000_000_000 });
		let c = |who: A, op: Op| Step::Call { who, op, reorg: false, unsigned: false };
		if self.m.total_selected > 10 {
			self.one(&c(0, Op::TotalSelected(self.m.p.min_selected)));
		}
		let n = self.m.p.min_blocks.max(self.m.total_selected + 1);
		if self.m.round.2 > 12 && n < self.m.round.2 {
			self.one(&c(0, Op::BlocksPerRound(n)));
		}
		let ds: Vec<A> = (1..=self.cfg.users).filter(|a| self.m.is_delegator(*a)).collect();
		for d in ds {
			let own = self.m.mine(d);
			if !own.keys().all(|c| self.m.cands[c].reqs.get(&d).is_some_and(|q| q.0.revoke())) {
				self.one(&c(d, Op::SchedLeaveDel));
			}
		}
		for a in self.m.cands.keys().copied().collect::<Vec<_>>() {
			if !matches!(self.m.cands[&a].status, Status::Leaving(_)) {
				self.one(&c(a, Op::SchedLeave { hint: 100 }));
			}
		}
		let p = self.m.p.clone();
		let wait = p.leave_del.max(p.leave_cand).max(p.revoke).max(p.less_del) + 1;
		let end = self.m.round.0 + wait;
		let limit = self.now + (wait as u64 + 1) * self.m.round.2 as u64 + 2;
		while self.m.round.0 < end && !self.dead && !self.o.done() {
			if self.now > limit {
				self.o.fail(&["K12", "K10"], "rounds stopped", || format!("round {} at block {}", self.m.round.0, self.now));
				return;
			}
			self.one(&Step::Block { author: Some(r.below(8) as u8), reorg: false });
		}
		let mut who: Vec<A> = (1..=self.cfg.users).collect();
		r.shuffle(&mut who);
		let by = *r.pick(&who);
		for a in who {
			if self.dead || self.o.done() {
				return;
			}
			if self.m.cands.contains_key(&a) {
				let hint = self.m.cands[&a].dels.len() as u32;
				self.one(&c(by, Op::ExecLeave { c: a, hint }));
			} else if self.m.is_delegator(a) {
				let hint = self.m.mine(a).len() as u32;
				self.one(&c(by, Op::ExecLeaveDel { d: a, hint }));
			}
		}
		if self.dead || self.o.done() {
			return;
		}
		let left: Vec<A> = self.cur.bal.iter().filter(|(_, x)| x.reserved > 0).map(|x| *x.0).collect();
		self.o.check(
			left.is_empty() && self.cur.total == 0 && self.cur.cands.is_empty() && self.cur.dels.is_empty(),
			&["K12", "K01"],
			"not everything came back",
			|| format!("after everybody left: on hold {left:?}, total {}", self.cur.total),
		);
		self.o.touch(&["K12", "K01"]);
		// The chain goes on with the last collators.
		for _ in 0..2 * self.m.round.2 {
			self.one(&Step::Block { author: Some(r.below(8) as u8), reorg: false });
		}
	}
}

#[derive(Debug, PartialEq)]
enum Ev {
	Rewarded(A, u128),
	Compounded(A, A, u128),
	Chosen(A, u128),
	Round(u64, u32, u32, u128),
}
fn events_of_block() -> Vec<Ev> {
	events()
		.into_iter()
		.filter_map(|e| match e {
			ps::Event::Rewarded { account, rewards } => Some(Ev::Rewarded(account, rewards)),
			ps::Event::Compounded { candidate, delegator, amount } => Some(Ev::Compounded(candidate, delegator, amount)),
			ps::Event::CollatorChosen { collator_account, total_exposed_amount, .. } =>
				Some(Ev::Chosen(collator_account, total_exposed_amount)),
			ps::Event::NewRound { starting_block, round, selected_collators_number, total_balance } =>
				Some(Ev::Round(starting_block, round, selected_collators_number, total_balance)),
			_ => None,
		})
		.collect()
}
