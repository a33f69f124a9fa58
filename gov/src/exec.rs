//! Executes one block on a chain state, as an executive does, optionally watched by the model.
use crate::{check, model::*, runtime::*};
use frame_support::{
	dispatch::{DispatchClass, GetDispatchInfo, Pays},
	traits::{
		fungible::{Inspect, InspectHold},
		Hooks, LockIdentifier, UnfilteredDispatchable,
	},
	weights::Weight,
};
use parity_scale_codec::{Decode, Encode};
use simcore::{guarded, Oracle, H};
use sp_core::storage::Storage;
use sp_state_machine::BasicExternalities;
use std::{
	collections::{BTreeMap, BTreeSet},
	rc::Rc,
};

#[derive(Clone, Debug)]
pub struct Tx {
	pub who: Acc,
	pub call: RuntimeCall,
}

#[derive(Clone, Debug)]
pub struct Blk {
	pub label: u64,
	pub parent: u64,
	pub number: Bn,
	pub stalled: bool,
	pub bond: Bal,
	pub txs: Vec<u64>,
}

pub struct Watch<'a> {
	pub m: &'a mut Model,
	pub o: &'a mut Oracle,
	pub accounts: &'a [Acc],
	/// Calls skipped because the block was full are returned here.
	pub included: Vec<u64>,
}

pub fn state_hash(s: &Storage) -> u64 {
	let mut h = H::default();
	for (k, v) in &s.top {
		h.bytes(k);
		h.bytes(v);
	}
	h.0
}

pub fn origin(who: Acc) -> (Org, RuntimeOrigin) {
	if who == SUDO {
		(Org::Root, RuntimeOrigin::root())
	} else {
		(Org::Signed(who), RuntimeOrigin::signed(who))
	}
}

/// What a slash must leave of the vesting schedules: (locked, per block, start).
fn slashed_schedules(v: &[(Bal, Bal, Bn)], now: Bn, slashed: Bal) -> Vec<(Bal, Bal, Bn)> {
	let mut out = vec![];
	for (locked, per, start) in v {
		let end = *start as u128 + (locked + per - 1) / per;
		let vested = (now.saturating_sub(*start) as u128).saturating_mul(*per);
		let left = locked.saturating_sub(vested).saturating_sub(slashed);
		let start = now.max(*start);
		let dur = end.saturating_sub(start as u128);
		if left == 0 || dur == 0 {
			continue;
		}
		let per = left / dur;
		if per > 0 {
			out.push((left, per, start));
		}
	}
	out
}
fn schedules(a: Acc) -> Vec<(Bal, Bal, Bn)> {
	pallet_vesting::Vesting::<Rt>::get(a)
		.map(|v| v.iter().map(|s| (s.locked(), s.per_block(), s.starting_block())).collect())
		.unwrap_or_default()
}
fn vesting_lock(a: Acc) -> Bal {
	let id: LockIdentifier = *b"vesting ";
	pallet_balances::Locks::<Rt>::get(a).iter().filter(|l| l.id == id).map(|l| l.amount).sum()
}

fn resync(m: &mut Model, accounts: &[Acc]) {
	for a in accounts {
		let t = <Balances as Inspect<Acc>>::total_balance(a);
		m.total.insert(*a, t);
		let h = Balances::balance_on_hold(&probe::HoldReason::Other.into(), a);
		m.other_held.insert(*a, h);
	}
}

/// Tags for a panic in a call: nothing of the pallet's promises survives it.
fn call_tags(c: &RuntimeCall) -> Vec<&'static str> {
	let mut t = base_tags(c).to_vec();
	t.push("S02");
	t
}

/// Execute a block. Without a watch: what an importing node does. Returns the state after it, or
/// the panic that stopped it.
pub fn exec(
	state: &Storage,
	b: &Blk,
	txs: &BTreeMap<u64, Rc<Tx>>,
	mut w: Option<&mut Watch>,
) -> Result<Storage, String> {
	set_sched_stalled(b.stalled);
	CandidacyBond::set(b.bond);
	let mut ext = BasicExternalities::new(state.clone());
	let r = guarded(|| ext.execute_with(|| body(b, txs, w.as_deref_mut())));
	match r {
		Ok(Ok(())) => Ok(ext.into_storages()),
		Ok(Err(e)) => Err(e),
		Err(e) => Err(format!("outside of a call: {e}")),
	}
}

fn body(b: &Blk, txs: &BTreeMap<u64, Rc<Tx>>, mut w: Option<&mut Watch>) -> Result<(), String> {
	let n = b.number;
	System::reset_events();
	System::initialize(&n, &Default::default(), &Default::default());
	if let Some(w) = w.as_deref_mut() {
		w.m.now = n;
		w.o.stats.sim_time += 1;
	}
	let budget = BlockWeights::get().max_block;
	let mut used = Weight::zero();

	// Democracy.
	let r = guarded(|| Democracy::on_initialize(n));
	match r {
		Ok(x) => used = used.saturating_add(x),
		Err(e) => {
			if let Some(w) = w {
				w.o.fail(&["S02", "D03", "D06"], "panic-hook", || format!("block {n}: democracy hook panicked: {e}"));
			}
			return Err(e);
		},
	}
	if let Some(w) = w.as_deref_mut() {
		let treasury = Balances::free_balance(TREASURY);
		let electorate = w.m.issuance().saturating_sub(treasury);
		let (a0, r0, q0, x0) = (w.m.approved_n, w.m.rejected_n, w.m.props.len(), w.m.next_ext.is_some());
		let chain: std::collections::BTreeSet<u32> =
			pallet_democracy::PublicProps::<Rt>::get().iter().map(|p| p.0).collect();
		for (t, msg) in w.m.democracy_begin(electorate, &chain) {
			w.o.fail(t, "tabling", || msg);
		}
		if w.m.approved_n > a0 {
			w.o.stats.add("probe/referendum_approved", (w.m.approved_n - a0) as u64);
			w.o.touch(&["D03", "D04"]);
		}
		if w.m.rejected_n > r0 {
			w.o.stats.add("probe/referendum_rejected", (w.m.rejected_n - r0) as u64);
			w.o.touch(&["D03"]);
		}
		if w.m.props.len() < q0 {
			w.o.stats.inc("probe/public_tabled");
			w.o.touch(&["D06", "D05"]);
		}
		if x0 && w.m.next_ext.is_none() {
			w.o.stats.inc("probe/external_tabled");
			w.o.touch(&["D06"]);
			if q0 > 0 {
				w.o.stats.inc("probe/both_queues_waiting");
			}
		}
		check::compare(w.m, w.o, w.accounts, true, &[], &|| format!("block {n}, democracy hook"));
	}

	// Elections.
	let r = guarded(|| Elections::on_initialize(n));
	match r {
		Ok(x) => used = used.saturating_add(x),
		Err(e) => {
			if let Some(w) = w {
				w.o.fail(&["S02", "E04", "E07"], "panic-hook", || format!("block {n}: elections hook panicked: {e}"));
			}
			return Err(e);
		},
	}
	if let Some(w) = w.as_deref_mut() {
		w.m.elections_begin();
		match w.m.last_election {
			_ if TermDuration::get() == 0 || n % TermDuration::get() != 0 => {},
			Some(true) => {
				w.o.stats.inc("probe/election_held");
				w.o.touch(&["E04"]);
			},
			Some(false) => {
				w.o.stats.inc("probe/election_failed");
				w.o.touch(&["E07"]);
			},
			None => w.o.stats.inc("probe/election_without_candidates"),
		}
		check::compare(w.m, w.o, w.accounts, true, &[], &|| format!("block {n}, elections hook"));
	}

	// Scheduler: executes what was approved.
	let log0 = probe::Log::<Rt>::get().len();
	let events0 = System::event_count() as usize;
	let available: BTreeSet<u32> = match &w {
		Some(w) => w
			.m
			.pending
			.iter()
			.filter(|(_, p)| <Preimage as frame_support::traits::QueryPreimage>::have(&p.1))
			.map(|p| *p.0)
			.collect(),
		None => Default::default(),
	};
	match guarded(|| Scheduler::on_initialize(n)) {
		Ok(x) => used = used.saturating_add(x),
		Err(e) => {
			if let Some(w) = w {
				w.o.fail(&["S02", "D04"], "panic-hook", || format!("block {n}: enacting a referendum panicked: {e}"));
			}
			return Err(e);
		},
	}
	if let Some(w) = w.as_deref_mut() {
		enactments(w, n, b.stalled, events0, log0, &available);
	}

	// Calls of users.
	let limit = budget.saturating_sub(budget / 4);
	for l in &b.txs {
		let Some(tx) = txs.get(l) else { continue };
		let info = tx.call.get_dispatch_info();
		let new = used.saturating_add(info.weight);
		let max = if info.class == DispatchClass::Normal { limit } else { budget };
		if new.any_gt(max) {
			if let Some(w) = w.as_deref_mut() {
				w.o.stats.inc("fault/block_full");
			}
			continue;
		}
		let _ = Pays::Yes;
		used = new;
		let (org, ro) = origin(tx.who);
		match w.as_deref_mut() {
			None => {
				guarded(|| {
					let _ = tx.call.clone().dispatch_bypass_filter(ro);
				})?;
			},
			Some(w) => {
				w.included.push(*l);
				watched_call(w, n, org, ro, tx)?;
				if w.o.done() {
					return Ok(());
				}
			},
		}
	}
	if let Some(w) = w.as_deref_mut() {
		for a in w.accounts {
			if w.m.voting.contains_key(a) {
				check::unlocks(w.m, w.o, *a, &|| format!("end of block {n}"));
			}
		}
	}
	Elections::on_finalize(n);
	Democracy::on_finalize(n);
	Ok(())
}

fn watched_call(w: &mut Watch, n: Bn, org: Org, ro: RuntimeOrigin, tx: &Tx) -> Result<(), String> {
	let label = || format!("block {n}, {} calls {}", tx.who, short(&tx.call));
	let tags = base_tags(&tx.call);
	let mut m2 = w.m.clone();
	let exp = m2.apply(org, &tx.call);
	let slash = match &tx.call {
		RuntimeCall::Probe(probe::Call::slash { who, .. }) if org == Org::Root =>
			Some((*who, schedules(*who), <Balances as Inspect<Acc>>::total_balance(who), vesting_lock(*who))),
		_ => None,
	};
	let chain = match guarded(|| tx.call.clone().dispatch_bypass_filter(ro)) {
		Ok(r) => r,
		Err(e) => {
			let mut t = call_tags(&tx.call);
			if matches!(tx.call, RuntimeCall::Balances(_) | RuntimeCall::Vesting(_) | RuntimeCall::Preimage(_)) {
				// A pallet that is not the repository's.
				w.o.stats.inc("harness/panic_of_dependency");
				t.clear();
			}
			if matches!(tx.call, RuntimeCall::Probe(_)) {
				t.extend(["V01", "V02"]);
			}
			w.o.fail(&t, "panic-call", || format!("{}: panicked: {e}", label()));
			return Err(e);
		},
	};
	let ok = chain.is_ok();
	w.o.stats.inc(&format!("op/{}{}", op_name(&tx.call), if ok { "" } else { "!refused" }));
	w.o.th.u(ok as u64);
	match exp {
		Expect::Ok if m2.over_limit => {
			// The known finding, or its repair: the set's own check judges it.
			m2.over_limit = false;
			w.o.stats.inc("probe/candidate_above_limit");
			if ok {
				*w.m = m2;
			}
		},
		Expect::Ok => {
			w.o.check(ok, tags, "refused", || format!("{}: refused ({:?}), it must be accepted", label(), chain.as_ref().err()));
			if ok {
				*w.m = m2;
			}
			if ok {
				touched(w.o, &tx.call);
			}
		},
		Expect::Err(t) => {
			let mut all = tags.to_vec();
			all.extend(t);
			w.o.check(!ok, &all, "accepted", || format!("{}: accepted, it must be refused", label()));
			if !ok {
				// Refused for a reason of its property: the guard was exercised.
				w.o.touch(t);
			}
		},
		Expect::Observe => resync(w.m, w.accounts),
	}
	if let Some((who, before, total, lock)) = slash {
		let slashed = total - <Balances as Inspect<Acc>>::total_balance(&who).min(total);
		let want = slashed_schedules(&before, n, slashed);
		let got = schedules(who);
		if !before.is_empty() && slashed > 0 {
			w.o.stats.inc("probe/slash_of_vesting_account");
			if before.len() > 1 {
				w.o.stats.inc("probe/slash_several_schedules");
			}
			w.o.touch(&["V01", "V02"]);
		}
		if !before.is_empty() {
			w.o.check(
				got.iter().map(|s| s.0).collect::<Vec<_>>() == want.iter().map(|s| s.0).collect::<Vec<_>>(),
				&["V01"],
				"vesting-slash-amount",
				|| format!("{}: slashed {slashed} of schedules {before:?}: now {got:?}, expected {want:?}", label()),
			);
			w.o.check(
				got == want,
				&["V02"],
				"vesting-slash-schedule",
				|| format!("{}: slashed {slashed} of schedules {before:?}: now {got:?}, expected {want:?}", label()),
			);
			let l = vesting_lock(who);
			// Vesting locks what is not vested yet; what has not started yet is locked in full.
			let should: Bal = want.iter().map(|s| s.0).sum();
			w.o.check(l == should, &["V01"], "vesting-slash-lock", || {
				format!("{}: slashed {slashed} of schedules {before:?}: vesting lock {l}, expected {should}", label())
			});
			w.o.check(l <= lock, &["V01"], "vesting-slash-lock-grew", || {
				format!("{}: slashed {slashed} of schedules {before:?}: vesting lock grew from {lock} to {l}", label())
			});
		}
	}
	w.o.th.u(Balances::total_issuance() as u64);
	check::compare(w.m, w.o, w.accounts, false, tags, &label);
	check::unlocks(w.m, w.o, tx.who, &label);
	if let RuntimeCall::Democracy(pallet_democracy::Call::unlock { target }) = &tx.call {
		check::unlocks(w.m, w.o, *target, &label);
	}
	Ok(())
}

fn enactments(w: &mut Watch, n: Bn, stalled: bool, events0: usize, log0: usize, available: &BTreeSet<u32>) {
	use pallet_scheduler::Event as S;
	let at = || format!("block {n}, enactment");
	for (k, e) in System::read_events_no_consensus().enumerate() {
		if k < events0 {
			continue;
		}
		let RuntimeEvent::Scheduler(ev) = &e.event else { continue };
		let mut overweight = false;
		let (id, result) = match ev {
			S::Dispatched { id, result, .. } => (id, Some(result)),
			S::CallUnavailable { id, .. } => (id, None),
			S::PermanentlyOverweight { id, .. } => {
				overweight = true;
				(id, None)
			},
			_ => continue,
		};
		let idx = id.and_then(|x| (0..w.m.ref_count.max(64)).find(|i| check::task_name(*i) == x));
		let Some(idx) = idx else {
			w.o.fail(&["D04"], "enacted-unknown", || format!("{}: something other than a referendum was executed", at()));
			continue;
		};
		let Some((when, prop)) = w.m.pending.get(&idx).cloned() else {
			w.o.fail(&["D04", "D03"], "enacted-not-approved", || {
				format!("{}: referendum {idx} was executed without being approved and waiting", at())
			});
			continue;
		};
		w.o.check(when <= n, &["D04"], "enacted-early", || format!("{}: referendum {idx} executed before block {when}", at()));
		match result {
			None => {
				let ok = match &prop {
					// The scheduler never executes a call heavier than its whole budget.
					p if overweight => too_heavy(w.m, p),
					frame_support::traits::Bounded::Inline(_) => false,
					_ => !available.contains(&idx),
				};
				w.o.check(ok, &["D04"], "enactment-lost", || {
					format!("{}: referendum {idx} ({}) was not executed although its call is available: {ev:?}", at(), w.m.call_of(&prop).map(|c| short(&c)).unwrap_or_default())
				});
				w.m.unavailable.insert(idx);
				w.o.stats.inc(if overweight { "probe/enactment_too_heavy" } else { "fault/preimage_missing_at_enactment" });
			},
			Some(res) => {
				w.m.pending.remove(&idx);
				w.m.unavailable.remove(&idx);
				w.o.stats.inc("probe/enacted");
				if when < n {
					w.o.stats.inc("probe/enacted_late");
				}
				w.o.touch(&["D04"]);
				match w.m.call_of(&prop) {
					None => w.o.stats.inc("harness/unknown_proposal"),
					Some(call) => {
						let mut m2 = w.m.clone();
						let t = base_tags(&call);
						match m2.apply(Org::Root, &call) {
							Expect::Ok => {
								w.o.check(res.is_ok(), t, "enactment-refused", || {
									format!("{}: referendum {idx}, {}: failed with {res:?}", at(), short(&call))
								});
								if res.is_ok() {
									*w.m = m2;
								}
							},
							Expect::Err(_) => {
								w.o.check(res.is_err(), t, "enactment-accepted", || {
									format!("{}: referendum {idx}, {}: succeeded, it must fail", at(), short(&call))
								});
							},
							Expect::Observe => w.o.stats.inc("harness/observe_proposal"),
						}
					},
				}
			},
		}
	}
	if !stalled {
		let over: Vec<u32> = w
			.m
			.pending
			.iter()
			.filter(|(i, (when, p))| *when <= n && !w.m.unavailable.contains(i) && !too_heavy(w.m, p))
			.map(|x| *x.0)
			.collect();
		w.o.check(over.is_empty(), &["D04"], "not-enacted", || {
			format!("{}: approved referenda {over:?} were due and were not executed", at())
		});
	} else {
		w.o.stats.inc("fault/scheduler_stalled");
		if w.m.pending.values().any(|(when, _)| *when <= n) {
			w.o.stats.inc("fault/scheduler_stalled_with_due_work");
		}
	}
	let log = probe::Log::<Rt>::get();
	w.o.check(log == w.m.log, &["D04"], "enactment-log", || {
		format!("{}: calls enacted so far {log:?}, expected {:?}", at(), w.m.log)
	});
	if log.len() > log0 {
		w.o.stats.add("probe/enact_effects", (log.len() - log0) as u64);
	}
	check::compare(w.m, w.o, w.accounts, false, &["D07"], &at);
}

/// The scheduler never executes a call heavier than its whole budget.
fn too_heavy(m: &Model, p: &BCall) -> bool {
	m.call_of(p).map_or(false, |c| c.get_dispatch_info().weight.any_gt(BlockWeights::get().max_block / 2))
}

fn touched(o: &mut Oracle, c: &RuntimeCall) {
	use pallet_democracy::Call as D;
	use pallet_elections_phragmen::Call as E;
	match c {
		RuntimeCall::Democracy(d) => match d {
			D::propose { .. } | D::second { .. } => o.touch(&["D05"]),
			D::cancel_proposal { .. } | D::clear_public_proposals { .. } => o.touch(&["D05"]),
			D::blacklist { .. } | D::veto_external { .. } | D::emergency_cancel { .. } => o.touch(&["D07"]),
			D::fast_track { .. } |
			D::external_propose { .. } |
			D::external_propose_majority { .. } |
			D::external_propose_default { .. } => o.touch(&["D08"]),
			D::set_metadata { .. } => o.touch(&["D09"]),
			D::delegate { .. } | D::undelegate { .. } => o.touch(&["D10"]),
			_ => {},
		},
		RuntimeCall::Elections(e) => match e {
			E::renounce_candidacy { .. } | E::remove_member { .. } => o.touch(&["E05", "E02"]),
			_ => {},
		},
		_ => {},
	}
}

pub fn op_name(c: &RuntimeCall) -> String {
	use frame_support::traits::GetCallName;
	match c {
		RuntimeCall::Democracy(x) => format!("democracy.{}", x.get_call_name()),
		RuntimeCall::Elections(x) => format!("elections.{}", x.get_call_name()),
		RuntimeCall::Balances(x) => format!("balances.{}", x.get_call_name()),
		RuntimeCall::Vesting(x) => format!("vesting.{}", x.get_call_name()),
		RuntimeCall::Preimage(x) => format!("preimage.{}", x.get_call_name()),
		RuntimeCall::Probe(x) => format!("probe.{}", x.get_call_name()),
		_ => "other".into(),
	}
}

pub fn short(c: &RuntimeCall) -> String {
	let s = match c {
		RuntimeCall::Democracy(x) => format!("democracy.{x:?}"),
		RuntimeCall::Elections(x) => format!("elections.{x:?}"),
		RuntimeCall::Balances(x) => format!("balances.{x:?}"),
		RuntimeCall::Vesting(x) => format!("vesting.{x:?}"),
		RuntimeCall::Preimage(x) => format!("preimage.{x:?}"),
		RuntimeCall::Probe(x) => format!("probe.{x:?}"),
		x => format!("{x:?}"),
	};
	s.chars().take(300).collect()
}

pub fn decode_call(hex: &str) -> Option<RuntimeCall> {
	let b = hex::decode(hex).ok()?;
	RuntimeCall::decode(&mut &b[..]).ok()
}
pub fn encode_call(c: &RuntimeCall) -> String {
	hex::encode(c.encode())
}
