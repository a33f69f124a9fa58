//! Compares what the chain shows with what the reference model says it must show.
use crate::{model::*, runtime::*};
use frame_support::{
	storage::{with_transaction, TransactionOutcome},
	traits::{
		fungible::{Inspect, InspectFreeze, InspectHold},
		schedule::v3::Named,
	},
};
use pallet_democracy::{AccountVote, MetadataOwner, ReferendumInfo, Voting};
use parity_scale_codec::Encode;
use simcore::Oracle;
use std::collections::{BTreeMap, BTreeSet};

/// elections.submit_candidacy accepts one candidate more than MaxCandidates.
pub const KNOWN_MAX_CANDIDATES: &str = "max-candidates-plus-one";
const KNOWN_TEXT: &str =
	"max-candidates-plus-one: elections.submit_candidacy with exactly MaxCandidates candidates standing is accepted: one more than the limit";

type D = Democracy;
type E = Elections;

pub fn task_name(i: u32) -> [u8; 32] {
	let mut n = [0u8; 32];
	n[..8].copy_from_slice(b"democrac");
	n[8..12].copy_from_slice(&i.to_le_bytes());
	n
}

/// What `unlock` would leave frozen at block `at`, without changing anything.
pub fn dry_unlock(who: Acc, at: Bn) -> Option<Bal> {
	with_transaction(|| {
		let now = System::block_number();
		System::set_block_number(at);
		let r = D::unlock(RuntimeOrigin::signed(who), who);
		let f = Balances::balance_frozen(&pallet_democracy::FreezeReason::Vote.into(), &who);
		System::set_block_number(now);
		TransactionOutcome::Rollback(Ok::<_, sp_runtime::DispatchError>(r.ok().map(|_| f)))
	})
	.unwrap_or(None)
}

/// Everything the democracy and elections pallets show. `hook` says whether the step was the start
/// of a block rather than a call.
pub fn compare(m: &Model, o: &mut Oracle, accounts: &[Acc], hook: bool, call: Tags, at: &dyn Fn() -> String) {
	democracy(m, o, accounts, hook, call, at);
	elections(m, o, accounts, at);
	money(m, o, accounts, at);
}

fn democracy(m: &Model, o: &mut Oracle, accounts: &[Acc], hook: bool, call: Tags, at: &dyn Fn() -> String) {
	let now = m.now;
	let t_new: Tags = if hook { &["D06"] } else { &["D08", "D06"] };
	let rc = pallet_democracy::ReferendumCount::<Rt>::get();
	o.check(rc == m.ref_count, t_new, "referendum-count", || format!("{}: {} referenda, expected {}", at(), rc, m.ref_count));
	for i in 0..rc.max(m.ref_count) {
		let c = pallet_democracy::ReferendumInfoOf::<Rt>::get(i);
		match (&c, m.refs.get(&i)) {
			(None, None) => {},
			(Some(ReferendumInfo::Ongoing(s)), Some(Ref::Ongoing { end, prop, thr, delay })) => {
				let t: Tags = if hook { &["D03", "D06"] } else { &["D03", "D08"] };
				o.check(
					s.end == *end && s.proposal == *prop && s.threshold == *thr && s.delay == *delay,
					t,
					"referendum-terms",
					|| {
						format!(
							"{}: referendum {i}: end {} threshold {:?} delay {}, expected end {} threshold {:?} delay {} (same proposal: {})",
							at(), s.end, s.threshold, s.delay, end, thr, delay, s.proposal == *prop
						)
					},
				);
				let (a, n, t) = m.tally(i);
				o.check(
					s.tally.ayes == a && s.tally.nays == n && s.tally.turnout == t,
					&["D01", "D10"],
					"tally",
					|| {
						format!(
							"{}: referendum {i}: tally {:?}, the votes and delegations add up to ayes {a} nays {n} turnout {t}",
							at(), s.tally
						)
					},
				);
				if a + n > 0 {
					o.touch(&["D01"]);
				}
			},
			(Some(ReferendumInfo::Finished { approved, end }), Some(Ref::Finished { end: e, approved: a })) => {
				o.check(approved == a && end == e, &["D03"], "referendum-outcome", || {
					format!("{}: referendum {i}: approved {approved} at {end}, expected approved {a} at {e}", at())
				});
			},
			(c, m) => {
				let t: Tags = if m.is_none() || c.is_none() { &["D07", "D03", "D08"] } else { &["D03"] };
				o.fail(t, "referendum-status", || {
					format!("{}: referendum {i}: the chain says {c:?}, expected {m:?}", at())
				})
			},
		}
	}
	// Public proposals and their backing.
	let pp = pallet_democracy::PublicProps::<Rt>::get();
	let cp: BTreeMap<u32, (BCall, Acc)> = pp.iter().map(|(i, c, a)| (*i, (c.clone(), *a))).collect();
	let t: Tags = if hook {
		&["D06"]
	} else if call.contains(&"D07") {
		&["D07", "D05"]
	} else {
		&["D05"]
	};
	o.check(cp == m.props && pp.len() == m.props.len(), t, "public-proposals", || {
		format!("{}: queued proposals {:?}, expected {:?}", at(), cp.keys().collect::<Vec<_>>(), m.props.keys().collect::<Vec<_>>())
	});
	let pc = pallet_democracy::PublicPropCount::<Rt>::get();
	o.check(pc == m.prop_count, &["D05"], "proposal-count", || format!("{}: {} proposals, expected {}", at(), pc, m.prop_count));
	for i in 0..pc.max(m.prop_count) {
		let c = pallet_democracy::DepositOf::<Rt>::get(i).map(|(w, a)| {
			let mut w = w.into_inner();
			w.sort();
			(w, a)
		});
		let e = m.deposits.get(&i).map(|(w, a)| {
			let mut w = w.clone();
			w.sort();
			(w, *a)
		});
		o.check(c == e, &["D05"], "proposal-backers", || format!("{}: proposal {i}: backers {c:?}, expected {e:?}", at()));
	}
	let ne = pallet_democracy::NextExternal::<Rt>::get();
	let t: Tags = if hook { &["D06"] } else { &["D08", "D07"] };
	o.check(ne == m.next_ext, t, "next-external", || format!("{}: next external {ne:?}, expected {:?}", at(), m.next_ext));
	let le = pallet_democracy::LastTabledWasExternal::<Rt>::get();
	o.check(le == m.last_ext, &["D06"], "last-tabled", || format!("{}: last tabled was external {le}, expected {}", at(), m.last_ext));
	let bl: BTreeMap<_, (Bn, BTreeSet<Acc>)> = pallet_democracy::Blacklist::<Rt>::iter()
		.map(|(h, (u, w))| (h, (u, w.into_iter().collect())))
		.collect();
	o.check(bl == m.blacklist, &["D07"], "blacklist", || format!("{}: blacklist {bl:?}, expected {:?}", at(), m.blacklist));
	let ca: BTreeSet<_> =
		pallet_democracy::Cancellations::<Rt>::iter().filter(|x| x.1).map(|x| x.0).collect();
	o.check(ca == m.cancelled, &["D07"], "cancellations", || format!("{}: cancelled {ca:?}, expected {:?}", at(), m.cancelled));
	let me: BTreeMap<Vec<u8>, _> = pallet_democracy::MetadataOf::<Rt>::iter()
		.map(|(k, v): (MetadataOwner, _)| (k.encode(), v))
		.collect();
	o.check(me == m.meta, &["D09"], "metadata", || format!("{}: metadata of {:?}, expected {:?}", at(), me.keys(), m.meta.keys()));

	for a in accounts {
		let v = pallet_democracy::VotingOf::<Rt>::get(a);
		let (cd, same, what) = match (&v, m.voting.get(a).map(|v| &v.k)) {
			(Voting::Direct { votes, delegations, .. }, k) => {
				let empty = BTreeMap::new();
				let mv = match k {
					Some(Vk::Direct(mv)) => Some(mv),
					None => Some(&empty),
					_ => None,
				};
				let cv: BTreeMap<u32, AccountVote<Bal>> = votes.iter().cloned().collect();
				(*delegations, mv.map_or(false, |mv| *mv == cv && cv.len() == votes.len()), format!("votes {cv:?}"))
			},
			(Voting::Delegating { balance, target, conviction, delegations, .. }, k) => (
				*delegations,
				matches!(k, Some(Vk::Deleg { target: t, conv, bal }) if t == target && conv == conviction && bal == balance),
				format!("delegating {balance} {conviction:?} to {target}"),
			),
		};
		o.check(same, &["D10", "D01"], "vote-record", || {
			format!("{}: account {a}: {what}, expected {:?}", at(), m.voting.get(a).map(|v| &v.k))
		});
		let (dv, dc) = m.delegations(*a);
		o.check(cd.votes == dv && cd.capital == dc, &["D10", "D01"], "delegations", || {
			format!("{}: account {a}: delegated to it {cd:?}, the delegations add up to votes {dv} capital {dc}", at())
		});
		let f = Balances::balance_frozen(&pallet_democracy::FreezeReason::Vote.into(), a);
		let e = m.dfrozen.get(a).copied().unwrap_or(0);
		o.check(f == e, &["D02"], "vote-freeze", || format!("{}: account {a}: {f} frozen for votes, expected {e}", at()));
		let h = Balances::balance_on_hold(&pallet_democracy::HoldReason::Proposal.into(), a);
		let e = m.dheld(*a);
		o.check(h == e, &["D05"], "proposal-hold", || {
			format!("{}: account {a}: {h} on hold for proposals, the proposals it backs need {e}", at())
		});
		// Never less frozen than votes and delegations in force need.
		let need = match m.voting.get(a).map(|v| &v.k) {
			Some(Vk::Direct(mv)) => mv
				.iter()
				.filter(|(r, _)| m.ongoing(**r))
				.map(|(_, v)| match v {
					AccountVote::Standard { balance, .. } => *balance,
					AccountVote::Split { aye, nay } => aye + nay,
				})
				.max()
				.unwrap_or(0),
			Some(Vk::Deleg { bal, .. }) => *bal,
			None => 0,
		};
		o.check(f >= need, &["D02"], "vote-underlocked", || {
			format!("{}: account {a}: {f} frozen, its live votes or delegation use {need}", at())
		});
		if need > 0 {
			o.touch(&["D02", "D10"]);
		}
	}
	for (i, (when, _)) in &m.pending {
		if *when > now {
			let t = <Scheduler as Named<Bn, RuntimeCall, OriginCaller>>::next_dispatch_time(task_name(*i)).ok();
			o.check(t == Some(*when), &["D04"], "enactment-time", || {
				format!("{}: approved referendum {i} is to be enacted at {t:?}, expected {when}", at())
			});
		}
	}
}

/// Unlock now and at the model's boundaries of the account's lock.
pub fn unlocks(m: &Model, o: &mut Oracle, a: Acc, at: &dyn Fn() -> String) {
	let mut when = vec![m.now];
	if let Some(v) = m.voting.get(&a) {
		if v.until > m.now {
			when.push(v.until - 1);
			when.push(v.until);
		}
	}
	when.dedup();
	for w in when {
		let got = dry_unlock(a, w);
		let e = m.lock_needed(a, w);
		o.check(got == Some(e), &["D02"], "unlock", || {
			format!("{}: account {a}: an unlock at block {w} would leave {got:?} frozen, expected {e}", at())
		});
	}
}

fn elections(m: &Model, o: &mut Oracle, accounts: &[Acc], at: &dyn Fn() -> String) {
	let seat = |s: &pallet_elections_phragmen::SeatHolder<Acc, Bal>| Seat { who: s.who, stake: s.stake, deposit: s.deposit };
	let me: Vec<Seat> = pallet_elections_phragmen::Members::<Rt>::get().iter().map(seat).collect();
	let ru: Vec<Seat> = pallet_elections_phragmen::RunnersUp::<Rt>::get().iter().map(seat).collect();
	let ca = pallet_elections_phragmen::Candidates::<Rt>::get();
	let who = |v: &[Seat]| v.iter().map(|s| s.who).collect::<Vec<_>>();
	o.check(who(&me) == who(&m.members), &["E04", "E05", "E07"], "members", || {
		format!("{}: members {:?}, expected {:?}", at(), who(&me), who(&m.members))
	});
	o.check(who(&ru) == who(&m.runners), &["E04", "E05", "E07"], "runners-up", || {
		format!("{}: runners-up {:?}, expected {:?}", at(), who(&ru), who(&m.runners))
	});
	let stakes = |v: &[Seat]| v.iter().map(|s| s.stake).collect::<Vec<_>>();
	o.check(stakes(&me) == stakes(&m.members) && stakes(&ru) == stakes(&m.runners), &["E04"], "backing", || {
		format!("{}: backing {me:?} {ru:?}, expected {:?} {:?}", at(), m.members, m.runners)
	});
	let deps = |v: &[Seat]| v.iter().map(|s| s.deposit).collect::<Vec<_>>();
	o.check(deps(&me) == deps(&m.members) && deps(&ru) == deps(&m.runners), &["E02"], "seat-deposit", || {
		format!("{}: deposits {me:?} {ru:?}, expected {:?} {:?}", at(), m.members, m.runners)
	});
	let cm: BTreeMap<Acc, Bal> = ca.iter().cloned().collect();
	o.check(
		cm.keys().eq(m.cands.keys()) && cm.len() == ca.len(),
		&["E01", "E05", "E07"],
		"candidates",
		|| format!("{}: candidates {ca:?}, expected {:?}", at(), m.cands),
	);
	o.check(cm == m.cands, &["E02"], "candidate-deposit", || format!("{}: candidates {ca:?}, expected {:?}", at(), m.cands));
	// Well-formedness on its own, without the model.
	let mut all: Vec<Acc> = who(&me);
	all.extend(who(&ru));
	all.extend(ca.iter().map(|c| c.0));
	let n = all.len();
	all.sort();
	all.dedup();
	let over = ca.len() as u32 == MaxCandidates::get() + 1;
	let known_over = over && o.known_ids.contains(KNOWN_MAX_CANDIDATES);
	if known_over && o.prop == "E01" {
		o.known.insert(KNOWN_TEXT.into());
	}
	let sorted = |v: Vec<Acc>| v.windows(2).all(|w| w[0] < w[1]);
	o.check(
		n == all.len() &&
			sorted(who(&me)) &&
			sorted(ca.iter().map(|c| c.0).collect()) &&
			me.len() <= DesiredMembers::get() as usize &&
			ru.len() <= DesiredRunnersUp::get() as usize &&
			ca.len() <= MaxCandidates::get() as usize + if known_over { 1 } else { 0 },
		&["E01"],
		"set-wellformed",
		|| {
			format!(
				"{}: members {:?} (at most {}), runners-up {:?} (at most {}), candidates {:?} (at most {}) are not sorted, disjoint and within limits",
				at(), who(&me), DesiredMembers::get(), who(&ru), DesiredRunnersUp::get(), ca, MaxCandidates::get()
			)
		},
	);
	let rounds = pallet_elections_phragmen::ElectionRounds::<Rt>::get();
	o.check(rounds == m.rounds, &["E04", "E07"], "rounds", || format!("{}: {rounds} rounds, expected {}", at(), m.rounds));
	let bad = probe::CollBad::<Rt>::get();
	let cw = probe::CollMembers::<Rt>::get();
	o.check(bad == 0 && cw == who(&me), &["E08"], "collective-members", || {
		format!("{}: the collective was told {cw:?} ({bad} inconsistent changes), the members are {:?}", at(), who(&me))
	});
	let pr = probe::CollPrime::<Rt>::get();
	o.check(pr == m.prime, &["E06"], "prime", || format!("{}: prime {pr:?}, expected {:?}", at(), m.prime));
	o.check(pr.map_or(true, |p| me.iter().any(|s| s.who == p)), &["E06", "E08"], "prime-not-member", || {
		format!("{}: prime {pr:?} is not among the members {:?}", at(), who(&me))
	});
	if !me.is_empty() {
		o.touch(&["E01", "E04", "E06", "E08"]);
	}
	if n > 0 {
		o.touch(&["E02"]);
	}
	let vs: BTreeMap<Acc, EVoter> = pallet_elections_phragmen::Voting::<Rt>::iter()
		.map(|(a, v)| (a, EVoter { votes: v.votes, stake: v.stake, till: v.lockup_till }))
		.collect();
	o.check(vs == m.evoters, &["E03"], "election-votes", || format!("{}: votes {vs:?}, expected {:?}", at(), m.evoters));
	if !vs.is_empty() {
		o.touch(&["E03"]);
	}
	for a in accounts {
		let f = Balances::balance_frozen(&pallet_elections_phragmen::FreezeReason::Voting.into(), a);
		let e = m.efrozen.get(a).copied().unwrap_or(0);
		o.check(f == e, &["E03"], "stake-freeze", || format!("{}: account {a}: {f} frozen for elections, expected {e}", at()));
		let s = vs.get(a).map_or(0, |v| v.stake);
		o.check(f == s, &["E03"], "stake-record", || format!("{}: account {a}: {f} frozen, its recorded stake is {s}", at()));
		let h = Balances::balance_on_hold(&pallet_elections_phragmen::HoldReason::Candidacy.into(), a);
		let e = m.cheld(*a);
		o.check(h == e, &["E02"], "candidacy-hold", || {
			format!("{}: account {a}: {h} on hold for candidacies, its candidacy or seat needs {e}", at())
		});
	}
	let _ = E::candidates;
}

fn money(m: &Model, o: &mut Oracle, accounts: &[Acc], at: &dyn Fn() -> String) {
	let mut sum = 0;
	for a in accounts {
		let t = Balances::total_balance(a);
		sum += t;
		let e = m.total(*a);
		o.check(t == e, &["S03", "D05", "E02"], "balance", || format!("{}: account {a} owns {t}, expected {e}", at()));
	}
	let i = Balances::total_issuance();
	o.check(i == sum, &["S03"], "issuance", || format!("{}: issuance {i}, the balances add up to {sum}", at()));
	for a in accounts {
		let h: Bal = Balances::total_balance_on_hold(a);
		let p = Balances::balance_on_hold(&pallet_democracy::HoldReason::Proposal.into(), a) +
			Balances::balance_on_hold(&pallet_elections_phragmen::HoldReason::Candidacy.into(), a) +
			Balances::balance_on_hold(&probe::HoldReason::Other.into(), a);
		o.check(h == p, &["S03"], "holds-add-up", || format!("{}: account {a}: {h} on hold, the reasons add up to {p}", at()));
	}
	o.touch(&["S03", "S02"]);
}
