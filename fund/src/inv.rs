//! Invariants checked after every step, written from the guarantees and not from the code: they know nothing of the
//! specification in spec.rs.
use crate::{runtime::*, snap::*, spec};
use pallet_funding::{types::*, ParticipationMode};
use polimec_common::migration_types::{MigrationStatus, ParticipationType};
use simcore::Oracle;
use sp_arithmetic::{traits::Saturating, FixedPointNumber};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Book {
	/// escrows whose last units went along with a payment because they were below the minimum balance
	pub dusty: BTreeSet<(u32, u32)>,
	pub first_supply: Option<(u128, BTreeMap<u32, u128>)>,
	/// allocation sold in the auction
	pub auctioned: BTreeMap<u32, u128>,
}

fn stage(s: &Status) -> u8 {
	match s {
		ProjectStatus::Application => 0,
		ProjectStatus::EvaluationRound => 1,
		ProjectStatus::AuctionRound => 2,
		ProjectStatus::CommunityRound(_) => 3,
		ProjectStatus::FundingFailed => 4,
		ProjectStatus::FundingSuccessful => 5,
		ProjectStatus::SettlementStarted(FundingOutcome::Failure) => 6,
		ProjectStatus::SettlementStarted(FundingOutcome::Success) => 7,
		ProjectStatus::SettlementFinished(FundingOutcome::Failure) => 8,
		ProjectStatus::SettlementFinished(FundingOutcome::Success) => 9,
		ProjectStatus::CTMigrationStarted => 10,
		ProjectStatus::CTMigrationFinished => 11,
		#[allow(unreachable_patterns)]
		_ => 99,
	}
}
fn legal(a: u8, b: u8) -> bool {
	matches!(
		(a, b),
		(0, 1) | (1, 2) | (1, 4) | (2, 3) | (3, 4) | (3, 5) | (4, 6) | (5, 7) | (6, 8) | (7, 9) | (9, 10) | (10, 11)
	)
}
const INCOME: [(u8, u64); 3] = [(1, spec::EVAL_D), (2, spec::AUCTION_D), (3, spec::COMMUNITY_D + spec::REMAINDER_D)];

pub fn check(o: &mut Oracle, pre: &Snap, s: &Snap, book: &mut Book, now: u64, tainted: &mut BTreeSet<u32>) {
	// ---- F01: nothing appears, nothing vanishes
	if book.first_supply.is_none() {
		book.first_supply = Some((pre.issuance, pre.fa_supply.clone()));
	}
	let (iss, fas) = book.first_supply.clone().unwrap();
	let total: u128 = s.plmc.values().map(|p| p.free + p.eval + p.part + p.other).sum();
	o.check(total == s.issuance && s.issuance == iss, &["F01"], "PLMC total", || {
		format!("accounts hold {total}, issuance {}, at first {iss}", s.issuance)
	});
	let mut sums: BTreeMap<u32, u128> = BTreeMap::new();
	for ((id, _), v) in &s.fa {
		*sums.entry(*id).or_default() += v;
	}
	for (id, v) in &fas {
		let x = sums.get(id).copied().unwrap_or(0);
		o.check(x == *v && s.fa_supply.get(id) == Some(v), &["F01"], "funding asset total", || {
			format!("asset {id}: accounts hold {x}, at first {v}")
		});
	}
	let mut cts: BTreeMap<u32, u128> = BTreeMap::new();
	for ((id, _), v) in &s.ct {
		*cts.entry(*id).or_default() += v;
	}
	for (pid, sup) in &s.ct_supply {
		let x = cts.get(pid).copied().unwrap_or(0);
		o.check(x == *sup, &["F01"], "contribution token total", || format!("project {pid}: {x} of {sup}"));
	}

	// ---- F02, F13: every bond on hold is owed to something
	let mut eval: BTreeMap<A, u128> = BTreeMap::new();
	for (k, e) in &s.evals {
		*eval.entry(k.1).or_default() += e.current_plmc_bond;
	}
	let (mut lo, mut hi): (BTreeMap<A, u128>, BTreeMap<A, u128>) = Default::default();
	let mut otm: BTreeMap<u32, u128> = BTreeMap::new();
	let bonds = s
		.bids
		.iter()
		.map(|(k, b)| (k, b.mode, b.plmc_bond))
		.chain(s.cons.iter().map(|(k, c)| (k, c.mode, c.plmc_bond)));
	for (k, m, b) in bonds {
		if m == ParticipationMode::OTM {
			*otm.entry(k.0).or_default() += b;
		} else {
			*lo.entry(k.1).or_default() += b;
			*hi.entry(k.1).or_default() += b;
		}
	}
	for ((a, r), v) in &s.sched {
		if *r == 1 {
			for x in v {
				*lo.entry(*a).or_default() += spec::locked_at(x, now);
				*hi.entry(*a).or_default() += x.0;
			}
		}
	}
	for (a, p) in &s.plmc {
		if *a >= BOND && *a < BOND + MAXP {
			continue;
		}
		let e = eval.get(a).copied().unwrap_or(0);
		o.check(p.eval == e, &["F02", "F13"], "evaluation bonds", || format!("{a} has {} on hold, its evaluations say {e}", p.eval));
		let (l, h) = (lo.get(a).copied().unwrap_or(0), hi.get(a).copied().unwrap_or(0));
		o.check(l <= p.part && p.part <= h, &["F02"], "participation bonds", || {
			format!("{a} has {} on hold, its participations and schedules say {l}..={h}", p.part)
		});
		o.check(p.other == 0, &["F02"], "unknown hold", || format!("{a}: {p:?}"));
		if l > 0 || e > 0 {
			o.touch(&["F02"]);
		}
	}

	// ---- F03: the escrow of a project holds what its unsettled participations paid
	let mut owed: BTreeMap<(u32, u32), u128> = BTreeMap::new();
	for (k, b) in &s.bids {
		*owed.entry((k.0, b.funding_asset.id())).or_default() += b.funding_asset_amount_locked;
	}
	for (k, c) in &s.cons {
		*owed.entry((k.0, c.funding_asset.id())).or_default() += c.funding_asset_amount;
	}
	for pid in s.det.keys() {
		for id in [DOT, USDC, USDT] {
			let w = owed.get(&(*pid, id)).copied().unwrap_or(0);
			let x = s.asset(id, ESC + *pid as u16);
			if book.dusty.contains(&(*pid, id)) {
				continue;
			}
			if x == 0 && w > 0 && w < fa_min(id) {
				// fewer units than an account may hold: they left with the payment before
				book.dusty.insert((*pid, id));
				tainted.insert(*pid);
				o.stats.inc("probe/known:escrow-dust");
				if o.prop == "F03" {
					if o.known_ids.contains("escrow-dust") {
						o.known.insert("escrow-dust".into());
					} else {
						o.fail(&["F03"], "escrow-dust", || format!("{w} units of asset {id} owed by project {pid} went to somebody else"));
					}
				}
				continue;
			}
			if w > 0 {
				o.touch(&["F03"]);
			}
			o.check(x == w, &["F03"], "escrow", || format!("project {pid} holds {x} of asset {id} for participations worth {w}"));
		}
		// ---- P01: the treasury's bonds behind one token model participations
		let b = s.part(BOND + *pid as u16);
		let w = otm.get(pid).copied().unwrap_or(0);
		let st = stage(&s.det[pid].status);
		if st < 6 {
			if w > 0 {
				o.touch(&["P01"]);
			}
			// (settled before: bids rejected in the auction, whose bond stays here until the end)
			o.check(b >= w && (st > 2 || b == w), &["P01"], "treasury bonds", || format!("project {pid}: {b} on hold for participations worth {w}"));
		} else if st == 7 && matches!(s.rel.get(pid), Some(Rel::Locked(t)) if *t > now) {
			o.check(b >= w, &["P01"], "treasury bonds", || format!("project {pid}: {b} on hold for participations worth {w}"));
		}
		if matches!(s.rel.get(pid), Some(Rel::Locked(t)) if *t > now) {
			o.check(b >= pre.part(BOND + *pid as u16) || st < 6, &["P01"], "treasury bonds released early", || {
				format!("project {pid}: from {} to {b}", pre.part(BOND + *pid as u16))
			});
		}
	}

	for (pid, d) in &s.det {
		let m = &s.meta[pid];
		let range = (*pid, 0, 0)..=(*pid, A::MAX, u32::MAX);
		let st = stage(&d.status);
		// ---- F05: only legal moves, at legal times
		if let Some(p) = pre.det.get(pid) {
			let a = stage(&p.status);
			if a != st {
				o.touch(&["F05"]);
				o.stats.inc(&format!("probe/stage_{a}_to_{st}"));
				o.check(legal(a, st), &["F05"], "illegal transition", || format!("project {pid}: {:?} to {:?}", p.status, d.status));
				for (x, len) in INCOME {
					if a == x && st != x {
						let start = p.round_duration.start().unwrap_or(0);
						let over = start + len - 1 <= now;
						o.check(over || (a == 3 && p.remaining_contribution_tokens == 0), &["F05"], "round cut short", || {
							format!("project {pid}: {:?} began at {start}, over at {now}", p.status)
						});
					}
				}
				if (a, st) == (3, 4) || (a, st) == (3, 5) {
					// ---- F07: success from a third of the target
					let third = d.funding_amount_reached_usd as f64 / d.fundraising_target_usd as f64;
					let fine = if st == 5 { third > 0.33 - 1e-9 } else { third < 0.33 + 1e-9 };
					o.check(fine, &["F07"], "wrong outcome", || format!("project {pid} reached {third} of its target: {:?}", d.status));
					o.touch(&["F07"]);
				}
				if (a, st) == (2, 3) {
					auction(o, s, pid, book);
				}
			}
			o.check(
				a == 0 || (pre.meta.get(pid) == Some(m) && p.fundraising_target_usd == d.fundraising_target_usd && p.issuer_did == d.issuer_did),
				&["F05"],
				"terms changed after the start",
				|| format!("project {pid}"),
			);
		} else {
			o.check(st == 0, &["F05"], "illegal start", || format!("project {pid}: {:?}", d.status));
		}
		// ---- F10: one active project for each issuer
		let did = did_num(&d.issuer_did);
		if st <= 3 {
			o.check(s.active.get(&did) == Some(pid), &["F10"], "active project of the issuer", || {
				format!("project {pid} of {did} is active, the register says {:?}", s.active.get(&did))
			});
		} else {
			o.check(s.active.get(&did) != Some(pid), &["F10", "F05"], "finished project keeps its issuer", || format!("project {pid} of {did}"));
		}
		// ---- F13
		let total = d.evaluation_round_info.total_bonded_usd;
		if st == 1 {
			let early: u128 = s.evals.range(range.clone()).map(|x| x.1.early_usd_amount).sum();
			let late: u128 = s.evals.range(range.clone()).map(|x| x.1.late_usd_amount).sum();
			let plmc: u128 = s.evals.range(range.clone()).map(|x| x.1.original_plmc_bond).sum();
			let cap = d.fundraising_target_usd / 10 + 1;
			o.check(
				early + late == total && early <= cap && (late == 0 || early + 1 >= cap) && plmc == d.evaluation_round_info.total_bonded_plmc,
				&["F13"],
				"evaluation totals",
				|| format!("project {pid}: early {early} late {late} of {total}, {plmc} PLMC; the early part ends at {cap}"),
			);
		}
		// ---- F04: prices follow the buckets
		if st == 2 {
			let mut bids: Vec<&BidI> = s.bids.range(range.clone()).map(|x| x.1).collect();
			bids.sort_by_key(|b| b.id);
			let size = m.auction_round_allocation_percentage * m.total_allocation_size;
			let tenth = sp_arithmetic::Percent::from_percent(10) * size;
			let step = m.minimum_price.saturating_mul(P::saturating_from_rational(1, 10));
			let mut sold: BTreeMap<P, u128> = BTreeMap::new();
			let mut last = m.minimum_price;
			for b in &bids {
				o.check(b.original_ct_usd_price >= last, &["F04"], "a later bid is cheaper", || format!("bid {} of project {pid}", b.id));
				last = b.original_ct_usd_price;
				*sold.entry(last).or_default() += b.original_ct_amount;
				o.check(b.status == BidStatus::YetUnknown, &["F06"], "bid decided early", || format!("bid {}", b.id));
			}
			let mut price = m.minimum_price;
			let n = sold.len();
			for (i, (p, x)) in sold.iter().enumerate() {
				let room = if i == 0 { size } else { tenth };
				o.check(*p == price, &["F04"], "price off the ladder", || format!("project {pid}: {p:?} instead of {price:?}"));
				o.check(*x == room || (i + 1 == n && *x <= room), &["F04"], "bucket", || {
					format!("project {pid}: {x} sold at {p:?}, the bucket holds {room}")
				});
				price = price.saturating_add(step);
			}
			if n > 1 {
				o.touch(&["F04"]);
			}
			let mut by_did: BTreeMap<u8, u128> = BTreeMap::new();
			for b in &bids {
				*by_did.entry(did_num(&b.did)).or_default() += b.original_ct_usd_price.saturating_mul_int(b.original_ct_amount);
			}
			for (x, usd) in by_did {
				let t = &m.bidding_ticket_sizes;
				let cap = match (t.institutional.usd_maximum_per_did, t.professional.usd_maximum_per_did) {
					(Some(a), Some(b)) => a.max(b),
					_ => u128::MAX,
				};
				o.check(usd <= cap, &["F10"], "one person bought too much in the auction", || format!("DID {x}: {usd} of {cap}"));
			}
		}
		// ---- F14: never more tokens than there are
		if st == 3 {
			let won: u128 = s.bids.range(range.clone()).map(|x| spec::final_ct(x.1)).sum();
			let won = won.max(book.auctioned.get(pid).copied().unwrap_or(0));
			let bought: u128 = s.cons.range(range.clone()).map(|x| x.1.ct_amount).sum();
			o.check(won + bought + d.remaining_contribution_tokens == m.total_allocation_size, &["F14", "F06"], "allocation", || {
				format!("project {pid}: {won} auctioned, {bought} contributed, {} left of {}", d.remaining_contribution_tokens, m.total_allocation_size)
			});
			let mut by_did: BTreeMap<u8, u128> = BTreeMap::new();
			for (_, c) in s.cons.range(range.clone()) {
				*by_did.entry(did_num(&c.did)).or_default() += c.usd_contribution_amount;
				if let Some(ProjectStatus::CommunityRound(rem)) = pre.det.get(pid).map(|d| d.status.clone()) {
					if !pre.cons.contains_key(&(*pid, num(&c.contributor), c.id)) && now < rem {
						o.touch(&["F14"]);
						o.check(!s.winning.contains_key(&(*pid, did_num(&c.did))), &["F14"], "winner in the community round", || {
							format!("DID {} of project {pid}", did_num(&c.did))
						});
					}
				}
			}
			for (x, usd) in by_did {
				let t = &m.contributing_ticket_sizes;
				let cap = [&t.institutional, &t.professional, &t.retail]
					.iter()
					.map(|t| t.usd_maximum_per_did.unwrap_or(u128::MAX))
					.max()
					.unwrap_or(u128::MAX);
				o.check(usd <= cap, &["F10"], "one person bought too much", || format!("DID {x}: {usd} of {cap}"));
			}
		}
		// ---- F08, F07: tokens minted are tokens earned
		if st >= 7 && st != 8 {
			if let Some(sup) = s.ct_supply.get(pid) {
				let (mut sold, mut rew, mut users) = (0u128, 0u128, 0u128);
				let mut ids = BTreeSet::new();
				for ((_, a), (_, v)) in s.mig.range((*pid, 0)..=(*pid, A::MAX)) {
					let mut mine = 0;
					for x in v {
						let n = x.info.contribution_token_amount;
						mine += n;
						if x.origin.participation_type == ParticipationType::Evaluation {
							rew += n
						} else {
							sold += n
						}
						let t = format!("{:?}", x.origin.participation_type);
						o.check(ids.insert((t, x.origin.id)), &["F08"], "settled twice", || format!("{:?} of {a}", x.origin));
					}
					users += mine;
					let have = s.ct.get(&(*pid, *a)).copied().unwrap_or(0);
					o.check(have == mine || *a == CTT, &["F08"], "tokens and migrations differ", || {
						format!("{a} holds {have} of project {pid}, to migrate {mine}")
					});
				}
				let t = s.ct.get(&(*pid, CTT)).copied().unwrap_or(0);
				o.check(users + t == *sup, &["F01", "F08"], "unearned tokens", || format!("project {pid}: {users}+{t} of {sup}"));
				o.check(sold + d.remaining_contribution_tokens <= m.total_allocation_size, &["F08"], "oversold", || {
					format!("project {pid} gave out {sold} of {}, {} unsold", m.total_allocation_size, d.remaining_contribution_tokens)
				});
				let sold_all = m.total_allocation_size - d.remaining_contribution_tokens;
				let fee = sold_all as f64 * fee_share(d.funding_amount_reached_usd);
				o.check((t as f64) <= fee * 0.7 * 1.000001 + 2.0 && (t as f64) >= fee * 0.7 * 0.999999 - 2.0, &["F07"], "treasury tokens", || {
					format!("project {pid}: {t}, seven tenths of the fee of {fee} were due")
				});
				o.check((rew as f64) <= fee * 0.3 * 1.000001 + 100.0, &["F08", "F07"], "rewards exceed their pot", || {
					format!("project {pid}: {rew} of {}", fee * 0.3)
				});
			}
		}
		if st == 6 || st == 8 {
			o.check(!s.ct_supply.contains_key(pid), &["F08"], "tokens of a failed project", || format!("project {pid}"));
		}
		if st == 8 || st >= 9 {
			let none = s.evals.range(range.clone()).next().is_none() &&
				s.bids.range(range.clone()).next().is_none() &&
				s.cons.range(range.clone()).next().is_none();
			o.check(none, &["F08", "F09"], "settled with participations left", || format!("project {pid}"));
		}
		// ---- F11: the counter of unfinished migrations
		let open = s.mig.range((*pid, 0)..=(*pid, A::MAX)).filter(|x| x.1 .0 != MigrationStatus::Confirmed).count() as u32;
		let c = s.unmig.get(pid).copied().unwrap_or(0);
		o.check(open == c, &["F11"], "counter of unfinished migrations", || format!("project {pid}: {open} open, counter {c}"));
		if st == 11 {
			o.check(open == 0, &["F11"], "finished with open migrations", || format!("project {pid}: {open}"));
		}
	}
	// a confirmed migration stays confirmed
	for (k, (st, v)) in &pre.mig {
		match s.mig.get(k) {
			Some((n, w)) => o.check(
				(*st != MigrationStatus::Confirmed || *n == MigrationStatus::Confirmed) && w.starts_with(v),
				&["F11"],
				"migration lost",
				|| format!("{k:?}: {st:?} to {n:?}"),
			),
			None => o.fail(&["F11"], "migration lost", || format!("{k:?}")),
		}
	}
	// ---- F15
	for d in pre.dispensed.keys() {
		o.check(s.dispensed.contains_key(d), &["F15"], "forgot who was served", || format!("DID {d}"));
	}
	if s.dispensed.len() > pre.dispensed.len() {
		o.touch(&["F15"]);
		let paid = pre.free(DISP) - s.free(DISP);
		o.check(s.dispensed.len() == pre.dispensed.len() + 1 && paid == pre.dispense_amount, &["F15"], "dispensed", || {
			format!("{paid} for {} DIDs", s.dispensed.len() - pre.dispensed.len())
		});
	} else {
		o.check(s.free(DISP) >= pre.free(DISP), &["F15"], "dispenser lost money", || format!("{} {}", pre.free(DISP), s.free(DISP)));
	}
}

/// Share of the sold tokens that is the fee, by the brackets in whole USD.
fn fee_share(reached: u128) -> f64 {
	let x = reached as f64 / 1e6;
	if x == 0.0 {
		return 0.0;
	}
	let a = x.min(1e6);
	let b = (x - a).min(4e6);
	let c = x - a - b;
	(a * 0.10 + b * 0.08 + c * 0.06) / x
}

fn auction(o: &mut Oracle, s: &Snap, pid: &u32, book: &mut Book) {
	let m = &s.meta[pid];
	let d = &s.det[pid];
	let size = m.auction_round_allocation_percentage * m.total_allocation_size;
	let bids: Vec<&BidI> = s.bids.range((*pid, 0, 0)..=(*pid, A::MAX, u32::MAX)).map(|x| x.1).collect();
	let asked: u128 = bids.iter().map(|b| b.original_ct_amount).sum();
	let won: u128 = bids.iter().map(|b| spec::final_ct(b)).sum();
	book.auctioned.insert(*pid, won);
	if !bids.is_empty() {
		o.touch(&["F06"]);
	}
	o.check(won == asked.min(size), &["F06"], "tokens auctioned", || format!("project {pid}: {won} given for {asked} asked of {size}"));
	o.check(bids.iter().filter(|b| matches!(b.status, BidStatus::PartiallyAccepted(_))).count() <= 1, &["F06"], "partial bids", || {
		format!("project {pid}")
	});
	for a in &bids {
		for b in &bids {
			// b is before a: dearer, or as dear and older
			let before = b.original_ct_usd_price > a.original_ct_usd_price || (b.original_ct_usd_price == a.original_ct_usd_price && b.id < a.id);
			if before && spec::final_ct(a) > 0 {
				o.check(b.status == BidStatus::Accepted, &["F06"], "a worse bid won", || {
					format!("project {pid}: bid {} won, the better bid {} has {:?}", a.id, b.id, b.status)
				});
			}
		}
	}
	let wap = d.weighted_average_price.unwrap_or_default();
	let top = bids.iter().map(|b| b.original_ct_usd_price).max().unwrap_or(m.minimum_price);
	// the average of what was paid, computed from the winning bids instead of the buckets
	if asked > size {
		o.touch(&["F06"]);
		let (mut n, mut den) = (0f64, 0f64);
		for b in &bids {
			let p = b.original_ct_usd_price.into_inner() as f64;
			let c = spec::final_ct(b) as f64;
			n += p * p * c;
			den += p * c;
		}
		let mean = if den > 0.0 { n / den } else { 0.0 };
		let w = wap.into_inner() as f64;
		o.check((w - mean).abs() <= mean * 1e-6 + 16.0, &["F06"], "weighted average price", || {
			format!("project {pid}: {w}, the winning bids say {mean}")
		});
	} else {
		o.check(wap == m.minimum_price, &["F06"], "price without competition", || format!("project {pid}: {wap:?}"));
	}
	o.check(wap >= m.minimum_price && wap <= top.max(m.minimum_price), &["F06"], "price out of range", || format!("project {pid}: {wap:?}"));
	for b in &bids {
		let w = s.winning.contains_key(&(*pid, did_num(&b.did)));
		let any = bids.iter().any(|x| x.did == b.did && spec::final_ct(x) > 0);
		o.check(w == any, &["F06", "F14"], "register of winners", || format!("project {pid}, DID {}", did_num(&b.did)));
	}
}
