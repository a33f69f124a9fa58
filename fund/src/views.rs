//! F16: what the read-only interface tells about a state, against the state itself.
use crate::{runtime::*, snap::*, spec};
use pallet_funding::{types::*, Pallet};
use parity_scale_codec::{Decode, Encode};
use polimec_common::credentials::InvestorType;
use simcore::{Oracle, Rng};
use sp_arithmetic::FixedPointNumber;
use std::collections::BTreeMap;
use std::fmt::Debug;

const TAG: &[&str] = &["F16"];
type Api = Pallet<Rt>;

/// `got` must be the greatest of `all` by `key`, in decreasing order.
fn top<T: Clone + PartialEq + Debug, K: Ord + Copy + Debug>(o: &mut Oracle, what: &'static str, all: &[T], got: &[T], n: u32, key: impl Fn(&T) -> K) {
	let mut keys: Vec<K> = all.iter().map(&key).collect();
	keys.sort_by(|a, b| b.cmp(a));
	keys.truncate(n as usize);
	let mine: Vec<K> = got.iter().map(&key).collect();
	let mut left = all.to_vec();
	let known = got.iter().all(|g| left.iter().position(|x| x == g).map(|i| left.swap_remove(i)).is_some());
	o.check(mine == keys && known, TAG, what, || {
		format!("the greatest {n} are {keys:?}, told were {mine:?}{}", if known { "" } else { ", among them what does not exist" })
	});
	if got.len() > 1 && got.len() < all.len() {
		o.stats.inc("probe/view_cut_off");
	}
}

fn f(p: P) -> f64 {
	p.into_inner() as f64 / 1e18
}

/// Tokens that `usd` buys, and by how much rounding may be off.
fn tokens(s: &Snap, pid: u32, usd: f64) -> Option<(f64, f64)> {
	if let Some(w) = s.det[&pid].weighted_average_price {
		return Some((usd / f(w), 1.0 + 1.5 / f(w)));
	}
	let b = s.bucket.get(&pid)?;
	let (mut price, mut left, mut usd, mut got, mut slack) = (f(b.current_price), b.amount_left as f64, usd, 0.0, 1.0 + 1.5 / f(b.current_price));
	for _ in 0..4000 {
		if usd <= left * price {
			return Some((got + usd / price, slack));
		}
		got += left;
		usd -= left * price;
		slack += 1.0 + 1.0 / price;
		price += f(b.delta_price);
		left = b.delta_amount as f64;
	}
	None
}

fn near(got: u128, want: f64, slack: f64) -> bool {
	(got as f64 - want).abs() <= want.abs() * 1e-9 + slack
}

pub fn check(o: &mut Oracle, s: &Snap, now: u64) {
	let mut r = Rng::new(0x5eed ^ (o.step as u64) << 20 ^ now);
	let r = &mut r;
	let pids: Vec<u32> = s.det.keys().copied().collect();
	if pids.is_empty() {
		return;
	}
	let pid = *r.pick(&pids);
	let n = *r.pick(&[0, 1, 2, 3, 5, 100]);
	let of = (pid, 0, 0)..(pid + 1, 0, 0);

	// Leaderboards.
	let all: Vec<Eval> = s.evals.range(of.clone()).map(|x| x.1.clone()).collect();
	top(o, "top evaluations", &all, &Api::top_evaluations(pid, n), n, |e| e.original_plmc_bond);
	let all: Vec<BidI> = s.bids.range(of.clone()).map(|x| x.1.clone()).collect();
	top(o, "top bids", &all, &Api::top_bids(pid, n), n, spec::final_ct);
	let all: Vec<Con> = s.cons.range(of.clone()).map(|x| x.1.clone()).collect();
	top(o, "top contributions", &all, &Api::top_contributions(pid, n), n, |c| c.ct_amount);
	let all: Vec<(u32, Meta, Det)> = s.det.iter().map(|(p, d)| (*p, s.meta[p].clone(), d.clone())).collect();
	top(o, "top projects", &all, &Api::top_projects_by_usd_raised(n), n, |p| p.2.funding_amount_reached_usd);
	let share = |d: &Det| (d.funding_amount_reached_usd as f64 / d.fundraising_target_usd as f64 * 1e9) as u64;
	let got = Api::top_projects_by_usd_target_percent_reached(n);
	top(o, "top projects by share of the target", &all, &got, n, |p| share(&p.2));
	let got = f(Api::usd_target_percent_reached(pid));
	o.check((got * 1e9 - share(&s.det[&pid]) as f64).abs() <= 2.0 + got, TAG, "share of the target", || {
		format!("project {pid}: told {got}, reached {} of {}", s.det[&pid].funding_amount_reached_usd, s.det[&pid].fundraising_target_usd)
	});

	// What belongs to whom.
	let a = *r.pick(&s.plmc.keys().copied().collect::<Vec<A>>());
	let held: Vec<(u32, u128)> = s.ct.iter().filter(|((_, b), _)| *b == a).map(|((p, _), v)| (*p, *v)).collect();
	top(o, "contribution tokens", &held, &Api::contribution_tokens(account(a)), u32::MAX, |x| x.1);
	let d = r.below(12) as u8;
	let mut mine: BTreeMap<Acc, (Vec<u32>, Vec<u32>, Vec<u32>)> = BTreeMap::new();
	for (k, e) in s.evals.range(of.clone()).filter(|x| did_num(&x.1.did) == d) {
		mine.entry(account(k.1)).or_default().0.push(e.id);
	}
	for (k, e) in s.bids.range(of.clone()).filter(|x| did_num(&x.1.did) == d) {
		mine.entry(account(k.1)).or_default().1.push(e.id);
	}
	for (k, e) in s.cons.range(of).filter(|x| did_num(&x.1.did) == d) {
		mine.entry(account(k.1)).or_default().2.push(e.id);
	}
	let mut told: BTreeMap<Acc, (Vec<u32>, Vec<u32>, Vec<u32>)> = BTreeMap::new();
	let mut twice = false;
	for p in Api::all_project_participations_by_did(pid, did(d)) {
		let (a, mut e, mut b, mut c) = <(Acc, Vec<u32>, Vec<u32>, Vec<u32>)>::decode(&mut &p.encode()[..]).expect("same layout");
		e.sort();
		b.sort();
		c.sort();
		twice |= told.insert(a, (e, b, c)).is_some();
	}
	if mine.len() > 1 {
		o.stats.inc("probe/view_person_with_accounts");
	}
	o.check(mine == told && !twice, TAG, "participations of a person", || format!("project {pid}, DID {d}: {mine:?}, told {told:?}"));
	let mut told = Api::projects_by_did(did(d));
	told.sort();
	let mine: Vec<u32> = s.det.iter().filter(|x| did_num(&x.1.issuer_did) == d).map(|x| *x.0).collect();
	o.check(mine == told, TAG, "projects of a person", || format!("DID {d}: {mine:?}, told {told:?}"));

	// What money buys.
	let asset = *r.pick(&[AcceptedFundingAsset::USDT, AcceptedFundingAsset::USDC, AcceptedFundingAsset::DOT]);
	let det = &s.det[&pid];
	let meta = &s.meta[&pid];
	if let (Some(price), Some(plmc)) = (spec::dprice(asset.id()), spec::dprice(3344)) {
		let budget = (det.fundraising_target_usd as f64 * *r.pick(&[1e-7, 1e-5, 0.001, 0.01, 0.05, 0.2, 0.5, 1.0, 2.0]) * (0.5 + r.below(1000) as f64 / 1000.0)) as u128;
		let amount = (budget as f64 / f(price)) as u128;
		let usd = price.saturating_mul_int(amount);
		if let Some((want, slack)) = tokens(s, pid, usd as f64) {
			o.touch(TAG);
			let got = Api::funding_asset_to_ct_amount_classic(pid, asset, amount);
			o.check(near(got, want, slack), TAG, "tokens for an amount", || {
				format!("project {pid}: {amount} of {asset:?} ({usd} USD units) buy {want} tokens (give or take {slack}), told {got}")
			});
		}
		let part = amount as f64 / 1.015;
		if let Some((want, slack)) = tokens(s, pid, part * f(price)) {
			let (got, fee) = Api::funding_asset_to_ct_amount_otm(pid, asset, amount);
			let slack = slack * 3.0 + slack * f(price) * 2.0;
			o.check(near(got, want, slack) && near(fee, amount as f64 - part, 3.0), TAG, "tokens for an amount with the fee", || {
				format!("project {pid}: of {amount} of {asset:?} {} are fee and the rest buys {want} tokens (give or take {slack}), told {got} and {fee}", amount as f64 - part)
			});
		}
		let want = usd as f64 / 5.0 * 0.075 / f(price);
		let slack = 3.0 + (3.0 + f(plmc)) / f(price);
		let got = Api::calculate_otm_fee(asset, amount);
		o.check(got.map_or(false, |g| near(g, want, slack)), TAG, "fee for an amount", || {
			format!("the fee for {amount} of {asset:?} is {want} (give or take {slack}), told {got:?}")
		});

		// How much one may give.
		let (ty, b, c) = r.pick(&[
			(InvestorType::Institutional, 2, 2),
			(InvestorType::Professional, 1, 1),
			(InvestorType::Retail, 0, 0),
		]).clone();
		let bid_t = match b {
			2 => Some(&meta.bidding_ticket_sizes.institutional),
			1 => Some(&meta.bidding_ticket_sizes.professional),
			_ => None,
		};
		let con_t = match c {
			2 => &meta.contributing_ticket_sizes.institutional,
			1 => &meta.contributing_ticket_sizes.professional,
			_ => &meta.contributing_ticket_sizes.retail,
		};
		let want = match det.status {
			ProjectStatus::AuctionRound => bid_t.zip(s.bucket.get(&pid)).map(|(t, b)| {
				let spent = s.auc_usd.get(&(pid, d)).copied().unwrap_or(0);
				let (mut left, mut here, mut price, mut cost) = (spec::auction_size(meta) as f64, b.amount_left as f64, f(b.current_price), 0.0);
				while left > 0.0 {
					cost += left.min(here) * price;
					left -= left.min(here);
					here = b.delta_amount as f64;
					price += f(b.delta_price);
				}
				(t, spent, cost)
			}),
			ProjectStatus::CommunityRound(_) => det.weighted_average_price.map(|p| {
				(con_t, s.con_usd.get(&(pid, d)).copied().unwrap_or(0), det.remaining_contribution_tokens as f64 * f(p))
			}),
			_ => None,
		}
		.map(|(t, spent, cost)| {
			let max = t.usd_maximum_per_did.map_or(cost, |m| cost.min(m.saturating_sub(spent) as f64));
			(t.usd_minimum_per_participation as f64 / f(price), max / f(price))
		});
		let got = Api::get_funding_asset_min_max_amounts(pid, did(d), asset, ty);
		let slack = 2.0 + 15.0 / f(price);
		let fits = match (&want, &got) {
			(None, None) => true,
			(Some(w), Some(g)) => near(g.0, w.0, slack) && near(g.1, w.1, slack),
			_ => false,
		};
		if want.is_some() {
			o.stats.inc("probe/view_limits");
		}
		o.check(fits, TAG, "limits of an amount", || format!("project {pid}, DID {d}, {asset:?}: {want:?} (give or take {slack}), told {got:?}"));
	}

	// Schedules that may be merged.
	let (a, k) = s.sched.keys().nth(r.below(s.sched.len().max(1) as u64) as usize).copied().unwrap_or((a, 1));
	let delta = *r.pick(&[0u128, 1, 100, 15_000, 150_000, 1 << 40]);
	let got = Api::get_next_vesting_schedule_merge_candidates(account(a), if k == 0 { EVAL } else { PART }, delta);
	let list: Vec<(u64, u128)> = s.sched.get(&(a, k)).map_or(vec![], |v| v.iter().map(|x| (x.2, spec::sched_end(x))).collect());
	let good = |i: usize, j: usize| i != j && list[i].0 <= now && list[j].0 <= now && list[i].1.abs_diff(list[j].1) <= delta;
	let any = (0..list.len()).any(|i| (0..i).any(|j| good(i, j)));
	let fits = match got {
		None => !any,
		Some((i, j)) => (i as usize) < list.len() && (j as usize) < list.len() && good(i as usize, j as usize),
	};
	if any {
		o.stats.inc("probe/view_mergeable");
	}
	o.check(fits, TAG, "schedules to merge", || format!("{a} at {now}, at most {delta} apart: {list:?} (start, end), told {got:?}"));
}
