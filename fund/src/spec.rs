//! Executable specification: what each operation does to the observable state, and when it must be refused.
//! It works on snapshots; it never calls the pallets.
use crate::{
	ops::*,
	runtime::{fa_min, get_price, policy, Rt, DOT, ED, PLMC, USDC, USDT},
	snap::*,
};
use frame_support::BoundedVec;
use pallet_funding::{types::*, ParticipationMode};
use polimec_common::{
	credentials::Cid,
	migration_types::{Migration, MigrationInfo, MigrationOrigin, MigrationStatus, ParticipationType},
};
use sp_arithmetic::{traits::Saturating, FixedPointNumber, Percent, Perbill, Perquintill};
use xcm::v4::{prelude::*, Response};

/// Reason of a refusal: "<property>:<what>"; "KF:<key>" marks a refusal that is a known finding.
pub type No = &'static str;
pub const USD: u128 = 1_000_000;
pub const EVAL_D: u64 = 10;
pub const AUCTION_D: u64 = 15;
pub const COMMUNITY_D: u64 = 18;
pub const REMAINDER_D: u64 = 6;
pub const MAX_BIDS_PROJECT: u32 = 40;
pub const MAX_BIDS_USER: u32 = 12;
pub const MAX_CONS_USER: u32 = 6;
pub const MAX_EVALS_PROJECT: u32 = 16;
pub const MAX_EVALS_USER: u32 = 4;

#[derive(Clone, Copy, Debug)]
pub struct Env {
	pub now: u64,
	pub now_ms: u64,
	pub router_down: bool,
}

pub fn decimals(id: u32) -> u8 {
	match id {
		DOT | 3344 => 10,
		_ => 6,
	}
}
/// Price of the smallest unit of an asset in smallest units of USD.
pub fn dprice(id: u32) -> Option<P> {
	let usd = get_price(id)?.checked_mul_int(USD)?;
	P::checked_from_rational(usd, 10u128.pow(decimals(id) as u32))
}
fn price_ok(id: u32) -> Result<P, No> {
	dprice(id).ok_or("F03:no price")
}
fn units(price: P, usd: u128) -> Result<u128, No> {
	price.reciprocal().and_then(|r| r.checked_mul_int(usd)).ok_or("F03:overflow")
}
pub fn mult_of(m: ParticipationMode) -> u8 {
	match m {
		ParticipationMode::OTM => 5,
		ParticipationMode::Classic(x) => x,
	}
}
pub fn bond_for(usd: u128, m: ParticipationMode) -> Result<u128, No> {
	let x = mult_of(m);
	if x == 0 || x > 25 {
		return Err("F10:multiplier");
	}
	units(price_ok(3344)?, usd / x as u128)
}
pub fn fund_for(usd: u128, asset: AcceptedFundingAsset) -> Result<u128, No> {
	units(price_ok(asset.id())?, usd)
}
pub fn fee_for(bond: u128, id: u32) -> Result<u128, No> {
	let usd = price_ok(3344)?.saturating_mul_int(bond);
	let fee = Perbill::from_rational(75u32, 1000u32) * usd;
	Ok(price_ok(id)?.reciprocal().ok_or("F03:no price")?.saturating_mul_int(fee))
}
/// Blocks until a bond with this multiplier is free: 2.167 weeks for every step of the multiplier above one.
pub fn duration(mult: u8) -> u64 {
	let days_milli = 2167u64 * (mult as u64 - 1) * 7;
	(days_milli * 7200 / 1000).max(1)
}
pub fn started(d: &Det, now: u64) -> bool {
	d.round_duration.start().map_or(true, |s| s <= now)
}
pub fn ended(d: &Det, now: u64) -> bool {
	d.round_duration.end().map_or(true, |s| s <= now)
}
pub fn locked_at(s: &(u128, u128, u64), now: u64) -> u128 {
	let n = now.saturating_sub(s.2) as u128;
	s.0.saturating_sub(n.saturating_mul(s.1.max(1)))
}
pub fn sched_end(s: &(u128, u128, u64)) -> u128 {
	let per = s.1.max(1);
	s.2 as u128 + if per >= s.0 { 1 } else { s.0.div_ceil(per) }
}
pub fn final_ct(b: &BidI) -> u128 {
	match b.status {
		BidStatus::Accepted => b.original_ct_amount,
		BidStatus::PartiallyAccepted(a) => a,
		_ => 0,
	}
}
pub fn auction_size(m: &Meta) -> u128 {
	m.auction_round_allocation_percentage * m.total_allocation_size
}

fn ticket_ok(t: &TicketSize, low: u128) -> bool {
	t.usd_maximum_per_did.map_or(true, |m| t.usd_minimum_per_participation <= m) && t.usd_minimum_per_participation >= low
}
/// Is the metadata acceptable? On success: the fundraising target.
pub fn valid_meta(m: &Meta) -> Result<u128, No> {
	let no = "F05:metadata";
	let dec = m.token_information.decimals;
	if m.minimum_price == P::zero() {
		return Err(no);
	}
	let b = &m.bidding_ticket_sizes;
	let c = &m.contributing_ticket_sizes;
	if !ticket_ok(&b.professional, 5000 * USD) || !ticket_ok(&b.institutional, 5000 * USD) {
		return Err(no);
	}
	if !ticket_ok(&c.retail, USD) || !ticket_ok(&c.professional, USD) || !ticket_ok(&c.institutional, USD) {
		return Err(no);
	}
	let unit = 10u128.saturating_pow(dec as u32);
	if m.total_allocation_size == 0 || m.total_allocation_size > m.mainnet_token_max_supply || m.total_allocation_size < unit {
		return Err(no);
	}
	if m.auction_round_allocation_percentage == Percent::zero() {
		return Err(no);
	}
	let cur: Vec<_> = m.participation_currencies.to_vec();
	for (i, a) in cur.iter().enumerate() {
		if cur[..i].contains(a) {
			return Err(no);
		}
	}
	let target = m.minimum_price.saturating_mul_int(m.total_allocation_size);
	if target < 1000 * USD || target > 1_000_000_000 * USD || !(6..=18).contains(&dec) {
		return Err(no);
	}
	let human = m.minimum_price.checked_mul(&P::saturating_from_integer(10u128.pow(dec as u32 - 6))).ok_or(no)?;
	if human < P::saturating_from_rational(1, 100_000) || human > P::saturating_from_integer(1000) {
		return Err(no);
	}
	m.minimum_price.checked_mul_int(m.total_allocation_size).ok_or(no)
}
use sp_arithmetic::traits::{CheckedMul, Zero};

pub fn bucket_of(m: &Meta) -> Bucket<P> {
	let size = auction_size(m);
	let dprice = m.minimum_price.saturating_mul(P::saturating_from_rational(1, 10));
	Bucket {
		amount_left: size,
		current_price: m.minimum_price,
		initial_price: m.minimum_price,
		delta_price: dprice,
		delta_amount: Percent::from_percent(10) * size,
	}
}
fn bucket_take(b: &mut Bucket<P>, x: u128) {
	b.amount_left -= x.min(b.amount_left);
	if b.amount_left == 0 {
		b.amount_left = b.delta_amount;
		b.current_price = b.current_price.saturating_add(b.delta_price);
	}
}
/// Average price of the buckets sold, from the top, until the auction allocation is used up; each bucket weighs what it
/// cost. The first bucket alone means the minimum price.
pub fn wap_of(b: &Bucket<P>, size: u128) -> P {
	if b.current_price == b.initial_price {
		return b.initial_price;
	}
	let mut left = size;
	let mut v: Vec<(u128, P)> = vec![];
	let (mut price, mut amount) = (b.current_price, b.delta_amount.saturating_sub(b.amount_left));
	while price > b.initial_price && left > 0 {
		amount = amount.min(left);
		v.push((price.saturating_mul_int(amount), price));
		left = left.saturating_sub(amount);
		price = price.saturating_sub(b.delta_price);
		amount = b.delta_amount;
	}
	if left > 0 {
		v.push((b.initial_price.saturating_mul_int(left), b.initial_price));
	}
	let sum = v.iter().fold(0u128, |a, x| a.saturating_add(x.0));
	v.iter().fold(P::zero(), |a, (usd, p)| a.saturating_add(P::saturating_from_rational(*usd, sum).saturating_mul(*p)))
}

pub fn fee_usd(reached: u128) -> u128 {
	let (mut left, mut fee) = (reached, 0u128);
	for (pct, limit) in [(10u8, 1_000_000 * USD), (8, 4_000_000 * USD), (6, u128::MAX)] {
		let part = left.min(limit);
		fee += Percent::from_percent(pct) * part;
		left -= part;
	}
	fee
}
/// Contribution tokens set aside as the fee.
pub fn fee_ct(d: &Det, m: &Meta) -> u128 {
	let reached = d.funding_amount_reached_usd;
	let sold = m.total_allocation_size.saturating_sub(d.remaining_contribution_tokens);
	Perquintill::from_rational(fee_usd(reached), reached) * sold
}
pub fn reward_info(d: &Det, m: &Meta) -> RewardInfo {
	let pot = Perquintill::from_percent(30) * fee_ct(d, m);
	let total = d.evaluation_round_info.total_bonded_usd;
	RewardInfo {
		early_evaluator_reward_pot: Perquintill::from_percent(20) * pot,
		normal_evaluator_reward_pot: Perquintill::from_percent(80) * pot,
		early_evaluator_total_bonded_usd: total.min(Percent::from_percent(10) * d.fundraising_target_usd),
		normal_evaluator_total_bonded_usd: total,
	}
}
pub fn reward(e: &Eval, i: &RewardInfo) -> u128 {
	let early = Perquintill::from_rational(e.early_usd_amount, i.early_evaluator_total_bonded_usd) * i.early_evaluator_reward_pot;
	let normal = Perquintill::from_rational(e.early_usd_amount + e.late_usd_amount, i.normal_evaluator_total_bonded_usd) *
		i.normal_evaluator_reward_pot;
	early.saturating_add(normal)
}
pub fn slash_of(e: &Eval) -> u128 {
	Percent::from_percent(20) * e.original_plmc_bond
}

pub struct Ctx<'a> {
	pub s: &'a mut Snap,
	pub e: Env,
	pub post: &'a Snap,
	/// the call may also fail (funds at the edge)
	pub may: bool,
}

pub enum Src {
	Signed(A),
	Root,
}

impl Ctx<'_> {
	fn cred(&self, who: A, j: &Jwt) -> Result<(u8, u8, Cid), No> {
		if j.bad_sig {
			return Err("F10:forged credential");
		}
		if j.subject as A != who {
			return Err("F10:credential of somebody else");
		}
		match j.exp {
			Some(x) if x * 1000 >= self.e.now_ms => Ok((j.did, j.ty, policy(j.policy))),
			_ => Err("F10:expired credential"),
		}
	}
	fn issuer_cred(&self, who: A, j: &Jwt) -> Result<u8, No> {
		let (d, ty, _) = self.cred(who, j)?;
		if ty != 2 {
			return Err("F10:not institutional");
		}
		Ok(d)
	}
	fn det(&self, pid: u32) -> Result<Det, No> {
		self.s.det.get(&pid).cloned().ok_or("F05:no such project")
	}
	fn meta(&self, pid: u32) -> Result<Meta, No> {
		self.s.meta.get(&pid).cloned().ok_or("F05:no such project")
	}
	/// Keep-alive transfer of PLMC.
	fn plmc_keep(&mut self, from: A, to: A, amount: u128) -> Result<(), No> {
		let f = self.s.plmc.get(&from).cloned().unwrap_or_default();
		if amount > 0 && f.free < amount {
			return Err("F01:not enough PLMC");
		}
		if f.free < amount + ED + f.frozen || amount == 0 || (self.s.free(to) == 0 && amount < ED) {
			self.may = true;
		}
		self.s.p(from).free -= amount;
		self.s.p(to).free += amount;
		Ok(())
	}
	fn hold(&mut self, who: A, amount: u128, part: bool) -> Result<(), No> {
		let f = self.s.free(who);
		if f < amount {
			return Err(if part { "F02:not enough PLMC" } else { "F13:not enough PLMC" });
		}
		if f < amount + ED {
			self.may = true;
		}
		let p = self.s.p(who);
		p.free -= amount;
		if part {
			p.part += amount
		} else {
			p.eval += amount
		}
		Ok(())
	}
	fn fa_move(&mut self, id: u32, from: A, to: A, amount: u128, keep: bool) -> Result<(), No> {
		if amount == 0 {
			return Ok(());
		}
		let b = self.s.asset(id, from);
		let min = fa_min(id);
		let avail = if keep { b.saturating_sub(min) } else { b };
		if amount > avail {
			return Err("F03:not enough of the asset");
		}
		let moved = if b - amount < min { b } else { amount };
		if from == to {
			return Ok(());
		}
		let t = self.s.asset(id, to);
		if t == 0 && moved < min {
			return Err("F03:below the minimum balance");
		}
		self.s.fa.insert((id, from), b - moved);
		self.s.fa.insert((id, to), t + moved);
		Ok(())
	}
	fn ct_mint(&mut self, pid: u32, to: A, amount: u128) {
		*self.s.ct.entry((pid, to)).or_default() += amount;
		*self.s.ct_supply.entry(pid).or_default() += amount;
	}
	fn release_part(&mut self, who: A, amount: u128) -> Result<(), No> {
		let p = self.s.p(who);
		if p.part < amount {
			return Err("F08:bond is gone");
		}
		p.part -= amount;
		p.free += amount;
		Ok(())
	}

	/// Bond PLMC for a participation: first from the caller's evaluation bonds of the project (keeping what may be
	/// slashed), the rest from free PLMC.
	fn lock_participation(&mut self, who: A, pid: u32, amount: u128) -> Result<(), No> {
		let keys: Vec<Key> = self.s.evals.range((pid, who, 0)..=(pid, who, u32::MAX)).map(|x| *x.0).collect();
		let room = |e: &Eval| e.current_plmc_bond.saturating_sub(slash_of(e));
		let total: u128 = keys.iter().map(|k| room(&self.s.evals[k])).sum();
		let x = total.min(amount);
		// Which evaluation is used first is not specified: follow the actual choice when it is legitimate.
		let taken: Vec<u128> = keys
			.iter()
			.map(|k| {
				let now = self.post.evals.get(k).map_or(0, |e| e.current_plmc_bond);
				self.s.evals[k].current_plmc_bond.saturating_sub(now)
			})
			.collect();
		// (One call may lock several times: the first locks take from what the whole call took.)
		let mut left = x;
		for plan in [true, false] {
			for (k, t) in keys.iter().zip(&taken) {
				let e = self.s.evals.get_mut(k).unwrap();
				let t = if plan { left.min(*t).min(room(e)) } else { left.min(room(e)) };
				e.current_plmc_bond -= t;
				left -= t;
			}
		}
		let p = self.s.p(who);
		if p.eval < x {
			return Err("F13:evaluation bond is gone");
		}
		p.eval -= x;
		p.part += x;
		if p.free < ED {
			self.may = true;
		}
		self.hold(who, amount - x, true)
	}
	fn bond(&mut self, who: A, pid: u32, amount: u128, mode: ParticipationMode, asset: u32) -> Result<(), No> {
		if mode != ParticipationMode::OTM {
			return self.lock_participation(who, pid, amount);
		}
		let b = BOND + pid as u16;
		let fee = fee_for(amount, asset)?;
		self.fa_move(asset, who, b, fee, true).map_err(|_| "P01:cannot pay the fee")?;
		if self.s.free(b) < ED {
			self.plmc_keep(BTRE, b, ED)?;
		}
		let t = self.s.plmc.get(&BTRE).cloned().unwrap_or_default();
		if t.free < amount {
			return Err("P01:treasury is empty");
		}
		if t.free < amount + ED + t.frozen {
			self.may = true;
		}
		self.s.p(BTRE).free -= amount;
		self.s.p(b).part += amount;
		Ok(())
	}
	fn migration(&mut self, pid: u32, who: A, id: u32, ty: ParticipationType, amount: u128, vest: u64) {
		let user = Location::new(0, AccountId32 { network: None, id: account(who).into() });
		let m = Migration::new(
			MigrationOrigin { user, id, participation_type: ty },
			MigrationInfo { contribution_token_amount: amount, vesting_time: vest },
		);
		if !self.s.mig.contains_key(&(pid, who)) {
			*self.s.unmig.entry(pid).or_default() += 1;
		}
		self.s.mig.entry((pid, who)).or_insert((MigrationStatus::NotStarted, vec![])).1.push(m);
	}
	/// The rest of a bond after a successful funding: free at once for multiplier 1, else released linearly.
	fn schedule(&mut self, who: A, amount: u128, mode: ParticipationMode, start: u64) -> Result<u64, No> {
		let d = duration(mult_of(mode));
		if mode == ParticipationMode::OTM {
			return Ok(d);
		}
		if d == 1 {
			self.release_part(who, amount)?;
		} else if amount > 0 {
			let per = (amount / d as u128).max(1);
			self.s.sched.entry((who, 1)).or_default().push((amount, per, start));
		}
		Ok(d)
	}
	fn transition(&mut self, pid: u32, mut d: Det, next: Status, dur: Option<u64>) {
		d.round_duration = BlockNumberPair::new(Some(self.e.now), dur.map(|x| self.e.now + x - 1));
		d.status = next;
		self.s.det.insert(pid, d);
	}
	fn send(&mut self) -> Result<(), No> {
		if self.e.router_down {
			return Err("F11:no route");
		}
		self.s.out += 1;
		Ok(())
	}
	fn query(&mut self, para: u32, call: u8) -> u64 {
		let q = self.s.query_next;
		self.s.query_next += 1;
		self.s.queries.insert(q, (para, (52, call), self.e.now + 20));
		q
	}

	pub fn apply(&mut self, src: Src, op: &Op) -> Result<(), No> {
		let now = self.e.now;
		let who = match src {
			Src::Signed(a) => a,
			Src::Root =>
				return match op {
					Op::SetDispense { amount } if *amount > 5 * PLMC => {
						self.s.dispense_amount = *amount;
						Ok(())
					},
					_ => Err("F15:root cannot"),
				},
		};
		match op {
			Op::Create { jwt, meta } => {
				let did_n = self.issuer_cred(who, jwt)?;
				if self.s.active.contains_key(&did_n) {
					return Err("F10:has an active project");
				}
				let m = meta.real();
				let target = valid_meta(&m)?;
				let pid = self.s.next["project"];
				self.plmc_keep(who, ESC + pid as u16, ED)?;
				self.new_project(pid, m, who, did_n, target);
				self.s.next.insert("project", pid + 1);
				self.s.active.insert(did_n, pid);
			},
			Op::Edit { jwt, pid, meta } => {
				self.issuer_cred(who, jwt)?;
				let d = self.det(*pid)?;
				if num(&d.issuer_account) != who {
					return Err("F10:not the issuer");
				}
				if d.is_frozen {
					return Err("F05:frozen");
				}
				let m = meta.real();
				let target = valid_meta(&m)?;
				self.new_project(*pid, m, who, did_num(&d.issuer_did), target);
			},
			Op::Remove { jwt, pid } => {
				self.issuer_cred(who, jwt)?;
				let d = self.det(*pid)?;
				if num(&d.issuer_account) != who {
					return Err("F10:not the issuer");
				}
				if d.is_frozen {
					return Err("F05:frozen");
				}
				self.s.det.remove(pid);
				self.s.meta.remove(pid);
				self.s.bucket.remove(pid);
				self.s.active.remove(&did_num(&d.issuer_did));
			},
			Op::StartEvaluation { jwt, pid } => {
				self.issuer_cred(who, jwt)?;
				let m = self.meta(*pid)?;
				let mut d = self.det(*pid)?;
				if num(&d.issuer_account) != who {
					return Err("F10:not the issuer");
				}
				if d.is_frozen || d.status != ProjectStatus::Application {
					return Err("F05:not in application");
				}
				if m.policy_ipfs_cid.is_none() {
					return Err("F05:no policy");
				}
				d.is_frozen = true;
				self.transition(*pid, d, ProjectStatus::EvaluationRound, Some(EVAL_D));
			},
			Op::Evaluate { jwt, pid, usd } => self.evaluate(who, jwt, *pid, *usd)?,
			Op::EndEvaluation { pid } => {
				let d = self.det(*pid)?;
				if d.status != ProjectStatus::EvaluationRound || !ended(&d, now) {
					return Err("F05:round not over");
				}
				let pass = d.evaluation_round_info.total_bonded_usd >= Percent::from_percent(10) * d.fundraising_target_usd;
				if pass {
					self.transition(*pid, d, ProjectStatus::AuctionRound, Some(AUCTION_D));
				} else {
					self.s.active.remove(&did_num(&d.issuer_did));
					self.transition(*pid, d, ProjectStatus::FundingFailed, Some(1));
				}
			},
			Op::Bid { jwt, pid, ct, mult, asset } => self.bid(who, jwt, *pid, *ct, mode(*mult), asset_of(*asset))?,
			Op::EndAuction { pid } => self.end_auction(*pid)?,
			Op::Contribute { jwt, pid, ct, mult, asset } =>
				self.contribute(who, jwt, *pid, *ct, mode(*mult), asset_of(*asset))?,
			Op::EndFunding { pid } => {
				let mut d = self.det(*pid)?;
				let m = self.meta(*pid)?;
				if !matches!(d.status, ProjectStatus::CommunityRound(_)) {
					return Err("F05:not in the funding round");
				}
				if d.remaining_contribution_tokens > 0 && !ended(&d, now) {
					return Err("F05:round not over");
				}
				self.s.active.remove(&did_num(&d.issuer_did));
				let ratio = Perquintill::from_rational(d.funding_amount_reached_usd, d.fundraising_target_usd);
				let next = if ratio < Perquintill::from_percent(33) {
					d.evaluation_round_info.evaluators_outcome = Some(EvaluatorsOutcome::Slashed);
					ProjectStatus::FundingFailed
				} else {
					d.evaluation_round_info.evaluators_outcome = Some(EvaluatorsOutcome::Rewarded(reward_info(&d, &m)));
					ProjectStatus::FundingSuccessful
				};
				self.transition(*pid, d, next, None);
			},
			Op::StartSettlement { pid } => {
				let mut d = self.det(*pid)?;
				let m = self.meta(*pid)?;
				if !ended(&d, now) {
					return Err("F05:too early");
				}
				d.funding_end_block = Some(now);
				match d.status {
					ProjectStatus::FundingSuccessful => {
						self.s.rel.insert(*pid, Rel::Locked(now + duration(5)));
						let fee = fee_ct(&d, &m);
						self.s.ct_supply.insert(*pid, 0);
						let t = &m.token_information;
						self.s.ct_meta.insert(*pid, (t.decimals, t.name.to_vec(), t.symbol.to_vec()));
						self.ct_mint(*pid, CTT, Perquintill::from_percent(20) * fee);
						self.ct_mint(*pid, CTT, Perquintill::from_percent(50) * fee);
						self.transition(*pid, d, ProjectStatus::SettlementStarted(FundingOutcome::Success), None);
					},
					ProjectStatus::FundingFailed => {
						self.s.rel.insert(*pid, Rel::Refunded);
						self.transition(*pid, d, ProjectStatus::SettlementStarted(FundingOutcome::Failure), None);
					},
					_ => return Err("F05:funding not over"),
				}
			},
			Op::SettleEvaluation { pid, who, id } => self.settle_evaluation(*pid, *who, *id)?,
			Op::SettleBid { pid, who, id } => self.settle_bid(*pid, *who, *id)?,
			Op::SettleContribution { pid, who, id } => self.settle_contribution(*pid, *who, *id)?,
			Op::MarkSettled { pid } => {
				let d = self.det(*pid)?;
				let ProjectStatus::SettlementStarted(o) = d.status.clone() else { return Err("F05:not settling") };
				let r = (*pid, 0, 0)..=(*pid, A::MAX, u32::MAX);
				if self.s.evals.range(r.clone()).next().is_some() ||
					self.s.bids.range(r.clone()).next().is_some() ||
					self.s.cons.range(r).next().is_some()
				{
					return Err("F09:participations left");
				}
				self.transition(*pid, d, ProjectStatus::SettlementFinished(o), None);
			},
			Op::StartOffchain { jwt, pid } => {
				self.issuer_cred(who, jwt)?;
				let mut d = self.det(*pid)?;
				if num(&d.issuer_account) != who {
					return Err("F10:not the issuer");
				}
				if d.status != ProjectStatus::SettlementFinished(FundingOutcome::Success) {
					return Err("F05:not settled");
				}
				d.migration_type = Some(MigrationType::Offchain);
				self.transition(*pid, d, ProjectStatus::CTMigrationStarted, None);
			},
			Op::ConfirmOffchain { pid, who: user } => {
				let d = self.det(*pid)?;
				if d.status != ProjectStatus::CTMigrationStarted {
					return Err("F05:not migrating");
				}
				if num(&d.issuer_account) != who {
					return Err("F10:not the issuer");
				}
				let Some((st, _)) = self.s.mig.get(&(*pid, *user)) else { return Err("F11:nothing to migrate") };
				let ok = match d.migration_type {
					Some(MigrationType::Offchain) => *st != MigrationStatus::Confirmed,
					Some(MigrationType::Pallet(_)) => matches!(st, MigrationStatus::Sent(_)),
					None => false,
				};
				if !ok {
					return Err("F11:not unconfirmed");
				}
				self.s.mig.get_mut(&(*pid, *user)).unwrap().0 = MigrationStatus::Confirmed;
				let u = self.s.unmig.entry(*pid).or_default();
				*u = u.saturating_sub(1);
			},
			Op::StartPallet { jwt, pid, para } => {
				self.issuer_cred(who, jwt)?;
				let mut d = self.det(*pid)?;
				if num(&d.issuer_account) != who {
					return Err("F10:not the issuer");
				}
				if d.status != ProjectStatus::SettlementFinished(FundingOutcome::Success) {
					return Err("F05:not settled");
				}
				d.migration_type = Some(MigrationType::Pallet(PalletMigrationInfo {
					parachain_id: (*para).into(),
					hrmp_channel_status: HRMPChannelStatus {
						project_to_polimec: ChannelStatus::Closed,
						polimec_to_project: ChannelStatus::Closed,
					},
					migration_readiness_check: None,
				}));
				self.transition(*pid, d, ProjectStatus::CTMigrationStarted, None);
			},
			Op::Readiness { jwt, pid } => {
				self.issuer_cred(who, jwt)?;
				self.readiness(who, *pid)?;
			},
			Op::SendMigration { pid, who: user } => {
				let d = self.det(*pid)?;
				let Some(MigrationType::Pallet(i)) = d.migration_type else { return Err("F11:not a pallet migration") };
				let c = i.migration_readiness_check.ok_or("F11:not ready")?;
				let r = (*pid, *user, 0)..=(*pid, *user, u32::MAX);
				if self.s.evals.range(r.clone()).next().is_some() ||
					self.s.bids.range(r.clone()).next().is_some() ||
					self.s.cons.range(r).next().is_some()
				{
					return Err("F11:participations left");
				}
				let Some((st, _)) = self.s.mig.get(&(*pid, *user)) else { return Err("F11:nothing to migrate") };
				if !(c.holding_check.1 == CheckOutcome::Passed(None) && matches!(c.pallet_check.1, CheckOutcome::Passed(Some(_)))) {
					return Err("F11:not ready");
				}
				if !matches!(st, MigrationStatus::NotStarted | MigrationStatus::Failed) {
					return Err("F11:already sent");
				}
				let q = self.query(i.parachain_id.into(), 25);
				self.s.mig.get_mut(&(*pid, *user)).unwrap().0 = MigrationStatus::Sent(q);
				self.send()?;
				self.s.queue.insert(q, (*pid, *user));
			},
			Op::MarkFinished { pid } => {
				let mut d = self.det(*pid)?;
				if d.status != ProjectStatus::CTMigrationStarted {
					return Err("F05:not migrating");
				}
				if self.s.unmig.get(pid).copied().unwrap_or(0) > 0 {
					return Err("F11:migrations left");
				}
				d.status = ProjectStatus::CTMigrationFinished;
				self.s.det.insert(*pid, d);
			},
			Op::FakeAnswer { .. } => return Err("F12:not an answer"),
			Op::Vest => self.vest(who, true)?,
			Op::VestOther { who: a } => self.vest(*a, true)?,
			Op::VestAll => self.vest(who, false)?,
			Op::VestAllOther { who: a } => self.vest(*a, false)?,
			Op::Merge { i, j } => {
				if i == j {
					return Ok(());
				}
				let v = self.s.sched.get(&(who, 1)).cloned().ok_or("L01:no schedule")?;
				let (i, j) = (*i as usize, *j as usize);
				if i >= v.len() || j >= v.len() {
					return Err("L01:no such schedule");
				}
				let mut w: Vec<_> =
					v.iter().enumerate().filter(|(k, s)| *k != i && *k != j && locked_at(s, now) > 0).map(|x| *x.1).collect();
				let (a, b) = (v[i], v[j]);
				match (sched_end(&a) <= now as u128, sched_end(&b) <= now as u128) {
					(true, true) => (),
					(true, false) => w.push(b),
					(false, true) => w.push(a),
					_ => {
						let locked = locked_at(&a, now) + locked_at(&b, now);
						let end = sched_end(&a).max(sched_end(&b));
						let start = now.max(a.2).max(b.2);
						w.push((locked, (locked / end.saturating_sub(start as u128).max(1)).max(1), start));
					},
				}
				let locked: u128 = w.iter().map(|s| locked_at(s, now)).sum();
				self.write_release(who, w, locked);
			},
			Op::VestedTransfer { to, locked, per_block, start } => {
				if *locked < 512 || *per_block == 0 {
					return Err("L01:invalid schedule");
				}
				let mut v = self.s.sched.get(&(*to, 1)).cloned().unwrap_or_default();
				if v.len() >= 100 {
					return Err("L01:too many schedules");
				}
				let f = self.s.plmc.get(&who).cloned().unwrap_or_default();
				if f.free < *locked {
					return Err("L01:not enough PLMC");
				}
				if !self.s.plmc.contains_key(to) {
					return Err("L01:no such account");
				}
				if f.free < locked + ED + f.frozen {
					self.may = true;
				}
				self.s.p(who).free -= locked;
				self.s.p(*to).part += locked;
				v.push((*locked, *per_block, *start));
				let w: Vec<_> = v.into_iter().filter(|s| locked_at(s, now) > 0).collect();
				let l: u128 = w.iter().map(|s| locked_at(s, now)).sum();
				self.write_release(*to, w, l);
			},
			Op::BondsBack { pid, eval } => {
				if *eval {
					return Err("P01:nothing to release");
				}
				match self.s.rel.get(pid) {
					None => return Err("P01:nothing to release"),
					Some(Rel::Locked(b)) if *b > now => return Err("P01:too early"),
					_ => (),
				}
				let b = BOND + *pid as u16;
				let x = self.s.part(b);
				if x == 0 {
					self.may = true;
				} else {
					self.s.p(b).part = 0;
					self.s.p(BTRE).free += x;
				}
			},
			Op::FeesOut { pid, asset } => {
				match self.s.rel.get(pid) {
					None => return Err("P01:funding not over"),
					Some(Rel::Refunded) => return Err("P01:fees are owed back"),
					_ => (),
				}
				let (b, id) = (BOND + *pid as u16, fa_id(*asset));
				let x = self.s.asset(id, b);
				self.fa_move(id, b, FEE, x, false)?;
			},
			Op::Dispense { jwt } => {
				let (did_n, _, pol) = self.cred(who, jwt)?;
				if self.s.dispensed.contains_key(&did_n) {
					return Err("F15:second time");
				}
				if pol != policy(99) {
					return Err("F15:wrong policy");
				}
				let amount = self.s.dispense_amount;
				let f = self.s.plmc.get(&DISP).cloned().unwrap_or_default();
				if f.free < amount {
					return Err("F15:empty");
				}
				if f.free < amount + ED {
					self.may = true;
				}
				let locked = amount.saturating_sub(5 * PLMC);
				let per = locked / 50;
				let mut v = self.s.vest.get(&who).cloned().unwrap_or_default();
				if locked == 0 || per == 0 {
					self.may = true;
				}
				if v.len() >= 12 {
					return Err("F15:too many schedules");
				}
				v.push((locked, per, now + 30));
				let v: Vec<_> = v.into_iter().filter(|s| locked_at(s, now) > 0).collect();
				self.s.p(DISP).free -= amount;
				self.s.p(who).free += amount;
				self.s.p(who).frozen = v.iter().map(|s| locked_at(s, now)).sum();
				self.s.vest.insert(who, v);
				self.s.dispensed.insert(did_n, true);
			},
			Op::SetDispense { .. } => return Err("F15:not root"),
			Op::Transfer { to, asset: 3, amount } => self.plmc_keep(who, *to, *amount)?,
			Op::Transfer { to, asset, amount } => self.fa_move(fa_id(*asset), who, *to, *amount, true)?,
		}
		Ok(())
	}

	fn new_project(&mut self, pid: u32, m: Meta, issuer: A, did_n: u8, target: u128) {
		self.s.det.insert(pid, ProjectDetails {
			issuer_account: account(issuer),
			issuer_did: did(did_n),
			is_frozen: false,
			weighted_average_price: None,
			status: ProjectStatus::Application,
			round_duration: BlockNumberPair::new(None, None),
			fundraising_target_usd: target,
			remaining_contribution_tokens: m.total_allocation_size,
			funding_amount_reached_usd: 0,
			evaluation_round_info: EvaluationRoundInfo { total_bonded_usd: 0, total_bonded_plmc: 0, evaluators_outcome: None },
			usd_bid_on_oversubscription: None,
			funding_end_block: None,
			migration_type: None,
		});
		self.s.bucket.insert(pid, bucket_of(&m));
		self.s.meta.insert(pid, m);
	}

	fn evaluate(&mut self, who: A, jwt: &Jwt, pid: u32, usd: u128) -> Result<(), No> {
		let (did_n, _, pol) = self.cred(who, jwt)?;
		let m = self.meta(pid)?;
		let mut d = self.det(pid)?;
		if d.status != ProjectStatus::EvaluationRound || !started(&d, self.e.now) || ended(&d, self.e.now) {
			return Err("F05:not in evaluation");
		}
		if m.policy_ipfs_cid != Some(pol) {
			return Err("F10:policy");
		}
		if usd < 100 * USD {
			return Err("F10:too small");
		}
		if did_num(&d.issuer_did) == did_n {
			return Err("F10:own project");
		}
		if self.s.eval_count.get(&pid).copied().unwrap_or(0) >= MAX_EVALS_PROJECT {
			return Err("F10:too many evaluations");
		}
		if self.s.evals.range((pid, who, 0)..=(pid, who, u32::MAX)).count() as u32 >= MAX_EVALS_USER {
			return Err("F10:too many evaluations of the user");
		}
		let bond = units(price_ok(3344)?, usd)?;
		self.hold(who, bond, false)?;
		let info = &mut d.evaluation_round_info;
		let early_left = (Percent::from_percent(10) * d.fundraising_target_usd).saturating_sub(info.total_bonded_usd);
		let early = usd.min(early_left);
		let id = self.s.next["evaluation"];
		self.s.evals.insert((pid, who, id), EvaluationInfo {
			id,
			did: did(did_n),
			project_id: pid,
			evaluator: account(who),
			original_plmc_bond: bond,
			current_plmc_bond: bond,
			early_usd_amount: early,
			late_usd_amount: usd - early,
			when: self.e.now,
		});
		info.total_bonded_usd += usd;
		info.total_bonded_plmc += bond;
		self.s.next.insert("evaluation", id + 1);
		*self.s.eval_count.entry(pid).or_default() += 1;
		self.s.det.insert(pid, d);
		Ok(())
	}

	fn bid(&mut self, who: A, jwt: &Jwt, pid: u32, ct: u128, mode: ParticipationMode, asset: AcceptedFundingAsset) -> Result<(), No> {
		let (did_n, ty, pol) = self.cred(who, jwt)?;
		let m = self.meta(pid)?;
		let d = self.det(pid)?;
		if d.status != ProjectStatus::AuctionRound || !started(&d, self.e.now) || ended(&d, self.e.now) {
			return Err("F05:not in the auction");
		}
		let mut b = *self.s.bucket.get(&pid).ok_or("F05:no such project")?;
		let (ticket, top) = match ty {
			2 => (m.bidding_ticket_sizes.institutional, 25),
			1 => (m.bidding_ticket_sizes.professional, 10),
			_ => return Err("F10:retail may not bid"),
		};
		if m.policy_ipfs_cid != Some(pol) {
			return Err("F10:policy");
		}
		if ct == 0 {
			return Err("F10:nothing");
		}
		if did_num(&d.issuer_did) == did_n {
			return Err("F10:own project");
		}
		if !m.participation_currencies.contains(&asset) {
			return Err("F10:currency");
		}
		let usd = b.current_price.checked_mul_int(ct).ok_or("F04:overflow")?;
		if usd < ticket.usd_minimum_per_participation {
			return Err("F10:ticket too small");
		}
		if mult_of(mode) > top || mult_of(mode) == 0 {
			return Err("F10:multiplier");
		}
		if ct > auction_size(&m) {
			return Err("F04:more than the auction sells");
		}
		let mut mine = self.s.bids.range((pid, who, 0)..=(pid, who, u32::MAX)).count() as u32;
		let mut left = ct;
		while left > 0 {
			let x = left.min(b.amount_left);
			let price = b.current_price;
			let usd = price.checked_mul_int(x).ok_or("F04:overflow")?;
			let bought = self.s.auc_usd.get(&(pid, did_n)).copied().unwrap_or(0);
			if ticket.usd_maximum_per_did.map_or(false, |t| bought.saturating_add(usd) > t) {
				return Err("F10:ticket too large");
			}
			if mine >= MAX_BIDS_USER {
				return Err("F10:too many bids of the user");
			}
			if self.s.bid_count.get(&pid).copied().unwrap_or(0) >= MAX_BIDS_PROJECT {
				return Err("F10:too many bids");
			}
			let bond = bond_for(usd, mode)?;
			let locked = fund_for(usd, asset)?;
			self.bond(who, pid, bond, mode, asset.id())?;
			self.fa_move(asset.id(), who, ESC + pid as u16, locked, true)?;
			let id = self.s.next["bid"];
			self.s.bids.insert((pid, who, id), BidInfo {
				id,
				project_id: pid,
				bidder: account(who),
				did: did(did_n),
				status: BidStatus::YetUnknown,
				original_ct_amount: x,
				original_ct_usd_price: price,
				funding_asset: asset,
				funding_asset_amount_locked: locked,
				mode,
				plmc_bond: bond,
				when: self.e.now,
			});
			self.s.next.insert("bid", id + 1);
			*self.s.bid_count.entry(pid).or_default() += 1;
			self.s.auc_usd.insert((pid, did_n), bought.saturating_add(usd));
			mine += 1;
			bucket_take(&mut b, x);
			left -= x;
		}
		self.s.bucket.insert(pid, b);
		Ok(())
	}

	fn end_auction(&mut self, pid: u32) -> Result<(), No> {
		let m = self.meta(pid)?;
		let mut d = self.det(pid)?;
		if d.status != ProjectStatus::AuctionRound || !ended(&d, self.e.now) {
			return Err("F05:round not over");
		}
		let size = auction_size(&m);
		let wap = wap_of(&self.s.bucket[&pid], size);
		let mut keys: Vec<(P, u32, Key)> = self
			.s
			.bids
			.range((pid, 0, 0)..=(pid, A::MAX, u32::MAX))
			.map(|(k, b)| (b.original_ct_usd_price, b.id, *k))
			.collect();
		// highest price first, then oldest
		keys.sort_by(|a, b| b.0.cmp(&a.0).then(a.1.cmp(&b.1)));
		let (mut left, mut usd) = (size, 0u128);
		for (price, _, k) in keys {
			let b = self.s.bids.get_mut(&k).unwrap();
			let x = left.min(b.original_ct_amount);
			b.status = if x == 0 {
				BidStatus::Rejected
			} else if x == b.original_ct_amount {
				BidStatus::Accepted
			} else {
				BidStatus::PartiallyAccepted(x)
			};
			if x > 0 {
				let w = (pid, did_num(&b.did));
				self.s.winning.insert(w, true);
			}
			usd += price.min(wap).checked_mul_int(x).ok_or("F06:overflow")?;
			left -= x;
		}
		d.remaining_contribution_tokens = d.remaining_contribution_tokens.saturating_sub(size - left);
		d.funding_amount_reached_usd += usd;
		d.weighted_average_price = Some(wap);
		self.transition(
			pid,
			d,
			ProjectStatus::CommunityRound(self.e.now + COMMUNITY_D),
			Some(COMMUNITY_D + REMAINDER_D),
		);
		Ok(())
	}

	fn contribute(&mut self, who: A, jwt: &Jwt, pid: u32, ct: u128, mode: ParticipationMode, asset: AcceptedFundingAsset) -> Result<(), No> {
		let now = self.e.now;
		let (did_n, ty, pol) = self.cred(who, jwt)?;
		let m = self.meta(pid)?;
		let mut d = self.det(pid)?;
		let ProjectStatus::CommunityRound(remainder) = d.status else { return Err("F05:not in the funding round") };
		if !started(&d, now) || ended(&d, now) {
			return Err("F05:round over");
		}
		if now < remainder && self.s.winning.contains_key(&(pid, did_n)) {
			return Err("F14:winners wait for the remainder round");
		}
		let x = ct.min(d.remaining_contribution_tokens);
		if x == 0 {
			return Err("F14:sold out");
		}
		d.remaining_contribution_tokens -= x;
		let wap = d.weighted_average_price.ok_or("F14:no price")?;
		let usd = wap.checked_mul_int(x).ok_or("F14:overflow")?;
		let t = &m.contributing_ticket_sizes;
		let (ticket, top) = match ty {
			2 => (t.institutional, 25),
			1 => (t.professional, 10),
			_ => (t.retail, 5),
		};
		if m.policy_ipfs_cid != Some(pol) {
			return Err("F10:policy");
		}
		if mult_of(mode) > top || mult_of(mode) == 0 {
			return Err("F10:multiplier");
		}
		if !m.participation_currencies.contains(&asset) {
			return Err("F10:currency");
		}
		if did_num(&d.issuer_did) == did_n {
			return Err("F10:own project");
		}
		if self.s.cons.range((pid, who, 0)..=(pid, who, u32::MAX)).count() as u32 >= MAX_CONS_USER {
			return Err("F10:too many contributions");
		}
		if usd < ticket.usd_minimum_per_participation && d.remaining_contribution_tokens > 0 {
			return Err("F10:ticket too small");
		}
		let bought = self.s.con_usd.get(&(pid, did_n)).copied().unwrap_or(0);
		if ticket.usd_maximum_per_did.map_or(false, |t| bought + usd > t) {
			return Err("F10:ticket too large");
		}
		let bond = bond_for(usd, mode)?;
		let amount = fund_for(usd, asset)?;
		self.bond(who, pid, bond, mode, asset.id())?;
		self.fa_move(asset.id(), who, ESC + pid as u16, amount, true)?;
		let id = self.s.next["contribution"];
		self.s.cons.insert((pid, who, id), ContributionInfo {
			id,
			did: did(did_n),
			project_id: pid,
			contributor: account(who),
			ct_amount: x,
			usd_contribution_amount: usd,
			mode,
			funding_asset: asset,
			funding_asset_amount: amount,
			plmc_bond: bond,
			when: now,
		});
		self.s.next.insert("contribution", id + 1);
		self.s.con_usd.insert((pid, did_n), bought + usd);
		d.funding_amount_reached_usd += usd;
		self.s.det.insert(pid, d);
		Ok(())
	}

	fn settle_evaluation(&mut self, pid: u32, who: A, id: u32) -> Result<(), No> {
		let e = self.s.evals.get(&(pid, who, id)).cloned().ok_or("F08:nothing to settle")?;
		let d = self.det(pid)?;
		if !matches!(d.status, ProjectStatus::SettlementStarted(_)) {
			return Err("F05:not settling");
		}
		let held = self.s.p(who).eval;
		if held < e.current_plmc_bond {
			return Err("F08:bond is gone");
		}
		self.s.p(who).eval -= e.current_plmc_bond;
		let mut back = e.current_plmc_bond;
		match &d.evaluation_round_info.evaluators_outcome {
			Some(EvaluatorsOutcome::Slashed) => {
				let x = slash_of(&e);
				if x > back {
					return Err("F08:slash deposit is gone");
				}
				back -= x;
				self.s.p(OPS).free += x;
				// vesting schedules shrink by the slash (on-slash-vesting, decided in the governance domain)
				if let Some(v) = self.post.vest.get(&who) {
					self.s.vest.insert(who, v.clone());
				} else {
					self.s.vest.remove(&who);
				}
				self.s.p(who).frozen = self.post.plmc.get(&who).map_or(0, |p| p.frozen);
			},
			Some(EvaluatorsOutcome::Rewarded(i)) => {
				let ct = reward(&e, i);
				self.ct_mint(pid, who, ct);
				if ct > 0 {
					self.migration(pid, who, id, ParticipationType::Evaluation, ct, duration(1));
				}
			},
			None => (),
		}
		self.s.p(who).free += back;
		self.s.evals.remove(&(pid, who, id));
		Ok(())
	}

	fn settle_bid(&mut self, pid: u32, who: A, id: u32) -> Result<(), No> {
		let b = self.s.bids.get(&(pid, who, id)).cloned().ok_or("F08:nothing to settle")?;
		let d = self.det(pid)?;
		let m = self.meta(pid)?;
		let success = d.status == ProjectStatus::SettlementStarted(FundingOutcome::Success);
		let rejected = b.status == BidStatus::Rejected;
		let Some(wap) = d.weighted_average_price else { return Err("F05:auction not over") };
		if !matches!(d.status, ProjectStatus::SettlementStarted(_)) && !rejected {
			return Err("F05:not settling");
		}
		let won = success && !rejected;
		let ct = if won { final_ct(&b) } else { 0 };
		let (back_bond, back) = if won {
			let usd = b.original_ct_usd_price.min(wap).checked_mul_int(ct).ok_or("F08:overflow")?;
			(b.plmc_bond.saturating_sub(bond_for(usd, b.mode)?), b.funding_asset_amount_locked.saturating_sub(fund_for(usd, b.funding_asset)?))
		} else {
			(b.plmc_bond, b.funding_asset_amount_locked)
		};
		let asset = b.funding_asset.id();
		let esc = ESC + pid as u16;
		self.fa_move(asset, esc, who, back, false).map_err(|_| "KF:escrow-dust")?;
		if b.mode == ParticipationMode::OTM {
			if back_bond > ED {
				self.fa_move(asset, BOND + pid as u16, who, fee_for(back_bond, asset)?, false)
					.map_err(|_| "KF:fee-refund-at-current-price")?;
			}
		} else {
			self.release_part(who, back_bond)?;
		}
		if won {
			let end = d.funding_end_block.ok_or("F08:no end block")?;
			let vest = self.schedule(who, b.plmc_bond - back_bond, b.mode, end)?;
			self.ct_mint(pid, who, ct);
			self.migration(pid, who, id, ParticipationType::Bid, ct, vest);
			let dest = num(&m.funding_destination_account);
			self.fa_move(asset, esc, dest, b.funding_asset_amount_locked - back, false).map_err(|_| "KF:escrow-dust")?;
		}
		self.s.bids.remove(&(pid, who, id));
		Ok(())
	}

	fn settle_contribution(&mut self, pid: u32, who: A, id: u32) -> Result<(), No> {
		let c = self.s.cons.get(&(pid, who, id)).cloned().ok_or("F08:nothing to settle")?;
		let d = self.det(pid)?;
		let m = self.meta(pid)?;
		let ProjectStatus::SettlementStarted(o) = &d.status else { return Err("F05:not settling") };
		let asset = c.funding_asset.id();
		let esc = ESC + pid as u16;
		if *o == FundingOutcome::Failure {
			self.fa_move(asset, esc, who, c.funding_asset_amount, false).map_err(|_| "KF:escrow-dust")?;
			if c.mode == ParticipationMode::OTM {
				self.fa_move(asset, BOND + pid as u16, who, fee_for(c.plmc_bond, asset)?, false)
					.map_err(|_| "KF:fee-refund-at-current-price")?;
			} else {
				self.release_part(who, c.plmc_bond)?;
			}
		} else {
			let end = d.funding_end_block.ok_or("F08:no end block")?;
			let vest = self.schedule(who, c.plmc_bond, c.mode, end)?;
			self.ct_mint(pid, who, c.ct_amount);
			let dest = num(&m.funding_destination_account);
			self.fa_move(asset, esc, dest, c.funding_asset_amount, false).map_err(|_| "KF:escrow-dust")?;
			self.migration(pid, who, id, ParticipationType::Contribution, c.ct_amount, vest);
		}
		self.s.cons.remove(&(pid, who, id));
		Ok(())
	}

	fn write_release(&mut self, who: A, w: Vec<(u128, u128, u64)>, locked: u128) {
		if w.is_empty() {
			self.s.sched.remove(&(who, 1));
		} else {
			self.s.sched.insert((who, 1), w);
		}
		let p = self.s.p(who);
		let x = p.part.saturating_sub(locked);
		p.part -= x;
		p.free += x;
	}
	fn vest(&mut self, who: A, must_have: bool) -> Result<(), No> {
		let now = self.e.now;
		let Some(v) = self.s.sched.get(&(who, 1)).cloned() else {
			return if must_have { Err("L01:no schedule") } else { Ok(()) };
		};
		let w: Vec<_> = v.into_iter().filter(|s| locked_at(s, now) > 0).collect();
		let l = w.iter().map(|s| locked_at(s, now)).sum();
		self.write_release(who, w, l);
		Ok(())
	}

	pub fn readiness(&mut self, who: A, pid: u32) -> Result<(), No> {
		let mut d = self.det(pid)?;
		let Some(MigrationType::Pallet(i)) = &mut d.migration_type else { return Err("F11:not a pallet migration") };
		if d.status != ProjectStatus::CTMigrationStarted {
			return Err("F05:not migrating");
		}
		let h = i.hrmp_channel_status;
		if h.project_to_polimec != ChannelStatus::Open || h.polimec_to_project != ChannelStatus::Open {
			return Err("F11:no channel");
		}
		match &i.migration_readiness_check {
			None if who != PALLET => return Err("F11:only the pallet starts the first check"),
			Some(c)
				if c.holding_check.1 == CheckOutcome::Failed &&
					c.pallet_check.1 == CheckOutcome::Failed &&
					who != num(&d.issuer_account) =>
				return Err("F10:not the issuer"),
			// nobody says who may restart a check that has not failed
			Some(_) if who != num(&d.issuer_account) => self.may = true,
			_ => (),
		}
		let para: u32 = i.parachain_id.into();
		let a = self.query(para, 23);
		let b = self.query(para, 23);
		i.migration_readiness_check = Some(PalletMigrationReadinessCheck {
			holding_check: (a, CheckOutcome::AwaitingResponse),
			pallet_check: (b, CheckOutcome::AwaitingResponse),
		});
		self.s.det.insert(pid, d);
		self.send()
	}

	/// The projects whose migration goes to this chain.
	fn migrating_to(&self, para: u32) -> Vec<u32> {
		self.s
			.det
			.iter()
			.filter(|(_, d)| {
				d.status == ProjectStatus::CTMigrationStarted &&
					matches!(&d.migration_type, Some(MigrationType::Pallet(i)) if u32::from(i.parachain_id) == para)
			})
			.map(|x| *x.0)
			.collect()
	}
	/// Nobody says which of several projects that go to the same chain is meant: the one
	/// that explains what happened.
	fn for_one(&mut self, para: u32, f: impl Fn(&mut Self, u32) -> Result<(), No>) -> Result<(), No> {
		let v = self.migrating_to(para);
		let first = *v.first().ok_or("F11:unknown chain")?;
		let (saved, may) = (self.s.clone(), self.may);
		if v.len() > 1 {
			for p in v {
				let r = f(self, p);
				if r.is_err() {
					*self.s = saved.clone();
				}
				if self.s.det == self.post.det {
					return r;
				}
				*self.s = saved.clone();
				self.may = may;
			}
		}
		f(self, first)
	}
	/// The relay chain says that a chain wants a channel to us.
	pub fn channel_request(&mut self, para: u32, size: u32, capacity: u32) -> Result<(), No> {
		if self.migrating_to(para).is_empty() {
			return Err("F11:unknown chain");
		}
		if !(50_000..=102_400).contains(&size) || !(8..=1000).contains(&capacity) {
			return Err("F12:channel parameters");
		}
		self.send()?;
		self.for_one(para, |x, pid| {
			x.channel(pid, |h| {
				h.project_to_polimec = ChannelStatus::Open;
				h.polimec_to_project = ChannelStatus::AwaitingAcceptance;
			});
			Ok(())
		})
	}
	fn channel(&mut self, pid: u32, f: impl FnOnce(&mut HRMPChannelStatus)) {
		if let Some(MigrationType::Pallet(i)) = &mut self.s.det.get_mut(&pid).unwrap().migration_type {
			f(&mut i.hrmp_channel_status)
		}
	}
	pub fn channel_accepted(&mut self, para: u32) -> Result<(), No> {
		self.for_one(para, |x, pid| {
			x.channel(pid, |h| h.polimec_to_project = ChannelStatus::Open);
			x.readiness(PALLET, pid)
		})
	}

	/// An answer arrives. `None`: it is not an answer to an open question and must be ignored.
	pub fn answer(&mut self, from: u32, q: u64, r: &Response) -> Option<Result<(), No>> {
		let (para, (_, call), timeout) = *self.s.queries.get(&q)?;
		if para != from || from == 0 || timeout < self.e.now {
			return None;
		}
		self.s.queries.remove(&q);
		let saved = self.s.clone();
		let x = if call == 23 { self.ready_answer(from, q, r) } else { self.migrated(from, q, r) };
		if x.is_err() {
			*self.s = saved;
		}
		Some(x)
	}
	/// The answering calls with an origin that is a chain (`Some`) or anything else.
	pub fn direct(&mut self, from: Option<u32>, confirm: bool, q: u64, r: &Response) -> Result<(), No> {
		let no = "F12:unexpected answer";
		let from = from.ok_or(no)?;
		let saved = self.s.clone();
		let pid = if confirm {
			self.s.queue.get(&q).map(|x| x.0)
		} else {
			self.s.det.iter().find(|(_, d)| asked(d, q)).map(|x| *x.0)
		};
		let pid = pid.ok_or(no)?;
		if !matches!(&self.det(pid)?.migration_type, Some(MigrationType::Pallet(i)) if u32::from(i.parachain_id) == from) {
			return Err(no);
		}
		let x = if confirm { self.migrated(from, q, r) } else { self.ready_answer(from, q, r) };
		if x.is_err() {
			*self.s = saved;
		}
		x
	}
	fn ready_answer(&mut self, from: u32, q: u64, r: &Response) -> Result<(), No> {
		let no = "F12:unexpected answer";
		let pid = self
			.s
			.det
			.iter()
			.find(|(_, d)| asked(d, q))
			.map(|x| *x.0)
			.ok_or(no)?;
		let mut d = self.det(pid)?;
		let sold = self.meta(pid)?.total_allocation_size.saturating_sub(d.remaining_contribution_tokens);
		let Some(MigrationType::Pallet(i)) = &mut d.migration_type else { return Err(no) };
		let Some(c) = &mut i.migration_readiness_check else { return Err(no) };
		match r {
			Response::Assets(a) if c.holding_check.1 == CheckOutcome::AwaitingResponse => match a.inner().first() {
				Some(Asset { id: AssetId(l), fun: Fungible(x) }) if *x >= sold => {
					let p = para_of(l);
					if p == 0 && !matches!(l.unpack(), (1, [Parachain(0)])) {
						return Err(no);
					}
					c.holding_check.1 = if p == from { CheckOutcome::Passed(None) } else { CheckOutcome::Failed };
				},
				_ => c.holding_check.1 = CheckOutcome::Failed,
			},
			Response::PalletsInfo(v) if c.pallet_check.1 == CheckOutcome::AwaitingResponse => {
				let x = v.first().ok_or(no)?;
				let idx: u8 = x.index.try_into().map_err(|_| no)?;
				c.pallet_check.1 = if v.len() == 1 && x.module_name.as_slice() == b"polimec_receiver" {
					CheckOutcome::Passed(Some(idx))
				} else {
					CheckOutcome::Failed
				};
			},
			_ => return Err(no),
		}
		self.s.det.insert(pid, d);
		Ok(())
	}
	fn migrated(&mut self, _from: u32, q: u64, r: &Response) -> Result<(), No> {
		let no = "F12:unexpected answer";
		let (pid, user) = self.s.queue.remove(&q).ok_or(no)?;
		let st = self.s.mig.get(&(pid, user)).map(|x| x.0.clone()).ok_or(no)?;
		let next = match r {
			Response::DispatchResult(MaybeErrorCode::Success) => MigrationStatus::Confirmed,
			Response::DispatchResult(_) => MigrationStatus::Failed,
			_ => return Err(no),
		};
		if !matches!(st, MigrationStatus::Sent(_)) {
			return Err(no);
		}
		if next == MigrationStatus::Confirmed {
			let u = self.s.unmig.entry(pid).or_default();
			*u = u.saturating_sub(1);
		}
		self.s.mig.get_mut(&(pid, user)).unwrap().0 = next;
		Ok(())
	}
}
/// The query belongs to the readiness check of this project.
fn asked(d: &Det, q: u64) -> bool {
	matches!(&d.migration_type, Some(MigrationType::Pallet(PalletMigrationInfo { migration_readiness_check: Some(c), .. }))
		if c.holding_check.0 == q || c.pallet_check.0 == q)
}
#[allow(dead_code)]
pub type Bounded<T> = BoundedVec<T, frame_support::traits::ConstU32<64>>;
#[allow(unused)]
fn _t(_: Rt, _: [u32; 2]) -> [u32; 2] {
	[USDT, USDC]
}
