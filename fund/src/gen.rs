//! The seeded scheduler: what happens next, to whom, and what goes wrong.
use crate::{ops::*, runtime::*, snap::*, spec, world::*};
use pallet_funding::{types::*, ParticipationMode};
use polimec_common::migration_types::MigrationStatus;
use simcore::Rng;
use sp_arithmetic::FixedPointNumber;

pub fn cfg(r: &mut Rng, _prop: &str) -> Cfg {
	let users = r.range(6, 16) as u8;
	let ndid = r.range(4, users as u64) as u8;
	let dids = (0..users).map(|i| if r.chance(0.85) { i % ndid + 1 } else { r.range(1, ndid as u64) as u8 }).collect();
	let inst = r.chance(0.3);
	let types = (0..users).map(|_| if inst { 2 } else { r.weighted(&[3, 3, 3]) as u8 }).collect();
	let poor = r.chance(0.3);
	let rich = |r: &mut Rng, x: u64| if poor && r.chance(0.3) { r.below(x / 5000) } else { x };
	let plmc = (0..users).map(|_| rich(r, 10_000_000)).collect();
	let usd = (0..users).map(|_| rich(r, 80_000_000)).collect();
	Cfg {
		users,
		dids,
		types,
		plmc,
		usd,
		treasury: if r.chance(0.1) { 3_000 } else { 20_000_000 },
		dispenser: if r.chance(0.2) { 1500 } else { 20_000 },
	}
}

pub struct Gen {
	pub faults: bool,
	p_odd: f64,
	p_net: f64,
	p_price: f64,
	p_inject: f64,
	p_router: f64,
	p_reorg: f64,
	p_bad_jwt: f64,
	p_lose: f64,
	projects: u32,
	heat: u64,
	otm: u64,
	pace: u64,
	pallet_migration: f64,
	share_chain: bool,
	prefer: &'static [&'static str],
	raw_bond: bool,
	raw_fees: bool,
}

fn prefer(prop: &str) -> &'static [&'static str] {
	match prop {
		"F11" | "F12" => &["migrate"],
		"L01" => &["vest", "settle"],
		"F15" => &["dispense"],
		"P01" => &["otm", "settle"],
		"F13" => &["evaluate"],
		"F04" | "F06" => &["bid"],
		"F14" => &["contribute"],
		"F07" => &["contribute", "threshold"],
		"F08" | "F09" => &["settle"],
		_ => &[],
	}
}

impl Gen {
	pub fn new(r: &mut Rng, prop: &str, _c: &Cfg) -> Gen {
		let faults = r.chance(0.75);
		let f = |r: &mut Rng, p: f64, x: f64| if faults && r.chance(p) { x * (0.3 + r.below(100) as f64 / 70.0) } else { 0.0 };
		let pre = prefer(prop);
		Gen {
			faults,
			p_odd: if r.chance(if matches!(prop, "F05" | "F01" | "F10") { 0.6 } else { 0.2 }) { 0.3 } else { 0.06 },
			p_net: f(r, 0.7, 0.12),
			p_price: f(r, 0.5, 0.04),
			p_inject: f(r, 0.6, 0.05),
			p_router: f(r, 0.4, 0.03),
			p_reorg: f(r, 0.4, 0.15),
			p_bad_jwt: f(r, 0.6, 0.06),
			p_lose: f(r, 0.6, 0.2),
			projects: *r.pick(&[1, 1, 1, 2, 2, 3]),
			heat: r.range(1, 10),
			otm: if pre.contains(&"otm") { r.range(30, 90) } else { *r.pick(&[0, 10, 30, 70]) },
			pace: r.range(1, 6),
			pallet_migration: if pre.contains(&"migrate") { 0.92 } else { 0.5 },
			share_chain: r.chance(0.05),
			prefer: pre,
			raw_bond: prop == "F02" && r.chance(0.1),
			raw_fees: prop == "P01" && r.chance(0.1),
		}
	}
	fn user(&self, r: &mut Rng, w: &World) -> A {
		r.range(1, w.cfg.users as u64) as A
	}
	fn jwt(&self, r: &mut Rng, w: &World, a: A) -> Jwt {
		let i = a as usize - 1;
		let mut j = Jwt {
			bad_sig: false,
			subject: a as u8,
			did: w.cfg.dids[i],
			ty: w.cfg.types[i],
			policy: 1,
			exp: Some(w.ms / 1000 + r.range(1, 100_000)),
		};
		if r.chance(self.p_bad_jwt) {
			match r.below(8) {
				0 => j.bad_sig = true,
				1 => j.subject = r.range(1, w.cfg.users as u64) as u8,
				2 => j.exp = Some((w.ms / 1000).saturating_sub(r.below(3))),
				3 => j.exp = None,
				4 => j.policy = r.range(1, 3) as u8,
				5 => j.ty = r.below(3) as u8,
				6 => j.did = *r.pick(&w.cfg.dids),
				_ => j.exp = Some(w.ms / 1000 + r.below(2)),
			}
		}
		j
	}
	fn issuer_jwt(&self, r: &mut Rng, w: &World, a: A) -> Jwt {
		let mut j = self.jwt(r, w, a);
		if r.chance(0.97) {
			j.ty = 2;
		}
		j
	}
	fn metadata(&self, r: &mut Rng, w: &World) -> MetaSpec {
		let decimals = *r.pick(&[6u8, 8, 10, 12, 18]);
		let unit = 10u128.pow(decimals as u32);
		// price in millis of a USD for a whole token
		let milli = *r.pick(&[10u64, 100, 250, 1000, 3333, 10_000, 99_990]);
		let target_usd = *r.pick(&[30_000u64, 100_000, 500_000, 2_000_000, 9_000_000]);
		let alloc = (target_usd as u128 * 1000 / milli as u128) * unit + if r.chance(0.3) { r.below(unit as u64) as u128 } else { 0 };
		let price = P::saturating_from_rational(milli as u128, 1000u128).into_inner() / 10u128.pow(decimals as u32 - 6);
		let cap = |r: &mut Rng, lo: u64| -> Option<u64> {
			r.chance(0.4).then(|| lo.max(target_usd * 1_000_000 / r.range(2, 12)))
		};
		let bmin = 5_000_000_000u64;
		let cmin = *r.pick(&[1_000_000u64, 10_000_000, 200_000_000]);
		let mut cur: Vec<u8> = match r.below(4) {
			0 => vec![r.below(3) as u8],
			1 => vec![0, 2],
			_ => vec![0, 1, 2],
		};
		r.shuffle(&mut cur);
		let mut m = MetaSpec {
			decimals,
			supply: alloc * r.range(1, 3) as u128,
			alloc,
			auction: *r.pick(&[5u8, 20, 50, 50, 80, 100]),
			price,
			bid_prof: Ticket { min: bmin, max: cap(r, bmin) },
			bid_inst: Ticket { min: bmin, max: cap(r, bmin) },
			con_retail: Ticket { min: cmin, max: cap(r, cmin) },
			con_prof: Ticket { min: cmin, max: cap(r, cmin) },
			con_inst: Ticket { min: cmin, max: cap(r, cmin) },
			currencies: cur,
			dest: if r.chance(0.7) { 150 } else { r.range(1, w.cfg.users as u64) as u8 },
			policy: if r.chance(0.97) { Some(1) } else { None },
		};
		if m.dest == 150 {
			m.dest = 204;
		}
		if r.chance(self.p_odd * 0.4) {
			match r.below(16) {
				12..=13 => {
					// At the least or greatest target, give or take a millionth of a dollar.
					let target = if r.chance(0.5) { 1000u128 } else { 1_000_000_000 };
					let step = 1000 * 10u128.pow(decimals as u32 - 6) / milli as u128;
					m.alloc = (target * 1000 * unit / milli as u128 + step * r.below128(5)).saturating_sub(2 * step);
					m.supply = m.alloc * r.range(1, 2) as u128;
				},
				14..=15 => {
					// At the least or greatest price.
					let (n, d) = if r.chance(0.5) { (1u128, 100_000u128) } else { (1000, 1) };
					m.price = n * 10u128.pow(18) / d / 10u128.pow(decimals as u32 - 6) + r.below128(3) - 1;
					m.alloc = target_usd as u128 * unit * d / n;
					m.supply = m.alloc * r.range(1, 2) as u128;
				},
				0 => m.price = 0,
				1 => {
					let t = r.chance(0.5);
					(if t { &mut m.bid_prof } else { &mut m.bid_inst }).min = bmin - r.below(2);
				},
				2 => {
					let t = match r.below(5) {
						0 => &mut m.bid_prof,
						1 => &mut m.bid_inst,
						2 => &mut m.con_retail,
						3 => &mut m.con_prof,
						_ => &mut m.con_inst,
					};
					t.max = Some(t.min - r.below(2));
				},
				3 => m.supply = m.alloc.saturating_sub(r.below128(2)),
				4 => m.auction = 0,
				5 => m.currencies = vec![0, 0],
				6 => m.decimals = *r.pick(&[5, 19]),
				7 => m.alloc = 0,
				8 => m.alloc = unit - r.below128(2),
				9 => m.price = u128::MAX / r.range(1, 1_000_000) as u128,
				10 => {
					let any = r.below(1_000_001);
					let min = *r.pick(&[0, 999_999, 1_000_000, any]);
					match r.below(3) {
						0 => m.con_retail.min = min,
						1 => m.con_prof.min = min,
						_ => m.con_inst.min = min,
					}
				},
				_ => m.currencies = vec![],
			}
		}
		m
	}
	fn call(&self, r: &mut Rng, who: A, op: Op) -> Step {
		Step::Call { who, op, reorg: r.chance(self.p_reorg) }
	}
	fn currency(&self, r: &mut Rng, m: &Meta) -> u8 {
		if m.participation_currencies.is_empty() || r.chance(self.p_odd * 0.3) {
			return r.below(3) as u8;
		}
		match m.participation_currencies[r.below(m.participation_currencies.len() as u64) as usize] {
			AcceptedFundingAsset::USDT => 0,
			AcceptedFundingAsset::USDC => 1,
			AcceptedFundingAsset::DOT => 2,
		}
	}
	fn mult(&self, r: &mut Rng, ty: u8) -> u8 {
		if r.below(100) < self.otm {
			return 0;
		}
		if r.chance(self.p_odd * 0.5) {
			return r.range(1, 27) as u8;
		}
		let top = match ty {
			0 => 5,
			1 => 10,
			_ => 25,
		};
		if r.chance(0.35) {
			1
		} else {
			r.range(1, top) as u8
		}
	}
	/// What is usual for a project in this state.
	fn usual(&self, r: &mut Rng, w: &World, pid: u32) -> Option<Step> {
		let d = &w.cur.det[&pid];
		let m = &w.cur.meta[&pid];
		let issuer = num(&d.issuer_account);
		let who = self.user(r, w);
		let range = (pid, 0, 0)..=(pid, A::MAX, u32::MAX);
		let skip = |r: &mut Rng| {
			// time to the end of the round, around it, or a part of it
			let left = d.round_duration.end().map_or(5, |e| e.saturating_sub(w.now));
			let n = match r.below(5) {
				0 => left,
				1 => left + 1,
				2 => left.saturating_sub(1),
				_ => r.range(1, 1 + left.min(6)),
			};
			Step::Time { blocks: n.max(1), ms: n.max(1) * 12_000 }
		};
		Some(match &d.status {
			ProjectStatus::Application => match r.below(10) {
				0 => {
					let (jwt, meta) = (self.issuer_jwt(r, w, issuer), self.metadata(r, w));
					self.call(r, issuer, Op::Edit { jwt, pid, meta })
				},
				1 if r.chance(0.3) => {
					let jwt = self.issuer_jwt(r, w, issuer);
					self.call(r, issuer, Op::Remove { jwt, pid })
				},
				_ => {
					let who = if r.chance(0.95) { issuer } else { who };
					let jwt = self.issuer_jwt(r, w, who);
					self.call(r, who, Op::StartEvaluation { jwt, pid })
				},
			},
			ProjectStatus::EvaluationRound => {
				if r.chance(0.12) {
					return Some(skip(r));
				}
				if r.chance(0.12) {
					return Some(self.call(r, who, Op::EndEvaluation { pid }));
				}
				let t = d.fundraising_target_usd;
				let usd = match r.below(8) {
					0 => 100_000_000,
					1 => t / 10,
					2 => (t / 10).saturating_sub(d.evaluation_round_info.total_bonded_usd),
					3 => r.below128(200_000_000),
					_ => t * r.range(1, 6) as u128 / 100 + r.below128(1_000_000),
				};
				let jwt = self.jwt(r, w, who);
				self.call(r, who, Op::Evaluate { jwt, pid, usd })
			},
			ProjectStatus::AuctionRound => {
				if r.chance(0.03 + 0.02 * self.pace as f64) {
					return Some(skip(r));
				}
				if r.chance(0.05) {
					return Some(self.call(r, who, Op::EndAuction { pid }));
				}
				let size = spec::auction_size(m);
				let b = w.cur.bucket.get(&pid)?;
				let usd_to_ct = |usd: u128| b.current_price.reciprocal().and_then(|x| x.checked_mul_int(usd)).unwrap_or(1);
				let ct = match r.below(8) {
					0 => b.amount_left,
					1 => b.amount_left.saturating_add(r.below128(b.delta_amount.saturating_mul(3) + 2)),
					2 => usd_to_ct(5_000_000_000).saturating_add(r.below128(2)),
					3 => usd_to_ct(r.range(4_999_000_000, 9_000_000_000) as u128),
					4 if r.chance(0.3) => size.saturating_add(r.below128(2)),
					_ => (size / 100).saturating_mul(r.range(1, 4 * self.heat) as u128).max(usd_to_ct(5_100_000_000)).min(size.max(1)),
				};
				let mut jwt = self.jwt(r, w, who);
				if jwt.ty == 0 && r.chance(0.9) {
					jwt.ty = 1;
				}
				let mult = self.mult(r, jwt.ty);
				let asset = self.currency(r, m);
				self.call(r, who, Op::Bid { jwt, pid, ct, mult, asset })
			},
			ProjectStatus::CommunityRound(_) => {
				if r.chance(0.04 + 0.02 * self.pace as f64) {
					return Some(skip(r));
				}
				if r.chance(0.06) {
					return Some(self.call(r, who, Op::EndFunding { pid }));
				}
				if r.chance(0.05) {
					let rej: Vec<Key> =
						w.cur.bids.range(range).filter(|x| x.1.status == BidStatus::Rejected).map(|x| *x.0).collect();
					if let Some(k) = r.pick_opt(&rej) {
						return Some(self.call(r, who, Op::SettleBid { pid, who: k.1, id: k.2 }));
					}
					return None;
				}
				let wap = d.weighted_average_price?;
				let usd_to_ct = |usd: u128| wap.reciprocal().and_then(|x| x.checked_mul_int(usd)).unwrap_or(1);
				let left = d.remaining_contribution_tokens;
				let threshold = sp_arithmetic::Perquintill::from_percent(33) * d.fundraising_target_usd;
				let exact = if self.prefer.contains(&"threshold") { 0.5 } else { 0.1 };
				if exact > 0.4 && d.funding_amount_reached_usd >= threshold && d.funding_amount_reached_usd < threshold + 2 && r.chance(0.8) {
					return Some(skip(r));
				}
				let ct = match r.below(8) {
					0 => left,
					1 => left.saturating_add(1),
					2 => left.saturating_sub(r.below128(3)),
					3 => usd_to_ct(1_000_000).saturating_add(r.below128(2)),
					_ if d.funding_amount_reached_usd < threshold && r.chance(exact) => {
						// to the threshold of success, or just short of it
						let short = *r.pick(&[0, 0, 0, 1, 1000]);
						usd_to_ct(threshold - d.funding_amount_reached_usd).saturating_sub(short).saturating_add(r.below128(2)).max(1)
					},
					4 => usd_to_ct(r.range(900_000, 300_000_000) as u128),
					_ => (m.total_allocation_size / 100).saturating_mul(r.range(1, 4 * self.heat) as u128).min(left.max(1)),
				};
				let jwt = self.jwt(r, w, who);
				let mult = self.mult(r, jwt.ty);
				let asset = self.currency(r, m);
				self.call(r, who, Op::Contribute { jwt, pid, ct, mult, asset })
			},
			ProjectStatus::FundingFailed | ProjectStatus::FundingSuccessful => {
				let op = if r.chance(0.9) { Op::StartSettlement { pid } } else { Op::EndFunding { pid } };
				self.call(r, who, op)
			},
			ProjectStatus::SettlementStarted(_) => {
				let mut ops: Vec<Op> = vec![];
				ops.extend(w.cur.evals.range(range.clone()).map(|(k, _)| Op::SettleEvaluation { pid, who: k.1, id: k.2 }));
				ops.extend(w.cur.bids.range(range.clone()).map(|(k, _)| Op::SettleBid { pid, who: k.1, id: k.2 }));
				ops.extend(w.cur.cons.range(range).map(|(k, _)| Op::SettleContribution { pid, who: k.1, id: k.2 }));
				let op = match r.pick_opt(&ops) {
					Some(o) if r.chance(0.95) => o.clone(),
					_ => Op::MarkSettled { pid },
				};
				self.call(r, who, op)
			},
			ProjectStatus::SettlementFinished(_) => {
				let who = if r.chance(0.95) { issuer } else { who };
				let jwt = self.issuer_jwt(r, w, who);
				let op = if r.chance(self.pallet_migration) {
					let para = 2000 + if self.share_chain { 0 } else { pid };
					Op::StartPallet { jwt, pid, para }
				} else {
					Op::StartOffchain { jwt, pid }
				};
				self.call(r, who, op)
			},
			ProjectStatus::CTMigrationStarted => {
				let users: Vec<A> = w.cur.mig.range((pid, 0)..=(pid, A::MAX)).map(|x| x.0 .1).collect();
				let open: Vec<A> = w
					.cur
					.mig
					.range((pid, 0)..=(pid, A::MAX))
					.filter(|x| matches!(x.1 .0, MigrationStatus::NotStarted | MigrationStatus::Failed))
					.map(|x| x.0 .1)
					.collect();
				let user = match r.pick_opt(&open) {
					Some(u) if r.chance(0.9) => *u,
					_ => r.pick_opt(&users).copied().unwrap_or(who),
				};
				match &d.migration_type {
					Some(MigrationType::Offchain) => match r.below(10) {
						0 => self.call(r, who, Op::MarkFinished { pid }),
						1 => self.call(r, who, Op::ConfirmOffchain { pid, who: user }),
						_ => self.call(r, issuer, Op::ConfirmOffchain { pid, who: user }),
					},
					Some(MigrationType::Pallet(i)) => {
						let para = u32::from(i.parachain_id);
						let h = i.hrmp_channel_status;
						let c = w.chains.get(&para);
						let need = w.cur.ct_supply.get(&pid).copied().unwrap_or(0);
						if c.map_or(true, |c| !c.receiver || c.funded < need) && r.chance(0.7) {
							let have = c.map_or(0, |c| c.funded);
							let lack = need.saturating_sub(have);
							let fund = if r.chance(0.85) { lack + r.below128(1 + lack / 2) } else { lack / r.range(1, 4) as u128 };
							return Some(Step::Para { para, fund, receiver: !r.chance(self.p_lose * 0.5) });
						}
						if !w.net.is_empty() && r.chance(0.6) {
							return Some(self.message(r, w));
						}
						if h.project_to_polimec != ChannelStatus::Open {
							let (mut size, mut capacity) = (102_400, 1000);
							if r.chance(self.p_lose) {
								size = *r.pick(&[0, 49_999, 50_000, 102_400, 102_401]);
								capacity = *r.pick(&[0, 7, 8, 1000, 1001]);
							}
							return Some(Step::ChannelRequest { para, size, capacity });
						}
						if h.polimec_to_project != ChannelStatus::Open {
							return Some(Step::ChannelAccepted { para });
						}
						let ready = matches!(
							&i.migration_readiness_check,
							Some(c) if c.holding_check.1 == CheckOutcome::Passed(None) &&
								matches!(c.pallet_check.1, CheckOutcome::Passed(Some(_)))
						);
						match r.below(20) {
							0 => self.call(r, who, Op::MarkFinished { pid }),
							1 => self.call(r, issuer, Op::ConfirmOffchain { pid, who: user }),
							2..=3 => {
								let who = if r.chance(0.8) { issuer } else { who };
								let jwt = self.issuer_jwt(r, w, who);
								self.call(r, who, Op::Readiness { jwt, pid })
							},
							4..=9 if !ready => {
								let jwt = self.issuer_jwt(r, w, issuer);
								self.call(r, issuer, Op::Readiness { jwt, pid })
							},
							10 if open.is_empty() => self.call(r, who, Op::MarkFinished { pid }),
							_ => self.call(r, who, Op::SendMigration { pid, who: user }),
						}
					},
					None => return None,
				}
			},
			_ => return None,
		})
	}
	fn message(&self, r: &mut Rng, w: &World) -> Step {
		let nth = if r.chance(self.p_net) { r.below(w.net.len() as u64) as usize } else { 0 };
		let act = if r.chance(self.p_lose) {
			if r.chance(0.5) {
				Act::Drop
			} else {
				Act::Duplicate
			}
		} else {
			Act::Deliver
		};
		Step::Net { nth, act }
	}
	fn response(&self, r: &mut Rng, w: &World, from: u32) -> Resp {
		match r.below(10) {
			0 => Resp::Null,
			1 => Resp::NoAssets,
			2 | 3 => Resp::Assets {
				loc: if r.chance(0.6) { from } else { *r.pick(&[0, 1, 2000, 2001, 3344]) },
				amount: match r.below(3) {
					0 => 0,
					1 => u128::MAX,
					_ => w.cur.ct_supply.values().next().copied().unwrap_or(5) - r.below(2) as u128,
				},
			},
			4 => Resp::NoPallets,
			5 | 6 => Resp::Pallet { right: r.chance(0.6), index: *r.pick(&[51, 51, 0, 255, 256, 70_000]), twice: r.chance(0.2) },
			7 => Resp::Dispatch { ok: false },
			8 => Resp::Dispatch { ok: true },
			_ => Resp::Execution,
		}
	}
	/// Anything by anybody.
	fn odd(&self, r: &mut Rng, w: &World) -> Step {
		let mut who = self.user(r, w);
		let pid = r.below(w.cur.next["project"] as u64 + 1) as u32;
		if r.chance(0.4) {
			// the issuer, at the wrong time
			if let Some(a) = w.cur.det.get(&pid).map(|d| num(&d.issuer_account)).filter(|a| *a >= 1 && *a <= w.cfg.users as A) {
				who = a;
			}
		}
		let other = self.user(r, w);
		let ids = *r.pick(&[w.cur.next["evaluation"], w.cur.next["bid"], w.cur.next["contribution"]]);
		let id = r.below(1 + ids as u64) as u32;
		let m = w.cur.meta.get(&pid).cloned();
		let op = match r.below(26) {
			0 if w.cur.next["project"] < 40 => Op::Create { jwt: self.issuer_jwt(r, w, who), meta: self.metadata(r, w) },
			1 => Op::Edit { jwt: self.issuer_jwt(r, w, who), pid, meta: self.metadata(r, w) },
			2 => Op::Remove { jwt: self.issuer_jwt(r, w, who), pid },
			3 => Op::StartEvaluation { jwt: self.issuer_jwt(r, w, who), pid },
			4 => Op::Evaluate { jwt: self.jwt(r, w, who), pid, usd: r.range(99_000_000, 5_000_000_000) as u128 },
			5 => Op::EndEvaluation { pid },
			6 | 7 => Op::Bid {
				jwt: self.jwt(r, w, who),
				pid,
				ct: m.as_ref().map_or(1000, |m| spec::auction_size(m) / r.range(1, 50) as u128),
				mult: r.below(27) as u8,
				asset: r.below(3) as u8,
			},
			8 => Op::EndAuction { pid },
			9 | 10 => Op::Contribute {
				jwt: self.jwt(r, w, who),
				pid,
				ct: m.as_ref().map_or(1000, |m| m.total_allocation_size / r.range(1, 80) as u128),
				mult: r.below(27) as u8,
				asset: r.below(3) as u8,
			},
			11 => Op::EndFunding { pid },
			12 => Op::StartSettlement { pid },
			13 => Op::SettleEvaluation { pid, who: other, id },
			14 => Op::SettleBid { pid, who: other, id },
			15 => Op::SettleContribution { pid, who: other, id },
			16 => Op::MarkSettled { pid },
			17 => Op::StartOffchain { jwt: self.issuer_jwt(r, w, who), pid },
			18 => Op::ConfirmOffchain { pid, who: other },
			19 => Op::StartPallet { jwt: self.issuer_jwt(r, w, who), pid, para: 2000 + pid },
			20 => Op::Readiness { jwt: self.issuer_jwt(r, w, who), pid },
			21 => Op::SendMigration { pid, who: other },
			22 => Op::MarkFinished { pid },
			23 => Op::FakeAnswer { query: r.below(w.cur.query_next + 1), confirm: r.chance(0.5) },
			24 => Op::BondsBack { pid, eval: r.chance(0.2) },
			_ => Op::FeesOut { pid, asset: r.below(3) as u8 },
		};
		self.call(r, who, op)
	}
	fn wallet(&self, r: &mut Rng, w: &World) -> Step {
		let who = self.user(r, w);
		let with: Vec<A> = w.cur.sched.keys().filter(|k| k.1 == 1).map(|k| k.0).collect();
		let target = r.pick_opt(&with).copied().unwrap_or(who);
		let n = w.cur.sched.get(&(target, 1)).map_or(0, |v| v.len()) as u64;
		let op = match r.below(10) {
			0 => return self.call(r, target, Op::Vest),
			1 => Op::VestOther { who: target },
			2 => return self.call(r, target, Op::VestAll),
			3 => Op::VestAllOther { who: target },
			4 | 5 => return { let (i, j) = (r.below(n + 1) as u32, r.below(n + 1) as u32); self.call(r, target, Op::Merge { i, j }) },
			6 | 7 => Op::VestedTransfer {
				to: self.user(r, w),
				locked: match r.below(4) {
					0 => 511 + r.below(3) as u128,
					1 => r.below128(100_000),
					_ => r.below128(1000 * PLMC),
				},
				per_block: match r.below(5) {
					0 => r.below(3) as u128,
					1 => r.below128(1000),
					_ => r.below128(50 * PLMC),
				},
				start: (w.now + r.below(40)).saturating_sub(r.below(30)),
			},
			_ => Op::Transfer { to: self.user(r, w), asset: r.below(4) as u8, amount: r.below128(100 * PLMC) },
		};
		self.call(r, who, op)
	}
	/// Now and then a run ends with a call that shows a known finding.
	fn raw(&mut self, r: &mut Rng, w: &World) -> Option<Step> {
		if self.raw_bond && r.chance(0.1) {
			let v: Vec<A> = w.cur.sched.keys().filter(|k| k.1 == 1 && k.0 < 200).map(|k| k.0).collect();
			let op = Op::VestOther { who: *r.pick_opt(&v)? };
			return w.masked(1, &op).map(|_| Step::Raw { who: 1, op });
		}
		if self.raw_fees && r.chance(0.1) {
			let v: Vec<u32> = w.cur.bids.iter().filter(|x| x.1.mode == ParticipationMode::OTM).map(|x| x.0 .0).collect();
			let pid = *r.pick_opt(&v)?;
			if matches!(w.cur.rel.get(&pid), Some(Rel::Locked(_))) {
				let op = Op::FeesOut { pid, asset: r.below(3) as u8 };
				return w.masked(1, &op).map(|_| Step::Raw { who: 1, op });
			}
		}
		None
	}
	pub fn step(&mut self, r: &mut Rng, w: &World) -> Step {
		if let Some(s) = self.raw(r, w) {
			return s;
		}
		if r.chance(self.p_price) {
			let asset = *r.pick(&[PLMC_ID, DOT, USDC, USDT]);
			let d = default_price(asset);
			let milli = match r.below(6) {
				0 => None,
				1 => Some(d * r.range(1, 20)),
				2 => Some((d / r.range(1, 20)).max(1)),
				3 => Some(d + 1),
				_ => Some(d),
			};
			return Step::Price { asset, milli };
		}
		if r.chance(self.p_router) || (w.router_down && r.chance(0.15)) {
			return Step::Router { down: !w.router_down };
		}
		if r.chance(self.p_inject) {
			let open: Vec<(u64, u32)> = w.cur.queries.iter().map(|(q, v)| (*q, v.0)).collect();
			let (query, from) = match r.pick_opt(&open) {
				Some((q, p)) if r.chance(0.8) => (*q, if r.chance(0.7) { *p } else { *r.pick(&[2000, 2001, 0, 3344]) }),
				_ => (r.below(w.cur.query_next + 3), *r.pick(&[2000, 2001, 2002])),
			};
			let response = self.response(r, w, from);
			if r.chance(0.3) {
				let from = match r.below(10) {
					0..=3 => From::Chain(from),
					4 | 5 => From::Inside(from),
					6 => From::Below(from),
					7 => From::Beyond(from),
					8 => From::Relay,
					_ => From::Here,
				};
				let confirm = w.cur.queue.contains_key(&query) != r.chance(0.1);
				let response = match r.below(4) {
					0 if confirm => Resp::Dispatch { ok: true },
					_ => response,
				};
				return Step::Direct { from, confirm, query, response };
			}
			return Step::Inject { from, query, response };
		}
		if !w.net.is_empty() && r.chance(0.15) {
			return self.message(r, w);
		}
		if r.chance(self.p_odd) {
			return self.odd(r, w);
		}
		if r.chance(0.04) {
			let n = match r.below(12) {
				0 if self.faults => r.range(1000, 400_000),
				1 => r.range(20, 200),
				_ => r.range(1, self.pace),
			};
			let ms = match r.below(10) {
				0 if self.faults => 0,
				1 if self.faults => n * 12_000 + r.range(1, 10_000_000),
				_ => n * 12_000,
			};
			return Step::Time { blocks: n, ms };
		}
		let vest = if self.prefer.contains(&"vest") { 0.3 } else { 0.05 };
		if r.chance(vest) {
			if r.chance(0.3) && !w.cur.sched.is_empty() {
				let n = r.range(1, 60_000);
				return Step::Time { blocks: n, ms: n * 12_000 };
			}
			return self.wallet(r, w);
		}
		let disp = if self.prefer.contains(&"dispense") { 0.4 } else { 0.03 };
		if r.chance(disp) {
			let who = self.user(r, w);
			if r.chance(0.1) {
				let amount = *r.pick(&[0, 5 * PLMC, 5 * PLMC + 1, 6 * PLMC, 100 * PLMC]);
				let who = if r.chance(0.8) { 0 } else { who };
				return self.call(r, who, Op::SetDispense { amount });
			}
			let mut jwt = self.jwt(r, w, who);
			if r.chance(0.9) {
				jwt.policy = 99;
			}
			return self.call(r, who, Op::Dispense { jwt });
		}
		if r.chance(0.02) && !w.cur.rel.is_empty() {
			let pids: Vec<u32> = w.cur.rel.keys().copied().collect();
			let pid = *r.pick(&pids);
			let who = self.user(r, w);
			let op = if r.chance(0.5) {
				Op::BondsBack { pid, eval: r.chance(0.1) }
			} else {
				Op::FeesOut { pid, asset: r.below(3) as u8 }
			};
			return self.call(r, who, op);
		}
		let live: Vec<u32> = w
			.cur
			.det
			.iter()
			.filter(|x| {
				!matches!(
					x.1.status,
					ProjectStatus::CTMigrationFinished | ProjectStatus::SettlementFinished(FundingOutcome::Failure)
				)
			})
			.map(|x| *x.0)
			.collect();
		if (live.len() as u32) < self.projects && w.cur.next["project"] < 8 && (live.is_empty() || r.chance(0.1)) {
			let who = self.user(r, w);
			let (jwt, meta) = (self.issuer_jwt(r, w, who), self.metadata(r, w));
			return self.call(r, who, Op::Create { jwt, meta });
		}
		match r.pick_opt(&live) {
			Some(p) => {
				let p = *p;
				self.usual(r, w, p).unwrap_or_else(|| self.odd(r, w))
			},
			None => self.odd(r, w),
		}
	}
}
