//! The seeded scheduler: what happens next, to whom, and what goes wrong.
use crate::{
	runtime::*,
	snap::{Act, Status},
	spec::{Op, Params, BLOCKS_PER_YEAR},
	world::*,
};
use simcore::Rng;

fn rates(r: &mut Rng, max: u64) -> [u32; 3] {
	let mut v = [r.below(max + 1) as u32, r.below(max + 1) as u32, r.below(max + 1) as u32];
	v.sort();
	if r.chance(0.3) {
		// some of them equal
		let i = r.below(2) as usize;
		v[i + 1] = v[i];
	}
	v
}
/// Some of the values, the rest as it was.
fn near<T: Copy + Ord>(r: &mut Rng, mut v: [T; 3], old: [T; 3]) -> [T; 3] {
	if r.chance(0.4) {
		for i in 0..3 {
			if r.chance(0.5) {
				v[i] = old[i];
			}
		}
		v.sort();
	}
	v
}
fn bounds(r: &mut Rng, around: u128) -> [u128; 3] {
	let mut v = [r.below128(around * 2), r.below128(around * 2), r.below128(around * 2)];
	v.sort();
	if r.chance(0.2) {
		v[2] = around;
	}
	if r.chance(0.2) {
		v[0] = around.min(v[1]);
	}
	v.sort();
	v
}

pub fn cfg(r: &mut Rng, prop: &str) -> Cfg {
	let users = r.range(5, 20);
	let min_delegation = r.range(1, 20) as u128;
	let min_delegator = min_delegation + if r.chance(0.5) { r.below(30) as u128 } else { 0 };
	let delay = |r: &mut Rng| r.range(0, 3) as u32;
	let p = Params {
		ed: *r.pick(&[1, 1, 5, 20]),
		min_blocks: r.range(2, 4) as u32,
		leave_cand: delay(r),
		less_cand: delay(r),
		leave_del: delay(r),
		revoke: delay(r),
		less_del: delay(r),
		pay: r.range(1, 3) as u32,
		min_selected: r.range(1, 2) as u32,
		top: r.range(1, 4) as u32,
		bottom: r.range(1, 3) as u32,
		max_dels: r.range(1, 4) as u32,
		min_cand: r.range(5, 100) as u128,
		min_delegator,
		min_delegation,
	};
	let poor = r.chance(0.4);
	let wealth: Vec<u128> = (0..users)
		.map(|_| {
			if poor && r.chance(0.4) {
				(p.ed + r.below(200) as u128).max(1)
			} else {
				r.range(500, 20_000) as u128
			}
		})
		.collect();
	let len = r.range(p.min_blocks as u64, 7).max(p.min_selected as u64 + 1) as u32;
	let selected = r.range(p.min_selected as u64, (len - 1) as u64) as u32;
	let mut left: Vec<u128> = wealth.iter().map(|w| w.saturating_sub(p.ed)).collect();
	let mut ids: Vec<A> = (1..=users).collect();
	r.shuffle(&mut ids);
	let nc = r.below(users / 2 + 2) as usize;
	let mut cands = vec![];
	for a in ids.iter().take(nc) {
		let i = *a as usize - 1;
		if left[i] >= p.min_cand {
			let b = p.min_cand + r.below128((left[i] - p.min_cand + 1).min(400));
			left[i] -= b;
			cands.push((*a, b));
		}
	}
	let mut dels: Vec<(A, A, u128, u8)> = vec![];
	if !cands.is_empty() {
		for a in ids.iter().skip(nc) {
			let i = *a as usize - 1;
			for k in 0..r.below(p.max_dels as u64 + 1) {
				let c = r.pick(&cands).0;
				let min = if dels.iter().any(|d| d.0 == *a) { p.min_delegation } else { p.min_delegator };
				let n = dels.iter().filter(|d| d.1 == c).count() as u32;
				if dels.iter().any(|d| d.0 == *a && d.1 == c) || n >= p.top + p.bottom || left[i] < min {
					continue;
				}
				let x = min + r.below128((left[i] - min + 1).min(60));
				left[i] -= x;
				let _ = k;
				dels.push((*a, c, x, if r.chance(0.4) { r.range(1, 100) as u8 } else { 0 }));
			}
		}
	}
	let total: u128 = cands.iter().map(|c| c.1).sum::<u128>() + dels.iter().map(|d| d.2).sum::<u128>();
	let around = total.max(50);
	let big = r.chance(0.7);
	let pm = if big { r.range(1_000_000_000, 900_000_000_000) as u128 } else { r.range(50, 100_000) as u128 };
	let pm = pm.max(p.ed);
	// What a round issues: from nothing to a few times the stakes.
	let issued = pm + wealth.iter().sum::<u128>();
	let per = ((r.below(3_000) as u128 * 1_000_000_000) / issued).min(100_000_000) as u64;
	let _ = prop;
	Cfg {
		users,
		wealth,
		pm,
		cands,
		dels,
		expect: bounds(r, around),
		annual: rates(r, 1_000_000_000),
		round_rate: rates(r, per * 2),
		commission: *r.pick(&[0, 1, 200_000_000, 333_333_333, 1_000_000_000]),
		reserve: r.below(101) as u8,
		len,
		selected,
		p,
	}
}

pub struct Gen {
	pub faults: bool,
	p_odd: f64,
	p_reorg: f64,
	p_outside: f64,
	p_nobody: f64,
	p_drain: f64,
	p_block: f64,
	p_gov: f64,
	/// Among how many candidates delegations concentrate.
	focus: usize,
	w: [u32; 6],
}

impl Gen {
	pub fn new(r: &mut Rng, prop: &str) -> Gen {
		let faults = r.chance(0.75);
		let f = |r: &mut Rng, p: f64, x: f64| if faults && r.chance(p) { x * (0.3 + r.below(100) as f64 / 70.0) } else { 0.0 };
		let mut w = [3, 10, 5, 4, 3, 2];
		for x in w.iter_mut() {
			*x = *x * r.range(1, 6) as u32;
		}
		match prop {
			"K03" => w[1] *= 3,
			"K04" | "K12" => w[3] *= 2,
			"K09" => w[5] *= 4,
			"K06" => w[0] *= 3,
			_ => (),
		}
		Gen {
			faults,
			p_odd: if r.chance(if prop == "K05" { 0.6 } else { 0.2 }) { 0.3 } else { 0.06 },
			p_reorg: f(r, 0.4, 0.15),
			p_outside: f(r, 0.5, 0.05),
			p_nobody: f(r, 0.5, 0.3),
			p_drain: f(r, 0.3, 0.02),
			p_block: *r.pick(&[0.15, 0.3, 0.3, 0.5, 0.7]),
			p_gov: if prop == "K11" { 0.15 } else { *r.pick(&[0.0, 0.02, 0.06]) },
			focus: r.range(1, 5) as usize,
			w,
		}
	}
	fn user(&self, r: &mut Rng, w: &World) -> A {
		r.range(1, w.cfg.users)
	}
	fn hint(&self, r: &mut Rng, n: usize) -> u32 {
		let n = n as u32;
		if r.chance(0.06) {
			n.saturating_sub(r.range(1, 2) as u32)
		} else if r.chance(0.5) {
			n
		} else {
			n + r.below(5) as u32
		}
	}
	fn amount(&self, r: &mut Rng, x: u128) -> u128 {
		match r.below(4) {
			0 => x + 1,
			1 => x.saturating_sub(1),
			_ => x,
		}
	}

	pub fn step(&mut self, r: &mut Rng, w: &World) -> Step {
		if r.chance(self.p_block) {
			let none = r.chance(self.p_nobody);
			return Step::Block { author: (!none).then(|| r.below(8) as u8), reorg: r.chance(self.p_reorg) };
		}
		if r.chance(self.p_outside) {
			let a = self.user(r, w);
			let free = w.m.free(a);
			return if r.chance(0.6) {
				let left = *r.pick(&[0, w.m.p.ed, w.m.p.ed + 3, free / 2, free]);
				Step::Transfer { from: a, to: self.user(r, w), amount: free.saturating_sub(left) }
			} else {
				Step::Lock { who: a, amount: *r.pick(&[0, 1, free, free / 2, w.m.wealth.get(&a).copied().unwrap_or(0)]) }
			};
		}
		if r.chance(self.p_drain) {
			return if r.chance(0.5) {
				Step::Drain { left: w.m.p.ed + r.below(100) as u128 }
			} else {
				Step::Fund { amount: r.range(1, 5_000_000) as u128 }
			};
		}
		let (who, op) = if r.chance(self.p_gov) { (0, self.gov(r, w)) } else { self.op(r, w) };
		let mut who = who;
		let mut unsigned = false;
		if r.chance(self.p_odd * 0.3) {
			match r.below(4) {
				0 => who = 0,
				1 => unsigned = true,
				_ => who = self.user(r, w),
			}
		}
		Step::Call { who, op, reorg: r.chance(self.p_reorg), unsigned }
	}

	fn gov(&self, r: &mut Rng, w: &World) -> Op {
		let m = &w.m;
		let messy = r.chance(0.15);
		match r.below(9) {
			0 | 1 => {
				let v = bounds(r, m.total().max(50));
				let mut v = near(r, v, m.infl.expect);
				if messy {
					v.swap(0, 2);
				}
				Op::Expect(if r.chance(0.1) { m.infl.expect } else { v })
			},
			2 | 3 => {
				let v = rates(r, 1_000_000_000);
				let mut v = near(r, v, m.infl.annual);
				if messy {
					let i = r.below(2) as usize;
					v.swap(i, 2);
				}
				Op::Inflation(if r.chance(0.1) { m.infl.annual } else { v })
			},
			4 => Op::BondAccount(if r.chance(0.2) { m.pb.0 } else { self.user(r, w) }),
			5 => Op::BondPercent(if r.chance(0.2) { m.pb.1 } else { r.below(101) as u8 }),
			6 => {
				let n = if messy {
					*r.pick(&[0, m.p.min_selected.saturating_sub(1), m.round.2, m.round.2.saturating_add(1), m.total_selected])
				} else {
					r.range(m.p.min_selected as u64, (m.round.2 - 1).max(m.p.min_selected) as u64) as u32
				};
				Op::TotalSelected(n)
			},
			7 => Op::Commission(if r.chance(0.1) { m.commission } else { *r.pick(&[0, 7, 100_000_000, 999_999_999, 1_000_000_000]) }),
			_ => {
				let n = if messy {
					*r.pick(&[0, 1, m.p.min_blocks.saturating_sub(1), m.total_selected, m.round.2])
				} else if r.chance(0.05) {
					*r.pick(&[100, 3600, BLOCKS_PER_YEAR / 2, BLOCKS_PER_YEAR + 1, u32::MAX])
				} else {
					r.range(m.p.min_blocks as u64, 9) as u32
				};
				Op::BlocksPerRound(n)
			},
		}
	}

	fn op(&self, r: &mut Rng, w: &World) -> (A, Op) {
		let m = &w.m;
		let p = &m.p;
		let odd = r.chance(self.p_odd);
		let cands: Vec<A> = m.cands.keys().copied().collect();
		let users: Vec<A> = (1..=w.cfg.users).collect();
		let dels: Vec<A> = users.iter().copied().filter(|a| m.is_delegator(*a)).collect();
		let free: Vec<A> = users.iter().copied().filter(|a| !m.is_delegator(*a) && !m.cands.contains_key(a)).collect();
		let cand = |r: &mut Rng| -> A {
			if odd || cands.is_empty() {
				r.range(0, w.cfg.users)
			} else if r.chance(0.5) {
				cands[r.below(self.focus.min(cands.len()) as u64) as usize]
			} else {
				*r.pick(&cands)
			}
		};
		let dele = |r: &mut Rng| -> A {
			if odd || dels.is_empty() {
				r.range(1, w.cfg.users)
			} else {
				*r.pick(&dels)
			}
		};
		let idle = |r: &mut Rng| -> A {
			if odd || free.is_empty() {
				r.range(1, w.cfg.users)
			} else {
				*r.pick(&free)
			}
		};
		// A candidate the delegator backs.
		let backed = |r: &mut Rng, d: A| -> A {
			let own: Vec<A> = m.mine(d).keys().copied().collect();
			if odd || own.is_empty() {
				cand(r)
			} else {
				*r.pick(&own)
			}
		};
		let pool = m.pool().len();
		let mut weights = self.w;
		if cands.is_empty() {
			weights[0] = 100;
		}
		match r.weighted(&weights) {
			// Candidates come and go.
			0 => match r.weighted(&[6, 2, 3, 2, 3, 3]) {
				0 => {
					let a = idle(r);
					let have = m.spendable(a);
					let bond = match r.below(6) {
						0 => self.amount(r, p.min_cand),
						1 => self.amount(r, have),
						2 if !cands.is_empty() => {
							let aim = m.counted(*r.pick(&cands));
							self.amount(r, aim)
						},
						_ => p.min_cand + r.below(300) as u128,
					};
					(a, Op::Join { bond, hint: self.hint(r, pool) })
				},
				1 => (cand(r), Op::SchedLeave { hint: self.hint(r, pool) }),
				2 => {
					let due: Vec<A> = cands.iter().copied().filter(|a| matches!(m.cands[a].status, Status::Leaving(_))).collect();
					let c = if due.is_empty() || odd { cand(r) } else { *r.pick(&due) };
					let n = m.cands.get(&c).map_or(0, |x| x.dels.len());
					(self.user(r, w), Op::ExecLeave { c, hint: self.hint(r, n) })
				},
				3 => {
					let due: Vec<A> = cands.iter().copied().filter(|a| matches!(m.cands[a].status, Status::Leaving(_))).collect();
					let c = if due.is_empty() || odd { cand(r) } else { *r.pick(&due) };
					(c, Op::CancelLeave { hint: self.hint(r, pool) })
				},
				4 => (cand(r), Op::Offline),
				_ => {
					let idle: Vec<A> = cands.iter().copied().filter(|a| m.cands[a].status != Status::Active).collect();
					(if idle.is_empty() { cand(r) } else { *r.pick(&idle) }, Op::Online)
				},
			},
			// Delegations.
			1 => {
				let mut d = if r.chance(0.5) { dele(r) } else { idle(r) };
				let mut c = cand(r);
				if !odd {
					// Mostly one who can: neither a candidate nor at the limit, nor there already.
					for _ in 0..6 {
						let own = m.mine(d);
						let able = !m.cands.contains_key(&d)
							&& !own.contains_key(&c)
							&& own.len() < p.max_dels as usize
							&& m.spendable(d) >= p.min_delegator;
						if able {
							break;
						}
						d = self.user(r, w);
						c = cand(r);
					}
				}
				let own = m.mine(d).len();
				let min = if own == 0 { p.min_delegator } else { p.min_delegation };
				let have = m.spendable(d);
				let (n, nac) = m.cands.get(&c).map_or((0, 0), |x| (x.dels.len(), x.ac.len()));
				let amounts = m.cands.get(&c).map_or(vec![], |_| m.amounts(c));
				let low = amounts.last().copied().unwrap_or(0);
				let edge = amounts.get(p.top as usize - 1).copied().unwrap_or(0);
				let amt = match r.below(8) {
					0 => self.amount(r, min),
					1 => self.amount(r, low),
					2 => self.amount(r, edge),
					3 => self.amount(r, have),
					4 if !amounts.is_empty() => {
						let aim = *r.pick(&amounts);
						self.amount(r, aim)
					},
					5 => low + r.below(20) as u128,
					_ => min + r.below(60) as u128,
				};
				let ac = match r.below(4) {
					0 | 1 => None,
					2 => Some(0),
					_ => Some(*r.pick(&[1, 33, 50, 100])),
				};
				(
					d,
					Op::Delegate {
						c,
						amt,
						ac,
						backers: self.hint(r, n),
						compounding: self.hint(r, nac),
						mine: self.hint(r, own),
					},
				)
			},
			// Requests.
			2 => match r.below(8) {
				0 | 1 => {
					let c = cand(r);
					let bond = m.cands.get(&c).map_or(50, |x| x.bond);
					let most = bond.saturating_sub(p.min_cand);
					let less = match r.below(4) {
						0 => self.amount(r, most),
						1 => 0,
						_ => r.below128(most + 1),
					};
					(c, Op::SchedLess(less))
				},
				2 => (dele(r), Op::SchedLeaveDel),
				3 | 4 => {
					let d = dele(r);
					(d, Op::Revoke { c: backed(r, d) })
				},
				_ => {
					let d = dele(r);
					let c = backed(r, d);
					let have = m.cands.get(&c).and_then(|x| x.dels.get(&d)).copied().unwrap_or(10);
					let net = m.mine(d).values().sum::<u128>().saturating_sub(m.less(d)).saturating_sub(p.min_delegator);
					let most = have.saturating_sub(p.min_delegation);
					let amt = match r.below(6) {
						0 => self.amount(r, most),
						1 => self.amount(r, net),
						2 => self.amount(r, have),
						_ => r.below128(most.min(net) + 1),
					};
					(d, Op::DelLess { c, amt })
				},
			},
			// What becomes of requests.
			3 => {
				let mut open: Vec<(A, A, Act, u32)> = vec![];
				for (c, x) in &m.cands {
					open.extend(x.reqs.iter().map(|(d, q)| (*c, *d, q.0, q.1)));
				}
				let due: Vec<_> = open.iter().copied().filter(|q| q.3 <= m.round.0).collect();
				match r.weighted(&[6, 2, 3, 1, 2, 1]) {
					0 => {
						let q = if !due.is_empty() && !odd { Some(*r.pick(&due)) } else { r.pick_opt(&open).copied() };
						let (c, d) = q.map_or((cand(r), self.user(r, w)), |q| (q.0, q.1));
						(self.user(r, w), Op::ExecReq { d, c })
					},
					1 => {
						let q = r.pick_opt(&open).copied();
						let (c, d) = q.map_or((cand(r), self.user(r, w)), |q| (q.0, q.1));
						(d, Op::CancelReq { c })
					},
					2 => {
						let some: Vec<A> = open.iter().filter(|q| q.2.revoke()).map(|q| q.1).collect();
						let d = if some.is_empty() || odd { dele(r) } else { *r.pick(&some) };
						(self.user(r, w), Op::ExecLeaveDel { d, hint: self.hint(r, m.mine(d).len()) })
					},
					3 => {
						let some: Vec<A> = open.iter().filter(|q| q.2.revoke()).map(|q| q.1).collect();
						(if some.is_empty() || odd { dele(r) } else { *r.pick(&some) }, Op::CancelLeaveDel)
					},
					4 => {
						let some: Vec<A> = cands.iter().copied().filter(|c| m.cands[c].req.is_some()).collect();
						(self.user(r, w), Op::ExecLess { c: if some.is_empty() || odd { cand(r) } else { *r.pick(&some) } })
					},
					_ => {
						let some: Vec<A> = cands.iter().copied().filter(|c| m.cands[c].req.is_some()).collect();
						(if some.is_empty() || odd { cand(r) } else { *r.pick(&some) }, Op::CancelLess)
					},
				}
			},
			// More.
			4 => {
				if r.chance(0.3) {
					let c = cand(r);
					let have = m.spendable(c);
					let x = match r.below(4) {
						0 => self.amount(r, have),
						1 => 0,
						_ => r.below128(have.min(100) + 1),
					};
					(c, Op::More(x))
				} else {
					let d = dele(r);
					let c = backed(r, d);
					let have = m.spendable(d);
					let own = m.cands.get(&c).and_then(|x| x.dels.get(&d)).copied().unwrap_or(0);
					let amounts = m.cands.get(&c).map_or(vec![], |_| m.amounts(c));
					let x = match r.below(6) {
						0 => self.amount(r, have),
						1 => 0,
						2 | 3 if !amounts.is_empty() => {
							let aim = *r.pick(&amounts);
							self.amount(r, aim.saturating_sub(own))
						},
						_ => r.below128(have.min(60) + 1),
					};
					(d, Op::DelMore { c, amt: x })
				}
			},
			_ => {
				if r.chance(0.03) {
					let n = if odd { 100 } else { r.below(3) };
					return (self.user(r, w), Op::Hotfix((0..n).map(|_| r.range(0, w.cfg.users)).collect()));
				}
				let d = dele(r);
				let c = backed(r, d);
				let nac = m.cands.get(&c).map_or(0, |x| x.ac.len());
				let v = *r.pick(&[0, 1, 10, 50, 99, 100]);
				(d, Op::SetAc { c, v, compounding: self.hint(r, nac), mine: self.hint(r, m.mine(d).len()) })
			},
		}
	}
}
