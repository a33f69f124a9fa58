//! The observable state of the simulated chain, decoded, and differences between two of them.
use crate::runtime::*;
use pallet_funding as pf;
use pallet_funding::types::*;
use polimec_common::{
	credentials::Did,
	migration_types::{Migration, MigrationStatus},
};
use sp_arithmetic::FixedU128;
use std::{
	cell::RefCell,
	collections::{BTreeMap, HashMap},
	fmt::Debug,
};

/// Small account numbers: 1.. users, 201..204 treasuries, 300+p escrows, 400+p bonding accounts, 500 the funding
/// pallet, 501 the dispenser, 999 anything else.
pub type A = u16;
pub const OPS: A = 201;
pub const BTRE: A = 202;
pub const CTT: A = 203;
pub const FEE: A = 204;
pub const PALLET: A = 500;
pub const DISP: A = 501;
pub const ESC: A = 300;
pub const BOND: A = 400;
pub const MAXP: u16 = 40;

thread_local! {
	static TABLE: RefCell<Option<(HashMap<Acc, A>, HashMap<A, Acc>)>> = const { RefCell::new(None) };
}
fn table<R>(f: impl FnOnce(&(HashMap<Acc, A>, HashMap<A, Acc>)) -> R) -> R {
	TABLE.with(|t| {
		let mut t = t.borrow_mut();
		if t.is_none() {
			let mut m: HashMap<Acc, A> = HashMap::new();
			for u in 1..=250u8 {
				m.insert(acc(u), u as A);
			}
			for p in 0..MAXP {
				m.insert(escrow(p as u32), ESC + p);
				m.insert(bonding(p as u32), BOND + p);
			}
			m.insert(pallet_account(), PALLET);
			m.insert(dispenser_account(), DISP);
			let r = m.iter().map(|(a, b)| (*b, a.clone())).collect();
			*t = Some((m, r));
		}
		f(t.as_ref().unwrap())
	})
}
pub fn num(a: &Acc) -> A {
	table(|t| t.0.get(a).copied().unwrap_or(999))
}
pub fn account(a: A) -> Acc {
	table(|t| t.1.get(&a).cloned().unwrap_or(acc(255)))
}
pub fn did(i: u8) -> Did {
	format!("did:sim:{i:03}").into_bytes().try_into().unwrap()
}
pub fn did_num(d: &Did) -> u8 {
	std::str::from_utf8(d).ok().and_then(|s| s.rsplit(':').next()?.parse().ok()).unwrap_or(255)
}

pub type Meta = pf::ProjectMetadataOf<Rt>;
pub type Det = pf::ProjectDetailsOf<Rt>;
pub type Eval = pf::EvaluationInfoOf<Rt>;
pub type BidI = pf::BidInfoOf<Rt>;
pub type Con = pf::ContributionInfoOf<Rt>;
pub type Status = ProjectStatus<u64>;
pub type Rel = pallet_proxy_bonding::ReleaseType<u64>;
pub type P = FixedU128;
pub type Key = (u32, A, u32);

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Plmc {
	pub free: u128,
	pub eval: u128,
	pub part: u128,
	pub other: u128,
	pub frozen: u128,
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Snap {
	pub meta: BTreeMap<u32, Meta>,
	pub det: BTreeMap<u32, Det>,
	pub bucket: BTreeMap<u32, Bucket<P>>,
	pub evals: BTreeMap<Key, Eval>,
	pub bids: BTreeMap<Key, BidI>,
	pub cons: BTreeMap<Key, Con>,
	pub auc_usd: BTreeMap<(u32, u8), u128>,
	pub con_usd: BTreeMap<(u32, u8), u128>,
	pub active: BTreeMap<u8, u32>,
	pub winning: BTreeMap<(u32, u8), bool>,
	pub next: BTreeMap<&'static str, u32>,
	pub bid_count: BTreeMap<u32, u32>,
	pub eval_count: BTreeMap<u32, u32>,
	pub mig: BTreeMap<(u32, A), (MigrationStatus, Vec<Migration>)>,
	pub unmig: BTreeMap<u32, u32>,
	pub queue: BTreeMap<u64, (u32, A)>,
	pub plmc: BTreeMap<A, Plmc>,
	pub issuance: u128,
	pub fa: BTreeMap<(u32, A), u128>,
	pub fa_supply: BTreeMap<u32, u128>,
	pub ct: BTreeMap<(u32, A), u128>,
	pub ct_supply: BTreeMap<u32, u128>,
	pub ct_meta: BTreeMap<u32, (u8, Vec<u8>, Vec<u8>)>,
	/// release schedules: (account, reason 0 evaluation / 1 participation) -> (locked, per block, start)
	pub sched: BTreeMap<(A, u8), Vec<(u128, u128, u64)>>,
	pub rel: BTreeMap<u32, Rel>,
	pub queries: BTreeMap<u64, (u32, (u8, u8), u64)>,
	pub query_next: u64,
	pub dispensed: BTreeMap<u8, bool>,
	pub dispense_amount: u128,
	pub vest: BTreeMap<A, Vec<(u128, u128, u64)>>,
	pub out: usize,
}

pub fn para_of(l: &xcm::v4::Location) -> u32 {
	use xcm::v4::prelude::*;
	match l.unpack() {
		(1, [Parachain(id)]) => *id,
		_ => 0,
	}
}

impl Snap {
	pub fn take() -> Snap {
		let mut s = Snap::default();
		s.meta = pf::ProjectsMetadata::<Rt>::iter().collect();
		s.det = pf::ProjectsDetails::<Rt>::iter().collect();
		s.bucket = pf::Buckets::<Rt>::iter().collect();
		s.evals = pf::Evaluations::<Rt>::iter().map(|((p, a, i), v)| ((p, num(&a), i), v)).collect();
		s.bids = pf::Bids::<Rt>::iter().map(|((p, a, i), v)| ((p, num(&a), i), v)).collect();
		s.cons = pf::Contributions::<Rt>::iter().map(|((p, a, i), v)| ((p, num(&a), i), v)).collect();
		s.auc_usd = pf::AuctionBoughtUSD::<Rt>::iter().map(|((p, d), v)| ((p, did_num(&d)), v)).collect();
		s.con_usd = pf::ContributionBoughtUSD::<Rt>::iter().map(|((p, d), v)| ((p, did_num(&d)), v)).collect();
		s.active = pf::DidWithActiveProjects::<Rt>::iter().map(|(d, p)| (did_num(&d), p)).collect();
		s.winning = pf::DidWithWinningBids::<Rt>::iter().map(|(p, d, b)| ((p, did_num(&d)), b)).filter(|x| x.1).collect();
		s.next = [
			("project", pf::NextProjectId::<Rt>::get()),
			("evaluation", pf::NextEvaluationId::<Rt>::get()),
			("bid", pf::NextBidId::<Rt>::get()),
			("contribution", pf::NextContributionId::<Rt>::get()),
		]
		.into_iter()
		.collect();
		s.bid_count = pf::BidCounts::<Rt>::iter().collect();
		s.eval_count = pf::EvaluationCounts::<Rt>::iter().collect();
		s.mig = pf::UserMigrations::<Rt>::iter().map(|((p, a), (st, m))| ((p, num(&a)), (st, m.into_inner()))).collect();
		s.unmig = pf::UnmigratedCounter::<Rt>::iter().filter(|x| x.1 > 0).collect();
		s.queue = pf::ActiveMigrationQueue::<Rt>::iter().map(|(q, (p, a))| (q, (p, num(&a)))).collect();
		for (a, i) in frame_system::Account::<Rt>::iter() {
			let n = num(&a);
			let mut p = Plmc { free: i.data.free, frozen: i.data.frozen, ..Default::default() };
			if i.data.reserved > 0 {
				let mut sum = 0;
				for h in pallet_balances::Holds::<Rt>::get(&a) {
					sum += h.amount;
					if h.id == EVAL {
						p.eval += h.amount
					} else if h.id == PART {
						p.part += h.amount
					} else {
						p.other += h.amount
					}
				}
				p.other += i.data.reserved.abs_diff(sum);
			}
			if p != Plmc::default() {
				s.plmc.insert(n, p);
			}
		}
		s.issuance = pallet_balances::TotalIssuance::<Rt>::get();
		for (id, a, h) in crate::assets::Account::<Rt, FaInst>::iter() {
			if h.balance > 0 {
				s.fa.insert((id, num(&a)), h.balance);
			}
		}
		for (id, d) in crate::assets::Asset::<Rt, FaInst>::iter() {
			s.fa_supply.insert(id, d.supply);
		}
		for (id, a, h) in crate::assets::Account::<Rt, CtInst>::iter() {
			if h.balance > 0 {
				s.ct.insert((id, num(&a)), h.balance);
			}
		}
		for (id, d) in crate::assets::Asset::<Rt, CtInst>::iter() {
			s.ct_supply.insert(id, d.supply);
			s.ct_meta.insert(id, (d.decimals, d.name, d.symbol));
		}
		for (a, r, v) in pallet_linear_release::Vesting::<Rt>::iter() {
			let r = if r == EVAL { 0 } else if r == PART { 1 } else { 2 };
			s.sched
				.insert((num(&a), r), v.iter().map(|i| (i.locked(), i.per_block(), i.starting_block())).collect());
		}
		for (p, r, t) in pallet_proxy_bonding::Releases::<Rt>::iter() {
			if r == PART {
				s.rel.insert(p, t);
			} else {
				s.rel.insert(1000 + p, t);
			}
		}
		s.queries = pallet_xcm::Queries::<Rt>::iter().map(|(q, (l, c, t))| (q, (para_of(&l), c, t))).collect();
		s.query_next = pallet_xcm::QueryCounter::<Rt>::get();
		s.dispensed = pallet_dispenser::Dispensed::<Rt>::iter().map(|(d, _)| (did_num(&d), true)).collect();
		s.dispense_amount = pallet_dispenser::DispenseAmount::<Rt>::get();
		for (a, v) in pallet_vesting::Vesting::<Rt>::iter() {
			s.vest.insert(num(&a), v.iter().map(|i| (i.locked(), i.per_block(), i.starting_block())).collect());
		}
		s.out = outbox_len();
		s
	}
	pub fn p(&mut self, a: A) -> &mut Plmc {
		self.plmc.entry(a).or_default()
	}
	pub fn free(&self, a: A) -> u128 {
		self.plmc.get(&a).map_or(0, |p| p.free)
	}
	pub fn part(&self, a: A) -> u128 {
		self.plmc.get(&a).map_or(0, |p| p.part)
	}
	pub fn asset(&self, id: u32, a: A) -> u128 {
		self.fa.get(&(id, a)).copied().unwrap_or(0)
	}
	/// Keep only meaningful entries so that a prediction compares equal to a snapshot.
	pub fn tidy(&mut self) {
		self.plmc.retain(|_, p| *p != Plmc::default());
		self.fa.retain(|_, v| *v > 0);
		self.ct.retain(|_, v| *v > 0);
		self.unmig.retain(|_, v| *v > 0);
		self.winning.retain(|_, v| *v);
	}
	/// Named differences from `self` (expected) to `got`.
	pub fn diff(&self, got: &Snap) -> Vec<(&'static str, String)> {
		let mut d = vec![];
		fn m<K: Ord + Debug, V: PartialEq + Debug>(
			d: &mut Vec<(&'static str, String)>,
			name: &'static str,
			a: &BTreeMap<K, V>,
			b: &BTreeMap<K, V>,
		) {
			if a == b {
				return;
			}
			for (k, v) in a {
				match b.get(k) {
					Some(w) if w == v => (),
					w => {
						d.push((name, format!("{k:?}: expected {v:?}, found {w:?}")));
						return;
					},
				}
			}
			for (k, w) in b {
				if !a.contains_key(k) {
					d.push((name, format!("{k:?}: expected nothing, found {w:?}")));
					return;
				}
			}
		}
		macro_rules! f { ($($n:ident),*) => { $( m(&mut d, stringify!($n), &self.$n, &got.$n); )* } }
		f!(meta, det, bucket, evals, bids, cons, auc_usd, con_usd, active, winning, next, bid_count, eval_count, mig, unmig);
		f!(queue, plmc, fa, fa_supply, ct, ct_supply, ct_meta, sched, rel, queries, dispensed, vest);
		macro_rules! g { ($($n:ident),*) => { $( if self.$n != got.$n { d.push((stringify!($n), format!("expected {:?}, found {:?}", self.$n, got.$n))); } )* } }
		g!(issuance, query_next, dispense_amount, out);
		d
	}
}
