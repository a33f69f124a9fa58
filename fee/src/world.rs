//! Blocks of paying transactions, and what paying must come to.
use crate::runtime::*;
use frame_support::{
	dispatch::{DispatchInfo, Pays, PostDispatchInfo},
	storage::{transactional::with_transaction, unhashed, TransactionOutcome},
	traits::{
		fungible::{self, Mutate as _},
		fungibles::{self, Mutate as _},
		tokens::{ConversionToAssetBalance, Fortitude, Preservation},
	},
	weights::{Weight, WeightToFee},
};
use pallet_asset_tx_payment::OnChargeAssetTransaction;
use pallet_transaction_payment::OnChargeTransaction;
use serde::{Deserialize, Serialize};
use simcore::{Oracle, Rng, H};
use sp_runtime::{AccountId32, FixedPointNumber, FixedU128};
use sp_state_machine::BasicExternalities;
use std::collections::BTreeMap;
use xcm::v3::{Junction::*, Junctions::*, MultiLocation};

const T1: &[&str] = &["T01"];
const T2: &[&str] = &["T02"];
/// People; after them the treasury. The last person has nothing at first.
const PEOPLE: u8 = 6;
const POT: u8 = PEOPLE;
const IDS: [u32; 3] = [10, 1337, 1984];

pub fn account(n: u8) -> Acc {
	let mut b = [0u8; 32];
	if n == POT {
		// What PalletId("plmc/stk") comes to.
		b[..12].copy_from_slice(b"modlplmc/stk");
	} else {
		b[0] = n + 1;
		b[31] = 7;
	}
	AccountId32::new(b)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
	pub decimals: [u8; 3],
	pub min: [Bal; 3],
	pub price: [u64; 3],
	pub plmc: u64,
	pub rich: Vec<[Bal; 4]>,
	/// In thousandths.
	pub mult: u64,
}
impl Cfg {
	pub fn draw(r: &mut Rng) -> Cfg {
		let amount = |r: &mut Rng, min: Bal| match r.below(8) {
			0 => 0,
			1 => min,
			2 => min + r.below(2000) as u128,
			_ => min + r.below128(1_000_000_000_000_0),
		};
		let min = [*r.pick(&[1, 1_000_000]), *r.pick(&[1, 10_000]), *r.pick(&[1, 70_000])];
		let mut rich: Vec<[Bal; 4]> =
			(0..=PEOPLE).map(|_| [amount(r, ED), amount(r, min[0]), amount(r, min[1]), amount(r, min[2])]).collect();
		rich[PEOPLE as usize - 1] = [0; 4];
		Cfg {
			decimals: [*r.pick(&[10, 10, 12, 3]), 6, *r.pick(&[6, 6, 2, 18])],
			min,
			price: [r.range(1, 100_000), *r.pick(&[1000, 1000, 997, 1]), *r.pick(&[1000, 1000, 1, 5_000_000])],
			plmc: *r.pick(&[1, 30, 840, 8_400, 500_000]),
			rich,
			mult: *r.pick(&[0, 1, 1000, 1000, 1000, 2500, 100_000]),
		}
	}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
	/// What an asset (0: PLMC) costs, in thousandths of a dollar.
	Price { asset: u8, p: Option<u64> },
	/// So many hundredths of what one has go to another.
	Give { asset: u8, from: u8, to: u8, share: u8 },
	Mint { asset: u8, who: u8, amount: Bal },
	Author { who: Option<u8> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tx {
	pub who: u8,
	/// 0: PLMC, 1..=3: an asset, then locations of nothing.
	pub pay: u8,
	pub tip: Bal,
	pub len: u32,
	pub time: u64,
	pub proof: u64,
	/// Thousandths of the weight that were needed.
	pub used: u16,
	pub free: bool,
	pub fails: bool,
	pub body: Vec<Act>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
	Tx(Tx),
	Act(Act),
	Block { author: Option<u8> },
	/// The current block was not to be: another comes in its place.
	Fork,
	Finish,
}

pub struct Gen {
	pub faults: bool,
	tips: bool,
	pays: u64,
}
impl Gen {
	pub fn new(r: &mut Rng) -> Self {
		Gen { faults: r.chance(0.85), tips: r.chance(0.7), pays: *r.pick(&[1, 4, 4, 5]) }
	}
	fn price(&self, r: &mut Rng) -> Option<u64> {
		Some(match r.below(6) {
			0 => return None,
			1 => r.range(1, 10),
			2 => 1_000_000_000,
			_ => r.range(1, 20_000),
		})
	}
	fn act(&self, r: &mut Rng) -> Act {
		match r.below(6) {
			0 | 1 => Act::Price { asset: r.below(4) as u8, p: self.price(r) },
			2 => Act::Mint { asset: r.below(4) as u8, who: r.below(PEOPLE as u64) as u8, amount: r.below128(1_000_000_000_000) },
			3 if self.faults => Act::Author { who: None },
			_ => Act::Give {
				asset: r.below(4) as u8,
				from: r.below(PEOPLE as u64 + 1) as u8,
				to: r.below(PEOPLE as u64) as u8,
				share: *r.pick(&[1, 50, 90, 99, 100, 100]),
			},
		}
	}
	pub fn step(&mut self, r: &mut Rng) -> Step {
		match r.below(20) {
			0..=2 => Step::Block { author: if self.faults && r.chance(0.1) { None } else { Some(r.below(PEOPLE as u64) as u8) } },
			3 if self.faults => Step::Fork,
			4 if self.faults => Step::Act(self.act(r)),
			5 | 6 => {
				// Mostly, what went missing comes back.
				let asset = r.below(4) as u8;
				if r.chance(0.5) {
					Step::Act(Act::Price { asset, p: Some(r.range(1, 20_000)) })
				} else {
					Step::Act(Act::Mint { asset, who: r.below(PEOPLE as u64) as u8, amount: 1 + r.below128(1_000_000_000_000_0) })
				}
			},
			_ => {
				let who = r.below(PEOPLE as u64) as u8;
				let mut body = vec![];
				if self.faults && r.chance(0.35) {
					for _ in 0..r.range(1, 3) {
						let mut a = self.act(r);
						if let Act::Give { from, .. } = &mut a {
							*from = who;
						}
						body.push(a);
					}
				}
				Step::Tx(Tx {
					who,
					pay: r.below(self.pays) as u8,
					tip: if self.tips && r.chance(0.6) { *r.pick(&[1, 2, 1000, 10_000_000, 123_456_789, 100_000_000_000]) } else { 0 },
					len: r.below(2000) as u32,
					time: match r.below(10) {
						0 => 0,
						1 => u64::MAX,
						2..=4 => r.below(1000),
						_ => r.below(1_000_000_000_000),
					},
					proof: match r.below(10) {
						0..=3 => 0,
						4..=5 => r.below(100),
						_ => r.below(5_000_000),
					},
					used: *r.pick(&[0, 1, 300, 500, 999, 1000, 1000, 2000]),
					free: r.chance(0.1),
					fails: self.faults && r.chance(0.1),
					body,
				})
			},
		}
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Snap {
	bal: BTreeMap<(u8, u8), Bal>,
	issued: [Bal; 4],
}
fn snap() -> Snap {
	let mut bal = BTreeMap::new();
	for n in 0..=PEOPLE {
		bal.insert((0, n), <Balances as fungible::Inspect<Acc>>::total_balance(&account(n)));
		for (i, id) in IDS.iter().enumerate() {
			bal.insert((i as u8 + 1, n), <ForeignAssets as fungibles::Inspect<Acc>>::balance(*id, &account(n)));
		}
	}
	let f = |i: usize| <ForeignAssets as fungibles::Inspect<Acc>>::total_issuance(IDS[i]);
	Snap { bal, issued: [<Balances as fungible::Inspect<Acc>>::total_issuance(), f(0), f(1), f(2)] }
}
impl Snap {
	fn sum(&self, a: u8) -> Bal {
		self.bal.range((a, 0)..=(a, 255)).map(|x| *x.1).sum()
	}
	/// `who` receives `n`, unless it is too little to open an account with.
	fn give(&mut self, a: u8, who: u8, n: Bal, min: Bal) -> bool {
		let b = self.bal.get_mut(&(a, who)).unwrap();
		if n == 0 || *b == 0 && n < min {
			return n == 0;
		}
		*b += n;
		true
	}
}

fn now_author() -> Option<u8> {
	let a: Option<Acc> = unhashed::get(pallet_authorship::AUTHOR);
	a.and_then(|a| (0..PEOPLE).find(|n| account(*n) == a))
}

fn place(pay: u8) -> MultiLocation {
	let of = |n| X3(Parachain(1000), PalletInstance(50), GeneralIndex(n));
	match pay {
		1 => MultiLocation { parents: 1, interior: Here },
		2 => MultiLocation { parents: 1, interior: of(1337) },
		3 => MultiLocation { parents: 1, interior: of(1984) },
		4 => MultiLocation { parents: 1, interior: of(1985) },
		_ => MultiLocation { parents: 0, interior: Here },
	}
}

/// What a weight costs: FRAME's base weight of an extrinsic a ten-thousandth of a PLMC, 10 kB of proof a hundredth, the
/// greater of both.
fn worth(w: Weight) -> Bal {
	let base = frame_support::weights::constants::ExtrinsicBaseWeight::get().ref_time() as u128;
	(w.ref_time() as u128 * 1_000_000 / base).max(w.proof_size() as u128 * 10_000)
}

enum Paid {
	Plmc(<<Rt as pallet_transaction_payment::Config>::OnChargeTransaction as OnChargeTransaction<Rt>>::LiquidityInfo),
	Asset(<<Rt as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction as OnChargeAssetTransaction<Rt>>::LiquidityInfo),
}
type Plmc = <Rt as pallet_transaction_payment::Config>::OnChargeTransaction;
type Asset = <Rt as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction;

pub struct World {
	pub cfg: Cfg,
	pub o: Oracle,
	ext: BasicExternalities,
	before: sp_core::storage::Storage,
	block: u32,
}

impl World {
	pub fn new(cfg: Cfg, o: Oracle) -> Self {
		let mut ext = BasicExternalities::new(Default::default());
		ext.execute_with(|| {
			System::set_block_number(1u32.into());
			let _ = unhashed::put(pallet_authorship::AUTHOR, &account(0));
			unhashed::put(&price_key(3344), &FixedU128::from_rational(cfg.plmc as u128, 1000));
			for i in 0..3 {
				crate::assets::Asset::<Rt>::insert(
					IDS[i],
					crate::assets::Details { min: cfg.min[i], sufficient: true, decimals: cfg.decimals[i], ..Default::default() },
				);
				unhashed::put(&price_key(IDS[i]), &FixedU128::from_rational(cfg.price[i] as u128, 1000));
			}
			for (n, r) in cfg.rich.iter().enumerate() {
				for a in 0..4 {
					act(&Act::Mint { asset: a as u8, who: n as u8, amount: r[a] });
				}
			}
		});
		let before = ext.into_storages();
		let ext = BasicExternalities::new(before.clone());
		World { cfg, o, ext, before, block: 1 }
	}

	pub fn step(&mut self, i: usize, s: &Step) {
		self.o.step = i;
		self.o.stats.steps += 1;
		if self.o.verbose {
			eprintln!("{i}: {s:?}");
		}
		let mut ext = std::mem::replace(&mut self.ext, BasicExternalities::new_empty());
		match s {
			Step::Fork => {
				self.o.stats.inc("fault/fork");
				ext = BasicExternalities::new(self.before.clone());
			},
			Step::Block { author } => {
				self.block += 1;
				self.o.stats.sim_time += 1;
				let b = self.block;
				ext.execute_with(|| {
					System::set_block_number(b.into());
					act(&Act::Author { who: *author });
				});
				self.before = ext.into_storages();
				ext = BasicExternalities::new(self.before.clone());
				self.o.stats.inc(if author.is_some() { "op/block" } else { "fault/no_author" });
			},
			Step::Act(a) => {
				self.o.stats.inc(kind(a));
				ext.execute_with(|| act(a))
			},
			Step::Tx(t) => {
				ext.execute_with(|| self.tx(t));
			},
			Step::Finish => ext.execute_with(|| self.close()),
		}
		let s = ext.execute_with(snap);
		for a in 0..4u8 {
			let tags = if a == 0 { T1 } else { T2 };
			self.o.check(s.sum(a) == s.issued[a as usize], tags, "money lost or made", || {
				format!("currency {a}: accounts have {}, issued are {}", s.sum(a), s.issued[a as usize])
			});
		}
		let mut h = H::default();
		for (k, v) in &s.bal {
			h.u(k.0 as u64 * 8 + k.1 as u64);
			h.u(128 - v.leading_zeros() as u64);
		}
		self.o.stats.states.insert(h.0);
		for v in s.bal.values() {
			self.o.th.u(*v as u64);
		}
		self.ext = ext;
	}

	/// Once prices are there and everybody has money, everybody can pay in anything.
	fn close(&mut self) {
		act(&Act::Author { who: Some(1) });
		for a in 0..4u8 {
			act(&Act::Price { asset: a, p: Some(1000) });
			for n in 0..=PEOPLE {
				act(&Act::Mint { asset: a, who: n, amount: 1_000_000_000_000_000_000_000 });
			}
		}
		for pay in 0..4 {
			let t = Tx { who: pay, pay, tip: 5_000_000_000, len: 100, time: 1_000_000_000, proof: 3000, used: 500, free: false, fails: false, body: vec![] };
			if !self.tx(&t) {
				self.o.fail(if pay == 0 { T1 } else { T2 }, "nobody can pay", || format!("{t:?} is refused when all is well"));
			}
		}
	}

	/// Whether the transaction was included.
	fn tx(&mut self, t: &Tx) -> bool {
		let tags = if t.pay == 0 { T1 } else { T2 };
		let who = account(t.who);
		let w = Weight::from_parts(t.time, t.proof);
		let used = Weight::from_parts((t.time as u128 * t.used as u128 / 1000).min(u64::MAX as u128) as u64, t.proof * t.used as u64 / 1000).min(w);
		let o = &mut self.o;
		let mult = self.cfg.mult;
		let mut fee_of = |w: Weight, free: bool| -> Bal {
			if free {
				return t.tip;
			}
			let mut one = |w: Weight| {
				let f = <Rt as pallet_transaction_payment::Config>::WeightToFee::weight_to_fee(&w);
				let want = worth(w);
				o.check(f.abs_diff(want) <= 1 + want / 1_000_000, T1, "price of weight", || format!("{w:?} costs {want}, asked {f}"));
				f
			};
			let len = <Rt as pallet_transaction_payment::Config>::LengthToFee::weight_to_fee(&Weight::from_parts(t.len as u64, 0));
			(one(BASE) + len + FixedU128::from_rational(mult as u128, 1000).saturating_mul_int(one(w))) + t.tip
		};
		let fee = fee_of(w, t.free);
		let corrected = fee_of(used, t.free);
		let info = DispatchInfo { weight: w, pays_fee: if t.free { Pays::No } else { Pays::Yes }, ..Default::default() };
		let post = PostDispatchInfo { actual_weight: Some(used), pays_fee: info.pays_fee };
		let call = RuntimeCall::System(frame_system::Call::remark { remark: vec![] });
		let cur = if t.pay <= 3 { t.pay } else { 0 };
		let min = if cur == 0 { ED } else { self.cfg.min[cur as usize - 1] };
		let id = if cur == 0 { 0 } else { IDS[cur as usize - 1] };
		let conv = |n: Bal| -> Option<Bal> {
			match t.pay {
				0 => Some(n),
				1..=3 => PlmcTo::to_asset_balance(n, id).ok().map(|x| if n > 0 { x.max(1) } else { 0 }),
				_ => None,
			}
		};
		let tip_of = |n: Bal| if t.pay == 0 { Some(n) } else { PlmcTo::to_asset_balance(n, id).ok() };

		with_transaction(|| -> TransactionOutcome<Result<bool, sp_runtime::DispatchError>> {
			let s0 = snap();
			let want = conv(fee);
			let can = want.map_or(false, |f| f == 0 || s0.bal[&(cur, t.who)] >= f.saturating_add(min));
			let free = <Balances as fungible::Inspect<Acc>>::reducible_balance(&who, Preservation::Preserve, Fortitude::Polite);
			let can = if t.pay == 0 { want.map_or(false, |f| f == 0 || free >= f) } else { can };
			let paid = match t.pay {
				0 => <Plmc as OnChargeTransaction<Rt>>::withdraw_fee(&who, &call, &info, fee, t.tip).map(Paid::Plmc),
				p => <Asset as OnChargeAssetTransaction<Rt>>::withdraw_fee(&who, &call, &info, place(p), fee, t.tip).map(Paid::Asset),
			};
			o.check(paid.is_ok() == can, tags, "who may pay", || {
				format!("{} has {} of currency {}, the fee is {want:?} ({fee} PLMC units): {}", t.who, s0.bal[&(cur, t.who)], t.pay, if paid.is_ok() { "taken" } else { "refused" })
			});
			let s1 = snap();
			let paid = match paid {
				Ok(p) => p,
				Err(_) => {
					o.check(s0 == s1, tags, "a refused transaction costs nothing", || format!("{t:?}: {s0:?} became {s1:?}"));
					o.stats.inc("op/tx_refused");
					return TransactionOutcome::Rollback(Ok(false));
				},
			};
			let want = want.unwrap_or(0);
			let mut m = s0.clone();
			*m.bal.get_mut(&(cur, t.who)).unwrap() -= want.min(s0.bal[&(cur, t.who)]);
			o.check(s1 == m, tags, "what is taken before the call", || format!("{t:?}: fee {want}; {s0:?} became {s1:?}"));
			if want > 0 {
				o.touch(tags);
			}

			// The call.
			let _ = with_transaction(|| -> TransactionOutcome<Result<(), sp_runtime::DispatchError>> {
				for a in &t.body {
					act(a);
					o.stats.inc(kind_within(a));
				}
				if t.fails {
					o.stats.inc("fault/call_failed");
					TransactionOutcome::Rollback(Ok(()))
				} else {
					TransactionOutcome::Commit(Ok(()))
				}
			});
			let s2 = snap();
			let author = now_author();
			let (c, tip) = (conv(corrected), tip_of(t.tip));
			let mut told: Option<(Bal, Bal)> = None;
			let done = match paid {
				Paid::Plmc(p) => <Plmc as OnChargeTransaction<Rt>>::correct_and_deposit_fee(&who, &info, &post, corrected, t.tip, p),
				Paid::Asset(p) => <Asset as OnChargeAssetTransaction<Rt>>::correct_and_deposit_fee(&who, &info, &post, corrected, t.tip, p).map(|x| told = Some(x)),
			};
			if done.is_err() {
				o.check(c.is_none() || tip.is_none(), tags, "a paid transaction is not settled", || format!("{t:?}"));
				o.stats.inc("probe/dropped_after_the_call");
				return TransactionOutcome::Rollback(Ok(false));
			}
			o.check(c.is_some() && tip.is_some(), tags, "settled without a price", || format!("{t:?}"));
			let (c, tip) = (c.unwrap_or(0).min(want), tip.unwrap_or(0));
			let tip = tip.min(c);
			let s3 = snap();
			let mut m = s2.clone();
			let mut burnt = 0;
			let back = want - c;
			// PLMC goes back only to those who still have some; an asset to whom it can.
			if !(if cur == 0 && m.bal[&(0, t.who)] == 0 { back == 0 } else { m.give(cur, t.who, back, min) }) {
				burnt += back;
				o.stats.inc("probe/refund_not_possible");
				// A refund that cannot be given is kept with the fee in PLMC.
				if cur == 0 {
					burnt -= back;
				}
			}
			let kept = if cur == 0 { s2.issued[0] - s2.sum(0) - (m.sum(0) - s2.sum(0)) } else { c };
			let tip = tip.min(kept);
			if !m.give(cur, POT, kept - tip, min) {
				burnt += kept - tip;
				o.stats.inc("probe/treasury_cannot_receive");
			}
			let ok = match author {
				Some(a) => m.give(cur, a, tip, min),
				None => tip == 0,
			};
			if !ok {
				burnt += tip;
				o.stats.inc("probe/author_cannot_receive");
			}
			m.issued[cur as usize] -= burnt;
			o.check(s3 == m, tags, "what is settled after the call", || {
				let mut d = vec![];
				for (k, v) in &m.bal {
					if s3.bal[k] != *v {
						d.push(format!("account {} has {} of currency {} instead of {v}", k.1, s3.bal[k], k.0));
					}
				}
				if m.issued != s3.issued {
					d.push(format!("issued are {:?} instead of {:?}", s3.issued, m.issued));
				}
				format!("{t:?} by author {author:?}: {want} were taken, {c} are due, of them {tip} are the tip: {}", d.join("; "))
			});
			if let (Some(x), Some(full)) = (told, conv(corrected)) {
				if full <= want {
					o.check(x.0 == c && x.1.min(c) == tip, tags, "what is reported", || format!("{t:?}: {c} with a tip of {tip} were paid, told {x:?}"));
				} else {
					o.stats.inc("probe/dearer_after_the_call");
				}
			}
			o.stats.inc(if t.pay == 0 { "op/tx_plmc" } else { "op/tx_asset" });
			if back > 0 {
				o.stats.inc("probe/refund");
			}
			TransactionOutcome::Commit(Ok(true))
		})
		.unwrap_or(false)
	}
}

fn kind(a: &Act) -> &'static str {
	match a {
		Act::Price { p: None, .. } => "fault/price_gone",
		Act::Price { .. } => "op/price",
		Act::Give { .. } => "op/transfer",
		Act::Mint { .. } => "op/mint",
		Act::Author { .. } => "fault/author_unknown",
	}
}
fn kind_within(a: &Act) -> &'static str {
	match a {
		Act::Price { p: None, .. } => "fault/price_gone_during_the_call",
		Act::Price { .. } => "fault/price_moves_during_the_call",
		Act::Give { share: 100, .. } => "fault/payer_spends_all_during_the_call",
		Act::Give { .. } => "fault/payer_spends_during_the_call",
		Act::Mint { .. } => "fault/payer_earns_during_the_call",
		Act::Author { .. } => "fault/author_unknown_during_the_call",
	}
}

fn act(a: &Act) {
	match a {
		Act::Price { asset, p } => {
			let id = if *asset == 0 { 3344 } else { IDS[*asset as usize - 1] };
			match p {
				Some(p) => unhashed::put(&price_key(id), &FixedU128::from_rational(*p as u128, 1000)),
				None => unhashed::kill(&price_key(id)),
			}
		},
		Act::Give { asset: 0, from, to, share } => {
			let b = <Balances as fungible::Inspect<Acc>>::total_balance(&account(*from));
			let _ = Balances::transfer(&account(*from), &account(*to), b / 100 * *share as u128 + if *share == 100 { b % 100 } else { 0 }, Preservation::Expendable);
		},
		Act::Give { asset, from, to, share } => {
			let id = IDS[*asset as usize - 1];
			let b = <ForeignAssets as fungibles::Inspect<Acc>>::balance(id, &account(*from));
			let _ = ForeignAssets::transfer(id, &account(*from), &account(*to), b / 100 * *share as u128 + if *share == 100 { b % 100 } else { 0 }, Preservation::Expendable);
		},
		Act::Mint { asset: 0, who, amount } => {
			let _ = Balances::mint_into(&account(*who), *amount);
		},
		Act::Mint { asset, who, amount } => {
			let _ = ForeignAssets::mint_into(IDS[*asset as usize - 1], &account(*who), *amount);
		},
		Act::Author { who } => match who {
			Some(n) => unhashed::put(pallet_authorship::AUTHOR, &account(*n)),
			None => unhashed::kill(pallet_authorship::AUTHOR),
		},
	}
}
