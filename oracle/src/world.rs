//! Chain, nodes and scheduler around the workers, and what their doings are held against.
use crate::{
	exch::{self, lists, Mode, Worth, ASSETS, EXCHANGES, KEYS},
	host::{account, Core, Ev, Host, Keys, Node, Run, Yield, NKEYS},
	runtime::{Env, OracleOcw, RuntimeCall, System, Test, Xt, ENV},
};
use frame_support::traits::Hooks;
use pallet_oracle_ocw::types::AssetName;
use parity_scale_codec::{Decode, Encode};
use serde::{Deserialize, Serialize};
use simcore::{Oracle, Rng};
use sp_core::offchain::{OffchainDbExt, OffchainWorkerExt, TransactionPoolExt};
use sp_keystore::KeystoreExt;
use sp_runtime::{traits::Verify, AccountId32, FixedPointNumber, FixedU128};
use std::{
	collections::{BTreeMap, BTreeSet},
	sync::{
		mpsc::{channel, Receiver, Sender},
		Arc, Mutex,
	},
	thread::JoinHandle,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
	pub interval: u32,
	pub window: u32,
	pub nodes: Vec<Vec<u8>>,
	pub members: Vec<bool>,
	pub seed: u64,
	pub preempt: u64,
	/// Nodes whose database is from before PLMC had a price.
	pub old: Vec<bool>,
	pub start: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
	/// `ms` later a block comes; `back` blocks were reverted first. These nodes' workers run, some twice.
	Block { ms: u64, back: u8, run: u8, twice: u8, keep: u64 },
	/// The worker runs for an older block.
	Again { node: u8, back: u8 },
	Crash { node: u8, after: u32, lossy: bool },
	Ex { ex: u8, asset: Option<u8>, mode: Mode },
	Heal,
	Members { members: Vec<bool> },
	NodeKeys { node: u8, keys: Vec<u8> },
	Garble { node: u8, what: u8 },
	Jump { ms: u64 },
	Refuse { node: u8, n: u32 },
	Drop { n: u8 },
	Finish { seed: u64 },
}

#[derive(Clone)]
struct Blk {
	number: u32,
	nonces: BTreeMap<AccountId32, u32>,
	txs: Vec<(AccountId32, u32)>,
	members: Vec<bool>,
}

/// How far a node got with feeding an asset in a window.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fed {
	/// By this worker, which has not ended yet.
	By(usize),
	Sure,
	/// A crash or a lost record leaves it open whether the node knows.
	Maybe,
}

struct W {
	thread: Option<JoinHandle<()>>,
	resume: Sender<bool>,
	wake: u64,
	done: bool,
	block: u32,
	members: Vec<bool>,
	nonces: BTreeMap<AccountId32, u32>,
	start: u64,
	asking: bool,
	shared: bool,
	overtaken: bool,
	keys_changed: bool,
	eligible: Option<BTreeSet<usize>>,
	asked: BTreeSet<(usize, usize)>,
	tried: BTreeSet<usize>,
	accepted: BTreeSet<usize>,
	proper: BTreeSet<usize>,
	faulty: bool,
}

pub struct World {
	pub cfg: Cfg,
	pub o: Oracle,
	pub dead: bool,
	core: Arc<Mutex<Core>>,
	out: Sender<(usize, Yield)>,
	inbox: Receiver<(usize, Yield)>,
	ws: Vec<W>,
	chain: Vec<Blk>,
	members: Vec<bool>,
	fed: Vec<BTreeMap<(usize, u32), Fed>>,
	crashed: Vec<Option<u64>>,
	calm: bool,
	t0: u64,
}

const START: u64 = 1_700_000_000_000;
const LAST_SEND: &[u8] = b"oracle_ocw::last_send";
const LOCK: &[u8] = b"oracle_ocw::lock";

impl World {
	pub fn new(cfg: Cfg, o: Oracle) -> Self {
		let (out, inbox) = channel();
		let mut nodes: Vec<Node> = cfg
			.nodes
			.iter()
			.map(|k| Node { keys: k.iter().map(|k| *k as usize % NKEYS).collect(), ..Default::default() })
			.collect();
		for (n, old) in nodes.iter_mut().zip(&cfg.old) {
			if *old {
				let m: BTreeMap<AssetName, u32> =
					[(AssetName::USDT, 0), (AssetName::USDC, 0), (AssetName::DOT, 0)].into_iter().collect();
				n.db.insert(LAST_SEND.to_vec(), m.encode());
			}
		}
		let count = nodes.len();
		let core = Core {
			now: START + cfg.seed % 3_600_000,
			seed: cfg.seed,
			nodes,
			modes: std::array::from_fn(|_| std::array::from_fn(|_| Mode::Ok { ms: 100, pieces: 1 })),
			runs: vec![],
			reqs: vec![],
			pool: vec![],
			nonces: Default::default(),
			events: vec![],
			counts: Default::default(),
			preempt: cfg.preempt,
		};
		let genesis = Blk {
			number: cfg.start,
			nonces: Default::default(),
			txs: vec![],
			members: cfg.members.clone(),
		};
		World {
			t0: core.now,
			members: cfg.members.clone(),
			core: Arc::new(Mutex::new(core)),
			out,
			inbox,
			ws: vec![],
			chain: vec![genesis],
			fed: vec![BTreeMap::new(); count],
			crashed: vec![None; count],
			calm: true,
			dead: false,
			cfg,
			o,
		}
	}
	fn c(&self) -> std::sync::MutexGuard<'_, Core> {
		self.core.lock().unwrap_or_else(|e| e.into_inner())
	}
	pub fn height(&self) -> u32 {
		self.chain.last().map_or(0, |b| b.number)
	}
	pub fn busy(&self) -> bool {
		self.ws.iter().any(|w| !w.done)
	}
	fn window_of(&self, block: u32) -> Option<u32> {
		(block % self.cfg.interval < self.cfg.window).then_some(block / self.cfg.interval)
	}

	/// Start the worker of `node` for a block.
	fn start(&mut self, node: usize, blk: &Blk) {
		let id = self.ws.len();
		let (tx, rx) = channel();
		let now = self.c().now;
		self.c().runs.push(Run { node, dead: false, calls: 0 });
		for (i, w) in self.ws.iter_mut().enumerate() {
			if !w.done && self.core.lock().unwrap_or_else(|e| e.into_inner()).runs[i].node == node {
				w.shared = true;
			}
		}
		let shared = self.running(node).next().is_some();
		let host = Host {
			core: self.core.clone(),
			run: id,
			node,
			out: self.out.clone(),
			back: Arc::new(Mutex::new(rx)),
		};
		let members: Vec<AccountId32> =
			blk.members.iter().enumerate().filter(|(_, m)| **m).map(|(k, _)| account(k)).collect();
		let env = Env { interval: self.cfg.interval, window: self.cfg.window, members };
		let (number, nonces) = (blk.number, blk.nonces.clone());
		let thread = std::thread::Builder::new()
			.stack_size(1 << 20)
			.spawn(move || {
				if host.back.lock().unwrap_or_else(|e| e.into_inner()).recv().unwrap_or(true) {
					let _ = host.out.send((id, Yield::Done(Err("the node crashed".into()))));
					return;
				}
				let out = host.out.clone();
				let r = simcore::guarded(move || {
					ENV.with(|e| *e.borrow_mut() = env);
					let mut ext = sp_io::TestExternalities::new_empty();
					ext.execute_with(|| {
						System::set_block_number(number);
						for (who, nonce) in nonces {
							frame_system::Account::<Test>::mutate(&who, |a| a.nonce = nonce);
						}
					});
					ext.register_extension(OffchainWorkerExt::new(host.clone()));
					ext.register_extension(OffchainDbExt::new(host.clone()));
					ext.register_extension(TransactionPoolExt::new(host.clone()));
					ext.register_extension(KeystoreExt::new(Keys(host)));
					ext.execute_with(|| OracleOcw::offchain_worker(number));
				});
				let _ = out.send((id, Yield::Done(r)));
			})
			.expect("a thread");
		self.ws.push(W {
			thread: Some(thread),
			resume: tx,
			wake: now,
			done: false,
			block: blk.number,
			members: blk.members.clone(),
			nonces: blk.nonces.clone(),
			start: now,
			asking: false,
			shared,
			overtaken: false,
			keys_changed: false,
			eligible: None,
			asked: Default::default(),
			tried: Default::default(),
			accepted: Default::default(),
			proper: Default::default(),
			faulty: false,
		});
		self.o.stats.inc("op/worker");
	}
	fn node_of(&self, run: usize) -> usize {
		self.c().runs[run].node
	}
	fn running(&self, node: usize) -> impl Iterator<Item = usize> {
		let c = self.c();
		self.ws
			.iter()
			.enumerate()
			.filter(|(i, w)| !w.done && c.runs[*i].node == node)
			.map(|(i, _)| i)
			.collect::<Vec<_>>()
			.into_iter()
	}

	/// Let the workers run until that time.
	fn advance(&mut self, until: u64) {
		loop {
			if self.o.done() || self.dead {
				return;
			}
			let seed = self.cfg.seed;
			let next = self
				.ws
				.iter()
				.enumerate()
				.filter(|(_, w)| !w.done && w.wake <= until)
				.min_by_key(|(i, w)| {
					let mut x = seed ^ (w.wake.wrapping_mul(31) + *i as u64);
					(w.wake, simcore::rng::splitmix(&mut x))
				})
				.map(|(i, _)| i);
			let Some(i) = next else { break };
			let wake = self.ws[i].wake;
			{
				let mut c = self.c();
				c.now = c.now.max(wake);
			}
			self.resume(i, false);
		}
		let mut c = self.c();
		c.now = c.now.max(until);
	}

	fn resume(&mut self, i: usize, die: bool) {
		let dead = die || self.c().runs[i].dead;
		let _ = self.ws[i].resume.send(dead);
		let (who, y) = self.inbox.recv().expect("the worker answers");
		debug_assert_eq!(who, i);
		let evs = std::mem::take(&mut self.c().events);
		for e in evs {
			self.event(e);
		}
		match y {
			Yield::Until(t) => self.ws[i].wake = t,
			Yield::Done(r) => {
				self.ws[i].done = true;
				if let Some(t) = self.ws[i].thread.take() {
					let _ = t.join();
				}
				self.ended(i, r);
			},
		}
		let (now, calls) = {
			let c = self.c();
			(c.now, c.runs[i].calls)
		};
		self.o.th.u(i as u64);
		self.o.th.u(now);
		self.o.th.u(calls);
	}

	fn eligible(&self, run: usize) -> BTreeSet<usize> {
		let (node, block) = (self.node_of(run), self.ws[run].block);
		let Some(w) = self.window_of(block) else { return Default::default() };
		// What is before the first whole interval is left open.
		if w == 0 {
			return Default::default();
		}
		(0..4).filter(|a| !self.fed[node].keys().any(|(b, x)| b == a && *x >= w)).collect()
	}

	fn event(&mut self, e: Ev) {
		match e {
			Ev::Asked { run, what, uri } => {
				self.o.th.s(&uri);
				if !self.ws[run].asking {
					let e = self.eligible(run);
					let node = self.node_of(run);
					let (block, members) = (self.ws[run].block, self.ws[run].members.clone());
					let keys = self.c().nodes[node].keys.clone();
					let changed = self.ws[run].keys_changed;
					self.ws[run].eligible = Some(e);
					self.ws[run].asking = true;
					self.o.touch(&["O01", "O02"]);
					self.o.check(
						changed || keys.iter().any(|k| members[*k]),
						&["O04"],
						"asks_without_key",
						|| format!("node {node}, which holds no key of a member, asked for prices at block {block}"),
					);
					let inside = self.window_of(block).is_some();
					self.o.check(inside, &["O03"], "asks_outside_window", || {
						format!("node {node} asked for prices at block {block}, outside the window")
					});
					for other in self.running(node) {
						if other != run && self.ws[other].asking {
							self.ws[other].overtaken = true;
						}
					}
				}
				if let Some(w) = what {
					self.ws[run].asked.insert(w);
				}
				self.overtaken(run);
			},
			Ev::Http { run } => self.overtaken(run),
			Ev::Submitted { run, xt, ok, worth } => self.submitted(run, xt, ok, worth),
			Ev::Crashed { node, lossy } => {
				let now = self.c().now;
				self.crashed[node] = Some(now);
				let h = self.height();
				let w = h / self.cfg.interval;
				for ((_, win), f) in self.fed[node].iter_mut() {
					if matches!(f, Fed::By(_)) || (lossy && *win + 1 >= w) {
						*f = Fed::Maybe;
					}
				}
			},
		}
	}
	fn overtaken(&mut self, run: usize) {
		if self.ws[run].overtaken {
			let (block, start, now) = (self.ws[run].block, self.ws[run].start, self.c().now);
			self.o.fail(&["O03"], "two_workers_ask", || {
				format!("the worker for block {block}, running for {} ms, still asked for prices when another one of its node had begun to", now - start)
			});
		}
	}

	fn submitted(&mut self, run: usize, xt: Vec<u8>, ok: bool, worth: Vec<(usize, usize, Worth, (f64, f64))>) {
		let (node, block) = (self.node_of(run), self.ws[run].block);
		self.o.th.u(xt.len() as u64);
		self.o.stats.inc(if ok { "op/feed_accepted" } else { "op/feed_refused" });
		self.overtaken(run);
		for w in &worth {
			if w.2 != Worth::Proper {
				self.ws[run].faulty = true;
			}
		}
		let faulty = self.ws[run].faulty;
		let price_tags: &[&str] = if faulty { &["O01", "O02"] } else { &["O01"] };
		let Ok(Xt { call, sig }) = Xt::decode(&mut &xt[..]) else {
			return self.o.fail(&["O01"], "undecodable", || "the transaction cannot be decoded".into());
		};
		let RuntimeCall::Oracle(orml_oracle::Call::feed_values { values }) = &call else {
			return self.o.fail(&["O01"], "other_call", || "the transaction is not a feed of prices".into());
		};
		// Who signed it.
		self.o.touch(&["O03", "O04", "O05"]);
		let Some((who, nonce, signature)) = &sig else {
			return self.o.fail(&["O04"], "unsigned", || "the feed is not signed".into());
		};
		let key = (0..NKEYS).find(|k| account(*k) == *who);
		let member = key.map_or(false, |k| self.ws[run].members[k]);
		self.o.check(member, &["O04"], "signed_by_stranger", || {
			format!("node {node} signed the feed of block {block} with key {key:?}, which is no member's")
		});
		let good = signature.verify(&(&call, nonce).encode()[..], who);
		self.o.check(good, &["O04"], "bad_signature", || "the signature is wrong".into());
		let expected = self.ws[run].nonces.get(who).copied().unwrap_or(0);
		self.o.check(*nonce == expected, &["O04"], "bad_nonce", || format!("nonce {nonce} instead of {expected}"));
		// When.
		let Some(win) = self.window_of(block) else {
			return self.o.fail(&["O03"], "feeds_outside_window", || format!("node {node} fed prices at block {block}"));
		};
		let mut seen = BTreeSet::new();
		for (k, price) in values.iter() {
			let Some(a) = KEYS.iter().position(|x| x == k) else {
				self.o.fail(&["O01"], "unknown_asset", || format!("a price for asset {k}"));
				continue;
			};
			self.o.check(seen.insert(a), &["O01"], "fed_twice_at_once", || format!("two prices for {}", ASSETS[a]));
			let before = self.fed[node].get(&(a, win)).copied();
			self.o.check(
				!matches!(before, Some(Fed::Sure) | Some(Fed::By(_))),
				&["O03"],
				"fed_twice",
				|| format!("node {node} fed {} at block {block} again in the same window", ASSETS[a]),
			);
			if before == Some(Fed::Maybe) {
				self.o.stats.inc("probe/fed_again_after_crash");
			}
			self.price(block, a, *price, &worth, price_tags);
			self.ws[run].tried.insert(a);
			if ok {
				self.ws[run].accepted.insert(a);
				self.fed[node].insert((a, win), Fed::By(run));
			}
		}
		for a in 0..4 {
			if worth.iter().any(|w| w.1 == a && w.2 == Worth::Proper) {
				self.ws[run].proper.insert(a);
			}
		}
		// Whoever is asked and answers properly is heard.
		let missing: Vec<&str> =
			self.ws[run].proper.iter().filter(|a| !seen.contains(a)).map(|a| ASSETS[*a]).collect();
		self.o.check(missing.is_empty(), &["O01", "O02", "O03"], "price_left_out", || {
			format!("node {node} fed no price for {missing:?} at block {block}, although an exchange had answered")
		});
	}

	fn price(&mut self, block: u32, a: usize, price: FixedU128, worth: &[(usize, usize, Worth, (f64, f64))], tags: &[&str]) {
		let all: Vec<(usize, usize, Worth, (f64, f64))> = worth.iter().copied().filter(|w: &(usize, usize, Worth, (f64, f64))| w.1 == a && w.2 != Worth::Never).collect();
		let (must, may): (Vec<_>, Vec<_>) = all.iter().copied().partition(|w: &(usize, usize, Worth, (f64, f64))| w.2 == Worth::Proper);
		if must.is_empty() && may.is_empty() {
			return self.o.fail(tags, "price_from_nothing", || {
				format!("a price for {} at block {block} although no exchange gave a proper answer", ASSETS[a])
			});
		}
		let got = price.into_inner() as f64 / 1e18;
		let mut want = vec![];
		let mut fits = false;
		for mask in 0..1u32 << may.len() {
			let (mut pv, mut v) = (0.0, 0.0);
			for (i, w) in must.iter().chain(may.iter()).enumerate() {
				if i < must.len() || mask >> (i - must.len()) & 1 == 1 {
					pv += w.3 .0;
					v += w.3 .1;
				}
			}
			if v > 0.0 {
				let p = pv / v;
				want.push(p);
				fits |= (got - p).abs() <= p * 1e-6;
			}
		}
		self.o.stats.inc(match must.len() + may.len() {
			1 => "probe/price_from_one_exchange",
			_ => "probe/price_from_several_exchanges",
		});
		self.o.check(fits, tags, "wrong_price", || {
			let from: Vec<String> =
				all.iter().map(|w| format!("{} {:.9}{}", EXCHANGES[w.0], w.3 .0 / w.3 .1, if w.2 == Worth::Either { "?" } else { "" })).collect();
			format!("price {got:.9} for {} at block {block}; by volume it is {want:.9?} (from {from:?})", ASSETS[a])
		});
	}

	/// A worker is through.
	fn ended(&mut self, run: usize, r: Result<(), String>) {
		let node = self.node_of(run);
		let (dead, now) = {
			let c = self.c();
			(c.runs[run].dead, c.now)
		};
		for f in self.fed[node].values_mut() {
			if *f == Fed::By(run) {
				*f = if r.is_ok() { Fed::Sure } else { Fed::Maybe };
			}
		}
		let (block, start) = (self.ws[run].block, self.ws[run].start);
		if let Err(m) = r {
			if !dead {
				self.crashed[node] = Some(now);
				self.o.fail(&["O02"], "panic", || format!("the worker for block {block} panicked: {m}"));
			}
			return;
		}
		let took = now - start;
		self.o.check(took <= 60_000, &["O02"], "too_long", || {
			format!("the worker for block {block} took {took} ms")
		});
		if took > 5_000 {
			self.o.stats.inc("probe/worker_took_over_5_s");
		}
		// What it had to do.
		let w = &self.ws[run];
		if w.keys_changed || self.window_of(block).is_none() {
			return;
		}
		let keys = self.c().nodes[node].keys.clone();
		if !keys.iter().any(|k| w.members[*k]) {
			return;
		}
		if !w.asking {
			let crashed = self.crashed[node].map_or(false, |t| start <= t + 60_000);
			if w.shared || crashed {
				self.o.stats.inc("probe/another_worker_first");
				return;
			}
			let e = self.eligible(run);
			// With keys of others beside the member's, it may be that it looked at the wrong one.
			let mixed = !keys.iter().all(|k| self.ws[run].members[*k]);
			let tags: &[&str] = if mixed { &["O03", "O04", "O05"] } else { &["O03", "O05"] };
			self.o.check(e.is_empty(), tags, "stays_idle", || {
				let names: Vec<&str> = e.iter().map(|a| ASSETS[*a]).collect();
				format!("node {node} did not ask for the prices of {names:?} at block {block}, although they were due")
			});
			return;
		}
		let e = w.eligible.clone().unwrap_or_default();
		let idle: Vec<&str> =
			e.iter().filter(|a| !w.asked.iter().any(|p| p.1 == **a)).map(|a| ASSETS[*a]).collect();
		let silent: Vec<String> = w
			.asked
			.iter()
			.map(|p| p.1)
			.collect::<BTreeSet<usize>>()
			.into_iter()
			.flat_map(|a| (0..6).filter(move |x| lists(*x, a)).map(move |x| (x, a)))
			.filter(|p| !w.asked.contains(p))
			.map(|(x, a)| format!("{} for {}", EXCHANGES[x], ASSETS[a]))
			.collect();
		let proper: Vec<&str> = {
			let c = self.c();
			// Proper answers of exchanges that were asked, whether or not a transaction came of it.
			let mut v: BTreeSet<usize> = w.proper.clone();
			for r in c.reqs.iter().rev().take(64).filter(|r| r.run == run && r.ex < 6 && r.sent) {
				let quick = match (&r.ans.head, &r.ans.tail) {
					(exch::Head::At(ms, 200), exch::Tail::End(e)) => *ms.max(e) <= 3000,
					_ => false,
				};
				if quick && r.ans.worth == Worth::Proper {
					v.insert(r.a);
				}
			}
			v.iter().filter(|a| e.contains(a) && !w.tried.contains(a)).map(|a| ASSETS[*a]).collect()
		};
		self.o.check(idle.is_empty(), &["O03", "O05"], "not_asked_for", || {
			format!("node {node} did not ask for the prices of {idle:?} at block {block}, although they were due")
		});
		self.o.check(silent.is_empty(), &["O01"], "not_asked", || {
			format!("node {node} did not ask {silent:?} at block {block}")
		});
		self.o.check(proper.is_empty(), &["O02", "O03", "O05"], "not_fed", || {
			format!("node {node} fed no price of {proper:?} at block {block}, although an exchange had answered")
		});
	}

	/// A new best block: `back` blocks are reverted, then one comes on top.
	fn import(&mut self, back: u8, keep: u64) {
		for _ in 0..back {
			if self.chain.len() > 1 {
				let b = self.chain.pop().expect("more than one");
				let mut c = self.c();
				for (who, nonce) in b.txs {
					c.pool.push(crate::host::Tx { who, nonce });
				}
				c.count("fault/block_reverted");
			}
		}
		let parent = self.chain.last().expect("genesis").clone();
		let mut nonces = parent.nonces.clone();
		let mut txs = vec![];
		{
			let mut c = self.c();
			let mut pool = std::mem::take(&mut c.pool);
			pool.sort_by_key(|t| t.nonce);
			let mut r = Rng::new(keep);
			let mut left = vec![];
			for t in pool {
				let n = nonces.entry(t.who.clone()).or_insert(0);
				if t.nonce < *n {
					continue;
				}
				if t.nonce == *n && (keep == 0 || r.chance(0.7)) {
					*n += 1;
					txs.push((t.who, t.nonce));
				} else if keep != 0 && r.chance(0.1) {
					c.count("fault/transaction_lost");
				} else {
					left.push(t);
				}
			}
			c.pool = left;
			c.nonces = nonces.clone();
		}
		self.chain.push(Blk { number: parent.number + 1, nonces, txs, members: self.members.clone() });
		if self.chain.len() > 40 {
			self.chain.remove(0);
		}
	}

	pub fn step(&mut self, i: usize, s: &Step) {
		self.o.step = i;
		self.o.stats.steps += 1;
		let nodes = self.cfg.nodes.len();
		match s {
			Step::Block { ms, back, run, twice, keep } => {
				let t = self.c().now + ms;
				self.advance(t);
				self.import(*back, *keep);
				let b = self.chain.last().expect("imported").clone();
				for n in 0..nodes {
					if run >> n & 1 == 1 {
						self.start(n, &b);
						if twice >> n & 1 == 1 {
							self.o.stats.inc("fault/worker_runs_twice");
							self.start(n, &b);
						}
					} else {
						self.o.stats.inc("fault/worker_skips_block");
					}
				}
				self.advance(t);
				let w = b.number % self.cfg.interval;
				let busy = self.ws.iter().filter(|w| !w.done).count() as u64;
				let mut h = simcore::H::default();
				h.u(w as u64);
				h.u(busy);
				for f in &self.fed {
					h.u(f.iter().filter(|(k, _)| k.1 == b.number / self.cfg.interval).map(|(k, v)| 1 << (k.0 * 2 + (*v == Fed::Maybe) as usize)).sum());
				}
				self.o.stats.states.insert(h.0);
			},
			Step::Again { node, back } => {
				let k = self.chain.len().saturating_sub(1 + *back as usize);
				let b = self.chain[k].clone();
				self.o.stats.inc("fault/worker_runs_for_old_block");
				self.start(*node as usize % nodes, &b);
				let t = self.c().now;
				self.advance(t);
			},
			Step::Crash { node, after, lossy } => {
				self.calm = false;
				let n = *node as usize % nodes;
				if *after == 0 {
					self.c().crash(n, *lossy);
					let evs = std::mem::take(&mut self.c().events);
					for e in evs {
						self.event(e);
					}
					self.bury();
				} else {
					self.c().nodes[n].crash_in = Some((*after, *lossy));
				}
			},
			Step::Ex { ex, asset, mode } => {
				let mut c = self.c();
				// Number 6 stands for all of them.
				for x in (0..6).filter(|x| *ex as usize % 7 == 6 || *ex as usize % 7 == *x) {
					for a in (0..4).filter(|a| asset.map_or(true, |b| b as usize % 4 == *a)) {
						c.modes[x][a] = mode.clone();
					}
				}
				c.count(match mode {
					Mode::Ok { .. } => "op/exchange_heals",
					Mode::NoStart | Mode::NoSend => "fault/exchange_unreachable",
					Mode::Broken { .. } | Mode::Breaks { .. } => "fault/exchange_breaks_connection",
					Mode::Silent => "fault/exchange_silent",
					Mode::Status { .. } => "fault/exchange_error_status",
					Mode::Trickle { .. } | Mode::Stops { .. } => "fault/exchange_body_stalls",
					Mode::Cut { .. } | Mode::Garbage { .. } => "fault/exchange_garbage",
					Mode::Few { .. } | Mode::Still => "fault/exchange_few_candles_or_no_volume",
					Mode::Absurd { .. } | Mode::Huge { .. } => "fault/exchange_absurd_numbers",
				});
			},
			Step::Heal => self.heal(),
			Step::Members { members } => {
				for k in 0..NKEYS {
					self.members[k] = members.get(k).copied().unwrap_or(false);
				}
				self.o.stats.inc("op/members_change");
			},
			Step::NodeKeys { node, keys } => {
				let n = *node as usize % nodes;
				for r in self.running(n) {
					self.ws[r].keys_changed = true;
				}
				self.c().nodes[n].keys = keys.iter().map(|k| *k as usize % NKEYS).collect();
				self.o.stats.inc("op/keys_change");
			},
			Step::Garble { node, what } => {
				let n = *node as usize % nodes;
				if self.running(n).next().is_some() {
					return;
				}
				{
					let mut c = self.c();
					let db = &mut c.nodes[n].db;
					match what % 4 {
						0 => {
							db.insert(LAST_SEND.to_vec(), vec![0xff; 3]);
						},
						1 => {
							db.insert(LOCK.to_vec(), vec![1, 2, 3]);
						},
						2 => {
							db.clear();
						},
						_ => {
							if let Some(v) = db.get_mut(LAST_SEND) {
								let k = v.len() / 2;
								v.truncate(k);
							}
						},
					}
					c.count("fault/local_database_damaged");
				}
				if what % 4 != 1 {
					for f in self.fed[n].values_mut() {
						*f = Fed::Maybe;
					}
					// The node has forgotten everything: what it knows of later windows, too.
					let w = self.height() / self.cfg.interval;
					self.fed[n].retain(|k, _| k.1 >= w);
				}
			},
			Step::Jump { ms } =>
				if !self.busy() {
					let mut c = self.c();
					c.now += ms;
					c.count("fault/clock_jumps_ahead");
				},
			Step::Refuse { node, n } => self.c().nodes[*node as usize % nodes].refuse = *n,
			Step::Drop { n } => {
				let mut c = self.c();
				for _ in 0..*n {
					if c.pool.pop().is_some() {
						c.count("fault/transaction_lost");
					}
				}
			},
			Step::Finish { seed } => self.finish(*seed),
		}
	}

	fn heal(&mut self) {
		let mut c = self.c();
		c.modes = std::array::from_fn(|_| std::array::from_fn(|_| Mode::Ok { ms: 150, pieces: 2 }));
		for n in c.nodes.iter_mut() {
			n.crash_in = None;
			n.refuse = 0;
		}
	}

	/// End the threads of workers that died with their node.
	fn bury(&mut self) {
		let dead: Vec<usize> = {
			let c = self.c();
			(0..self.ws.len()).filter(|i| !self.ws[*i].done && c.runs[*i].dead).collect()
		};
		for i in dead {
			self.resume(i, true);
		}
	}

	/// Nothing fails any more: within the next windows everybody feeds everything.
	fn finish(&mut self, seed: u64) {
		self.heal();
		let mut r = Rng::new(seed);
		let t = self.c().now + 700_000;
		self.advance(t);
		if self.o.done() {
			return;
		}
		let stuck = self.busy();
		self.o.check(!stuck, &["O02", "O05"], "never_ends", || "a worker is still running ten minutes later".into());
		if stuck {
			self.dead = true;
			return;
		}
		let iv = self.cfg.interval;
		for f in self.fed.iter_mut() {
			// What was done in windows of a chain that was reverted since does not bind.
			let _ = f;
		}
		let first = (self.height() / iv + 1) * iv;
		let nodes = self.cfg.nodes.len();
		while self.height() < first + iv + self.cfg.window && !self.o.done() {
			self.import(0, 0);
			let b = self.chain.last().expect("imported").clone();
			for n in 0..nodes {
				self.start(n, &b);
			}
			let t = self.c().now + r.range(2_000, 12_000);
			self.advance(t);
		}
		if self.o.done() {
			return;
		}
		for n in 0..nodes {
			let keys = self.c().nodes[n].keys.clone();
			if !keys.iter().any(|k| self.members[*k]) {
				continue;
			}
			self.o.touch(&["O05"]);
			for w in [first / iv, first / iv + 1] {
				let missing: Vec<&str> =
					(0..4).filter(|a| !self.fed[n].contains_key(&(*a, w))).map(|a| ASSETS[a]).collect();
				self.o.check(missing.is_empty(), &["O05"], "window_without_feed", || {
					format!("node {n} did not feed {missing:?} in the window from block {}, although nothing failed", w * iv)
				});
			}
		}
	}

	/// End all threads, collect the counters.
	pub fn close(&mut self) {
		let open: Vec<usize> = (0..self.ws.len()).filter(|i| !self.ws[*i].done).collect();
		for i in open {
			let _ = self.ws[i].resume.send(true);
			// Whatever is still said is no longer heard.
			while let Ok((w, y)) = self.inbox.recv() {
				if w == i {
					if let Yield::Done(_) = y {
						break;
					}
					let _ = self.ws[i].resume.send(true);
				}
			}
			self.ws[i].done = true;
			if let Some(t) = self.ws[i].thread.take() {
				let _ = t.join();
			}
		}
		let (counts, now) = {
			let c = self.c();
			(c.counts.clone(), c.now)
		};
		for (k, v) in counts {
			self.o.stats.add(k, v);
		}
		self.o.stats.sim_time += (now - self.t0) / 1000;
		let _ = FixedU128::accuracy();
	}
}
