//! The node a worker runs on: clock, connections, local database, keys and transaction pool, all simulated. Every
//! worker is a thread, but only one of them runs at a time: the simulator decides which, and for how long.
use crate::exch::{self, Answer, Head, Mode, Tail, Worth};
use parity_scale_codec::{Decode, Encode};
use sp_core::{
	crypto::KeyTypeId,
	ecdsa, ed25519,
	offchain::{
		DbExternalities, Externalities, HttpError, HttpRequestId, HttpRequestStatus, OpaqueNetworkState, StorageKind,
		Timestamp, TransactionPool,
	},
	sr25519, OpaquePeerId, Pair,
};
use sp_keystore::{Error, Keystore};
use sp_runtime::AccountId32;
use std::{
	collections::BTreeMap,
	sync::{
		mpsc::{Receiver, Sender},
		Arc, Mutex, MutexGuard, OnceLock,
	},
};

pub const NKEYS: usize = 6;
pub fn pairs() -> &'static Vec<sr25519::Pair> {
	static P: OnceLock<Vec<sr25519::Pair>> = OnceLock::new();
	P.get_or_init(|| {
		(0..NKEYS).map(|i| sr25519::Pair::from_string(&format!("//oracle{i}"), None).expect("a derivation")).collect()
	})
}
pub fn account(k: usize) -> AccountId32 {
	AccountId32::from(pairs()[k].public().0)
}

#[derive(Default, Clone)]
pub struct Node {
	/// The local database: what survives a crash.
	pub db: BTreeMap<Vec<u8>, Vec<u8>>,
	/// What the last write replaced.
	pub undo: Option<(Vec<u8>, Option<Vec<u8>>)>,
	/// The keystore, in its order.
	pub keys: Vec<usize>,
	/// Crash at the so-many-th host call from now; whether the last write is lost.
	pub crash_in: Option<(u32, bool)>,
	/// The pool refuses so many transactions.
	pub refuse: u32,
}

pub struct Run {
	pub node: usize,
	pub dead: bool,
	pub calls: u64,
}

pub struct Req {
	pub run: usize,
	pub ex: usize,
	pub a: usize,
	pub at: u64,
	pub sent: bool,
	pub ans: Answer,
	pub piece: usize,
	pub pos: usize,
	pub gone: bool,
	/// The whole body reached the worker.
	pub delivered: bool,
}

pub struct Tx {
	pub who: AccountId32,
	pub nonce: u32,
}

pub enum Ev {
	Asked { run: usize, what: Option<(usize, usize)>, uri: String },
	Http { run: usize },
	Submitted { run: usize, xt: Vec<u8>, ok: bool, worth: Vec<(usize, usize, Worth, (f64, f64))> },
	Crashed { node: usize, lossy: bool },
}

pub struct Core {
	pub now: u64,
	pub seed: u64,
	pub nodes: Vec<Node>,
	pub modes: [[Mode; 4]; 6],
	pub runs: Vec<Run>,
	pub reqs: Vec<Req>,
	pub pool: Vec<Tx>,
	/// Nonces after the best block.
	pub nonces: BTreeMap<AccountId32, u32>,
	pub events: Vec<Ev>,
	pub counts: BTreeMap<&'static str, u64>,
	/// How often a host call lets other workers go first (per mille).
	pub preempt: u64,
}
impl Core {
	pub fn count(&mut self, k: &'static str) {
		*self.counts.entry(k).or_default() += 1;
	}
	pub fn crash(&mut self, node: usize, lossy: bool) {
		for r in self.runs.iter_mut().filter(|r| r.node == node) {
			r.dead = true;
		}
		let n = &mut self.nodes[node];
		n.crash_in = None;
		if let (true, Some((k, v))) = (lossy, n.undo.take()) {
			match v {
				Some(v) => n.db.insert(k, v),
				None => n.db.remove(&k),
			};
			self.count("fault/write_lost_in_crash");
		}
		self.count("fault/node_crash");
		self.events.push(Ev::Crashed { node, lossy });
	}
}

pub enum Yield {
	Until(u64),
	Done(Result<(), String>),
}

#[derive(Clone)]
pub struct Host {
	pub core: Arc<Mutex<Core>>,
	pub run: usize,
	pub node: usize,
	pub out: Sender<(usize, Yield)>,
	pub back: Arc<Mutex<Receiver<bool>>>,
}
impl Host {
	fn c(&self) -> MutexGuard<'_, Core> {
		self.core.lock().unwrap_or_else(|e| e.into_inner())
	}
	pub fn wait_until(&self, t: u64) {
		self.out.send((self.run, Yield::Until(t))).expect("the scheduler listens");
		let die = self.back.lock().unwrap_or_else(|e| e.into_inner()).recv().unwrap_or(true);
		if die || self.c().runs[self.run].dead {
			self.die();
		}
	}
	fn die(&self) -> ! {
		self.c().runs[self.run].dead = true;
		panic!("the node crashed");
	}
	/// Every call to the host passes here. False: the worker is already gone, nothing happens any more.
	fn enter(&self) -> bool {
		if std::thread::panicking() {
			return false;
		}
		let wait = {
			let mut c = self.c();
			let (run, node) = (self.run, self.node);
			c.runs[run].calls += 1;
			let n = c.runs[run].calls;
			match c.nodes[node].crash_in {
				Some((0, lossy)) => {
					c.crash(node, lossy);
					drop(c);
					self.die();
				},
				Some((k, l)) => c.nodes[node].crash_in = Some((k - 1, l)),
				None => {},
			}
			let mut h = simcore::H::default();
			h.u(c.seed);
			h.u(run as u64);
			h.u(n);
			let mut x = h.0;
			let r = simcore::rng::splitmix(&mut x);
			(r % 1000 < c.preempt).then(|| c.now + (r >> 20) % 40)
		};
		if let Some(t) = wait {
			self.c().count("fault/worker_preempted");
			self.wait_until(t);
		}
		true
	}
	fn live(&self, c: &Core, id: HttpRequestId) -> bool {
		c.reqs.get(id.0 as usize).map_or(false, |r| r.run == self.run && !r.gone)
	}
}

impl Externalities for Host {
	fn is_validator(&self) -> bool {
		true
	}
	fn network_state(&self) -> Result<OpaqueNetworkState, ()> {
		Err(())
	}
	fn timestamp(&mut self) -> Timestamp {
		self.enter();
		Timestamp::from_unix_millis(self.c().now)
	}
	fn sleep_until(&mut self, deadline: Timestamp) {
		if self.enter() {
			let t = deadline.unix_millis();
			if self.c().now < t {
				self.wait_until(t);
			}
		}
	}
	fn random_seed(&mut self) -> [u8; 32] {
		let c = self.c();
		sp_core::blake2_256(&(c.seed, self.run as u64, c.runs[self.run].calls).encode())
	}
	fn http_request_start(&mut self, _method: &str, uri: &str, _meta: &[u8]) -> Result<HttpRequestId, ()> {
		if !self.enter() {
			return Err(());
		}
		let mut c = self.c();
		let what = exch::parse_url(uri);
		let run = self.run;
		c.events.push(Ev::Asked { run, what: what.map(|w| (w.0, w.1)), uri: uri.into() });
		let (now, seed, n) = (c.now, c.seed, c.reqs.len() as u64);
		let (ex, a, ans) = match what {
			Some((ex, a, len, limit)) => {
				let mode = c.modes[ex][a].clone();
				if mode == Mode::NoStart {
					c.count("fault/request_not_started");
					return Err(());
				}
				(ex, a, exch::answer(seed, now, n, ex, a, len, limit, &mode))
			},
			None => {
				c.count("probe/unknown_address");
				let none = Answer {
					head: Head::At(50, 404),
					pieces: vec![],
					tail: Tail::End(50),
					worth: Worth::Never,
					sums: (0.0, 0.0),
				};
				(9, 9, none)
			},
		};
		c.reqs.push(Req { run, ex, a, at: now, sent: false, ans, piece: 0, pos: 0, gone: false, delivered: false });
		Ok(HttpRequestId(n as u16))
	}
	fn http_request_add_header(&mut self, id: HttpRequestId, _name: &str, _value: &str) -> Result<(), ()> {
		if !self.enter() {
			return Err(());
		}
		let c = self.c();
		if self.live(&c, id) {
			Ok(())
		} else {
			Err(())
		}
	}
	fn http_request_write_body(
		&mut self,
		id: HttpRequestId,
		_chunk: &[u8],
		_deadline: Option<Timestamp>,
	) -> Result<(), HttpError> {
		if !self.enter() {
			return Err(HttpError::Invalid);
		}
		let mut c = self.c();
		let run = self.run;
		c.events.push(Ev::Http { run });
		if !self.live(&c, id) {
			return Err(HttpError::Invalid);
		}
		let (ex, a) = (c.reqs[id.0 as usize].ex, c.reqs[id.0 as usize].a);
		if ex < 6 && c.modes[ex][a] == Mode::NoSend {
			c.reqs[id.0 as usize].gone = true;
			c.count("fault/request_not_sent");
			return Err(HttpError::IoError);
		}
		c.reqs[id.0 as usize].sent = true;
		Ok(())
	}
	fn http_response_wait(&mut self, ids: &[HttpRequestId], deadline: Option<Timestamp>) -> Vec<HttpRequestStatus> {
		if !self.enter() {
			return ids.iter().map(|_| HttpRequestStatus::Invalid).collect();
		}
		let until = {
			let mut c = self.c();
			let run = self.run;
			c.events.push(Ev::Http { run });
			let ready = ids
				.iter()
				.filter(|i| self.live(&c, **i))
				.map(|i| {
					let r = &c.reqs[i.0 as usize];
					match r.ans.head {
						Head::At(ms, _) | Head::Broken(ms) => r.at + ms,
						// Somebody on the way gives up at last.
						Head::Never => r.at + 600_000,
					}
				})
				.max()
				.unwrap_or(0);
			let t = deadline.map_or(ready, |d| ready.min(d.unix_millis()));
			(t > c.now).then_some(t)
		};
		if let Some(t) = until {
			self.wait_until(t);
		}
		let mut c = self.c();
		let (now, run) = (c.now, self.run);
		c.events.push(Ev::Http { run });
		ids.iter()
			.map(|i| {
				if !self.live(&c, *i) {
					return HttpRequestStatus::Invalid;
				}
				let r = &mut c.reqs[i.0 as usize];
				match r.ans.head {
					Head::At(ms, code) if r.at + ms <= now => HttpRequestStatus::Finished(code),
					Head::Broken(ms) if r.at + ms <= now => {
						r.gone = true;
						c.count("fault/connection_broken");
						HttpRequestStatus::IoError
					},
					Head::Never if r.at + 600_000 <= now => {
						r.gone = true;
						HttpRequestStatus::IoError
					},
					_ => {
						c.count("fault/answer_too_late");
						HttpRequestStatus::DeadlineReached
					},
				}
			})
			.collect()
	}
	fn http_response_headers(&mut self, _id: HttpRequestId) -> Vec<(Vec<u8>, Vec<u8>)> {
		self.enter();
		vec![]
	}
	fn http_response_read_body(
		&mut self,
		id: HttpRequestId,
		buffer: &mut [u8],
		deadline: Option<Timestamp>,
	) -> Result<usize, HttpError> {
		if !self.enter() {
			return Err(HttpError::Invalid);
		}
		loop {
			let until = {
				let mut c = self.c();
				let (now, run) = (c.now, self.run);
				c.events.push(Ev::Http { run });
				if !self.live(&c, id) {
					return Err(HttpError::Invalid);
				}
				let r = &mut c.reqs[id.0 as usize];
				let next = if let Some((ms, p)) = r.ans.pieces.get(r.piece) {
					if r.at + ms <= now {
						let k = buffer.len().min(p.len() - r.pos);
						buffer[..k].copy_from_slice(&p[r.pos..r.pos + k]);
						r.pos += k;
						if r.pos == p.len() {
							r.piece += 1;
							r.pos = 0;
						}
						r.delivered = r.piece == r.ans.pieces.len();
						return Ok(k);
					}
					r.at + ms
				} else {
					match r.ans.tail {
						Tail::End(ms) if r.at + ms <= now => {
							r.delivered = true;
							r.gone = true;
							return Ok(0);
						},
						Tail::Broken(ms) if r.at + ms <= now => {
							r.gone = true;
							c.count("fault/connection_broken_in_body");
							return Err(HttpError::IoError);
						},
						Tail::End(ms) | Tail::Broken(ms) => r.at + ms,
						Tail::Never if r.at + 600_000 <= now => {
							r.gone = true;
							return Err(HttpError::IoError);
						},
						Tail::Never => r.at + 600_000,
					}
				};
				match deadline.map(|d| d.unix_millis()) {
					Some(d) if d <= now => {
						c.count("fault/body_too_late");
						return Err(HttpError::DeadlineReached);
					},
					Some(d) => next.min(d),
					None => next,
				}
			};
			self.wait_until(until);
		}
	}
	fn set_authorized_nodes(&mut self, _nodes: Vec<OpaquePeerId>, _only: bool) {}
}

// As in the node's own database, only the persistent kind is available.
impl DbExternalities for Host {
	fn local_storage_set(&mut self, kind: StorageKind, key: &[u8], value: &[u8]) {
		if self.enter() && kind == StorageKind::PERSISTENT {
			let mut c = self.c();
			let n = &mut c.nodes[self.node];
			let old = n.db.insert(key.to_vec(), value.to_vec());
			n.undo = Some((key.to_vec(), old));
		}
	}
	fn local_storage_clear(&mut self, kind: StorageKind, key: &[u8]) {
		if self.enter() && kind == StorageKind::PERSISTENT {
			let mut c = self.c();
			let n = &mut c.nodes[self.node];
			let old = n.db.remove(key);
			n.undo = Some((key.to_vec(), old));
		}
	}
	fn local_storage_compare_and_set(
		&mut self,
		kind: StorageKind,
		key: &[u8],
		old_value: Option<&[u8]>,
		new_value: &[u8],
	) -> bool {
		if !self.enter() || kind != StorageKind::PERSISTENT {
			return false;
		}
		let mut c = self.c();
		let n = &mut c.nodes[self.node];
		if n.db.get(key).map(|v| v.as_slice()) != old_value {
			c.count("probe/compare_and_set_lost");
			return false;
		}
		let old = n.db.insert(key.to_vec(), new_value.to_vec());
		n.undo = Some((key.to_vec(), old));
		true
	}
	fn local_storage_get(&mut self, kind: StorageKind, key: &[u8]) -> Option<Vec<u8>> {
		if !self.enter() || kind != StorageKind::PERSISTENT {
			return None;
		}
		self.c().nodes[self.node].db.get(key).cloned()
	}
}

impl TransactionPool for Host {
	fn submit_transaction(&mut self, xt: Vec<u8>) -> Result<(), ()> {
		if !self.enter() {
			return Err(());
		}
		let mut c = self.c();
		let (run, node) = (self.run, self.node);
		let mut ok = c.nodes[node].refuse == 0;
		if !ok {
			c.nodes[node].refuse -= 1;
			c.count("fault/pool_refuses");
		}
		if let Ok(crate::runtime::Xt { sig: Some((who, nonce, _)), .. }) = Decode::decode(&mut &xt[..]) {
			let expected = c.nonces.get(&who).copied().unwrap_or(0);
			if nonce < expected || c.pool.iter().any(|t| t.who == who && t.nonce == nonce) {
				c.count("probe/transaction_stale");
				ok = false;
			}
			if ok {
				c.pool.push(Tx { who, nonce });
			}
		}
		let worth = c
			.reqs
			.iter()
			.filter(|r| r.run == run && r.ex < 6 && r.sent)
			.map(|r| {
				let end = match (&r.ans.head, &r.ans.tail) {
					(Head::At(ms, 200), Tail::End(e)) => Some(*ms.max(e)),
					_ => None,
				};
				let w = match (r.ans.worth, end) {
					(Worth::Never, _) | (_, None) => Worth::Never,
					(Worth::Proper, Some(e)) if e <= 3000 => Worth::Proper,
					_ if r.delivered => Worth::Either,
					_ => Worth::Never,
				};
				(r.ex, r.a, w, r.ans.sums)
			})
			.collect();
		c.events.push(Ev::Submitted { run, xt, ok, worth });
		if ok {
			Ok(())
		} else {
			Err(())
		}
	}
}

/// The keystore of a node: keys in a fixed order.
pub struct Keys(pub Host);
impl Keystore for Keys {
	fn sr25519_public_keys(&self, key_type: KeyTypeId) -> Vec<sr25519::Public> {
		if !self.0.enter() || key_type != KeyTypeId(*b"plmc") {
			return vec![];
		}
		self.0.c().nodes[self.0.node].keys.iter().map(|k| pairs()[*k].public()).collect()
	}
	fn sr25519_sign(
		&self,
		key_type: KeyTypeId,
		public: &sr25519::Public,
		msg: &[u8],
	) -> Result<Option<sr25519::Signature>, Error> {
		if !self.0.enter() || key_type != KeyTypeId(*b"plmc") {
			return Ok(None);
		}
		let c = self.0.c();
		Ok(c.nodes[self.0.node].keys.iter().find(|k| pairs()[**k].public() == *public).map(|k| pairs()[*k].sign(msg)))
	}
	fn has_keys(&self, public_keys: &[(Vec<u8>, KeyTypeId)]) -> bool {
		let c = self.0.c();
		public_keys.iter().all(|(p, t)| {
			*t == KeyTypeId(*b"plmc") && c.nodes[self.0.node].keys.iter().any(|k| pairs()[*k].public().0[..] == p[..])
		})
	}
	fn keys(&self, key_type: KeyTypeId) -> Result<Vec<Vec<u8>>, Error> {
		Ok(self.sr25519_public_keys(key_type).iter().map(|p| p.0.to_vec()).collect())
	}
	fn sr25519_generate_new(&self, _: KeyTypeId, _: Option<&str>) -> Result<sr25519::Public, Error> {
		Err(Error::Unavailable)
	}
	fn sr25519_vrf_sign(
		&self,
		_: KeyTypeId,
		_: &sr25519::Public,
		_: &sr25519::vrf::VrfSignData,
	) -> Result<Option<sr25519::vrf::VrfSignature>, Error> {
		Err(Error::Unavailable)
	}
	fn sr25519_vrf_pre_output(
		&self,
		_: KeyTypeId,
		_: &sr25519::Public,
		_: &sr25519::vrf::VrfInput,
	) -> Result<Option<sr25519::vrf::VrfPreOutput>, Error> {
		Err(Error::Unavailable)
	}
	fn ed25519_public_keys(&self, _: KeyTypeId) -> Vec<ed25519::Public> {
		vec![]
	}
	fn ed25519_generate_new(&self, _: KeyTypeId, _: Option<&str>) -> Result<ed25519::Public, Error> {
		Err(Error::Unavailable)
	}
	fn ed25519_sign(&self, _: KeyTypeId, _: &ed25519::Public, _: &[u8]) -> Result<Option<ed25519::Signature>, Error> {
		Ok(None)
	}
	fn ecdsa_public_keys(&self, _: KeyTypeId) -> Vec<ecdsa::Public> {
		vec![]
	}
	fn ecdsa_generate_new(&self, _: KeyTypeId, _: Option<&str>) -> Result<ecdsa::Public, Error> {
		Err(Error::Unavailable)
	}
	fn ecdsa_sign(&self, _: KeyTypeId, _: &ecdsa::Public, _: &[u8]) -> Result<Option<ecdsa::Signature>, Error> {
		Ok(None)
	}
	fn ecdsa_sign_prehashed(
		&self,
		_: KeyTypeId,
		_: &ecdsa::Public,
		_: &[u8; 32],
	) -> Result<Option<ecdsa::Signature>, Error> {
		Ok(None)
	}
	fn insert(&self, _: KeyTypeId, _: &str, _: &[u8]) -> Result<(), ()> {
		Err(())
	}
}
