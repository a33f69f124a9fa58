//! What happens in a run.
use crate::{
	exch::Mode,
	host::NKEYS,
	world::{Cfg, Step, World},
};
use simcore::Rng;

/// Some of the keys of a node, in any order: no two nodes share one.
fn own_keys(r: &mut Rng, node: u64, of: u64) -> Vec<u8> {
	let mut all: Vec<u8> = (0..NKEYS as u64).filter(|k| k % of == node).map(|k| k as u8).collect();
	r.shuffle(&mut all);
	let least = if r.chance(0.1) { 0 } else { 1 };
	all.truncate(r.range(least, 4) as usize);
	all
}

pub fn cfg(r: &mut Rng) -> Cfg {
	let window = r.range(1, 6) as u32;
	let interval = window * 2 + r.range(0, 10) as u32;
	let count = r.range(1, 3);
	let nodes = (0..count).map(|n| own_keys(r, n, count)).collect::<Vec<Vec<u8>>>();
	let members = (0..NKEYS).map(|_| r.chance(0.7)).collect();
	let start = match r.below(3) {
		0 => 0,
		1 => r.range(0, 200) as u32,
		_ => 1_000_000 + r.range(0, 500) as u32,
	};
	Cfg {
		old: nodes.iter().map(|_| r.chance(0.2)).collect(),
		interval,
		window,
		nodes,
		members,
		seed: r.next() >> 12,
		preempt: *r.pick(&[0, 0, 20, 100, 300]),
		start,
	}
}

pub struct Gen {
	pub faults: bool,
	exchanges: bool,
	crashes: bool,
	forks: bool,
	keys: bool,
	pace: (u64, u64),
	skip: f64,
}
impl Gen {
	pub fn new(r: &mut Rng) -> Self {
		let faults = r.chance(0.85);
		Gen {
			faults,
			exchanges: faults && r.chance(0.8),
			crashes: faults && r.chance(0.5),
			forks: faults && r.chance(0.5),
			keys: faults && r.chance(0.4),
			pace: *r.pick(&[(6_000, 6_000), (12_000, 12_000), (2_000, 14_000), (100, 3_000)]),
			skip: *r.pick(&[0.0, 0.0, 0.2, 0.5]),
		}
	}
	fn mode(&self, r: &mut Rng) -> Mode {
		let mille = match r.below(4) {
			0 => 999,
			1 => 0,
			_ => r.below(1000) as u16,
		};
		match r.below(17) {
			0 => Mode::NoStart,
			1 => Mode::NoSend,
			2 => Mode::Broken { ms: r.range(0, 6000) },
			3 | 4 => Mode::Silent,
			5 => Mode::Status { code: *r.pick(&[404, 429, 500, 503, 302, 403]), ms: r.range(10, 6000) },
			6 => Mode::Trickle { ms: *r.pick(&[1000, 2500, 4000, 5500, 20_000, 45_000, 300_000]) },
			7 => Mode::Stops { mille },
			8 => Mode::Breaks { mille },
			9 => Mode::Cut { mille },
			10 => Mode::Garbage { kind: r.below(8) as u8 },
			11 => Mode::Few { n: r.below(15) as u8 },
			12 => Mode::Still,
			13 | 14 => Mode::Absurd { kind: r.below(10) as u8, field: r.below(4) as u8, at: r.below(15) as u8 },
			15 if r.chance(0.5) => Mode::Huge { price: 8, volume: 11 },
			15 => Mode::Huge { price: r.below(12) as u8, volume: r.below(12) as u8 },
			_ => Mode::Ok { ms: *r.pick(&[10, 500, 2900, 4000, 4999, 5000, 5001, 7000]), pieces: r.range(1, 9) as u8 },
		}
	}
	pub fn step(&mut self, r: &mut Rng, w: &World) -> Step {
		let n = w.cfg.nodes.len() as u8;
		let node = r.below(n as u64) as u8;
		if self.exchanges && r.chance(0.15) {
			if r.chance(0.15) {
				return Step::Heal;
			}
			let asset = r.chance(0.6).then(|| r.below(4) as u8);
			let ex = if r.chance(0.15) { 6 } else { r.below(6) as u8 };
			return Step::Ex { ex, asset, mode: self.mode(r) };
		}
		if self.crashes && r.chance(0.06) {
			return Step::Crash { node, after: *r.pick(&[0, 3, 8, 20, 40, 60, 80, 100, 130]), lossy: r.chance(0.3) };
		}
		if self.faults && r.chance(0.03) {
			return match r.below(4) {
				0 => Step::Garble { node, what: r.below(4) as u8 },
				1 => Step::Jump { ms: *r.pick(&[1000, 30_000, 3_600_000]) },
				2 => Step::Refuse { node, n: r.range(1, 3) as u32 },
				_ => Step::Drop { n: r.range(1, 3) as u8 },
			};
		}
		if self.keys && r.chance(0.05) {
			if r.chance(0.5) {
				return Step::Members { members: (0..NKEYS).map(|_| r.chance(0.6)).collect() };
			}
			return Step::NodeKeys { node, keys: own_keys(r, node as u64, n as u64) };
		}
		if self.forks && r.chance(0.06) {
			return Step::Again { node, back: r.below(4) as u8 };
		}
		let mut run = 0;
		for i in 0..n {
			if !r.chance(self.skip) {
				run |= 1 << i;
			}
		}
		Step::Block {
			ms: r.range(self.pace.0, self.pace.1),
			back: if self.forks && r.chance(0.1) { r.range(1, 3) as u8 } else { 0 },
			run,
			twice: if self.forks && r.chance(0.1) { r.below(8) as u8 } else { 0 },
			keep: if self.faults { r.next() >> 12 } else { 0 },
		}
	}
}
