mod assets;
mod gen;
mod inv;
mod ops;
mod para;
mod runtime;
mod snap;
mod spec;
mod views;
mod world;

use simcore::{Domain, Oracle, PropInfo, Rng, RunResult};
use world::{Cfg, Step, World};

struct Fund;

fn finish(w: World, steps: Vec<Step>) -> RunResult<Cfg, Step> {
	let mut o = w.o;
	let mut h = o.th;
	for (k, v) in &o.stats.counters {
		h.s(k);
		h.u(*v);
	}
	h.u(o.stats.checks);
	if let Some(v) = &o.violation {
		h.s(&v.kind);
		h.s(&v.msg);
	}
	RunResult {
		cfg: w.cfg,
		steps,
		violation: o.violation.take(),
		known: std::mem::take(&mut o.known),
		stats: std::mem::take(&mut o.stats),
		transcript: h.0,
	}
}

impl Domain for Fund {
	type Cfg = Cfg;
	type Step = Step;

	fn name(&self) -> &'static str {
		"funding"
	}
	fn props(&self) -> Vec<PropInfo> {
		const R: &str = "every call, message and channel event is executed on the real pallets of both chains, compared with the specification and checked against independent invariants";
		[
			"F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "F10", "F11", "F12", "F13", "F14", "L01", "P01", "F15", "F16",
		]
		.iter()
		.map(|id| PropInfo { id, rule: R })
		.collect()
	}
	fn sim_unit(&self) -> &'static str {
		"blocks"
	}
	fn components(&self) -> serde_json::Value {
		serde_json::json!({
			"real": ["pallet-funding", "pallet-linear-release", "pallet-proxy-bonding", "pallet-dispenser", "on-slash-vesting",
				"polimec-receiver (on the project chain)", "polimec-common (credentials)", "frame-system", "pallet-balances", "pallet-vesting"],
			"stub": ["foreign and contribution assets (a small multi-asset pallet with the rules of pallet-assets)",
				"pallet-xcm (notify queries, response dispatch, sending)", "XCM executor of the project chain (the instructions used)",
				"relay chain (HRMP)", "message transport", "oracle prices", "pallet-timestamp (a value)",
				"jwt-compact (real ed25519 over the same token layout)", "block execution order"]
		})
	}
	fn assumptions(&self) -> Vec<String> {
		vec![
			"round lengths and count limits are drawn small so that whole campaigns pass within a run".into(),
			"pallet-balances, pallet-vesting and the fixed-point arithmetic of Substrate are trusted".into(),
			"calls that hit a listed known finding are left out of the runs where they would mask everything after them".into(),
		]
	}
	fn known_demos(&self) -> Vec<&'static str> {
		vec![
			include_str!("../demos/vest-releases-foreign-bonds.json"),
			include_str!("../demos/escrow-dust.json"),
			include_str!("../demos/escrow-dust-settlement.json"),
			include_str!("../demos/refund-at-current-price.json"),
			include_str!("../demos/fee-refund-at-current-price.json"),
			include_str!("../demos/fees-out-before-refunds.json"),
		]
	}
	fn run(&self, seed: u64, o: Oracle) -> RunResult<Cfg, Step> {
		let mut r = Rng::new(seed);
		let prop = o.prop.clone();
		let cfg = gen::cfg(&mut r, &prop);
		let mut w = World::new(cfg.clone(), o);
		let mut g = gen::Gen::new(&mut r, &prop, &cfg);
		w.o.stats.inc(if g.faults { "enabled/faulty_run" } else { "enabled/fault_free_run" });
		let max = r.range(60, 420) as usize;
		let mut steps: Vec<Step> = vec![];
		while steps.len() < max && !w.o.done() && !w.dead {
			let s = g.step(&mut r, &w);
			w.step(steps.len(), &s);
			steps.push(s);
		}
		if !w.o.done() && !w.dead {
			let s = Step::Finish { seed: r.next() >> 12 };
			w.step(steps.len(), &s);
			steps.push(s);
		}
		finish(w, steps)
	}
	fn replay(&self, cfg: &Cfg, steps: &[Step], o: Oracle) -> RunResult<Cfg, Step> {
		let mut w = World::new(cfg.clone(), o);
		for (i, s) in steps.iter().enumerate() {
			w.step(i, s);
			if w.o.done() || w.dead {
				break;
			}
		}
		finish(w, steps.to_vec())
	}
	fn describe(&self, s: &Step) -> String {
		match s {
			Step::Call { who, op, reorg } =>
				format!("{who} calls {op:?}{}", if *reorg { " (its block is reverted and executed again)" } else { "" }),
			s => format!("{s:?}"),
		}
	}
	fn shrink_step(&self, s: &Step) -> Vec<Step> {
		match s {
			Step::Call { who, op, reorg: true } => vec![Step::Call { who: *who, op: op.clone(), reorg: false }],
			Step::Net { nth, act } if *nth > 0 || *act != world::Act::Deliver => vec![Step::Net { nth: 0, act: world::Act::Deliver }],
			_ => vec![],
		}
	}
}

fn main() {
	simcore::main(Fund)
}
