mod gen;
mod runtime;
mod host;
mod exch;
mod world;

use simcore::{Domain, Oracle, PropInfo, Rng, RunResult};
use world::{Cfg, Step, World};

struct Prices;

fn finish(mut w: World, steps: Vec<Step>) -> RunResult<Cfg, Step> {
	w.close();
	let mut o = w.o;
	let mut h = o.th;
	for (k, v) in &o.stats.counters {
		h.s(k);
		h.u(*v);
	}
	h.u(o.stats.checks);
	if let Some(v) = &o.violation {
		h.s(&v.kind);
		h.s(&v.msg);
	}
	RunResult {
		cfg: w.cfg,
		steps,
		violation: o.violation.take(),
		known: std::mem::take(&mut o.known),
		stats: std::mem::take(&mut o.stats),
		transcript: h.0,
	}
}

impl Domain for Prices {
	type Cfg = Cfg;
	type Step = Step;

	fn name(&self) -> &'static str {
		"oracle"
	}
	fn props(&self) -> Vec<PropInfo> {
		const R: &str = "every worker runs the real code against simulated clock, connections, database, keys and pool; its requests and transactions are compared with what the exchanges answered and with what the node had fed before";
		["O01", "O02", "O03", "O04", "O05"]
			.iter()
			.map(|id| PropInfo { id, rule: R })
			.collect()
	}
	fn sim_unit(&self) -> &'static str {
		"seconds"
	}
	fn components(&self) -> serde_json::Value {
		serde_json::json!({
			"real": ["pallet-oracle-ocw", "frame-system (signing and submitting)", "sp-runtime (requests, storage lock, stored values)"],
			"stub": ["host functions of the offchain worker (clock, HTTP, local database, keystore, transaction pool): the simulator", "the chain (blocks, nonces, members): the simulator",
				"orml-oracle (its feed_values call only)", "serde-json-core (on serde_json), heapless (bounded collections), substrate-fixed (U100F28)"]
		})
	}
	fn assumptions(&self) -> Vec<String> {
		vec![
			"intervals and windows are drawn small, the interval at least twice the window, as in the runtime".into(),
			"the host keeps the deadlines the worker gives it".into(),
		]
	}
	fn run(&self, seed: u64, o: Oracle) -> RunResult<Cfg, Step> {
		let mut r = Rng::new(seed);
		let cfg = gen::cfg(&mut r);
		let mut w = World::new(cfg, o);
		let mut g = gen::Gen::new(&mut r);
		w.o.stats.inc(if g.faults { "enabled/faulty_run" } else { "enabled/fault_free_run" });
		let max = r.range(20, 150) as usize;
		let mut steps: Vec<Step> = vec![];
		while steps.len() < max && !w.o.done() && !w.dead {
			let s = g.step(&mut r, &w);
			w.step(steps.len(), &s);
			steps.push(s);
		}
		if !w.o.done() && !w.dead {
			let s = Step::Finish { seed: r.next() >> 12 };
			w.step(steps.len(), &s);
			steps.push(s);
		}
		finish(w, steps)
	}
	fn replay(&self, cfg: &Cfg, steps: &[Step], o: Oracle) -> RunResult<Cfg, Step> {
		let mut w = World::new(cfg.clone(), o);
		for (i, s) in steps.iter().enumerate() {
			w.step(i, s);
			if w.o.done() || w.dead {
				break;
			}
		}
		finish(w, steps.to_vec())
	}
	fn describe(&self, s: &Step) -> String {
		format!("{s:?}")
	}
	fn shrink_step(&self, s: &Step) -> Vec<Step> {
		match s {
			Step::Block { ms, back, run, twice, keep } if *back > 0 || *twice > 0 || *keep != 0 => vec![
				Step::Block { ms: *ms, back: 0, run: *run, twice: *twice, keep: *keep },
				Step::Block { ms: *ms, back: *back, run: *run, twice: 0, keep: *keep },
				Step::Block { ms: *ms, back: *back, run: *run, twice: *twice, keep: 0 },
			],
			Step::Crash { node, after, lossy: true } => vec![Step::Crash { node: *node, after: *after, lossy: false }],
			_ => vec![],
		}
	}
}

fn main() {
	simcore::main(Prices)
}
