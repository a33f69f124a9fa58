#[path = "../../fund/src/assets.rs"]
mod assets;
mod runtime;
mod world;

use simcore::{Domain, Oracle, PropInfo, Rng, RunResult};
use world::{Cfg, Gen, Step, World};

struct Fees;

fn finish(w: World, steps: Vec<Step>) -> RunResult<Cfg, Step> {
	let mut o = w.o;
	let mut h = o.th;
	for (k, v) in &o.stats.counters {
		h.s(k);
		h.u(*v);
	}
	h.u(o.stats.checks);
	if let Some(v) = &o.violation {
		h.s(&v.kind);
		h.s(&v.msg);
	}
	RunResult {
		cfg: w.cfg,
		steps,
		violation: o.violation.take(),
		known: std::mem::take(&mut o.known),
		stats: std::mem::take(&mut o.stats),
		transcript: h.0,
	}
}

impl Domain for Fees {
	type Cfg = Cfg;
	type Step = Step;
	fn name(&self) -> &'static str {
		"fee"
	}
	fn props(&self) -> Vec<PropInfo> {
		const R: &str = "every transaction is charged by the runtime's real fee handlers while prices, authors and the payer's money change around and within it; every balance and the issuance are compared with a model before the call, between and after";
		["T01", "T02"].iter().map(|id| PropInfo { id, rule: R }).collect()
	}
	fn sim_unit(&self) -> &'static str {
		"blocks"
	}
	fn components(&self) -> serde_json::Value {
		serde_json::json!({
			"real": ["runtimes/shared-configuration (fee handlers, weight to fee, treasury account)", "polimec-common (decimals-aware prices)", "pallet-balances, frame-system"],
			"stub": ["pallet-transaction-payment, pallet-asset-tx-payment, pallet-authorship, pallet-assets (rewritten with their rules)", "the price provider and the locations of assets (as in the runtime)"]
		})
	}
	fn assumptions(&self) -> Vec<String> {
		vec!["a transaction whose fee cannot be settled after the call is not included: the block author drops it with all its effects".into()]
	}
	fn run(&self, seed: u64, o: Oracle) -> RunResult<Cfg, Step> {
		let mut r = Rng::new(seed);
		let cfg = Cfg::draw(&mut r);
		let mut w = World::new(cfg, o);
		let mut g = Gen::new(&mut r);
		w.o.stats.inc(if g.faults { "enabled/faulty_run" } else { "enabled/fault_free_run" });
		let max = r.range(20, 200) as usize;
		let mut steps: Vec<Step> = vec![];
		while steps.len() < max && !w.o.done() {
			let s = g.step(&mut r);
			w.step(steps.len(), &s);
			steps.push(s);
		}
		if !w.o.done() {
			w.step(steps.len(), &Step::Finish);
			steps.push(Step::Finish);
		}
		finish(w, steps)
	}
	fn replay(&self, cfg: &Cfg, steps: &[Step], o: Oracle) -> RunResult<Cfg, Step> {
		let mut w = World::new(cfg.clone(), o);
		for (i, s) in steps.iter().enumerate() {
			w.step(i, s);
			if w.o.done() {
				break;
			}
		}
		finish(w, steps.to_vec())
	}
	fn describe(&self, s: &Step) -> String {
		format!("{s:?}")
	}
	fn shrink_step(&self, s: &Step) -> Vec<Step> {
		match s {
			Step::Tx(t) => {
				let mut out = vec![];
				for i in 0..t.body.len() {
					let mut t = t.clone();
					t.body.remove(i);
					out.push(Step::Tx(t));
				}
				if t.tip > 0 {
					out.push(Step::Tx(world::Tx { tip: 0, ..t.clone() }));
				}
				if t.used != 1000 {
					out.push(Step::Tx(world::Tx { used: 1000, ..t.clone() }));
				}
				out
			},
			_ => vec![],
		}
	}
}

fn main() {
	simcore::main(Fees)
}
