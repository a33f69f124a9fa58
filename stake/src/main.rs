mod gen;
mod runtime;
mod snap;
mod spec;
mod world;

use simcore::{Domain, Oracle, PropInfo, Rng, RunResult};
use world::{Cfg, Step, World};

struct Staking;

fn finish(w: World, steps: Vec<Step>) -> RunResult<Cfg, Step> {
	let mut o = w.o;
	let mut h = o.th;
	for (k, v) in &o.stats.counters {
		h.s(k);
		h.u(*v);
	}
	h.u(o.stats.checks);
	if let Some(v) = &o.violation {
		h.s(&v.kind);
		h.s(&v.msg);
	}
	RunResult {
		cfg: w.cfg,
		steps,
		violation: o.violation.take(),
		known: std::mem::take(&mut o.known),
		stats: std::mem::take(&mut o.stats),
		transcript: h.0,
	}
}

impl Domain for Staking {
	type Cfg = Cfg;
	type Step = Step;

	fn name(&self) -> &'static str {
		"staking"
	}
	fn props(&self) -> Vec<PropInfo> {
		const R: &str = "every call and block is executed on the real pallet and compared with the reference model, which derives totals, rankings, collators, snapshots and rewards from who bonded and delegated what";
		["K01", "K02", "K03", "K04", "K05", "K06", "K07", "K08", "K09", "K10", "K11", "K12"]
			.iter()
			.map(|id| PropInfo { id, rule: R })
			.collect()
	}
	fn sim_unit(&self) -> &'static str {
		"blocks"
	}
	fn components(&self) -> serde_json::Value {
		serde_json::json!({
			"real": ["pallet-parachain-staking", "frame-system", "pallet-balances"],
			"stub": ["pallet-session and pallet-authorship (their traits; sessions are rotated by the simulator with the rules of pallet-session)",
				"substrate-fixed (the fixed-point type and power function used for the inflation per round)"]
		})
	}
	fn assumptions(&self) -> Vec<String> {
		vec![
			"round lengths, delays and limits are drawn small so that many rounds pass within a run".into(),
			"pallet-balances and the fixed-point arithmetic of Substrate are trusted".into(),
		]
	}
	fn run(&self, seed: u64, o: Oracle) -> RunResult<Cfg, Step> {
		let mut r = Rng::new(seed);
		let prop = o.prop.clone();
		let cfg = gen::cfg(&mut r, &prop);
		let mut w = World::new(cfg, o);
		let mut g = gen::Gen::new(&mut r, &prop);
		w.o.stats.inc(if g.faults { "enabled/faulty_run" } else { "enabled/fault_free_run" });
		let max = r.range(40, 400) as usize;
		let mut steps: Vec<Step> = vec![];
		while steps.len() < max && !w.o.done() && !w.dead {
			let s = g.step(&mut r, &w);
			w.step(steps.len(), &s);
			steps.push(s);
		}
		if !w.o.done() && !w.dead {
			let s = Step::Finish { seed: r.next() >> 12 };
			w.step(steps.len(), &s);
			steps.push(s);
		}
		finish(w, steps)
	}
	fn replay(&self, cfg: &Cfg, steps: &[Step], o: Oracle) -> RunResult<Cfg, Step> {
		let mut w = World::new(cfg.clone(), o);
		for (i, s) in steps.iter().enumerate() {
			w.step(i, s);
			if w.o.done() || w.dead {
				break;
			}
		}
		finish(w, steps.to_vec())
	}
	fn describe(&self, s: &Step) -> String {
		match s {
			Step::Call { who, op, reorg, unsigned } => format!(
				"{} calls {op:?}{}",
				if *unsigned {
					"nobody".into()
				} else if *who == 0 {
					"root".into()
				} else {
					who.to_string()
				},
				if *reorg { " (its block is reverted and executed again)" } else { "" }
			),
			s => format!("{s:?}"),
		}
	}
	fn shrink_step(&self, s: &Step) -> Vec<Step> {
		match s {
			Step::Call { who, op, reorg: true, unsigned } =>
				vec![Step::Call { who: *who, op: op.clone(), reorg: false, unsigned: *unsigned }],
			Step::Block { author, reorg: true } => vec![Step::Block { author: *author, reorg: false }],
			_ => vec![],
		}
	}
}

fn main() {
	simcore::main(Staking)
}
