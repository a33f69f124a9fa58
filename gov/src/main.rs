mod check;
mod exec;
mod gen;
mod model;
mod runtime;
mod world;

use simcore::{Domain, Oracle, PropInfo, Rng, RunResult};
use world::{Cfg, Step, World};

struct Gov;

fn finish(w: World, steps: Vec<Step>) -> RunResult<Cfg, Step> {
	let mut o = w.o;
	let mut h = o.th;
	for (k, v) in &o.stats.counters {
		h.s(k);
		h.u(*v);
	}
	h.u(o.stats.checks);
	if let Some(v) = &o.violation {
		h.s(&v.kind);
		h.s(&v.msg);
	}
	RunResult {
		cfg: w.cfg,
		steps,
		violation: o.violation.take(),
		known: std::mem::take(&mut o.known),
		stats: std::mem::take(&mut o.stats),
		transcript: h.0,
	}
}

impl Domain for Gov {
	type Cfg = Cfg;
	type Step = Step;

	fn name(&self) -> &'static str {
		"governance"
	}
	fn props(&self) -> Vec<PropInfo> {
		const R: &str = "every block hook, enactment and call is executed on the real pallets and compared with the reference model";
		[
			"D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08", "D09", "D10", "E01", "E02", "E03", "E04", "E05", "E06",
			"E07", "E08", "V01", "V02", "S01", "S02", "S03",
		]
		.iter()
		.map(|id| PropInfo { id, rule: R })
		.collect()
	}
	fn sim_unit(&self) -> &'static str {
		"blocks"
	}
	fn components(&self) -> serde_json::Value {
		serde_json::json!({
			"real": ["pallet-democracy", "pallet-elections-phragmen", "on-slash-vesting", "frame-system", "pallet-balances",
				"pallet-preimage", "pallet-scheduler", "pallet-vesting", "sp-npos-elections"],
			"stub": ["block executive (order of hooks, block weight, origins)", "pallet-collective (recorder of membership changes)",
				"pallet holding other funds and slashing them (stands for pallet-funding)", "network, disks, transaction pools, fork choice",
				"Slash and LoserCandidate handlers (imbalances are burned)"]
		})
	}
	fn assumptions(&self) -> Vec<String> {
		vec![
			"periods, limits and bonds are drawn small so that many terms and locks pass within a run".into(),
			"sequential Phragmen itself (sp-npos-elections) and the balances, scheduler, preimage and vesting pallets are trusted".into(),
		]
	}
	fn run(&self, seed: u64, o: Oracle) -> RunResult<Cfg, Step> {
		let mut r = Rng::new(seed);
		let prop = o.prop.clone();
		let cfg = gen::cfg(&mut r, &prop);
		let mut w = World::new(cfg.clone(), o);
		let mut g = gen::Gen::new(&mut r, &prop, &cfg);
		w.o.stats.inc(if g.faults { "enabled/faulty_run" } else { "enabled/fault_free_run" });
		if cfg.nodes > 1 {
			w.o.stats.inc("enabled/several_nodes");
		}
		let max_blocks = r.range(15, 80);
		let max_steps = r.range(60, 500) as usize * if cfg.nodes > 1 { 2 } else { 1 };
		let mut steps: Vec<Step> = vec![];
		while g.blocks < max_blocks && steps.len() < max_steps && !w.o.done() && !w.dead {
			for s in g.steps(&mut r, &w) {
				w.step(steps.len(), &s);
				steps.push(s);
			}
		}
		if !w.o.done() && !w.dead && (r.chance(0.5) || cfg.nodes > 1) {
			for s in g.drain(&mut r, &w) {
				w.step(steps.len(), &s);
				steps.push(s);
			}
		}
		finish(w, steps)
	}
	fn replay(&self, cfg: &Cfg, steps: &[Step], o: Oracle) -> RunResult<Cfg, Step> {
		let mut w = World::new(cfg.clone(), o);
		for (i, s) in steps.iter().enumerate() {
			w.step(i, s);
			if w.o.done() || w.dead {
				break;
			}
		}
		finish(w, steps.to_vec())
	}
	fn describe(&self, s: &Step) -> String {
		match s {
			Step::Submit { id, node, who, call } => format!(
				"submit #{id} to node {node}: {} signs {}",
				if *who == runtime::SUDO { "root".to_string() } else { who.to_string() },
				exec::decode_call(call).map(|c| exec::short(&c)).unwrap_or_default()
			),
			Step::Produce { id, node, stalled, bond, max } => format!(
				"node {node} authors block #{id}{}, candidacy bond {bond}{}",
				if *stalled { " with the scheduler stalled" } else { "" },
				if *max < 1000 { format!(", at most {max} calls") } else { String::new() }
			),
			s => format!("{s:?}"),
		}
	}
	fn shrink_step(&self, s: &Step) -> Vec<Step> {
		match s {
			Step::Produce { id, node, stalled: true, bond, max } =>
				vec![Step::Produce { id: *id, node: *node, stalled: false, bond: *bond, max: *max }],
			_ => vec![],
		}
	}
	fn determinism_prop(&self) -> Option<&'static str> {
		Some("S01")
	}
}

fn main() {
	simcore::main(Gov)
}
