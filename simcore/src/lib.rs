//! Domain-independent part of the simulator: seeded search over runs, minimisation, replay files,
//! determinism self-check and evidence.
pub mod rng;
pub use rng::{Rng, H};

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{
	cell::RefCell,
	collections::{BTreeMap, BTreeSet, HashSet},
	panic::{catch_unwind, AssertUnwindSafe},
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Mutex,
	},
	time::{Duration, Instant},
};

#[derive(Default, Clone, Debug)]
pub struct Stats {
	/// Counters, by "group/name": op/, fault/, probe/, ...
	pub counters: BTreeMap<String, u64>,
	/// Abstract states reached.
	pub states: HashSet<u64>,
	/// Simulated time covered (blocks or seconds: see `SIM_UNIT` of the domain).
	pub sim_time: u64,
	/// Oracle comparisons made.
	pub checks: u64,
	/// Steps executed.
	pub steps: u64,
	/// Oracle mismatches seen that do not belong to the property being decided.
	pub foreign: u64,
	/// Times the mechanism of the property was exercised (see `Oracle::touch`).
	pub touched: u64,
	/// Transcripts of the runs that exercised it.
	pub distinct_runs: HashSet<u64>,
}
impl Stats {
	pub fn inc(&mut self, k: &str) {
		self.add(k, 1)
	}
	pub fn add(&mut self, k: &str, n: u64) {
		if let Some(v) = self.counters.get_mut(k) {
			*v += n;
		} else {
			self.counters.insert(k.to_string(), n);
		}
	}
	fn merge(&mut self, o: Stats) {
		for (k, v) in o.counters {
			*self.counters.entry(k).or_default() += v;
		}
		self.states.extend(o.states);
		self.sim_time += o.sim_time;
		self.checks += o.checks;
		self.steps += o.steps;
		self.foreign += o.foreign;
		self.touched += o.touched;
		self.distinct_runs.extend(o.distinct_runs);
	}
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Violation {
	/// Short stable label of the broken check: minimisation keeps it.
	pub kind: String,
	pub msg: String,
	/// Index of the step at which it was seen.
	pub step: usize,
}

pub struct RunResult<C, S> {
	pub cfg: C,
	pub steps: Vec<S>,
	pub violation: Option<Violation>,
	/// Known findings that were hit (ids).
	pub known: BTreeSet<String>,
	pub stats: Stats,
	/// Hash over everything observed: equal for equal seeds.
	pub transcript: u64,
}

/// What the checks of one run report to.
pub struct Oracle {
	pub prop: String,
	pub violation: Option<Violation>,
	pub known: BTreeSet<String>,
	pub known_ids: BTreeSet<String>,
	pub step: usize,
	pub stats: Stats,
	pub th: H,
	pub verbose: bool,
}
impl Oracle {
	pub fn new(prop: &str, known_ids: &BTreeSet<String>, verbose: bool) -> Self {
		Oracle {
			prop: prop.to_string(),
			violation: None,
			known: Default::default(),
			known_ids: known_ids.clone(),
			step: 0,
			stats: Default::default(),
			th: Default::default(),
			verbose,
		}
	}
	/// A mismatch that breaks the properties in `tags`.
	pub fn fail(&mut self, tags: &[&str], kind: &str, msg: impl FnOnce() -> String) {
		let mine = tags.iter().any(|t| *t == self.prop);
		if !mine {
			self.stats.foreign += 1;
			if self.verbose {
				eprintln!("[foreign {:?} {}] step {}: {}", tags, kind, self.step, msg());
			}
			return;
		}
		if self.violation.is_none() {
			self.violation = Some(Violation { kind: kind.to_string(), msg: msg(), step: self.step });
		}
	}
	/// The mechanism behind these properties was exercised with effect.
	pub fn touch(&mut self, tags: &[&str]) {
		if tags.iter().any(|t| *t == self.prop) {
			self.stats.touched += 1;
		}
	}
	pub fn check(&mut self, ok: bool, tags: &[&str], kind: &str, msg: impl FnOnce() -> String) {
		self.stats.checks += 1;
		if !ok {
			self.fail(tags, kind, msg)
		}
	}
	pub fn done(&self) -> bool {
		self.violation.is_some()
	}
}

pub struct PropInfo {
	pub id: &'static str,
	/// What the runs of this property vary and what decides it, for the evidence file.
	pub rule: &'static str,
}

pub trait Domain: Sync {
	type Cfg: Serialize + DeserializeOwned + Clone + Send;
	type Step: Serialize + DeserializeOwned + Clone + Send;
	fn name(&self) -> &'static str;
	fn props(&self) -> Vec<PropInfo>;
	fn sim_unit(&self) -> &'static str;
	fn components(&self) -> serde_json::Value;
	fn assumptions(&self) -> Vec<String>;
	/// Generate and execute a run from its seed.
	fn run(&self, seed: u64, o: Oracle) -> RunResult<Self::Cfg, Self::Step>;
	/// Execute recorded steps.
	fn replay(&self, cfg: &Self::Cfg, steps: &[Self::Step], o: Oracle) -> RunResult<Self::Cfg, Self::Step>;
	/// Human readable form of a step, for the replay file.
	fn describe(&self, s: &Self::Step) -> String;
	/// Simpler variants of a step to try in minimisation.
	fn shrink_step(&self, _s: &Self::Step) -> Vec<Self::Step> {
		vec![]
	}
	/// The property that a nondeterministic run violates, if the domain claims one.
	fn determinism_prop(&self) -> Option<&'static str> {
		None
	}
	/// Replay files of the known findings: those of the property checked are executed at every run, so that the
	/// finding is reported for as long as the code has it.
	fn known_demos(&self) -> Vec<&'static str> {
		vec![]
	}
}

#[derive(Serialize, Deserialize)]
struct ReplayFile<C, S> {
	property: String,
	domain: String,
	verif_seed: u64,
	run_index: u64,
	run_seed: u64,
	violation: Violation,
	transcript: String,
	original_steps: usize,
	cfg: C,
	steps: Vec<S>,
	readable: Vec<String>,
}

thread_local! {
	static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
	static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
static QUIET: AtomicBool = AtomicBool::new(true);

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|i| {
		let m = i
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| i.payload().downcast_ref::<String>().cloned())
			.unwrap_or_else(|| "panic".into());
		let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		// A panic that nothing is prepared for is a fault of the harness: say so.
		if !QUIET.load(Ordering::Relaxed) || DEPTH.with(|d| d.get()) == 0 {
			eprintln!("panic: {m} at {loc}");
		}
		LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {loc}")));
	}));
}

/// Run `f`, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	DEPTH.with(|d| d.set(d.get() + 1));
	let r = catch_unwind(AssertUnwindSafe(f));
	DEPTH.with(|d| d.set(d.get() - 1));
	r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn run_seed(verif_seed: u64, prop: &str, i: u64) -> u64 {
	let mut h = H::default();
	h.u(verif_seed);
	h.s(prop);
	h.u(i);
	let mut x = h.0;
	rng::splitmix(&mut x)
}

struct Args {
	prop: Option<String>,
	tier: String,
	seed: u64,
	runs: Option<u64>,
	secs: Option<u64>,
	workers: usize,
	evidence: Option<String>,
	replay: Option<String>,
	replay_dir: String,
	known: Option<String>,
	verbose: bool,
	one: Option<u64>,
}

fn parse_args() -> Args {
	let mut a = Args {
		prop: None,
		tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
		seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
		runs: None,
		secs: None,
		workers: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4),
		evidence: None,
		replay: None,
		replay_dir: "/verif/replays".into(),
		known: None,
		verbose: false,
		one: None,
	};
	let mut it = std::env::args().skip(1);
	while let Some(x) = it.next() {
		let mut v = || it.next().expect("missing value");
		match x.as_str() {
			"--property" => a.prop = Some(v()),
			"--tier" => a.tier = v(),
			"--seed" => a.seed = v().parse().unwrap(),
			"--runs" => a.runs = Some(v().parse().unwrap()),
			"--secs" => a.secs = Some(v().parse().unwrap()),
			"--workers" => a.workers = v().parse().unwrap(),
			"--evidence" => a.evidence = Some(v()),
			"--replay" => a.replay = Some(v()),
			"--replay-dir" => a.replay_dir = v(),
			"--known" => a.known = Some(v()),
			"--one" => a.one = Some(v().parse().unwrap()),
			"--verbose" => a.verbose = true,
			o => panic!("unknown argument {o}"),
		}
	}
	a
}

/// Delta debugging over the steps: keep removing chunks while the same kind of violation remains.
fn minimise<D: Domain>(
	d: &D,
	prop: &str,
	known: &BTreeSet<String>,
	cfg: &D::Cfg,
	steps: Vec<D::Step>,
	kind: &str,
	limit: Duration,
) -> Vec<D::Step> {
	let t0 = Instant::now();
	let fails = |s: &[D::Step]| -> Option<usize> {
		let r = d.replay(cfg, s, Oracle::new(prop, known, false));
		r.violation.filter(|v| v.kind == kind).map(|v| v.step)
	};
	let mut cur = steps;
	if let Some(at) = fails(&cur) {
		// Nothing after the failing step matters (end-of-run checks report the last index).
		if at + 1 < cur.len() {
			let cut = cur[..=at].to_vec();
			if fails(&cut).is_some() {
				cur = cut;
			}
		}
	} else {
		return cur;
	}
	let mut chunk = (cur.len() / 2).max(1);
	loop {
		let mut i = 0;
		let mut removed = false;
		while i < cur.len() && t0.elapsed() < limit {
			let hi = (i + chunk).min(cur.len());
			let mut cand = Vec::with_capacity(cur.len());
			cand.extend_from_slice(&cur[..i]);
			cand.extend_from_slice(&cur[hi..]);
			if !cand.is_empty() && fails(&cand).is_some() {
				cur = cand;
				removed = true;
			} else {
				i = hi;
			}
		}
		if t0.elapsed() >= limit {
			break;
		}
		if chunk == 1 && !removed {
			break;
		}
		if !removed || chunk > 1 {
			chunk = (chunk / 2).max(1);
		}
	}
	// Simplify the arguments of what is left.
	let mut i = 0;
	while i < cur.len() && t0.elapsed() < limit {
		for v in d.shrink_step(&cur[i]) {
			let mut cand = cur.clone();
			cand[i] = v;
			if fails(&cand).is_some() {
				cur = cand;
				break;
			}
		}
		i += 1;
	}
	cur
}

pub fn load_known(path: Option<&str>, prop: &str) -> BTreeSet<String> {
	// Lines: "finding: property=<id> key=<key> <text>"; "fixed: ..." suppresses nothing.
	let mut out = BTreeSet::new();
	if let Some(p) = path {
		if let Ok(s) = std::fs::read_to_string(p) {
			for l in s.lines() {
				let l = l.trim();
				if let Some(rest) = l.strip_prefix("finding:") {
					let mut pr = "";
					let mut key = "";
					for w in rest.split_whitespace() {
						if let Some(x) = w.strip_prefix("property=") {
							pr = x;
						}
						if let Some(x) = w.strip_prefix("key=") {
							key = x;
						}
					}
					if pr == prop {
						out.insert(key.to_string());
					}
				}
			}
		}
	}
	out
}

pub fn main<D: Domain>(d: D) -> ! {
	install_panic_hook();
	let a = parse_args();
	let code = if let Some(f) = &a.replay { do_replay(&d, &a, f) } else { do_search(&d, &a) };
	std::process::exit(code)
}

fn do_replay<D: Domain>(d: &D, a: &Args, f: &str) -> i32 {
	let txt = std::fs::read_to_string(f).expect("replay file");
	let r: ReplayFile<D::Cfg, D::Step> = serde_json::from_str(&txt).expect("replay file");
	let known = load_known(a.known.as_deref(), &r.property);
	let res = d.replay(&r.cfg, &r.steps, Oracle::new(&r.property, &known, a.verbose));
	match res.violation {
		Some(v) => {
			println!("{}: {}", v.kind, v.msg);
			println!("same violation as recorded: {}", v == r.violation);
			println!("same transcript as recorded: {}", format!("{:016x}", res.transcript) == r.transcript);
			println!("VIOLATION property={} replay={}", r.property, f);
			1
		},
		None => {
			println!("replay of {} steps: property {} held", r.steps.len(), r.property);
			0
		},
	}
}

fn do_search<D: Domain>(d: &D, a: &Args) -> i32 {
	let prop = a.prop.clone().expect("--property");
	let info = d.props().into_iter().find(|p| p.id == prop).unwrap_or_else(|| panic!("unknown property {prop}"));
	let known = load_known(a.known.as_deref(), &prop);
	let secs = a.secs.unwrap_or(if a.tier == "thorough" { 1500 } else { 60 });
	let max_runs = a.runs.unwrap_or(u64::MAX);
	let t0 = Instant::now();
	if let Some(i) = a.one {
		QUIET.store(false, Ordering::Relaxed);
		let s = run_seed(a.seed, &prop, i);
		let r = d.run(s, Oracle::new(&prop, &known, a.verbose));
		for (i, st) in r.steps.iter().enumerate() {
			println!("{i:4} {}", d.describe(st));
		}
		println!("violation: {:?}\ntranscript {:016x}\n{:#?}", r.violation, r.transcript, r.stats.counters);
		return r.violation.is_some() as i32;
	}

	let mut demos = BTreeSet::new();
	for text in d.known_demos() {
		let rf: ReplayFile<D::Cfg, D::Step> = serde_json::from_str(text).expect("demonstration of a known finding");
		if rf.property == prop {
			let mut r = d.replay(&rf.cfg, &rf.steps, Oracle::new(&prop, &known, false));
			demos.append(&mut r.known);
		}
	}
	let next = AtomicU64::new(0);
	let stop = AtomicBool::new(false);
	let agg = Mutex::new((Stats::default(), 0u64, BTreeSet::<String>::new()));
	let samples: Mutex<BTreeMap<u64, Vec<String>>> = Mutex::new(Default::default());
	let found: Mutex<Option<(u64, RunResult<D::Cfg, D::Step>)>> = Mutex::new(None);
	let recheck: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
	let deadline = t0 + Duration::from_secs(secs);
	let mut curve: Vec<(u64, u64, u64)> = vec![];
	std::thread::scope(|sc| {
		for _ in 0..a.workers {
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(sc, || {
					let mut local = Stats::default();
					let mut n = 0u64;
					let mut kn = BTreeSet::new();
					loop {
						if stop.load(Ordering::Relaxed) || Instant::now() >= deadline {
							break;
						}
						let i = next.fetch_add(1, Ordering::Relaxed);
						if i >= max_runs {
							break;
						}
						let s = run_seed(a.seed, &prop, i);
						let mut r = d.run(s, Oracle::new(&prop, &known, false));
						if i < 24 || i % 512 == 0 {
							recheck.lock().unwrap().push((i, r.transcript));
						}
						if r.stats.touched > 0 {
							r.stats.distinct_runs.insert(r.transcript);
						}
						if i < 2 {
							let mut v: Vec<String> = r.steps.iter().take(40).map(|s| d.describe(s)).collect();
							v.insert(0, format!("run {i}, cfg {}", serde_json::to_string(&r.cfg).unwrap()));
							if r.steps.len() > 40 {
								v.push(format!("... {} steps in all", r.steps.len()));
							}
							samples.lock().unwrap().insert(i, v);
						}
						local.merge(std::mem::take(&mut r.stats));
						n += 1;
						kn.append(&mut r.known);
						if r.violation.is_some() {
							let mut f = found.lock().unwrap();
							if f.as_ref().map_or(true, |(j, _)| i < *j) {
								*f = Some((i, r));
							}
							stop.store(true, Ordering::Relaxed);
							break;
						}
						if n >= 16 {
							let mut g = agg.lock().unwrap();
							g.0.merge(std::mem::take(&mut local));
							g.1 += n;
							n = 0;
						}
					}
					let mut g = agg.lock().unwrap();
					g.0.merge(local);
					g.1 += n;
					g.2.append(&mut kn);
				})
				.unwrap();
		}
		// Progress samples: distinct states over time.
		let step = Duration::from_secs((secs / 10).max(1));
		let mut at = t0 + step;
		while Instant::now() < deadline && !stop.load(Ordering::Relaxed) && next.load(Ordering::Relaxed) < max_runs {
			std::thread::sleep(Duration::from_millis(50));
			if Instant::now() >= at {
				let g = agg.lock().unwrap();
				curve.push((t0.elapsed().as_secs(), g.1, g.0.states.len() as u64));
				at += step;
			}
		}
	});
	let (stats, runs, mut known_hit) = agg.into_inner().unwrap();
	known_hit.append(&mut demos);
	let wall_search = t0.elapsed().as_secs_f64();

	// Determinism: some of the seeds again, in the opposite order, on one other thread.
	let mut re = recheck.into_inner().unwrap();
	re.sort();
	re.truncate(48);
	let mut nondet: Option<u64> = None;
	let mut redone = 0u64;
	std::thread::scope(|sc| {
		std::thread::Builder::new()
			.stack_size(64 << 20)
			.spawn_scoped(sc, || {
				let tr = Instant::now();
				for (i, t) in re.iter().rev() {
					if tr.elapsed() > Duration::from_secs(30) {
						break;
					}
					let r = d.run(run_seed(a.seed, &prop, *i), Oracle::new(&prop, &known, false));
					redone += 1;
					if r.transcript != *t {
						nondet = Some(*i);
						break;
					}
				}
			})
			.unwrap();
	});

	let mut violations = vec![];
	let mut code = 0;
	let mut found = found.into_inner().unwrap();
	if found.is_none() && nondet.is_some() && d.determinism_prop() == Some(prop.as_str()) {
		let i = nondet.unwrap();
		let mut r = d.run(run_seed(a.seed, &prop, i), Oracle::new(&prop, &known, false));
		r.violation = Some(Violation {
			kind: "nondeterministic-run".into(),
			msg: "the same seed gave two different executions: the code under test depends on something outside the chain state".into(),
			step: r.steps.len().saturating_sub(1),
		});
		found = Some((i, r));
	}
	if let Some((i, r)) = found {
		let v0 = r.violation.clone().unwrap();
		let orig = r.steps.len();
		let steps = if v0.kind == "nondeterministic-run" {
			r.steps.clone()
		} else {
			minimise(d, &prop, &known, &r.cfg, r.steps.clone(), &v0.kind, Duration::from_secs(60))
		};
		let rr = d.replay(&r.cfg, &steps, Oracle::new(&prop, &known, false));
		let v = rr.violation.clone().unwrap_or(v0);
		let rf = ReplayFile {
			property: prop.clone(),
			domain: d.name().into(),
			verif_seed: a.seed,
			run_index: i,
			run_seed: run_seed(a.seed, &prop, i),
			violation: v.clone(),
			transcript: format!("{:016x}", rr.transcript),
			original_steps: orig,
			cfg: r.cfg.clone(),
			readable: steps.iter().map(|s| d.describe(s)).collect(),
			steps,
		};
		std::fs::create_dir_all(&a.replay_dir).ok();
		let path = format!("{}/{}-{}.json", a.replay_dir, prop, i);
		std::fs::write(&path, serde_json::to_string_pretty(&rf).unwrap()).expect("write replay");
		println!("{} ({} steps, from {}): {}", v.kind, rf.steps.len(), orig, v.msg);
		for s in rf.readable.iter().take(60) {
			println!("  {s}");
		}
		println!("VIOLATION property={} replay={}", prop, path);
		violations.push(serde_json::json!({"kind": v.kind, "msg": v.msg, "replay": path, "run": i}));
		code = 1;
	}
	for k in known_hit.iter() {
		println!("KNOWN-FINDING: property={prop} {k}");
	}

	let hours = wall_search / 3600.0;
	let pick = |p: &str| -> BTreeMap<String, u64> {
		stats
			.counters
			.iter()
			.filter_map(|(k, v)| k.strip_prefix(p).map(|x| (x.to_string(), *v)))
			.collect()
	};
	let ev = serde_json::json!({
		"property": prop,
		"tier": a.tier,
		"seed": a.seed,
		"level": "exploration",
		"coverage": {
			"evaluations": runs,
			"distinct_nontrivial": stats.distinct_runs.len(),
			"rule": format!("one evaluation is one simulated run, made from the seed hash(VERIF_SEED, property, i); distinct by the hash of its whole transcript; {}", info.rule),
			"samples": samples.into_inner().unwrap().into_values().collect::<Vec<_>>(),
			"steps": stats.steps,
			"oracle_comparisons": stats.checks,
			"mechanism_exercised": stats.touched,
			"distinct_states": stats.states.len(),
			"runs_per_hour": (runs as f64 / hours.max(1e-9)) as u64,
			"simulated_time": {"unit": d.sim_unit(), "covered": stats.sim_time},
			"distinct_states_measure": "hash of an abstract state of the model (bucketed counters and flags), taken after every block",
			"distinct_states_over_time": curve.iter().map(|(s, r, n)| serde_json::json!({"s": s, "runs": r, "distinct": n})).collect::<Vec<_>>(),
			"faults_injected": pick("fault/"),
			"faults_enabled": pick("enabled/"),
			"operations": pick("op/"),
			"rare_conditions_reached": pick("probe/"),
			"mismatches_of_other_properties": stats.foreign,
			"determinism": {"seeds_run_twice": redone, "equal": nondet.is_none()},
			"components": d.components(),
		},
		"assumptions": d.assumptions(),
		"known_findings_hit": known_hit,
		"wall_s": t0.elapsed().as_secs_f64(),
		"violations": violations,
	});
	if let Some(p) = &a.evidence {
		std::fs::write(p, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
	}
	let trouble: Vec<String> = pick("harness/").into_iter().map(|(k, v)| format!("{k}={v}")).collect();
	if !trouble.is_empty() {
		println!("{prop}: harness notes: {}", trouble.join(" "));
	}
	println!(
		"{prop}: {runs} runs, {} steps, {} checks, {} {} simulated, {} distinct states, {:.0} s; deterministic on {} seeds: {}",
		stats.steps,
		stats.checks,
		stats.sim_time,
		d.sim_unit(),
		stats.states.len(),
		t0.elapsed().as_secs_f64(),
		redone,
		nondet.is_none()
	);
	code
}
