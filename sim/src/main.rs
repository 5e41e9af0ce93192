mod exec;
mod gen;
mod model;
mod prog;
mod rng;
mod runner;
mod sched;
mod shm;

use runner::*;
use std::time::Instant;

#[global_allocator]
static A: sched::SimAlloc = sched::SimAlloc;

fn usage() -> ! {
	eprintln!("vsim check <property> [runs] | replay <file> | one <property> <run> | selftest [n]");
	std::process::exit(2)
}
fn env_u64(n: &str, d: u64) -> u64 {
	std::env::var(n).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn report(v: &Replay, path: &str) {
	println!("property {} violated: [{}] {}", v.property, v.class, v.message);
	println!("VIOLATION property={} replay={}", v.property, path);
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	if a.len() < 2 {
		usage();
	}
	unsafe {
		shm::SHM = shm::create();
	}
	let seed = env_u64("VERIF_SEED", 1);
	let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
	match a[1].as_str() {
		"check" if a.len() >= 3 => {
			let prop = a[2].as_str();
			if !PROPS.contains(&prop) {
				usage();
			}
			let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
			let thorough = tier == "thorough";
			let (mut runs, mut wall) = if thorough { (u64::MAX / 2, 1500.0) } else { (env_u64("VSIM_RUNS", quick_runs(prop)), 300.0) };
			if let Some(n) = a.get(3).and_then(|x| x.parse().ok()) {
				runs = n;
			}
			if let Ok(w) = std::env::var("VSIM_WALL") {
				wall = w.parse().unwrap_or(wall);
			}
			let workers = env_u64("VSIM_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8));
			println!("vsim: property {} tier {} VERIF_SEED {} workers {}", prop, tier, seed, workers);
			let t0 = Instant::now();
			let st = batch(prop, seed, runs, workers, wall);
			let mut violations = 0;
			let mut code = 0;
			if let Some(i) = st.fail {
				let rs = run_seed(prop, seed, i);
				let (w, s) = gen::world(prop, rs);
				let mut o1 = Out::default();
				let v1 = evaluate(prop, &w, &s, None, &mut o1);
				let mut o2 = Out::default();
				let v2 = evaluate(prop, &w, &s, None, &mut o2);
				match (v1, v2) {
					(Verdict::Violation(c, m), Verdict::Violation(c2, m2)) if c == c2 && m == m2 && o1.sched_hash == o2.sched_hash => {
						violations = 1;
						code = 1;
						println!("vsim: run {} (seed {}) fails: [{}] {}", i, rs, c, m);
						let mins = if thorough { 180.0 } else { 60.0 };
						let (mw, ms, mm, tries) = minimise(prop, &c, &m, &w, &s, mins);
						let ops = |w: &prog::World| w.clients.iter().map(|c| c.ops.len()).sum::<usize>();
						let r = Replay {
							property: prop.into(),
							class: c.split('|').next().unwrap_or("").into(),
							message: mm,
							run: i,
							verif_seed: seed,
							seed: rs,
							note: format!(
								"minimised in {} executions from {} clients and {} operations to {} and {}; {} scheduling decisions kept; 'bash /verif/check.sh replay <this file>' repeats it",
								tries, w.clients.len(), ops(&w), mw.clients.len(), ops(&mw), ms.replay.as_ref().map_or(0, |t| t.len())
							),
							sched: ms,
							world: mw,
						};
						let dir = format!("{}/replays", root);
						let _ = std::fs::create_dir_all(&dir);
						let path = format!("{}/{}-{}-{}.json", dir, prop, seed, i);
						let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
						println!("vsim: {}", r.note);
						report(&r, &path);
					}
					(v1, v2) => {
						eprintln!("vsim: run {} did not repeat itself: {:?} / {:?} (hashes {:x} {:x})", i, v1, v2, o1.sched_hash, o2.sched_hash);
						code = 3;
					}
				}
			}
			if let (Some(h), 0) = (&st.harness, code) {
				eprintln!("vsim: harness error: {}", h);
				code = 3;
			}
			if code == 0 {
				known_findings(prop, &root);
			}
			let wall = t0.elapsed().as_secs_f64();
			let ev = evidence(prop, if thorough { "thorough" } else { "quick" }, seed, &st, wall, violations, workers, shm::COV as u64);
			let dir = format!("{}/evidence", root);
			let _ = std::fs::create_dir_all(&dir);
			if std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
				eprintln!("vsim: cannot write the evidence file");
				code = 3;
			}
			println!(
				"vsim: {} worlds, {} executions, {} distinct schedules, {} steps (longest run {}), {:.1} s; foreign {:?}",
				st.worlds, st.execs, st.scheds.len(), st.steps, st.max_steps, wall, st.foreign
			);
			std::process::exit(code);
		}
		"one" if a.len() >= 4 => {
			let prop = a[2].as_str();
			let i: u64 = a[3].parse().unwrap_or(0);
			let (w, s) = gen::world(prop, run_seed(prop, seed, i));
			let mut o = Out::default();
			let v = evaluate(prop, &w, &s, None, &mut o);
			println!("{}", serde_json::to_string(&w).unwrap());
			println!("{:?}", v);
			println!("[{}] {}", o.class, o.msg);
		}
		// minimise any deviation at all, also foreign ones
		"dig" if a.len() >= 4 => {
			let prop = a[2].as_str();
			let n: u64 = a[3].parse().unwrap_or(1000);
			let want = a.get(4).cloned();
			let skip: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(0);
			for i in skip..n {
				let (w, s) = gen::world(prop, run_seed(prop, seed, i));
				let o = execute(&w, &s, false);
				if o.status != shm::ST_OK && want.as_ref().is_none_or(|x| o.class.starts_with(x.as_str())) {
					println!("run {}: [{}] {}", i, o.class, o.msg);
					let (mw, _, mm, _) = minimise("ANY", &o.class, &o.msg, &w, &s, 40.0);
					for (k, c) in mw.clients.iter().enumerate() {
						for op in &c.ops {
							match op {
								prog::Op::Load { d, tree, handler, .. } => println!("  [{}] load {} {:?} {}", k, d, handler, model::html(tree)),
								prog::Op::Query { src, q, dst } => println!("  [{}] query {:?} {} -> {}", k, src, show_q(q), dst),
								o => println!("  [{}] {:?}", k, o),
							}
						}
					}
					println!("  => {}", mm);
					break;
				}
			}
		}
		"replay" if a.len() >= 3 => {
			let txt = match std::fs::read_to_string(&a[2]) {
				Ok(t) => t,
				Err(e) => {
					eprintln!("vsim: {}: {}", a[2], e);
					std::process::exit(2)
				}
			};
			let mut r: Replay = match serde_json::from_str(&txt) {
				Ok(r) => r,
				Err(e) => {
					eprintln!("vsim: {}: {}", a[2], e);
					std::process::exit(2)
				}
			};
			let mut o = Out::default();
			match evaluate(&r.property.clone(), &r.world, &r.sched, None, &mut o) {
				Verdict::Violation(c, m) => {
					let same = m == r.message;
					r.class = c;
					r.message = m;
					println!("vsim: {}", if same { "reproduced exactly" } else { "fails, with another message than recorded" });
					report(&r, &a[2]);
					std::process::exit(1);
				}
				Verdict::Harness(m) => {
					eprintln!("vsim: {}", m);
					std::process::exit(3)
				}
				v => {
					println!("vsim: the replay does not fail on this tree ({:?})", v);
				}
			}
		}
		"selftest" => {
			let n: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(200);
			let mut bad = 0;
			for prop in PROPS {
				for i in 0..n {
					let (w, s) = gen::world(prop, run_seed(prop, seed, i));
					let a = execute(&w, &s, true);
					let b = execute(&w, &s, true);
					// and from the recorded decisions alone
					let mut s2 = s.clone();
					s2.replay = Some(a.trace.clone());
					s2.stalls = vec![];
					let c = execute(&w, &s2, true);
					for (x, how) in [(&b, "twice"), (&c, "from its recorded decisions")] {
						if a.sched_hash != x.sched_hash || a.log_hash != x.log_hash || a.logs != x.logs || a.steps != x.steps || a.class != x.class || a.msg != x.msg {
							println!("{} run {}: not the same when run {}: steps {} {} sched {:x} {:x} log {:x} {:x} [{}] [{}]", prop, i, how, a.steps, x.steps, a.sched_hash, x.sched_hash, a.log_hash, x.log_hash, a.msg, x.msg);
							bad += 1;
						}
					}
				}
			}
			println!("selftest: {} differences", bad);
			std::process::exit(if bad == 0 { 0 } else { 3 });
		}
		_ => usage(),
	}
}
/// Listed findings are defects that are recorded, not repaired; the search does not
/// generate their inputs.  Each is tried by itself and reported while it still fails.
fn known_findings(prop: &str, root: &str) {
	use prog::*;
	let text = std::fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
	for l in text.lines() {
		let Some(rest) = l.strip_prefix("known: ") else { continue };
		let word = |k: &str| rest.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
		if word("property=") != prop {
			continue;
		}
		let html = word("html=");
		let ops = match word("call=").as_str() {
			"load" => vec![Op::LoadRaw { html, opts: 0, sel: "*".into() }],
			"set_html" if html == "<i" => vec![
				Op::Load { d: 0, tree: vec![Tree::E("div".into(), 1, vec![], vec![])], handler: HandlerKind::Count, via: 0 },
				Op::Query { src: Src::Doc(0), q: Q::Find(vec![vec![(Comb::Desc, vec![Simple::Any])]]), dst: 0 },
				Op::BadInsert { s: 0, pos: Pos::Append, kind: 203 },
			],
			"reload" if html == "<textarea><</textarea>" => vec![
				Op::Load { d: 0, tree: vec![Tree::E("textarea".into(), 1, vec![], vec![Tree::T("<".into())])], handler: HandlerKind::None, via: 0 },
				Op::Restart { d: 0 },
			],
			_ => continue,
		};
		let w = World { clients: vec![Client { phase: 0, pin: true, faulty: false, ops }], hash_seed: 1 };
		let s = gen::Sch { strategy: sched::Strategy::Serial, seed: 1, hash_seed: 1, budget: 100_000_000, stalls: vec![], spurious: false, replay: None };
		let o = execute(&w, &s, false);
		if o.status == shm::ST_VIOLATION && (o.class.contains("-panic") || o.class == "restart") {
			println!("KNOWN-FINDING: property={} {}", prop, o.msg);
		}
	}
}
fn show_q(q: &prog::Q) -> String {
	use prog::{sel_str, Q};
	let o = |s: &Option<prog::Sel>| s.as_ref().map(sel_str).unwrap_or_default();
	match q {
		Q::Find(s) => format!("find {:?}", sel_str(s)),
		Q::Filter(s) => format!("filter {:?}", sel_str(s)),
		Q::Not(s) => format!("not {:?}", sel_str(s)),
		Q::Is(s) => format!("is {:?}", sel_str(s)),
		Q::IsAll(s) => format!("is_all {:?}", sel_str(s)),
		Q::Has(s) => format!("has {:?}", sel_str(s)),
		Q::Closest(s) => format!("closest {:?}", sel_str(s)),
		Q::Children(s) => format!("children {:?}", o(s)),
		Q::Parent(s) => format!("parent {:?}", o(s)),
		Q::Parents(s) => format!("parents {:?}", o(s)),
		Q::Next(s) => format!("next {:?}", o(s)),
		Q::NextAll(s) => format!("next_all {:?}", o(s)),
		Q::Prev(s) => format!("prev {:?}", o(s)),
		Q::PrevAll(s) => format!("prev_all {:?}", o(s)),
		Q::Siblings(s) => format!("siblings {:?}", o(s)),
		Q::NextUntil(a, b, c) => format!("next_until {:?} {:?} {}", sel_str(a), o(b), c),
		Q::PrevUntil(a, b, c) => format!("prev_until {:?} {:?} {}", sel_str(a), o(b), c),
		Q::ParentsUntil(a, b, c) => format!("parents_until {:?} {:?} {}", sel_str(a), o(b), c),
		q => format!("{:?}", q),
	}
}
fn quick_runs(prop: &str) -> u64 {
	match prop {
		"C01" | "C03" | "C05" => 20_000,
		"C12" => 12_000,
		"C02" => 50_000,
		_ => 40_000,
	}
}
