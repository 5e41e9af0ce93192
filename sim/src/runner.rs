//! Runs: one forked process per simulated execution (so that every run starts
//! from the library's pristine statics), batches over seeds, verdicts,
//! minimisation and evidence.
use crate::exec::{self, COUNTERS};
use crate::gen::{self, Sch};
use crate::prog::*;
use crate::rng::mix;
use crate::sched::{self, Cfg, Strategy};
use crate::shm::{self, *};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::time::Instant;

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"];

#[derive(Clone, Default)]
pub struct Out {
	pub status: u32,
	pub class: String,
	pub msg: String,
	pub trace: Vec<(u32, u8, u8, u8)>,
	pub logs: Vec<Vec<u64>>,
	pub sched_hash: u64,
	pub log_hash: u64,
	pub steps: u64,
	pub switches: u64,
	pub counters: Vec<u64>,
	pub sim_ns: u64,
	pub preempts: u64,
	pub lock_waits: u64,
}
impl Out {
	fn ok(&self) -> bool {
		self.status == ST_OK
	}
	fn base(&self) -> &str {
		self.class.split('|').next().unwrap_or("")
	}
}

/// one simulated execution in a process of its own
pub fn execute(w: &World, s: &Sch, tolerant: bool) -> Out {
	let m = shm::get();
	shm::reset(m);
	let mut status = 0i32;
	unsafe {
		let pid = libc::fork();
		if pid < 0 {
			eprintln!("vsim: fork failed");
			libc::_exit(3);
		}
		if pid == 0 {
			libc::alarm(200);
			let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
			libc::setrlimit(libc::RLIMIT_AS, &lim);
			let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
			libc::setrlimit(libc::RLIMIT_CORE, &nocore);
			exec::quiet_panics();
			let cfg = Cfg {
				strategy: s.strategy.clone(),
				seed: s.seed,
				hash_seed: s.hash_seed,
				phases: w.clients.iter().map(|c| c.phase).collect(),
				budget: s.budget,
				stalls: s.stalls.clone(),
				spurious: s.spurious,
				replay: s.decisions(),
			};
			let bodies: Vec<Box<dyn FnOnce() + Send>> = w
				.clients
				.iter()
				.enumerate()
				.map(|(i, c)| {
					let c = c.clone();
					Box::new(move || exec::client(i, c, tolerant)) as Box<dyn FnOnce() + Send>
				})
				.collect();
			sched::run(cfg, bodies);
			let m = shm::get();
			if m.status == ST_RUNNING {
				m.status = ST_OK;
			}
			libc::_exit(0);
		}
		while libc::waitpid(pid, &mut status, 0) < 0 {}
	}
	let m = shm::get();
	let mut o = Out {
		status: m.status,
		class: shm::class(m),
		msg: shm::msg(m),
		trace: m.trace[..m.trace_len as usize].iter().map(|d| (d.step, d.tid, d.kind, d.to)).collect(),
		logs: (0..w.clients.len()).map(|i| m.oplog[i][..m.oplen[i] as usize].to_vec()).collect(),
		sched_hash: m.sched_hash,
		log_hash: m.log_hash,
		steps: m.steps,
		switches: m.switches,
		counters: m.counters.to_vec(),
		sim_ns: m.sim_ns,
		preempts: m.preempts,
		lock_waits: m.lock_waits,
	};
	if o.status == ST_RUNNING {
		let inflight: Vec<String> = (0..w.clients.len()).filter(|i| m.inflight[*i] != u32::MAX).map(|i| format!("client {} op {}", i, m.inflight[i])).collect();
		if libc::WIFSIGNALED(status) {
			let sig = libc::WTERMSIG(status);
			if sig == libc::SIGALRM {
				o.class = "hang".into();
				o.msg = format!("no end within 200 s of real time and no scheduling point reached; in flight: {}", inflight.join(", "));
			} else if sig == libc::SIGKILL {
				o.status = ST_HARNESS;
				o.msg = "a run was killed from outside".into();
				return o;
			} else {
				o.class = "crash".into();
				o.msg = format!("the process died of signal {}; in flight: {}", sig, inflight.join(", "));
			}
		} else {
			o.class = "crash".into();
			o.msg = format!("the process left with status {}; in flight: {}", status, inflight.join(", "));
		}
		o.status = ST_VIOLATION;
	} else if o.status == ST_OK && status != 0 {
		o.class = "crash".into();
		o.msg = format!("the process ended abnormally ({})", status);
		o.status = ST_VIOLATION;
	}
	o
}

#[derive(Clone, Debug)]
pub enum Verdict {
	Ok,
	/// something else is wrong here, not what this property says
	Foreign(String),
	Violation(String, String),
	Harness(String),
}

fn accepts(prop: &str, full: &str) -> bool {
	let base = full.split('|').next().unwrap_or("");
	let has = |f: &str| full.split('|').skip(1).any(|x| x == f);
	let dead = matches!(base, "deadlock" | "no-progress" | "hang" | "crash");
	match prop {
		"C02" => dead || base.ends_with("-panic"),
		"C04" => matches!(base, "handler" | "handler-query" | "fault-panic") || dead,
		"C06" => matches!(base, "integrity" | "nav" | "mutate-panic" | "drop-panic" | "check-panic") || dead,
		"C07" => matches!(base, "tree" | "integrity" | "read" | "mutate-panic" | "load" | "load-panic" | "check-panic") || dead,
		"C08" => matches!(base, "query" | "nav" | "integrity" | "query-panic" | "callback" | "check-panic") || dead,
		"C09" => has("cbpanic") || matches!(base, "callback" | "callback-panic") || dead,
		"C10" => has("drop") || dead,
		"C11" => has("copy") || base.starts_with("copy") || dead,
		"C13" => base == "restart" || dead,
		_ => true,
	}
}

#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
	pub worlds: u64,
	pub execs: u64,
	pub steps: u64,
	#[serde(default)]
	pub max_steps: u64,
	pub switches: u64,
	pub preempts: u64,
	pub lock_waits: u64,
	pub sim_ns: u64,
	pub counters: Vec<u64>,
	pub scheds: BTreeSet<u64>,
	pub nontrivial: BTreeSet<u64>,
	pub foreign: BTreeMap<String, u64>,
	pub strategies: BTreeMap<String, u64>,
	pub cov: Vec<u8>,
	pub pairs: Vec<u8>,
	pub states: Vec<u8>,
	pub sample: Vec<String>,
	pub fail: Option<u64>,
	pub harness: Option<String>,
	pub capped: bool,
}
impl Stats {
	fn add(&mut self, o: &Out) {
		self.execs += 1;
		self.steps += o.steps;
		self.max_steps = self.max_steps.max(o.steps);
		self.switches += o.switches;
		self.preempts += o.preempts;
		self.lock_waits += o.lock_waits;
		self.sim_ns += o.sim_ns.saturating_sub(1_000_000_000_000);
		if self.counters.is_empty() {
			self.counters = vec![0; NCOUNT];
		}
		for (a, b) in self.counters.iter_mut().zip(&o.counters) {
			*a += b;
		}
	}
	fn merge(&mut self, o: Stats) {
		self.worlds += o.worlds;
		self.execs += o.execs;
		self.steps += o.steps;
		self.max_steps = self.max_steps.max(o.max_steps);
		self.switches += o.switches;
		self.preempts += o.preempts;
		self.lock_waits += o.lock_waits;
		self.sim_ns += o.sim_ns;
		if self.counters.is_empty() {
			self.counters = vec![0; NCOUNT];
		}
		for (a, b) in self.counters.iter_mut().zip(&o.counters) {
			*a += b;
		}
		self.scheds.extend(o.scheds);
		self.nontrivial.extend(o.nontrivial);
		for (k, v) in o.foreign {
			*self.foreign.entry(k).or_default() += v;
		}
		for (k, v) in o.strategies {
			*self.strategies.entry(k).or_default() += v;
		}
		for (a, b) in [(&mut self.cov, o.cov), (&mut self.pairs, o.pairs), (&mut self.states, o.states)] {
			if a.is_empty() {
				*a = vec![0; COV];
			}
			for (x, y) in a.iter_mut().zip(b) {
				*x |= y;
			}
		}
		if self.sample.len() < 3 {
			self.sample.extend(o.sample);
			self.sample.truncate(3);
		}
		self.capped |= o.capped;
		if self.harness.is_none() {
			self.harness = o.harness;
		}
		self.fail = match (self.fail, o.fail) {
			(Some(a), Some(b)) => Some(a.min(b)),
			(a, b) => a.or(b),
		};
	}
}

fn warm_client(phase: u8) -> Client {
	let t = |s: &str| Sel::from(vec![vec![(Comb::Desc, vec![Simple::Tag(s.to_string())])]]);
	let doc = vec![Tree::E("div".into(), 80_001, vec![("id".into(), Some("w".into())), ("class".into(), Some("c1".into()))], vec![Tree::E("b".into(), 80_002, vec![], vec![])])];
	let mut ops = vec![Op::Load { d: 0, tree: doc, handler: HandlerKind::None, via: 0 }, Op::Query { src: Src::Doc(0), q: Q::Find(t("div")), dst: 0 }, Op::Query { src: Src::Slot(0), q: Q::Children(None), dst: 1 }];
	for s in ["#w.c1[class='c1']:first-child", "b:nth-last-of-type(2n+1):not(.x)", ":has(b):empty, :header, :input, :checked, :submit, :root", "div > b + b ~ b:contains('x'):only-child"] {
		ops.push(Op::Opaque { src: Src::Doc(0), method: BadMethod::Find, selector: s.into() });
	}
	Client { phase, pin: true, faulty: true, ops }
}

/// Decide one world.  `main` receives the outcome of the deciding execution.
pub fn evaluate(prop: &str, w: &World, s: &Sch, st: Option<&mut Stats>, main: &mut Out) -> Verdict {
	let mut dummy = Stats::default();
	let st = match st {
		Some(s) => s,
		None => &mut dummy,
	};
	let quiet = |h: u64| Sch { strategy: Strategy::Serial, seed: s.seed, hash_seed: h, budget: s.budget, stalls: vec![], spurious: false, replay: None };
	match prop {
		"C01" | "C03" | "C05" | "C12" => {
			// the reference: every client by itself
			let mut refs: Vec<Option<Vec<u64>>> = vec![];
			for c in &w.clients {
				if c.faulty {
					refs.push(None);
					continue;
				}
				let mut c2 = c.clone();
				let (cl, at) = if prop == "C05" {
					c2.phase = 1;
					(vec![warm_client(0), c2], 1)
				} else {
					c2.phase = 0;
					(vec![c2], 0)
				};
				let o = execute(&World { clients: cl, hash_seed: w.hash_seed }, &quiet(w.hash_seed), true);
				st.add(&o);
				if o.status == ST_HARNESS {
					return Verdict::Harness(o.msg);
				}
				if prop == "C12" {
					// the calls asked along the way must not matter
					let full = o.ok();
					let k = if full { c.ops.len().saturating_sub(1) } else { failed_op(&o.msg) };
					let keep = slice_of(&c.ops, k);
					let bounded = !o.logs[at].contains(&u64::MAX);
					if keep.len() < k + 1 && bounded && (!full || refs.iter().all(|r| r.is_none())) {
						let slim = Client { phase: 0, ops: keep.iter().map(|i| c.ops[*i].clone()).collect(), ..c.clone() };
						let x = execute(&World { clients: vec![slim], hash_seed: w.hash_seed }, &quiet(w.hash_seed), true);
						st.add(&x);
						if x.status == ST_HARNESS {
							return Verdict::Harness(x.msg);
						}
						let diff = keep.iter().enumerate().find(|(j, i)| full && x.ok() && matches!(c.ops[**i], Op::Query { .. } | Op::Opaque { .. } | Op::Bad { .. }) && x.logs[0].get(*j) != o.logs[at].get(**i));
						if full != x.ok() || diff.is_some() {
							let msg = match (full, diff) {
								(false, _) => format!("{} (right without the calls before that it does not depend on)", o.msg),
								(true, Some((_, i))) => format!("client 0 op {} ({}) answers something else without the calls before that it does not depend on", i, op_name(c.ops.get(*i))),
								_ => format!("without the calls it does not depend on: {}", x.msg),
							};
							*main = if full { x } else { o };
							main.trace.clear();
							return Verdict::Violation("differs".into(), msg);
						}
					}
				}
				if !o.ok() {
					return Verdict::Foreign(format!("alone:{}", o.base()));
				}
				refs.push(Some(o.logs[at].clone()));
			}
			let compare = |o: &Out, how: &str, off: usize| -> Verdict {
				if o.status == ST_HARNESS {
					return Verdict::Harness(o.msg.clone());
				}
				if !o.ok() {
					return Verdict::Violation(o.class.clone(), format!("{}: {} (the same calls succeed in a run of their own)", how, o.msg));
				}
				for (i, r) in refs.iter().enumerate() {
					if let Some(r) = r {
						let l = &o.logs[i + off];
						if l != r {
							let k = l.iter().zip(r).position(|(a, b)| a != b).unwrap_or(l.len().min(r.len()));
							return Verdict::Violation("differs".into(), format!("{}: client {} op {} ({}) did not answer what it answers in a run of its own", how, i, k, op_name(w.clients[i].ops.get(k))));
						}
					}
				}
				Verdict::Ok
			};
			if prop == "C12" {
				// other hash seeds, a warmed-up library, other neighbours: same answers
				let mut o = execute(w, &Sch { hash_seed: mix(w.hash_seed), ..quiet(0) }, true);
				st.add(&o);
				o.trace.clear();
				let v = compare(&o, "with other hash seeds", 0);
				*main = o;
				if !matches!(v, Verdict::Ok) {
					return v;
				}
				let mut w2 = w.clone();
				for c in w2.clients.iter_mut() {
					c.phase += 1;
				}
				w2.clients.insert(0, warm_client(0));
				let mut o = execute(&w2, &quiet(mix(w.hash_seed ^ 77)), true);
				st.add(&o);
				o.trace.clear();
				let v = compare(&o, "in a library that has been used before", 1);
				*main = o;
				if !matches!(v, Verdict::Ok) {
					return v;
				}
			}
			let o = execute(w, s, true);
			st.add(&o);
			let v = compare(&o, if prop == "C05" { "on first use" } else { "together" }, 0);
			*main = o;
			v
		}
		_ => {
			let o = execute(w, s, false);
			st.add(&o);
			let v = match o.status {
				ST_OK => Verdict::Ok,
				ST_HARNESS => Verdict::Harness(o.msg.clone()),
				_ if accepts(prop, &o.class) => Verdict::Violation(o.class.clone(), o.msg.clone()),
				_ => Verdict::Foreign(o.base().to_string()),
			};
			*main = o;
			v
		}
	}
}
/// the op a message is about
fn failed_op(msg: &str) -> usize {
	msg.split(" op ").nth(1).map_or(usize::MAX - 1, |t| t.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(usize::MAX - 1))
}
fn op_name(o: Option<&Op>) -> String {
	match o {
		Some(o) => {
			let s = format!("{:?}", o);
			let mut k = s.len().min(120);
			while !s.is_char_boundary(k) {
				k -= 1;
			}
			s[..k].to_string()
		}
		None => "end".into(),
	}
}

pub fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
	let mut h = mix(seed ^ 0xabcdef);
	for b in prop.bytes() {
		h = mix(h ^ b as u64);
	}
	mix(h ^ mix(i))
}

fn worker(prop: &str, seed: u64, w: u64, nw: u64, runs: u64, deadline: Instant, stop: *mut u64) -> Stats {
	let mut st = Stats::default();
	let m = shm::get();
	m.cov = [0; COV];
	m.pairs = [0; COV];
	m.states = [0; COV];
	let mut i = w;
	while i < runs {
		if Instant::now() > deadline {
			st.capped = true;
			break;
		}
		if unsafe { std::ptr::read_volatile(stop) } < i {
			break;
		}
		let (world, sch) = gen::world(prop, run_seed(prop, seed, i));
		let mut out = Out::default();
		let v = evaluate(prop, &world, &sch, Some(&mut st), &mut out);
		st.worlds += 1;
		if out.steps > 50_000_000 && std::env::var_os("VSIM_HEAVY").is_some() {
			eprintln!("run {}: {} steps", i, out.steps);
		}
		let sn = match sch.strategy {
			Strategy::Serial => "serial",
			Strategy::Random { .. } => "random preemption",
			Strategy::Pct { .. } => "priority change points (PCT)",
			Strategy::Sites { .. } => "preemption at a seeded subset of code sites",
		};
		*st.strategies.entry(sn.into()).or_default() += 1;
		st.scheds.insert(out.sched_hash);
		if out.counters.get(exec::C_OPS).copied().unwrap_or(0) > 2 && (world.clients.len() == 1 || out.switches > 1) && out.counters[exec::C_NONEMPTY] + out.counters[exec::C_BADSEL] + out.counters[exec::C_COLD] > 0 {
			st.nontrivial.insert(mix(out.sched_hash ^ mix(out.log_hash)));
		}
		if st.sample.is_empty() && w < 3 && out.steps > 0 {
			st.sample.push(format!("run {} seed {}: {:?}, {} clients, {} steps, {} switches; first ops: {}", i, sch.seed, sch.strategy, world.clients.len(), out.steps, out.switches, world.clients[0].ops.iter().take(6).map(|o| op_name(Some(o))).collect::<Vec<_>>().join(" ; ")));
		}
		match v {
			Verdict::Ok => {}
			Verdict::Foreign(c) => *st.foreign.entry(c).or_default() += 1,
			Verdict::Harness(m) => {
				st.harness = Some(format!("run {}: {}", i, m));
				break;
			}
			Verdict::Violation(..) => {
				st.fail = Some(i);
				unsafe {
					let cur = std::ptr::read_volatile(stop);
					if i < cur {
						std::ptr::write_volatile(stop, i);
					}
				}
				break;
			}
		}
		i += nw;
	}
	let m = shm::get();
	st.cov = m.cov.to_vec();
	st.pairs = m.pairs.to_vec();
	st.states = m.states.to_vec();
	st
}

pub fn batch(prop: &str, seed: u64, runs: u64, workers: u64, wall: f64) -> Stats {
	let stop = unsafe {
		let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64;
		*p = u64::MAX;
		p
	};
	let deadline = Instant::now() + std::time::Duration::from_secs_f64(wall);
	let mut pipes = vec![];
	for w in 0..workers {
		let mut fd = [0i32; 2];
		unsafe {
			libc::pipe(fd.as_mut_ptr());
			let pid = libc::fork();
			if pid == 0 {
				libc::close(fd[0]);
				libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
				shm::SHM = shm::create();
				let st = worker(prop, seed, w, workers, runs, deadline, stop);
				let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd[1]);
				let _ = f.write_all(&serde_json::to_vec(&st).unwrap());
				drop(f);
				libc::_exit(0);
			}
			libc::close(fd[1]);
			pipes.push((pid, fd[0]));
		}
	}
	let mut all = Stats::default();
	for (pid, fd) in pipes {
		let mut b = vec![];
		unsafe {
			let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd);
			let _ = f.read_to_end(&mut b);
			let mut s = 0;
			libc::waitpid(pid, &mut s, 0);
		}
		match serde_json::from_slice::<Stats>(&b) {
			Ok(s) => all.merge(s),
			Err(e) => all.harness = Some(format!("a worker ended without a result: {}", e)),
		}
	}
	all
}

/* ------------------------------------------------------------ minimising */

#[derive(Clone, Serialize, Deserialize)]
pub struct Replay {
	pub property: String,
	pub class: String,
	pub message: String,
	pub run: u64,
	pub verif_seed: u64,
	pub seed: u64,
	pub sched: Sch,
	pub world: World,
	pub note: String,
}
fn base(c: &str) -> String {
	c.split('|').next().unwrap_or("").to_string()
}

struct Min<'a> {
	prop: &'a str,
	class: String,
	deadline: Instant,
	tries: u32,
}
impl Min<'_> {
	/// does this world still fail the same way?  Returns the recorded schedule.
	fn fails(&mut self, w: &World, s: &Sch) -> Option<(Sch, String)> {
		self.tries += 1;
		let mut out = Out::default();
		match evaluate(self.prop, w, s, None, &mut out) {
			Verdict::Violation(c, m) if base(&c) == self.class => {
				let mut s2 = s.clone();
				s2.replay = Some(out.trace);
				s2.stalls = vec![];
				Some((s2, m))
			}
			_ => None,
		}
	}
	/// with the schedule it had, with none, or with a few fresh ones
	fn fails_some(&mut self, w: &World, s: &Sch) -> Option<(Sch, String)> {
		let mut serial = s.clone();
		serial.strategy = Strategy::Serial;
		serial.replay = None;
		serial.stalls = vec![];
		serial.spurious = false;
		if let Some(r) = self.fails(w, &serial) {
			return Some(r);
		}
		if w.clients.len() < 2 {
			return None;
		}
		if let Some(r) = self.fails(w, s) {
			return Some(r);
		}
		for k in 0..12u64 {
			if Instant::now() > self.deadline {
				return None;
			}
			let mut x = serial.clone();
			x.seed = mix(s.seed ^ k);
			x.strategy = match k % 4 {
				0 => Strategy::Random { mean: 40 },
				1 => Strategy::Pct { depth: 3, est: 40_000 },
				2 => Strategy::Random { mean: 400 },
				_ => Strategy::Sites { modulus: 31, max: 100 },
			};
			if let Some(r) = self.fails(w, &x) {
				return Some(r);
			}
		}
		None
	}
	fn time(&self) -> bool {
		Instant::now() < self.deadline
	}
}

fn without<T: Clone>(v: &[T], a: usize, b: usize) -> Vec<T> {
	let mut o = v[..a].to_vec();
	o.extend_from_slice(&v[b.min(v.len())..]);
	o
}
fn shrink_trees(t: &[Tree]) -> Vec<Vec<Tree>> {
	let mut out = vec![];
	for i in 0..t.len() {
		out.push(without(t, i, i + 1));
		if let Tree::E(tag, k, a, c) = &t[i] {
			for c2 in shrink_trees(c) {
				let mut v = t.to_vec();
				v[i] = Tree::E(tag.clone(), *k, a.clone(), c2);
				out.push(v);
			}
			for j in 0..a.len() {
				let mut v = t.to_vec();
				v[i] = Tree::E(tag.clone(), *k, without(a, j, j + 1), c.clone());
				out.push(v);
			}
			if !c.is_empty() {
				let mut v = without(t, i, i + 1);
				for (n, x) in c.iter().enumerate() {
					v.insert(i + n, x.clone());
				}
				out.push(v);
			}
		}
	}
	out
}
fn shrink_sel(s: &Sel) -> Vec<Sel> {
	let mut out = vec![];
	for i in 0..s.len() {
		if s.len() > 1 {
			out.push(without(s, i, i + 1));
		}
		for j in 0..s[i].len() {
			if s[i].len() > 1 {
				let mut v = s.clone();
				v[i] = without(&s[i], j, j + 1);
				out.push(v);
			}
			for k in 0..s[i][j].1.len() {
				if s[i][j].1.len() > 1 {
					let mut v = s.clone();
					v[i][j].1 = without(&s[i][j].1, k, k + 1);
					out.push(v);
				}
				if let Simple::Not(x) | Simple::Has(x) = &s[i][j].1[k] {
					for y in shrink_sel(x) {
						let mut v = s.clone();
						v[i][j].1[k] = match &s[i][j].1[k] {
							Simple::Not(_) => Simple::Not(Box::new(y)),
							_ => Simple::Has(Box::new(y)),
						};
						out.push(v);
					}
				}
			}
		}
	}
	out
}
fn shrink_op(o: &Op) -> Vec<Op> {
	match o {
		Op::Load { d, tree, handler, via } => {
			let mut v: Vec<Op> = shrink_trees(tree).into_iter().map(|t| Op::Load { d: *d, tree: t, handler: *handler, via: *via }).collect();
			if *handler != HandlerKind::None {
				v.push(Op::Load { d: *d, tree: tree.clone(), handler: HandlerKind::None, via: *via });
			}
			v
		}
		Op::Query { src, q, dst } => {
			let mk = |q: Q| Op::Query { src: *src, q, dst: *dst };
			match q {
				Q::Find(s) => shrink_sel(s).into_iter().map(|s| mk(Q::Find(s))).collect(),
				Q::Filter(s) => shrink_sel(s).into_iter().map(|s| mk(Q::Filter(s))).collect(),
				Q::Not(s) => shrink_sel(s).into_iter().map(|s| mk(Q::Not(s))).collect(),
				Q::Is(s) => shrink_sel(s).into_iter().map(|s| mk(Q::Is(s))).collect(),
				Q::IsAll(s) => shrink_sel(s).into_iter().map(|s| mk(Q::IsAll(s))).collect(),
				Q::Has(s) => shrink_sel(s).into_iter().map(|s| mk(Q::Has(s))).collect(),
				Q::Closest(s) => shrink_sel(s).into_iter().map(|s| mk(Q::Closest(s))).collect(),
				Q::Children(Some(s)) => shrink_sel(s).into_iter().map(|s| mk(Q::Children(Some(s)))).collect(),
				_ => vec![],
			}
		}
		Op::Callback { s, kind, body, stop_at, panic_at, limit } => {
			let mut v = vec![];
			for i in 0..body.len() {
				v.push(Op::Callback { s: *s, kind: *kind, body: without(body, i, i + 1), stop_at: *stop_at, panic_at: *panic_at, limit: *limit });
			}
			if panic_at.is_some() {
				v.push(Op::Callback { s: *s, kind: *kind, body: body.clone(), stop_at: *stop_at, panic_at: None, limit: *limit });
			}
			v
		}
		Op::Mutate { s, m } => {
			let mk = |m: M| Op::Mutate { s: *s, m };
			match m {
				M::SetHtml(t) => shrink_trees(t).into_iter().map(|t| mk(M::SetHtml(t))).collect(),
				M::Insert(p, What::Frag(t), f) => shrink_trees(t).into_iter().map(|t| mk(M::Insert(*p, What::Frag(t), *f))).collect(),
				_ => vec![],
			}
		}
		_ => vec![],
	}
}

pub fn minimise(prop: &str, class: &str, msg: &str, w: &World, s: &Sch, secs: f64) -> (World, Sch, String, u32) {
	let mut m = Min { prop, class: base(class), deadline: Instant::now() + std::time::Duration::from_secs_f64(secs), tries: 0 };
	let mut best = (w.clone(), s.clone(), msg.to_string());
	if let Some((s2, ms)) = m.fails(w, s) {
		best = (w.clone(), s2, ms);
	}
	if let Some((s2, ms)) = m.fails_some(w, &best.1.clone()) {
		best = (w.clone(), s2, ms);
	}
	let mut progress = true;
	while progress && m.time() {
		progress = false;
		// whole clients: an empty one keeps the numbering, a removed one shortens it
		let mut i = 0;
		while i < best.0.clients.len() && best.0.clients.len() > 1 && m.time() {
			let mut w2 = best.0.clone();
			w2.clients.remove(i);
			if let Some((s2, ms)) = m.fails_some(&w2, &best.1.clone()) {
				best = (w2, s2, ms);
				progress = true;
			} else {
				i += 1;
			}
		}
		// operations, in halving chunks
		for ci in 0..best.0.clients.len() {
			let mut chunk = best.0.clients[ci].ops.len().div_ceil(2).max(1);
			loop {
				let mut at = 0;
				while at < best.0.clients[ci].ops.len() && m.time() {
					let mut w2 = best.0.clone();
					let e = (at + chunk).min(w2.clients[ci].ops.len());
					w2.clients[ci].ops.drain(at..e);
					if let Some((s2, ms)) = m.fails_some(&w2, &best.1.clone()) {
						best = (w2, s2, ms);
						progress = true;
					} else {
						at += chunk;
					}
				}
				if chunk == 1 {
					break;
				}
				chunk /= 2;
			}
		}
	}
	// arguments
	let mut progress = true;
	while progress && m.time() {
		progress = false;
		for ci in 0..best.0.clients.len() {
			for oi in 0..best.0.clients[ci].ops.len() {
				loop {
					let mut hit = false;
					for o in shrink_op(&best.0.clients[ci].ops[oi]) {
						if !m.time() {
							break;
						}
						let mut w2 = best.0.clone();
						w2.clients[ci].ops[oi] = o;
						if let Some((s2, ms)) = m.fails_some(&w2, &best.1.clone()) {
							best = (w2, s2, ms);
							hit = true;
							progress = true;
							break;
						}
					}
					if !hit || !m.time() {
						break;
					}
				}
			}
		}
	}
	// scheduling decisions: keep only the preemptions that matter
	if let Some(tr) = best.1.replay.clone() {
		let mut cur = tr;
		let mut chunk = cur.len().div_ceil(2).max(1);
		while !cur.is_empty() {
			let mut at = 0;
			while at < cur.len() && m.time() {
				let t2 = without(&cur, at, at + chunk);
				let mut s2 = best.1.clone();
				s2.replay = Some(t2.clone());
				m.tries += 1;
				let mut out = Out::default();
				if let Verdict::Violation(c, ms) = evaluate(prop, &best.0, &s2, None, &mut out) {
					if base(&c) == m.class {
						best = (best.0.clone(), s2, ms);
						cur = t2;
						continue;
					}
				}
				at += chunk;
			}
			if chunk == 1 || !m.time() {
				break;
			}
			chunk /= 2;
		}
	}
	(best.0, best.1, best.2, m.tries)
}

/* ------------------------------------------------------------- evidence */
pub fn evidence(prop: &str, tier: &str, seed: u64, st: &Stats, wall: f64, violations: u64, workers: u64, sites: u64) -> serde_json::Value {
	let mut faults = serde_json::Map::new();
	let mut probes = serde_json::Map::new();
	for (i, name, is_fault) in COUNTERS {
		let v = st.counters.get(*i).copied().unwrap_or(0);
		if *is_fault {
			faults.insert(name.to_string(), v.into());
		} else {
			probes.insert(name.to_string(), v.into());
		}
	}
	faults.insert("preemption".into(), st.preempts.into());
	faults.insert("blocked on a lock held by another client".into(), st.lock_waits.into());
	let on = |v: &Vec<u8>| v.iter().filter(|x| **x != 0).count();
	serde_json::json!({
		"property": prop,
		"tier": tier,
		"seed": seed,
		"level": "exploration",
		"wall_s": wall,
		"violations": violations,
		"coverage": {
			"evaluations": st.worlds,
			"distinct_nontrivial": st.nontrivial.len(),
			"rule": "one evaluation is one generated world (clients, operations, faults, schedule) decided from one seed; it is non-trivial when more than two operations ran, some query had a non-empty answer or some fault fired, and (with several clients) the baton changed hands more than once; distinct by the hash of its scheduling decisions and of everything its operations observed",
			"samples": st.sample,
			"simulated_executions": st.execs,
			"seeds_per_hour": if wall > 0.0 { (st.worlds as f64 * 3600.0 / wall) as u64 } else { 0 },
			"longest_run_in_steps (the progress bound is 1200000000)": st.max_steps,
			"scheduling_points_passed": st.steps,
			"simulated_seconds": st.sim_ns as f64 / 1e9,
			"switches": st.switches,
			"distinct_schedules": st.scheds.len(),
			"library_code_sites_reached": on(&st.cov),
			"site_pairs_at_switches": on(&st.pairs),
			"tree_states_reached (16-bit hash buckets)": on(&st.states),
			"instrumented_sites_bucket_limit": sites,
			"schedule_strategies": st.strategies,
			"faults_injected": faults,
			"probes": probes,
			"foreign_deviations (not this property)": st.foreign,
			"workers": workers,
			"stopped_by_wall_clock": st.capped,
			"real_code": "the whole visdom crate with all features, rphtml, htmlentity, regex, std's Mutex, Once and HashMap",
			"stubbed": "futex, getrandom, clock_gettime, nanosleep and sched_yield system calls; the allocator is std's with a scheduling point in front"
		},
		"assumptions": [
			"preemption happens at basic blocks of visdom, at allocations and at futex calls, not inside straight-line code of dependencies; memory is sequentially consistent",
			"the reference model states the documented jQuery-like semantics for the generated operations; inputs outside them are skipped and counted"
		]
	})
}
