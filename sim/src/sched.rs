//! The scheduler.  Simulated clients are real OS threads, but exactly one of
//! them holds the baton at any instant; every hand-over is decided here, from
//! the run's PRNG or from a recorded decision list.
//!
//! Points at which the running client can lose the baton:
//!  * every basic block of the library under test (LLVM sancov callback),
//!  * every allocation and deallocation made while inside the library (also in
//!    its dependencies),
//!  * every futex call (std Mutex, RwLock, Once, Condvar, park), sleep, yield.
use crate::rng::{mix, Rng};
use crate::shm::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::*};

thread_local! {
	static TID: Cell<i32> = const { Cell::new(-1) };
	static PRE: Cell<u32> = const { Cell::new(0) };
}

extern "C" {
	static __executable_start: u8;
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
	Runnable,
	Blocked { addr: usize, deadline: u64 },
	Done,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Strategy {
	/// no preemption: clients run in a seeded order, switching when they block
	Serial,
	/// preempt after a geometrically distributed number of steps
	Random { mean: u64 },
	/// priorities with `depth` seeded priority-change points (PCT)
	Pct { depth: u32, est: u64 },
	/// preempt at a seeded subset of code sites only
	Sites { modulus: u32, max: u32 },
}

pub struct Cfg {
	pub strategy: Strategy,
	pub seed: u64,
	pub hash_seed: u64,
	pub phases: Vec<u8>,
	pub budget: u64,
	/// stall faults: (global step, duration in steps)
	pub stalls: Vec<(u64, u64)>,
	pub spurious: bool,
	pub replay: Option<Vec<Decision>>,
}

struct Sched {
	n: usize,
	st: [St; MAXT],
	phase: [u8; MAXT],
	lstep: [u32; MAXT],
	pc: [usize; MAXT],
	stalled_until: [u64; MAXT],
	timed_out: [bool; MAXT],
	prio: [u32; MAXT],
	cur: usize,
	steps: u64,
	budget: u64,
	next_preempt: u64,
	last_switch: u64,
	change: Vec<u64>,
	stalls: Vec<(u64, u64)>,
	low_prio: u32,
	sites_left: u32,
	sites_mod: u32,
	sites_key: u64,
	rng: Rng,
	strategy: Strategy,
	spurious: bool,
	hash_seed: u64,
	rand_calls: [u64; MAXT],
	clock: u64,
	replay: bool,
	rq: [Vec<Decision>; MAXT],
	rp: [usize; MAXT],
}
const QUANTUM: u64 = 60_000;

static mut S: *mut Sched = std::ptr::null_mut();
static BATON: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static DONE: AtomicU32 = AtomicU32::new(0);

#[inline(always)]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
	let r: i64;
	std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
		in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
	r
}
fn os_wait(a: &AtomicU32) {
	while a.load(Acquire) == 0 {
		unsafe {
			raw6(libc::SYS_futex, a.as_ptr() as i64, 128, 0, 0, 0, 0);
		}
	}
	a.store(0, Release);
}
fn os_wake(a: &AtomicU32) {
	a.store(1, Release);
	unsafe {
		raw6(libc::SYS_futex, a.as_ptr() as i64, 129, 1, 0, 0, 0);
	}
}

pub fn tid() -> i32 {
	TID.with(|t| t.get())
}
pub fn steps() -> u64 {
	unsafe {
		if S.is_null() {
			0
		} else {
			(*S).steps
		}
	}
}

/// Run `f` as library code: the scheduler may preempt inside.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
	let _g = PreGuard::set(1);
	f()
}
/// Run `f` as harness code (inside a callback from the library): no preemption.
pub fn user<R>(f: impl FnOnce() -> R) -> R {
	let _g = PreGuard::set(0);
	f()
}
pub struct PreGuard(u32);
impl PreGuard {
	pub fn set(v: u32) -> PreGuard {
		let old = PRE.with(|p| p.replace(v));
		PreGuard(old)
	}
}
impl Drop for PreGuard {
	fn drop(&mut self) {
		PRE.with(|p| p.set(self.0));
	}
}

fn die(status: u32, class: &str, msg: &str) -> ! {
	fail(status, class, msg);
	sync_stats();
	unsafe { libc::_exit(0) }
}
pub fn violation(class: &str, msg: &str) -> ! {
	PRE.with(|p| p.set(0));
	die(ST_VIOLATION, class, msg)
}
pub fn harness_error(msg: &str) -> ! {
	PRE.with(|p| p.set(0));
	die(ST_HARNESS, "harness", msg)
}
fn sync_stats() {
	unsafe {
		if !S.is_null() {
			let s = &*S;
			let m = get();
			m.steps = s.steps;
			m.sim_ns = s.clock;
		}
	}
}

impl Sched {
	fn phase_now(&self) -> u8 {
		let mut p = u8::MAX;
		for i in 0..self.n {
			if self.st[i] != St::Done && self.phase[i] < p {
				p = self.phase[i];
			}
		}
		p
	}
	fn runnable(&self) -> ([usize; MAXT], usize) {
		let ph = self.phase_now();
		let mut v = [0usize; MAXT];
		let mut k = 0;
		for i in 0..self.n {
			if self.phase[i] == ph && self.st[i] == St::Runnable {
				v[k] = i;
				k += 1;
			}
		}
		(v, k)
	}
	fn record(&mut self, tid: usize, kind: u8, to: usize) {
		let m = get();
		let i = m.trace_len as usize;
		if i < MAX_TRACE {
			m.trace[i] = Decision { step: self.lstep[tid], tid: tid as u8, kind, to: to as u8, pad: 0 };
			m.trace_len += 1;
		}
		m.sched_hash = mix(m.sched_hash ^ ((tid as u64) << 56) ^ ((to as u64) << 48) ^ ((kind as u64) << 40) ^ self.pc[tid] as u64);
	}
	/// the recorded decision of this kind for `tid` at its present step, if any
	fn recorded(&mut self, tid: usize, kind: u8) -> Option<usize> {
		let now = self.lstep[tid];
		let q = &self.rq[tid];
		let p = &mut self.rp[tid];
		while *p < q.len() && q[*p].step < now {
			*p += 1;
		}
		let mut i = *p;
		while i < q.len() && q[i].step == now {
			if q[i].kind == kind {
				let to = q[i].to as usize;
				self.rq[tid].remove(i);
				return Some(to);
			}
			i += 1;
		}
		None
	}
	fn choose(&mut self, me: usize, forced: bool) -> Option<usize> {
		let (v, k) = self.runnable();
		if k == 0 {
			return None;
		}
		if self.replay {
			let want = self.recorded(me, if forced { D_FORCED } else { D_PREEMPT });
			return match want {
				Some(t) if v[..k].contains(&t) => Some(t),
				_ if forced => Some(v[0]),
				_ => Some(me),
			};
		}
		let mut c = [0usize; MAXT];
		let mut n = 0;
		for &t in &v[..k] {
			if self.stalled_until[t] <= self.steps && (forced || t != me) {
				c[n] = t;
				n += 1;
			}
		}
		if n == 0 {
			if !forced {
				return Some(me);
			}
			for &t in &v[..k] {
				c[n] = t;
				n += 1;
			}
		}
		Some(match self.strategy {
			Strategy::Pct { .. } => {
				let mut b = c[0];
				for &t in &c[..n] {
					if self.prio[t] > self.prio[b] {
						b = t;
					}
				}
				b
			}
			_ => c[self.rng.below(n)],
		})
	}
	fn arm(&mut self) {
		self.next_preempt = match self.strategy {
			Strategy::Serial => u64::MAX,
			Strategy::Random { mean } => self.steps + self.rng.gap(mean),
			Strategy::Pct { .. } => self.change.last().copied().unwrap_or(u64::MAX),
			Strategy::Sites { .. } => u64::MAX,
		};
	}
}

unsafe fn hand_over(me: usize, to: usize) {
	let s = &mut *S;
	let m = get();
	m.switches += 1;
	let pair = mix((s.pc[me] as u64) << 32 ^ s.pc[to] as u64) as usize & (COV - 1);
	m.pairs[pair] = 1;
	s.cur = to;
	s.last_switch = s.steps;
	os_wake(&BATON[to]);
	os_wait(&BATON[me]);
}

#[inline(always)]
fn point(pc: usize) {
	if PRE.with(|p| p.get()) == 0 {
		return;
	}
	point_slow(pc)
}
#[inline(never)]
fn point_slow(pc: usize) {
	let me = tid();
	if me < 0 {
		return;
	}
	let me = me as usize;
	unsafe {
		let s = &mut *S;
		s.steps += 1;
		s.clock += 100;
		s.lstep[me] += 1;
		s.pc[me] = pc;
		get().cov[(mix(pc as u64) as usize) & (COV - 1)] = 1;
		if s.steps > s.budget {
			PRE.with(|p| p.set(0));
			die(ST_BUDGET, "no-progress", &format!("step budget {} exhausted by client {}", s.budget, me));
		}
		if s.replay {
			let now = s.lstep[me];
			let p = s.rp[me];
			if p < s.rq[me].len() && s.rq[me][p].step <= now {
				if let Some(to) = s.choose(me, false) {
					if to != me {
						s.record(me, D_PREEMPT, to);
						get().preempts += 1;
						hand_over(me, to);
						return;
					}
				}
			}
			let s = &mut *S;
			if s.steps - s.last_switch > QUANTUM {
				fair_switch(s, me);
			}
			return;
		}
		let mut want = s.steps >= s.next_preempt;
		if let Some(&(at, dur)) = s.stalls.last() {
			if s.steps >= at {
				s.stalls.pop();
				s.stalled_until[me] = s.steps + dur;
				get().counters[crate::exec::C_STALL] += 1;
				want = true;
			}
		}
		if s.sites_left > 0 && s.sites_mod > 0 && mix(pc as u64 ^ s.sites_key) % s.sites_mod as u64 == 0 && s.rng.one_in(2) {
			s.sites_left -= 1;
			want = true;
		}
		if want {
			if let Strategy::Pct { .. } = s.strategy {
				if s.change.last().is_some_and(|c| s.steps >= *c) {
					s.change.pop();
					s.low_prio -= 1;
					s.prio[me] = s.low_prio;
				}
			}
			s.arm();
			if (get().trace_len as usize) < MAX_TRACE - 4096 {
				if let Some(to) = s.choose(me, false) {
					if to != me && !(matches!(s.strategy, Strategy::Pct { .. }) && s.prio[to] < s.prio[me] && s.stalled_until[me] <= s.steps) {
						s.record(me, D_PREEMPT, to);
						get().preempts += 1;
						hand_over(me, to);
						return;
					}
				}
			}
		}
		let s = &mut *S;
		if s.steps - s.last_switch > QUANTUM {
			fair_switch(s, me);
		}
	}
}
/// nobody is starved for ever: after a long quantum the next client in order runs
unsafe fn fair_switch(s: &mut Sched, me: usize) {
	s.last_switch = s.steps;
	let (v, k) = s.runnable();
	if k > 1 {
		let pos = v[..k].iter().position(|t| *t == me).unwrap_or(0);
		let to = v[(pos + 1) % k];
		if to != me {
			if let Strategy::Pct { .. } = s.strategy {
				s.low_prio -= 1;
				s.prio[me] = s.low_prio;
			}
			hand_over(me, to);
		}
	}
}

unsafe fn block(me: usize, addr: usize, deadline: u64) -> bool {
	let s = &mut *S;
	s.st[me] = St::Blocked { addr, deadline };
	s.timed_out[me] = false;
	get().lock_waits += 1;
	leave(me);
	os_wait_turn(me);
	let s = &mut *S;
	s.timed_out[me]
}
unsafe fn os_wait_turn(me: usize) {
	os_wait(&BATON[me]);
}
/// the running client cannot go on: pick another, or find out that none can
unsafe fn leave(me: usize) {
	loop {
		let s = &mut *S;
		if let Some(to) = s.choose(me, true) {
			let (_, k) = s.runnable();
			if k > 1 {
				s.record(me, D_FORCED, to);
			}
			let m = get();
			m.switches += 1;
			let pair = mix((s.pc[me] as u64) << 32 ^ s.pc[to] as u64) as usize & (COV - 1);
			m.pairs[pair] = 1;
			s.cur = to;
			s.last_switch = s.steps;
			os_wake(&BATON[to]);
			return;
		}
		if s.st.iter().take(s.n).all(|x| *x == St::Done) {
			sync_stats();
			os_wake(&DONE);
			return;
		}
		// nobody can run: jump the clock to the earliest deadline
		let mut best = u64::MAX;
		let mut who = usize::MAX;
		for i in 0..s.n {
			if let St::Blocked { deadline, .. } = s.st[i] {
				if deadline < best {
					best = deadline;
					who = i;
				}
			}
		}
		if who != usize::MAX {
			s.clock = s.clock.max(best);
			s.timed_out[who] = true;
			s.st[who] = St::Runnable;
			s.steps += 1;
			if s.steps > s.budget {
				die(ST_BUDGET, "no-progress", "step budget exhausted while every client slept");
			}
			continue;
		}
		let mut d = String::from("every unfinished client is blocked:");
		for i in 0..s.n {
			match s.st[i] {
				St::Blocked { addr, .. } => {
					let same: Vec<usize> = (0..s.n).filter(|j| matches!(s.st[*j], St::Blocked { addr: a, .. } if a == addr)).collect();
					d.push_str(&format!(" client {} (op {}) waits on a lock shared by waiters {:?};", i, get().inflight[i] as i32, same));
				}
				St::Done => d.push_str(&format!(" client {} done;", i)),
				_ => {}
			}
		}
		PRE.with(|p| p.set(0));
		die(ST_DEADLOCK, "deadlock", &d);
	}
}

/// run the closures as simulated clients; returns when all have finished
pub fn run(cfg: Cfg, bodies: Vec<Box<dyn FnOnce() + Send>>) {
	let n = bodies.len();
	assert!(n <= MAXT);
	let mut rng = Rng::derive(cfg.seed, "sched", 0);
	let mut prio = [0u32; MAXT];
	let mut order: Vec<u32> = (0..n as u32).collect();
	for i in (1..n).rev() {
		let j = rng.below(i + 1);
		order.swap(i, j);
	}
	for i in 0..n {
		prio[i] = 1_000_000 + order[i];
	}
	let mut change = vec![];
	let mut sites = (0, 0);
	match cfg.strategy {
		Strategy::Pct { depth, est } => {
			for _ in 0..depth {
				change.push(1 + rng.next() % est.max(1));
			}
			change.sort_by(|a, b| b.cmp(a));
		}
		Strategy::Sites { modulus, max } => sites = (modulus, max),
		_ => {}
	}
	let mut stalls = cfg.stalls.clone();
	stalls.sort_by(|a, b| b.0.cmp(&a.0));
	let mut rq: [Vec<Decision>; MAXT] = Default::default();
	if let Some(r) = &cfg.replay {
		for d in r {
			if (d.tid as usize) < MAXT {
				rq[d.tid as usize].push(*d);
			}
		}
	}
	let mut phase = [0u8; MAXT];
	for i in 0..n {
		phase[i] = cfg.phases[i];
	}
	let sites_key = rng.next();
	let mut s = Box::new(Sched {
		n,
		st: [St::Done; MAXT],
		phase,
		lstep: [0; MAXT],
		pc: [0; MAXT],
		stalled_until: [0; MAXT],
		timed_out: [false; MAXT],
		prio,
		cur: 0,
		steps: 0,
		budget: cfg.budget,
		next_preempt: u64::MAX,
		last_switch: 0,
		change,
		stalls,
		low_prio: 900_000,
		sites_left: sites.1,
		sites_mod: sites.0,
		sites_key,
		rng,
		strategy: cfg.strategy.clone(),
		spurious: cfg.spurious,
		hash_seed: cfg.hash_seed,
		rand_calls: [0; MAXT],
		clock: 1_000_000_000_000,
		replay: cfg.replay.is_some(),
		rq,
		rp: [0; MAXT],
	});
	for i in 0..n {
		s.st[i] = St::Runnable;
	}
	s.arm();
	unsafe {
		S = Box::into_raw(s);
	}
	for b in BATON.iter() {
		b.store(0, Release);
	}
	DONE.store(0, Release);
	let mut hs = vec![];
	for (i, body) in bodies.into_iter().enumerate() {
		let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
			TID.with(|t| t.set(i as i32));
			os_wait(&BATON[i]);
			body();
			unsafe {
				(*S).st[i] = St::Done;
				TID.with(|t| t.set(-1));
				leave(i);
			}
		});
		match h {
			Ok(h) => hs.push(h),
			Err(_) => harness_error("cannot spawn a thread"),
		}
	}
	unsafe {
		// the first baton: a forced decision attributed to client 0 at step 0
		let s = &mut *S;
		let to = s.choose(0, true).unwrap_or(0);
		s.record(0, D_FORCED, to);
		s.cur = to;
		os_wake(&BATON[to]);
	}
	os_wait(&DONE);
	for h in hs {
		let _ = h.join();
	}
	sync_stats();
}

/* ------------------------------------------------------------ the seams */

// LLVM's trace-pc callback, called at every basic block of the library
std::arch::global_asm!(
	".globl __sanitizer_cov_trace_pc",
	"__sanitizer_cov_trace_pc:",
	"mov rdi, [rsp]",
	"jmp {f}",
	f = sym on_pc
);
extern "C" fn on_pc(pc: usize) {
	if PRE.with(|p| p.get()) == 0 {
		return;
	}
	let base = unsafe { &__executable_start as *const u8 as usize };
	point_slow(pc.wrapping_sub(base));
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		point(1);
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		point(2);
		System.dealloc(p, l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		point(1);
		System.alloc_zeroed(l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		point(3);
		System.realloc(p, l, n)
	}
}

unsafe fn err(e: i32) -> i64 {
	*libc::__errno_location() = e;
	-1
}

/// std's futex calls (and nothing else of interest) go through libc's `syscall`
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
	let me = TID.with(|t| t.get());
	if n == libc::SYS_futex && me >= 0 {
		let me = me as usize;
		let op = (b as i32) & 0x7f;
		let s = &mut *S;
		s.lstep[me] += 1;
		match op {
			0 | 9 => {
				if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
					return err(libc::EAGAIN);
				}
				let sp = if s.replay { s.recorded(me, D_SPURIOUS).is_some() } else { s.spurious && s.rng.one_in(6) };
				if sp {
					s.record(me, D_SPURIOUS, me);
					get().counters[crate::exec::C_SPURIOUS] += 1;
					s.steps += 1;
					if s.steps > s.budget {
						die(ST_BUDGET, "no-progress", "step budget exhausted");
					}
					return 0;
				}
				let deadline = if d == 0 {
					u64::MAX
				} else {
					let ts = &*(d as *const libc::timespec);
					let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
					if op == 9 {
						ns
					} else {
						s.clock + ns
					}
				};
				if block(me, a as usize, deadline) {
					return err(libc::ETIMEDOUT);
				}
				return 0;
			}
			1 | 10 => {
				let mut w = [0usize; MAXT];
				let mut k = 0;
				for i in 0..s.n {
					if matches!(s.st[i], St::Blocked { addr, .. } if addr == a as usize) {
						w[k] = i;
						k += 1;
					}
				}
				let max = (c as u32 as usize).min(k);
				let mut woken = 0;
				while woken < max {
					let pos = if k == 1 || max == k {
						0
					} else if s.replay {
						match s.recorded(me, D_WAKE) {
							Some(t) => w[..k].iter().position(|x| *x == t).unwrap_or(0),
							None => 0,
						}
					} else {
						s.rng.below(k)
					};
					let t = w[pos];
					if k > 1 && max != k {
						s.record(me, D_WAKE, t);
					}
					s.st[t] = St::Runnable;
					for i in pos..k - 1 {
						w[i] = w[i + 1];
					}
					k -= 1;
					woken += 1;
				}
				point(4);
				return woken as i64;
			}
			_ => {}
		}
	}
	if n == libc::SYS_getrandom && me >= 0 {
		return getrandom(a as *mut u8, b as usize, c as u32) as i64;
	}
	let r = raw6(n, a, b, c, d, e, f);
	if r < 0 && r > -4096 {
		err(-r as i32)
	} else {
		r
	}
}

/// hash seeds: a pure function of the run's hash seed and the client
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
	let me = TID.with(|t| t.get());
	if me < 0 || S.is_null() {
		let r = raw6(libc::SYS_getrandom, p as i64, n as i64, flags as i64, 0, 0, 0);
		return if r < 0 { err(-r as i32) as isize } else { r as isize };
	}
	let s = &mut *S;
	s.rand_calls[me as usize] += 1;
	let mut x = mix(s.hash_seed ^ ((me as u64) << 40) ^ s.rand_calls[me as usize]);
	for i in 0..n {
		if i % 8 == 0 {
			x = mix(x);
		}
		*p.add(i) = (x >> (8 * (i % 8))) as u8;
	}
	get().counters[crate::exec::C_HASHSEED] += 1;
	n as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
	if TID.with(|t| t.get()) >= 0 && !S.is_null() {
		let c = (*S).clock;
		(*ts).tv_sec = (c / 1_000_000_000) as i64;
		(*ts).tv_nsec = (c % 1_000_000_000) as i64;
		return 0;
	}
	let r = raw6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0);
	if r < 0 {
		err(-r as i32) as i32
	} else {
		0
	}
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
	let me = TID.with(|t| t.get());
	if me >= 0 && !S.is_null() {
		let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
		let dl = if flags & 1 != 0 { ns } else { (*S).clock + ns };
		block(me as usize, usize::MAX, dl);
		return 0;
	}
	let r = raw6(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0);
	-r as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
	let r = clock_nanosleep(1, 0, req, rem);
	if r != 0 {
		err(r) as i32
	} else {
		0
	}
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
	let me = TID.with(|t| t.get());
	if me >= 0 && !S.is_null() {
		let s = &mut *S;
		let me = me as usize;
		s.steps += 1;
		s.lstep[me] += 1;
		if s.steps > s.budget {
			die(ST_BUDGET, "no-progress", "step budget exhausted");
		}
		// a yield always lets the next runnable client go
		let (v, k) = s.runnable();
		if k > 1 {
			let pos = v[..k].iter().position(|t| *t == me).unwrap_or(0);
			let to = v[(pos + 1) % k];
			if to != me {
				hand_over(me, to);
			}
		}
		return 0;
	}
	raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}
