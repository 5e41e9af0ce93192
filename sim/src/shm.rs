//! Memory shared between a batch worker and the forked child that executes one
//! simulated run.  The child writes its outcome here as it goes, so a crash,
//! abort or hang still leaves the decisions taken so far.
use std::ptr;

pub const MAXT: usize = 8;
pub const MAX_TRACE: usize = 1 << 17;
pub const MSG: usize = 1 << 15;
pub const COV: usize = 1 << 16;
pub const NCOUNT: usize = 64;
pub const MAXOP: usize = 256;

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_DEADLOCK: u32 = 3;
pub const ST_BUDGET: u32 = 4;
pub const ST_HARNESS: u32 = 5;

#[repr(C)]
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct Decision {
	/// thread-local step count of `tid` at which the decision applies
	pub step: u32,
	pub tid: u8,
	pub kind: u8,
	pub to: u8,
	pub pad: u8,
}
pub const D_PREEMPT: u8 = 0;
pub const D_FORCED: u8 = 1;
pub const D_WAKE: u8 = 2;
pub const D_SPURIOUS: u8 = 3;

#[repr(C)]
pub struct Shm {
	pub status: u32,
	pub class_len: u32,
	pub steps: u64,
	pub switches: u64,
	pub preempts: u64,
	pub lock_waits: u64,
	pub sim_ns: u64,
	pub sched_hash: u64,
	pub log_hash: u64,
	pub counters: [u64; NCOUNT],
	pub inflight: [u32; MAXT],
	/// what each operation of each client observed, hashed
	pub oplog: [[u64; MAXOP]; MAXT],
	pub oplen: [u32; MAXT],
	/// the observable digest of faulty clients is kept too, but not compared
	pub states: [u8; COV],
	pub trace_len: u32,
	pub msg_len: u32,
	pub class: [u8; 128],
	pub msg: [u8; MSG],
	pub trace: [Decision; MAX_TRACE],
	/// accumulated over the whole batch of this worker
	pub cov: [u8; COV],
	pub pairs: [u8; COV],
}

pub static mut SHM: *mut Shm = ptr::null_mut();

pub fn create() -> *mut Shm {
	unsafe {
		let p = libc::mmap(
			ptr::null_mut(),
			std::mem::size_of::<Shm>(),
			libc::PROT_READ | libc::PROT_WRITE,
			libc::MAP_SHARED | libc::MAP_ANONYMOUS,
			-1,
			0,
		);
		if p == libc::MAP_FAILED {
			eprintln!("vsim: mmap failed");
			libc::_exit(3);
		}
		p as *mut Shm
	}
}
pub fn get() -> &'static mut Shm {
	unsafe { &mut *SHM }
}
pub fn reset(s: &mut Shm) {
	s.status = ST_RUNNING;
	s.class_len = 0;
	s.steps = 0;
	s.switches = 0;
	s.preempts = 0;
	s.lock_waits = 0;
	s.sim_ns = 0;
	s.sched_hash = 0;
	s.log_hash = 0;
	s.counters = [0; NCOUNT];
	s.inflight = [u32::MAX; MAXT];
	s.oplen = [0; MAXT];
	s.trace_len = 0;
	s.msg_len = 0;
}
pub fn fail(status: u32, class: &str, msg: &str) {
	let s = get();
	if s.status != ST_RUNNING {
		return;
	}
	let c = class.as_bytes();
	let n = c.len().min(s.class.len());
	s.class[..n].copy_from_slice(&c[..n]);
	s.class_len = n as u32;
	let m = msg.as_bytes();
	let n = m.len().min(MSG);
	s.msg[..n].copy_from_slice(&m[..n]);
	s.msg_len = n as u32;
	s.status = status;
}
pub fn class(s: &Shm) -> String {
	String::from_utf8_lossy(&s.class[..s.class_len as usize]).into_owned()
}
pub fn msg(s: &Shm) -> String {
	String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned()
}
pub fn count(i: usize, n: u64) {
	unsafe {
		if !SHM.is_null() {
			(*SHM).counters[i] += n;
		}
	}
}
