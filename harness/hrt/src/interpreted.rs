//! The same for Miri, which lets nobody between the standard library and the system: standard error is a
//! pipe, emptied at every event. Time is virtual there, and terminals are stand-ins.

use super::{Faults, Wr};
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};

pub static SKEW: AtomicI64 = AtomicI64::new(0);
pub static WALL: AtomicI64 = AtomicI64::new(i64::MIN);
/// Leave no trace that might order the threads.
pub static QUIET: AtomicBool = AtomicBool::new(false);

thread_local! {
	static LOCAL: Cell<u64> = const { Cell::new(0) };
}

struct Cap { seq: u64, log: Vec<Wr>, on: bool, fd: i32, old: i32 }
static CAP: Mutex<Cap> = Mutex::new(Cap { seq: 1, log: Vec::new(), on: false, fd: -1, old: -1 });
static EPOCH: OnceLock<std::time::Instant> = OnceLock::new();

pub static JITTER: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub fn dice(_seed: u64) {}
pub fn own(_tid: u32) {}
pub fn shift(_ns: i64) {}
pub fn now() -> u64 { EPOCH.get_or_init(std::time::Instant::now).elapsed().as_nanos() as u64 + 1_000_000_000 }

fn cap() -> std::sync::MutexGuard<'static, Cap> { CAP.lock().unwrap_or_else(std::sync::PoisonError::into_inner) }

impl Cap {
	/// What was written since the last event.
	fn drain(&mut self) {
		if self.fd < 0 { return; }
		let mut buf = [0_u8; 4096];
		let mut all = Vec::new();
		loop {
			let n = unsafe { libc::read(self.fd, buf.as_mut_ptr().cast(), buf.len()) };
			if n <= 0 { break; }
			all.extend_from_slice(&buf[..n as usize]);
		}
		if all.is_empty() || ! self.on { return; }
		self.seq += 2;
		let t = now();
		self.log.push(Wr { fd: 2, tid: 9999, s: self.seq - 1, e: self.seq - 1, ts: t, te: t, want: all.clone(), data: all, err: 0, lost: false });
	}
}

pub fn quiet() -> bool { QUIET.load(SeqCst) }
pub fn seq() -> u64 {
	if QUIET.load(std::sync::atomic::Ordering::Relaxed) { return LOCAL.with(|l| { l.set(l.get() + 1); l.get() }); }
	let mut c = cap();
	c.drain();
	c.seq += 1;
	c.seq
}

pub fn capture(on: bool) {
	let mut c = cap();
	c.drain();
	c.on = on;
}
pub fn faults(_f: Faults, _seed: u64) {}
pub fn no_faults() {}
pub fn take() -> Vec<Wr> { let mut c = cap(); c.drain(); std::mem::take(&mut c.log) }
pub fn log_len() -> usize { let mut c = cap(); c.drain(); c.log.len() }
pub fn since(n: usize) -> Vec<Wr> { let mut c = cap(); c.drain(); c.log.get(n..).unwrap_or_default().to_vec() }

pub const ERRS: [i32; 1] = [libc::EIO];
#[derive(Debug, Clone)]
pub enum In { Data(Vec<u8>), Eof, Err(i32) }
pub static READ_LOG: Mutex<Vec<u64>> = Mutex::new(Vec::new());
pub fn script(_s: Option<VecDeque<In>>) {}

pub struct Pty;
impl Pty {
	pub fn new() -> Self { Self }
	pub fn size(&self, cols: u16, rows: u16) { terminal_size::set(cols, rows); }
	pub fn install(&self) {
		let mut c = cap();
		let quiet = QUIET.load(SeqCst);
		if c.old < 0 { c.old = unsafe { libc::dup(2) }; }
		if ! quiet && c.fd < 0 {
			let mut p = [0; 2];
			unsafe {
				assert!(libc::pipe2(p.as_mut_ptr(), libc::O_NONBLOCK) == 0);
				assert!(libc::dup2(p[1], 2) == 2);
				libc::close(p[1]);
			}
			c.fd = p[0];
		}
	}
}
pub fn no_tty() { terminal_size::set(0, 0); }
/// Errors are seen again.
pub fn restore() {
	let mut c = cap();
	if c.old >= 0 { unsafe { libc::dup2(c.old, 2); } }
}
