//! Calls of the standard library, intercepted.

use super::{Faults, Wr};
use hcommon::Rng;
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub static SEQ: AtomicU64 = AtomicU64::new(1);
static CAPTURE: AtomicBool = AtomicBool::new(false);
static NEXT_TID: AtomicU32 = AtomicU32::new(1000);
/// Clock shift of threads the monitor did not start (ns).
pub static SKEW: AtomicI64 = AtomicI64::new(0);
/// CLOCK_REALTIME override: seconds, or i64::MIN.
pub static WALL: AtomicI64 = AtomicI64::new(i64::MIN);

thread_local! {
	static OFF: Cell<i64> = const { Cell::new(i64::MIN) };
	static TID: Cell<u32> = const { Cell::new(0) };
}

/// Mark the calling thread as one of the monitor's own.
pub fn own(tid: u32) { OFF.with(|o| o.set(0)); TID.with(|t| t.set(tid)); DICE.with(|d| if d.get() == FRESH { d.set(0); }); }
/// Shift the monotonic clock of this thread.
pub fn shift(ns: i64) { OFF.with(|o| o.set(ns)); }

/// Threads hesitate where they allocate memory and read the clock: that often (per 1024), that long (busy turns).
pub static JITTER: AtomicU32 = AtomicU32::new(0);
thread_local! { static DICE: Cell<u64> = const { Cell::new(FRESH) }; }
const FRESH: u64 = u64::MAX;
/// Make hesitations of this thread a matter of the seed.
pub fn dice(seed: u64) { DICE.with(|d| d.set(if seed | 1 == FRESH { 1 } else { seed | 1 })); }

/// The next throw of a thread that takes part (the tickers do, in an order of their own).
fn throw() -> Option<u64> {
	DICE.try_with(|d| {
		let mut x = d.get();
		if x == FRESH { x = BREAKS.load(std::sync::atomic::Ordering::Relaxed).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1; }
		if x == 0 { return None; }
		x ^= x << 13;
		x ^= x >> 7;
		x ^= x << 17;
		if x == FRESH { x = 1; }
		d.set(x);
		Some(x)
	}).ok().flatten()
}

fn hesitate() {
	let j = JITTER.load(std::sync::atomic::Ordering::Relaxed);
	if j == 0 { return; }
	let Some(x) = throw() else { return; };
	if (x >> 20) as u32 % 1024 >= j { return; }
	match (x >> 40) % 8 {
		0 => unsafe { raw(libc::SYS_sched_yield, [0; 6]); },
		1 => for _ in 0..(x >> 44) % 20_000 { std::hint::spin_loop(); },
		_ => for _ in 0..(x >> 44) % 1500 { std::hint::spin_loop(); },
	}
}

/// Make a system call.
unsafe fn raw(n: libc::c_long, a: [libc::c_long; 6]) -> libc::c_long {
	let r: libc::c_long;
	unsafe {
		std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
			lateout("rcx") _, lateout("r11") _, options(nostack));
	}
	r
}

/// The locks wait and wake by this: threads may also take a break right after having made way for others.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: libc::c_long, b: libc::c_long, c: libc::c_long, d: libc::c_long, e: libc::c_long, f: libc::c_long) -> libc::c_long {
	let mut r = unsafe { raw(n, [a, b, c, d, e, f]) };
	if (-4095..0).contains(&r) { unsafe { set_errno(-r as i32); } r = -1; }
	if n == libc::SYS_futex && matches!(b as i32 & 0x7f, libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET) {
		// Slow to get up.
		let h = HOLD.load(SeqCst);
		if h != 0 && OFF.try_with(Cell::get) == Ok(i64::MIN) {
			let ts = libc::timespec { tv_sec: 0, tv_nsec: h };
			let e = unsafe { *libc::__errno_location() };
			unsafe { raw(libc::SYS_nanosleep, [(&raw const ts) as libc::c_long, 0, 0, 0, 0, 0]); set_errno(e); }
		}
	}
	if n == libc::SYS_futex && b as i32 & 0x7f == libc::FUTEX_WAKE && r > 0 {
		let j = JITTER.load(std::sync::atomic::Ordering::Relaxed);
		if j != 0 {
			BREAKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
			if let Some(x) = throw() {
				match (x >> 40) % 8 {
					0 => for _ in 0..(x >> 44) % 100_000 { std::hint::spin_loop(); },
					1 | 2 => {
						let ts = libc::timespec { tv_sec: 0, tv_nsec: ((x >> 44) % 300_000) as i64 };
						unsafe { raw(libc::SYS_nanosleep, [(&raw const ts) as libc::c_long, 0, 0, 0, 0, 0]); }
					},
					3 => unsafe { raw(libc::SYS_sched_yield, [0; 6]); },
					_ => {},
				}
			}
		}
	}
	r
}
/// How long (ns) the tickers take to do anything after waiting for something.
pub static HOLD: AtomicI64 = AtomicI64::new(0);
/// How often.
pub static BREAKS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

struct Hesitant;
unsafe impl std::alloc::GlobalAlloc for Hesitant {
	unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { hesitate(); unsafe { std::alloc::System.alloc(l) } }
	unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { hesitate(); unsafe { std::alloc::System.dealloc(p, l); } }
	unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { hesitate(); unsafe { std::alloc::System.realloc(p, l, n) } }
}
#[global_allocator]
static ALLOC: Hesitant = Hesitant;

fn tid() -> u32 {
	TID.try_with(|t| {
		if t.get() == 0 { t.set(NEXT_TID.fetch_add(1, SeqCst)); }
		t.get()
	}).unwrap_or(9999)
}

pub const fn quiet() -> bool { false }
pub fn seq() -> u64 { SEQ.fetch_add(1, SeqCst) }

/// The unshifted monotonic clock (ns).
pub fn now() -> u64 {
	let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
	unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &raw mut ts); }
	ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

struct Cap { log: Vec<Wr>, faults: Faults, rng: Option<Rng>, bytes: usize }
static CAP: Mutex<Cap> = Mutex::new(Cap { log: Vec::new(), faults: Faults { short: 0, eintr: 0, err: 0, zero: 0, fds: 0, delay: 0, delay_us: 0 }, rng: None, bytes: 0 });

fn cap() -> std::sync::MutexGuard<'static, Cap> { CAP.lock().unwrap_or_else(std::sync::PoisonError::into_inner) }

pub fn capture(on: bool) { CAPTURE.store(on, SeqCst); }
pub fn faults(f: Faults, seed: u64) { let mut c = cap(); c.faults = f; c.rng = Some(Rng::new(seed)); }
pub fn no_faults() { cap().faults = Faults::default(); }
pub fn take() -> Vec<Wr> { let mut c = cap(); c.bytes = 0; std::mem::take(&mut c.log) }
pub fn log_len() -> usize { cap().log.len() }
/// A copy of what came after the first `n` writes.
pub fn since(n: usize) -> Vec<Wr> { cap().log.get(n..).unwrap_or_default().to_vec() }

unsafe fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e; } }

pub const ERRS: [i32; 4] = [libc::EAGAIN, libc::EIO, libc::EPIPE, libc::ENOSPC];

fn captured(fd: i32, parts: &[&[u8]]) -> isize {
	let s = seq();
	let ts = now();
	let req: usize = parts.iter().map(|p| p.len()).sum();
	// Decide.
	let (mut n, mut err, mut delay) = (req, 0, 0);
	{
		let mut c = cap();
		let f = c.faults;
		if let Some(r) = c.rng.as_mut() {
			if f.delay != 0 && r.chance(f.delay, 1000) { delay = r.below(f.delay_us + 1); }
			if f.fds == 0 || f.fds & (1 << fd) != 0 {
				if f.err != 0 && r.chance(f.err, 1000) { err = *r.pick(&ERRS); }
				else if f.eintr != 0 && r.chance(f.eintr, 1000) { err = libc::EINTR; }
				else if f.zero != 0 && r.chance(f.zero, 1000) { n = 0; }
				else if f.short != 0 && req > 1 && r.chance(f.short, 1000) {
					n = if r.bool() { r.range(1, req.min(4)) } else { r.range(1, req) };
					if n > req { n = req; }
				}
			}
		}
	}
	if delay != 0 { std::thread::sleep(std::time::Duration::from_micros(delay as u64)); }
	if err != 0 { n = 0; }
	let want = parts.concat();
	let data = want[..n].to_vec();
	let w = Wr { fd, tid: tid(), s, e: 0, ts, te: 0, want, data, err, lost: false };
	{
		let mut c = cap();
		// Guard against endless output.
		if c.bytes < 64_000_000 {
			c.bytes += w.data.len() + 64;
			c.log.push(Wr { e: seq(), te: now(), ..w });
		}
	}
	if err != 0 { unsafe { set_errno(err); } -1 } else { n as isize }
}

fn wanted(fd: i32) -> bool { (fd == 1 || fd == 2) && CAPTURE.load(SeqCst) }

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
	if wanted(fd) { return captured(fd, &[unsafe { std::slice::from_raw_parts(buf, n) }]); }
	unsafe { libc::syscall(libc::SYS_write, fd, buf, n) as isize }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
	if wanted(fd) {
		let v = unsafe { std::slice::from_raw_parts(iov, cnt as usize) };
		let parts: Vec<&[u8]> = v.iter().map(|i| if i.iov_len == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(i.iov_base.cast(), i.iov_len) } }).collect();
		return captured(fd, &parts);
	}
	unsafe { libc::syscall(libc::SYS_writev, fd, iov, cnt) as isize }
}

/// Scripted standard input.
#[derive(Debug, Clone)]
pub enum In { Data(Vec<u8>), Eof, Err(i32) }
static STDIN: Mutex<Option<VecDeque<In>>> = Mutex::new(None);
/// When input was asked for.
pub static READ_LOG: Mutex<Vec<u64>> = Mutex::new(Vec::new());

pub fn script(s: Option<VecDeque<In>>) { *STDIN.lock().unwrap_or_else(std::sync::PoisonError::into_inner) = s; }

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
	if fd == 0 {
		let mut g = STDIN.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
		if let Some(q) = g.as_mut() {
			if let Ok(mut l) = READ_LOG.lock() { l.push(seq()); }
			match q.pop_front() {
				None | Some(In::Eof) => return 0,
				Some(In::Err(e)) => { unsafe { set_errno(e); } return -1; },
				Some(In::Data(mut d)) => {
					let k = d.len().min(n);
					unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), buf, k); }
					if k < d.len() { q.push_front(In::Data(d.split_off(k))); }
					return k as isize;
				},
			}
		}
	}
	unsafe { libc::syscall(libc::SYS_read, fd, buf, n) as isize }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
	let r = unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) } as i32;
	if r != 0 { return r; }
	if clk == libc::CLOCK_MONOTONIC {
		hesitate();
		let off = OFF.try_with(Cell::get).unwrap_or(0);
		let off = if off == i64::MIN { SKEW.load(SeqCst) } else { off };
		if off != 0 {
			unsafe {
				let t = (*ts).tv_sec * 1_000_000_000 + (*ts).tv_nsec + off;
				(*ts).tv_sec = t.div_euclid(1_000_000_000);
				(*ts).tv_nsec = t.rem_euclid(1_000_000_000);
			}
		}
	}
	else if clk == libc::CLOCK_REALTIME {
		let w = WALL.load(SeqCst);
		if w != i64::MIN { unsafe { (*ts).tv_sec = w; } }
	}
	0
}

/// A pseudo-terminal pair.
pub struct Pty { pub master: i32, pub slave: i32 }

impl Pty {
	pub fn new() -> Self {
		unsafe {
			let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
			assert!(master >= 0 && libc::grantpt(master) == 0 && libc::unlockpt(master) == 0, "no pseudo-terminal");
			let mut name = [0_i8; 128];
			assert!(libc::ptsname_r(master, name.as_mut_ptr().cast(), 128) == 0);
			let slave = libc::open(name.as_ptr().cast(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
			assert!(slave >= 0, "no pseudo-terminal");
			Self { master, slave }
		}
	}
	pub fn size(&self, cols: u16, rows: u16) {
		let ws = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
		unsafe { assert!(libc::ioctl(self.slave, libc::TIOCSWINSZ, &raw const ws) == 0); }
	}
	/// Make it standard error.
	pub fn install(&self) { unsafe { assert!(libc::dup2(self.slave, 2) == 2); } }
}

/// Point standard error at /dev/null.
pub fn no_tty() {
	unsafe {
		let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC);
		libc::dup2(n, 2);
		libc::close(n);
	}
}
