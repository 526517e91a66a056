//! A program with a progress bar, to be interrupted: hsig POLICIES WORK ONKILL THREADS SEED DELAY_US
//! Reports on descriptor 3; ends when its standard input does.

use fyi_msg::{Msg, MsgKind, Progless};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

static DELAY: AtomicU64 = AtomicU64::new(0);
static DICE: AtomicU64 = AtomicU64::new(1);
static QUIT: AtomicBool = AtomicBool::new(false);
static HIT: AtomicBool = AtomicBool::new(false);
static CREATED: AtomicU32 = AtomicU32::new(0);

fn dice() -> u64 {
	let mut x = DICE.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst);
	x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	x ^ (x >> 31)
}

/// Writes to standard error start late, now and then.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
	let d = DELAY.load(SeqCst);
	if fd == 2 && d != 0 && dice() % 3 == 0 {
		let ts = libc::timespec { tv_sec: 0, tv_nsec: (dice() % (d * 1000)) as i64 };
		unsafe { libc::nanosleep(&raw const ts, std::ptr::null_mut()); }
	}
	unsafe { libc::syscall(libc::SYS_write, fd, buf, n) as isize }
}

fn event(s: &str) {
	let s = format!("{s}\n");
	unsafe { libc::syscall(libc::SYS_write, 3, s.as_ptr(), s.len()); }
}
fn ms(n: u64) { std::thread::sleep(Duration::from_millis(n)); }
fn us(n: u64) { if n > 0 { std::thread::sleep(Duration::from_micros(n)); } }

fn caught() -> bool {
	std::fs::read_to_string("/proc/self/status").unwrap_or_default().lines()
		.find_map(|l| l.strip_prefix("SigCgt:").map(|v| u64::from_str_radix(v.trim(), 16).unwrap_or(0) & 2 != 0)).unwrap_or(false)
}

fn bar(total: u32) -> Progless {
	CREATED.fetch_add(1, SeqCst);
	let p = Progless::try_from(total).unwrap();
	p.set_title(Some(Msg::new(MsgKind::Task, "Working")));
	p
}

/// Work on a bar somebody else owns, until it is over.
fn help(p: &Progless, work: &str, stop: &AtomicBool, who: usize) {
	let mut i = 0_u64;
	while ! stop.load(SeqCst) {
		i += 1;
		match work {
			"inc" => { p.increment(); us(dice() % 50); },
			"tasks" => {
				let t = format!("{who} task {}", dice() % 7);
				if dice() % 2 == 0 { let _res = p.add(&t); } else { p.remove(&t); }
				us(dice() % 300);
			},
			"push" => {
				let m = Msg::new(MsgKind::Info, "x".repeat((dice() % 300) as usize)).with_newline(true);
				match dice() % 3 { 0 => { let _res = p.push_msg(m); }, 1 => m.eprint(), _ => m.print() }
				us(dice() % 2000);
			},
			"lock" => {
				let mut h = std::io::stderr().lock();
				us(dice() % 1500);
				let _res = h.write_all(b"Mine.\n").and_then(|()| h.flush());
				us(dice() % 500);
				drop(h);
				us(dice() % 500);
			},
			_ => ms(1 + i % 3),
		}
	}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let (policies, work, onkill) = (a[1].clone(), a[2].clone(), a[3].clone());
	let threads: usize = a[4].parse().unwrap();
	DICE.store(a[5].parse::<u64>().unwrap().wrapping_mul(0xD129_0DDC_53C4_3E49), SeqCst);
	DELAY.store(a[6].parse().unwrap(), SeqCst);
	std::panic::set_hook(Box::new(|i| event(&format!("panic {}", i.to_string().replace('\n', " ")))));

	// In the order asked for; the first decides.
	let mut first: Option<Progless> = None;
	let mut switches: Vec<&'static Arc<AtomicBool>> = Vec::new();
	for p in policies.split(',') {
		match p {
			"two" => switches.push(Progless::sigint_two_strike()),
			"keep" => switches.push(Progless::sigint_keepalive()),
			_ => if first.is_none() {
				first = Some(bar(4_000_000_000));
				for _ in 0..5000 { if caught() { break; } ms(1); }
			},
		}
	}
	if ! switches.windows(2).all(|w| Arc::ptr_eq(w[0], w[1])) { event("different switches"); }
	if switches.iter().any(|s| s.load(SeqCst)) { event("set from the start"); }
	let switch = switches.first().copied();
	std::thread::spawn(move || {
		let mut b = [0_u8; 1];
		loop {
			let n = unsafe { libc::read(0, b.as_mut_ptr().cast(), 1) };
			if n == 0 { QUIT.store(true, SeqCst); return; }
		}
	});
	std::thread::spawn(move || {
		let Some(s) = switch else { return; };
		while ! s.load(SeqCst) { us(300); }
		HIT.store(true, SeqCst);
		event("switch");
		// It stays that way.
		loop { us(500); if ! s.load(SeqCst) { event("switch off"); return; } }
	});
	event("ready");

	let over = || QUIT.load(SeqCst) || (onkill == "stop" && HIT.load(SeqCst));
	match work.as_str() {
		// No bar at all.
		"none" => { if let Some(p) = first.take() { p.finish(); } while ! over() { us(500); } },
		// One after the other.
		"churn" => {
			drop(first.take());
			while ! over() {
				let p = bar(5);
				us(dice() % 400);
				match dice() % 4 {
					0 => { p.finish(); },
					1 => p.increment_n(5),
					2 => { ms(dice() % 120); },
					_ => {},
				}
			}
		},
		"reset" => {
			let p = first.take().unwrap_or_else(|| bar(10));
			while ! over() {
				let _res = p.try_reset(10_u32);
				us(dice() % 400);
				match dice() % 3 { 0 => { p.finish(); }, 1 => p.increment_n(10), _ => {} }
				us(dice() % 400);
			}
			p.finish();
		},
		// Another run after the interruption.
		"again" => {
			let p = first.take().unwrap_or_else(|| bar(1000));
			while ! over() && ! HIT.load(SeqCst) { us(500); }
			if HIT.load(SeqCst) && ! over() {
				let new = dice() % 2 == 0;
				if dice() % 2 == 0 { ms(dice() % 350); }
				if new { p.finish(); }
				let q = if new { Some(bar(1000)) } else { p.finish(); let _res = p.try_reset(1000_u32); None };
				event("again");
				while ! over() { us(500); }
				if let Some(q) = q { q.finish(); }
			}
			p.finish();
		},
		_ => {
			let p = first.take().unwrap_or_else(|| bar(4_000_000_000));
			let stop = AtomicBool::new(false);
			std::thread::scope(|s| {
				for k in 0..threads {
					let (p, work, stop) = (&p, &work, &stop);
					s.spawn(move || help(p, work, stop, k));
				}
				if threads == 0 {
					// The main thread works itself, in short turns.
					while ! over() {
						let once = AtomicBool::new(false);
						let t = &once;
						std::thread::scope(|s| { s.spawn(move || { ms(5); t.store(true, SeqCst); }); help(&p, &work, &once, 9); });
					}
				}
				while ! over() { ms(1); }
				stop.store(true, SeqCst);
			});
			event("ending");
			p.finish();
		},
	}
	event("finished");
	if QUIT.load(SeqCst) || onkill == "stop" {
		// Long enough for somebody to undo something.
		ms(15);
	}
	event(&format!("done {}", switch.is_some_and(|s| s.load(SeqCst))));
}
