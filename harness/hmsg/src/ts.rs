//! C05: records timestamps taken at given times in a given zone; whether they are true is for the
//! caller to say. `/etc/localtime` and the real-time clock are replaced inside this process.

use crate::model::{check, fresh, Model};
use fyi_msg::Msg;
use hcommon::{json_str, text, Rng};
use std::ffi::{c_char, c_int, c_long, CStr, CString};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;

unsafe extern "C" { fn syscall(n: c_long, ...) -> c_long; }
const SYS_OPENAT: c_long = 257;
const SYS_CLOCK_GETTIME: c_long = 228;

static WALL: AtomicI64 = AtomicI64::new(i64::MIN);
static ZONE: OnceLock<CString> = OnceLock::new();
static OPENED: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut Timespec) -> c_int {
	let r = unsafe { syscall(SYS_CLOCK_GETTIME, clk as c_long, ts) } as c_int;
	let w = WALL.load(SeqCst);
	if r == 0 && clk == 0 && w != i64::MIN { unsafe { (*ts).sec = w; } }
	r
}

unsafe fn opened(path: *const c_char, flags: c_int, mode: u32) -> c_int {
	let mut p = path;
	if let Some(z) = ZONE.get() {
		if unsafe { CStr::from_ptr(path) } == c"/etc/localtime" { p = z.as_ptr(); OPENED.fetch_add(1, SeqCst); }
	}
	let r = unsafe { syscall(SYS_OPENAT, -100 as c_long, p, flags as c_long, mode as c_long) };
	r as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int { unsafe { opened(path, flags, mode) } }

/// Take the timestamp out of the rendering.
fn take(msg: &Msg, m: &mut Model, log: &str) -> Result<(), String> {
	let rest = msg.as_str().strip_prefix(m.indent.as_str()).ok_or_else(|| format!("{log}: {msg:?}"))?;
	let t = rest.strip_prefix("\x1b[2m[\x1b[0;34m").and_then(|x| x.get(..19)).ok_or_else(|| format!("{log}: no timestamp in {:?}", msg.as_str()))?;
	m.ts = format!("\x1b[2m[\x1b[0;34m{t}\x1b[0;2m]\x1b[0m ");
	check(msg, m).map_err(|e| format!("{log}: {e}"))
}

/// Reads times from the file named by `FYI_TIMES`, the zone's file from `FYI_ZONE`.
pub fn run(seed: u64, out: &str) -> ! {
	let times: Vec<i64> = std::fs::read_to_string(std::env::var("FYI_TIMES").unwrap()).unwrap().lines().map(|l| l.parse().unwrap()).collect();
	let _ = ZONE.set(CString::new(std::env::var("FYI_ZONE").unwrap()).unwrap());
	let mut r = Rng::mix(&[seed, 5]);
	let mut rows = Vec::new();
	let mut err = None;
	let mut k = 0;
	'outer: while k < times.len() {
		let (mut msg, mut m, mut log) = fresh(&mut r, 4);
		for _ in 0..r.range(1, 6) {
			let builder = r.bool();
			match r.below(9) {
				0 => { m.indent = "    ".to_owned(); msg.set_indent(1); log.push_str(" -> indent"); },
				1 => { m.msg = text(&mut r, 3); msg.set_msg(&m.msg); log.push_str(" -> msg"); },
				2 => { m.prefix = "A: ".to_owned(); msg.set_prefix("A"); log.push_str(" -> prefix"); },
				3 => { m.ts.clear(); log.push_str(" -> off"); if builder { msg = msg.with_timestamp(false); } else { msg.set_timestamp(false); } },
				4 => { m.suffix = text(&mut r, 2); msg.set_suffix(&m.suffix); log.push_str(" -> suffix"); },
				// Time passing does nothing by itself.
				5 => WALL.store(r.below(4_000_000_000) as i64, SeqCst),
				_ => {
					let Some(t) = times.get(k) else { break; };
					k += 1;
					log.push_str(" -> on");
					WALL.store(*t, SeqCst);
					if builder { msg = msg.with_timestamp(true); } else { msg.set_timestamp(true); }
					if let Err(e) = take(&msg, &mut m, &log) { err = Some(format!("time {t}: {e}")); break 'outer; }
					rows.push(format!("[{t},{}]", json_str(m.ts.get(12..31).unwrap_or(""))));
				},
			}
			if let Err(e) = check(&msg, &m) { err = Some(format!("time {k}: {log}: {e}")); break 'outer; }
		}
	}
	let e = err.as_deref().map_or("null".to_owned(), json_str);
	std::fs::write(out, format!("{{\"error\":{e},\"opened\":{},\"rows\":[{}]}}", OPENED.load(SeqCst), rows.join(","))).unwrap();
	std::process::exit(0);
}
