//! Monitors of the running program: hrt <property> <seed> <secs> <out.json> [case]

mod bar;
mod duel;
mod frame;
mod io;
mod lin;
mod oracle;
mod print;
mod ship;
mod vt;
mod work;

use hcommon::{json_str, Rng};
use oracle::{viol, Viol};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use work::*;

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static BEGAN: AtomicU64 = AtomicU64::new(0);

fn cpu_ticks() -> u64 {
	let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
	let t: Vec<&str> = s.rsplit_once(')').map_or("", |x| x.1).split_whitespace().collect();
	t.get(11).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) + t.get(12).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0)
}

struct Out { viols: Vec<(u64, String)>, evals: u64, distinct: HashSet<u64>, counts: BTreeMap<&'static str, u64>, samples: Vec<String> }

fn dump(o: &Out, path: &str) {
	let mut j = String::from("{\"violations\":[");
	for (k, (i, e)) in o.viols.iter().enumerate() {
		if k > 0 { j.push(','); }
		let _ = write!(j, "{{\"case\":{i},\"what\":{}}}", json_str(&format!("case {i}: {e}")));
	}
	let _ = write!(j, "],\"evaluations\":{},\"distinct\":{},\"counts\":{{", o.evals, o.distinct.len());
	for (k, (a, b)) in o.counts.iter().enumerate() {
		if k > 0 { j.push(','); }
		let _ = write!(j, "{}:{b}", json_str(a));
	}
	j.push_str("},\"samples\":[");
	for (k, a) in o.samples.iter().enumerate() {
		if k > 0 { j.push(','); }
		j.push_str(&json_str(a));
	}
	j.push_str("]}");
	std::fs::write(path, j).unwrap();
}

/// Smaller ones for the interpreter, all about interleavings.
#[cfg(miri)]
fn case(prop: &str, env: &mut Env, r: &mut Rng) -> Case {
	let q = Conc { threads: 3, ops: 5, ends: 60, finishers: 1, pushes: 2, tasks: 2, titles: 1, incs: 4, delay: false, any_size: false, sets: 0 };
	let p = Profile { weights: [8, 4, 3, 6, 5, 2, 1, 1, 0, 2, 2, 1, 6, 0, 1, 1, 3], ops: 8, labels: 4, any_size: false, tty: 97, faults: 0, min_total: 1, push_every: 5, crowd: false };
	match prop {
		"C12" | "C13" if r.bool() => duel::duel_case(env, r, false),
		"C19" if r.chance(1, 3) => duel::duel_case(env, r, true),
		"C12" => conc_case(env, r, &Conc { pushes: 0, titles: 0, finishers: 2, ..q }),
		"C13" => conc_case(env, r, &Conc { tasks: 8, pushes: 1, ..q }),
		"C14" => match r.below(3) { 0 => mixed_case(env, r), 1 => burst_case(env, r), _ => conc_case(env, r, &q) },
		"C16" => conc_case(env, r, &Conc { finishers: 2, ends: 70, pushes: 4, ..q }),
		"C17" => conc_case(env, r, &Conc { pushes: 8, ..q }),
		"C18" => if r.chance(2, 3) { race_case(env, r) } else { burst_case(env, r) },
		"C19" => if r.chance(3, 4) { storm_case(env, r) } else { seq_case(env, r, &p) },
		"C22" => if ! io::quiet() && r.chance(1, 4) { conc_case(env, r, &q) } else { storm_case(env, r) },
		_ => panic!("unknown property {prop}"),
	}
}

/// With a terminal that changes its size.
#[cfg(not(miri))]
fn resized(p: &mut Profile, r: &mut Rng) {
	p.weights[13] = r.range(2, 10);
	p.weights[16] = r.range(3, 8);
	p.tty = 100;
	p.any_size = true;
}

#[cfg(not(miri))]
fn case(prop: &str, env: &mut Env, r: &mut Rng) -> Case {
	let mut p = Profile::basic();
	let mut q = Conc { threads: 5, ops: 20, ends: 50, finishers: 1, pushes: 2, tasks: 4, titles: 1, incs: 6, delay: true, any_size: false, sets: 0 };
	match prop {
		"C06" => print::print_case(env, r),
		"C07" => print::prompt_case(env, r),
		"C11" => print::total_case(env, r),
		"C12" => match r.below(6) {
			4 | 5 => duel::duel_case(env, r, false),
			0 => { p.weights = [12, 10, 8, 6, 6, 0, 0, 0, 0, 3, 8, 1, 3, 0, 1, 1, 1]; seq_case(env, r, &p) },
			1 => { q = Conc { threads: 8, ops: 60, ends: 50, finishers: 1, pushes: 0, tasks: 1, titles: 0, incs: 12, ..q }; conc_case(env, r, &q) },
			_ => { q.finishers = 2; conc_case(env, r, &q) },
		},
		"C13" => match r.below(5) {
			3 | 4 => duel::duel_case(env, r, false),
			0 => { p.weights = [1, 1, 1, 16, 14, 1, 0, 0, 0, 8, 4, 1, 2, 0, 1, 1, 1]; p.labels = 8; p.any_size = r.chance(1, 4); seq_case(env, r, &p) },
			1 => { p.weights = [1, 1, 0, 16, 12, 1, 0, 0, 0, 4, 1, 0, 1, 0, 0, 0, 1]; p.labels = 60; p.min_total = 50; p.any_size = false; seq_case(env, r, &p) },
			_ => { q = Conc { tasks: 10, incs: 2, finishers: usize::from(r.bool()), ..q }; conc_case(env, r, &q) },
		},
		"C14" => match r.below(4) {
			0 => { q.any_size = r.bool(); conc_case(env, r, &q) },
			1 => mixed_case(env, r),
			_ => { if r.chance(1, 3) { resized(&mut p, r); } seq_case(env, r, &p) },
		},
		"C15" => match r.below(5) {
			0 => { q.any_size = true; conc_case(env, r, &q) },
			_ => { p.weights = [6, 6, 3, 12, 4, 6, 4, 4, 1, 10, 0, 1, 2, 0, 0, 0, 2]; p.tty = 100; p.labels = 20; p.ops = 25; if r.chance(1, 8) { p.crowd = true; p.min_total = 1000; } if r.chance(1, 6) { resized(&mut p, r); } seq_case(env, r, &p) },
		},
		"C16" => match r.below(4) {
			0 => { p.ops = 12; seq_case(env, r, &p) },
			_ => { q = Conc { threads: 5, ops: 12, ends: 60, finishers: 2, pushes: 8, tasks: 3, titles: 2, incs: 5, delay: true, any_size: false, sets: 0 }; conc_case(env, r, &q) },
		},
		"C17" => match r.below(6) {
			0 | 1 => { p.weights[9] = 40; p.tty = 80; p.faults = r.below(3); seq_case(env, r, &p) },
			2 => storm_case(env, r),
			_ => { q = Conc { threads: 6, ops: 20, ends: 50, finishers: 1, pushes: 12, tasks: 2, titles: 1, incs: 3, delay: true, any_size: r.bool(), sets: 0 }; conc_case(env, r, &q) },
		},
		"C18" => match r.below(8) { 0..=2 => burst_case(env, r), 3..=5 => race_case(env, r), _ => { let resize = r.chance(1, 3); settle_case(env, r, resize) } },
		"C19" => match r.below(14) {
			11..=13 => duel::duel_case(env, r, true),
			0 => { let mut c = settle_case(env, r, false); c.add("settle cases", 1); c },
			1 | 2 => storm_case(env, r),
			3 => duel::duel_case(env, r, true),
			4 => if r.bool() { twins_case(env, r) } else { race_case(env, r) },
			_ => { p.weights = [6, 5, 3, 8, 5, 2, 1, 1, 1, 8, 4, 4, 14, 0, 1, 1, 3]; if r.chance(1, 6) { resized(&mut p, r); } seq_case(env, r, &p) },
		},
		"C21" => match r.below(2) {
			0 => settle_case(env, r, true),
			_ => { p.weights = [6, 6, 3, 10, 4, 4, 2, 2, 1, 10, 0, 1, 2, 10, 0, 0, 8]; p.tty = 100; seq_case(env, r, &p) },
		},
		"C22" => if r.chance(1, 6) { conc_case(env, r, &q) } else { storm_case(env, r) },
		"C24" => { p.weights = [8, 8, 4, 4, 4, 0, 0, 0, 0, 1, 20, 1, 4, 0, 1, 1, 1]; seq_case(env, r, &p) },
		"C29" => match r.below(3) {
			0 => { q.pushes = 6; conc_case(env, r, &q) },
			_ => { p.weights[9] = 20; p.faults = 2; p.ops = 30; p.tty = 97; seq_case(env, r, &p) },
		},
		_ => panic!("unknown property {prop}"),
	}
}

/// Under Miri: hrt <property> <seed> <first case> <cases> <quiet>, everything to standard output.
#[cfg(miri)]
fn main() {
	let a: Vec<String> = std::env::args().collect();
	static PROP: std::sync::OnceLock<String> = std::sync::OnceLock::new();
	let prop: &'static str = PROP.get_or_init(|| a[1].clone());
	let seed: u64 = a[2].parse().unwrap();
	let first: u64 = a[3].parse().unwrap();
	let cases: u64 = a[4].parse().unwrap();
	io::QUIET.store(a[5] == "1", SeqCst);
	std::panic::set_hook(Box::new(|i| {
		PANICS.lock().unwrap_or_else(std::sync::PoisonError::into_inner).push(format!("{i}"));
	}));
	static PTY: io::Pty = io::Pty;
	let pty = &PTY;
	let refs = Ref::start();
	static DONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
	let dog = std::thread::spawn(|| {
		let (mut last, mut n) = (u64::MAX, 0);
		while ! DONE.load(SeqCst) {
			std::thread::sleep(std::time::Duration::from_millis(500));
			let c = CASE.load(SeqCst);
			if c == last { n += 1; } else { last = c; n = 0; }
			if n > 1200 { println!("STUCK {c}"); std::process::exit(3); }
		}
	});
	let mut env = Env { pty, base: 0, refs, late: (0, 0) };
	let tagh = prop.bytes().fold(7_u64, |a, b| a.wrapping_mul(31) + u64::from(b));
	for i in first..first + cases {
		CASE.store(i, SeqCst);
		println!("BEGIN {i}");
		let mut r = Rng::mix(&[seed, tagh, i]);
		let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(prop, &mut env, &mut r)));
		io::capture(false);
		let mut c = res.unwrap_or_default();
		for p in std::mem::take(&mut *PANICS.lock().unwrap()) { c.viols.push(viol(&["C06", "C07", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C24", "C29"], format!("panic: {p}"))); }
		for v in &c.viols { println!("VIOL {}|{}", v.tags.join(" "), v.what.escape_debug()); }
		println!("END {i} {:x}", c.shape);
	}
	DONE.store(true, SeqCst);
	env.refs.stop();
	let _ = dog.join();
	io::restore();
	println!("DONE");
}

/// Judge what was seen under Miri: hrt judge <property> <file> <out.json>
#[cfg(not(miri))]
fn judged(prop: &'static str, file: &str, path: &str) -> ! {
	let all = std::fs::read(file).unwrap();
	let mut all = all.as_slice();
	let mut o = Out { viols: Vec::new(), evals: 0, distinct: HashSet::new(), counts: BTreeMap::new(), samples: Vec::new() };
	let mut now = 0;
	let mut c = Case::default();
	while let Some(k) = all.iter().position(|c| *c == b'\n') {
		let l = String::from_utf8_lossy(&all[..k]).into_owned();
		let l = l.as_str();
		all = &all[k + 1..];
		if let Some(x) = l.strip_prefix("BEGIN ") { now = x.parse().unwrap(); c = Case::default(); }
		else if let Some(x) = l.strip_prefix("SHIP ") {
			let (k, n) = x.split_at(1);
			let n: usize = n.parse().unwrap();
			if all.len() <= n { break; }
			let mut i = ship::In::new(&all[..n]);
			all = &all[n + 1..];
			match k {
				"J" => { let (t, q, log) = (i.timeline(), i.opts(), i.log()); let s = oracle::judge(&t, &log, &q, &mut c.viols); c.seen(&s); },
				"L" => { let (resets, total) = (i.b(), i.u() as u32); let all = i.calls(); let h = duel::judged(&mut c, resets, total, &all); o.distinct.insert(h); },
				"S" => { let (m, z, log) = (i.msgs(), i.size(), i.log()); stream(&mut c, &m, z, false, &log); },
				_ => {
					let (t, z, log, a, ta) = (i.timeline(), i.size(), i.log(), i.u(), i.u());
					c.add("settled", 1);
					if let Err(e) = shows(&t, z, &log, a, ta) { c.viols.push(viol(&["C14", "C18", "C19"], format!("not on the screen after ten tick periods: {e}"))); }
				},
			}
		}
		else if let Some(x) = l.strip_prefix("VIOL ") {
			let (tags, what) = x.split_once('|').unwrap();
			if tags.split(' ').any(|t| t == prop) { c.viols.push(viol(&[], what.to_owned())); }
		}
		else if let Some(x) = l.strip_prefix("END ") {
			o.evals += 1;
			let shape = x.split(' ').nth(1).unwrap();
			o.distinct.insert(work::hash(shape));
			for (k, n) in &c.counts { *o.counts.entry(k).or_insert(0) += n; }
			if let Some(v) = c.viols.iter().find(|v| v.tags.is_empty() || v.tags.contains(&prop)) {
				o.viols.push((now, v.what.clone()));
			}
		}
	}
	dump(&o, path);
	std::process::exit(i32::from(! o.viols.is_empty()));
}

#[cfg(not(miri))]
fn main() {
	let a: Vec<String> = std::env::args().collect();
	if a.len() == 5 && a[1] == "judge" { judged(Box::leak(a[2].clone().into_boxed_str()), &a[3], &a[4]); }
	if a.len() < 5 { eprintln!("usage: hrt PROPERTY SEED SECS OUT [CASE]"); std::process::exit(2); }
	let prop: &'static str = Box::leak(a[1].clone().into_boxed_str());
	let seed: u64 = a[2].parse().unwrap_or(1);
	let secs: u64 = a[3].parse().unwrap_or(10);
	let path: &'static str = Box::leak(a[4].clone().into_boxed_str());
	let only: Option<u64> = a.get(5).and_then(|v| v.parse().ok());
	io::own(1);
	std::panic::set_hook(Box::new(|i| {
		let who = std::thread::current().name().unwrap_or("unnamed").to_owned();
		PANICS.lock().unwrap_or_else(std::sync::PoisonError::into_inner).push(format!("thread {who}: {i}"));
	}));
	let pty: &'static io::Pty = Box::leak(Box::new(io::Pty::new()));
	let refs = Ref::start();
	// Whoever does not come back.
	std::thread::spawn(move || {
		io::own(4);
		let (mut last, mut since, mut cpu0) = (u64::MAX, std::time::Instant::now(), 0);
		loop {
			std::thread::sleep(std::time::Duration::from_millis(500));
			let c = CASE.load(SeqCst);
			if c != last || c == u64::MAX { last = c; since = std::time::Instant::now(); cpu0 = cpu_ticks(); continue; }
			let wall = since.elapsed().as_secs();
			let burnt = cpu_ticks() - cpu0;
			// Nobody runs any more, or somebody runs all the time.
			let stuck = wall >= 60 && burnt < 300 || burnt > 9000 && wall >= 60;
			if stuck {
				let o = Out { viols: vec![(c, format!("does not return after {wall} s ({} s of CPU time): deadlock or endless loop", burnt / 100))], evals: 0, distinct: HashSet::new(), counts: BTreeMap::new(), samples: Vec::new() };
				dump(&o, path);
				std::process::exit(1);
			}
		}
	});
	std::thread::sleep(std::time::Duration::from_millis(50));
	let mut env = Env { pty, base: threads(), refs, late: (0, 0) };
	let mut o = Out { viols: Vec::new(), evals: 0, distinct: HashSet::new(), counts: BTreeMap::new(), samples: Vec::new() };
	let begin = std::time::Instant::now();
	let tagh = prop.bytes().fold(7_u64, |a, b| a.wrapping_mul(31) + u64::from(b));
	let mut i = only.unwrap_or(0);
	while begin.elapsed().as_secs() < secs {
		BEGAN.store(begin.elapsed().as_secs(), SeqCst);
		CASE.store(i, SeqCst);
		let mut r = Rng::mix(&[seed, tagh, i]);
		let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(prop, &mut env, &mut r)));
		CASE.store(u64::MAX, SeqCst);
		io::capture(false);
		let mut c = res.unwrap_or_default();
		for p in std::mem::take(&mut *PANICS.lock().unwrap()) {
			c.viols.push(viol(&["C06", "C07", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C24", "C29"], format!("panic: {p}")));
		}
		if prop == "C16" && o.evals % 50 == 49 { finish_speed(&mut c); }
		if prop == "C16" && o.evals % 200 == 20 { linger(&env, &mut r, &mut c); }
		o.evals += 1;
		o.distinct.insert(c.shape);
		for (k, n) in &c.counts { *o.counts.entry(k).or_insert(0) += n; }
		if o.samples.len() < 2 && c.trace.len() > 60 { o.samples.push(c.trace.chars().take(500).collect()); }
		let mine: Vec<&Viol> = c.viols.iter().filter(|v| v.tags.contains(&prop)).collect();
		if c.viols.len() > mine.len() { *o.counts.entry("observations that concern other properties").or_insert(0) += (c.viols.len() - mine.len()) as u64; }
		if only.is_some() || std::env::var_os("HRT_ALL").is_some() { for v in &c.viols { println!("{i}: {:?} {}", v.tags, v.what.chars().take(600).collect::<String>()); } }
		if only.is_some() { for v in &c.viols { println!("{:?} {}", v.tags, v.what); } println!("{}", c.trace); }
		if let Some(v) = mine.first() { o.viols.push((i, format!("{} [{}]", v.what, c.trace.chars().take(3000).collect::<String>()))); }
		if o.viols.len() >= 3 || only.is_some() { break; }
		i += 1;
	}
	o.counts.insert("pauses made right after waking a waiting thread", io::BREAKS.load(SeqCst));
	dump(&o, path);
	std::process::exit(i32::from(! o.viols.is_empty()));
}
