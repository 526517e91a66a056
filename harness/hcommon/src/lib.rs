//! Shared pieces of the monitors: seeded randomness, hostile text generation, an
//! independent escape sequence scanner, and the case runner (parallel, panic- and
//! hang-aware, writing its results as JSON).

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// SplitMix64/xorshift generator.
#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Self(seed ^ 0x9E37_79B9_7F4A_7C15);
		r.next();
		r
	}
	pub fn mix(parts: &[u64]) -> Self {
		let mut h = 0xcbf2_9ce4_8422_2325_u64;
		for p in parts { h = (h ^ p).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23) ^ (p >> 7); }
		Self::new(h)
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	/// 0..n
	pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
	/// lo..=hi
	pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
	pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
	pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
	pub fn pick<'a, T>(&mut self, list: &'a [T]) -> &'a T { &list[self.below(list.len())] }
	pub fn u64_any(&mut self) -> u64 {
		match self.below(8) {
			0 => 0,
			1 => self.below(20) as u64,
			2 => u64::MAX - self.below(3) as u64,
			3 => (1_u64 << self.below(64)).wrapping_add(self.below(3) as u64).wrapping_sub(1),
			4 => u64::from(u32::MAX) - 2 + self.below(5) as u64,
			5 => self.next() >> self.below(64),
			6 => 10_u64.pow(self.below(20) as u32).wrapping_sub(self.below(2) as u64),
			_ => self.next(),
		}
	}
}

/// One random piece of text; the mix is heavy on things that go wrong.
pub fn piece(r: &mut Rng, out: &mut String) {
	match r.below(34) {
		0..=5 => out.push_str(r.pick(&["a", "Hello", "World", " ", "  ", "xyz ", "0", "m", "[", "]", "[0m", "]8;;", "\\", "A", "~", "@", ":", ": "])),
		6 => out.push_str(r.pick(&["ö", "é", "ñ", "Björk", "ß", "œ", "\u{153}", "Ł", "я"])),
		7 => out.push_str(r.pick(&["漢", "字", "日本", "한", "ｗ", "、"])),
		8 => out.push_str(r.pick(&["\u{301}", "e\u{301}", "\u{200b}", "\u{200d}", "\u{fe0f}", "\u{feff}", "\u{ad}", "\u{0}", "\u{fffd}"])),
		9 => out.push_str(r.pick(&["😀", "🦀", "👨\u{200d}👩\u{200d}👧", "🇺🇸", "☕", "✔\u{fe0f}"])),
		10 => out.push_str(r.pick(&["\t", "\r", "\u{7}", "\u{8}", "\u{b}", "\u{c}", "\u{7f}", "\u{85}", "\u{9b}", "\u{9d}", "\u{a0}", "\u{2028}", "\u{3000}"])),
		11 => out.push('\n'),
		12 => out.push_str("\r\n"),
		13..=16 => { // Well-formed SGR.
			out.push_str("\x1b[");
			for i in 0..r.below(4) { if i > 0 { out.push(';'); } let _ = write!(out, "{}", r.below(256)); }
			out.push('m');
		},
		17..=18 => { // Other CSI.
			out.push_str("\x1b[");
			for _ in 0..r.below(3) { out.push(*r.pick(&['0', '9', ';', '?', ' ', '!', '/', '<'])); }
			out.push(*r.pick(&['@', '~', 'A', 'K', 'J', 'H', 'h', 'l', '[', ']', '\\', 'z', '`', '{', '}']));
		},
		19 => out.push_str(r.pick(&["\x1b[38", "\x1b[", "\x1b[38;5;", "\x1b[\u{153}", "\x1b[é1", "\x1b[1\n2", "\x1b[1漢"])),
		20 => { // OSC.
			out.push_str("\x1b]");
			out.push_str(r.pick(&["8;;https://example.com", "0;title", "", "8;;", "é", "\x1b", "\x1b\x1b", "\x1b[1m", "\n", "x\x1b]y"]));
			out.push_str(r.pick(&["\x1b\\", "\u{7}", "\u{153}"]));
		},
		21 => out.push_str(r.pick(&["\x1b]8;;x", "\x1b]", "\x1b]é", "\x1b]8\x1b", "\x1b]0;t\x1b\x1b"])),
		22 => out.push_str(r.pick(&["\x1b", "\x1b\x1b", "\x1b\x1b[1m", "\x1b\x1b[1m[0m", "\x1b\x1b]x\u{7}[1m", "\x1b\x1b\x1b[m[m[m"])),
		23 => out.push_str(r.pick(&["\x1bM", "\x1b7", "\x1b(B", "\x1b\\", "\x1bé", "\x1b漢", "\x1b\n"])),
		24 => { for _ in 0..r.below(30) { out.push((b'a' + r.below(26) as u8) as char); } },
		25 => { if let Some(c) = char::from_u32(r.below(0x3000) as u32) { out.push(c); } },
		26 => { if let Some(c) = char::from_u32(r.below(0x11_0000) as u32) { out.push(c); } },
		27 => { out.push_str("\x1b[1mBold\x1b[0m"); },
		28 => { out.push_str("\x1b[38;5;199mpink"); },
		_ => { for _ in 0..=r.below(6) { out.push((b' ' + r.below(95) as u8) as char); } },
	}
}

/// Random hostile text of up to `max` pieces.
pub fn text(r: &mut Rng, max: usize) -> String {
	let mut out = String::new();
	let n = match r.below(6) { 0 => 0, 1 => 1, 2 => r.below(3.min(max + 1)), _ => r.below(max + 1) };
	for _ in 0..n { piece(r, &mut out); }
	out
}

/// Plain printable text.
pub fn plain(r: &mut Rng, max: usize) -> String {
	let mut out = String::new();
	for _ in 0..r.below(max + 1) {
		out.push_str(r.pick(&["a", "b", "Hello", " ", "é", "漢", "😀", "World", "-", "1", "0", "foo", "Z"]));
	}
	out
}

/// A character run: visible text or one escape sequence.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Seg { Text(char), Esc(String) }

/// Reference scanner: CSI runs to the first of `@..~`, OSC to BEL, U+0153 or ESC-backslash; both
/// to the end when there is no such terminator.
pub fn scan(src: &str) -> Vec<Seg> {
	let c: Vec<char> = src.chars().collect();
	let mut out = Vec::new();
	let mut i = 0;
	while i < c.len() {
		if c[i] == '\u{1b}' && i + 1 < c.len() && (c[i + 1] == '[' || c[i + 1] == ']') {
			let mut j = i + 2;
			let mut end = c.len();
			while j < c.len() {
				if c[i + 1] == '[' {
					if ('\u{40}'..='\u{7e}').contains(&c[j]) { end = j + 1; break; }
				}
				else if c[j] == '\u{7}' || c[j] == '\u{153}' { end = j + 1; break; }
				else if c[j] == '\u{1b}' && c.get(j + 1) == Some(&'\\') { end = j + 2; break; }
				j += 1;
			}
			out.push(Seg::Esc(c[i..end].iter().collect()));
			i = end;
		}
		else { out.push(Seg::Text(c[i])); i += 1; }
	}
	out
}

/// Does the text hold any (complete or unterminated) sequence?
pub fn has_esc(src: &str) -> bool { src.contains("\x1b[") || src.contains("\x1b]") }

/// Reference removal: take out the first sequence until there are none.
pub fn strip(src: &str) -> String {
	let mut s = src.to_owned();
	while has_esc(&s) {
		let mut out = String::new();
		let mut done = false;
		for seg in scan(&s) {
			match seg {
				Seg::Text(c) => out.push(c),
				Seg::Esc(e) => if done { out.push_str(&e); } else { done = true; },
			}
		}
		s = out;
	}
	s
}

// ---------------------------------------------------------------------------------------------

/// Totals gathered while running cases.
#[derive(Default)]
pub struct Stats {
	pub counts: BTreeMap<String, u64>,
	pub distinct: HashSet<u64>,
	pub samples: Vec<String>,
}

impl Stats {
	pub fn add(&mut self, k: &str, n: u64) { *self.counts.entry(k.to_owned()).or_insert(0) += n; }
	/// Note a (non-trivial) case by content.
	pub fn seen(&mut self, s: &str) {
		let mut h = 0xcbf2_9ce4_8422_2325_u64;
		for b in s.bytes() { h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3); }
		self.distinct.insert(h);
		if self.samples.len() < 2 && s.len() > 8 { self.samples.push(s.chars().take(400).collect()); }
	}
}

pub fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); },
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

/// CPU time of this process.
fn cpu() -> Duration {
	// utime+stime from /proc/self/stat, in clock ticks (100 Hz).
	let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
	let t = s.rsplit_once(')').map_or("", |x| x.1).split_whitespace().collect::<Vec<_>>();
	let n: u64 = t.get(11).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) + t.get(12).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
	Duration::from_millis(n * 10)
}

/// Run `n` cases on all cores, each getting (case index, its own generator, the worker's stats).
/// `from` replays a single case. Writes the result to `out` and exits: 0 held, 1 violated.
pub fn run<F>(tag: &str, seed: u64, n: u64, secs: u64, only: Option<u64>, out: &str, case: F) -> !
where F: Fn(u64, &mut Rng, &mut Stats) -> Result<(), String> + Sync {
	let threads = if only.is_some() { 1 } else { std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) as u64 };
	let next = AtomicU64::new(only.unwrap_or(0));
	let stop = AtomicBool::new(false);
	let total = Mutex::new((Stats::default(), Vec::<(u64, String)>::new(), 0_u64));
	let current: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
	let since: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
	let begin = Instant::now();
	let tagh = tag.bytes().fold(7_u64, |a, b| a.wrapping_mul(31) + u64::from(b));
	std::panic::set_hook(Box::new(|info| {
		LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
	}));
	std::thread::scope(|s| {
		// A case that burns 25 s of CPU time is not coming back.
		let (current, since, stop2, out2) = (&current, &since, &stop, out.to_owned());
		s.spawn(move || {
			let mut cpus: Vec<(u64, Duration)> = vec![(u64::MAX, Duration::ZERO); threads as usize];
			loop {
				std::thread::sleep(Duration::from_millis(200));
				if stop2.load(SeqCst) { return; }
				for (w, c) in current.iter().enumerate() {
					let c = c.load(SeqCst);
					if c == u64::MAX { cpus[w].0 = c; continue; }
					if cpus[w].0 != c { cpus[w] = (c, cpu()); continue; }
					let wall = begin.elapsed().as_secs().saturating_sub(since[w].load(SeqCst));
					if wall > 25 && cpu().saturating_sub(cpus[w].1) > Duration::from_secs(25) {
						let _ = std::fs::write(&out2, format!(
							"{{\"violations\":[{{\"case\":{c},\"what\":\"case {c} does not return (over 25 s of CPU time)\"}}],\"evaluations\":0,\"distinct\":0,\"counts\":{{}},\"samples\":[]}}"
						));
						std::process::exit(1);
					}
				}
			}
		});
		let mut workers = Vec::new();
		for w in 0..threads as usize {
			let (next, stop, total, current, since, case) = (&next, &stop, &total, current, since, &case);
			workers.push(s.spawn(move || {
				let mut st = Stats::default();
				let mut evals = 0;
				while ! stop.load(SeqCst) && (only.is_some() || begin.elapsed().as_secs() < secs) {
					let i = next.fetch_add(1, SeqCst);
					if only.is_none() && i >= n { break; }
					since[w].store(begin.elapsed().as_secs(), SeqCst);
					current[w].store(i, SeqCst);
					let mut r = Rng::mix(&[seed, tagh, i]);
					let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(i, &mut r, &mut st)));
					current[w].store(u64::MAX, SeqCst);
					evals += 1;
					let err = match res {
						Ok(Ok(())) => None,
						Ok(Err(e)) => Some(e),
						Err(_) => Some(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
					};
					if let Some(e) = err {
						let mut t = total.lock().unwrap();
						t.1.push((i, e));
						if t.1.len() >= 5 || only.is_some() { stop.store(true, SeqCst); }
					}
					if only.is_some() { break; }
				}
				let mut t = total.lock().unwrap();
				t.2 += evals;
				for (k, v) in st.counts { *t.0.counts.entry(k).or_insert(0) += v; }
				t.0.distinct.extend(st.distinct);
				if t.0.samples.len() < 3 { t.0.samples.extend(st.samples.into_iter().take(1)); }
			}));
		}
		for w in workers { let _ = w.join(); }
		stop.store(true, SeqCst);
	});
	let t = total.into_inner().unwrap();
	let mut viol = t.1;
	viol.sort();
	let mut j = String::from("{\"violations\":[");
	for (k, (i, e)) in viol.iter().enumerate() {
		if k > 0 { j.push(','); }
		let _ = write!(j, "{{\"case\":{i},\"what\":{}}}", json_str(&format!("case {i}: {e}")));
	}
	let _ = write!(j, "],\"evaluations\":{},\"distinct\":{},\"counts\":{{", t.2, t.0.distinct.len());
	for (k, (a, b)) in t.0.counts.iter().enumerate() {
		if k > 0 { j.push(','); }
		let _ = write!(j, "{}:{b}", json_str(a));
	}
	j.push_str("},\"samples\":[");
	for (k, a) in t.0.samples.iter().enumerate() {
		if k > 0 { j.push(','); }
		j.push_str(&json_str(a));
	}
	j.push_str("]}");
	std::fs::write(out, j).unwrap();
	std::process::exit(i32::from(! viol.is_empty()));
}

thread_local! {
	static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Quit the case unless it holds.
#[macro_export]
macro_rules! need {
	($cond:expr, $($t:tt)+) => { if ! $cond { return Err(format!($($t)+)); } };
}
