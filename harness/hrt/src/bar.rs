//! Operations on a bar, what they should do, and how they are recorded.

use crate::frame::label;
use crate::io;
use crate::oracle::{Count, Iv, Msg1, Timeline};
use fyi_msg::{AnsiColor, Msg, MsgKind, Progless};
use hcommon::{piece, plain, Rng};
use std::collections::BTreeSet;

pub const KIND: [(MsgKind, &str); 15] = [
	(MsgKind::None, ""), (MsgKind::Aborted, "Aborted: "), (MsgKind::Confirm, "Confirm: "), (MsgKind::Crunched, "Crunched: "),
	(MsgKind::Debug, "Debug: "), (MsgKind::Done, "Done: "), (MsgKind::Error, "Error: "), (MsgKind::Found, "Found: "),
	(MsgKind::Info, "Info: "), (MsgKind::Notice, "Notice: "), (MsgKind::Review, "Review: "), (MsgKind::Skipped, "Skipped: "),
	(MsgKind::Success, "Success: "), (MsgKind::Task, "Task: "), (MsgKind::Warning, "Warning: "),
];

/// A title by its parts.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Title { pub indent: u8, pub prefix: Prefix, pub body: String, pub suffix: String, pub nl: bool }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Prefix { Kind(usize), Custom(String, Option<u8>) }

impl Title {
	pub fn msg(&self) -> Msg {
		let m = match &self.prefix {
			Prefix::Kind(k) => Msg::new(KIND[*k].0, self.body.as_str()),
			Prefix::Custom(l, None) => Msg::new(l.as_str(), self.body.as_str()),
			Prefix::Custom(l, Some(c)) => Msg::new((l.as_str(), *c), self.body.as_str()),
		};
		m.with_suffix(self.suffix.as_str()).with_indent(self.indent).with_newline(self.nl)
	}
	/// Without colours.
	pub fn text(&self) -> String {
		let p = match &self.prefix {
			Prefix::Kind(k) => KIND[*k].1.to_owned(),
			Prefix::Custom(l, _) => if l.is_empty() { String::new() } else { format!("{l}: ") },
		};
		format!("{}{p}{}{}", "    ".repeat(usize::from(self.indent.min(8))), self.body, self.suffix)
	}
}

#[derive(Debug, Clone)]
pub enum Op {
	Inc, IncN(u32), SetDone(u32), Add(String), Remove(String),
	Title(Option<Title>), TitleStr(Option<String>), TitleMsg(String), Splines(String),
	Push(Msg), Summary, Finish, Reset(u32), TryReset(u32), Size(u16, u16), Clone, Drop, Pause(u64),
}

impl std::fmt::Display for Op {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			Self::Push(m) => write!(f, "push {:?}", m.as_str()),
			Self::Title(Some(t)) => write!(f, "title {:?}", t.text()),
			o => write!(f, "{o:?}"),
		}
	}
}

/// Text for titles and tasks: hostile, yet complete (no open sequences, no cursor movement).
pub fn tame(r: &mut Rng, max: usize) -> String {
	let mut out = String::new();
	for _ in 0..r.below(max + 1) {
		let mut p = String::new();
		piece(r, &mut p);
		out.push_str(&p);
	}
	keep_tame(&out)
}

/// Leave only colours and links as sequences, and no control characters that move the cursor.
pub fn keep_tame(s: &str) -> String {
	let mut out = String::new();
	for seg in hcommon::scan(s) {
		match seg {
			hcommon::Seg::Text(c) => if c != '\x1b' && ! (c.is_control() && ! c.is_whitespace()) { out.push(c); },
			hcommon::Seg::Esc(e) => {
				let colour = e.starts_with("\x1b[") && e.ends_with('m') && e[2..e.len() - 1].bytes().all(|b| b.is_ascii_digit() || b == b';');
				let link = e.starts_with("\x1b]8;;") && e.ends_with('\x07') && ! e[1..].contains('\x1b') && ! e.contains('\n');
				if colour || link { out.push_str(&e); }
			},
		}
	}
	out
}

pub fn title(r: &mut Rng, tag: u64) -> Title {
	let prefix = match r.below(4) {
		0 => Prefix::Custom(keep_tame(&plain(r, 2)), None),
		1 => Prefix::Custom(keep_tame(&plain(r, 2)), Some(r.below(256) as u8)),
		2 => Prefix::Kind(0),
		_ => Prefix::Kind(r.below(15)),
	};
	let mut body = match r.below(6) {
		0 => String::new(),
		1 => tame(r, 20),
		2 => { let mut s = String::new(); for _ in 0..r.range(1, 120) { s.push(*r.pick(&['a', 'b', '漢', 'é', ' ', '😀'])); } s },
		3 => format!("{}\n{}\r\n{}", tame(r, 3), tame(r, 3), plain(r, 2)),
		_ => tame(r, 5),
	};
	if r.chance(2, 3) { body.insert_str(0, &format!("T{tag} ")); }
	let suffix = if r.chance(1, 4) { tame(r, 3) } else { String::new() };
	Title { indent: if r.chance(1, 6) { r.below(4) as u8 } else { 0 }, prefix, body, suffix, nl: r.bool() }
}

pub fn task(r: &mut Rng, n: usize) -> String {
	match r.below(10) {
		0 => tame(r, 6),
		1 => hcommon::text(r, 5),
		2 => { let mut s = String::new(); for _ in 0..r.range(1, 200) { s.push(*r.pick(&['x', 'y', '字', 'ñ', ' '])); } s },
		3 => format!("job\t{}  ", r.below(n)),
		4 => format!("\x1b[1mjob\x1b[0m {}", r.below(n)),
		5 => { let c = char::from(match r.below(5) { 0 => r.below(32), 1 => 127, 2 => 0x1b, _ => r.range(0x80, 0xa0) } as u8); if r.bool() { format!("job{c}{}", r.below(n)) } else { format!("{c}job {}{c}", r.below(n)) } },
		_ => format!("job {}", r.below(n)),
	}
}

/// A message with a token that no other has.
pub fn message(r: &mut Rng, n: u64) -> Msg {
	let filler = match r.below(6) {
		0 => String::new(),
		1 => "long ".repeat(r.range(1, if cfg!(miri) { 6 } else { 60 })),
		2 => keep_tame(&plain(r, 6)).replace(['\n', '\r', '@'], ""),
		3 => "several\nlines\n\nhere".to_owned(),
		4 => "漢字".repeat(r.range(1, if cfg!(miri) { 6 } else { 50 })),
		_ => "some text".to_owned(),
	};
	let body = format!("@m{n}@ {filler} /m{n}/");
	let m = match r.below(5) { 0 => Msg::from(body), 1 => Msg::new(MsgKind::Info, body), 2 => Msg::error(body), 3 => Msg::new(("Note", AnsiColor::Misc199), body), _ => Msg::from(format!("{body}.")) };
	match r.below(3) { 0 => m.with_newline(true), 1 => m.with_newline(false), _ => m }
}

/// The sequential truth.
#[derive(Debug, Clone)]
pub struct Model {
	pub total: u64, pub done: u64, pub running: bool,
	pub tasks: BTreeSet<String>,
	pub title: Option<Title>,
	pub size: (u16, u16),
}

impl Model {
	pub fn new(total: u32, size: (u16, u16)) -> Self {
		Self { total: u64::from(total), done: 0, running: true, tasks: BTreeSet::new(), title: None, size }
	}
	pub fn title_text(&self) -> Option<String> { self.title.as_ref().map(Title::text) }
}

/// The monitor of a bar driven from one thread.
pub struct Driver {
	pub bars: Vec<Progless>,
	pub m: Model,
	pub t: Timeline,
	pub trace: Vec<String>,
	pub tid: u32,
	pub pty: Option<&'static io::Pty>,
	pub errors: Vec<crate::oracle::Viol>,
	pub finish_ns: Vec<u64>,
	/// That many of the sizes have certainly been noticed.
	pub known: usize,
}

/// Create a bar that started `age` ns ago, as far as its clock is concerned.
pub fn create(total: u32, age: u64) -> (Progless, Iv, (u64, u64, u64)) {
	let s = io::seq();
	let t0 = io::now();
	io::shift(-(age as i64));
	let bar = Progless::try_from(total).expect("a valid total was refused");
	io::shift(0);
	let t1 = io::now();
	let e = io::seq();
	(bar, Iv { s, e }, (t0, t1, age))
}

impl Driver {
	pub fn new(total: u32, age: u64, size: (u16, u16), pty: Option<&'static io::Pty>, tid: u32, slack: u64) -> Self {
		let (bar, iv, born) = create(total, age);
		let t = Timeline {
			counts: vec![(Count::Abs { done: 0, total: u64::from(total) }, iv)],
			titles: vec![(None, Iv { s: 0, e: 0 })],
			runs: vec![(iv, None)],
			sizes: vec![(size, Iv { s: 0, e: 0 })],
			born, slack, ..Timeline::default()
		};
		Self { bars: vec![bar], m: Model::new(total, size), t, trace: vec![format!("new({total}) age {} ms on {}x{}", age / 1_000_000, size.0, size.1)], tid, pty, errors: Vec::new(), finish_ns: Vec::new(), known: 1 }
	}

	fn ended(&mut self, iv: Iv) {
		self.m.running = false;
		self.m.done = self.m.total;
		self.m.tasks.clear();
		self.t.counts.push((Count::Abs { done: self.m.total, total: self.m.total }, iv));
		self.t.tasks.push((None, false, iv));
		if let Some(r) = self.t.runs.last_mut() { r.1 = Some(iv); }
	}

	fn inc(&mut self, n: u64, iv: Iv) {
		if ! self.m.running || n == 0 { return; }
		if self.m.done + n < self.m.total {
			self.m.done += n;
			self.t.counts.push((Count::Inc { n, certain: true }, iv));
		}
		else { self.ended(iv); }
	}

	fn titled(&mut self, iv: Iv) {
		let t = self.m.title_text();
		self.t.titles.push((t, iv));
	}

	/// Do it to the real one, and to the model.
	pub fn apply(&mut self, op: &Op, r: &mut Rng) {
		let tags: &'static [&'static str] = &["C12", "C13", "C19"];
		self.trace.push(op.to_string());
		let k = r.below(self.bars.len());
		let bar = &self.bars[k];
		let s = io::seq();
		match op {
			Op::Inc => { bar.increment(); let iv = Iv { s, e: io::seq() }; self.inc(1, iv); },
			Op::IncN(n) => { bar.increment_n(*n); let iv = Iv { s, e: io::seq() }; self.inc(u64::from(*n), iv); },
			Op::SetDone(n) => {
				bar.set_done(*n);
				let iv = Iv { s, e: io::seq() };
				if self.m.running {
					if u64::from(*n) >= self.m.total { self.ended(iv); }
					else {
						self.m.done = u64::from(*n);
						self.t.counts.push((Count::Abs { done: self.m.done, total: self.m.total }, iv));
					}
				}
			},
			Op::Add(l) => {
				let got = bar.add(l);
				let iv = Iv { s, e: io::seq() };
				let clean = label(l);
				let want = self.m.running && clean.as_ref().is_some_and(|c| ! self.m.tasks.contains(c));
				if got != want { self.errors.push(crate::oracle::viol(tags, format!("add({l:?}) returned {got}, expected {want} (running {}, listed {:?})", self.m.running, self.m.tasks))); }
				if let (true, Some(c)) = (want, clean) {
					self.m.tasks.insert(c.clone());
					self.t.tasks.push((Some(c), true, iv));
				}
			},
			Op::Remove(l) => {
				bar.remove(l);
				let iv = Iv { s, e: io::seq() };
				if let Some(c) = label(l) {
					if self.m.running && self.m.tasks.remove(&c) {
						self.t.tasks.push((Some(c), false, iv));
						self.inc(1, iv);
					}
				}
			},
			Op::Title(t) => {
				bar.set_title(t.as_ref().map(Title::msg));
				let iv = Iv { s, e: io::seq() };
				self.m.title = t.clone().filter(|t| ! t.msg().is_empty());
				self.titled(iv);
			},
			Op::TitleStr(t) => {
				bar.set_title(t.as_deref());
				let iv = Iv { s, e: io::seq() };
				self.m.title = t.clone().filter(|t| ! t.is_empty()).map(|body| Title { indent: 0, prefix: Prefix::Kind(0), body, suffix: String::new(), nl: false });
				self.titled(iv);
			},
			Op::TitleMsg(b) => {
				bar.set_title_msg(b);
				let iv = Iv { s, e: io::seq() };
				if let Some(t) = self.m.title.as_mut() { b.clone_into(&mut t.body); }
				self.titled(iv);
			},
			Op::Splines(a) => {
				bar.set_reticulating_splines(a);
				let iv = Iv { s, e: io::seq() };
				self.m.title = Some(Title { indent: 0, prefix: Prefix::Custom(a.clone(), Some(199)), body: "Reticulating splines…".to_owned(), suffix: String::new(), nl: false });
				self.titled(iv);
			},
			Op::Push(m) => {
				let want = m.clone().with_newline(true);
				let res = bar.push_msg(m.clone());
				let iv = Iv { s, e: io::seq() };
				if let Err(back) = &res {
					if back.as_str().trim_end_matches('\n') != m.as_str().trim_end_matches('\n') {
						self.errors.push(crate::oracle::viol(&["C17"], format!("push of {:?} handed back {:?}", m.as_str(), back.as_str())));
					}
				}
				self.t.msgs.push(Msg1 { text: want.as_str().to_owned(), tid: self.tid, iv, ok: res.is_ok(), te: io::now() });
			},
			Op::Summary => { let _ = self.summary(r); },
			Op::Finish => {
				let a = io::now();
				let d = bar.finish();
				let b = io::now();
				let iv = Iv { s, e: io::seq() };
				self.finish_ns.push(b - a);
				let (t0, t1, off) = self.t.born;
				let (lo, hi) = ((a + off - t1) as u128, (b + off - t0) as u128);
				if d.as_nanos() < lo || d.as_nanos() > hi { self.errors.push(crate::oracle::viol(&["C16", "C24"], format!("finish returned {d:?}, expected {lo} to {hi} ns"))); }
				if self.m.running { self.ended(iv); }
			},
			Op::Reset(n) | Op::TryReset(n) => {
				let n = *n;
				let res = if matches!(op, Op::Reset(_)) { bar.reset(std::num::NonZeroU32::new(n).unwrap()); Ok(()) } else { bar.try_reset(n) };
				let iv = Iv { s, e: io::seq() };
				if res.is_ok() != (n != 0) { self.errors.push(crate::oracle::viol(&["C11", "C19"], format!("try_reset({n}) returned {res:?}"))); }
				if n != 0 {
					if self.m.running { self.ended(iv); }
					self.m.done = 0;
					self.m.total = u64::from(n);
					self.m.running = true;
					self.m.tasks.clear();
					self.t.counts.push((Count::Abs { done: 0, total: self.m.total }, iv));
					self.t.tasks.push((None, false, iv));
					self.t.runs.push((iv, None));
				}
			},
			Op::Size(w, h) => {
				if let Some(p) = self.pty { p.size(*w, *h); }
				#[cfg(feature = "sig")]
				unsafe { libc::kill(libc::getpid(), libc::SIGWINCH); }
				let iv = Iv { s, e: io::seq() };
				self.m.size = (*w, *h);
				self.t.sizes.push(((*w, *h), iv));
			},
			Op::Clone => { let b = bar.clone(); self.bars.push(b); },
			Op::Drop => if self.bars.len() > 1 { self.bars.swap_remove(k); },
			Op::Pause(us) => std::thread::sleep(std::time::Duration::from_micros(if cfg!(miri) { *us * 10 } else { *us })),
		}
	}

	/// Check the summaries; returns the count shown.
	pub fn summary(&mut self, r: &mut Rng) -> u64 {
		let bar = &self.bars[0];
		let (kind, prefix) = *r.pick(&KIND);
		let one = *r.pick(&["file", "x", "ox", ""]);
		let many = *r.pick(&["files", "y", "oxen", "things"]);
		let a = io::now();
		let got = bar.summary(kind, one, many);
		let b = io::now();
		let (n, e) = summary_error(got.as_str(), prefix, one, many, self.m.done, self.span(a, b));
		if let Some(e) = e { self.errors.push(e); }
		if r.chance(1, 4) {
			let a = io::now();
			let got = Msg::from(bar.clone());
			let b = io::now();
			let text = crate::frame::bare(got.as_str());
			let ok = text.strip_prefix("Done: Finished in ").and_then(|x| x.strip_suffix(".\n")).and_then(elapsed);
			if ok.is_none_or(|v| outside(v, self.span(a, b))) {
				self.errors.push(crate::oracle::viol(&["C24"], format!("generic summary {text:?}, elapsed {:?} ms", self.span(a, b))));
			}
		}
		n
	}

	/// Elapsed time between two clock values: (at least, at most), in ms.
	fn span(&self, a: u64, b: u64) -> (u64, u64) {
		let (t0, t1, off) = self.t.born;
		((a + off - t1) / 1_000_000, (b + off - t0) / 1_000_000)
	}
}

fn outside(v: u64, span: (u64, u64)) -> bool { v + 11 < span.0 || v > span.1 }

/// Parse and judge a summary: (count shown, complaint).
pub fn summary_error(text: &str, prefix: &str, one: &str, many: &str, done: u64, span: (u64, u64)) -> (u64, Option<crate::oracle::Viol>) {
	let text = crate::frame::bare(text);
	let bad = |tags: &'static [&'static str], w: &str| Some(crate::oracle::viol(tags, format!("summary {text:?}: {w}")));
	let Some(x) = text.strip_prefix(prefix).and_then(|x| x.strip_suffix(".\n")) else { return (u64::MAX, bad(&["C24"], &format!("expected prefix {prefix:?} and a final line break"))); };
	let Some((count, rest)) = x.split_once(' ') else { return (u64::MAX, bad(&["C24"], "no count")); };
	let n = count.replace(',', "").parse::<u64>().unwrap_or(u64::MAX);
	if n == u64::MAX || crate::frame::commas(n) != count { return (n, bad(&["C24"], "malformed count")); }
	let noun = if n == 1 { one } else { many };
	let Some(el) = rest.strip_prefix(noun).and_then(|x| x.strip_prefix(" in ")) else { return (n, bad(&["C24"], &format!("expected the noun {noun:?}"))); };
	let Some(ms) = elapsed(el) else { return (n, bad(&["C24"], "malformed duration")); };
	if outside(ms, span) { return (n, bad(&["C24"], &format!("elapsed should be {} to {} ms", span.0, span.1))); }
	if n != done { return (n, bad(&["C12", "C13", "C19", "C24"], &format!("the count should be {done}"))); }
	(n, None)
}

/// "1 day, 2 hours, 3 minutes, and 4.56 seconds" in ms.
pub fn elapsed(s: &str) -> Option<u64> {
	let mut ms = 0_u64;
	let mut rank = 9;
	for part in s.split(", ").flat_map(|p| p.split(" and ")).map(|p| p.strip_prefix("and ").unwrap_or(p)) {
		let (n, unit) = part.split_once(' ')?;
		let (f, k, one): (u64, i32, bool) = match unit {
			"day" => (86_400_000, 4, true), "days" => (86_400_000, 4, false),
			"hour" => (3_600_000, 3, true), "hours" => (3_600_000, 3, false),
			"minute" => (60_000, 2, true), "minutes" => (60_000, 2, false),
			"second" => (1000, 1, true), "seconds" => (1000, 1, false),
			_ => return None,
		};
		if k >= rank { return None; }
		rank = k;
		if k == 1 {
			let v: f64 = n.parse().ok()?;
			if one != (n == "1") { return None; }
			ms += (v * 1000.0).round() as u64;
		}
		else {
			let v: u64 = n.replace(',', "").parse().ok()?;
			if one != (v == 1) { return None; }
			ms += v * f;
		}
	}
	Some(ms)
}
