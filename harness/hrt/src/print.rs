//! Printing, prompting and creating.

use crate::bar::*;
use crate::frame::*;
use crate::io::{self, In};
use crate::oracle::*;
use crate::work::*;
use fyi_msg::{confirm, AnsiColor, Msg, MsgKind, Progless, ProglessError};
use hcommon::Rng;
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8, NonZeroUsize};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Barrier};

fn short(s: &str) -> String { let t: String = s.chars().take(160).collect(); if t.len() < s.len() { format!("{t:?}… ({} bytes)", s.len()) } else { format!("{t:?}") } }

// ------------------------------------------------------------------------------------ Printing.

/// A message with a token of its own, of any size and shape, or an empty one.
fn printable(r: &mut Rng) -> Msg {
	if r.chance(1, 20) { return Msg::from(""); }
	let n = next_token();
	let filler = match r.below(10) {
		0 => String::new(),
		1 => hcommon::text(r, 12),
		2 => "line\n".repeat(r.range(1, 40)),
		3 => "x".repeat(*r.pick(&[1000, 1023, 1024, 1025, 4096, 8100, 8191, 8192, 8193, 9000, 20_000, 70_000])),
		4 => "漢字 ".repeat(r.range(1, 300)),
		5 => format!("{}\n{}", "y".repeat(r.range(1, 9000)), "z".repeat(r.range(0, 9000))),
		6 => "\n".repeat(r.range(1, 5)),
		_ => hcommon::plain(r, 8),
	};
	let body = format!("@{n}@ {filler} /{n}/");
	let m = match r.below(8) {
		0 => Msg::from(body),
		1 => Msg::new(KIND[r.below(15)].0, body),
		2 => Msg::error(body),
		3 => Msg::new(("Note", AnsiColor::from(r.below(256) as u8)), body).with_indent(r.below(10) as u8),
		4 => Msg::info(body).with_timestamp(true),
		5 => Msg::warning(body).with_suffix(hcommon::plain(r, 3)),
		_ => Msg::from(body),
	};
	match r.below(3) { 0 => m.with_newline(true), 1 => m.with_newline(false), _ => m }
}

/// Messages printed by many threads on both streams.
pub fn print_case(_env: &Env, r: &mut Rng) -> Case {
	let mut c = Case::default();
	let tags: &'static [&'static str] = &["C06"];
	if r.bool() { io::no_tty(); } else { _env.pty.install(); }
	io::take();
	let mut f = some_faults(r, 1);
	if r.chance(2, 3) { f.delay = 500; f.delay_us = *r.pick(&[5, 50, 400]); }
	// One of the streams may be beyond use.
	let dead = if r.chance(1, 4) { 1 + r.below(2) as i32 } else { 0 };
	if dead != 0 { f.fds = 1 << dead; f.short = 0; f.eintr = 0; f.err = *r.pick(&[300, 1000]); f.zero = *r.pick(&[0, 200]); }
	io::faults(f, r.next());
	io::capture(true);
	let nt = if r.chance(1, 6) { 1 } else { r.range(2, 8) };
	let most = *r.pick(&[2, 10, 40]);
	let plans: Vec<Vec<(i32, Msg)>> = (0..nt).map(|_| (0..r.range(1, most)).map(|_| (1 + r.below(2) as i32, printable(r))).collect()).collect();
	let gate = Arc::new(Barrier::new(nt));
	// (fd, thread, call, text)
	let mut recs: Vec<(i32, u32, Iv, String)> = Vec::new();
	let mut changed = Vec::new();
	std::thread::scope(|s| {
		let hs: Vec<_> = plans.iter().enumerate().map(|(k, plan)| {
			let gate = Arc::clone(&gate);
			s.spawn(move || {
				let tid = 10 + k as u32;
				io::own(tid);
				gate.wait();
				plan.iter().map(|(fd, m)| {
					let text = m.as_str().to_owned();
					let s = io::seq();
					if *fd == 1 { m.print(); } else { m.eprint(); }
					let iv = Iv { s, e: io::seq() };
					(*fd, tid, iv, text, m.as_str().to_owned())
				}).collect::<Vec<_>>()
			})
		}).collect();
		for h in hs {
			match h.join() {
				Ok(v) => for (fd, tid, iv, text, after) in v {
					if text != after { changed.push(text.clone()); }
					recs.push((fd, tid, iv, text));
				},
				Err(_) => c.viols.push(viol(tags, "a printing thread panicked".to_owned())),
			}
		}
	});
	let log = io::take();
	// Whatever a broken stream left behind in buffers.
	io::no_faults();
	let _ = std::io::stdout().lock().write_all(b"\n").and_then(|()| std::io::stdout().flush());
	io::take();
	io::capture(false);
	for t in changed { c.viols.push(viol(tags, format!("printing changed the message {}", short(&t)))); }
	for fd in 1..=2 {
		if fd == dead { c.add("broken streams", 1); continue; }
		// What came out, and by which calls.
		let mut out: Vec<u8> = Vec::new();
		let mut spans: Vec<(usize, usize, u64, u64)> = Vec::new();
		for w in log.iter().filter(|w| w.fd == fd && ! w.data.is_empty()) {
			spans.push((out.len(), out.len() + w.data.len(), w.s, w.e));
			out.extend_from_slice(&w.data);
		}
		let mut left: Vec<&(i32, u32, Iv, String)> = recs.iter().filter(|x| x.0 == fd && ! x.3.is_empty()).collect();
		let mut pos = 0;
		let mut seen: Vec<(u32, u64)> = Vec::new();
		let mut k = 0;
		while pos < out.len() {
			let Some(i) = left.iter().position(|x| out[pos..].starts_with(x.3.as_bytes())) else {
				c.viols.push(viol(tags, format!("stream {fd}, byte {pos}: {} is not the start of any message still to come (of {}); before it {}", short(&String::from_utf8_lossy(&out[pos..(pos + 200).min(out.len())])), left.len(), short(&String::from_utf8_lossy(&out[pos.saturating_sub(60)..pos])))));
				break;
			};
			let x = left.swap_remove(i);
			let end = pos + x.3.len();
			while k < spans.len() && spans[k].1 <= pos { k += 1; }
			for sp in spans[k..].iter().take_while(|sp| sp.0 < end) {
				if sp.2 < x.2.s || sp.3 > x.2.e { c.viols.push(viol(tags, format!("stream {fd}: message {} was written before or after its call", short(&x.3)))); break; }
			}
			if seen.iter().any(|(t, s)| *t == x.1 && *s > x.2.s) { c.viols.push(viol(tags, format!("stream {fd}: message {} came out of turn", short(&x.3)))); }
			seen.push((x.1, x.2.s));
			pos = end;
			c.add("messages seen", 1);
		}
		if pos == out.len() { if let Some(x) = left.first() { c.viols.push(viol(tags, format!("stream {fd}: message {} never came out", short(&x.3)))); } }
	}
	c.add("writes recorded", log.len() as u64);
	c.add("operations", recs.len() as u64);
	for w in &log { c.shape = (c.shape ^ u64::from(w.tid) ^ (w.data.len() as u64) << 8).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5); }
	c.trace = format!("{nt} threads, broken {dead}, {f:?}: {}", recs.iter().map(|x| format!("t{} {} {}", x.1, x.0, short(&x.3))).collect::<Vec<_>>().join("; "));
	c
}

// ----------------------------------------------------------------------------------- Prompting.

/// What is left of the input, byte for byte.
struct Input { q: VecDeque<In> }
enum Line { Text(Vec<u8>), Failed }
impl Input {
	fn line(&mut self) -> Line {
		let mut out = Vec::new();
		loop {
			match self.q.pop_front() {
				None | Some(In::Eof) | Some(In::Err(libc::EBADF)) => return Line::Text(out),
				Some(In::Err(libc::EINTR)) => {},
				Some(In::Err(_)) => return Line::Failed,
				Some(In::Data(d)) => {
					if let Some(k) = d.iter().position(|b| *b == b'\n') {
						out.extend_from_slice(&d[..=k]);
						if k + 1 < d.len() { self.q.push_front(In::Data(d[k + 1..].to_vec())); }
						return Line::Text(out);
					}
					out.extend(d);
				},
			}
		}
	}
	fn rest(&mut self) -> Vec<u8> {
		let mut out = Vec::new();
		while let Some(x) = self.q.pop_front() {
			match x { In::Data(d) => out.extend(d), In::Err(libc::EINTR) => {}, _ => break }
		}
		out
	}
}

fn answer(r: &mut Rng) -> Vec<u8> {
	let ws = [" ", "\t", "  ", "\r", "\u{a0}", "\u{3000}", "\u{b}", "\u{2028}", "\u{85}", ""];
	let mut s = Vec::new();
	match r.below(12) {
		0 => {},
		1..=4 => {
			if r.bool() { s.extend(r.pick(&ws).bytes()); }
			let w = *r.pick(&["y", "n", "yes", "no", "Y", "N", "YES", "NO", "Yes", "No", "yEs", "nO", "yeS"]);
			s.extend(w.bytes());
			if r.bool() { s.extend(r.pick(&ws).bytes()); }
		},
		5 => s.extend(r.pick(&ws).bytes()),
		6 => s.extend(r.pick(&["yy", "ye", "yes!", "non", "nope", "y n", "n o", "yno", "true", "1", "0", "ｙ", "да", "ý", "n\u{301}", "y\0", "\u{feff}y", "-y", "o", "s", "not", "yesno"]).bytes()),
		7 => s.extend(hcommon::text(r, 4).replace('\n', "").bytes()),
		8 => { s.extend(r.pick(&["y", "n", "", "yes"]).bytes()); s.push(*r.pick(&[0xff, 0xc3, 0x80, 0xfe])); },
		9 => { s = vec![b'y'; r.range(2, 20_000)]; },
		10 => { s = vec![b' '; r.range(1, 20_000)]; s.extend(r.pick(&["y", "no", "x", ""]).bytes()); },
		_ => { s.push(0xff); },
	}
	s
}

fn inputs(r: &mut Rng) -> VecDeque<In> {
	let mut all = Vec::new();
	let mut q = VecDeque::new();
	let cutting = r.below(3);
	for _ in 0..r.below(9) {
		match r.below(14) {
			0 => { if ! all.is_empty() { q.push_back(In::Data(std::mem::take(&mut all))); } q.push_back(In::Eof); },
			1 => { if ! all.is_empty() { q.push_back(In::Data(std::mem::take(&mut all))); } q.push_back(In::Err(*r.pick(&[libc::EIO, libc::EAGAIN, libc::EISDIR, libc::EBADF]))); },
			2 => { if ! all.is_empty() { q.push_back(In::Data(std::mem::take(&mut all))); } q.push_back(In::Err(libc::EINTR)); },
			_ => {
				all.extend(answer(r));
				if ! r.chance(1, 14) { all.push(b'\n'); }
				if cutting == 1 || cutting == 2 && r.chance(1, 4) {
					// In pieces.
					while ! all.is_empty() {
						let k = r.range(1, all.len().min(40)).min(all.len());
						q.push_back(In::Data(all.drain(..k).collect()));
						if r.chance(1, 8) { q.push_back(In::Err(libc::EINTR)); }
						if q.len() > 60 { break; }
					}
				}
			},
		}
	}
	if ! all.is_empty() { q.push_back(In::Data(all)); }
	q
}

fn ask(m: &Msg, form: usize) -> bool {
	match form { 0 => m.prompt(), 1 => m.prompt_with_default(false), 2 => m.prompt_with_default(true), 3 => m.eprompt(), 4 => m.eprompt_with_default(false), _ => m.eprompt_with_default(true) }
}

/// Prompts with scripted input.
pub fn prompt_case(env: &Env, r: &mut Rng) -> Case {
	let mut c = Case::default();
	let tags: &'static [&'static str] = &["C07"];
	if r.bool() { io::no_tty(); } else { env.pty.install(); }
	io::take();
	let f = some_faults(r, 1);
	io::faults(io::Faults { delay: 0, ..f }, r.next());
	let q = inputs(r);
	let mut model = Input { q: q.clone() };
	c.trace = format!("input {:?}", q.iter().map(|x| match x { In::Data(d) => short(&String::from_utf8_lossy(d)), o => format!("{o:?}") }).collect::<Vec<_>>());
	io::script(Some(q));
	io::capture(true);
	for _ in 0..r.range(1, 5) {
		let body = match r.below(4) { 0 => hcommon::text(r, 6), 1 => "several\nlines".to_owned(), 2 => hcommon::plain(r, 5), _ => "Proceed?".to_owned() };
		let form = r.below(12);
		let ind = r.below(3) as u8;
		let base = if form > 5 { Msg::new(MsgKind::Confirm, body.as_str()) } else { match r.below(4) { 0 => Msg::from(body.as_str()), 1 => Msg::new(KIND[r.below(15)].0, body.as_str()), 2 => Msg::new(("Q", 5_u8), body.as_str()), _ => Msg::new(MsgKind::Confirm, body.as_str()) } };
		let with_indent = matches!(form, 0..=5 | 7 | 9 | 11);
		let mut base = if with_indent { base.with_indent(ind) } else { base };
		if form <= 5 && r.chance(1, 5) { base.set_timestamp(true); }
		let shown = base.as_str().to_owned();
		let mut m = base;
		if form <= 5 {
			if r.bool() { m.set_suffix(" (suffix)"); }
			m.set_newline(r.bool());
		}
		let before = (m.clone(), m.as_str().to_owned());
		let (def, fd) = match form { 0 | 1 => (false, 1), 2 => (true, 1), 3 | 4 => (false, 2), 5 => (true, 2), 6 | 7 => (true, 1), _ => (false, 1) };
		io::take();
		io::READ_LOG.lock().unwrap().clear();
		let got = match form {
			0..=5 => ask(&m, form),
			6 => confirm!(yes: body.as_str()),
			7 => confirm!(yes: body.as_str(), ind),
			8 => confirm!(no: body.as_str()),
			9 => confirm!(no: body.as_str(), ind),
			10 => confirm!(body.as_str()),
			_ => confirm!(body.as_str(), ind),
		};
		let log = io::take();
		if m.as_str() != before.1 || m != before.0 { c.viols.push(viol(tags, format!("prompting changed the message {:?} to {:?}", before.1, m.as_str()))); }
		// What should have happened.
		let mut asks = 1;
		let want = loop {
			match model.line() {
				Line::Failed => break def,
				Line::Text(b) => if let Ok(s) = std::str::from_utf8(&b) {
					let s = s.trim();
					if s.is_empty() { break def; }
					if s.eq_ignore_ascii_case("y") || s.eq_ignore_ascii_case("yes") { break true; }
					if s.eq_ignore_ascii_case("n") || s.eq_ignore_ascii_case("no") { break false; }
				},
			}
			asks += 1;
		};
		c.add("prompts", 1);
		c.add("refused answers", asks - 1);
		c.trace.push_str(&format!("; form {form} {} -> {got}, asked {asks} times", short(&shown)));
		if got != want { c.viols.push(viol(tags, format!("the answer was {got}, expected {want} (default {def})"))); }
		let other: usize = log.iter().filter(|w| w.fd != fd).map(|w| w.data.len()).sum();
		if other != 0 { c.viols.push(viol(tags, format!("{other} bytes went to the other stream"))); }
		let out: Vec<u8> = log.iter().filter(|w| w.fd == fd).flat_map(|w| w.data.iter().copied()).collect();
		let Ok(out) = String::from_utf8(out) else { c.viols.push(viol(tags, "invalid bytes written".to_owned())); break; };
		let hint = if def { " [Y/n] " } else { " [y/N] " };
		let mut rest = out.as_str();
		// Prompt, then error and prompt, as often as there were bad answers.
		let mut ends = Vec::new();
		for k in 0..asks {
			if k > 0 {
				let line = rest.find('\n').map_or(rest.len(), |x| x + 1);
				let t = bare(&rest[..line]);
				if ! t.starts_with("Error: ") || ! t.ends_with('\n') || t.len() < 10 { c.viols.push(viol(tags, format!("expected an error message after a bad answer: {rest:?} in {out:?}"))); break; }
				rest = &rest[line..];
			}
			let Some(x) = rest.strip_prefix(shown.as_str()) else { c.viols.push(viol(tags, format!("expected the question {shown:?}: {rest:?} (ask {} of {asks}) in {out:?}", k + 1))); break; };
			// The hint: everything up to its closing bracket, sequence and space.
			let Some(end) = x.find(']').and_then(|p| x[p..].find(' ').map(|q| p + q + 1)) else { c.viols.push(viol(tags, format!("expected the hint {hint:?}: {x:?}"))); break; };
			if bare(&x[..end]) != hint { c.viols.push(viol(tags, format!("expected the hint {hint:?}: {:?}", &x[..end]))); break; }
			rest = &x[end..];
			ends.push(out.len() - rest.len());
			if k + 1 == asks && ! rest.is_empty() { c.viols.push(viol(tags, format!("{rest:?} written beyond the last of {asks} prompts"))); }
		}
		// Whenever input was waited for, the question was out.
		for at in io::READ_LOG.lock().unwrap().iter() {
			let n: usize = log.iter().filter(|w| w.fd == fd && w.e < *at).map(|w| w.data.len()).sum();
			if c.viols.is_empty() && ! ends.contains(&n) { c.viols.push(viol(tags, format!("input was awaited when only {:?} had been written", &out.get(..n)))); }
		}
		if ! c.viols.is_empty() { break; }
	}
	// What comes after the accepted answers is still there.
	let mut rest = Vec::new();
	let _ = std::io::stdin().lock().read_to_end(&mut rest);
	let want = model.rest();
	if c.viols.is_empty() && rest != want { c.viols.push(viol(tags, format!("{:?} is left of the input, expected {:?}", String::from_utf8_lossy(&rest), String::from_utf8_lossy(&want)))); }
	io::script(Some(VecDeque::new()));
	let _ = std::io::stdin().lock().read_to_end(&mut rest);
	io::script(None);
	io::no_faults();
	io::capture(false);
	c.shape = hash(&c.trace);
	c
}

// ------------------------------------------------------------------------------------ Creating.

const MAX: u128 = 4_294_967_295;

/// Two's complement bits of interesting values.
fn bits(r: &mut Rng) -> u128 {
	let v = match r.below(10) {
		0 => 0,
		1 => 1,
		2 => MAX - r.below(3) as u128,
		3 => MAX + 1 + r.below(3) as u128,
		4 => (1_u128 << r.below(128)).wrapping_sub(r.below(3) as u128).wrapping_add(1),
		5 => (r.range(1, 500) as u128) << (8 * r.below(16)),
		6 => (u128::from(r.next()) << 64 | u128::from(r.next())) >> r.below(128),
		7 => MAX + 1 + (r.range(1, 300) as u128),
		8 => (r.range(1, 1000) as u128) + (1_u128 << *r.pick(&[32, 33, 48, 63, 64, 96, 127])),
		_ => r.range(1, 3000) as u128,
	};
	if r.chance(1, 4) { v.wrapping_neg() } else { v }
}

type Made = fn(u128) -> (&'static str, bool, u128, Result<Progless, ProglessError>);

/// The value as a sign and a size, and what creating from it gave.
fn make(r: &mut Rng) -> (&'static str, bool, u128, Result<Progless, ProglessError>) {
	macro_rules! int {
		($($t:ty),+) => { [$((|b: u128| { let v = b as $t; #[allow(unused_comparisons)] let neg = v < 0; (stringify!($t), neg, if neg { (v as i128).unsigned_abs() } else { v as u128 }, Progless::try_from(v)) }) as Made),+] };
	}
	let b = bits(r);
	let ints = int!(u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);
	match r.below(18) {
		k if k < 12 => ints[k](b),
		12 => { let v = NonZeroU8::new(b as u8).unwrap_or(NonZeroU8::MIN); ("NonZeroU8", false, u128::from(v.get()), Ok(Progless::from(v))) },
		13 => { let v = NonZeroU16::new(b as u16).unwrap_or(NonZeroU16::MAX); ("NonZeroU16", false, u128::from(v.get()), Ok(Progless::from(v))) },
		14 => { let v = NonZeroU32::new(b as u32).unwrap_or(NonZeroU32::MAX); ("NonZeroU32", false, u128::from(v.get()), Ok(Progless::from(v))) },
		15 => { let v = NonZeroU64::new(b as u64).unwrap_or(NonZeroU64::MIN); ("NonZeroU64", false, u128::from(v.get()), Progless::try_from(v)) },
		16 => { let v = NonZeroUsize::new(b as usize).unwrap_or(NonZeroUsize::MAX); ("NonZeroUsize", false, v.get() as u128, Progless::try_from(v)) },
		_ => { let v = NonZeroU128::new(b).unwrap_or(NonZeroU128::MAX); ("NonZeroU128", false, v.get(), Progless::try_from(v)) },
	}
}

fn shown(bar: &Progless, r: &mut Rng) -> (u64, Option<Frame>) {
	let n = read_count(bar);
	let mut all: Vec<Frame> = Vec::new();
	// The first one may have to wait for the size to be known.
	for k in 0..200 {
		let at = io::log_len();
		let _ = bar.push_msg(message(r, next_token()));
		if let Ok(ps) = pieces(&io::since(at)) { all = ps.iter().filter(|p| p.cls).filter_map(|p| parse(&p.text).ok()).collect(); }
		if ! all.is_empty() { break; }
		std::thread::sleep(std::time::Duration::from_millis(if k < 20 { 4 } else { 20 }));
	}
	(n, all.pop())
}

/// Totals of every type; bars count to exactly them.
pub fn total_case(env: &Env, r: &mut Rng) -> Case {
	let mut c = Case::default();
	let tags: &'static [&'static str] = &["C11"];
	let sz = (r.range(70, 160) as u16, 24);
	env.pty.install();
	env.pty.size(sz.0, sz.1);
	io::SKEW.store(-95_000_000, SeqCst);
	io::no_faults();
	io::take();
	io::capture(true);
	if Progless::MAX_TOTAL as u128 != MAX || Progless::MAX_TOTAL_ERROR != ProglessError::TotalOverflow { c.viols.push(viol(tags, "wrong limits".to_owned())); }
	for _ in 0..r.range(1, 12) {
		let (ty, neg, v, res) = make(r);
		c.trace.push_str(&format!("{}{v}_{ty}; ", if neg { "-" } else { "" }));
		let want = if v == 0 { Some(ProglessError::EmptyTotal) } else if neg || v > MAX { Some(ProglessError::TotalOverflow) } else { None };
		c.add("totals", 1);
		let bar = match (res, want) {
			(Err(e), Some(w)) => {
				c.add("refused totals", 1);
				if e != w { c.viols.push(viol(tags, format!("{}{v} as {ty} was refused with {e:?}, expected {w:?}", if neg { "-" } else { "" }))); }
				continue;
			},
			(Ok(bar), None) => bar,
			(got, want) => { c.viols.push(viol(tags, format!("{}{v} as {ty} was {}, expected {want:?}", if neg { "-" } else { "" }, if got.is_ok() { "accepted" } else { "refused" }))); continue; },
		};
		let total = v as u64;
		// The title given along the way is there.
		let mut titled = None;
		let bar = match r.below(4) {
			0 => { titled = Some("Some title".to_owned()); bar.with_title(Some("Some title")) },
			1 => { titled = Some("App: Reticulating splines…".to_owned()); bar.with_reticulating_splines("App") },
			2 => bar.with_title::<&str>(None),
			_ => bar,
		};
		if ! bar.add("a task") { c.viols.push(viol(tags, format!("a bar of {total} ({ty}) does not run"))); }
		let n = read_count(&bar);
		if n != 0 { c.viols.push(viol(tags, format!("a new bar of {total} ({ty}) has {n} done"))); }
		let most = (total - 1) as u32;
		if r.bool() { bar.increment_n(most); } else { bar.set_done(most); }
		let (n, f) = shown(&bar, r);
		if n != total - 1 { c.viols.push(viol(tags, format!("a bar of {total} ({ty}) has {n} done after {most} steps"))); }
		match f {
			None => c.viols.push(viol(tags, format!("no display for a bar of {total} ({ty})"))),
			Some(f) if f.small => {},
			Some(f) => {
				c.add("frames judged", 1);
				if f.total != total || f.done != total - 1 { c.viols.push(viol(tags, format!("a bar of {total} ({ty}) with {most} done shows {}/{}", f.done, f.total))); }
				if f.title != titled { c.viols.push(viol(&["C11", "C14"], format!("the title shown is {:?}, expected {titled:?}", f.title))); }
			},
		}
		// A zero total is refused and changes nothing.
		if r.bool() {
			let (n0, f0) = shown(&bar, r);
			if bar.try_reset(0) != Err(ProglessError::EmptyTotal) { c.viols.push(viol(tags, "reset to zero was not refused as empty".to_owned())); }
			if bar.add("a task") { c.viols.push(viol(tags, "after a refused reset a listed task was accepted again".to_owned())); }
			let (n1, f1) = shown(&bar, r);
			let same = match (&f0, &f1) { (Some(a), Some(b)) => (a.done, a.total, &a.title, &a.tasks, &a.pct, a.bar) == (b.done, b.total, &b.title, &b.tasks, &b.pct, b.bar), (None, None) => true, _ => false };
			if n0 != n1 || ! same { c.viols.push(viol(tags, format!("a refused reset changed the bar from {n0} {:?} to {n1} {:?}", f0.map(|f| f.raw), f1.map(|f| f.raw)))); }
			c.add("refused resets", 1);
		}
		bar.increment();
		if bar.add("late") { c.viols.push(viol(tags, format!("a bar of {total} ({ty}) still runs after as many steps"))); }
		let n = read_count(&bar);
		if n != total { c.viols.push(viol(tags, format!("a bar of {total} ({ty}) has {n} done at its end"))); }
		if r.bool() {
			if bar.try_reset(0) != Err(ProglessError::EmptyTotal) { c.viols.push(viol(tags, "reset to zero was not refused as empty".to_owned())); }
			if read_count(&bar) != total || bar.add("late") { c.viols.push(viol(tags, format!("a refused reset revived a finished bar of {total}"))); }
		}
		if r.bool() {
			let t2 = (bits(r) as u32).max(1);
			if bar.try_reset(t2).is_err() || ! bar.add("x") { c.viols.push(viol(tags, format!("reset to {t2} was refused"))); }
			bar.increment_n(t2 - 1);
			if read_count(&bar) != u64::from(t2) - 1 || ! bar.add("y") { c.viols.push(viol(tags, format!("reset to {t2}, {} steps: not there", t2 - 1))); }
			bar.increment();
			if read_count(&bar) != u64::from(t2) || bar.add("z") { c.viols.push(viol(tags, format!("reset to {t2}, as many steps: not at its end"))); }
		}
		bar.finish();
	}
	io::take();
	io::capture(false);
	let _ = threads_gone(env.base);
	c.shape = hash(&c.trace);
	c
}
