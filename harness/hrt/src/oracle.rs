//! The judge: what was written to the terminal against what was done to the bar.

use crate::frame::*;
use crate::io::Wr;
use crate::vt::Vt;
use std::collections::{BTreeMap, BTreeSet};

/// A violation: the properties it breaks, and what happened.
#[derive(Debug, Clone)]
pub struct Viol { pub tags: &'static [&'static str], pub what: String }

pub fn viol(tags: &'static [&'static str], what: String) -> Viol { Viol { tags, what } }

/// An interval of sequence numbers: call and return.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Iv { pub s: u64, pub e: u64 }

#[derive(Debug, Clone, Copy)]
pub enum Count { Abs { done: u64, total: u64 }, Inc { n: u64, certain: bool } }

#[derive(Debug, Clone)]
pub struct Msg1 { pub text: String, pub tid: u32, pub iv: Iv, pub ok: bool, pub te: u64 }

/// Everything done to one bar, as call/return intervals.
#[derive(Debug, Clone, Default)]
pub struct Timeline {
	pub counts: Vec<(Count, Iv)>,
	pub titles: Vec<(Option<String>, Iv)>,
	/// (label or all labels, present?)
	pub tasks: Vec<(Option<String>, bool, Iv)>,
	/// Runs: start, and end if it ended.
	pub runs: Vec<(Iv, Option<Iv>)>,
	pub sizes: Vec<((u16, u16), Iv)>,
	pub msgs: Vec<Msg1>,
	/// Creation: clock before and after (ns), and how much older it was made (ns).
	pub born: (u64, u64, u64),
	/// How far the ticker's clock may be behind (ns).
	pub slack: u64,
	/// The bar is gone.
	pub dropped: Option<Iv>,
	/// The title may have become the interrupt notice.
	pub notice: bool,
}

fn possible<T>(list: &[(T, Iv)], a: u64, b: u64) -> Vec<usize> {
	(0..list.len()).filter(|i| {
		let iv = list[*i].1;
		iv.s < b && ! list.iter().any(|j| j.1.s > iv.e && j.1.e < a)
	}).collect()
}

impl Timeline {
	/// Possible (lowest done, highest done, total) between two moments.
	pub fn count_ranges(&self, a: u64, b: u64) -> Vec<(u64, u64, u64)> {
		let abs: Vec<usize> = (0..self.counts.len()).filter(|i| matches!(self.counts[*i].0, Count::Abs { .. })).collect();
		let mut out = Vec::new();
		for (k, &i) in abs.iter().enumerate() {
			let (Count::Abs { done, total }, iv) = self.counts[i] else { continue; };
			let next = abs.get(k + 1).map(|n| self.counts[*n].1);
			if iv.s >= b || next.is_some_and(|n| n.e < a) { continue; }
			let (mut lo, mut hi) = (done, done);
			for (c, v) in &self.counts {
				let Count::Inc { n, certain } = c else { continue; };
				if v.s <= iv.s || next.is_some_and(|x| v.s > x.s) { continue; }
				if v.s < b { hi += n; }
				if *certain && v.e < a { lo += n; }
			}
			out.push((lo.min(total), hi.min(total), total));
		}
		out
	}
	fn secs_range(&self, ta: u64, tb: u64) -> (u64, u64) {
		let (t0, t1, off) = self.born;
		let lo = (ta + off).saturating_sub(t1 + self.slack) / 1_000_000_000;
		let hi = (tb + off - t0.min(tb + off)) / 1_000_000_000;
		(lo.min(86_399), hi.min(86_399))
	}
	/// (must be listed, may be listed)
	fn task_sets(&self, a: u64, b: u64) -> (BTreeSet<String>, BTreeSet<String>) {
		let labels: BTreeSet<&String> = self.tasks.iter().filter_map(|t| t.0.as_ref()).collect();
		let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
		for l in labels {
			let mut ev: Vec<(bool, Iv)> = vec![(false, Iv { s: 0, e: 0 })];
			ev.extend(self.tasks.iter().filter(|t| t.0.is_none() || t.0.as_ref() == Some(l)).map(|t| (t.1, t.2)));
			let p = possible(&ev, a, b);
			let yes = p.iter().any(|i| ev[*i].0);
			let no = p.iter().any(|i| ! ev[*i].0);
			if yes { may.insert(l.clone()); }
			if yes && ! no { must.insert(l.clone()); }
		}
		(must, may)
	}
}

/// Can the listed lines be an ordered choice of the possible labels with all the necessary ones?
fn tasks_ok(shown: &[String], must: &BTreeSet<String>, may: &BTreeSet<String>, w: usize) -> bool {
	let mut reach = vec![false; shown.len() + 1];
	reach[0] = true;
	for l in may {
		let c = cut(l, w - 12);
		let need = must.contains(l);
		let mut next = vec![false; shown.len() + 1];
		for k in 0..=shown.len() {
			if ! reach[k] { continue; }
			if ! need { next[k] = true; }
			if k < shown.len() && shown[k] == c { next[k + 1] = true; }
		}
		reach = next;
	}
	reach[shown.len()]
}

const COUNTS: &[&str] = &["C12", "C14", "C18", "C19"];
const TASKS: &[&str] = &["C13", "C14", "C18", "C19"];
const TITLE: &[&str] = &["C14", "C18", "C19"];
const SECS: &[&str] = &["C14", "C18"];
const AGREE: &[&str] = &["C14"];
const GEOM: &[&str] = &["C15", "C21"];
const CUTS: &[&str] = &["C14", "C15", "C21"];
const WHOLE: &[&str] = &["C14", "C15", "C17", "C29"];
const AFTER: &[&str] = &["C16"];
const PUSH: &[&str] = &["C17", "C29"];

/// Judge one frame painted between two moments.
pub fn frame(t: &Timeline, f: &Frame, a: u64, b: u64, ta: u64, tb: u64) -> Result<(), Viol> {
	let sizes = possible(&t.sizes, a, b);
	let mut last = None;
	for i in sizes {
		match frame_at(t, f, a, b, ta, tb, t.sizes[i].0) {
			Ok(()) => return Ok(()),
			Err(e) => last = Some(e),
		}
	}
	Err(last.unwrap_or_else(|| viol(GEOM, format!("frame without a terminal: {:?}", f.raw))))
}

fn frame_at(t: &Timeline, f: &Frame, a: u64, b: u64, ta: u64, tb: u64, size: (u16, u16)) -> Result<(), Viol> {
	let Some((w, h)) = usable(size) else { return Err(viol(GEOM, format!("frame on a terminal of {size:?}: {:?}", f.raw))); };
	if w < 10 { return Err(viol(GEOM, format!("frame on a terminal of {size:?}: {:?}", f.raw))); }
	contained(f, size).map_err(|e| viol(GEOM, e))?;
	let ranges = t.count_ranges(a, b);
	if f.small {
		let v: f64 = f.pct.trim_end_matches('%').parse().unwrap_or(-1.0);
		let ok = ranges.iter().any(|(lo, hi, total)| {
			let tot = (*total).max(1) as f64;
			v >= *lo as f64 / tot * 100.0 - 0.0101 && v <= *hi as f64 / tot * 100.0 + 0.0101
		});
		if ! ok { return Err(viol(COUNTS, format!("shows {} but the count was within {ranges:?}", f.pct))); }
		if w >= 40 && ! ranges.iter().any(|(_, hi, total)| small(w, *hi, *total, "100.00%")) {
			return Err(viol(CUTS, format!("percentage only, although {w} columns suffice for {ranges:?}")));
		}
		return Ok(());
	}
	consistent(f, w).map_err(|e| viol(AGREE, format!("{e} (terminal {size:?})")))?;
	if small(w, f.done, f.total, &f.pct) { return Err(viol(GEOM, format!("full frame on {w} columns: {:?}", f.raw))); }
	if ! ranges.iter().any(|(lo, hi, total)| *total == f.total && *lo <= f.done && f.done <= *hi) {
		return Err(viol(COUNTS, format!("shows {}/{} but the counts (from, to, total) were {ranges:?}", f.done, f.total)));
	}
	// Title.
	let titles = possible(&t.titles, a, b);
	let shown = f.title.as_deref().map(visible);
	let want: Vec<Option<String>> = titles.iter().map(|i| want_title(t.titles[*i].0.as_deref(), w, h)).collect();
	let notice = t.notice && shown.as_deref().is_some_and(|x| "Warning: Early shutdown in progress.".starts_with(x) && ! x.is_empty());
	if ! notice && ! want.contains(&shown) {
		return Err(viol(TITLE, format!("shows title {shown:?}, expected one of {want:?} ({w} columns)")));
	}
	// Tasks.
	let (must, may) = t.task_sets(a, b);
	let titled = usize::from(f.title.is_some());
	let list: Vec<String> = f.tasks.iter().map(|x| visible(x)).collect();
	if list.is_empty() {
		if ! must.is_empty() && titled + 1 + may.len() <= h && w >= 14 {
			return Err(viol(TASKS, format!("no tasks shown although {must:?} were active and {h} lines are there: {:?}", f.raw)));
		}
	}
	else if ! tasks_ok(&list, &must, &may, w) {
		return Err(viol(TASKS, format!("shows tasks {list:?}; active: at least {must:?}, at most {may:?}")));
	}
	// Time.
	let (lo, hi) = t.secs_range(ta, tb);
	if f.secs < lo || f.secs > hi {
		return Err(viol(SECS, format!("shows {} s elapsed, expected {lo} to {hi}", f.secs)));
	}
	Ok(())
}

/// What the judge saw.
#[derive(Debug, Clone, Default)]
pub struct Seen { pub frames: u64, pub small: u64, pub clears: u64, pub msgs: u64, pub writes: u64, pub threads: u64, pub partial: u64, pub restored: u64 }

pub struct Opts {
	/// Emulate a terminal of this size (never resized), with that many lines printed before.
	pub vt: Option<((u16, u16), usize)>,
	/// The bar has ended by now and everything is quiet: the screen must be clear.
	pub ended: bool,
	pub monotonic: bool,
}

/// What is left of a piece after messages and cursor switches.
fn strip_cursor(mut s: &str) -> &str {
	loop {
		if let Some(x) = s.strip_prefix("\x1b[?25l") { s = x; }
		else if let Some(x) = s.strip_prefix("\x1b[?25h") { s = x; }
		else if let Some(x) = s.strip_suffix("\x1b[?25l") { s = x; }
		else if let Some(x) = s.strip_suffix("\x1b[?25h") { s = x; }
		else { return s; }
	}
}

/// The frames of the stream, with their place.
pub fn judge(t: &Timeline, log: &[Wr], o: &Opts, out: &mut Vec<Viol>) -> Seen {
	let mut seen = Seen { writes: log.len() as u64, ..Seen::default() };
	if cfg!(miri) {
		let mut w = crate::ship::Out::default();
		w.timeline(t);
		w.opts(o);
		w.log(log);
		w.send('J');
		return seen;
	}
	seen.threads = log.iter().map(|w| w.tid).collect::<BTreeSet<_>>().len() as u64;
	let (log, bad) = crate::io::emissions(log, 2);
	for b in bad { out.push(viol(&["C17", "C29"], b)); }
	if out.len() > 20 { return seen; }
	let ps = match pieces(&log) {
		Ok(p) => p,
		Err(e) => { out.push(viol(WHOLE, e)); return seen; },
	};
	// Messages by their token.
	let mut by_token: BTreeMap<String, usize> = BTreeMap::new();
	for (i, m) in t.msgs.iter().enumerate() { if let Some(k) = token(&m.text) { by_token.insert(k, i); } }
	let mut times = vec![0_usize; t.msgs.len()];
	let mut lost = vec![0_usize; t.msgs.len()];
	let mut order: BTreeMap<u32, u64> = BTreeMap::new();
	let mut printed: Vec<usize> = Vec::new();

	let mut vt = o.vt.map(|((w, h), pre)| {
		let mut v = Vt::new(usize::from(w), usize::from(h));
		for i in 0..pre { v.feed(format!("before {i}\n").as_bytes()); }
		v
	});
	let mut frames: Vec<(u64, u32)> = Vec::new();
	let mut prev = (0_u64, t.born.0); // Start of the previous frame: number, clock.
	let mut last_secs = 0;
	for (pi, p) in ps.iter().enumerate() {
		if p.cls { seen.clears += 1; if let Some(v) = vt.as_mut() { v.feed(b"\x1b[J"); } }
		let mut rest = strip_cursor(&p.text);
		// Messages first.
		while rest.contains("@m") {
			let Some(i) = token(rest).and_then(|k| by_token.get(&k)) else { break; };
			let m = &t.msgs[*i];
			let Some(x) = rest.strip_prefix(m.text.as_str()) else {
				out.push(viol(PUSH, format!("message {:?} came out as {:?}", m.text, rest.chars().take(300).collect::<String>())));
				break;
			};
			let fed = rest.as_ptr() as usize - p.text.as_ptr() as usize;
			let whole = ! p.lost.iter().any(|(x, y)| *x < fed + m.text.len() && *y > fed);
			if whole { times[*i] += 1; } else { lost[*i] += 1; }
			printed.push(*i);
			seen.msgs += 1;
			let seq = m.iv.s;
			let l = order.entry(m.tid).or_insert(0);
			if seq < *l { out.push(viol(PUSH, format!("message {:?} came out after a later one of the same thread", m.text))); }
			*l = seq;
			if p.e < m.iv.s { out.push(viol(PUSH, format!("message {:?} came out before it was pushed", m.text))); }
			if let Some(v) = vt.as_mut() { v.feed(m.text.as_bytes()); }
			rest = strip_cursor(x);
		}
		if rest.is_empty() {
			if let Some(v) = vt.as_mut() { if p.text.contains("\x1b[?25") { v.feed(cursor_only(&p.text).as_bytes()); } }
			continue;
		}
		let at = vt.as_ref().map(|v| (v.row, v.col));
		let f = match parse(rest) {
			Ok(f) => f,
			Err(e) => {
				out.push(viol(WHOLE, e));
				if out.len() > 20 { return seen; }
				continue;
			},
		};
		if ! p.lost.is_empty() { seen.partial += 1; }
		if f.small { seen.small += 1; } else { seen.frames += 1; }
		frames.push((p.s, p.tid));
		// Was there something to paint?
		let live = t.runs.iter().any(|(a, z)| a.s < p.s && z.is_none_or(|z| p.s < z.e)) && t.dropped.is_none_or(|d| p.s < d.e);
		if ! live { out.push(viol(AFTER, format!("painted after the end: {:?}", f.raw))); }
		else if let Err(mut e) = frame(t, &f, prev.0, p.s, prev.1, p.ts) {
			e.what = format!("frame {} {}", seen.frames + seen.small, e.what);
			out.push(e);
		}
		// Same thread within its own push: exactly then.
		if let Some(m) = t.msgs.iter().find(|m| m.tid == p.tid && m.iv.s < p.s && p.e < m.iv.e) {
			if live {
				if let Err(e) = frame(t, &f, m.iv.s, p.s, prev.1, p.ts) {
					out.push(viol(if e.tags.is_empty() { PUSH } else { merged(e.tags) }, format!("frame under pushed message {:?}: {}", m.text, e.what)));
				}
			}
		}
		if ! f.small {
			if o.monotonic && f.secs < last_secs { out.push(viol(SECS, format!("elapsed time went from {last_secs} back to {} s", f.secs))); }
			last_secs = f.secs;
		}
		prev = (p.s, p.ts);
		if let (Some(v), Some(at)) = (vt.as_mut(), at) {
			v.feed(rest.as_bytes());
			if (v.row, v.col) != at || ! v.ground() {
				out.push(viol(GEOM, format!("the cursor went from row {} column {} to row {} column {} of a terminal of {:?} with {:?}", at.0, at.1, v.row, v.col, o.vt, f.raw)));
				vt = None;
			}
			if let Some(v) = vt.as_mut() { v.feed(cursor_only(&p.text).as_bytes()); }
		}
		if out.len() > 20 { return seen; }
	}

	// Every message once.
	for (i, m) in t.msgs.iter().enumerate() {
		if m.ok && times[i] != 1 && ! (times[i] == 0 && lost[i] == 1 && late(t, m)) {
			out.push(viol(PUSH, format!("message {:?} came out {} times, and {} times in part, but the call succeeded", m.text, times[i], lost[i])));
		}
		// The display comes back underneath, if the bar was there all along and had been painted for this terminal.
		if m.ok && lost[i] == 0
			&& t.runs.iter().any(|(a, z)| a.e < m.iv.s && z.is_none_or(|z| m.iv.e < z.s)) && t.dropped.is_none_or(|d| m.iv.e < d.s)
			// (The first one may have been made with the size found before.)
			&& frames.iter().filter(|f| f.0 < m.iv.s && t.sizes.iter().all(|z| z.1.e < f.0)).nth(usize::from(t.sizes.len() > 1)).is_some()
			&& ! log.iter().any(|w| w.lost && w.tid == m.tid && m.iv.s < w.s && w.e < m.iv.e)
		{
			seen.restored += 1;
			if ! frames.iter().any(|f| (f.1 == m.tid || f.1 == 9999) && m.iv.s < f.0 && f.0 < m.iv.e) {
				out.push(viol(&["C17"], format!("the display was not restored under the pushed message {:?}", m.text)));
			}
		}
		if ! m.ok {
			let need = log.iter().any(|w| w.tid == m.tid && w.lost && m.iv.s < w.s && w.e < m.iv.e);
			if ! need { out.push(viol(PUSH, format!("message {:?} was handed back without need", m.text))); }
			if times[i] != 0 { out.push(viol(PUSH, format!("message {:?} was handed back but came out {} times", m.text, times[i]))); }
		}
	}
	// The screen.
	if let (Some(v), true) = (vt.as_ref(), o.ended) {
		let mut want: Vec<String> = (0..o.vt.map_or(0, |x| x.1)).map(|i| format!("before {i}")).collect();
		for i in &printed { for l in t.msgs[*i].text.trim_end_matches('\n').split('\n') { want.push(visible(l)); } }
		let got: Vec<String> = v.all().iter().map(|l| l.trim_end().to_owned()).collect();
		let want: Vec<String> = { let mut x: Vec<String> = want.iter().map(|l| l.trim_end().to_owned()).collect(); while x.last().is_some_and(String::is_empty) { x.pop(); } x };
		if got != want {
			let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
			out.push(viol(&["C15", "C16", "C17"], format!("after the end the screen differs from line {k}: {:?}, expected {:?}", got.get(k..(k + 3).min(got.len())), want.get(k..(k + 3).min(want.len())))));
		}
		if ! v.clear_below() || v.col != 0 { out.push(viol(&["C15", "C16"], format!("after the end the area of the bar is not clear, or the cursor is in column {}", v.col))); }
		if v.cursor_hidden { out.push(viol(&["C16", "C20"], "after the end the cursor is still hidden".to_owned())); }
	}
	seen
}

/// A frame mismatch right under a pushed message concerns the message too.
fn merged(tags: &'static [&'static str]) -> &'static [&'static str] {
	if tags == COUNTS { &["C12", "C14", "C17", "C18", "C19"] }
	else if tags == TASKS { &["C13", "C14", "C17", "C18", "C19"] }
	else if tags == TITLE { &["C14", "C17", "C18", "C19"] }
	else { tags }
}

/// Could the message have been pushed when the bar had ended already (then a failure stays silent)?
fn late(t: &Timeline, m: &Msg1) -> bool {
	t.runs.iter().all(|(a, z)| m.iv.e < a.s || z.is_some_and(|z| z.s < m.iv.e))
}

fn cursor_only(s: &str) -> String {
	let mut out = String::new();
	let mut r = s;
	while let Some(i) = r.find("\x1b[?25") {
		out.push_str(&r[i..(i + 6).min(r.len())]);
		r = &r[(i + 6).min(r.len())..];
	}
	out
}

/// The token in a message's text.
pub fn token(s: &str) -> Option<String> {
	let a = s.find("@m")?;
	let b = s[a + 2..].find('@')?;
	Some(s[a..=a + 2 + b].to_owned())
}
