//! Frames: cutting the byte stream up, reading frames, and what they should say.

use hcommon::{scan, Seg};
use std::collections::BTreeSet;
use unicode_width::UnicodeWidthChar;

pub fn cw(c: char) -> usize { UnicodeWidthChar::width(c).unwrap_or(0) }

/// The text without escape sequences.
pub fn bare(s: &str) -> String {
	scan(s).into_iter().filter_map(|x| if let Seg::Text(c) = x { Some(c) } else { None }).collect()
}
/// The visible characters only.
pub fn visible(s: &str) -> String { bare(s).chars().filter(|c| cw(*c) != 0).collect() }
pub fn columns(s: &str) -> usize { bare(s).chars().map(cw).sum() }
/// The visible characters of the longest start that fits.
pub fn cut(s: &str, max: usize) -> String {
	let mut w = 0;
	let mut out = String::new();
	for c in bare(s).chars() {
		w += cw(c);
		if w > max { break; }
		if cw(c) != 0 { out.push(c); }
	}
	out
}

/// Sanitized task label, if anything is left of it.
pub fn label(s: &str) -> Option<String> {
	let s = s.trim_end();
	let out: String = bare(s).chars().filter_map(|c| if c.is_whitespace() { Some(' ') } else if c.is_control() { None } else { Some(c) }).collect();
	if out.is_empty() { None } else { Some(out) }
}

pub fn commas(n: u64) -> String {
	let s = n.to_string();
	let mut out = String::new();
	for (i, c) in s.chars().enumerate() {
		if i > 0 && (s.len() - i) % 3 == 0 { out.push(','); }
		out.push(c);
	}
	out
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Frame {
	/// The percentage alone?
	pub small: bool,
	pub title: Option<String>,
	pub secs: u64,
	pub bar: (usize, usize),
	pub done: u64,
	pub total: u64,
	pub pct: String,
	pub tasks: Vec<String>,
	pub raw: String,
}

fn num(s: &str) -> Option<u64> {
	let n: u64 = s.replace(',', "").parse().ok()?;
	if commas(n) == s { Some(n) } else { None }
}
fn pct(s: &str) -> Option<f64> {
	let p = s.strip_suffix('%')?;
	let (a, b) = p.split_once('.')?;
	if b.len() != 2 || a.is_empty() || ! p.bytes().all(|c| c.is_ascii_digit() || c == b'.') { return None; }
	p.parse().ok()
}

/// Read a frame from what was written between two clearings of the screen.
pub fn parse(raw: &str) -> Result<Frame, String> {
	let text = bare(raw);
	let bad = |what: &str| format!("{what} in frame {raw:?}");
	let body = text.strip_suffix('\r').ok_or_else(|| bad("no return to the first column at the end"))?;
	if body.contains('\r') { return Err(bad("carriage return")); }
	let mut lines: Vec<&str> = body.split('\n').collect();
	if lines.len() == 1 {
		if let Some(p) = lines[0].trim_start().strip_prefix("» ") {
			pct(p).ok_or_else(|| bad("malformed percentage"))?;
			return Ok(Frame { small: true, title: None, secs: 0, bar: (0, 0), done: 0, total: 0, pct: p.to_owned(), tasks: Vec::new(), raw: raw.to_owned() });
		}
	}
	let clock = |l: &str| -> bool { let b = l.as_bytes(); b.len() > 14 && b[0] == b'[' && b[3] == b':' && b[6] == b':' && b[9] == b']' && [1, 2, 4, 5, 7, 8].iter().all(|i| b[*i].is_ascii_digit()) };
	let title = if ! clock(lines[0]) && lines.len() > 1 && clock(lines[1]) { Some(lines.remove(0).to_owned()) } else { None };
	let main = lines.remove(0);
	if ! clock(main) { return Err(bad("no progress line")); }
	let n = |a: usize| main[a..a + 2].parse::<u64>().unwrap_or(0);
	let secs = n(1) * 3600 + n(4) * 60 + n(7);
	let rest = main[10..].strip_prefix("  [").ok_or_else(|| bad("malformed progress line"))?;
	let (bar, rest) = rest.split_once("]  ").ok_or_else(|| bad("malformed bar"))?;
	let a = bar.bytes().take_while(|c| *c == b'#').count();
	let b = bar.len() - a;
	if ! bar[a..].bytes().all(|c| c == b'-') { return Err(bad("malformed bar")); }
	let (counts, p) = rest.split_once("  ").ok_or_else(|| bad("no percentage"))?;
	let (d, t) = counts.split_once('/').ok_or_else(|| bad("no counts"))?;
	let done = num(d).ok_or_else(|| bad("malformed done count"))?;
	let total = num(t).ok_or_else(|| bad("malformed total"))?;
	pct(p).ok_or_else(|| bad("malformed percentage"))?;
	let mut tasks = Vec::new();
	for l in lines {
		tasks.push(l.strip_prefix("    ↳ ").ok_or_else(|| bad("malformed task line"))?.to_owned());
	}
	Ok(Frame { small: false, title, secs, bar: (a, b), done, total, pct: p.to_owned(), tasks, raw: raw.to_owned() })
}

/// Usable columns and rows of a terminal, if any.
pub fn usable(size: (u16, u16)) -> Option<(usize, usize)> {
	let w = usize::from(size.0).saturating_sub(1).min(255);
	let h = usize::from(size.1).min(255).saturating_sub(1);
	if w == 0 || h == 0 { None } else { Some((w, h)) }
}

/// Does the percentage text state this ratio?
pub fn pct_ok(p: &str, done: u64, total: u64) -> bool {
	let Some(v) = pct(p) else { return false; };
	let want = if total == 0 { 0.0 } else { done as f64 / total as f64 * 100.0 };
	(v - want).abs() <= 0.0101 && (done != 0 || v == 0.0) && (done != total || v == 100.0)
}

/// Are the parts of the frame that depend on nothing else consistent with one another, at this width?
pub fn consistent(f: &Frame, w: usize) -> Result<(), String> {
	if f.small { return Ok(()); }
	if f.done > f.total { return Err(format!("done exceeds total: {:?}", f.raw)); }
	if ! pct_ok(&f.pct, f.done, f.total) { return Err(format!("percentage {} does not match {}/{}: {:?}", f.pct, f.done, f.total, f.raw)); }
	let fixed = 19 + commas(f.done).len() + commas(f.total).len() + f.pct.len();
	let space = if w >= fixed + 10 { w - fixed } else { 0 };
	if f.bar.0 + f.bar.1 != space { return Err(format!("bar of {} columns, {space} are free: {:?}", f.bar.0 + f.bar.1, f.raw)); }
	let fill = (u128::from(f.done) * space as u128 / u128::from(f.total.max(1))) as usize;
	if f.bar.0 != fill { return Err(format!("{} of {space} columns filled for {}/{}, expected {fill}: {:?}", f.bar.0, f.done, f.total, f.raw)); }
	Ok(())
}

/// Must the percentage stand alone?
pub fn small(w: usize, done: u64, total: u64, pct: &str) -> bool {
	w < 40 || w < 19 + commas(done).len() + commas(total).len() + pct.len()
}

/// The title line expected.
pub fn want_title(title: Option<&str>, w: usize, h: usize) -> Option<String> {
	let t = title.filter(|t| ! t.is_empty() && h >= 2)?;
	let t: String = t.chars().map(|c| if c.is_whitespace() { ' ' } else { c }).collect();
	Some(cut(&t, w))
}

/// The task lines expected.
pub fn want_tasks(tasks: &BTreeSet<String>, titled: bool, w: usize, h: usize) -> Vec<String> {
	if usize::from(titled) + 1 + tasks.len() > h || w < 14 { return Vec::new(); }
	tasks.iter().map(|t| cut(t, w - 12)).collect()
}

/// Geometry: narrower than the screen, fewer lines, back where it started.
pub fn contained(f: &Frame, size: (u16, u16)) -> Result<(), String> {
	let (cols, rows) = (usize::from(size.0), usize::from(size.1));
	let text = bare(&f.raw);
	let n = text.split('\n').count();
	for l in text.trim_end_matches('\r').split('\n') {
		if columns(l) >= cols { return Err(format!("line {l:?} takes {} columns of a terminal of {cols}", columns(l))); }
	}
	if n >= rows.max(2) { return Err(format!("frame of {n} lines on a terminal of {rows}: {:?}", f.raw)); }
	Ok(())
}

/// One piece of the stream of a terminal.
#[derive(Debug, Clone)]
pub struct Piece {
	/// What follows the clearing of the screen up to the next one.
	pub text: String,
	/// Preceded by a clearing?
	pub cls: bool,
	/// Sequence numbers: start of the write with the first byte, end of the write with the last one.
	pub s: u64,
	pub e: u64,
	pub ts: u64,
	pub te: u64,
	pub tid: u32,
	/// Parts of the text (and the clearing at -3) that were not written completely.
	pub lost: Vec<(usize, usize)>,
}

/// Cut the accepted bytes up at every clearing of the screen.
pub fn pieces(log: &[crate::io::Wr]) -> Result<Vec<Piece>, String> {
	let mut bytes = Vec::new();
	let mut marks = Vec::new(); // (offset, index)
	for (i, w) in log.iter().enumerate() {
		if w.fd != 2 || w.data.is_empty() { continue; }
		marks.push((bytes.len(), i));
		bytes.extend_from_slice(&w.data);
	}
	if bytes.is_empty() { return Ok(Vec::new()); }
	let at = |pos: usize| -> usize { marks[marks.partition_point(|m| m.0 <= pos) - 1].1 };
	let mut cuts = vec![0];
	let mut i = 0;
	while i + 3 <= bytes.len() {
		if &bytes[i..i + 3] == b"\x1b[J" { if i != 0 { cuts.push(i); } i += 3; } else { i += 1; }
	}
	cuts.push(bytes.len());
	let mut out = Vec::new();
	for c in cuts.windows(2) {
		let (a, z) = (c[0], c[1]);
		let mut t = std::str::from_utf8(&bytes[a..z]).map_err(|_| format!("not UTF-8: {:?}", String::from_utf8_lossy(&bytes[a..z])))?;
		let mut cls = false;
		if let Some(x) = t.strip_prefix("\x1b[J") { t = x; cls = true; }
		let (ia, iz) = (at(a), at(z - 1));
		let (wa, wz) = (&log[ia], &log[iz]);
		let skip = a + if cls { 3 } else { 0 };
		let lost = marks.iter().filter(|m| log[m.1].lost).map(|m| (m.0, m.0 + log[m.1].data.len())).filter(|(x, y)| *x < z && *y > a)
			.map(|(x, y)| (x.saturating_sub(skip), y.saturating_sub(skip))).collect();
		out.push(Piece { text: t.to_owned(), cls, s: wa.s, e: wz.e, ts: wa.ts, te: wz.te, tid: wa.tid, lost });
	}
	Ok(out)
}
