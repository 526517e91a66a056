//! C08/C09: display width, cut points, fitting.

use crate::model::fresh;
use fyi_msg::{fit_to_width, length_width, width, Msg};
use hcommon::{need, plain, scan, text, Rng, Seg, Stats};
use unicode_width::UnicodeWidthChar;

fn cw(c: char) -> usize { UnicodeWidthChar::width(c).unwrap_or(0) }

/// Reference width.
fn ref_width(s: &str) -> usize {
	scan(s).iter().map(|x| match x { Seg::Text(c) => cw(*c), Seg::Esc(_) => 0 }).sum()
}

/// Reference cut point: byte offset of the first character that does not fit.
fn ref_cut(s: &str, max: usize) -> usize {
	let (mut w, mut pos) = (0, 0);
	for x in scan(s) {
		match x {
			Seg::Text(c) => {
				w += cw(c);
				if w > max { return pos; }
				pos += c.len_utf8();
			},
			Seg::Esc(e) => pos += e.len(),
		}
	}
	s.len()
}

fn widths(r: &mut Rng, s: &str) -> Vec<usize> {
	let w = ref_width(s);
	let mut out = vec![0, 1, 2, w.saturating_sub(1), w, w + 1, s.len(), r.below(w + 3), r.below(w + 3), r.below(300)];
	if r.chance(1, 8) { out.push(usize::MAX); }
	if r.chance(1, 10) { out.extend(0..w.min(60)); }
	out
}

/// Random text; lines are more common than usual.
fn lines(r: &mut Rng) -> String {
	let mut out = String::new();
	for _ in 0..r.range(1, 5) {
		let max = *r.pick(&[1, 3, 7]);
		if r.chance(1, 3) { out.push_str(&plain(r, max)); } else { out.push_str(&text(r, max)); }
		match r.below(6) { 0 => {}, 1 => out.push_str("\r\n"), 2 => out.push_str("\n\n"), _ => out.push('\n') }
	}
	if r.bool() { out.pop(); }
	out
}

pub fn width_case(_i: u64, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
	let n = *r.pick(&[1, 3, 6, 12, 30]);
	let s = if r.chance(1, 4) { lines(r) } else { text(r, n) };
	let want = ref_width(&s);
	need!(width(&s) == want, "width of {s:?} is {}, expected {want}", width(&s));
	for max in widths(r, &s) {
		let got = length_width(&s, max);
		let want = ref_cut(&s, max);
		need!(got == want, "cut of {s:?} at {max} columns is {got}, expected {want}");
		need!(s.is_char_boundary(got), "cut of {s:?} at {max} is inside a character ({got})");
		need!(ref_width(&s[..got]) <= max, "{s:?} cut to {max} columns is {:?}", &s[..got]);
		st.add("cuts", 1);
		if got < s.len() { st.add("cuts short of the end", 1); }
	}
	if want > 0 && s.contains('\x1b') { st.seen(&s); }
	Ok(())
}

/// Reference fitter.
fn ref_fit(s: &str, max: usize) -> String {
	if max == 0 { return String::new(); }
	let mut out = String::new();
	for line in s.split_inclusive('\n') {
		let end = if line.ends_with("\r\n") { "\r\n" } else if line.ends_with('\n') { "\n" } else { "" };
		let k = ref_cut(line, max);
		if k == line.len() { out.push_str(line); continue; }
		let k = k.min(line.len() - end.len());
		out.push_str(&line[..k]);
		for x in scan(&line[k..line.len() - end.len()]) { if let Seg::Esc(e) = x { out.push_str(&e); } }
		out.push_str(end);
	}
	out
}

pub fn fit_case(_i: u64, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
	let s = if r.chance(2, 3) { lines(r) } else { text(r, 10) };
	for max in widths(r, &s) {
		let want = ref_fit(&s, max);
		let got = fit_to_width(&s, max);
		need!(got == want, "{s:?} fit to {max} columns gives {got:?}, expected {want:?}");
		for line in got.split('\n') { need!(ref_width(line) <= max, "{s:?} fit to {max} has a line too wide: {line:?}"); }
		if max > 0 { need!(got.matches('\n').count() == s.matches('\n').count(), "{s:?} fit to {max} lost line breaks: {got:?}"); }
		let again = fit_to_width(&got, max);
		need!(again == got, "{s:?} fit to {max} again gives {again:?}, not {got:?}");
		st.add("fits", 1);
		if got != s { st.add("fits that cut something", 1); }
	}
	// As a message.
	let (mut m, ..) = fresh(r, 5);
	if r.bool() { m.set_indent(r.below(4) as u8); }
	if r.bool() { m.set_newline(true); }
	if r.bool() { m.set_suffix(text(r, 3)); }
	if r.chance(1, 4) { m.set_timestamp(true); }
	if r.chance(1, 4) { m = Msg::new(("Ünï", 199), s.clone()).with_newline(r.bool()); }
	let max = r.below(ref_width(m.as_str()) + 3);
	let before = m.as_str().to_owned();
	let got = m.fitted(max).into_owned();
	let want = ref_fit(&before, max);
	need!(got == want, "message {before:?} fit to {max} gives {got:?}, expected {want:?}");
	need!(m.as_str() == before, "fitting changed the message {before:?}");
	st.add("messages fit", 1);
	if s.contains('\x1b') { st.seen(&s); }
	Ok(())
}
