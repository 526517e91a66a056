//! C23: before/after savings.

use crate::model::{check, fresh};
use fyi_msg::{BeforeAfter, Msg};
use hcommon::{need, text, Rng, Stats};
use std::num::NonZeroU64;

/// Separators, by hand.
fn nice(n: u64) -> String {
	let s = n.to_string();
	let mut out = String::new();
	for (k, c) in s.chars().enumerate() {
		if k > 0 && (s.len() - k) % 3 == 0 { out.push(','); }
		out.push(c);
	}
	out
}

pub fn case(_i: u64, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
	let b = r.u64_any();
	let a = match r.below(5) { 0 => b, 1 => b.wrapping_add(r.below(3) as u64), 2 => b.wrapping_sub(r.below(3) as u64), 3 => b / (1 + r.below(1000) as u64), _ => r.u64_any() };
	let ba = if r.bool() { BeforeAfter::from((b, a)) } else {
		let mut x = BeforeAfter::start(b);
		if r.bool() { x.stop(r.u64_any()); }
		x.stop(a);
		x
	};
	let open = BeforeAfter::start(b);
	let ctx = format!("before {b}, after {a}");
	need!(open.after().is_none() && open.less().is_none() && open.more().is_none() && open.less_percent().is_none() && open.more_percent().is_none(), "{ctx}: open pair reports something");
	need!(ba.before() == NonZeroU64::new(b) && ba.after() == NonZeroU64::new(a), "{ctx}: reads back as {:?}/{:?}", ba.before(), ba.after());
	let (less, more) = if b == 0 || a == 0 { (None, None) } else { (b.checked_sub(a).and_then(NonZeroU64::new), a.checked_sub(b).and_then(NonZeroU64::new)) };
	need!(ba.less() == less, "{ctx}: less {:?}, expected {less:?}", ba.less());
	need!(ba.more() == more, "{ctx}: more {:?}, expected {more:?}", ba.more());
	for (name, got, d) in [("less", ba.less_percent(), less), ("more", ba.more_percent(), more)] {
		match (got, d) {
			(None, None) => {},
			(Some(p), Some(d)) => {
				let want = d.get() as f64 / b as f64;
				need!(p.is_finite() && (p - want).abs() <= want.abs() * 1e-12, "{ctx}: {name} percent {p}, expected {want}");
				st.add("percentages", 1);
			},
			_ => return Err(format!("{ctx}: {name} percent {got:?}")),
		}
	}

	// As a suffix.
	let (mut m, mut model, how) = fresh(r, 4);
	if r.bool() { model.suffix = text(r, 3); m.set_suffix(&model.suffix); }
	if r.bool() { m.set_indent(2); model.indent = " ".repeat(8); }
	if r.bool() { m.set_newline(true); model.nl = true; }
	let m: Msg = m.with_bytes_saved(ba);
	let ctx = format!("{ctx} on {how}");
	let Some(less) = less else {
		model.suffix = " \x1b[2m(No savings.)\x1b[0m".to_owned();
		check(&m, &model).map_err(|e| format!("{ctx}: {e}"))?;
		st.add("no savings", 1);
		return Ok(());
	};
	// Percentage: two decimals, within rounding of the real thing.
	let head = format!("{}{}{}{} \x1b[2m(Saved {} bytes, ", model.indent, model.ts, model.prefix, model.msg, nice(less.get()));
	let tail = format!(".)\x1b[0m{}", if model.nl { "\n" } else { "" });
	let mid = m.as_str().strip_prefix(head.as_str()).and_then(|x| x.strip_suffix(tail.as_str()))
		.ok_or_else(|| format!("{ctx}: {:?} should be {head:?}…{tail:?}", m.as_str()))?;
	let num = mid.strip_suffix('%').filter(|x| x.split_once('.').is_some_and(|y| y.1.len() == 2))
		.and_then(|x| x.parse::<f64>().ok()).ok_or_else(|| format!("{ctx}: percentage {mid:?}"))?;
	let want = less.get() as f64 / b as f64 * 100.0;
	need!((num - want).abs() <= 0.0101, "{ctx}: shows {mid}, expected about {want}");
	model.suffix = format!(" \x1b[2m(Saved {} bytes, {mid}.)\x1b[0m", nice(less.get()));
	check(&m, &model).map_err(|e| format!("{ctx}: {e}"))?;
	check(&m.clone().with_suffix("é"), &crate::model::Model { suffix: "é".to_owned(), ..model.clone() }).map_err(|e| format!("{ctx}, then another suffix: {e}"))?;
	check(&m.with_bytes_saved(ba), &model).map_err(|e| format!("{ctx}, twice: {e}"))?;
	st.add("savings", 1);
	st.seen(&ctx);
	Ok(())
}
