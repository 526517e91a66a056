//! C01/C02: random edit histories stepped next to a part-wise model.

use fyi_msg::{AnsiColor, Msg, MsgKind};
use hcommon::{need, plain, strip, text, Rng, Stats};
use std::borrow::Cow;

/// The reference: one string per part.
#[derive(Debug, Clone, Default)]
pub struct Model {
	pub indent: String,
	pub ts: String,
	pub prefix: String,
	pub msg: String,
	pub suffix: String,
	pub nl: bool,
}

impl Model {
	pub fn text(&self) -> String {
		format!("{}{}{}{}{}{}", self.indent, self.ts, self.prefix, self.msg, self.suffix, if self.nl { "\n" } else { "" })
	}
}

/// What the documented labels and colours are.
pub const KINDS: [(MsgKind, &str, &str); 15] = [
	(MsgKind::None, "", ""),
	(MsgKind::Aborted, "Aborted", "91"),
	(MsgKind::Confirm, "Confirm", "38;5;208"),
	(MsgKind::Crunched, "Crunched", "92"),
	(MsgKind::Debug, "Debug", "96"),
	(MsgKind::Done, "Done", "92"),
	(MsgKind::Error, "Error", "91"),
	(MsgKind::Found, "Found", "92"),
	(MsgKind::Info, "Info", "95"),
	(MsgKind::Notice, "Notice", "95"),
	(MsgKind::Review, "Review", "96"),
	(MsgKind::Skipped, "Skipped", "93"),
	(MsgKind::Success, "Success", "92"),
	(MsgKind::Task, "Task", "38;5;199"),
	(MsgKind::Warning, "Warning", "93"),
];

pub fn kind_prefix(label: &str, color: &str) -> String {
	if label.is_empty() { String::new() } else { format!("\x1b[1;{color}m{label}:\x1b[0m ") }
}

pub fn color_code(n: u8) -> String {
	match n {
		0..=7 => format!("{}", 30 + u16::from(n)),
		8..=15 => format!("{}", 82 + u16::from(n)),
		_ => format!("38;5;{n}"),
	}
}

pub fn custom_prefix(label: &str, color: Option<u8>) -> String {
	if label.is_empty() { return String::new(); }
	match color {
		None => format!("{label}: "),
		Some(c) => format!("\x1b[1;{}m{label}:\x1b[0m ", color_code(c)),
	}
}

/// A random prefix argument, applied by `f` in whatever form it takes.
macro_rules! with_prefix {
	($r:expr, $model:expr, |$p:ident| $body:expr) => ({
		let r: &mut Rng = $r;
		let label = match r.below(5) { 0 => String::new(), 1 | 2 => plain(r, 3), _ => text(r, 3) };
		let c = r.below(256) as u8;
		match r.below(14) {
			0..=3 => { let k = *r.pick(&KINDS); $model = kind_prefix(k.1, k.2); let $p = k.0; $body },
			4 => { $model = custom_prefix(&label, None); let $p = label.as_str(); $body },
			5 => { $model = custom_prefix(&label, None); let $p = label.clone(); $body },
			6 => { $model = custom_prefix(&label, None); let $p = &label; $body },
			7 => { $model = custom_prefix(&label, None); let $p = Cow::Borrowed(label.as_str()); $body },
			8 => { $model = custom_prefix(&label, Some(c)); let $p = (label.as_str(), c); $body },
			9 => { $model = custom_prefix(&label, Some(c)); let $p = (label.clone(), c); $body },
			10 => { $model = custom_prefix(&label, Some(c)); let $p = (&label, AnsiColor::from(c)); $body },
			11 => { $model = custom_prefix(&label, Some(c)); let $p = (label.as_str(), AnsiColor::from(c)); $body },
			12 => { $model = custom_prefix(&label, Some(c)); let p0: Cow<str> = Cow::Owned(label.clone()); let $p = (&p0, AnsiColor::from(c)); $body },
			_ => { $model = custom_prefix(&label, Some(c)); let p0: Cow<str> = Cow::Owned(label.clone()); let $p = (p0, c); $body },
		}
	});
}

/// One-step constructors.
pub fn one_shot(i: usize, m: &str) -> (Msg, &'static str) {
	match i % 13 {
		0 => (Msg::aborted(m), "Aborted"),
		1 => (Msg::crunched(m), "Crunched"),
		2 => (Msg::debug(m), "Debug"),
		3 => (Msg::done(m), "Done"),
		4 => (Msg::error(m), "Error"),
		5 => (Msg::found(m), "Found"),
		6 => (Msg::info(m), "Info"),
		7 => (Msg::notice(m), "Notice"),
		8 => (Msg::review(m), "Review"),
		9 => (Msg::skipped(m), "Skipped"),
		10 => (Msg::success(m), "Success"),
		11 => (Msg::task(m), "Task"),
		_ => (Msg::warning(m), "Warning"),
	}
}

/// A new message and its model.
pub fn fresh(r: &mut Rng, max: usize) -> (Msg, Model, String) {
	let m = text(r, max);
	let mut model = Model { msg: m.clone(), ..Model::default() };
	let (msg, how) = match r.below(9) {
		0 => { model.msg = String::new(); (Msg::default(), "default") },
		1 => (Msg::from(m.clone()), "from String"),
		2 => (Msg::from(m.as_str()), "from &str"),
		3 => (Msg::from(&m), "from &String"),
		4 => (Msg::from(if r.bool() { Cow::Borrowed(m.as_str()) } else { Cow::Owned(m.clone()) }), "from Cow"),
		5 => {
			let (msg, label) = one_shot(r.below(13), &m);
			let k = KINDS.iter().find(|k| k.1 == label).unwrap();
			model.prefix = kind_prefix(k.1, k.2);
			model.nl = true;
			(msg, "one-shot")
		},
		6 => {
			let k = *r.pick(&KINDS);
			model.prefix = kind_prefix(k.1, k.2);
			(k.0.into_msg(&m), "into_msg")
		},
		_ => { let msg = with_prefix!(r, model.prefix, |p| Msg::new(p, &m)); (msg, "new") },
	};
	(msg, model, format!("{how}({m:?})"))
}

/// Every view must agree with the model.
pub fn check(msg: &Msg, model: &Model) -> Result<(), String> {
	let want = model.text();
	need!(msg.as_str() == want, "text is {:?}, expected {want:?}", msg.as_str());
	need!(msg.as_bytes() == want.as_bytes(), "as_bytes differs from {want:?}");
	need!(msg.len() == want.len(), "len {} for {want:?} ({})", msg.len(), want.len());
	need!(msg.is_empty() == want.is_empty(), "is_empty {} for {want:?}", msg.is_empty());
	Ok(())
}

/// The less interesting views.
fn check_more(msg: &Msg, model: &Model) -> Result<(), String> {
	let want = model.text();
	let s: &str = msg.as_ref();
	let b: &[u8] = msg.as_ref();
	need!(s == want && b == want.as_bytes(), "AsRef differs from {want:?}");
	need!(msg.to_string() == want && format!("{msg}") == want, "Display gives {:?} for {want:?}", msg.to_string());
	let d: &str = std::borrow::Borrow::borrow(msg);
	need!(d == want, "Borrow gives {d:?} for {want:?}");
	let c = msg.clone();
	need!(c.as_str() == want, "clone gives {:?} for {want:?}", c.as_str());
	need!(c.clone().into_string() == want, "into_string differs from {want:?}");
	need!(c.clone().into_bytes() == want.as_bytes(), "into_bytes differs from {want:?}");
	need!(String::from(c) == want, "String::from differs from {want:?}");
	Ok(())
}

/// Step a random history. With `strips`, removing formatting comes up often.
pub fn history(r: &mut Rng, st: &mut Stats, strips: bool) -> Result<(), String> {
	let size = *r.pick(&[1, 2, 4, 8]);
	let (mut msg, mut m, how) = fresh(r, size);
	let mut log = vec![how];
	let fail = |log: &[String], e: String| format!("after {}: {e}", log.join(" -> "));
	check(&msg, &m).map_err(|e| fail(&log, e))?;
	let steps = r.range(1, 12);
	for _ in 0..steps {
		let builder = r.bool();
		let op = if strips && r.chance(2, 5) { 6 } else { r.below(if strips { 13 } else { 12 }) };
		match op {
			0 => {
				let n = *r.pick(&[0_u8, 1, 2, 3, 7, 8, 9, 31, 63, 64, 65, 128, 255]);
				m.indent = " ".repeat(4 * usize::from(n.min(8)));
				log.push(format!("indent {n}"));
				if builder { msg = msg.with_indent(n); } else { msg.set_indent(n); }
			},
			1 | 7 => {
				m.msg = text(r, size);
				log.push(format!("msg {:?}", m.msg));
				if builder { msg = msg.with_msg(&m.msg); } else { msg.set_msg(&m.msg); }
			},
			2 | 8 => {
				if builder { msg = with_prefix!(r, m.prefix, |p| msg.with_prefix(p)); }
				else { with_prefix!(r, m.prefix, |p| msg.set_prefix(p)); }
				log.push(format!("prefix {:?}", m.prefix));
			},
			3 | 9 => {
				m.suffix = text(r, size);
				log.push(format!("suffix {:?}", m.suffix));
				if builder { msg = msg.with_suffix(&m.suffix); } else { msg.set_suffix(&m.suffix); }
			},
			4 | 10 => {
				m.nl = r.bool();
				log.push(format!("newline {}", m.nl));
				if builder { msg = msg.with_newline(m.nl); } else { msg.set_newline(m.nl); }
			},
			5 => {
				#[cfg(feature = "full")]
				{
					let on = r.chance(2, 3);
					log.push(format!("timestamp {on}"));
					if builder { msg = msg.with_timestamp(on); } else { msg.set_timestamp(on); }
					// Its content is judged elsewhere (C05), except for its shape.
					if on {
						let rest = msg.as_str().strip_prefix(m.indent.as_str())
							.ok_or_else(|| fail(&log, format!("indentation gone: {:?}", msg.as_str())))?;
						let len = "\x1b[2m[\x1b[0;34m".len() + 19 + "\x1b[0;2m]\x1b[0m ".len();
						let got = rest.get(..len).unwrap_or("");
						if ! (got.starts_with("\x1b[2m[\x1b[0;34m2") && got.ends_with("\x1b[0;2m]\x1b[0m ")) {
							return Err(fail(&log, format!("no timestamp in {:?}", msg.as_str())));
						}
						m.ts = got.to_owned();
					}
					else { m.ts.clear(); }
				}
			},
			6 => {
				let old = m.text();
				for p in [&mut m.ts, &mut m.prefix, &mut m.msg, &mut m.suffix] { *p = strip(p); }
				let changed = m.text() != old;
				log.push("strip".to_owned());
				if strips { st.add(if changed { "strips that changed something" } else { "strips of clean text" }, 1); }
				if builder { msg = msg.without_ansi(); }
				else {
					let said = msg.strip_ansi();
					if said != changed { return Err(fail(&log, format!("strip_ansi said {said}, but the text {} (now {:?})", if changed { "changed" } else { "did not change" }, msg.as_str()))); }
				}
				check(&msg, &m).map_err(|e| fail(&log, e))?;
				if strips && r.bool() {
					let again = msg.strip_ansi();
					if again { return Err(fail(&log, format!("stripping again changed something: {:?}", msg.as_str()))); }
				}
			},
			11 => { // Everything becomes the body.
				let s = m.text();
				log.push("rebuilt from its own text".to_owned());
				msg = if builder { Msg::from(msg.into_string()) } else { Msg::from(msg.as_str()) };
				m = Model { msg: s, ..Model::default() };
			},
			_ => { log.push("clone".to_owned()); msg = msg.clone(); },
		}
		check(&msg, &m).map_err(|e| fail(&log, e))?;
		st.add("edits checked", 1);
		// A copy's parts must be where the original's are: clear them in turn.
		if r.chance(1, 6) {
			let (mut c, mut cm) = (msg.clone(), m.clone());
			for id in 0..6 {
				let mut id = (id + op) % 6;
				if cfg!(not(feature = "full")) && id == 1 { id = 0; }
				match id {
					0 => { c.set_indent(0); cm.indent.clear(); },
					#[cfg(feature = "full")] 1 => { c.set_timestamp(false); cm.ts.clear(); },
					2 => { c.set_prefix(""); cm.prefix.clear(); },
					3 => { c.set_msg(""); cm.msg.clear(); },
					4 => { c.set_suffix(""); cm.suffix.clear(); },
					_ => { c.set_newline(false); cm.nl = false; },
				}
				check(&c, &cm).map_err(|e| fail(&log, format!("clearing part {id} of a copy: {e}")))?;
			}
			if ! cm.text().is_empty() && cfg!(feature = "full") { return Err(fail(&log, "parts left over".to_owned())); }
			check(&msg, &m).map_err(|e| fail(&log, format!("editing a copy changed the original: {e}")))?;
		}
	}
	check_more(&msg, &m).map_err(|e| fail(&log, e))?;
	st.seen(&log.join(" -> "));
	Ok(())
}
