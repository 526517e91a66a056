//! C03: kinds and custom prefixes.

use crate::model::{custom_prefix, kind_prefix, one_shot, KINDS};
use fyi_msg::{AnsiColor, Msg, MsgKind};
use hcommon::{need, plain, text, Rng, Stats};
use std::borrow::Cow;

/// Every kind, then every colour; cases beyond are random.
pub const GRID: u64 = 15 + 256 + 13;

fn eq(what: &str, got: &Msg, want: &str) -> Result<(), String> {
	need!(got.as_str() == want, "{what} renders {:?}, expected {want:?}", got.as_str());
	need!(got.len() == want.len(), "{what}: length {} of {want:?}", got.len());
	Ok(())
}

/// The boundaries must be right too: editing the parts around the prefix.
fn edit(what: &str, m: &Msg, prefix: &str, body: &str, nl: bool) -> Result<(), String> {
	let nl = if nl { "\n" } else { "" };
	eq(&format!("{what}, body replaced"), &m.clone().with_msg("né"), &format!("{prefix}né{nl}"))?;
	eq(&format!("{what}, suffix added"), &m.clone().with_suffix("!?"), &format!("{prefix}{body}!?{nl}"))?;
	eq(&format!("{what}, prefix removed"), &m.clone().with_prefix(MsgKind::None), &format!("{body}{nl}"))?;
	eq(&format!("{what}, prefix replaced"), &m.clone().with_prefix("Ab"), &format!("Ab: {body}{nl}"))?;
	eq(&format!("{what}, indented"), &m.clone().with_indent(1), &format!("    {prefix}{body}{nl}"))?;
	eq(&format!("{what}, line ended"), &m.clone().with_newline(true), &format!("{prefix}{body}\n"))?;
	eq(&format!("{what}, line not ended"), &m.clone().with_newline(false), &format!("{prefix}{body}"))
}

pub fn case(i: u64, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
	let body = if i < GRID { "Oh, Hello!".to_owned() } else { text(r, 6) };
	let i = if i < GRID { i } else { r.next() % GRID };
	if i < 15 {
		let (kind, label, color) = KINDS[i as usize];
		let want = kind_prefix(label, color);
		need!(kind.as_str() == label && kind.to_string() == label, "{kind:?} is labelled {:?}", kind.as_str());
		need!(kind.is_empty() == label.is_empty(), "{kind:?}: is_empty {}", kind.is_empty());
		let num = match color { "" => None, c => Some(c.strip_prefix("38;5;").map_or_else(|| c.parse::<u8>().unwrap() - 82, |c| c.parse().unwrap())) };
		need!(kind.prefix_color().map(|c| c as u8) == num, "{kind:?} has colour {:?}", kind.prefix_color());
		let full = format!("{want}{body}");
		let m = Msg::new(kind, &body);
		eq(&format!("new({kind:?})"), &m, &full)?;
		edit(&format!("new({kind:?})"), &m, &want, &body, false)?;
		let m = kind.into_msg(&body);
		eq(&format!("{kind:?}.into_msg"), &m, &full)?;
		edit(&format!("{kind:?}.into_msg"), &m, &want, &body, false)?;
		let mut m = Msg::new((text(r, 2), 9), &body);
		m.set_prefix(kind);
		eq(&format!("set_prefix({kind:?})"), &m, &full)?;
		edit(&format!("set_prefix({kind:?})"), &m, &want, &body, false)?;
		eq(&format!("with_prefix({kind:?})"), &Msg::from(&body).with_prefix(kind), &full)?;
		st.add("kind cases", 1);
		st.seen(&format!("{kind:?} {body:?}"));
	}
	else if i < 15 + 256 {
		let c = (i - 15) as u8;
		let label = match r.below(6) { 0 => String::new(), 1 => "Ünï".to_owned(), 2 => plain(r, 3), _ => text(r, 3) };
		let ac = AnsiColor::from_u8(c);
		let cow: Cow<str> = Cow::Borrowed(&label);
		for (color, want) in [(None, custom_prefix(&label, None)), (Some(c), custom_prefix(&label, Some(c)))] {
			let full = format!("{want}{body}");
			let forms: Vec<(&str, Msg)> = match color {
				None => vec![
					("&str", Msg::new(label.as_str(), &body)), ("&String", Msg::new(&label, &body)),
					("String", Msg::new(label.clone(), &body)), ("&Cow", Msg::new(&cow, &body)),
					("Cow", Msg::new(cow.clone(), &body)),
					("set &str", { let mut m = Msg::info(&body).with_newline(false); m.set_prefix(label.as_str()); m }),
					("with String", Msg::new(("X", 1), &body).with_prefix(label.clone())),
					("with &Cow", Msg::new("X", &body).with_prefix(&cow)),
				],
				Some(c) => vec![
					("&str+color", Msg::new((label.as_str(), ac), &body)), ("&String+color", Msg::new((&label, ac), &body)),
					("String+color", Msg::new((label.clone(), ac), &body)), ("&Cow+color", Msg::new((&cow, ac), &body)),
					("Cow+color", Msg::new((cow.clone(), ac), &body)),
					("&str+u8", Msg::new((label.as_str(), c), &body)), ("&String+u8", Msg::new((&label, c), &body)),
					("String+u8", Msg::new((label.clone(), c), &body)), ("&Cow+u8", Msg::new((&cow, c), &body)),
					("Cow+u8", Msg::new((cow.clone(), c), &body)),
					("set &str+u8", { let mut m = Msg::info(&body).with_newline(false); m.set_prefix((label.as_str(), c)); m }),
					("with String+color", Msg::new(("X", 1), &body).with_prefix((label.clone(), ac))),
				],
			};
			for (k, m) in forms {
				let what = format!("label {label:?} as {k} (colour {color:?})");
				eq(&what, &m, &full)?;
				edit(&what, &m, &want, &body, false)?;
				st.add("custom prefix forms", 1);
			}
		}
		st.seen(&format!("{c} {label:?} {body:?}"));
	}
	else {
		let k = (i - 15 - 256) as usize;
		let (m, label) = one_shot(k, &body);
		let (kind, _, color) = KINDS.iter().find(|k| k.1 == label).unwrap();
		let want = kind_prefix(label, color);
		let what = format!("one-step {label}");
		eq(&what, &m, &format!("{want}{body}\n"))?;
		edit(&what, &m, &want, &body, true)?;
		need!(m == Msg::new(*kind, &body).with_newline(true), "{what} differs from the long form");
		st.add("one-step cases", 1);
		st.seen(&format!("{label} {body:?}"));
	}
	if i == 0 {
		// All kinds, each once.
		let names: Vec<&str> = MsgKind::ALL.iter().map(|k| k.as_str()).filter(|s| ! s.is_empty()).collect();
		let mut want: Vec<&str> = KINDS.iter().map(|k| k.1).filter(|s| ! s.is_empty()).collect();
		let mut got = names.clone();
		got.sort_unstable();
		want.sort_unstable();
		need!(got == want, "all kinds: {names:?}");
		need!(MsgKind::default() == MsgKind::None, "default kind is {:?}", MsgKind::default());
		#[cfg(feature = "full")]
		{
			need!(MsgKind::ALL.len() == 17, "{} kinds", MsgKind::ALL.len());
			for k in [MsgKind::Blank, MsgKind::Custom] {
				need!(k.is_empty() && k.as_str().is_empty() && k.prefix_color().is_none(), "{k:?} has a label");
				eq(&format!("new({k:?})"), &Msg::new(k, "x"), "x")?;
			}
			need!(MsgKind::from(&b"prompt"[..]) == MsgKind::Confirm, "the other name of confirm is not known");
			for (k, l, _) in KINDS {
				let cmd = l.to_lowercase();
				need!(k.command() == cmd, "{k:?} has command {}", k.command());
				need!(MsgKind::from(cmd.as_bytes()) == k, "command {cmd} gives {:?}", MsgKind::from(cmd.as_bytes()));
				need!(MsgKind::from(format!("  {cmd}\n").as_bytes()) == k, "command {cmd} with space");
				if ! l.is_empty() { need!(MsgKind::from(l.as_bytes()) == MsgKind::None, "label {l} taken for a command"); }
			}
		}
		#[cfg(not(feature = "full"))]
		need!(MsgKind::ALL.len() == 15, "{} kinds", MsgKind::ALL.len());
	}
	Ok(())
}
