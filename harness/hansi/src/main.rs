//! Prints what macros and colours come to; the expressions are generated by checks/ansi.py.
#![recursion_limit = "1024"]
#![allow(unused_imports, unused_macros)]

use fyi_ansi::{ansi, blink, bold, csi, dim, italic, strike, underline};
use fyi_msg::AnsiColor;
use std::collections::{BTreeSet, HashSet};
use std::io::Write;

include!(env!("FYI_GENERATED"));

fn row(out: &mut Vec<u8>, id: &str, s: &str) {
	out.extend(id.bytes());
	out.push(b'\t');
	for b in s.bytes() { out.extend(format!("{b:02x}").bytes()); }
	out.push(b'\n');
}

fn main() {
	let mut out = Vec::new();
	for n in u8::MIN..=u8::MAX {
		let c = AnsiColor::from(n);
		const ALL: [AnsiColor; 256] = { let mut a = [AnsiColor::from_u8(0); 256]; let mut i = 0; while i < 256 { a[i] = AnsiColor::from_u8(i as u8); i += 1; } a };
		row(&mut out, &format!("name/{n}"), &format!("{c:?}"));
		row(&mut out, &format!("back/{n}"), &(c as u8).to_string());
		row(&mut out, &format!("const/{n}"), &(ALL[usize::from(n)] as u8).to_string());
		row(&mut out, &format!("str/{n}"), c.as_str());
		row(&mut out, &format!("display/{n}"), &format!("{c}"));
		row(&mut out, &format!("pad/{n}"), &format!("{c:>20}"));
		let eq: Vec<String> = (u8::MIN..=u8::MAX).filter(|m| c == *m || *m == c || c == AnsiColor::from(*m)).map(|m| m.to_string()).collect();
		row(&mut out, &format!("eq/{n}"), &eq.join(" "));
		let all = (u8::MIN..=u8::MAX).all(|m| (c == m) == (n == m) && (m == c) == (n == m) && (c == AnsiColor::from(m)) == (n == m) && c.cmp(&AnsiColor::from(m)) == n.cmp(&m));
		row(&mut out, &format!("rel/{n}"), if all { "ok" } else { "wrong" });
	}
	let h: HashSet<AnsiColor> = (u8::MIN..=u8::MAX).map(AnsiColor::from).collect();
	let b: BTreeSet<AnsiColor> = (u8::MIN..=u8::MAX).map(AnsiColor::from).collect();
	row(&mut out, "sets", &format!("{} {} {}", h.len(), b.len(), (u8::MIN..=u8::MAX).all(|n| h.contains(&AnsiColor::from_u8(n)) && b.contains(&AnsiColor::from_u8(n)))));
	row(&mut out, "reset", AnsiColor::RESET);
	generated(&mut out);
	std::io::stdout().write_all(&out).unwrap();
}
