//! C04: equality, ordering, hashing.

use crate::model::fresh;
use fyi_msg::{Msg, MsgKind};
use hcommon::{need, text, Rng, Stats};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher, RandomState};

/// A differently built message of (usually) the same text.
fn rebuild(r: &mut Rng, m: &Msg) -> Msg {
	let s = m.as_str();
	let cut = |r: &mut Rng, s: &str| { let mut k = r.below(s.len() + 1); while ! s.is_char_boundary(k) { k -= 1; } k };
	match r.below(8) {
		0 => Msg::from(s),
		1 => m.clone(),
		2 => { let k = cut(r, s); Msg::from(&s[..k]).with_suffix(&s[k..]) },
		3 => s.strip_suffix('\n').map_or_else(|| Msg::from(s), |t| Msg::from(t).with_newline(true)),
		4 => s.strip_prefix("    ").map_or_else(|| Msg::from(s), |t| Msg::from(t).with_indent(1)),
		5 => s.split_once(": ").filter(|t| ! t.0.is_empty()).map_or_else(|| Msg::from(s), |(a, b)| Msg::new(a, b)),
		6 => { // Edited away and back.
			let mut x = Msg::new(MsgKind::Error, text(r, 3)).with_indent(3).with_suffix("zzz");
			x.set_prefix(""); x.set_indent(0); x.set_suffix(""); x.set_msg(s); x
		},
		_ => { let mut t = s.to_owned(); match r.below(3) { 0 => { t.pop(); }, 1 => t.push('x'), _ => t.insert(0, ' ') }; Msg::from(t) },
	}
}

pub fn case(_i: u64, r: &mut Rng, st: &mut Stats) -> Result<(), String> {
	let size = *r.pick(&[0, 1, 2, 5]);
	let (mut a, ..) = fresh(r, size);
	if r.bool() { a.set_indent(r.below(3) as u8); }
	if r.bool() { a.set_newline(true); }
	if r.bool() { a.set_suffix(text(r, 2)); }
	let b = if r.chance(3, 4) { rebuild(r, &a) } else { fresh(r, size).0 };
	let (s, t) = (a.as_str().to_owned(), b.as_str().to_owned());
	let ctx = format!("{s:?} and {t:?}");
	st.add(if s == t { "equal pairs" } else { "unequal pairs" }, 1);

	need!((a == b) == (s == t) && (b == a) == (s == t), "== of {ctx} is {}/{}", a == b, b == a);
	need!((a != b) == (s != t), "!= of {ctx} is {}", a != b);
	need!(a.cmp(&b) == s.cmp(&t), "cmp of {ctx} is {:?}", a.cmp(&b));
	need!(a.partial_cmp(&b) == Some(s.cmp(&t)), "partial_cmp of {ctx} is {:?}", a.partial_cmp(&b));
	need!((a < b) == (s < t) && (a <= b) == (s <= t) && (a > b) == (s > t) && (a >= b) == (s >= t), "operators on {ctx}");
	let mx = a.clone().max(b.clone());
	need!(mx.as_str() == s.as_str().max(t.as_str()), "max of {ctx} is {mx:?}");

	// Each type, both ways.
	let e = s == t;
	macro_rules! both { ($($name:literal: $v:expr),+ $(,)?) => ($( { let v = $v; need!((a == v) == e, "{ctx}: Msg == {} is {}", $name, a == v); need!((v == a) == e, "{ctx}: {} == Msg is {}", $name, v == a); st.add("comparisons with other types", 2); } )+) }
	need!((a == *t.as_str()) == e && (*t.as_str() == a) == e, "{ctx}: str");
	need!((a == *t.as_bytes()) == e && (*t.as_bytes() == a) == e, "{ctx}: [u8]");
	let (bx, bb): (Box<str>, Box<[u8]>) = (t.clone().into_boxed_str(), t.clone().into_bytes().into_boxed_slice());
	let (cs, cb): (Cow<str>, Cow<[u8]>) = if r.bool() { (Cow::Borrowed(&t), Cow::Borrowed(t.as_bytes())) } else { (Cow::Owned(t.clone()), Cow::Owned(t.clone().into_bytes())) };
	let tv = t.clone().into_bytes();
	both!(
		"&str": t.as_str(), "String": t.clone(), "&String": &t, "Cow<str>": cs.clone(), "&Cow<str>": &cs, "Box<str>": bx.clone(), "&Box<str>": &bx,
		"&[u8]": t.as_bytes(), "Vec<u8>": tv.clone(), "&Vec<u8>": &tv, "Cow<[u8]>": cb.clone(), "&Cow<[u8]>": &cb, "Box<[u8]>": bb.clone(), "&Box<[u8]>": &bb,
	);

	// Bytes that are no text, or not quite this one.
	for _ in 0..3 {
		let mut v = s.clone().into_bytes();
		match r.below(6) {
			0 => { let k = r.below(v.len() + 1); v.insert(k, *r.pick(&[0xff, 0x80, 0xc3, 0, b' ', b'\n'])); },
			1 => { v.pop(); },
			2 => if ! v.is_empty() { let k = r.below(v.len()); v[k] ^= 1 << r.below(8); },
			3 => if let Some(k) = v.windows(3).position(|w| w == "\u{fffd}".as_bytes()) { v.splice(k..k + 3, [0xff]); },
			4 => { v.make_ascii_uppercase(); },
			_ => {},
		}
		let want = v == s.as_bytes();
		need!((a == *v.as_slice()) == want && (*v.as_slice() == a) == want, "{s:?} against the bytes {v:?}: == is {} and {}", a == *v.as_slice(), *v.as_slice() == a);
		need!((a == v) == want && (v == a) == want && (a == v.as_slice()) == want, "{s:?} against the bytes {v:?} in a vector: == is {} and {}", a == v, v == a);
		if ! want { st.add("comparisons with other bytes", 2); }
	}

	// Hashes agree with those of the text.
	let rs = RandomState::new();
	need!(rs.hash_one(&a) == rs.hash_one(s.as_str()), "{s:?}: hash differs from the text's");
	if e { need!(rs.hash_one(&a) == rs.hash_one(&b), "{ctx}: equal but hashes differ"); }
	let mut h = Rec(Vec::new());
	let mut h2 = Rec(Vec::new());
	a.hash(&mut h);
	s.hash(&mut h2);
	need!(h.0 == h2.0, "{s:?} feeds the hasher differently from its text");

	// Collections.
	let hm: HashMap<Msg, u8> = [(a.clone(), 1), (b.clone(), 2)].into_iter().collect();
	let bm: BTreeMap<Msg, u8> = [(a.clone(), 1), (b.clone(), 2)].into_iter().collect();
	let wa = if e { 2 } else { 1 };
	need!(hm.get(s.as_str()) == Some(&wa) && hm.get(t.as_str()) == Some(&2), "{ctx}: HashMap lookup by text");
	need!(bm.get(s.as_str()) == Some(&wa) && bm.get(t.as_str()) == Some(&2), "{ctx}: BTreeMap lookup by text");
	need!(hm.len() == if e { 1 } else { 2 } && bm.len() == hm.len(), "{ctx}: {} / {} entries", hm.len(), bm.len());
	if r.chance(1, 20) {
		let mut list: Vec<Msg> = vec![a, b];
		for _ in 0..20 { let k = r.below(list.len()); let m = list[k].clone(); list.push(rebuild(r, &m)); }
		let texts: Vec<String> = list.iter().map(ToString::to_string).collect();
		let want: BTreeSet<String> = texts.iter().cloned().collect();
		let hs: HashSet<Msg> = list.iter().cloned().collect();
		let bs: BTreeSet<Msg> = list.iter().cloned().collect();
		need!(hs.len() == want.len(), "HashSet of {texts:?} has {}", hs.len());
		need!(bs.iter().map(Msg::as_str).eq(want.iter().map(String::as_str)), "BTreeSet of {texts:?} is {bs:?}");
		for w in &want { need!(hs.contains(w.as_str()) && bs.contains(w.as_str()), "{w:?} not found"); }
		list.sort();
		let mut sorted = texts;
		sorted.sort();
		need!(list.iter().map(Msg::as_str).eq(sorted.iter().map(String::as_str)), "sorted as {list:?}");
		st.add("collections", 1);
	}
	st.seen(&ctx);
	Ok(())
}

/// Records what it is fed.
struct Rec(Vec<u8>);
impl Hasher for Rec {
	fn finish(&self) -> u64 { 0 }
	fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
}
