//! What was seen under the interpreter, written down there and judged elsewhere.

use crate::io::Wr;
use crate::lin::{Call, Done};
use crate::oracle::{Count, Iv, Msg1, Opts, Timeline};

#[derive(Default)]
pub struct Out(Vec<u8>);
impl Out {
	pub fn u(&mut self, n: u64) { self.0.extend_from_slice(&n.to_le_bytes()); }
	pub fn s(&mut self, s: &[u8]) { self.u(s.len() as u64); self.0.extend_from_slice(s); }
	fn iv(&mut self, v: Iv) { self.u(v.s); self.u(v.e); }
	fn opt<T>(&mut self, o: Option<&T>, f: impl FnOnce(&mut Self, &T)) {
		self.u(u64::from(o.is_some()));
		if let Some(x) = o { f(self, x); }
	}
	fn list<T>(&mut self, l: &[T], f: impl Fn(&mut Self, &T)) {
		self.u(l.len() as u64);
		for x in l { f(self, x); }
	}
	fn size(&mut self, z: (u16, u16)) { self.u(u64::from(z.0)); self.u(u64::from(z.1)); }
	pub fn msgs(&mut self, l: &[Msg1]) { self.list(l, |o, m| { o.s(m.text.as_bytes()); o.u(u64::from(m.tid)); o.iv(m.iv); o.u(u64::from(m.ok)); o.u(m.te); }); }
	pub fn log(&mut self, l: &[Wr]) { self.list(l, |o, w| { o.s(&w.data); o.u(w.s); o.u(w.ts); }); }
	pub fn timeline(&mut self, t: &Timeline) {
		self.list(&t.counts, |o, (c, v)| {
			match c { Count::Abs { done, total } => { o.u(0); o.u(*done); o.u(*total); }, Count::Inc { n, certain } => { o.u(1); o.u(*n); o.u(u64::from(*certain)); } }
			o.iv(*v);
		});
		self.list(&t.titles, |o, (s, v)| { o.opt(s.as_ref(), |o, s| o.s(s.as_bytes())); o.iv(*v); });
		self.list(&t.tasks, |o, (s, p, v)| { o.opt(s.as_ref(), |o, s| o.s(s.as_bytes())); o.u(u64::from(*p)); o.iv(*v); });
		self.list(&t.runs, |o, (a, z)| { o.iv(*a); o.opt(z.as_ref(), |o, z| o.iv(*z)); });
		self.list(&t.sizes, |o, (z, v)| { o.size(*z); o.iv(*v); });
		self.msgs(&t.msgs);
		self.u(t.born.0); self.u(t.born.1); self.u(t.born.2); self.u(t.slack);
		self.opt(t.dropped.as_ref(), |o, v| o.iv(*v));
	}
	pub fn calls(&mut self, all: &[Vec<Done>]) {
		self.list(all, |o, t| o.list(t, |o, d| {
			let (k, n) = match d.call { Call::Inc(n) => (0, n), Call::Set(n) => (1, n), Call::Add(l) => (2, u32::from(l)), Call::Remove(l) => (3, u32::from(l)), Call::Finish => (4, 0), Call::Reset(n) => (5, n), Call::Read => (6, 0) };
			o.u(k); o.u(u64::from(n)); o.u(d.s); o.u(d.e); o.u(u64::from(d.ok)); o.u(d.n);
		}));
	}
	pub fn opts(&mut self, o: &Opts) {
		self.opt(o.vt.as_ref(), |w, (z, n)| { w.size(*z); w.u(*n as u64); });
		self.u(u64::from(o.ended)); self.u(u64::from(o.monotonic));
	}
	/// A line, and as many bytes.
	pub fn send(self, kind: char) {
		use std::io::Write;
		let mut o = std::io::stdout().lock();
		let _ = write!(o, "SHIP {kind}{}\n", self.0.len());
		let _ = o.write_all(&self.0);
		let _ = o.write_all(b"\n");
		let _ = o.flush();
	}
}

pub struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
	pub fn new(s: &'a [u8]) -> Self { Self(s) }
	fn bytes(&mut self, n: usize) -> &'a [u8] { let (a, b) = self.0.split_at(n); self.0 = b; a }
	pub fn u(&mut self) -> u64 { u64::from_le_bytes(self.bytes(8).try_into().unwrap()) }
	pub fn b(&mut self) -> bool { self.u() != 0 }
	pub fn s(&mut self) -> Vec<u8> { let n = self.u() as usize; self.bytes(n).to_vec() }
	pub fn t(&mut self) -> String { String::from_utf8(self.s()).unwrap() }
	fn iv(&mut self) -> Iv { let s = self.u(); Iv { s, e: self.u() } }
	fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> { if self.b() { Some(f(self)) } else { None } }
	fn list<T>(&mut self, f: impl Fn(&mut Self) -> T) -> Vec<T> { (0..self.u()).map(|_| f(self)).collect() }
	pub fn size(&mut self) -> (u16, u16) { let w = self.u() as u16; (w, self.u() as u16) }
	pub fn msgs(&mut self) -> Vec<Msg1> { self.list(|i| Msg1 { text: i.t(), tid: i.u() as u32, iv: i.iv(), ok: i.b(), te: i.u() }) }
	pub fn log(&mut self) -> Vec<Wr> { self.list(|i| { let d = i.s(); let s = i.u(); let t = i.u(); Wr { fd: 2, tid: 9999, s, e: s, ts: t, te: t, want: d.clone(), data: d, err: 0, lost: false } }) }
	pub fn timeline(&mut self) -> Timeline {
		Timeline {
			counts: self.list(|i| { let c = if i.u() == 0 { let done = i.u(); Count::Abs { done, total: i.u() } } else { let n = i.u(); Count::Inc { n, certain: i.b() } }; (c, i.iv()) }),
			titles: self.list(|i| (i.opt(Self::t), i.iv())),
			tasks: self.list(|i| { let l = i.opt(Self::t); let p = i.b(); (l, p, i.iv()) }),
			runs: self.list(|i| { let a = i.iv(); (a, i.opt(Self::iv)) }),
			sizes: self.list(|i| { let z = i.size(); (z, i.iv()) }),
			msgs: self.msgs(),
			born: (self.u(), self.u(), self.u()),
			slack: self.u(),
			dropped: self.opt(Self::iv),
			notice: false,
		}
	}
	pub fn calls(&mut self) -> Vec<Vec<Done>> {
		self.list(|i| i.list(|i| {
			let (k, n) = (i.u(), i.u() as u32);
			let call = match k { 0 => Call::Inc(n), 1 => Call::Set(n), 2 => Call::Add(n as u8), 3 => Call::Remove(n as u8), 4 => Call::Finish, 5 => Call::Reset(n), _ => Call::Read };
			Done { call, s: i.u(), e: i.u(), ok: i.b(), n: i.u() }
		}))
	}
	pub fn opts(&mut self) -> Opts {
		Opts { vt: self.opt(|i| { let z = i.size(); (z, i.u() as usize) }), ended: self.b(), monotonic: self.b() }
	}
}
