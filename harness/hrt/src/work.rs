//! Workloads on progress bars.

use crate::bar::*;
use crate::frame::*;
use crate::io;
use crate::oracle::*;
use fyi_msg::{Msg, Progless};
use hcommon::Rng;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::time::Duration;

/// The result of one case.
#[derive(Default)]
pub struct Case { pub trace: String, pub viols: Vec<Viol>, pub counts: BTreeMap<&'static str, u64>, pub shape: u64 }

impl Case {
	pub fn add(&mut self, k: &'static str, n: u64) { *self.counts.entry(k).or_insert(0) += n; }
	pub fn seen(&mut self, s: &Seen) {
		self.add("frames judged", s.frames);
		self.add("small frames judged", s.small);
		self.add("clearings", s.clears);
		self.add("messages seen", s.msgs);
		self.add("writes recorded", s.writes);
		self.add("displays restored under messages", s.restored);
		self.add("frames cut by refused writes", s.partial);
	}
}

static TOKEN: AtomicU64 = AtomicU64::new(1);
pub fn next_token() -> u64 { TOKEN.fetch_add(1, SeqCst) }

/// A moment, in which the bars tick fast; where there is no fast ticking, a longer one.
pub fn nap(ms: u64) { std::thread::sleep(Duration::from_millis(if cfg!(miri) { ms * 10 } else { ms })); }

pub fn threads() -> usize { std::fs::read_dir("/proc/self/task").map_or(0, Iterator::count) }

/// Wait for the number of threads to fall to `n`; gives up after many tick periods.
pub fn threads_gone(n: usize) -> Result<(), usize> {
	if cfg!(miri) { nap(25); return Ok(()); }
	let mut last = 0;
	for i in 0..400 {
		last = threads();
		if last <= n { return Ok(()); }
		std::thread::sleep(Duration::from_millis(if i < 50 { 1 } else { 20 }));
	}
	Err(last)
}

/// A thread that waits like a ticker does, to measure tick periods with.
pub struct Ref { n: Arc<AtomicU64>, stop: Arc<std::sync::atomic::AtomicBool>, h: Option<std::thread::JoinHandle<()>> }
impl Ref {
	pub fn start() -> Self {
		let n = Arc::new(AtomicU64::new(0));
		let t = Arc::clone(&n);
		let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
		let st = Arc::clone(&stop);
		let h = std::thread::spawn(move || {
			io::own(2);
			let m = Mutex::new(());
			let c = Condvar::new();
			let mut g = m.lock().unwrap();
			loop {
				let (x, res) = c.wait_timeout(g, Duration::from_millis(100)).unwrap();
				g = x;
				if res.timed_out() { t.fetch_add(1, SeqCst); }
				if st.load(SeqCst) { break; }
			}
		});
		Self { n, stop, h: Some(h) }
	}
	pub fn stop(&mut self) {
		self.stop.store(true, SeqCst);
		if let Some(h) = self.h.take() { let _ = h.join(); }
	}
	pub fn ticks(&self) -> u64 { self.n.load(SeqCst) }
}

pub struct Env { pub pty: &'static io::Pty, pub base: usize, pub refs: Ref, pub late: (u64, u64) }

/// How far a ticker's idea of the time may be behind (ns).
const SLACK: u64 = if cfg!(miri) { 60_000_000_000 } else { 100_000_000 };
const FAST: i64 = -95_000_000;

pub fn size(r: &mut Rng) -> (u16, u16) {
	let w = match r.below(12) {
		0 => r.range(1, 12), 1 => r.range(10, 40), 2 | 3 => r.range(38, 62), 4 => r.range(60, 100),
		5 => 80, 6 => *r.pick(&[255, 256, 257, 300, 1000, 65535, 0]), 7 => *r.pick(&[11, 40, 41]), _ => r.range(41, 200),
	};
	let h = match r.below(8) { 0 => r.range(0, 4), 1 => *r.pick(&[255, 256, 257, 400, 65535]), 2 => r.range(2, 8), 3 => 24, _ => r.range(3, 50) };
	(w as u16, h as u16)
}
fn roomy(r: &mut Rng) -> (u16, u16) {
	if cfg!(miri) { return (r.range(42, 64) as u16, r.range(5, 12) as u16); } (r.range(60, 160) as u16, r.range(8, 40) as u16) }

fn total(r: &mut Rng) -> u32 {
	match r.below(8) {
		0 => r.range(1, 3) as u32, 1 => r.range(1, 12) as u32, 2 => u32::MAX - r.below(3) as u32,
		3 => 10_u32.pow(r.below(10) as u32), 4 => 1 << r.below(32), 5 => r.next() as u32 | 1, _ => r.range(5, 3000) as u32,
	}
}
fn age(r: &mut Rng) -> u64 {
	if cfg!(miri) { return 0; }
	let ms = match r.below(8) {
		0 => 0, 1 => 59_990, 2 => 3_599_985, 3 => r.below(86_000_000) as u64, 4 => 990, 5 => r.below(5000) as u64, 6 => 100 * 86_400_000 + r.below(86_400_000) as u64, _ => r.below(200_000) as u64,
	};
	ms * 1_000_000
}

/// A random operation for a single thread.
pub fn op(r: &mut Rng, d: &Driver, p: &Profile) -> Op {
	let left = d.m.total - d.m.done.min(d.m.total);
	let w = &p.weights;
	let sum: usize = w.iter().sum();
	let mut x = r.below(sum);
	let mut k = 0;
	while x >= w[k] { x -= w[k]; k += 1; }
	match k {
		0 => Op::Inc,
		1 => Op::IncN(match r.below(12) { 0 => 0, 1 => left.min(u64::from(u32::MAX)) as u32, 2 => u32::MAX, 3 => (left / 2) as u32, 4 => left.saturating_sub(1) as u32, 5 | 6 => (left / 10) as u32, _ => r.range(1, 7) as u32 }),
		2 => Op::SetDone(match r.below(8) { 0 => 0, 1 => d.m.total as u32, 2 => u32::MAX, 3 => (d.m.total - 1) as u32, 4 => d.m.done as u32, _ => (r.next() % d.m.total) as u32 }),
		3 => Op::Add(task(r, p.labels)),
		4 => Op::Remove(match r.below(4) {
			0 => task(r, p.labels),
			_ => match d.m.tasks.iter().nth(r.below(d.m.tasks.len().max(1))).cloned() {
				None => task(r, p.labels),
				Some(t) => match r.below(5) {
					0 => format!("{t}  \t"), 1 => format!("\x1b[1m{t}\x1b[0m"), 2 => t.replace(' ', "\t"), _ => t,
				},
			},
		}),
		5 => if r.chance(1, 4) { Op::Title(None) } else { Op::Title(Some(title(r, next_token()))) },
		6 => match r.below(5) { 0 => Op::TitleStr(None), 1 => Op::TitleStr(Some(String::new())), 2 => Op::TitleStr(Some("\n".to_owned())), _ => Op::TitleStr(Some(tame(r, 6))) },
		7 => Op::TitleMsg(if r.chance(1, 4) { String::new() } else { tame(r, 8) }),
		8 => Op::Splines(if r.bool() { "App".to_owned() } else { tame(r, 2) }),
		9 => Op::Push(message(r, next_token())),
		10 => Op::Summary,
		11 => Op::Finish,
		12 => if r.bool() { Op::Reset(total(r)) } else { Op::TryReset(if r.chance(1, 3) { 0 } else { total(r) }) },
		13 => { let (w, h) = match r.below(12) {
			// One side only, the height perhaps just so (not) enough.
			0 => (d.m.size.0, roomy(r).1),
			1 | 3 | 11 => (d.m.size.0, (d.m.tasks.len() + r.range(0, 5)) as u16),
			4 => (roomy(r).0, d.m.size.1),
			2 => (r.range(2, 11) as u16, r.range(3, 30) as u16),
			5 => *r.pick(&[(1, 24), (80, 1), (0, 0), (80, 0), (0, 8), (1, 1)]), 6 | 7 => size(r), _ => roomy(r) }; Op::Size(w, h) },
		14 => Op::Clone,
		15 => Op::Drop,
		_ => Op::Pause(match r.below(4) { 0 => 12_000, 1 => 6000, _ => r.below(2000) as u64 }),
	}
}

#[derive(Clone)]
pub struct Profile {
	/// inc incn set add remove title titlestr titlemsg splines push summary finish reset size clone drop pause
	pub weights: [usize; 17],
	pub ops: usize,
	pub labels: usize,
	pub any_size: bool,
	pub tty: usize, // Percent with a terminal.
	pub faults: usize, // 0 none, 1 short/interrupted, 2 also refused.
	pub min_total: u32,
	pub push_every: usize,
	pub crowd: bool, // A tall terminal, and more tasks than any other has room for.
}

impl Profile {
	pub fn basic() -> Self {
		Self { weights: [8, 6, 3, 10, 8, 3, 2, 2, 1, 10, 2, 1, 2, 0, 1, 1, 2], ops: 40, labels: 6, any_size: true, tty: 95, faults: 0, min_total: 1, push_every: 2, crowd: false }
	}
}

pub fn some_faults(r: &mut Rng, level: usize) -> io::Faults {
	let mut f = io::Faults { delay: if r.chance(1, 3) { 300 } else { 0 }, delay_us: *r.pick(&[20, 200, 1500]), ..io::Faults::default() };
	if level >= 1 { f.short = *r.pick(&[0, 100, 500, 950]); f.eintr = *r.pick(&[0, 100, 400]); }
	if level >= 2 { f.err = *r.pick(&[0, 50, 300, 1000]); f.zero = *r.pick(&[0, 0, 50]); }
	f
}

/// One bar, one thread.
pub fn seq_case(env: &Env, r: &mut Rng, p: &Profile) -> Case {
	let mut c = Case::default();
	let tty = r.chance(p.tty, 100);
	let sz = if ! tty { (0, 0) } else if p.crowd { (r.range(40, 160) as u16, r.range(60, 300) as u16) } else if p.any_size { size(r) } else { roomy(r) };
	if tty { env.pty.install(); env.pty.size(sz.0, sz.1); } else { io::no_tty(); }
	io::SKEW.store(FAST, SeqCst);
	io::take();
	let lossy = p.faults >= 2 && r.chance(3, 4);
	let f = some_faults(r, if lossy { 2 } else { p.faults.min(1) });
	io::faults(f, r.next());
	io::capture(true);
	let mut tot = total(r).max(p.min_total);
	if tot < p.min_total { tot = p.min_total; }
	let mut d = Driver::new(tot, age(r), sz, if tty { Some(env.pty) } else { None }, 1, SLACK);
	if f.short + f.eintr + f.err + f.zero + f.delay > 0 { d.trace.push(format!("{f:?}")); }
	if r.chance(3, 4) { nap(12); }
	if p.crowd {
		let most = usize::from(sz.1.min(256));
		for k in 0..r.range(1, most) { d.apply(&Op::Add(format!("{k}")), r); }
		for k in 0..r.range(1, 12) { d.apply(&Op::Add(format!("crowd {k}")), r); d.apply(&Op::Push(message(r, next_token())), r); }
	}
	let n = r.range(1, p.ops);
	let mut sized = false;
	for _ in 0..n {
		let o = op(r, &d, p);
		sized |= matches!(o, Op::Size(..));
		d.apply(&o, r);
		if p.push_every != 0 && r.chance(1, p.push_every) { let o = Op::Push(message(r, next_token())); d.apply(&o, r); }
		if d.errors.len() > 5 { break; }
	}
	// The writes are back to normal: whatever is shown next is right and whole.
	if lossy {
		io::no_faults();
		d.apply(&Op::Push(message(r, next_token())), r);
	}
	let mut ended = false;
	if r.chance(1, 8) {
		// Dropped as it is.
		let s = io::seq();
		d.bars.clear();
		d.t.dropped = Some(Iv { s, e: io::seq() });
		d.trace.push("drop".to_owned());
	}
	else {
		if r.bool() && d.m.running {
			let left = (d.m.total - d.m.done) as u32;
			d.apply(&Op::IncN(left), r);
			if r.bool() { d.apply(&Op::Pause(12_000), r); }
		}
		d.apply(&Op::Finish, r);
		ended = true;
		d.summary(r);
		// Nothing has any effect any more.
		for o in [Op::Inc, Op::IncN(3), Op::SetDone(0), Op::Add("late".to_owned()), Op::Remove("late".to_owned()), Op::Finish] { if r.bool() { d.apply(&o, r); } }
		d.summary(r);
		if r.chance(1, 3) { d.apply(&Op::Push(message(r, next_token())), r); }
	}
	if r.chance(1, 4) { nap(8); }
	if let Err(k) = threads_gone(env.base) { d.errors.push(viol(&["C16", "C19"], format!("{k} threads are left, {} were there before", env.base))); }
	let log = io::take();
	io::capture(false);
	c.viols.append(&mut d.errors);
	#[cfg(feature = "sig")]
	for z in d.t.sizes.iter_mut().skip(1) { z.1.e = u64::MAX; }
	let vt_ok = ! sized && ! lossy && usable(sz).is_some();
	let o = Opts { vt: if vt_ok { Some((sz, r.below(usize::from(sz.1.min(60)) + 3))) } else { None }, ended, monotonic: false };
	let s = judge(&d.t, &log, &o, &mut c.viols);
	c.seen(&s);
	c.add("operations", d.trace.len() as u64);
	c.add("runs", d.t.runs.len() as u64);
	c.trace = d.trace.join("; ");
	c.shape = hash(&c.trace);
	if let Some(m) = median(&mut d.finish_ns) { c.add("finish calls", d.finish_ns.len() as u64); let _ = m; }
	FINISH.lock().unwrap().append(&mut d.finish_ns);
	drop(d);
	c
}

pub static FINISH: Mutex<Vec<u64>> = Mutex::new(Vec::new());

fn median(v: &mut [u64]) -> Option<u64> {
	if v.is_empty() { return None; }
	v.sort_unstable();
	Some(v[v.len() / 2])
}

pub fn hash(s: &str) -> u64 { s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3)) }

/// What one thread of a concurrent case does.
#[derive(Debug, Clone)]
enum Act { Inc(u32), Own(String), Drop(String), Title(String), Push(Msg), Read, Finish, Spin(usize), Yield, Eprint(String), Reset(u32), Set(u32), SetMsg(String), CloneDrop, NoTitle }

#[derive(Debug, Clone)]
struct Rec { act: Act, tid: u32, iv: Iv, ok: bool, n: u64, te: u64 }

fn perform(bar: &Progless, act: &Act, tid: u32) -> Rec {
	let s = io::seq();
	let (mut ok, mut n) = (true, 0);
	match act {
		Act::Inc(1) => bar.increment(),
		Act::Inc(k) => bar.increment_n(*k),
		Act::Own(l) => ok = bar.add(l),
		Act::Drop(l) => bar.remove(l),
		Act::Title(t) => bar.set_title(Some(t.as_str())),
		Act::NoTitle => bar.set_title(None::<&str>),
		Act::Push(m) => ok = bar.push_msg(m.clone()).is_ok(),
		Act::Read => n = read_count(bar),
		Act::Finish => { bar.finish(); n = read_count(bar); },
		Act::Spin(k) if cfg!(miri) => std::thread::sleep(Duration::from_micros((*k).min(300_000) as u64)),
		Act::Spin(k) => for _ in 0..*k { std::hint::spin_loop(); },
		Act::Yield => std::thread::yield_now(),
		Act::Eprint(t) => Msg::info(t.as_str()).eprint(),
		Act::Reset(t) => bar.try_reset(*t).unwrap(),
		Act::Set(k) => bar.set_done(*k),
		Act::SetMsg(t) => bar.set_title_msg(t),
		Act::CloneDrop => drop(bar.clone()),
	}
	Rec { act: act.clone(), tid, iv: Iv { s, e: io::seq() }, ok, n, te: io::now() }
}

pub fn read_count(bar: &Progless) -> u64 {
	let s = bar.summary(fyi_msg::MsgKind::None, "x", "x");
	s.as_str().split(' ').next().unwrap_or("").replace(',', "").parse().unwrap_or(u64::MAX)
}

#[derive(Clone)]
pub struct Conc { pub threads: usize, pub ops: usize, pub ends: usize, pub finishers: usize, pub pushes: usize, pub tasks: usize, pub titles: usize, pub incs: usize, pub delay: bool, pub any_size: bool, pub sets: usize }

/// One bar, many threads; no resets meanwhile.
pub fn conc_case(env: &Env, r: &mut Rng, p: &Conc) -> Case {
	let mut c = Case::default();
	let sz = if p.any_size { size(r) } else { roomy(r) };
	env.pty.install();
	env.pty.size(sz.0, sz.1);
	io::SKEW.store(if r.chance(1, 10) { 0 } else { FAST }, SeqCst);
	io::take();
	let k = usize::from(r.chance(1, 4));
	let mut f = some_faults(r, k);
	if p.delay && r.chance(2, 3) { f.delay = 700; f.delay_us = *r.pick(&[10, 100, 800, 4000]); }
	io::faults(f, r.next());
	io::capture(true);
	let nt = r.range(2, p.threads);
	// Plan.
	let mut plans: Vec<Vec<Act>> = Vec::new();
	let mut sum = 0_u64;
	let shared: Vec<String> = (0..r.below(4)).map(|i| format!("shared {i}")).collect();
	let mut shared_removed = vec![false; shared.len()];
	let pause = r.chance(1, 2);
	for t in 0..nt {
		let mut v = Vec::new();
		let mut mine: Vec<String> = Vec::new();
		for k in 0..r.range(1, p.ops) {
			let w = [p.incs, p.tasks, p.tasks, p.titles, p.pushes, 1, 1, 1, 1];
			let mut x = r.below(w.iter().sum());
			let mut i = 0;
			while x >= w[i] { x -= w[i]; i += 1; }
			match i {
				0 => { let n = if r.chance(3, 4) { 1 } else { r.range(0, 5) as u32 }; sum += u64::from(n); v.push(Act::Inc(n)); },
				1 => if r.bool() || mine.is_empty() { let l = format!("t{t} job {k}"); mine.push(l.clone()); v.push(Act::Own(l)); } else { let l = mine.swap_remove(r.below(mine.len())); sum += 1; v.push(Act::Drop(l)); },
				2 => if ! shared.is_empty() { let i = r.below(shared.len()); if ! shared_removed[i] { shared_removed[i] = true; sum += 1; } v.push(Act::Drop(shared[i].clone())); },
				3 => v.push(if r.chance(1, 4) { Act::NoTitle } else if r.chance(1, 3) { Act::SetMsg(format!("title {}", next_token())) } else { Act::Title(format!("title {}", next_token())) }),
				4 => v.push(Act::Push(message(r, next_token()))),
				5 => v.push(Act::Read),
				6 => v.push(Act::Spin(if pause { r.below(200_000) } else { r.below(2000) })),
				_ => v.push(Act::Yield),
			}
		}
		plans.push(v);
	}
	// SetMsg only makes sense next to nothing else.
	if plans.iter().flatten().any(|a| matches!(a, Act::Title(_) | Act::NoTitle)) && plans.iter().flatten().any(|a| matches!(a, Act::SetMsg(_))) {
		for a in plans.iter_mut().flatten() { if let Act::SetMsg(t) = a { *a = Act::Title(t.clone()); } }
	}
	let only_msg = plans.iter().flatten().any(|a| matches!(a, Act::SetMsg(_)));
	let ends = r.chance(p.ends, 100) && sum > 0;
	let mut finishing = false;
	for _ in 0..p.finishers { if r.chance(1, 2) { let v = &mut plans[r.below(nt)]; let at = r.below(v.len() + 1); v.insert(at, Act::Finish); finishing = true; } }
	// A finish in the middle makes later private removals moot; that is fine, the run has ended then.
	let tot = if ends { (1 + r.next() % sum) as u32 } else { (sum + 1 + r.next() % 5000) as u32 };
	let (bar, iv, born) = create(tot, age(r));
	let mut t = Timeline {
		counts: vec![(Count::Abs { done: 0, total: u64::from(tot) }, iv)],
		titles: vec![(None, Iv { s: 0, e: 0 })],
		runs: vec![(iv, None)],
		sizes: vec![(sz, Iv { s: 0, e: 0 })],
		born, slack: SLACK, ..Timeline::default()
	};
	let mut trace = vec![format!("new({tot}) on {}x{}, {nt} threads, {f:?}", sz.0, sz.1)];
	if only_msg {
		let s = io::seq();
		bar.set_title(Some("title 0"));
		t.titles.push((Some("title 0".to_owned()), Iv { s, e: io::seq() }));
	}
	for l in &shared {
		let s = io::seq();
		let ok = bar.add(l);
		t.tasks.push((Some(l.clone()), true, Iv { s, e: io::seq() }));
		if ! ok { c.viols.push(viol(&["C13"], format!("add({l:?}) refused"))); }
	}
	if r.chance(3, 4) { nap(12); }
	let seed = r.next();
	if ! cfg!(miri) { io::JITTER.store(*r.pick(&[0, 0, 10, 60, 300]), SeqCst); }
	let gate = Arc::new(Barrier::new(nt));
	let recs: Vec<Rec> = std::thread::scope(|s| {
		let hs: Vec<_> = plans.iter().enumerate().map(|(k, plan)| {
			let gate = Arc::clone(&gate);
			let bar = bar.clone();
			s.spawn(move || {
				let tid = 10 + k as u32;
				io::own(tid);
				io::dice(seed.wrapping_mul(k as u64 * 2 + 3));
				gate.wait();
				plan.iter().map(|a| perform(&bar, a, tid)).collect::<Vec<_>>()
			})
		}).collect();
		hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
	});
	io::JITTER.store(0, SeqCst);
	let mut recs = recs;
	recs.sort_by_key(|x| x.iv.s);
	// Build the timeline.
	for x in &recs {
		match &x.act {
			Act::Inc(n) if *n != 0 => t.counts.push((Count::Inc { n: u64::from(*n), certain: true }, x.iv)),
			Act::Own(l) => if x.ok { t.tasks.push((Some(l.clone()), true, x.iv)); },
			Act::Drop(l) => {
				let private = ! l.starts_with("shared");
				let added = ! private || recs.iter().any(|y| y.ok && matches!(&y.act, Act::Own(k) if k == l));
				if added {
					t.tasks.push((Some(l.clone()), false, x.iv));
					t.counts.push((Count::Inc { n: 1, certain: private }, x.iv));
				}
			},
			Act::Title(s) => t.titles.push((Some(s.clone()), x.iv)),
			Act::SetMsg(s) => t.titles.push((Some(s.clone()), x.iv)),
			Act::NoTitle => t.titles.push((None, x.iv)),
			Act::Push(m) => { let text = m.clone().with_newline(true); t.msgs.push(Msg1 { text: text.as_str().to_owned(), tid: x.tid, iv: x.iv, ok: x.ok, te: x.te }); },
			_ => {},
		}
	}
	let fin = recs.iter().filter(|x| matches!(x.act, Act::Finish)).collect::<Vec<_>>();
	let all_e = recs.iter().map(|x| x.iv.e).max().unwrap_or(0);
	let over = ends || finishing;
	if over {
		let mut e = all_e;
		if let Some(x) = fin.iter().map(|x| x.iv.e).min() { e = e.min(x); }
		if ends {
			// When did the certain steps that had returned reach the total?
			let mut by_end: Vec<(u64, u64)> = t.counts.iter().filter_map(|(k, v)| if let Count::Inc { n, certain: true } = k { Some((v.e, *n)) } else { None }).collect();
			by_end.sort_unstable();
			let mut acc = 0;
			for (at, n) in by_end {
				acc += n;
				if acc >= u64::from(tot) {
					// Whoever completed it had called before that, and may not have returned yet.
					let m = recs.iter().filter(|x| x.iv.s < at && matches!(x.act, Act::Inc(_) | Act::Drop(_))).map(|x| x.iv.e).max().unwrap_or(all_e);
					e = e.min(m);
					break;
				}
			}
		}
		t.runs[0].1 = Some(Iv { s: 0, e });
		// A private add may have been refused because the run was over, a later one must be.
		for x in &recs {
			if let Act::Own(l) = &x.act {
				if x.ok && x.iv.s > e { c.viols.push(viol(&["C12", "C13"], format!("add({l:?}) accepted after the end"))); }
			}
		}
		for x in &fin {
			if x.n != u64::from(tot) { c.viols.push(viol(&["C12", "C16"], format!("after finish returned in thread {} the count is {}, not {tot}", x.tid, x.n))); }
		}
	}
	else {
		for x in &recs { if let Act::Own(l) = &x.act { if ! x.ok { c.viols.push(viol(&["C13"], format!("add({l:?}) refused while running"))); } } }
	}
	for x in &recs {
		if let Act::Read = x.act {
			if x.n > u64::from(tot) { c.viols.push(viol(&["C12"], format!("the count read was {} of {tot}", x.n))); }
			// Between what had surely happened and what had been asked for.
			let rg = t.count_ranges(x.iv.s, x.iv.e);
			if ! over && ! rg.iter().any(|(lo, hi, _)| *lo <= x.n && x.n <= *hi) { c.viols.push(viol(&["C12"], format!("the count read was {}, expected within {rg:?}", x.n))); }
		}
	}
	// At rest.
	io::own(1);
	let mut now_done = sum;
	if over {
		now_done = u64::from(tot);
		let got = read_count(&bar);
		if got != now_done { c.viols.push(viol(&["C12", "C13"], format!("the run of {tot} has ended but the count is {got}"))); }
		bar.increment_n(2);
		bar.set_done(0);
		if bar.add("late") { c.viols.push(viol(&["C12", "C13"], format!("a task was accepted after the end (total {tot}, steps {sum})"))); }
	}
	let got = read_count(&bar);
	if got != now_done { c.viols.push(viol(&["C12", "C13"], format!("at rest the count is {got} of {tot}, {} steps were made", sum))); }
	if ! over {
		let m = message(r, next_token());
		let text = m.clone().with_newline(true);
		let s = io::seq();
		let ok = bar.push_msg(m).is_ok();
		t.msgs.push(Msg1 { text: text.as_str().to_owned(), tid: 1, iv: Iv { s, e: io::seq() }, ok, te: io::now() });
		// All shared ones somebody removed are gone, and counted once.
		if r.chance(1, 2) {
			// Complete it from many threads: exactly then it ends.
			let left = u64::from(tot) - sum;
			if left <= if cfg!(miri) { 4 } else { 400 } {
				let s0 = io::seq();
				std::thread::scope(|sc| for k in 0..left { let b = &bar; sc.spawn(move || { io::own(60 + k as u32); b.increment(); }); });
				let e0 = io::seq();
				t.counts.push((Count::Inc { n: left, certain: false }, Iv { s: s0, e: e0 }));
				t.runs[0].1 = Some(Iv { s: s0, e: e0 });
				if bar.add("late") { c.viols.push(viol(&["C12", "C13"], format!("a task was accepted after the last of {tot} steps"))); }
			}
		}
		let s = io::seq();
		bar.finish();
		let e = io::seq();
		if t.runs[0].1.is_none() { t.runs[0].1 = Some(Iv { s, e }); }
		let got = read_count(&bar);
		if got != u64::from(tot) { c.viols.push(viol(&["C12"], format!("after finish the count is {got} of {tot}"))); }
	}
	// Quiet?
	if r.chance(1, 3) { nap(8); }
	if r.bool() { bar.finish(); }
	if let Err(k) = threads_gone(env.base) { c.viols.push(viol(&["C16", "C19"], format!("{k} threads are left after the end, {} were there before", env.base))); }
	let log = io::take();
	io::capture(false);
	drop(bar);
	let o = Opts { vt: usable(sz).map(|_| (sz, r.below(usize::from(sz.1.min(60)) + 3))), ended: true, monotonic: false };
	let s = judge(&t, &log, &o, &mut c.viols);
	c.seen(&s);
	c.add("operations", recs.len() as u64);
	c.add("concurrent runs", 1);
	c.add("threads", nt as u64);
	// The interleaving.
	let mut ev: Vec<(u64, u32)> = recs.iter().map(|x| (x.iv.s, x.tid)).collect();
	ev.extend(log.iter().map(|w| (w.s, w.tid.min(1000))));
	ev.sort_unstable();
	for (_, id) in ev { c.shape = (c.shape ^ u64::from(id)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5); }
	if ! cfg!(miri) { trace.push(recs.iter().map(|x| format!("[{}..{} t{} {:?}]", x.iv.s, x.iv.e, x.tid, x.act)).collect::<Vec<_>>().join(" ")); }
	c.trace = trace.join("; ");
	c
}

/// Anything goes, including resets and direct printing: every call has to return, nobody may panic.
pub fn storm_case(env: &Env, r: &mut Rng) -> Case {
	let mut c = Case::default();
	let sz = size(r);
	env.pty.install();
	env.pty.size(sz.0, sz.1);
	io::SKEW.store(if r.chance(1, 4) { 0 } else { FAST }, SeqCst);
	io::take();
	let lossy = r.chance(1, 4);
	let k = if lossy { 2 } else { usize::from(r.chance(1, 3)) };
	let mut f = some_faults(r, k);
	if r.bool() { f.delay = 500; f.delay_us = *r.pick(&[5, 50, 500, 3000]); }
	io::faults(f, r.next());
	io::capture(true);
	let nt = r.range(2, if cfg!(miri) { 4 } else { 8 });
	let len = if cfg!(miri) { 7 } else { 40 };
	let big = if r.bool() { 1 } else { 500 };
	let bar = if r.chance(1, 8) { Progless::default() } else { Progless::try_from((r.range(1, 200) * big) as u32).unwrap() };
	let nap = if r.bool() { 100_000 } else { 4_000_000 };
	let heavy = r.below(4);
	// Some dwell on a few operations.
	let focus: Vec<usize> = (0..r.below(4)).map(|_| r.below(20)).collect();
	let plans: Vec<Vec<Act>> = (0..nt).map(|t| (0..r.range(1, len)).map(|k| match if focus.is_empty() || r.chance(1, 3) { r.below(20) } else { *r.pick(&focus) } {
		0..=2 => Act::Inc(r.range(0, 60) as u32),
		3 | 4 => Act::Own(format!("job {}", r.below(5))),
		5 | 6 => Act::Drop(format!("job {}", r.below(5))),
		7 => if r.chance(1, 3) { Act::NoTitle } else { Act::Title(format!("t{t} {k}\n\r漢")) },
		8 => Act::SetMsg(tame(r, 3)),
		9 | 10 => Act::Push(message(r, next_token())),
		11 => Act::Read,
		12 => if heavy != 0 { Act::Finish } else { Act::Yield },
		13 => if heavy != 1 { Act::Reset((r.range(1, 100) * big) as u32) } else { Act::Yield },
		14 => Act::Set(r.below(150) as u32),
		15 => Act::CloneDrop,
		16 => Act::Eprint(format!("direct {t} {k}")),
		17 => Act::Spin(r.below(nap)),
		18 => if heavy == 3 { Act::Finish } else { Act::Spin(100) },
		_ => if heavy == 3 { Act::Reset(r.range(1, 100) as u32) } else { Act::Yield },
	}).collect()).collect();
	let seed = r.next();
	if ! cfg!(miri) { io::JITTER.store(*r.pick(&[0, 0, 10, 60, 300]), SeqCst); }
	let gate = Arc::new(Barrier::new(nt));
	let mut shape = Vec::new();
	let mut msgs: Vec<Msg1> = Vec::new();
	std::thread::scope(|s| {
		let hs: Vec<_> = plans.iter().enumerate().map(|(k, plan)| {
			let gate = Arc::clone(&gate);
			let bar = bar.clone();
			s.spawn(move || {
				io::own(10 + k as u32);
				io::dice(seed.wrapping_mul(k as u64 * 2 + 3));
				gate.wait();
				plan.iter().map(|a| perform(&bar, a, 10 + k as u32)).collect::<Vec<_>>()
			})
		}).collect();
		for h in hs {
			for x in h.join().unwrap_or_default() {
				shape.push((x.iv.s, x.tid));
				if let Act::Push(m) = &x.act { msgs.push(Msg1 { text: m.clone().with_newline(true).as_str().to_owned(), tid: x.tid, iv: x.iv, ok: x.ok, te: x.te }); }
			}
		}
	});
	io::JITTER.store(0, SeqCst);
	io::own(1);
	bar.finish();
	// Still in working order?
	io::no_faults();
	bar.try_reset(7).unwrap();
	bar.increment_n(3);
	if ! bar.add("again") { c.viols.push(viol(&["C19", "C22"], "a task was refused after a reset".to_owned())); }
	let got = read_count(&bar);
	if got != 3 { c.viols.push(viol(&["C12", "C19", "C22"], format!("after a reset and 3 steps the count is {got}"))); }
	bar.finish();
	let got = read_count(&bar);
	if got != 7 { c.viols.push(viol(&["C12", "C19", "C22"], format!("after the final finish the count is {got}, not 7"))); }
	drop(bar);
	if let Err(k) = threads_gone(env.base) { c.viols.push(viol(&["C16", "C19"], format!("{k} threads are left, {} were there before", env.base))); }
	let log = io::take();
	io::capture(false);
	if io::quiet() {}
	else if cfg!(miri) {
		let mut o = crate::ship::Out::default();
		o.msgs(&msgs);
		o.u(u64::from(sz.0));
		o.u(u64::from(sz.1));
		o.log(&log);
		o.send('S');
	}
	else { stream(&mut c, &msgs, sz, lossy, &log); }
	c.add("writes recorded", log.len() as u64);
	c.add("operations", shape.len() as u64);
	c.add("concurrent runs", 1);
	shape.extend(log.iter().map(|w| (w.s, w.tid.min(1000))));
	shape.sort_unstable();
	for (_, id) in shape { c.shape = (c.shape ^ u64::from(id)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5); }
	if ! cfg!(miri) { c.trace = format!("{f:?} {plans:?}"); }
	c
}

/// The output of a storm.
pub fn stream(c: &mut Case, msgs: &[Msg1], sz: (u16, u16), lossy: bool, log: &[io::Wr]) {
	// The stream holds whole frames and messages still.
	let (out, bad) = io::emissions(log, 2);
	for b in bad { c.viols.push(viol(&["C17", "C22", "C29"], b)); }
	match pieces(&out) {
		Err(e) => c.viols.push(viol(&["C22", "C29"], e)),
		Ok(ps) => {
			let mut times: BTreeMap<String, (u64, u64)> = BTreeMap::new();
			for p in &ps {
				let mut rest = p.text.as_str();
				let mut pos = 0;
				while ! rest.is_empty() {
					let mut frame = false;
					let skip = if rest.starts_with("\x1b[?25l") || rest.starts_with("\x1b[?25h") { 6 }
						else if rest.starts_with("\x1b[1;95mInfo:\x1b[0m direct ") { rest.find('\n').map_or(rest.len(), |x| x + 1) }
						else if let Some(m) = msgs.iter().find(|m| rest.starts_with(m.text.as_str())) {
							let whole = ! p.lost.iter().any(|(x, y)| *x < pos + m.text.len() && *y > pos);
							let t = times.entry(m.text.clone()).or_default();
							if whole { t.0 += 1; } else { t.1 += 1; }
							m.text.len()
						}
						else {
							// A frame: up to the return to its start.
							frame = true;
							let end = rest.find('\r').map_or(rest.len(), |x| x + 1);
							end + rest[end..].strip_prefix("\x1b[").and_then(|x| x.split_once('A')).filter(|x| x.0.bytes().all(|c| c.is_ascii_digit())).map_or(0, |x| x.0.len() + 3)
						};
					if frame {
						match parse(&rest[..skip]) {
							Err(e) => c.viols.push(viol(&["C22", "C29"], e)),
							Ok(f) => {
								c.add("frames judged", 1);
								match usable(sz) {
									Some((w, _)) if w >= 10 => {
										if let Err(e) = contained(&f, sz) { c.viols.push(viol(&["C15", "C22"], e)); }
										if let Err(e) = consistent(&f, w) { c.viols.push(viol(&["C14", "C22"], e)); }
									},
									_ => c.viols.push(viol(&["C15", "C22"], format!("frame on a terminal of {sz:?}: {:?}", f.raw))),
								}
							},
						}
					}
					rest = &rest[skip..];
					pos += skip;
				}
				if c.viols.len() > 20 { break; }
			}
			for m in msgs {
				let (n, part) = times.get(&m.text).copied().unwrap_or_default();
				if m.ok && ! (n == 1 || n == 0 && lossy && part == 1) || ! m.ok && (n != 0 || ! lossy) {
					c.viols.push(viol(&["C17", "C22", "C29"], format!("message {:?} came out {n} times and {part} times in part, and the call returned {}", m.text, m.ok)));
				}
			}
		},
	}
}

// ---------------------------------------------------------------------------------------------
// Tick-driven display.

/// The last thing on the screen.
enum Last { Nothing, Clear, Frame(Box<Frame>), Broken(String) }

fn last(log: &[io::Wr]) -> Last {
	let Ok(ps) = pieces(log) else { return Last::Broken("invalid bytes".to_owned()); };
	let Some(p) = ps.last() else { return Last::Nothing; };
	let t = p.text.replace("\x1b[?25l", "").replace("\x1b[?25h", "");
	if t.is_empty() { return Last::Clear; }
	match parse(&t) { Ok(f) => Last::Frame(Box::new(f)), Err(e) => Last::Broken(e) }
}

/// Does the screen show the present state?
fn current(d: &Driver) -> Result<(), String> {
	let log = io::since(0);
	let (a, ta) = (io::seq(), io::now());
	shows(&d.t, d.m.size, &log, a, ta)
}

pub fn shows(t: &Timeline, size: (u16, u16), log: &[io::Wr], a: u64, ta: u64) -> Result<(), String> {
	match (usable(size), last(log)) {
		(None, _) => Ok(()),
		(Some((w, _)), Last::Clear) if w < 10 => Ok(()),
		(Some((w, _)), _) if w < 10 => Err("something is on a tiny terminal".to_owned()),
		(_, Last::Nothing) => Err("nothing was painted".to_owned()),
		(_, Last::Clear) => Err("the screen was cleared and left so".to_owned()),
		(_, Last::Broken(e)) => Err(e),
		(_, Last::Frame(f)) => frame(t, &f, a, a + 1, ta.saturating_sub(450_000_000), ta).map_err(|v| v.what),
	}
}

/// Wait until the screen shows the present state.
fn settle(env: &mut Env, d: &mut Driver, tags: &'static [&'static str]) -> bool {
	if cfg!(miri) {
		// Ten tick periods, and then some.
		std::thread::sleep(Duration::from_millis(2500));
		let log = io::since(0);
		let mut o = crate::ship::Out::default();
		o.timeline(&d.t);
		o.u(u64::from(d.m.size.0));
		o.u(u64::from(d.m.size.1));
		o.log(&log);
		o.u(io::seq());
		o.u(io::now());
		o.send('C');
		return true;
	}
	let begin = env.refs.ticks();
	let mut why = String::new();
	// Where a signal tells, the size may be known a little later.
	let resized = cfg!(feature = "sig") && d.known < d.t.sizes.len();
	let mut early = None;
	loop {
		let ticks = env.refs.ticks() - begin;
		match current(d) {
			// A new size has certainly been noticed by then.
			Ok(()) if resized && ticks < 12 => { early = early.or(Some(ticks)); },
			Ok(()) => {
				if resized {
					let e = io::seq();
					for k in d.known..d.t.sizes.len() { d.t.sizes[k].1.e = e; }
					let s = io::seq();
					d.t.sizes.push((d.m.size, Iv { s, e: io::seq() }));
					d.known = d.t.sizes.len();
				}
				let ticks = early.unwrap_or(ticks);
				env.late.1 += 1;
				if ticks > 6 {
					env.late.0 += 1;
					d.trace.push(format!("(on screen after {ticks} tick periods: {why})"));
					if env.late.0 >= 4 && env.late.0 * 4 >= env.late.1 {
						d.errors.push(viol(tags, format!("{} of {} changes took more than 6 tick periods to show, this one {ticks}: {why}", env.late.0, env.late.1)));
					}
				}
				return true;
			},
			Err(e) => { why = e; early = None; },
		}
		if ticks > 35 {
			d.errors.push(viol(tags, format!("not on the screen after {ticks} tick periods: {why}")));
			return false;
		}
		std::thread::sleep(Duration::from_millis(1));
	}
}

/// Changes, then time: the screen must follow, and stay put when nothing happens.
pub fn settle_case(env: &mut Env, r: &mut Rng, resize: bool) -> Case {
	let mut c = Case::default();
	let tags: &'static [&'static str] = if resize { &["C18", "C21", "C19", "C14"] } else { &["C18", "C19", "C14"] };
	let sz = if r.chance(1, 3) { size(r) } else { roomy(r) };
	env.pty.install();
	env.pty.size(sz.0, sz.1);
	io::SKEW.store(0, SeqCst);
	io::take();
	io::no_faults();
	io::capture(true);
	let mut d = Driver::new(total(r).max(3), age(r), sz, Some(env.pty), 1, if cfg!(miri) { SLACK } else { 0 });
	let mut p = Profile::basic();
	p.weights = [8, 5, 3, 8, 6, 5, 2, 3, 1, if resize { 3 } else { 0 }, 0, 1, 3, if resize { 8 } else { 0 }, 1, 1, 2];
	// Long tasks on display, and nothing changing but the width (or height).
	if resize && r.bool() {
		d.apply(&Op::Size(r.range(60, 200) as u16, r.range(12, 40) as u16), r);
		for _ in 0..r.range(1, 4) { d.apply(&Op::Add(format!("{} {}", tame(r, 2), "wide ".repeat(r.range(8, 40)).trim_end())), r); }
		if r.chance(1, 3) { d.apply(&Op::Title(Some(title(r, next_token()))), r); }
		for _ in 0..r.range(2, 5) {
			if ! settle(env, &mut d, tags) { break; }
			c.add("settled", 1);
			let (w, h) = d.m.size;
			d.apply(&if r.chance(1, 5) { Op::Size(w, r.range(3, 12) as u16) } else { Op::Size(r.range(20, 200) as u16, h) }, r);
		}
		c.add("resized at rest", 1);
	}
	let rounds = r.range(1, 4);
	for _ in 0..rounds {
		let most = if r.bool() { 2 } else { 6 };
		for _ in 0..r.range(1, most) {
			let o = op(r, &d, &p);
			d.apply(&o, r);
		}
		if ! d.m.running {
			// Everything is gone, or comes back.
			d.apply(&Op::Finish, r);
			if let Last::Frame(f) = last(&io::since(0)) { d.errors.push(viol(&["C16", "C18"], format!("left on the screen after the end: {:?}", f.raw))); }
			if r.chance(1, 3) { break; }
			let o = Op::Reset(total(r).max(2));
			d.apply(&o, r);
		}
		if ! settle(env, &mut d, tags) { break; }
		c.add("settled", 1);
		// Idle.
		if r.chance(1, 2) {
			let n = io::log_len();
			let (t0, k0) = (io::now(), env.refs.ticks());
			let long = r.chance(1, 4);
			while env.refs.ticks() - k0 < if long { 14 } else { 5 } { std::thread::sleep(Duration::from_millis(20)); }
			let t1 = io::now();
			let log = io::since(n);
			let max = (t1 - t0) / 1_000_000_000 + 2;
			if let Ok(ps) = pieces(&log) {
				let frames: Vec<Frame> = ps.iter().filter(|p| p.cls).filter_map(|p| parse(&p.text).ok()).collect();
				c.add("idle periods", 1);
				if usable(d.m.size).is_some_and(|s| s.0 >= 10) {
					if frames.len() as u64 > max { d.errors.push(viol(&["C18"], format!("{} frames painted in {} ms of nothing happening", frames.len(), (t1 - t0) / 1_000_000))); }
					for w in frames.windows(2) { if ! w[0].small && w[0].raw == w[1].raw && w[0].secs < 86_399 { d.errors.push(viol(&["C18"], format!("painted again although nothing changed: {:?}", w[1].raw))); } }
				}
			}
			if ! settle(env, &mut d, tags) { break; }
		}
	}
	d.apply(&Op::Finish, r);
	if let Err(k) = threads_gone(env.base) { d.errors.push(viol(&["C16", "C19"], format!("{k} threads are left, {} were there before", env.base))); }
	let log = io::take();
	io::capture(false);
	c.viols.append(&mut d.errors);
	#[cfg(feature = "sig")]
	for z in d.t.sizes.iter_mut().skip(d.known) { z.1.e = u64::MAX; }
	let sized = d.t.sizes.len() > 1;
	let o = Opts { vt: if sized || usable(sz).is_none() { None } else { Some((sz, 3)) }, ended: true, monotonic: true };
	let s = judge(&d.t, &log, &o, &mut c.viols);
	c.seen(&s);
	c.add("operations", d.trace.len() as u64);
	c.trace = d.trace.join("; ");
	c.shape = hash(&c.trace);
	c
}

/// Changes from many threads while the display ticks fast: once they stop, the screen must show the outcome.
pub fn burst_case(env: &mut Env, r: &mut Rng) -> Case {
	let mut c = Case::default();
	let tags: &'static [&'static str] = &["C18", "C14"];
	let sz = roomy(r);
	env.pty.install();
	env.pty.size(sz.0, sz.1);
	io::SKEW.store(FAST, SeqCst);
	io::take();
	let mut f = io::Faults::default();
	if r.chance(2, 3) { f.delay = 700; f.delay_us = *r.pick(&[20, 200, 1000]); }
	io::faults(f, r.next());
	io::capture(true);
	let mut d = Driver::new(u32::MAX - r.below(1000) as u32, 0, sz, Some(env.pty), 1, SLACK);
	let resets = r.chance(1, 3);
	for _ in 0..if cfg!(miri) { 1 } else { r.range(2, 8) } {
		if resets { d.apply(&Op::Reset(1_000_000 + r.below(1000) as u32), r); }
		let nt = r.range(1, 4);
		let mut sum = 0_u64;
		let mut set = None;
		let mut plans: Vec<Vec<Act>> = Vec::new();
		let span = r.range(1, 12);
		for t in 0..nt {
			let mut v = Vec::new();
			for k in 0..r.range(1, span) {
				match r.below(10) {
					0..=3 => { let n = r.range(1, 9) as u32; sum += u64::from(n); v.push(Act::Inc(n)); },
					4 | 5 => { let l = format!("t{t} {k}"); v.push(Act::Own(l.clone())); d.m.tasks.insert(l); },
					6 => if let Some(l) = d.m.tasks.iter().find(|l| l.starts_with(&format!("t{t} "))).cloned() { d.m.tasks.remove(&l); sum += 1; v.push(Act::Drop(l)); },
					7 => if t == 0 { let x = format!("title {}", next_token()); d.m.title = Some(Title { indent: 0, prefix: Prefix::Kind(0), body: x.clone(), suffix: String::new(), nl: false }); v.push(Act::Title(x)); },
					8 => if r.chance(1, 3) { v.push(Act::Push(Msg::from(format!("@m{}@", next_token())))); },
					_ => {},
				}
				v.push(Act::Spin(r.below(*r.clone().pick(&[100, 10_000, 300_000]))));
			}
			plans.push(v);
		}
		if nt == 1 && r.chance(1, 3) { let n = d.m.done as u32 + 1 + r.below(9) as u32; set = Some(n); plans[0].push(Act::Set(n + sum as u32)); }
		let bar = &d.bars[0];
		let gate = Arc::new(Barrier::new(nt));
		let s = io::seq();
		std::thread::scope(|sc| for (k, plan) in plans.iter().enumerate() {
			let gate = Arc::clone(&gate);
			sc.spawn(move || { io::own(10 + k as u32); gate.wait(); for a in plan { perform(bar, a, 10 + k as u32); } });
		});
		let iv = Iv { s, e: io::seq() };
		d.m.done = set.map_or(d.m.done, u64::from) + sum;
		d.t.counts.push((Count::Abs { done: d.m.done, total: d.m.total }, iv));
		d.t.tasks.push((None, false, Iv { s, e: s }));
		for l in &d.m.tasks { d.t.tasks.push((Some(l.clone()), true, Iv { s: iv.e, e: iv.e })); }
		let title = d.m.title_text();
		d.t.titles.push((title, iv));
		if ! cfg!(miri) { d.trace.push(format!("{plans:?}")); }
		c.add("bursts", 1);
		c.add("operations", plans.iter().map(Vec::len).sum::<usize>() as u64);
		if ! settle(env, &mut d, tags) { break; }
		c.add("settled", 1);
	}
	d.bars[0].finish();
	if let Err(k) = threads_gone(env.base) { d.errors.push(viol(&["C16", "C19"], format!("{k} threads are left, {} were there before", env.base))); }
	let log = io::take();
	io::capture(false);
	c.add("writes recorded", log.len() as u64);
	c.viols.append(&mut d.errors);
	c.trace = d.trace.join("; ");
	c.shape = hash(&c.trace);
	c
}

/// One kind of change by one thread while others force paints: the outcome must come to the screen.
pub fn race_case(env: &mut Env, r: &mut Rng) -> Case {
	let mut c = Case::default();
	let tags: &'static [&'static str] = &["C18", "C14", "C19"];
	let sz = roomy(r);
	env.pty.install();
	env.pty.size(sz.0, sz.1);
	io::SKEW.store(FAST, SeqCst);
	io::take();
	io::no_faults();
	io::capture(true);
	let mut d = Driver::new(100_000 + r.below(1000) as u32, 0, sz, Some(env.pty), 1, SLACK);
	nap(12);
	#[cfg(not(miri))]
	io::JITTER.store(*r.pick(&[0, 100, 400]), SeqCst);
	for round in 0..if cfg!(miri) { 3 } else { r.range(20, 60) } {
		let kind = r.below(8);
		// Long ones take their time.
		let tail = if cfg!(miri) || r.bool() { String::new() } else { " long".repeat(r.below(1000)) };
		if kind == 2 && d.m.tasks.is_empty() { d.apply(&Op::Add("first".to_owned()), r); }
		if kind == 5 && d.m.title.is_none() { d.apply(&Op::TitleStr(Some("before".to_owned())), r); }
		let plain = |x: String| Title { indent: 0, prefix: Prefix::Kind(0), body: x, suffix: String::new(), nl: false };
		let mut acts = Vec::new();
		let (mut sum, mut set) = (0_u64, None);
		for k in 0..r.range(1, if cfg!(miri) { 3 } else { 6 }) {
			match kind {
				0 => { let n = r.range(1, 9) as u32; sum += u64::from(n); acts.push(Act::Inc(n)); },
				1 => if d.m.tasks.len() < 3 { let l = format!("r{round} {k}"); d.m.tasks.insert(l.clone()); acts.push(Act::Own(l)); },
				2 => if let Some(l) = d.m.tasks.pop_first() { sum += 1; acts.push(Act::Drop(l)); },
				3 => { let x = format!("title {}{tail}", next_token()); d.m.title = Some(plain(x.clone())); acts.push(Act::Title(x)); },
				4 => { d.m.title = None; acts.push(Act::NoTitle); },
				5 => { let x = format!("msg {}{tail}", next_token()); if let Some(t) = d.m.title.as_mut() { t.body.clone_from(&x); } acts.push(Act::SetMsg(x)); },
				6 => { let n = r.below(90_000) as u32; set = Some((u64::from(n), d.m.total)); acts.push(Act::Set(n)); },
				_ => { let n = 100_000 + r.below(1000) as u32; set = Some((0, u64::from(n))); d.m.tasks.clear(); acts.push(Act::Reset(n)); },
			}
			if r.bool() { acts.push(if r.bool() { Act::Yield } else { Act::Spin(r.below(2000)) }); }
		}
		let pushers = r.range(1, 2);
		let pushes = r.range(1, if cfg!(miri) { 4 } else { 9 });
		let gate = Arc::new(Barrier::new(pushers + 1));
		let bar = &d.bars[0];
		let lead = r.below(6000);
		let seed = r.next();
		let s = io::seq();
		std::thread::scope(|sc| {
			for k in 0..=pushers {
				let (gate, acts) = (Arc::clone(&gate), &acts);
				sc.spawn(move || {
					io::own(10 + k as u32);
					io::dice(seed.wrapping_mul(k as u64 * 2 + 3));
					let msgs: Vec<Msg> = (0..pushes).map(|_| Msg::from(format!("@m{}@", next_token()))).collect();
					gate.wait();
					if k == 0 {
						if ! cfg!(miri) { for _ in 0..lead { std::hint::spin_loop(); } }
						for a in acts { perform(bar, a, 10); }
					}
					else { for m in msgs { let _ = bar.push_msg(m); } }
				});
			}
		});
		let iv = Iv { s, e: io::seq() };
		if let Some((n, t)) = set { d.m.done = n; d.m.total = t; } else { d.m.done += sum; }
		d.t.counts.push((Count::Abs { done: d.m.done, total: d.m.total }, iv));
		d.t.tasks.push((None, false, Iv { s, e: s }));
		for l in &d.m.tasks { d.t.tasks.push((Some(l.clone()), true, Iv { s: iv.e, e: iv.e })); }
		let title = d.m.title_text();
		d.t.titles.push((title, iv));
		if ! cfg!(miri) { d.trace.push(format!("{acts:?} next to {pushers}x{pushes} messages").replace(" long long", "")); }
		c.add("changes raced against paints", 1);
		if ! settle(env, &mut d, tags) { break; }
		c.add("settled", 1);
	}
	#[cfg(not(miri))]
	io::JITTER.store(0, SeqCst);
	d.bars[0].finish();
	if let Err(k) = threads_gone(env.base) { d.errors.push(viol(&["C16", "C19"], format!("{k} threads are left, {} were there before", env.base))); }
	let log = io::take();
	io::capture(false);
	c.add("writes recorded", log.len() as u64);
	c.viols.append(&mut d.errors);
	c.trace = d.trace.join("; ");
	c.shape = hash(&c.trace);
	for w in &log { c.shape = (c.shape ^ u64::from(w.tid.min(1000)) ^ w.data.len() as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5); }
	c
}

/// Resets from several threads at once leave one ticker, and it works.
pub fn twins_case(env: &mut Env, r: &mut Rng) -> Case {
	let mut c = Case::default();
	let sz = roomy(r);
	env.pty.install();
	env.pty.size(sz.0, sz.1);
	io::SKEW.store(FAST, SeqCst);
	io::take();
	io::no_faults();
	io::capture(true);
	let mut d = Driver::new(1000, 0, sz, Some(env.pty), 1, SLACK);
	let nt = r.range(2, 4);
	let rounds = r.range(5, 30);
	for round in 0..rounds {
		let gate = Arc::new(Barrier::new(nt));
		let bar = &d.bars[0];
		let seed = r.next();
		let jitter = *r.pick(&[0, 100, 400]);
		let twice = r.range(1, 3);
		let s = io::seq();
		io::JITTER.store(jitter, SeqCst);
		std::thread::scope(|sc| for k in 0..nt {
			let gate = Arc::clone(&gate);
			sc.spawn(move || { io::own(10 + k as u32); io::dice(seed.wrapping_mul(k as u64 * 2 + 3)); gate.wait(); for _ in 0..twice { let _ = bar.try_reset(1000); } });
		});
		io::JITTER.store(0, SeqCst);
		let iv = Iv { s, e: io::seq() };
		c.add("concurrent resets", (nt * twice) as u64);
		d.t.counts.push((Count::Abs { done: 0, total: 1000 }, iv));
		d.t.tasks.push((None, false, iv));
		d.m.done = 0;
		d.m.tasks.clear();
		if let Err(k) = threads_gone(env.base + 1) { d.errors.push(viol(&["C16", "C19"], format!("round {round}: {k} threads after {nt} threads reset the bar, {} and a ticker were expected", env.base))); break; }
		if r.chance(1, 4) {
			d.apply(&Op::IncN(r.range(1, 500) as u32), r);
			if ! settle(env, &mut d, &["C18", "C19"]) { break; }
		}
	}
	d.bars[0].finish();
	if let Err(k) = threads_gone(env.base) { d.errors.push(viol(&["C16", "C19"], format!("{k} threads are left, {} were there before", env.base))); }
	let log = io::take();
	io::capture(false);
	c.viols.append(&mut d.errors);
	c.trace = format!("{rounds} rounds of resets from {nt} threads at once; {}", d.trace.join("; "));
	c.shape = hash(&c.trace);
	for w in &log { c.shape = (c.shape ^ u64::from(w.tid.min(1000)) ^ w.data.len() as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5); }
	c
}

/// How long finish takes next to a plain wait of the same kind.
pub fn finish_speed(c: &mut Case) {
	let mut v = std::mem::take(&mut *FINISH.lock().unwrap());
	if v.len() < 30 { return; }
	let m = median(&mut v).unwrap_or(0);
	// The same with a thread of our own.
	let mut own = Vec::new();
	for _ in 0..30 {
		let p = Arc::new((Mutex::new(false), Condvar::new()));
		let q = Arc::clone(&p);
		let h = std::thread::spawn(move || {
			io::own(3);
			let mut g = q.0.lock().unwrap();
			while ! *g { g = q.1.wait_timeout(g, Duration::from_millis(100)).unwrap().0; }
		});
		std::thread::sleep(Duration::from_millis(1));
		let a = io::now();
		*p.0.lock().unwrap() = true;
		p.1.notify_all();
		let _ = h.join();
		own.push(io::now() - a);
	}
	let o = median(&mut own).unwrap_or(0);
	c.add("finish calls timed", v.len() as u64);
	if m > 40_000_000 && o < 10_000_000 { c.viols.push(viol(&["C16"], format!("finish takes {} ms (median of {}), stopping a waiting thread {} ms", m / 1_000_000, v.len(), o / 1_000_000))); }
}

/// Once finish has returned no ticker is left, however the run had come to its end.
pub fn linger(env: &Env, r: &mut Rng, c: &mut Case) {
	env.pty.install();
	env.pty.size(80, 24);
	io::no_faults();
	io::capture(true);
	let skew = io::SKEW.swap(0, SeqCst);
	// Like finish: told to stop, and waited for.
	let base = || {
		let a = io::now();
		while threads() > env.base && io::now() - a < 2_000_000_000 { std::thread::sleep(Duration::from_micros(300)); }
		io::now() - a
	};
	base();
	for way in 0..8 {
		let mut v = Vec::new();
		for k in 0..6 {
			let bar = Progless::try_from(5_u32).unwrap();
			for l in ["a", "b"] { let _ = bar.add(l); }
			std::thread::sleep(Duration::from_millis(r.range(1, 30) as u64));
			let other = bar.clone();
			// The ticker may be slow to get up, in which case it has to be waited for all the same.
			#[cfg(not(miri))]
			io::HOLD.store(if k > 1 || way == 7 { 30_000_000 } else { 0 }, SeqCst);
			match way {
				0 => {},
				1 => for _ in 0..5 { bar.increment(); },
				2 => { bar.increment_n(3); bar.remove("a"); bar.remove("b"); },
				3 => bar.set_done(5),
				4 => bar.increment_n(9),
				5 => { other.finish(); },
				7 => {},
				_ => { std::thread::spawn({ let b = bar.clone(); move || { io::own(12); b.increment_n(5); } }).join().unwrap(); },
			}
			if way != 7 { bar.finish(); v.push(base()); }
			drop(other);
			drop(bar);
			if way == 7 { v.push(base()); }
			#[cfg(not(miri))]
			io::HOLD.store(0, SeqCst);
			base();
		}
		// The same for one of our own.
		let mut own = Vec::new();
		for _ in 0..5 {
			let p = Arc::new((Mutex::new(false), Condvar::new()));
			let q = Arc::clone(&p);
			let h = std::thread::spawn(move || {
				io::own(3);
				let mut g = q.0.lock().unwrap();
				while ! *g { g = q.1.wait_timeout(g, Duration::from_millis(100)).unwrap().0; }
			});
			std::thread::sleep(Duration::from_millis(1));
			*p.0.lock().unwrap() = true;
			p.1.notify_all();
			let _ = h.join();
			own.push(base());
		}
		c.add("threads awaited after finish", 5);
		let (m, o) = (median(&mut v).unwrap_or(0), median(&mut own).unwrap_or(0));
		if m > 15_000_000 && o < 5_000_000 {
			let how = ["finish", "single steps", "removals", "set_done", "increment_n", "finish in another handle", "steps of another thread", "dropping"][way];
			c.viols.push(viol(&["C16"], format!("ended by {how}, then finished or dropped: its thread is there for {} ms more (median), a joined one {} ms", m / 1_000_000, o / 1_000_000)));
		}
	}
	io::SKEW.store(skew, SeqCst);
	io::take();
	io::capture(false);
}

/// Single steps from another thread right around forced paints: each frame agrees with itself.
pub fn mixed_case(env: &Env, r: &mut Rng) -> Case {
	let mut c = Case::default();
	let sz = roomy(r);
	env.pty.install();
	env.pty.size(sz.0, sz.1);
	io::SKEW.store(FAST, SeqCst);
	io::no_faults();
	for _ in 0..if cfg!(miri) { 1 } else { 20 } {
		env.pty.size(sz.0, sz.1);
		io::take();
		io::capture(true);
		let tot = r.range(2, if cfg!(miri) { 8 } else { 60 }) as u32;
		let (bar, iv, born) = create(tot, 0);
		let steps = r.range(1, tot as usize - 1);
		let spin = r.below(3000);
		let mut t = Timeline {
			counts: vec![(Count::Abs { done: 0, total: u64::from(tot) }, iv)],
			titles: vec![(None, Iv { s: 0, e: 0 })],
			runs: vec![(iv, None)],
			sizes: vec![(sz, Iv { s: 0, e: 0 })],
			born, slack: SLACK, ..Timeline::default()
		};
		let b2 = bar.clone();
		let resize = r.bool();
		let gate = Arc::new(Barrier::new(2));
		let g2 = Arc::clone(&gate);
		let h = std::thread::spawn(move || {
			io::own(11);
			let mut v = Vec::new();
			g2.wait();
			for _ in 0..steps {
				if cfg!(miri) { std::thread::yield_now(); } else { for _ in 0..spin { std::hint::spin_loop(); } }
				let s = io::seq();
				b2.increment();
				v.push(Iv { s, e: io::seq() });
			}
			v
		});
		gate.wait();
		for k in 0..r.range(2, if cfg!(miri) { 4 } else { 12 }) {
			if resize {
				let z = (sz.0 + (k % 2) as u16, sz.1);
				let s = io::seq();
				env.pty.size(z.0, z.1);
				t.sizes.push((z, Iv { s, e: io::seq() }));
			}
			let m = Msg::from(format!("@m{}@", next_token())).with_newline(true);
			let s = io::seq();
			let ok = bar.push_msg(m.clone()).is_ok();
			t.msgs.push(Msg1 { text: m.as_str().to_owned(), tid: 1, iv: Iv { s, e: io::seq() }, ok, te: io::now() });
		}
		for iv in h.join().unwrap() { t.counts.push((Count::Inc { n: 1, certain: true }, iv)); }
		let s = io::seq();
		bar.finish();
		t.runs[0].1 = Some(Iv { s, e: io::seq() });
		let log = io::take();
		io::capture(false);
		#[cfg(feature = "sig")]
		for z in t.sizes.iter_mut().skip(1) { z.1.e = u64::MAX; }
		let o = Opts { vt: None, ended: false, monotonic: false };
		let s = judge(&t, &log, &o, &mut c.viols);
		c.seen(&s);
		c.add("operations", steps as u64);
		for w in &log { c.shape = (c.shape ^ u64::from(w.tid.min(1000)) ^ w.data.len() as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5); }
		if ! c.viols.is_empty() { c.trace = format!("new({tot}), {steps} steps, resize {resize}, {} messages", t.msgs.len()); break; }
	}
	if c.trace.is_empty() { c.trace = format!("20 bars on {sz:?} stepped by a second thread around forced paints {:x}", c.shape); }
	let _ = threads_gone(env.base);
	c
}
