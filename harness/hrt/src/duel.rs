//! Very short races of a few calls, many times over; whatever they return must have an explanation.

use crate::io;
use crate::lin::{explained, Call, Done};
use crate::oracle::viol;
use crate::work::*;
use fyi_msg::Progless;
use hcommon::Rng;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

const LABELS: [&str; 6] = ["a", "b\tb", "c", "new", "late", "\u{1b}[1md"];

fn act(bar: &Progless, call: Call) -> Done {
	let (mut ok, mut n) = (true, 0);
	let s = io::seq();
	match call {
		Call::Inc(1) => bar.increment(),
		Call::Inc(k) => bar.increment_n(k),
		Call::Set(k) => bar.set_done(k),
		Call::Add(l) => ok = bar.add(LABELS[usize::from(l)]),
		Call::Remove(l) => bar.remove(LABELS[usize::from(l)]),
		Call::Finish => { bar.finish(); },
		Call::Reset(k) => bar.try_reset(k).unwrap(),
		Call::Read => n = read_count(bar),
	}
	Done { call, s, e: io::seq(), ok, n }
}

fn pause(n: &mut usize) {
	*n += 1;
	// Virtual time stands still while somebody is busy.
	if cfg!(miri) { std::thread::sleep(std::time::Duration::from_millis(5)); }
	else if *n % 300 == 0 { std::thread::yield_now(); } else { std::hint::spin_loop(); }
}

/// What the threads do in one round: before, at once, after.
struct Plan { before: Vec<Call>, duel: Vec<Vec<Call>>, total: u32 }

fn plan(r: &mut Rng, nt: usize, resets: bool) -> Plan {
	let total = match r.below(4) { 0 => 1, 1 => r.range(1, 4), 2 => r.range(2, 8), _ => 1000 } as u32;
	let mut before = Vec::new();
	for l in 0..2 { if r.bool() { before.push(Call::Add(l)); } }
	if r.chance(1, 3) && total > 2 { before.push(Call::Inc(r.range(1, total as usize - 1) as u32)); }
	// A few kinds only.
	let kinds: Vec<usize> = (0..r.range(2, 3)).map(|_| r.below(if resets { 9 } else { 7 })).collect();
	let ends = r.chance(1, 2);
	let mut duel: Vec<Vec<Call>> = (0..nt).map(|_| (0..r.range(1, if nt > 2 { 2 } else { 3 })).map(|_| match *r.pick(&kinds) {
		0 => Call::Inc(if r.chance(3, 4) { 1 } else { r.below(4) as u32 }),
		1 => Call::Set(r.below(total.min(9) as usize + 2) as u32),
		2 => Call::Add(r.below(3) as u8),
		3 => Call::Remove(r.below(3) as u8),
		4 => Call::Read,
		5 => if ends { Call::Finish } else { Call::Inc(1) },
		6 => *r.pick(&[Call::Add(5), Call::Remove(0), Call::Remove(1), Call::Inc(1)]),
		_ => Call::Reset(r.range(1, 5) as u32),
	}).collect()).collect();
	if ends && r.bool() { let k = r.below(nt); duel[k] = vec![Call::Finish]; }
	Plan { before, duel, total }
}

/// One history; a summary of it comes back.
pub fn judged(c: &mut Case, resets: bool, total: u32, all: &[Vec<Done>]) -> u64 {
	c.add("races judged", 1);
	let mut order: Vec<(u64, usize)> = all.iter().enumerate().flat_map(|(k, t)| t.iter().flat_map(move |d| [(d.s, k), (d.e, k)])).collect();
	order.sort_unstable();
	let mut h = 7_u64;
	for (_, k) in order { h = h.wrapping_mul(31).wrapping_add(k as u64); }
	for t in all { for d in t { h = h.wrapping_mul(1_000_003) ^ d.n ^ u64::from(d.ok) << 9; } }
	match explained(total, all) {
		Some(n) => c.add("states searched", n as u64),
		None => c.viols.push(viol(if resets { &["C19"] } else { &["C12", "C13"] }, format!("no order of effects explains what the calls returned, total {total}: {:?}",
			all.iter().map(|t| t.iter().map(|d| format!("[{}..{} {:?}{}]", d.s, d.e, d.call, match d.call { Call::Add(_) => format!(" -> {}", d.ok), Call::Read => format!(" -> {}", d.n), _ => String::new() })).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>()))),
	}
	h
}

pub fn duel_case(env: &Env, r: &mut Rng, resets: bool) -> Case {
	let mut c = Case::default();
	let rounds = if cfg!(miri) { 4 } else { 1500 };
	if r.chance(1, 4) { env.pty.install(); env.pty.size(60, 10); } else { io::no_tty(); if cfg!(miri) { env.pty.install(); } }
	io::SKEW.store(-99_960_000, SeqCst);
	io::take();
	io::no_faults();
	io::capture(true);
	let nt = if r.chance(1, 4) { 3 } else { 2 };
	let per = if cfg!(miri) { 1 } else { 30 };
	let plans: Vec<Plan> = (0..rounds / per).map(|_| plan(r, nt, resets)).collect();
	let bar = Progless::try_from(plans[0].total).unwrap();
	let round = AtomicU64::new(0);
	let ready = AtomicUsize::new(0);
	let finished = AtomicUsize::new(0);
	let gate = std::sync::Barrier::new(nt);
	let stop = AtomicBool::new(false);
	let slots: Vec<Mutex<Vec<Done>>> = (0..nt).map(|_| Mutex::new(Vec::new())).collect();
	let seed = r.next();
	let jitter = if cfg!(miri) { 0 } else { *r.pick(&[0, 60, 300]) };
	let mut shapes = 0_u64;
	std::thread::scope(|sc| {
		for k in 1..nt {
			let (bar, plans, round, ready, finished, stop, slots, gate) = (&bar, &plans, &round, &ready, &finished, &stop, &slots, &gate);
			sc.spawn(move || {
				io::own(10 + k as u32);
				io::dice(seed.wrapping_mul(k as u64 * 2 + 3));
				let mut r = Rng::mix(&[seed, k as u64]);
				let mut last = 0;
				let mut n = 0;
				loop {
					while round.load(SeqCst) == last && ! stop.load(SeqCst) { pause(&mut n); }
					if stop.load(SeqCst) { break; }
					last = round.load(SeqCst);
					let p = &plans[(last as usize - 1) / per];
					ready.fetch_add(1, SeqCst);
					if cfg!(miri) { gate.wait(); }
					while ready.load(SeqCst) < nt * last as usize { pause(&mut n); }
					if ! cfg!(miri) { for _ in 0..r.below(60) { std::hint::spin_loop(); } }
					let v: Vec<Done> = p.duel[k].iter().map(|a| act(bar, *a)).collect();
					*slots[k].lock().unwrap() = v;
					finished.fetch_add(1, SeqCst);
				}
			});
		}
		io::dice(seed);
		let mut n = 0;
		for i in 1..=rounds {
			let p = &plans[(i - 1) / per];
			if i > 1 && (i - 1) % per == 0 { bar.try_reset(p.total).unwrap(); }
			let mut mine: Vec<Done> = p.before.iter().map(|a| act(&bar, *a)).collect();
			io::JITTER.store(jitter, SeqCst);
			round.store(i as u64, SeqCst);
			ready.fetch_add(1, SeqCst);
			if cfg!(miri) { gate.wait(); }
			while ready.load(SeqCst) < nt * i { pause(&mut n); }
			if ! cfg!(miri) { for _ in 0..r.below(60) { std::hint::spin_loop(); } }
			mine.extend(p.duel[0].iter().map(|a| act(&bar, *a)));
			while finished.load(SeqCst) < (nt - 1) * i { pause(&mut n); }
			io::JITTER.store(0, SeqCst);
			// At rest: counts, running or not, tasks; the same once more after a reset.
			mine.extend([Call::Read, Call::Add(3)].map(|a| act(&bar, a)));
			let running = mine.last().is_some_and(|d| d.ok);
			if resets && running && ! cfg!(miri) {
				// (The list of threads may miss some as others come and go.)
				c.add("censuses of running bars", 1);
				let want = env.base + nt;
				let mut n = threads();
				for _ in 0..40 { if n >= want { break; } std::thread::sleep(std::time::Duration::from_millis(1)); n = threads(); }
				if n < want {
					c.viols.push(viol(&["C19", "C18"], format!("the bar is running after {:?}, but its ticker is gone ({n} threads)", p.duel)));
					break;
				}
			}
			let mut tail = Vec::new();
			for l in [0, 1, 2, 5] { if r.bool() { tail.push(Call::Add(l)); } else { tail.push(Call::Remove(l)); tail.push(Call::Read); } }
			tail.extend([Call::Finish, Call::Read, Call::Add(4), Call::Reset(p.total)]);
			if p.total > 1 { for l in [0, 1, 2, 3, 5, 4] { tail.push(Call::Remove(l)); } }
			tail.push(Call::Read);
			mine.extend(tail.into_iter().map(|a| act(&bar, a)));
			let mut all = vec![mine];
			for s in &slots[1..] { all.push(std::mem::take(&mut *s.lock().unwrap())); }
			if cfg!(miri) {
				let mut o = crate::ship::Out::default();
				o.u(u64::from(resets));
				o.u(u64::from(p.total));
				o.calls(&all);
				o.send('L');
			}
			else {
				shapes ^= judged(&mut c, resets, p.total, &all).rotate_left((i % 64) as u32);
				if ! c.viols.is_empty() { break; }
			}
			// A completing step may have acted on the next run (it is gone now, though).
			if i % 50 == 0 { io::take(); }
		}
		stop.store(true, SeqCst);
	});
	io::JITTER.store(0, SeqCst);
	bar.finish();
	drop(bar);
	if let Err(k) = threads_gone(env.base) { c.viols.push(viol(&["C16", "C19"], format!("{k} threads are left, {} were there before", env.base))); }
	io::take();
	io::capture(false);
	c.shape = shapes;
	c.trace = format!("{} plans of {nt} threads, {rounds} races, such as {:?} | {:?}", plans.len(), plans[0].before, plans[0].duel);
	c
}
