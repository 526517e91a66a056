//! Is there an order of what the calls of a small concurrent history do that explains all they returned?
//!
//! Every call is a row of steps that take effect one by one somewhere between call and return: most
//! find out whether the bar is running, then do what they do at once (taking a task off includes
//! counting it). Finishing stops the run, completes the count and clears the tasks; a step that would
//! reach the total finishes instead, if it (still) would once nobody else is finishing or resetting;
//! resetting finishes, sets the counts and starts. Only one can be finishing or resetting at a time.
//! (Ending a run that way is not done in an instant: what others set or add meanwhile goes with it.)
//! The search is exhaustive.

use std::collections::HashSet;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Call { Inc(u32), Set(u32), Add(u8), Remove(u8), Finish, Reset(u32), Read }

#[derive(Debug, Clone, Copy)]
pub struct Done { pub call: Call, pub s: u64, pub e: u64, /** Accepted? */ pub ok: bool, /** The count. */ pub n: u64 }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Phase { Running, Stopping, Stopped }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct State { phase: Phase, /** Is somebody finishing or resetting? */ busy: bool, done: u64, total: u64, tasks: u32 }

#[derive(Clone, PartialEq, Eq, Hash)]
struct Node { st: State, /** For every thread: calls over, and step within the next one. */ at: Vec<(u8, u8)> }

/// What follows a step: the next state and the next step of the call (or `OVER`).
const OVER: u8 = 255;
const TRY: u8 = 1; // Found running.
const LAST: u8 = 2; // Would have completed the count.
const STOP: u8 = 10; // STOP, STOP + 1, STOP + 2: the parts of finishing.
const RESET: u8 = 30; // RESET, RESET + 1: setting the counts, starting.

fn steps(c: &Done, pc: u8, st: State, out: &mut Vec<(State, u8)>) {
	use Phase::*;
	let reset = matches!(c.call, Call::Reset(_));
	match (pc, c.call) {
		// Finishing.
		(0, Call::Finish | Call::Reset(_)) => if ! st.busy { out.push(stop(st, reset)); },
		(11, _) => out.push((State { done: st.total, ..st }, STOP + 2)),
		(12, _) => out.push((State { phase: Stopped, busy: reset, tasks: 0, ..st }, if reset { RESET } else { OVER })),
		(RESET, Call::Reset(n)) => out.push((State { done: 0, total: u64::from(n), ..st }, RESET + 1)),
		(31, _) => out.push((State { phase: Running, busy: false, ..st }, OVER)),
		(0, Call::Inc(0)) => out.push((st, OVER)),
		(0, Call::Inc(_) | Call::Set(_) | Call::Remove(_)) => out.push((st, if st.phase == Running { TRY } else { OVER })),
		(TRY, _) => out.push(attempt(c.call, st).map_or((st, LAST), |st| (st, OVER))),
		(LAST, _) => if ! st.busy {
			out.push(match attempt(c.call, st) {
				Some(st) => (st, OVER),
				None if st.phase == Running => (State { busy: true, ..st }, STOP),
				None => (st, OVER),
			});
		},
		(STOP, _) => out.push((State { phase: Stopping, ..st }, STOP + 1)),
		(0, Call::Add(l)) => {
			let yes = st.phase == Running && st.tasks & (1 << l) == 0;
			if yes && c.ok { out.push((State { tasks: st.tasks | 1 << l, ..st }, OVER)); }
			else if ! yes && ! c.ok { out.push((st, OVER)); }
		},
		(0, Call::Read) => if st.done == c.n { out.push((st, OVER)); },
		_ => unreachable!(),
	}
}

/// What the call does unless that would complete the count.
fn attempt(call: Call, st: State) -> Option<State> {
	let done = match call {
		Call::Inc(n) => st.done + u64::from(n),
		Call::Set(n) => if st.done < st.total { u64::from(n) } else { st.total },
		Call::Remove(l) if st.tasks & (1 << l) == 0 => return Some(st),
		_ => st.done + 1,
	};
	if done < st.total { Some(State { done, tasks: if let Call::Remove(l) = call { st.tasks & ! (1 << l) } else { st.tasks }, ..st }) }
	else { None }
}

fn stop(st: State, reset: bool) -> (State, u8) {
	if st.phase == Phase::Running { (State { phase: Phase::Stopping, busy: true, ..st }, STOP + 1) }
	else if reset { (State { busy: true, ..st }, RESET) }
	else { (st, OVER) }
}

/// The number of states visited if it can be explained, none otherwise.
pub fn explained(total: u32, threads: &[Vec<Done>]) -> Option<usize> {
	let start = Node { st: State { phase: Phase::Running, busy: false, done: 0, total: u64::from(total), tasks: 0 }, at: vec![(0, 0); threads.len()] };
	let mut seen = HashSet::new();
	let mut todo = vec![start];
	let mut out = Vec::new();
	while let Some(n) = todo.pop() {
		if ! seen.insert(n.clone()) { continue; }
		// Nothing that has not begun may take effect before what has returned is over.
		let mut limit = u64::MAX;
		let mut open = false;
		for (k, t) in threads.iter().enumerate() {
			if let Some(c) = t.get(usize::from(n.at[k].0)) { open = true; limit = limit.min(c.e); }
		}
		if ! open { return Some(seen.len()); }
		for (k, t) in threads.iter().enumerate() {
			let Some(c) = t.get(usize::from(n.at[k].0)) else { continue; };
			if c.s > limit { continue; }
			out.clear();
			steps(c, n.at[k].1, n.st, &mut out);
			for (st, pc) in &out {
				let mut m = n.clone();
				m.st = *st;
				m.at[k] = if *pc == OVER { (m.at[k].0 + 1, 0) } else { (m.at[k].0, *pc) };
				todo.push(m);
			}
		}
	}
	None
}
