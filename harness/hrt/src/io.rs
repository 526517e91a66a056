//! The boundary between the program and the system: `read`, `write`, `writev`, `clock_gettime`
//! and `open` as called by the standard library end up here, where they are recorded (with a global
//! sequence number at entry and exit), split, interrupted, refused or delayed as the workload demands.

#[cfg(not(miri))]
#[path = "native.rs"]
mod sys;
#[cfg(miri)]
#[path = "interpreted.rs"]
mod sys;
pub use sys::*;

/// One write call on a captured descriptor.
#[derive(Debug, Clone)]
pub struct Wr {
	pub fd: i32,
	pub tid: u32,
	pub s: u64,
	pub e: u64,
	pub ts: u64,
	pub te: u64,
	/// What the program asked for.
	pub want: Vec<u8>,
	/// What was taken.
	pub data: Vec<u8>,
	pub err: i32,
	/// The rest was never written.
	pub lost: bool,
}

/// What goes wrong with writes, per mille.
#[derive(Debug, Clone, Copy, Default)]
pub struct Faults {
	pub short: usize,
	pub eintr: usize,
	pub err: usize,
	pub zero: usize,
	/// From this sequence number on only.
	pub fds: u8,
	pub delay: usize,
	pub delay_us: usize,
}

/// Put the pieces of every single output together again: what the program meant to write, in order,
/// with complaints about pieces repeated, left out or mixed up.
pub fn emissions(log: &[Wr], fd: i32) -> (Vec<Wr>, Vec<String>) {
	let (mut out, mut bad): (Vec<Wr>, Vec<String>) = (Vec::new(), Vec::new());
	// The one under way: what is left of it.
	let mut open: Option<(Wr, Vec<u8>)> = None;
	for w in log.iter().filter(|w| w.fd == fd) {
		if w.want.is_empty() { continue; }
		let (mut whole, rest) = match open.take() {
			None => (Wr { data: w.want.clone(), ..w.clone() }, w.want.clone()),
			Some((whole, rest)) => {
				if whole.tid != w.tid {
					bad.push(format!("{:?} of another thread came between, {:?} was still to be written", lossy(&w.want), lossy(&rest)));
					let mut x = whole;
					x.lost = true;
					out.push(x);
					(Wr { data: w.want.clone(), ..w.clone() }, w.want.clone())
				}
				else {
					let k = rest.len().min(w.want.len());
					if rest[..k] != w.want[..k] {
						bad.push(format!("{:?} was still to be written but {:?} was", lossy(&rest), lossy(&w.want)));
						let mut x = whole;
						x.lost = true;
						out.push(x);
						(Wr { data: w.want.clone(), ..w.clone() }, w.want.clone())
					}
					else if w.want.len() > rest.len() {
						let mut x = whole;
						x.data.extend_from_slice(&w.want[k..]);
						(x, w.want.clone())
					}
					else { (whole, rest) }
				}
			},
		};
		whole.e = w.e;
		whole.te = w.te;
		let rest = rest[w.data.len()..].to_vec();
		if rest.is_empty() { out.push(whole); }
		else if w.err == libc::EINTR || w.err == 0 && ! w.data.is_empty() { open = Some((whole, rest)); }
		else { whole.lost = true; out.push(whole); }
	}
	if let Some((mut x, rest)) = open {
		bad.push(format!("{:?} was never written", lossy(&rest)));
		x.lost = true;
		out.push(x);
	}
	(out, bad)
}

fn lossy(b: &[u8]) -> String { String::from_utf8_lossy(b).chars().take(120).collect() }

