//! A small terminal emulator: enough to say what is on the screen and in the scrollback.

use unicode_width::UnicodeWidthChar;

#[derive(Debug, Clone, Default)]
pub struct Line {
	pub cells: Vec<String>,
	/// Continues on the next line.
	pub wrapped: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum St { Ground, Esc, Csi, Osc, OscEsc }

#[derive(Debug, Clone)]
pub struct Vt {
	pub w: usize,
	pub h: usize,
	pub lines: Vec<Line>,
	pub row: usize,
	pub col: usize,
	pending: bool,
	st: St,
	params: String,
	part: Vec<u8>,
	pub cursor_hidden: bool,
	/// Lines scrolled off the top so far.
	pub scrolled: usize,
	pub odd: Vec<String>,
}

impl Vt {
	pub fn new(w: usize, h: usize) -> Self {
		Self { w, h, lines: vec![Line::default()], row: 0, col: 0, pending: false, st: St::Ground, params: String::new(), part: Vec::new(), cursor_hidden: false, scrolled: 0, odd: Vec::new() }
	}
	fn top(&self) -> usize { self.lines.len().saturating_sub(self.h) }
	fn down(&mut self) {
		self.row += 1;
		if self.row >= self.lines.len() {
			if self.lines.len() >= self.h { self.scrolled += 1; }
			self.lines.push(Line::default());
		}
	}
	fn put(&mut self, c: char) {
		let w = UnicodeWidthChar::width(c).unwrap_or(0);
		if w == 0 { return; }
		if self.pending || self.col + w > self.w {
			self.lines[self.row].wrapped = true;
			self.down();
			self.col = 0;
			self.pending = false;
		}
		let l = &mut self.lines[self.row];
		while l.cells.len() < self.col + w { l.cells.push(" ".to_owned()); }
		l.cells[self.col] = c.to_string();
		for k in 1..w { l.cells[self.col + k] = String::new(); }
		self.col += w;
		if self.col >= self.w { self.col = self.w - 1; self.pending = true; }
	}
	fn csi(&mut self, c: char) {
		let n = self.params.parse::<usize>().unwrap_or(1).max(1);
		match c {
			'm' => {},
			'A' => { self.row = self.row.saturating_sub(n).max(self.top()); self.pending = false; },
			'J' if self.params.is_empty() || self.params == "0" => {
				let (row, col) = (self.row, self.col);
				self.lines[row].cells.truncate(col);
				self.lines[row].wrapped = false;
				for l in &mut self.lines[row + 1..] { *l = Line::default(); }
				self.pending = false;
			},
			'h' | 'l' if self.params == "?25" => self.cursor_hidden = c == 'l',
			_ => self.odd.push(format!("CSI {}{c}", self.params)),
		}
	}
	fn ch(&mut self, c: char) {
		match self.st {
			St::Ground => match c {
				'\x1b' => self.st = St::Esc,
				'\r' => { self.col = 0; self.pending = false; },
				'\n' => { self.col = 0; self.pending = false; self.down(); },
				'\x0b' | '\x0c' | '\u{85}' => { self.odd.push(format!("{c:?}")); self.down(); },
				'\t' => { self.odd.push("tab".to_owned()); self.col = (self.col / 8 * 8 + 8).min(self.w - 1); },
				'\x08' => { self.odd.push("backspace".to_owned()); self.col = self.col.saturating_sub(1); },
				c if c.is_control() => {},
				c => self.put(c),
			},
			St::Esc => match c {
				'[' => { self.st = St::Csi; self.params.clear(); },
				']' => self.st = St::Osc,
				'\x1b' => {},
				_ => self.st = St::Ground,
			},
			St::Csi => match c {
				'@'..='~' => { self.st = St::Ground; self.csi(c); },
				'\x1b' => self.st = St::Esc,
				c => self.params.push(c),
			},
			St::Osc => match c { '\x07' | '\u{153}' => self.st = St::Ground, '\x1b' => self.st = St::OscEsc, _ => {} },
			St::OscEsc => self.st = match c { '\\' => St::Ground, '\x1b' => St::OscEsc, _ => St::Osc },
		}
	}
	pub fn feed(&mut self, b: &[u8]) {
		self.part.extend_from_slice(b);
		let buf = std::mem::take(&mut self.part);
		let mut rest: &[u8] = &buf;
		loop {
			match std::str::from_utf8(rest) {
				Ok(s) => { for c in s.chars() { self.ch(c); } return; },
				Err(e) => {
					let (a, z) = rest.split_at(e.valid_up_to());
					for c in std::str::from_utf8(a).unwrap_or("").chars() { self.ch(c); }
					match e.error_len() {
						None => { self.part = z.to_vec(); return; },
						Some(n) => { self.odd.push("invalid UTF-8".to_owned()); rest = &z[n..]; },
					}
				},
			}
		}
	}
	/// Is nothing but ground state left?
	pub fn ground(&self) -> bool { self.st == St::Ground && self.part.is_empty() }
	/// The visible text of one row.
	pub fn text(&self, row: usize) -> String { self.lines[row].cells.concat() }
	/// Everything, wrapped lines joined, trailing blank lines removed.
	pub fn all(&self) -> Vec<String> {
		let mut out = Vec::new();
		let mut cur = String::new();
		for l in &self.lines {
			cur.push_str(&l.cells.concat());
			if ! l.wrapped { out.push(std::mem::take(&mut cur)); }
		}
		if ! cur.is_empty() { out.push(cur); }
		while out.last().is_some_and(|l| l.trim_end().is_empty()) { out.pop(); }
		out
	}
	/// Is everything from the cursor on blank?
	pub fn clear_below(&self) -> bool {
		self.lines[self.row].cells.iter().skip(self.col).all(|c| c.trim().is_empty()) &&
		self.lines[self.row + 1..].iter().all(|l| l.cells.iter().all(|c| c.trim().is_empty()))
	}
}
