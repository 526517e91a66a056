From 198215b2991071d98098728d586c874f51abc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:23 +0000
Subject: [PATCH 01/23] fix: keep unterminated ANSI sequences in bounds

The end of an unterminated sequence was reported as start+len, making
Msg::strip_ansi panic or eat into the parts that followed, and
fit_to_width lose the sequence.
---
 fyi_msg/src/ansi.rs   | 3 ++-
 fyi_msg/src/fitted.rs | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/fyi_msg/src/ansi.rs b/fyi_msg/src/ansi.rs
index 24bfb4c..5dfd11e 100644
--- a/fyi_msg/src/ansi.rs
+++ b/fyi_msg/src/ansi.rs
@@ -352,7 +352,8 @@ pub(crate) fn next_ansi(src: &str) -> Option<Range<usize>> {
 		_ => {},
 	}
 
-	Some(start..start + end.unwrap_or(len))
+	// If there is no end, the sequence runs through the end of the slice.
+	Some(start..end.map_or(len, |end| start + end))
 }
 
 
diff --git a/fyi_msg/src/fitted.rs b/fyi_msg/src/fitted.rs
index e6c4439..1c8c91f 100644
--- a/fyi_msg/src/fitted.rs
+++ b/fyi_msg/src/fitted.rs
@@ -119,10 +119,12 @@ pub fn fit_to_width(src: &str, width: usize) -> Cow<str> {
 						return Cow::Borrowed("");
 					};
 
-					// Keep the fitable, "lost" ANSI, and trailing breaks.
+					// Keep the fitable, "lost" ANSI, and trailing breaks, taking
+					// care not to keep the latter twice.
+					let end = terminator($line);
 					$out.push_str(keep);
-					$out.extend(OnlyAnsi::new(kill));
-					$out.push_str(terminator($line));
+					$out.extend(OnlyAnsi::new(kill.strip_suffix(end).unwrap_or(kill)));
+					$out.push_str(end);
 				);
 			}
 
-- 
2.43.0


From 3f2bd442a8a235c473d1d416d86c9d7fcac29d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:36 +0000
Subject: [PATCH 02/23] fix: strip ANSI sequences formed by the removal of
 others

Stripping "\x1b\x1b[1m[0m" left a brand new "\x1b[0m" behind.
---
 fyi_msg/src/msg/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fyi_msg/src/msg/mod.rs b/fyi_msg/src/msg/mod.rs
index 60e51d2..bb45a95 100644
--- a/fyi_msg/src/msg/mod.rs
+++ b/fyi_msg/src/msg/mod.rs
@@ -751,6 +751,12 @@ impl Msg {
 				start = ansi_rng.start; // Pick up from here next time around.
 				stop -= ansi_len;       // But stop earlier, since we removed shit.
 				self.inner.replace_range(ansi_rng, "");
+
+				// If that left us with a dangling escape, back up in case it
+				// and what now follows comprise a sequence of their own.
+				if old_rng.start < start && self.inner.as_bytes()[start - 1] == b'\x1b' {
+					start -= 1;
+				}
 			}
 
 			// Update the table of contents, if necessary.
-- 
2.43.0


From 63c41380f68b38f7d374a918cd7c9869812a3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 03/23] fix: don't lose Progless increments made in parallel

The done count was updated with a separate load and store, so threads
could overwrite each other's changes (or those made by finish).
---
 fyi_msg/src/progress/mod.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 8da7400..913d834 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -401,14 +401,18 @@ impl ProglessInner {
 	/// and more efficient than calling `increment()` a million times in a row.
 	fn increment_n(&self, n: u32) {
 		if n != 0 && self.running() {
-			// Don't bother recasting the parts to u32; leaving them as-is
-			// moots addition overflow and simplifies the subsequent joining.
-			let done_total = self.done_total.load(SeqCst);
-			let done = done!(done_total) + u64::from(n);
-			let total = total!(done_total);
+			// The count has to be updated in one go lest parallel increments
+			// overwrite one another.
+			let res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+				// Don't bother recasting the parts to u32; leaving them as-is
+				// moots addition overflow and simplifies the subsequent joining.
+				let done = done!(done_total) + u64::from(n);
+				let total = total!(done_total);
+				if done < total { Some(done_total!(done, total)) }
+				else { None }
+			});
 
-			if done < total {
-				self.done_total.store(done_total!(done, total), SeqCst);
+			if res.is_ok() {
 				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
 			}
 			// Time to call it quits!
@@ -504,16 +508,22 @@ impl ProglessInner {
 	fn set_done(&self, done: u32) {
 		if self.running() {
 			let done = u64::from(done);
-			let done_total = self.done_total.load(SeqCst);
-			if done != done!(done_total) {
+			let res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+				// If somebody else just finished we're too late to the party.
 				let total = total!(done_total);
-				if done < total {
-					self.done_total.store(done_total!(done, total), SeqCst);
+				if done < total && done!(done_total) < total {
+					Some(done_total!(done, total))
+				}
+				else { None }
+			});
+
+			if let Ok(old) = res {
+				if done != done!(old) {
 					self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
 				}
-				// Time to call it quits!
-				else { self.stop(); }
 			}
+			// Time to call it quits!
+			else { self.stop(); }
 		}
 	}
 
-- 
2.43.0


From 5d7d257c5c3ef52308b157abdf1b4d61a3b11fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:37 +0000
Subject: [PATCH 04/23] fix: calculate the Progless bar without overflowing

The done count multiplied by the bar width can exceed u32::MAX, killing
the ticker or drawing a bar of the wrong size.
---
 fyi_msg/src/progress/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 913d834..cacd92f 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -980,7 +980,7 @@ impl ProglessBuffer {
 			else if done == total { w_done = space; }
 			// Working on it!
 			else {
-				w_done = u8::saturating_from((done * u32::from(space)).wrapping_div(total));
+				w_done = u8::saturating_from((u64::from(done) * u64::from(space)).wrapping_div(u64::from(total)));
 				w_undone = space.saturating_sub(w_done);
 			}
 
-- 
2.43.0


From bd64872f3538840cc079bb8476dbc224c0c83696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 05/23] fix: don't redraw Progless once it has stopped

A tick waiting for STDERR while the progress was being stopped would go
on to repaint it after it had been erased, and finish could return before
another thread's stop had set the final count and cleaned the screen.
---
 fyi_msg/src/progress/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index cacd92f..298cc1b 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -332,13 +332,13 @@ impl ProglessInner {
 	/// needed), set "done" equal to "total", and clear any active tasks. It
 	/// will also erase the CLI progress bar from the screen.
 	fn stop(&self) {
+		// Acquire the lock a little early just in case there is a final
+		// in-progress tick, or another thread is already stopping.
+		let mut handle = std::io::stderr().lock();
+
 		// Shut 'er down!
 		let flags = self.flags.swap(0, SeqCst);
 		if TICKING == flags & TICKING {
-			// Acquire the lock a little early just in case there is a
-			// final in-progress tick.
-			let mut handle = std::io::stderr().lock();
-
 			// Make sure "done" equals "total".
 			let done_total = self.done_total.load(SeqCst);
 			let total = total!(done_total);
@@ -593,6 +593,10 @@ impl ProglessInner {
 		// possible, even though we may well not end up using it.
 		let mut handle = std::io::stderr().lock();
 
+		// Progress may have stopped while we were waiting, in which case the
+		// screen is no longer ours to draw on.
+		if ! self.running() { return false; }
+
 		// Pull the terminal dimensions.
 		let Some((width, height)) = self.tick_set_size() else {
 			// The size either changed between ticks or cannot be determined.
-- 
2.43.0


From 6b3f3c5ba7a8414053db6fe0a35230b018a7a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 06/23] fix: don't add Progless tasks after they've been
 cleared

A task added while another thread stopped the progress could outlive it,
and reappear after a reset.
---
 fyi_msg/src/progress/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 298cc1b..3d771a0 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -386,7 +386,12 @@ impl ProglessInner {
 	fn add(&self, txt: &str) -> bool {
 		if
 			self.running() &&
-			progless_task(txt).is_some_and(|m| mutex!(self.doing).insert(m))
+			progless_task(txt).is_some_and(|m| {
+				// Make sure progress wasn't stopped — and the tasks cleared —
+				// before we got the lock.
+				let mut ptr = mutex!(self.doing);
+				self.running() && ptr.insert(m)
+			})
 		{
 			self.flags.fetch_or(TICK_DOING, SeqCst);
 			true
-- 
2.43.0


From aecac8123bc25c769dac5ff648a37367c911731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 07/23] fix: replace fancy whitespace in Progless titles

As documented. Titles were instead cut at the first line break, while
tabs, carriage returns, etc. were passed straight to the terminal,
breaking the layout.
---
 fyi_msg/src/progress/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 3d771a0..17fc11f 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1049,15 +1049,16 @@ impl ProglessBuffer {
 		// We need at least two lines of screen space to fit a title.
 		if 2 <= height.get() {
 			if let Some(title) = title {
-				let title = title.fitted(usize::from(width.get()));
+				// Titles only get the one line, so any fancy whitespace needs
+				// to be neutralized before we trim it to fit.
+				let title: String = title.as_str()
+					.chars()
+					.map(|c| if c.is_whitespace() { ' ' } else { c })
+					.collect();
+				let title = crate::fit_to_width(&title, usize::from(width.get()));
 				if ! title.is_empty() {
-					// Truncate to first line.
-					let slice = title.as_bytes();
-					let end = slice.iter().copied().position(|b| b == b'\n').unwrap_or(slice.len());
-					if end != 0 {
-						self.title.extend_from_slice(&slice[..end]);
-						self.title.push(b'\n');
-					}
+					self.title.extend_from_slice(title.as_bytes());
+					self.title.push(b'\n');
 				}
 			}
 		}
-- 
2.43.0


From 830e2732471f76c37973b5ddd6bda88155e7439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 08/23] fix: redraw Progless tasks when the title goes away

Tasks hidden because the title used up the last of the screen space
remained hidden after it was removed.
---
 fyi_msg/src/progress/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 17fc11f..a4743f6 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -668,16 +668,16 @@ impl ProglessInner {
 		// Titles don't change very often, but they're given display priority
 		// over the tasks so need to be checked first.
 		if TICK_TITLE == ticked & TICK_TITLE {
-			// Did we have a title and tasks last time?
-			let before = buf.doing.is_empty() || ! buf.title.is_empty();
+			// Did we have a title last time?
+			let before = ! buf.title.is_empty();
 
 			// Update it.
 			buf.set_title(mutex!(self.title).as_ref(), width, height);
 
-			// If we now have a title and didn't before, and there were tasks
-			// potentially competing for space, force a task redraw to make
-			// sure the extra (title) line isn't one line too many.
-			if ! before && ! buf.title.is_empty() {
+			// If we now have a title and didn't before, or vice versa, force a
+			// task redraw to make sure the extra (title) line isn't one line
+			// too many, or that the freed one gets used.
+			if before == buf.title.is_empty() {
 				ticked |= TICK_DOING;
 			}
 		}
-- 
2.43.0


From a59e7b711fa47eeb207e7f8394e02176b54bd035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 09/23] fix: don't print Progless lines wider than the screen

With large totals, the elapsed, done/total, and percentage bits alone can
take up more than forty columns, wrapping on to a second line that would
never get cleared.
---
 fyi_msg/src/progress/mod.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index a4743f6..9923450 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -870,7 +870,7 @@ impl ProglessBuffer {
 		let mut parts: &mut [IoSlice] =
 			// If the screen is too small for everything, print the percentage
 			// by itself to give them some indication of progress.
-			if width.get() < 40 {
+			if width.get() < 40 || usize::from(width.get()) < self.min_width() {
 				&mut [
 					IoSlice::new(concat!(
 						"\x1b[J ",
@@ -960,6 +960,24 @@ impl ProglessBuffer {
 }
 
 impl ProglessBuffer {
+	/// # Minimum Width.
+	///
+	/// Return the display width of the main progress line, sans bars.
+	///
+	/// The magic "19" is made up of the following hard-coded pieces:
+	/// 10: elapsed time and braces;
+	/// 2: spaces after elapsed time;
+	/// 1: the "/" between done and total;
+	/// 2: the spaces after total;
+	/// 2: the braces around the bar itself;
+	/// 2: the spaces after the bar itself;
+	fn min_width(&self) -> usize {
+		19 +
+		self.done.len() +
+		self.total.len() +
+		self.percent.len()
+	}
+
 	/// # Set Bars.
 	fn set_bars(&mut self, width: NonZeroU8, done: u32, total: u32) {
 		// Default sizes.
@@ -967,19 +985,7 @@ impl ProglessBuffer {
 		let mut w_undone = 0_u8;
 
 		// How much room do we have for the bar(s)?
-		// The magic "19" is made up of the following hard-coded pieces:
-		// 10: elapsed time and braces;
-		// 2: spaces after elapsed time;
-		// 1: the "/" between done and total;
-		// 2: the spaces after total;
-		// 2: the braces around the bar itself;
-		// 2: the spaces after the bar itself;
-		let space: u8 = width.get().saturating_sub(u8::saturating_from(
-			19 +
-			self.done.len() +
-			self.total.len() +
-			self.percent.len()
-		));
+		let space: u8 = width.get().saturating_sub(u8::saturating_from(self.min_width()));
 
 		// If we have any space, divide it up proportionately.
 		if total != 0 && MIN_BARS_WIDTH <= space {
-- 
2.43.0


From ab83b4efd55f185748968c69df8e5f0becef58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 10/23] fix: don't panic if the cursor can't be hidden or
 unhidden

The print macros panic on error, so the loss of STDERR would kill the
ticker thread and in turn make finish panic.
---
 fyi_msg/src/progress/signals.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index b4152c4..75464e9 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -14,6 +14,7 @@ use std::sync::{
 	},
 };
 #[cfg(feature = "signals_sigint")] use super::Progless;
+#[cfg(feature = "signals_sigint")] use std::io::Write;
 #[cfg(feature = "signals_sigint")] use std::sync::OnceLock;
 use super::ProglessInner;
 
@@ -167,7 +168,11 @@ impl Default for ProglessSignals {
 		let sigint = SIGINT_HANLDER.get_or_init(sigint_default);
 
 		#[cfg(feature = "signals_sigint")]
-		if ! sigint.load(SeqCst) { eprint!("{}", Progless::CURSOR_HIDE); }
+		if ! sigint.load(SeqCst) {
+			let mut handle = std::io::stderr().lock();
+			let _res = handle.write_all(Progless::CURSOR_HIDE.as_bytes())
+				.and_then(|()| handle.flush());
+		}
 
 		Self {
 			#[cfg(feature = "signals_sigint")]
@@ -185,7 +190,9 @@ impl Drop for ProglessSignals {
 	fn drop(&mut self) {
 		// The `ProglessSignal` drop glue handles unregistration; at this
 		// level we just need to make sure the cursor gets unhidden.
-		eprint!("{}", Progless::CURSOR_UNHIDE);
+		let mut handle = std::io::stderr().lock();
+		let _res = handle.write_all(Progless::CURSOR_UNHIDE.as_bytes())
+			.and_then(|()| handle.flush());
 	}
 }
 
-- 
2.43.0


From e81b1d42a9955fbb829aee687a13835e3ea7cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 11/23] fix: don't use locking print macros from SIGINT
 handlers

If the interrupted thread was itself printing to STDERR, the print would
panic and abort the program. If it held something the thread holding
STDERR was waiting on, neither would ever resume.
---
 fyi_msg/src/progress/signals.rs | 40 +++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index 75464e9..260fa63 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -282,9 +282,7 @@ fn sigint_default() -> Arc<AtomicBool> {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move || {
 			// Unhide our cursor if we changed state.
-			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
-			}
+			if ! t_switch.swap(true, SeqCst) { sigint_unhide(); }
 
 			// One strike and you're out!
 			signal_hook::low_level::exit(1);
@@ -315,7 +313,7 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 			// Terminate the process if the switch was already true.
 			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
 			// Otherwise just unhide the cursor.
-			else { eprint!("{}", Progless::CURSOR_UNHIDE); }
+			else { sigint_unhide(); }
 		).is_err() { sigint_error(); }
 	}
 
@@ -341,9 +339,7 @@ fn sigint_keepalive() -> Arc<AtomicBool> {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move ||
 			// Unhide the cursor.
-			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
-			}
+			if ! t_switch.swap(true, SeqCst) { sigint_unhide(); }
 		).is_err() { sigint_error(); }
 	}
 
@@ -359,3 +355,33 @@ fn sigint_error() -> ! {
 	Msg::error("Unable to register a SIGINT handler!").eprint();
 	std::process::exit(1);
 }
+
+#[cfg(all(unix, feature = "signals_sigint"))]
+#[expect(unsafe_code, reason = "For signal-safe printing.")]
+/// # Unhide Cursor (From a Signal Handler).
+///
+/// Handlers can interrupt a thread at any point, including while it is
+/// printing to STDERR or holding something that whoever _is_ printing needs,
+/// so using the standard — locking — methods could panic or deadlock. The
+/// sequence is written straight to the file descriptor instead.
+fn sigint_unhide() {
+	use std::{
+		fs::File,
+		mem::ManuallyDrop,
+		os::fd::{
+			AsRawFd,
+			FromRawFd,
+		},
+	};
+
+	// Safety: the descriptor is only borrowed; `ManuallyDrop` prevents it from
+	// being closed.
+	let mut handle = ManuallyDrop::new(unsafe {
+		File::from_raw_fd(std::io::stderr().as_raw_fd())
+	});
+	let _res = handle.write_all(Progless::CURSOR_UNHIDE.as_bytes());
+}
+
+#[cfg(all(not(unix), feature = "signals_sigint"))]
+/// # Unhide Cursor (From a Signal Handler).
+fn sigint_unhide() { eprint!("{}", Progless::CURSOR_UNHIDE); }
-- 
2.43.0


From acb8077315ca8d9d3bec853cd9dc28c73ac0276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 12/23] fix: don't prompt forever when STDIN can't be read

Read errors, e.g. from a directory, were treated like bad answers, so the
question would be repeated until the end of time.
---
 fyi_msg/src/msg/mod.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/fyi_msg/src/msg/mod.rs b/fyi_msg/src/msg/mod.rs
index bb45a95..dc39edd 100644
--- a/fyi_msg/src/msg/mod.rs
+++ b/fyi_msg/src/msg/mod.rs
@@ -1142,15 +1142,18 @@ impl Msg {
 			if stderr { q.eprint(); }
 			else { q.print(); }
 
-			if let Some(res) = io::stdin().read_line(&mut result)
-				.ok()
-				.and_then(|_| match result.to_lowercase().trim() {
-					"" => Some(default),
-					"n" | "no" => Some(false),
-					"y" | "yes" => Some(true),
-					_ => None,
-				})
-			{ break res; }
+			match io::stdin().read_line(&mut result) {
+				Ok(_) => match result.to_lowercase().trim() {
+					"" => break default,
+					"n" | "no" => break false,
+					"y" | "yes" => break true,
+					_ => {},
+				},
+				// The line wasn't valid UTF-8, so can't have been a Y or N.
+				Err(e) if e.kind() == io::ErrorKind::InvalidData => {},
+				// There's no input to be had; asking again won't change that.
+				Err(_) => break default,
+			}
 
 			// Print an error and do it all over again.
 			result.truncate(0);
-- 
2.43.0


From 541aa199d26ec965a20265718ac2796b41057f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 13/23] fix: don't revive a ticker another thread is waiting on

Resetting while another thread was finishing could unset the state the old
ticker was supposed to die by, leaving finish waiting on it indefinitely.
---
 fyi_msg/src/progress/steady.rs | 77 ++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 27 deletions(-)

diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index 618dd6b..a28595e 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -31,15 +31,8 @@ use super::signals::ProglessSignals;
 /// The struct itself exists to hold the handle from that thread so that it can
 /// run while it needs running, and stop once it needs to stop.
 pub(super) struct ProglessSteady {
-	/// # Ticker Thread Handle.
-	ticker: Mutex<Option<JoinHandle<()>>>,
-
-	/// # Ticker State.
-	///
-	/// Because `ProglessInner` cannot implement `Drop`, we need an independent
-	/// state control to prevent zombie ticking in cases where the user
-	/// accidentally leaves things unfinished.
-	state: Arc<(Mutex<bool>, Condvar)>,
+	/// # Ticker.
+	ticker: Mutex<Option<Ticker>>,
 }
 
 impl Default for ProglessSteady {
@@ -47,7 +40,6 @@ impl Default for ProglessSteady {
 	fn default() -> Self {
 		Self {
 			ticker: Mutex::new(None),
-			state: Arc::new((Mutex::new(true), Condvar::new())),
 		}
 	}
 }
@@ -55,12 +47,8 @@ impl Default for ProglessSteady {
 impl From<Arc<ProglessInner>> for ProglessSteady {
 	#[inline]
 	fn from(t_inner: Arc<ProglessInner>) -> Self {
-		let state = Arc::new((Mutex::new(false), Condvar::new()));
-		let t_state = Arc::clone(&state);
-
 		Self {
-			state,
-			ticker:  Mutex::new(Some(spawn_ticker(t_state, t_inner))),
+			ticker: Mutex::new(Some(Ticker::new(t_inner))),
 		}
 	}
 }
@@ -79,10 +67,11 @@ impl ProglessSteady {
 		// Make sure the old steady ticker is dead.
 		self.stop();
 
-		// Reset!
-		*mutex!(self.state.0) = false;
-		let t_state = Arc::clone(&self.state);
-		mutex!(self.ticker).replace(spawn_ticker(t_state, t_inner));
+		// Start a new one!
+		let old = mutex!(self.ticker).replace(Ticker::new(t_inner));
+
+		// If another thread beat us to it, stop theirs.
+		if let Some(old) = old { old.stop(); }
 	}
 
 	#[inline]
@@ -92,14 +81,8 @@ impl ProglessSteady {
 	/// automatically when [`Progless::finish`](crate::Progless::finish) is called or the instance is
 	/// dropped.
 	pub(super) fn stop(&self) {
-		let handle = mutex!(self.ticker).take();
-		if let Some(handle) = handle {
-			if ! *mutex!(self.state.0) {
-				*mutex!(self.state.0) = true;
-				self.state.1.notify_all();
-			}
-			handle.join().unwrap();
-		}
+		let old = mutex!(self.ticker).take();
+		if let Some(old) = old { old.stop(); }
 	}
 }
 
@@ -110,6 +93,46 @@ impl Drop for ProglessSteady {
 
 
 
+#[derive(Debug)]
+/// # Ticker.
+///
+/// The state is specific to the thread it is paired with, so that (re)starting
+/// can't bring one another thread is waiting to die back to life.
+struct Ticker {
+	/// # Ticker Thread Handle.
+	handle: JoinHandle<()>,
+
+	/// # Ticker State.
+	///
+	/// Because `ProglessInner` cannot implement `Drop`, we need an independent
+	/// state control to prevent zombie ticking in cases where the user
+	/// accidentally leaves things unfinished.
+	state: Arc<(Mutex<bool>, Condvar)>,
+}
+
+impl Ticker {
+	/// # New.
+	fn new(t_inner: Arc<ProglessInner>) -> Self {
+		let state = Arc::new((Mutex::new(false), Condvar::new()));
+		let t_state = Arc::clone(&state);
+		Self {
+			handle: spawn_ticker(t_state, t_inner),
+			state,
+		}
+	}
+
+	/// # Stop.
+	fn stop(self) {
+		if ! *mutex!(self.state.0) {
+			*mutex!(self.state.0) = true;
+			self.state.1.notify_all();
+		}
+		self.handle.join().unwrap();
+	}
+}
+
+
+
 #[inline]
 /// # Spawn Ticker.
 ///
-- 
2.43.0


From 4a16713530813b7e260a889d00392367a60a100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 14/23] fix: print blank lines without panicking

Large counts overflowed or exhausted the memory, and an early-closing
reader made the print macros panic.
---
 fyi/src/cli.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fyi/src/cli.rs b/fyi/src/cli.rs
index ff8af65..b8a257b 100644
--- a/fyi/src/cli.rs
+++ b/fyi/src/cli.rs
@@ -13,6 +13,10 @@ use fyi_msg::{
 	MsgKind,
 };
 use std::{
+	io::{
+		self,
+		Read,
+	},
 	num::NonZeroUsize,
 	process::ExitCode,
 };
@@ -106,9 +110,10 @@ pub(super) fn parse_blank() -> Result<(), FyiError> {
 	}
 
 	// Print it!
-	let lines = "\n".repeat(count.get());
-	if stderr { eprint!("{lines}"); }
-	else { print!("{lines}"); }
+	let mut lines = io::repeat(b'\n').take(count.get() as u64);
+	let _res =
+		if stderr { io::copy(&mut lines, &mut io::stderr().lock()) }
+		else { io::copy(&mut lines, &mut io::stdout().lock()) };
 
 	Ok(())
 }
-- 
2.43.0


From e32461a410957daca5bd2a6292404c49fc1ba776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 15/23] fix: don't show stale elapsed time after a reset

---
 fyi_msg/src/progress/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 9923450..48591fd 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -346,11 +346,9 @@ impl ProglessInner {
 				self.done_total.store(done_total!(total, total), SeqCst);
 			}
 
-			// Freeze the time.
-			self.elapsed.store(
-				u32::saturating_from(self.started.elapsed().as_secs()),
-				SeqCst
-			);
+			// Freeze the time, raw and formatted both, lest the latter be left
+			// behind if progress is reset.
+			let _res = self.tick_set_secs();
 
 			// Clear the tasks.
 			mutex!(self.doing).clear();
-- 
2.43.0


From 6935be317071de332ac74e055e4622f307300a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 16/23] fix: keep the Progless done count in agreement with the
 bar

---
 fyi_msg/src/progress/mod.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 48591fd..0610b9c 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -120,10 +120,6 @@ use mutex;
 const TICK_NEW: u8 =
 	TICK_BAR | TICK_TOTAL | TICKING;
 
-/// # Flag: Percent.
-const TICK_PERCENT: u8 =
-	TICK_DONE | TICK_TOTAL;
-
 /// # Flag: Reset.
 const TICK_RESET: u8 =
 	TICK_BAR | TICK_DOING | TICK_DONE | TICK_TITLE | TICK_TOTAL | TICKING;
@@ -641,21 +637,20 @@ impl ProglessInner {
 			let done = done!(done_total) as u32;
 			let total = total!(done_total) as u32;
 
-			// If the done value changed, update its buffer.
-			if TICK_DONE == ticked & TICK_DONE { buf.done.replace(done); }
+			// Done might have changed again since the flags were pulled, so to
+			// keep it in agreement with the bar its buffer has to be updated
+			// either way.
+			buf.done.replace(done);
 
-			// Likewise but less likely, the total.
+			// The total can't do that, so its flag is trustworthy.
 			if TICK_TOTAL == ticked & TICK_TOTAL { buf.total.replace(total); }
 
-			// The percentage is tied to both done and total, so if either
-			// value changed, we'll need to update its buffer.
-			if 0 != ticked & TICK_PERCENT {
-				let percent =
-					if done == 0 || total == 0 { 0.0 }
-					else if done >= total { 1.0 }
-					else { (f64::from(done) / f64::from(total)) as f32 };
-				buf.percent.replace(percent);
-			}
+			// The percentage is tied to both done and total.
+			let percent =
+				if done == 0 || total == 0 { 0.0 }
+				else if done >= total { 1.0 }
+				else { (f64::from(done) / f64::from(total)) as f32 };
+			buf.percent.replace(percent);
 
 			// The bar formatting depends on both the values and sizing of the
 			// other components, so their buffers will always need to be
-- 
2.43.0


From bcca07b5d6d4e7cdafba26a6f2581f4edd4fb2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 17/23] fix: don't leave the cursor hidden if SIGINT comes
 while hiding it

---
 fyi_msg/src/progress/signals.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index 260fa63..77e32c7 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -172,6 +172,13 @@ impl Default for ProglessSignals {
 			let mut handle = std::io::stderr().lock();
 			let _res = handle.write_all(Progless::CURSOR_HIDE.as_bytes())
 				.and_then(|()| handle.flush());
+
+			// If a signal arrived in the meantime, its unhiding might have
+			// been undone just now.
+			if sigint.load(SeqCst) {
+				let _res = handle.write_all(Progless::CURSOR_UNHIDE.as_bytes())
+					.and_then(|()| handle.flush());
+			}
 		}
 
 		Self {
-- 
2.43.0


From 4561666dc951a1e95b0336499cd20c7e853c1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 18/23] fix: show the cursor before dying, even if SIGINTs
 overlap

---
 fyi_msg/src/progress/signals.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index 77e32c7..d034e9f 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -288,8 +288,11 @@ fn sigint_default() -> Arc<AtomicBool> {
 	unsafe {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move || {
-			// Unhide our cursor if we changed state.
-			if ! t_switch.swap(true, SeqCst) { sigint_unhide(); }
+			t_switch.store(true, SeqCst);
+
+			// Unhide our cursor. (Another thread might be doing the same thing
+			// already, but it won't get to finish once we're done here.)
+			sigint_unhide();
 
 			// One strike and you're out!
 			signal_hook::low_level::exit(1);
@@ -316,12 +319,16 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 	// callbacks can be race-prone, but our inner operations are atomic.
 	unsafe {
 		let t_switch = Arc::clone(&switch);
-		if signal_hook::low_level::register(SIGINT, move ||
+		if signal_hook::low_level::register(SIGINT, move || {
+			let second = t_switch.swap(true, SeqCst);
+
+			// Unhide our cursor, even if it isn't the first time; whoever was
+			// first might not have gotten around to it yet.
+			sigint_unhide();
+
 			// Terminate the process if the switch was already true.
-			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
-			// Otherwise just unhide the cursor.
-			else { sigint_unhide(); }
-		).is_err() { sigint_error(); }
+			if second { signal_hook::low_level::exit(1); }
+		}).is_err() { sigint_error(); }
 	}
 
 	switch
-- 
2.43.0


From f95f7e3e9e933088f91bfc2cfe29ec41d3b56b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 19/23] fix: don't paint frames for the old size if the new one
 is unusable (SIGWINCH)

---
 fyi_msg/src/progress/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 0610b9c..4956f5c 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -732,11 +732,14 @@ impl ProglessInner {
 	/// This will return `false` if progress has stopped, otherwise `true`.
 	fn tick_resize(&self) -> bool {
 		if self.running() {
-			if let Some((width, height)) = term_size() {
-				let wh = u16::from_le_bytes([width.get(), height.get()]);
-				if wh != self.last_size.swap(wh, SeqCst) {
-					self.flags.fetch_or(TICK_RESIZED, SeqCst);
-				}
+			// Unknown or unusable dimensions cannot be drawn to; keeping the
+			// old ones would paint frames that no longer fit.
+			let wh = term_size().map_or(
+				0,
+				|(width, height)| u16::from_le_bytes([width.get(), height.get()]),
+			);
+			if wh != self.last_size.swap(wh, SeqCst) {
+				self.flags.fetch_or(TICK_RESIZED, SeqCst);
 			}
 			true
 		}
-- 
2.43.0


From 1914c8f5d10f065e6365549ecd6dd3ba722c93af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 20/23] fix: don't let late increments end the run started by a
 reset

---
 fyi_msg/src/progress/mod.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 4956f5c..390a539 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -353,6 +353,18 @@ impl ProglessInner {
 			let _res = handle.write_all(CLS).and_then(|()| handle.flush());
 		}
 	}
+
+	/// # Complete.
+	///
+	/// Stop, but only if "done" (still) equals "total". If progress was reset
+	/// in the meantime, the new run has nothing to do with it.
+	fn complete(&self) {
+		// Resets hold this too.
+		let _handle = std::io::stderr().lock();
+
+		let done_total = self.done_total.load(SeqCst);
+		if done!(done_total) == total!(done_total) { self.stop(); }
+	}
 }
 
 /// # Getters.
@@ -407,15 +419,16 @@ impl ProglessInner {
 				// moots addition overflow and simplifies the subsequent joining.
 				let done = done!(done_total) + u64::from(n);
 				let total = total!(done_total);
-				if done < total { Some(done_total!(done, total)) }
+				// If somebody else just finished we're too late to the party.
+				if done!(done_total) < total { Some(done_total!(done.min(total), total)) }
 				else { None }
 			});
 
-			if res.is_ok() {
+			if res.is_ok_and(|old| done!(old) + u64::from(n) < total!(old)) {
 				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
 			}
 			// Time to call it quits!
-			else { self.stop(); }
+			else { self.complete(); }
 		}
 	}
 
@@ -494,6 +507,9 @@ impl ProglessInner {
 	/// you need start a brand new instance instead of resetting an existing
 	/// one.
 	fn reset(&self, total: NonZeroU32) {
+		// Hold the lock throughout lest another thread complete the old run in
+		// the middle of it.
+		let _handle = std::io::stderr().lock();
 		self.stop();
 		self.done_total.store(u64::from(total.get()), SeqCst);
 		self.flags.store(TICK_RESET, SeqCst);
@@ -510,19 +526,17 @@ impl ProglessInner {
 			let res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
 				// If somebody else just finished we're too late to the party.
 				let total = total!(done_total);
-				if done < total && done!(done_total) < total {
-					Some(done_total!(done, total))
-				}
+				if done!(done_total) < total { Some(done_total!(done.min(total), total)) }
 				else { None }
 			});
 
-			if let Ok(old) = res {
-				if done != done!(old) {
+			match res {
+				Ok(old) if done < total!(old) => if done != done!(old) {
 					self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-				}
+				},
+				// Time to call it quits!
+				_ => { self.complete(); },
 			}
-			// Time to call it quits!
-			else { self.stop(); }
 		}
 	}
 
-- 
2.43.0


From 01e1997ca6f34e554977c74653558b238fc1e7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 21/23] fix: don't stop the ticker of a run started while
 finishing another

---
 fyi_msg/src/progress/mod.rs    |  2 +-
 fyi_msg/src/progress/steady.rs | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 390a539..dba7393 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1369,7 +1369,7 @@ impl Progless {
 	/// ```
 	pub fn finish(&self) -> Duration {
 		self.inner.stop();
-		self.steady.stop();
+		self.steady.finish(&self.inner);
 		self.inner.started.elapsed()
 	}
 
diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index a28595e..d0291f1 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -74,12 +74,24 @@ impl ProglessSteady {
 		if let Some(old) = old { old.stop(); }
 	}
 
+	/// # Finish.
+	///
+	/// Make sure the steady ticker has actually aborted, unless progress was
+	/// reset by another thread in the meantime, in which case it is still (or
+	/// again) needed.
+	pub(super) fn finish(&self, inner: &ProglessInner) {
+		let mut ticker = mutex!(self.ticker);
+		if inner.running() { return; }
+		let old = ticker.take();
+		drop(ticker);
+		if let Some(old) = old { old.stop(); }
+	}
+
 	#[inline]
 	/// # Stop.
 	///
 	/// Make sure the steady ticker has actually aborted. This is called
-	/// automatically when [`Progless::finish`](crate::Progless::finish) is called or the instance is
-	/// dropped.
+	/// automatically when the instance is dropped.
 	pub(super) fn stop(&self) {
 		let old = mutex!(self.ticker).take();
 		if let Some(old) = old { old.stop(); }
-- 
2.43.0


From f2b8802aa0a4863b1af6b70ec625121f59947a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 22/23] fix: don't count a removed task towards the run started
 by a reset

---
 fyi_msg/src/progress/mod.rs | 60 +++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index dba7393..098912d 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -411,27 +411,36 @@ impl ProglessInner {
 	/// Increase the completed count by `n`. This is safer to use than `set_done()`
 	/// and more efficient than calling `increment()` a million times in a row.
 	fn increment_n(&self, n: u32) {
-		if n != 0 && self.running() {
-			// The count has to be updated in one go lest parallel increments
-			// overwrite one another.
-			let res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
-				// Don't bother recasting the parts to u32; leaving them as-is
-				// moots addition overflow and simplifies the subsequent joining.
-				let done = done!(done_total) + u64::from(n);
-				let total = total!(done_total);
-				// If somebody else just finished we're too late to the party.
-				if done!(done_total) < total { Some(done_total!(done.min(total), total)) }
-				else { None }
-			});
-
-			if res.is_ok_and(|old| done!(old) + u64::from(n) < total!(old)) {
-				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-			}
+		if n != 0 && self.running() && ! self.try_increment_n(n) {
 			// Time to call it quits!
-			else { self.complete(); }
+			self.complete();
 		}
 	}
 
+	/// # Try to Increment Done by N.
+	///
+	/// Returns `false` if there is nothing left to do, in which case the
+	/// caller needs to wrap things up.
+	fn try_increment_n(&self, n: u32) -> bool {
+		// The count has to be updated in one go lest parallel increments
+		// overwrite one another.
+		let res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+			// Don't bother recasting the parts to u32; leaving them as-is
+			// moots addition overflow and simplifies the subsequent joining.
+			let done = done!(done_total) + u64::from(n);
+			let total = total!(done_total);
+			// If somebody else just finished we're too late to the party.
+			if done!(done_total) < total { Some(done_total!(done.min(total), total)) }
+			else { None }
+		});
+
+		if res.is_ok_and(|old| done!(old) + u64::from(n) < total!(old)) {
+			self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
+			true
+		}
+		else { false }
+	}
+
 	/// # Push Message.
 	///
 	/// "Insert" (print) a line (to STDERR) above the running progress bar,
@@ -477,21 +486,26 @@ impl ProglessInner {
 	fn remove(&self, txt: &str) {
 		if self.running() {
 			// Try to remove the task.
-			let removed: bool = {
+			let removed: Option<bool> = {
 				let txt = txt.trim_end();
 				let mut ptr = mutex!(self.doing);
 
 				// Check for a direct hit first as it is relatively unlikely
 				// the label would have been reformatted for storage.
-				ptr.remove(txt) ||
+				let removed = ptr.remove(txt) ||
 				// Then again, maybe it was…
-				progless_task(txt).is_some_and(|task| ptr.remove(&task))
+				progless_task(txt).is_some_and(|task| ptr.remove(&task));
+
+				// If we removed an entry, increment before letting go of the
+				// list, lest it count towards a different run.
+				removed.then(|| self.try_increment_n(1))
 			};
 
-			// If we removed an entry, set the tick flag and increment.
-			if removed {
+			// If we removed an entry, set the tick flag, and wrap things up
+			// if it was the last one.
+			if let Some(more) = removed {
 				self.flags.fetch_or(TICK_DOING, SeqCst);
-				self.increment_n(1);
+				if ! more { self.complete(); }
 			}
 		}
 	}
-- 
2.43.0


From e52710f9aa24173b8f298c3fd305f6ed1f714631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 23/23] fix: don't show a completed count before progress has
 actually stopped

---
 fyi_msg/src/progress/mod.rs | 118 ++++++++++++++++++++----------------
 1 file changed, 65 insertions(+), 53 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 098912d..479f6f9 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -32,6 +32,7 @@ use dactyl::{
 };
 use fyi_ansi::csi;
 use std::{
+	borrow::Cow,
 	collections::BTreeSet,
 	io::{
 		IoSlice,
@@ -353,18 +354,6 @@ impl ProglessInner {
 			let _res = handle.write_all(CLS).and_then(|()| handle.flush());
 		}
 	}
-
-	/// # Complete.
-	///
-	/// Stop, but only if "done" (still) equals "total". If progress was reset
-	/// in the meantime, the new run has nothing to do with it.
-	fn complete(&self) {
-		// Resets hold this too.
-		let _handle = std::io::stderr().lock();
-
-		let done_total = self.done_total.load(SeqCst);
-		if done!(done_total) == total!(done_total) { self.stop(); }
-	}
 }
 
 /// # Getters.
@@ -412,15 +401,16 @@ impl ProglessInner {
 	/// and more efficient than calling `increment()` a million times in a row.
 	fn increment_n(&self, n: u32) {
 		if n != 0 && self.running() && ! self.try_increment_n(n) {
-			// Time to call it quits!
-			self.complete();
+			// Resets hold this lock too, so unless one happened before now,
+			// it's time to call it quits!
+			let _handle = std::io::stderr().lock();
+			if ! self.try_increment_n(n) { self.stop(); }
 		}
 	}
 
 	/// # Try to Increment Done by N.
 	///
-	/// Returns `false` if there is nothing left to do, in which case the
-	/// caller needs to wrap things up.
+	/// Returns `false`, changing nothing, if that would be the end of it.
 	fn try_increment_n(&self, n: u32) -> bool {
 		// The count has to be updated in one go lest parallel increments
 		// overwrite one another.
@@ -429,12 +419,11 @@ impl ProglessInner {
 			// moots addition overflow and simplifies the subsequent joining.
 			let done = done!(done_total) + u64::from(n);
 			let total = total!(done_total);
-			// If somebody else just finished we're too late to the party.
-			if done!(done_total) < total { Some(done_total!(done.min(total), total)) }
+			if done < total { Some(done_total!(done, total)) }
 			else { None }
 		});
 
-		if res.is_ok_and(|old| done!(old) + u64::from(n) < total!(old)) {
+		if res.is_ok() {
 			self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
 			true
 		}
@@ -484,30 +473,41 @@ impl ProglessInner {
 	/// automatically increment the done count by one, so should not be used
 	/// in cases where you're triggering done changes manually.
 	fn remove(&self, txt: &str) {
-		if self.running() {
-			// Try to remove the task.
-			let removed: Option<bool> = {
-				let txt = txt.trim_end();
-				let mut ptr = mutex!(self.doing);
+		if self.running() && ! self.try_remove(txt) {
+			// Resets hold this lock too, so unless one happened before now,
+			// it's time to call it quits!
+			let _handle = std::io::stderr().lock();
+			if ! self.try_remove(txt) { self.stop(); }
+		}
+	}
 
-				// Check for a direct hit first as it is relatively unlikely
-				// the label would have been reformatted for storage.
-				let removed = ptr.remove(txt) ||
-				// Then again, maybe it was…
-				progless_task(txt).is_some_and(|task| ptr.remove(&task));
+	/// # Try to Remove a Task.
+	///
+	/// Returns `false`, changing nothing, if that would be the end of it.
+	fn try_remove(&self, txt: &str) -> bool {
+		let txt = txt.trim_end();
+		let mut ptr = mutex!(self.doing);
 
-				// If we removed an entry, increment before letting go of the
-				// list, lest it count towards a different run.
-				removed.then(|| self.try_increment_n(1))
+		// Check for a direct hit first as it is relatively unlikely the label
+		// would have been reformatted for storage.
+		let task =
+			if ptr.contains(txt) { Cow::Borrowed(txt) }
+			// Then again, maybe it was…
+			else {
+				match progless_task(txt) {
+					Some(task) if ptr.contains(&task) => Cow::Owned(task),
+					_ => return true,
+				}
 			};
 
-			// If we removed an entry, set the tick flag, and wrap things up
-			// if it was the last one.
-			if let Some(more) = removed {
-				self.flags.fetch_or(TICK_DOING, SeqCst);
-				if ! more { self.complete(); }
-			}
+		// Increment before letting go of the list, lest it count towards a
+		// different run.
+		if self.try_increment_n(1) {
+			ptr.remove(task.as_ref());
+			self.flags.fetch_or(TICK_DOING, SeqCst);
+			true
 		}
+		else { false }
 	}
 
 	/// # Reset.
@@ -535,23 +535,35 @@ impl ProglessInner {
 	/// things are happening in parallel; in such cases `increment` is probably
 	/// better.
 	fn set_done(&self, done: u32) {
-		if self.running() {
-			let done = u64::from(done);
-			let res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
-				// If somebody else just finished we're too late to the party.
-				let total = total!(done_total);
-				if done!(done_total) < total { Some(done_total!(done.min(total), total)) }
-				else { None }
-			});
-
-			match res {
-				Ok(old) if done < total!(old) => if done != done!(old) {
-					self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-				},
-				// Time to call it quits!
-				_ => { self.complete(); },
+		if self.running() && ! self.try_set_done(done) {
+			// Resets hold this lock too, so unless one happened before now,
+			// it's time to call it quits!
+			let _handle = std::io::stderr().lock();
+			if ! self.try_set_done(done) { self.stop(); }
+		}
+	}
+
+	/// # Try to Set Done.
+	///
+	/// Returns `false`, changing nothing, if that would be the end of it.
+	fn try_set_done(&self, done: u32) -> bool {
+		let done = u64::from(done);
+		let res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+			// If somebody else just finished we're too late to the party.
+			let total = total!(done_total);
+			if done < total && done!(done_total) < total {
+				Some(done_total!(done, total))
 			}
+			else { None }
+		});
+
+		if let Ok(old) = res {
+			if done != done!(old) {
+				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
+			}
+			true
 		}
+		else { false }
 	}
 
 	/// # Set Title.
-- 
2.43.0

