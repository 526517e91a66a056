#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
MSG="fyi_msg/src/msg/mod.rs"; KIND="fyi_msg/src/msg/kind.rs"; ANSI="fyi_msg/src/ansi.rs"; FIT="fyi_msg/src/fitted.rs"
PROG="fyi_msg/src/progress/mod.rs"; STEADY="fyi_msg/src/progress/steady.rs"; SIG="fyi_msg/src/progress/signals.rs"
BA="fyi_msg/src/progress/ba.rs"; PERR="fyi_msg/src/progress/error.rs"
CLI="fyi/src/cli.rs"; MAIN="fyi/src/main.rs"; CERR="fyi/src/error.rs"; FANSI="fyi_ansi/src/lib.rs"

p("C01","Message parts render in order and are edited independently",
 "A message always renders as the concatenation of its indentation (four spaces per level, at most eight levels), timestamp, prefix, body, suffix and trailing line break, in that order. Whatever sequence of part edits is applied, each edit replaces exactly its own part and leaves every other part byte-for-byte as it was, clearing a part removes it entirely, and every view of the message (text, bytes, length, emptiness, conversions, clones) agrees with that rendering.",
 ["inputs","histories"],"All sequences of part edits with arbitrary Unicode contents, by setter or builder, from every way of constructing a message, with and without timestamp support compiled in.",
 "The unit and doc tests run a handful of single edits on short ASCII strings; offsets of all later parts depend on the whole edit history, so a wrong offset shows only after particular multi-step sequences (e.g. shrinking an early part after a later one has grown).",
 [MSG],[("part table with end offsets, adjusted on every replacement","Toc::resize_part / Msg::replace_part in "+MSG),("setters and builders delegating to replace_part",MSG)],
 ["Msg::as_str after every step of a random edit history, compared with a part-wise reference model"],[("part offsets","where each part starts in the rendered text","Msg.toc in "+MSG)])

p("C02","Removing formatting removes every escape sequence and nothing else",
 "Removing formatting from a message leaves no complete or unterminated CSI or OSC escape sequence inside any of its parts, keeps every other character in place and in order, never disturbs part boundaries (later edits still hit exactly their own part), and never fails. It reports a change exactly when something was removed, and doing it a second time changes nothing.",
 ["inputs","histories"],"All messages, including ones with malformed, nested, truncated and adjacent escape sequences (CSI ended by a byte from @ to ~; OSC ended by BEL, U+0153 or ESC-backslash), multibyte text beside them, and any further edits.",
 "Tests strip three well-formed messages; truncated, nested or OSC sequences and edits made after stripping are not tried, and that is where offsets and ranges go wrong.",
 [ANSI,MSG],[("escape sequence scanner","next_ansi in "+ANSI),("in-place removal per part","Msg::strip_ansi in "+MSG)],
 ["Msg::strip_ansi/without_ansi result against an independent scanner; part edits after stripping"])

p("C03","Prefixes always show the documented label and colour",
 "Every built-in message kind renders its documented label in bold and its documented colour followed by a colon, a full reset and one space (kinds without a label render nothing), and the one-step constructors produce the same text as building the message from the kind and ending the line. A custom prefix renders as the given label followed by a colon and a space, wrapped in bold plus the chosen one of 256 colours when one is given and reset before the space, while an empty label renders no prefix at all.",
 ["inputs","configurations"],"All built-in kinds, all 256 colours given by name or number, arbitrary label text in every accepted string form, at construction and when replacing a previous prefix, with and without the extra command-line kinds compiled in.",
 "Tests look at a few kinds and two colours; the kind tables are generated code and each of the colour, label and reset strings can be wrong for one entry only.",
 [KIND,"fyi_msg/build.rs",ANSI],[("generated kind table","fyi_msg/build.rs -> msg-kinds.rs"),("prefix rendering for strings and coloured strings","IntoMsgPrefix impls in "+KIND)],
 ["rendered messages for the full kind x colour x label-form product"])

p("C04","Message equality, ordering and hashing follow the rendered text",
 "Two messages are equal, ordered and hashed exactly as their rendered texts are, no matter how they were built, and comparing a message with any string or byte form gives the same answer as comparing its text, in both directions. Consequently a message can be looked up in hashed and ordered collections by its text alone.",
 ["inputs","histories"],"All pairs of messages and edit histories, and all supported string and byte types on either side.",
 "Tests compare a few literals; coherence is a relation between pairs of differently built values and several traits at once.",
 [MSG],[("Eq/Ord/Hash/Borrow on the rendered text",MSG)],["results of ==, cmp, hash, and HashMap/BTreeMap lookups over generated pairs"])

p("C05","Timestamps show the local wall-clock time, and only that part",
 "Enabling a message's timestamp inserts, between indentation and prefix, the current local date and time as a dimmed bracketed YYYY-MM-DD hh:mm:ss in blue plus one space, truthful to the second at the time of the call in the machine's time zone. Enabling it again refreshes it, disabling it removes it, and in no case is another part affected.",
 ["configurations","histories"],"All time zones (including daylight-saving and half-hour offsets), moments in time, and edit histories.",
 "Doc tests only check that the call compiles; what is shown depends on the clock and zone the program runs in.",
 [MSG],[("timestamp rendering","Msg::set_timestamp in "+MSG)],["rendered timestamp in child processes under many TZ values against an independent clock and zone database"])

p("C06","Printing emits exactly the message, whole, whatever else is printing",
 "Printing a message to either stream writes precisely its rendered bytes to that stream once, nothing to the other one, and has reached the descriptor by the time the call returns. When many threads print at once, every message appears exactly once and contiguous, never interleaved with another, even if the system accepts the data in small pieces or interrupts the writes, and a stream that cannot be written to is ignored without ending the program.",
 ["schedules","fault_sequences","inputs"],"All numbers of printing threads and interleavings, message contents (with and without line breaks, larger than buffers), short writes, interruptions and write failures.",
 "Tests print nothing at all; interleaving and partial writes cannot be provoked by a single-threaded test.",
 [MSG],[("locking the stream, writing everything, then flushing","Msg::print / Msg::eprint in "+MSG)],["bytes received on the other end of the stream, keyed by unique message identifiers; injected short writes and errors"])

p("C07","Confirmation prompts map answers correctly and never loop forever",
 "A prompt shows the message with a [y/N] (or, if the default is yes, [Y/n]) hint in place of its suffix and line break on the chosen stream, and accepts exactly: y/yes as yes and n/no as no, in any case and with surrounding white space, and an empty line or the end or failure of input as the default. Anything else gets an error message on the same stream and the question again, consuming one line per attempt and nothing beyond the accepted line. The prompted message itself is not modified.",
 ["inputs","fault_sequences"],"All input streams (any byte content including invalid UTF-8, CRLF, very long lines, truncated or failing input), any number of attempts, either default and either stream.",
 "No test feeds input to a prompt; its behaviour depends on whole input sequences and on how input ends.",
 [MSG,"fyi_msg/src/lib.rs"],[("read, classify, re-ask loop","Msg::prompt__ in "+MSG),("confirm macro","fyi_msg/src/lib.rs")],["answers and transcripts of child processes fed scripted input, against a reference interpreter of the dialogue"])

p("C08","Display width and cut points are right for any text",
 "The measured display width of a text is the sum of the column widths of its characters with escape sequences and zero-width or control characters counting nothing. The cut point for a given number of columns is always a valid character boundary outside of any escape sequence, the text up to it is no wider than asked, and stopping there is optimal: a text that fits is kept whole, otherwise the cut comes right before the first visible character that would not fit, after any escape sequences or zero-width characters preceding it.",
 ["inputs"],"All Unicode strings (wide, combining, control characters; well-formed, nested and truncated escape sequences) and all widths.",
 "Tests use about ten strings; byte accounting across escape sequences and multibyte characters goes wrong only for particular sequences next to particular characters at particular widths.",
 [FIT,ANSI],[("escape-skipping character iterator with byte position","NoAnsi in "+ANSI),("width and length_width",FIT)],["width and length_width against an independent character-by-character reference, plus the defining inequalities"])

p("C09","Fitting trims every line to the width and preserves its formatting",
 "Fitting a text (or message) to a width leaves every line at most that many columns wide, keeps every line's own ending (none, LF or CRLF), cuts each line only at the last visible character that fits, and keeps every escape sequence of the part cut away, in order, once. Lines that fit already are not changed at all, and a zero width gives the empty text.",
 ["inputs"],"All multi-line Unicode texts with arbitrary escape sequences, all widths, as plain text and as assembled messages.",
 "Tests fit four strings; the stitching of kept text, surviving sequences and line endings has to be right for every combination of lines, and a truncated sequence at the end of one line used to break it.",
 [FIT,ANSI,MSG],[("line-wise fitting","fit_to_width in "+FIT),("collecting the sequences of the cut part","OnlyAnsi in "+ANSI)],["fitted output against an independent reference fitter; idempotence; line counts"])

p("C10","Formatting macros and the colour table produce the right codes",
 "Every style, reset and colour keyword of the formatting macros, alone or combined in any order, expands to one escape sequence holding exactly the documented codes of those keywords in the given order, wrapping macros surround the text with the sequence and a full reset, and each colour number, its name, the macros and the runtime colour type all yield the same code (30-37 and 90-97 for the first sixteen, the 256-colour form for the others). Converting between colour numbers and colours is lossless for all 256.",
 ["inputs","configurations"],"All macro keywords and combinations of them, all 256 colours by number and by name.",
 "Tests check a few keywords; the tables are 256 entries of generated macro arms and enum variants, and each can be wrong by itself.",
 [FANSI,"fyi_ansi/build.rs","fyi_msg/build.rs","skel/ansi256.rs",ANSI],[("macro arms for keywords","csi! and wrappers in "+FANSI),("generated colour arms and table","fyi_ansi/build.rs, fyi_msg/build.rs, skel/ansi256.rs")],["the expansion of a generated program using all keywords, all 256 colours and random combinations, against an independent table of the codes"])

p("C11","Progress totals are accepted exactly when they are valid",
 "A progress bar can be created from any integer type exactly when the value is between 1 and 4294967295: zero is refused as empty, anything negative or larger is refused as too big, and an accepted bar counts to precisely the given total. Re-using a bar with a zero total is refused and leaves the bar as it was.",
 ["inputs"],"All values of all integer and non-zero integer types, and all states of a bar at the time of re-use.",
 "Tests try a couple of values; boundaries differ per type and a wrapped conversion shows only for particular large values of particular wide types.",
 [PROG,PERR],[("TryFrom/From conversions per type",PROG)],["construction results per type over boundary and random values; observed total via the summary after finishing"])

p("C12","Progress counts no work twice and loses none, and ends exactly once",
 "Under any number of threads, the done count at rest equals the sum of all increments made since the run started (or the last absolute value set, plus later increments), never exceeds the total, and only goes down if set to a lower value. The run ends exactly when the count reaches the total or it is finished explicitly; after that done equals the total, all further counting, task and absolute changes are ignored, and every thread that calls finish sees the final count when it returns.",
 ["schedules","histories"],"All interleavings of increments of any size, absolute sets, task completions and finishes by any number of threads, for any total.",
 "Tests run single-threaded; lost updates need two threads in the same few instructions.",
 [PROG],[("combined done/total word",PROG),("stop on reaching the total","ProglessInner::increment_n, set_done, stop in "+PROG)],["summaries and painted counts at quiescent points after concurrent histories, against the sum of the acknowledged operations"],[("done/total","both counts in one atomic word","ProglessInner.done_total in "+PROG)])

p("C13","The list of active tasks mirrors what was added and removed",
 "A task is accepted exactly when the bar is running, its label, cut of trailing white space and then of escape sequences and control characters, is non-empty, and it is not already listed; white space in labels shows as plain spaces. Removing a listed task, by the same label, takes it off and counts as one step done, exactly once even when threads compete for it, while removing an unlisted one has no effect. The displayed list is exactly the set of tasks accepted and not yet removed, and is empty after a finish or reset.",
 ["schedules","histories","inputs"],"All interleavings of adds and removes of the same and different labels by many threads, all label texts, and finishes and resets in between.",
 "Tests only check label clean-up of a few strings; exactly-once removal and stale tasks are matters of interleaving.",
 [PROG],[("set of sanitized labels behind a mutex","ProglessInner::add/remove, progless_task in "+PROG)],["return values of add, counts after remove, and task lines painted on a pseudo-terminal, against a set model"],[("active tasks","sorted set of labels","ProglessInner.doing in "+PROG)])

p("C14","What the progress display shows is true",
 "Every complete frame painted on the terminal shows a consistent snapshot of the bar: the current done and total with thousands separators, their ratio as a percentage, a bar whose filled share matches that ratio rounded down and that fills the free width, the elapsed time, the current title, and the active tasks in order. None of these is ever a mix of values that the bar did not have between the previous frame and this one, and counts, percentage and bar agree with each other.",
 ["histories","schedules","inputs"],"All histories of changes (also while the display is being painted), totals up to the maximum, and terminal sizes.",
 "No test has a terminal, so nothing is ever painted in the tests; partial repaints keep stale pieces only after particular sequences of changes.",
 [PROG,STEADY],[("dirty flags and cached pieces","ProglessInner::tick, ProglessBuffer in "+PROG)],["frames parsed from the bytes written to a pseudo-terminal, against the model state around the time of painting"],[("dirty flags","which pieces changed since the last paint","ProglessInner.flags in "+PROG)])

p("C15","The progress display stays within its lines and never eats other output",
 "Whatever the terminal size, title, tasks and counts, a painted frame never wraps or scrolls beyond the last line it occupies: each of its lines is narrower than the terminal, it has fewer lines than the terminal, and the cursor returns to where it started. Title and tasks are reduced to single lines and trimmed or left out to achieve this (narrow terminals get only the percentage, tiny ones nothing), so that lines printed before the bar are still intact on the screen at any time and after it is gone.",
 ["inputs","configurations","histories"],"All terminal sizes, titles and task labels (wide characters, line breaks, tabs, escape sequences, empty), numbers of tasks and totals up to the maximum, including changes of all of them while running.",
 "Needs a terminal to observe; a frame that is one column or line too big only misbehaves at particular sizes.",
 [PROG,FIT],[("fitting of title, tasks and bar to the screen","ProglessBuffer::set_bars/set_title/set_doing/print in "+PROG)],["screen contents of an independent terminal emulator fed the bytes written to a pseudo-terminal"])

p("C16","Finishing erases the display, and nothing is painted afterwards",
 "Once a progress bar has ended (by finish, or by a thread's own completing step once that call returns), the area it occupied is clear, and nothing more is painted for it: no later frame, no leftover line, whatever was being painted or pushed at that moment by other threads. Finish returns promptly with the elapsed time, may be called any number of times from any thread, and leaves no ticker thread behind; nor does dropping the last handle of an unfinished bar.",
 ["schedules","histories","crash_points"],"All interleavings of finish, reaching the total, dropping, pushing messages and periodic painting, at any moment of the painting cycle.",
 "A stale repaint needs the finish to fall in the gap between the ticker's check and its paint; tests neither paint nor race.",
 [PROG,STEADY],[("stop under the output lock and ticker shutdown","ProglessInner::stop, ProglessInner::tick in "+PROG+"; ProglessSteady::stop in "+STEADY)],["terminal bytes after the finishing call returned; thread count of the process; emulated screen"])

p("C17","Messages pushed during progress appear exactly once, whole and in order",
 "A message pushed while a progress bar is up appears exactly once, complete and ending in one line break, above the display, and messages of one thread keep their order; the display is restored below it with current values unless the bar has ended. After the bar has ended, or without a terminal, it is simply printed to standard error, and if it could not be written while running, it is handed back as an error instead of being lost silently.",
 ["schedules","inputs","fault_sequences"],"All numbers of pushing threads concurrent with painting, changes and finishing, all message contents, and failing output.",
 "Tests never push a message with a display up; loss, duplication or overpainting depends on the interleaving with the ticker.",
 [PROG],[("clear, write, repaint under the output lock","ProglessInner::push_msg in "+PROG)],["emulated terminal scrollback and raw bytes keyed by unique message identifiers; return values under write failures"])

p("C18","Changes reach the screen within a bounded number of ticks",
 "While a progress bar is running on a terminal, every change of the counts, title, task list or elapsed seconds is on the screen a few tick periods (tenths of a second) later if nothing else changes, no matter which thread made it and what happened before, and nothing is repainted while nothing changes. The elapsed time shown never runs backwards and never lags behind the clock by more than that.",
 ["schedules","histories"],"All sequences and interleavings of changes, including ones made while a frame is being painted.",
 "A lost update of the change flags is permanent but needs a change exactly while a frame is being assembled.",
 [PROG,STEADY],[("change flags set after the change and cleared before reading","tick_set_drawable in "+PROG),("100 ms ticker",STEADY)],["the last frame on the emulated screen after a settle period, and the number of frames in idle periods"])

p("C19","Resetting starts a clean new run",
 "After a reset to a new total, the bar is running with nothing done, no tasks and that total, whether the previous run was finished, complete, interrupted or still active; its title and start time are kept, the display comes back with the new values, and everything that held for a new bar holds again. This can be repeated any number of times without leaving extra ticker threads or stale display pieces behind.",
 ["histories","schedules"],"All histories of runs, with resets at any moment relative to the ticker and to other threads' reads and titles (but not while another thread is counting or finishing).",
 "Tests never reset; stale flags, pieces or threads show only in particular sequences of runs.",
 [PROG,STEADY],[("state reset, all pieces marked changed, ticker restarted","ProglessInner::reset in "+PROG+"; ProglessSteady::start in "+STEADY)],["frames, counts and thread numbers over many random reset histories"])

p("C20","SIGINT is handled by the chosen policy, at any moment",
 "With interrupt support compiled in, the first registered policy (default, two-strike or keepalive) decides for the whole process: by default one SIGINT ends it with status 1, with two-strike the first sets the shared switch and a second ends it with status 1, with keepalive it never ends it and the switch stays set. The cursor, hidden while progress is running, is visible again after the interrupt and after the bar ends in every case, and the title turns into an early shutdown notice if the program goes on. This holds at whatever moment the signal arrives, including in the middle of writing its output.",
 ["crash_points","schedules","configurations"],"All arrival moments and numbers of signals, all policies and registration orders, with output slow, stalled for a while or not. (Output never taken again, and a bar being started in the very instant its process is ended, are excepted.)",
 "Signals arriving inside a particular library call (holding the output lock) cannot be timed by a unit test; nothing in the tests sends signals.",
 [SIG,STEADY],[("signal handlers per policy, first one wins",SIG),("cursor restored by handler and by ticker end",SIG)],["exit status, cursor state and output of child processes signalled at controlled and random moments"])

p("C21","The display adapts to terminal size changes",
 "When the terminal is resized while progress is running, within a few ticks the display is redrawn to fit the new size, with title, tasks and bar re-cut to it, in both ways of detecting the size that can be compiled in; a frame cut for an old size is not painted again once the new size is known. Sizes too small for a display, unknown or enormous are survived, and the full display returns when there is room again.",
 ["histories","configurations"],"All sequences of terminal sizes, including degenerate ones, at any moment.",
 "Tests have no terminal to resize.",
 [PROG,SIG],[("size polled per tick, or on SIGWINCH","tick_set_size/tick_resize in "+PROG),("SIGWINCH switch",SIG)],["frames painted on a pseudo-terminal resized at random moments, in two builds"])

p("C22","Concurrent use of the progress bar is free of races, UB and deadlock",
 "No use of a shared progress bar from any number of threads (counting, tasks, titles, pushing messages, printing messages directly, finishing, resetting, cloning, dropping) leads to a data race, undefined behaviour, a panic or a deadlock; every call returns.",
 ["schedules","programs"],"All concurrent programs over the public interface, and all their schedules, in which no caller holds the standard error lock itself across calls.",
 "Tests are single-threaded.",
 [PROG,STEADY],[("atomics and mutexes with a fixed locking order",PROG+", "+STEADY)],["Miri and ThreadSanitizer over randomized concurrent programs; watchdog over native stress runs"])

p("C23","Savings reports are arithmetically right for any sizes",
 "The difference and percentage reported for a before/after pair are right for all 64-bit sizes: a saving (or growth) is reported exactly when the later size is non-zero and smaller (larger) than a non-zero earlier one, its amount is exactly the difference and its percentage the difference relative to the earlier size up to floating-point rounding. The suffix it adds to a message states that amount with separators and that percentage, or that there are no savings, and replaces any earlier suffix and nothing else.",
 ["inputs"],"All pairs of 64-bit sizes including zero and extremes, and all messages.",
 "Tests sample a few pairs.",
 [BA,MSG],[("BeforeAfter arithmetic",BA),("suffix rendering","Msg::with_bytes_saved in "+MSG)],["results over boundary and random pairs against exact rational arithmetic"])

p("C24","Summaries state the final count and elapsed time",
 "The summary of a progress bar names the final done count with separators, the singular form of the noun for exactly one and the plural otherwise, and the time elapsed since the bar was created, behind the requested kind's prefix and ending the line; the generic summary does the same without a count. The elapsed time spans resets and is consistent with the duration that finish returns.",
 ["inputs","histories"],"All counts, nouns, kinds, and histories of runs.",
 "Tests build no summaries.",
 [PROG],[("summary rendering","Progless::summary, From<Progless> for Msg in "+PROG)],["summaries over random totals, kinds and histories, bracketed by the harness's own clock"])

p("C25","The command prints the requested message on the right stream and exit code",
 "For any message subcommand and any combination and order of its documented options, in every accepted spelling, the command writes exactly the requested message (prefix of that kind or the custom one, indentation, timestamp when asked for) and one line break to standard output, or to standard error when so requested, nothing else anywhere, and exits with the requested code or 0. Message text is passed through byte for byte, whatever it contains. Of a repeated option the last usable value counts; option values that are no number in range are ignored.",
 ["inputs","configurations"],"All subcommands, option combinations, orders, spellings, values and message texts.",
 "The command itself has no tests at all.",
 [CLI,MAIN],[("argument parsing into settings",CLI),("building and printing the message",MAIN)],["stdout, stderr and exit status of the real binary over generated command lines, against a reference interpreter"])

p("C26","The confirm command maps answers to exit codes",
 "Asking for confirmation shows the question on standard output and exits 0 for yes and 1 for no, with yes as the default answer only if requested and otherwise no; invalid answers are refused and asked again, and the end of input counts as the default. Indentation and timestamp options apply to the question as to any message.",
 ["inputs","fault_sequences"],"All input streams and option combinations.",
 "The command itself has no tests at all.",
 [CLI,MAIN,MSG],[("confirm handling",MAIN)],["transcript and exit status of the real binary over scripted input, against a reference interpreter"])

p("C27","The blank command prints exactly the requested number of line breaks",
 "The blank command writes precisely as many line breaks as asked for (one by default and at least one) to the requested stream, nothing else, and exits with 0.",
 ["inputs"],"All counts, spellings, streams and argument orders.",
 "The command itself has no tests at all.",
 [CLI,MAIN],[("blank line output",MAIN)],["output bytes and exit status of the real binary"])

p("C28","Wrong usage is refused cleanly; help and version always work",
 "Asking for help, for the program or any subcommand, prints that help to standard output and exits 0, and asking for the version prints name and version and exits 0; every option and subcommand mentioned in the help, manual and shell completions is accepted. A message subcommand with a missing or empty message, more than one message, an unknown option besides the message or undecodable text prints one error message to standard error, nothing to standard output, and exits 1; no input makes the command crash.",
 ["inputs"],"All command lines, including undecodable bytes.",
 "The command itself has no tests at all.",
 [CLI,MAIN,CERR,"fyi/help","release"],[("argument parsing and errors",CLI+", "+CERR)],["stdout, stderr and exit status of the real binary over generated command lines; options extracted from the shipped documentation"])

p("C29","Frames survive partial, interrupted and failing writes",
 "If the terminal accepts a frame or pushed message only in pieces, interrupts the writes or refuses them for a while, everything eventually accepted is still whole and in order, with no piece repeated, skipped or interleaved with other output. A lost or failing standard error never panics or hangs the program, makes the counts wrong, or keeps finish from working.",
 ["fault_sequences","schedules"],"All sequences of short, interrupted and failing writes during painting, pushing, finishing and cursor changes.",
 "Partial writes do not happen to the tests, which paint nothing.",
 [PROG,SIG,MSG],[("vectored write loop","ProglessBuffer::print in "+PROG),("ignored errors elsewhere",PROG)],["bytes actually accepted under an interposed write layer that splits, interrupts and refuses writes, checked with the frame parser"])

if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
    print(len(P), max(len(x["title"]) for x in P))
