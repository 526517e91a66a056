"""C06, C07, C11-C19, C21, C22, C24, C29: printing, prompting and the progress bar, watched at the system-call boundary."""
from .common import Check, harness
from .interp import miri

RULES = {
    "C06": "messages of all shapes and sizes printed by 1-8 threads on both streams under delayed, short and interrupted writes, one stream failing at times; each output taken apart again; non-trivial: distinct interleavings of writes",
    "C07": "prompts in all forms fed with scripted input (valid, invalid, undecodable, endless lines, interruptions, errors, ends) in pieces, against a byte-level model; non-trivial: distinct histories",
    "C11": "bars created from all integer types at and around all limits, counted to one before their end and to it, zero resets at any state; non-trivial: distinct histories",
    "C12": "random operation histories against a sequential model and concurrent runs (2-8 threads) with counts read during, at the end and after; non-trivial: distinct interleavings of calls and writes",
    "C13": "adds and removals of hostile labels, one thread against a model and many threads competing, the painted lists judged against what may be listed; non-trivial: distinct histories",
    "C14": "every frame written, parsed and compared with the values the bar had between the previous frame and this one; non-trivial: distinct histories",
    "C15": "frames fed to a terminal emulator of any size, lines printed before must stay; non-trivial: distinct histories",
    "C16": "runs ended by finish, by the last step or by drop while other threads push and count; what is written afterwards, left on the screen or left running; non-trivial: distinct interleavings",
    "C17": "messages pushed from many threads, before, during and after the end, with refused and short writes; each counted and ordered in the recorded output; non-trivial: distinct interleavings",
    "C18": "changes (by one or many threads, single or in bursts) then time: the last frame must show them within tick periods of a reference thread; idle periods must stay silent; non-trivial: distinct histories",
    "C19": "histories with many resets, displays after resets, and storms of concurrent resets; non-trivial: distinct histories",
    "C21": "resizes between operations and at rest, real pseudo-terminal sizes of 0 to 65535, both ways of detecting them; non-trivial: distinct histories",
    "C22": "storms of all operations from 2-8 threads with injected delays and failures; every call must return, nobody may panic; non-trivial: distinct interleavings",
    "C24": "summaries parsed and compared with the model's count and the clock; non-trivial: distinct histories",
    "C29": "writes refused, cut short and interrupted at random; what reached the terminal must be whole outputs or beginnings of refused ones; non-trivial: distinct histories",
}
# Processes per build: (without, with) signal support; mostly waiting ones can be many.
PROCS = {"C18": (10, 6), "C21": (8, 8), "C19": (6, 4), "C22": (6, 4), "C24": (5, 3), "C06": (6, 2), "C07": (3, 1), "C11": (5, 3)}
# Seconds under Miri as well: quick, thorough.
MIRI = {"C12": (14, 300), "C13": (14, 300), "C14": (14, 300), "C16": (14, 300), "C17": (14, 300), "C18": (14, 300), "C19": (14, 300), "C22": (24, 400)}
MINIMUM = {"C18": 100, "C21": 100}


def run(prop, c, quick=16, thorough=260):
    secs = c.secs(quick, thorough)
    a, b = PROCS.get(prop, (5, 3))
    jobs = []
    for label, n, bin in (("polled size", a, harness("hrt")), ("signals", b, harness("hrt", features="sig", tag="-sig"))):
        for k in range(n):
            out = c.path("%s%d.json" % (label.split()[0], k))
            jobs.append((label, [bin, prop, str(c.seed * 1000 + k + (500 if label == "signals" else 0)), str(secs), out], out, None))
    c.monitors(jobs, secs * 2 + 240)


def progress(prop):
    c = Check(prop)
    run(prop, c, *((13, 260) if prop in MIRI else (16, 260)))
    if prop in MIRI and not c.violations:
        miri(c, prop, c.secs(*MIRI[prop]), full=prop == "C22")
    return c.finish(RULES[prop], minimum=MINIMUM.get(prop, 300), assumptions=[
        "harness/hrt stands in for the C library's write, writev and clock_gettime; standard error is a real pseudo-terminal as far as its size goes",
        "the frame parser, reference layout and terminal emulator of harness/hrt",
        "sequence numbers taken before and after each call bound when it took effect"])


_MIRI = ("; the same workloads, smaller, under Miri with a schedule seed per batch",
         " Under Miri (nightly interpreter, virtual time) further hundreds of histories, each batch with its own schedule seed and preemption rate.")
_NOTE = ("held on the executions observed: thousands of random single- and multi-threaded histories per run in real threads, with injected delays, short, "
         "interrupted and (where it matters) refused writes; every write call is recorded with a global order and judged. Schedules are sampled, not enumerated.")
ABOUT = {p: (t + _MIRI[0], _NOTE + _MIRI[1], "exploration") if p in MIRI else (t, _NOTE, "exploration") for p, t in {
    "C06": "runtime monitor: exactly-once, contiguity and order checker over the recorded output, fault injection",
    "C07": "runtime monitor: scripted input at the read boundary against a reference model, recorded output",
    "C11": "runtime monitor: accepted and refused values against exact arithmetic, counts and frames of accepted bars",
    "C12": "runtime monitor: sequential model, offline interval checker over concurrent histories, exhaustive search for an explanation of short races",
    "C13": "runtime monitor: sequential model, offline interval checker over concurrent histories, exhaustive search for an explanation of short races",
    "C14": "runtime monitor: every painted frame parsed and checked against the recorded history of values",
    "C15": "runtime monitor: terminal emulator fed with the recorded output",
    "C16": "runtime monitor: offline checker of the recorded output, thread census, timing against a reference",
    "C17": "runtime monitor: exactly-once and order checker over the recorded output",
    "C18": "runtime monitor: bounded-response monitor against a reference ticker thread",
    "C19": "runtime monitor: sequential model over histories with resets, explanation search for short races, concurrent resets with a thread census",
    "C21": "runtime monitor: resized pseudo-terminals, frames judged against the sizes in force",
    "C22": "runtime monitor: concurrent stress with injected delays under a watchdog, panic hook and stream checker; data race and UB detection by Miri",
    "C24": "runtime monitor: reference summaries and clock bounds",
    "C29": "runtime monitor: fault injection at the write boundary with a stream reassembly checker",
}.items()}
CHECKS = {p: progress for p in ABOUT}
