"""C20: programs with a progress bar, interrupted at all kinds of moments; exit status, cursor and title observed from outside."""
import concurrent.futures, ctypes, fcntl, os, pty, random, re, select, signal, struct, subprocess, termios, time, tty
from .common import CPUS, Check, CheckError, env, harness

LIBC = ctypes.CDLL(None, use_errno=True)
TGKILL = 234
NOTICE = "Early shutdown in progress."
WAIT = 25  # Long enough for anything that comes at all.


def tgkill(pid, tid):
    return LIBC.syscall(TGKILL, pid, tid, signal.SIGINT) == 0


class Child:
    """The program, with what it wrote."""

    def __init__(self, argv, out, size, ctty):
        self.ev_r, ev_w = os.pipe()
        self.in_r, self.in_w = os.pipe()
        self.master = None
        if out == "pty":
            self.master, slave = pty.openpty()
            tty.setraw(slave)
            a = termios.tcgetattr(slave)
            a[3] |= termios.ISIG | termios.NOFLSH  # Or the kernel throws output away.
            a[6][termios.VINTR] = b"\x03"
            termios.tcsetattr(slave, termios.TCSANOW, a)
            fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", size[1], size[0], 0, 0))
            self.err_r = self.master
        else:
            self.err_r, slave = os.pipe()
            if out == "tight":
                fcntl.fcntl(slave, fcntl.F_SETPIPE_SZ, 4096)

        def setup():
            os.dup2(ev_w, 3)
            if ctty:
                os.setsid()
                fcntl.ioctl(slave, termios.TIOCSCTTY, 0)
        # Descriptor 3 might be in use here; the child's copy is what counts.
        self.p = subprocess.Popen(argv, env=env(), stdin=self.in_r, stdout=subprocess.DEVNULL, stderr=slave, preexec_fn=setup, pass_fds=(3, slave) if ctty else (3,), close_fds=True)
        os.close(ev_w), os.close(self.in_r), os.close(slave)
        self.out, self.events, self.evbuf = b"", [], b""
        self.err_open = self.ev_open = True
        self.reading = True

    def pump(self, secs, until=None):
        """Read for a while, or until something is so."""
        end = time.monotonic() + secs
        while True:
            if until is not None and until():
                return True
            left = end - time.monotonic()
            if left <= 0:
                return until is not None and bool(until())
            fds = ([self.err_r] if self.err_open and self.reading else []) + ([self.ev_r] if self.ev_open else [])
            if not fds:
                if until is None:
                    time.sleep(left)
                    return False
                time.sleep(min(left, .002))
                continue
            r, _, _ = select.select(fds, [], [], min(left, .02))
            if self.err_r in r and self.err_open:
                try:
                    d = os.read(self.err_r, 65536)
                except OSError:
                    d = b""
                self.out += d
                self.err_open = bool(d)
            if self.ev_r in r and self.ev_open:
                d = os.read(self.ev_r, 65536)
                self.evbuf += d
                self.ev_open = bool(d)
                *full, self.evbuf = self.evbuf.split(b"\n")
                self.events += [x.decode(errors="replace") for x in full]

    def caught(self):
        try:
            s = open("/proc/%d/status" % self.p.pid).read()
        except OSError:
            return False
        m = re.search(r"SigCgt:\s*([0-9a-f]+)", s)
        return bool(m and int(m.group(1), 16) & 2)

    def ended(self):
        return self.p.poll() is not None

    def quit(self):
        if self.in_w is not None:
            os.close(self.in_w)
            self.in_w = None

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.quit()
        os.close(self.err_r), os.close(self.ev_r)

    def threads(self):
        try:
            return [int(t) for t in os.listdir("/proc/%d/task" % self.p.pid)]
        except OSError:
            return []

    def strike(self, how, rnd):
        """One SIGINT. Nothing is sent that would hit anybody else."""
        if self.ended():
            return
        try:
            if how == "key":
                os.write(self.master, b"\x03")
            elif how == "process":
                os.kill(self.p.pid, signal.SIGINT)
            else:
                ts = [t for t in self.threads()]
                if not ts:
                    return
                t = self.p.pid if how == "main" else rnd.choice([t for t in ts if t != self.p.pid] or ts) if how == "other" else rnd.choice(ts)
                if not tgkill(self.p.pid, t):
                    os.kill(self.p.pid, signal.SIGINT)
        except (ProcessLookupError, OSError):
            pass


def cursor(out):
    """What was said about the cursor last: True for visible, None if nothing was."""
    m = re.findall(rb"\x1b\[\?25([hl])", out)
    return m[-1] == b"h" if m else None


def last_frame(out):
    t = out.split(b"\x1b[J")[-1]
    return re.sub(r"\x1b\[[0-9;?]*[A-Za-z]", "", t.decode("utf-8", "replace"))


def scenario(bins, rnd):
    policies = rnd.choice(["bar"] * 6 + ["two"] * 4 + ["keep"] * 4 + ["two,keep", "keep,two", "two,two,keep", "keep,keep,two", "two,bar,keep", "keep,bar,two", "bar,two", "bar,keep", "bar,two,keep"])
    first = policies.split(",")[0]
    bar_first = policies == "bar"
    work = rnd.choice(["idle", "inc", "tasks", "push", "lock", "lock", "churn", "churn", "reset", "again", "none"])
    if work == "none" and bar_first and rnd.random() < .8:
        work = "idle"
    s = {"policies": policies, "first": first, "work": work, "onkill": rnd.choice(["go", "go", "stop"]), "threads": rnd.choice([0, 1, 2, 4]),
         "seed": rnd.randrange(1 << 40), "delay": rnd.choice([0, 0, 300, 3000, 20000]), "winch": rnd.random() < .4,
         "out": rnd.choice(["pty", "pty", "pty", "pipe", "tight"]), "how": rnd.choice(["process", "process", "main", "other", "other", "any"]),
         "when": rnd.choice([0, rnd.random() * .01, rnd.random() * .25, rnd.random() * .25, rnd.random() * .6]), "stall": rnd.random() < .25,
         "double": rnd.random() < .3, "signals": rnd.random() > .06, "many": rnd.choice([1, 2, 3, 30, 300])}
    if s["out"] == "pty" and rnd.random() < .25:
        s["how"] = "key"
    s["bin"] = bins[1] if s["winch"] else bins[0]
    return s


def case(bins, seed, o):
    rnd = random.Random(seed)
    s = scenario(bins, rnd)
    argv = [s["bin"], s["policies"], s["work"], s["onkill"], str(s["threads"]), str(s["seed"]), str(s["delay"])]
    c = Child(argv, s["out"], (100, 30), s["how"] == "key")
    o["n"] += 1

    def count(k, n=1):
        o["counts"][k] = o["counts"].get(k, 0) + n

    def bad(what):
        o["bad"].append(("%s; events %s, output ends %r; scenario %s" % (what, c.events[-6:], c.out[-200:], {k: v for k, v in s.items() if k != "bin"}), {"seed": seed, "argv": argv}))
    try:
        judge(c, s, rnd, bad, count)
        for e in c.events:
            if e.startswith(("panic", "different", "set from", "switch off")):
                bad(e)
        o["seen"].add((s["policies"], s["work"], s["threads"], s["how"], s["out"], s["delay"], s["onkill"], s["double"], s["stall"], s["winch"], s["signals"], int(s["when"] * 40)))
        if len(o["samples"]) < 2:
            o["samples"].append("%s with %s: events %s" % (s["policies"], {k: s[k] for k in ("work", "threads", "how", "out", "delay", "when")}, c.events))
    finally:
        c.close()


def judge(c, s, rnd, bad, count):
    if not c.pump(WAIT, lambda: "ready" in c.events or c.ended()):
        raise CheckError("the program did not get ready")
    if c.ended() and "ready" not in c.events:
        return bad("ended by itself with %s" % c.p.returncode)
    if not c.pump(WAIT, lambda: c.caught() or c.ended()):
        return bad("no handler for SIGINT was installed")
    steady = s["work"] in ("idle", "inc", "tasks", "push", "lock")
    count("programs")
    # Bars hide the cursor.
    shown = False
    if steady and rnd.random() < .75:
        if not c.pump(WAIT, lambda: cursor(c.out) is False or c.ended()):
            return bad("a progress bar is running, but the cursor was never hidden")
        count("cursors hidden")
        shown = True
    if not s["signals"]:
        c.pump(rnd.random() * .5)
        c.quit()
        if not c.pump(WAIT, c.ended):
            return bad("does not end")
        c.pump(1, lambda: not c.err_open)
        if c.p.returncode != 0:
            return bad("exit status %s, uninterrupted" % c.p.returncode)
        if cursor(c.out) is False:
            return bad("the cursor is hidden after the end")
        if NOTICE in c.out.decode("utf-8", "replace"):
            return bad("announces an early shutdown, uninterrupted")
        count("uninterrupted")
        return
    c.pump(s["when"])
    if s["stall"]:  # Nobody reads; the writers get stuck sooner or later.
        c.reading = False
        c.pump(rnd.random() * .4)
        count("output stalled")
    c.strike(s["how"], rnd)
    count("signals")
    if s["double"] and (s["first"] != "two" or rnd.random() < .5):
        for _ in range(rnd.randint(1, 3)):
            c.strike(s["how"], rnd)
            count("signals")
            count("signals on top of one another")
    elif s["double"]:
        s["double"] = False
    if s["stall"]:
        c.pump(rnd.random() * .2)
        c.reading = True
    first = s["first"]
    if first == "bar":
        # One is enough.
        if not c.pump(WAIT, c.ended):
            return bad("still there %d s after SIGINT" % WAIT)
        c.pump(1, lambda: not c.err_open)
        if c.p.returncode != 1:
            return bad("ended with %s by SIGINT, expected status 1" % c.p.returncode)
        # A bar only just starting might have hidden it at the very last moment.
        if shown and cursor(c.out) is False:
            return bad("the cursor is hidden after the interrupt")
        count("died by default")
        return
    if first == "two" and s["double"]:
        # Merged or not, both are possible; the rest is the same.
        c.pump(.3, c.ended)
        if c.ended() and (c.p.returncode == 1 or s["onkill"] != "stop"):
            return end_by_second(c, bad, count, shown)
    if not c.pump(WAIT, lambda: "switch" in c.events or c.ended()):
        return bad("SIGINT did not set the switch")
    count("switches set")
    if "switch" not in c.events:
        c.pump(1, lambda: not c.ev_open)
        if "switch" not in c.events:
            return end_by_second(c, bad, count, shown) if first == "two" and s["double"] and c.p.returncode == 1 else bad("ended with %s by the first SIGINT" % c.p.returncode)
    if first == "keep":
        for _ in range(s["many"] if rnd.random() < .6 else 0):
            c.strike(s["how"], rnd)
            count("signals")
            if rnd.random() < .3:
                c.pump(rnd.random() * .01)
    if s["onkill"] == "go":
        if s["work"] == "again" and not c.pump(WAIT, lambda: "again" in c.events or c.ended()):
            return bad("the first run does not end")
        # It must be visible from now on.
        c.pump(.05 + rnd.random() * .2)
        if s["out"] == "pty" and (steady or s["work"] == "again"):
            if not c.pump(WAIT, lambda: NOTICE in last_frame(c.out) or c.ended()):
                return bad("no notice of the shutdown in the title: %r" % last_frame(c.out))
            count("notices seen")
        c.pump(.1)
        if c.ended() and first == "two" and s["double"]:
            return end_by_second(c, bad, count, shown)
        if c.ended():
            return bad("ended with %s after the first SIGINT" % c.p.returncode)
        settle = c.pump(WAIT, lambda: cursor(c.out) is not False or c.ended())
        if not settle:
            return bad("the cursor is still hidden after the interrupt")
        n = len(c.out)
        c.pump(.15)
        if b"\x1b[?25l" in c.out[n:]:
            return bad("the cursor was hidden (again) after the interrupt")
        count("cursors visible after the interrupt")
        if first == "two" and rnd.random() < .6:
            if s["stall"]:
                c.reading = False
                c.pump(rnd.random() * .2)
            c.strike(s["how"], rnd)
            count("signals")
            c.pump(rnd.random() * .1)
            c.reading = True
            if not c.pump(WAIT, c.ended):
                return bad("still there %d s after the second SIGINT" % WAIT)
            return end_by_second(c, bad, count, True)
        c.quit()
    if not c.pump(WAIT, c.ended):
        return bad("does not end after SIGINT and being told to")
    c.pump(1, lambda: not c.err_open and not c.ev_open)
    if first == "two" and s["double"] and c.p.returncode == 1:
        return end_by_second(c, bad, count, shown)
    if c.p.returncode != 0:
        return bad("ended with %s, expected to go on" % c.p.returncode)
    if "done true" not in c.events:
        return bad("the switch is not set at the end")
    if cursor(c.out) is False:
        return bad("the cursor is hidden after the end")
    count("survived")


def end_by_second(c, bad, count, judge):
    c.pump(1, lambda: not c.err_open)
    if c.p.returncode != 1:
        return bad("ended with %s by the second SIGINT, expected status 1" % c.p.returncode)
    if judge and cursor(c.out) is False:
        return bad("the cursor is hidden after the second SIGINT")
    count("died by the second")


def worker(job):
    bins, seed, secs = job
    o = {"n": 0, "seen": set(), "bad": [], "samples": [], "counts": {}}
    end, i = time.monotonic() + secs, 0
    while time.monotonic() < end and len(o["bad"]) < 3:
        case(bins, "%s %d" % (seed, i), o)
        i += 1
    return o


def reserve():
    """Descriptor 3 must be free for pass_fds here."""
    try:
        os.fstat(3)
    except OSError:
        os.dup2(os.open("/dev/null", os.O_RDONLY), 3)


def sigint(prop):
    c = Check(prop)
    bins = [harness("hsig", tag="-int"), harness("hsig", features="winch", tag="-sig")]
    secs = c.secs(20, 400)
    reserve()
    seen = set()
    with concurrent.futures.ProcessPoolExecutor(CPUS * 4) as ex:
        for o in ex.map(worker, [(bins, "%d %d" % (c.seed, k), secs) for k in range(CPUS * 4)]):
            c.evaluations += o["n"]
            seen |= o["seen"]
            c.samples += o["samples"][:1]
            for k, n in o["counts"].items():
                c.count(k, n)
            for what, replay in o["bad"]:
                c.violation(what, replay)
    c.distinct = len(seen)
    return c.finish("random policies in random order, kinds of work, ways of delivery (process, particular threads, terminal key), moments, delayed, stalled and drained output, "
                    "single and overlapping signals; non-trivial: distinct (scenario, moment in 25 ms steps)", minimum=100, assumptions=[
                        "signals are sent once a handler is installed", "output that is never read again is not judged"])


ABOUT = {"C20": ("runtime monitor: child processes signalled at random moments and threads, exit status, cursor and title judged from their output",
                 "hundreds of interrupted programs per run; moments are sampled, with injected delays before writes; output stalls are temporary", "exploration")}
CHECKS = {"C20": sigint}
