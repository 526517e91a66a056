"""C25-C28: the real command over generated command lines, next to a reference interpreter."""
import concurrent.futures, errno, fcntl, glob, os, pty, random, re, select, subprocess, termios, time, tty
from .common import CPUS, REPO, Check, env, fyi_bin

KINDS = {"aborted": ("Aborted", "91"), "confirm": ("Confirm", "38;5;208"), "crunched": ("Crunched", "92"), "debug": ("Debug", "96"),
         "done": ("Done", "92"), "error": ("Error", "91"), "found": ("Found", "92"), "info": ("Info", "95"), "notice": ("Notice", "95"),
         "review": ("Review", "96"), "skipped": ("Skipped", "93"), "success": ("Success", "92"), "task": ("Task", "38;5;199"),
         "warning": ("Warning", "93"), "print": None}
PRINTING = sorted(k for k in KINDS if k != "confirm")
SWITCHES = {"-h", "--help", "-i", "--indent", "--stderr", "-t", "--timestamp", "-y", "--yes"}
VALUES = {"-c", "--prefix-color", "-e", "--exit", "-p", "--prefix"}
WHITE = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def code(n):
    return "3%d" % n if n < 8 else "9%d" % (n - 8) if n < 16 else "38;5;%d" % n


def kind_prefix(cmd, label="", color=199):
    if cmd == "print":
        return "\x1b[1;%sm%s:\x1b[0m " % (code(color), label) if label else ""
    return "\x1b[1;%sm%s:\x1b[0m " % (KINDS[cmd][1], KINDS[cmd][0])


def special(arg):
    """Whether an argument would be read as an option rather than a message."""
    if arg in ("", "--") or arg in SWITCHES or arg in VALUES:
        return True
    if len(arg) >= 3 and arg[0] == "-":
        if arg[1].isascii() and arg[1].isalnum():
            return arg[:2] in SWITCHES | VALUES
        if arg[1] == "-" and "=" in arg:
            return arg.split("=", 1)[0] in SWITCHES | VALUES
    return False


BITS = ["a", "Hello World", " ", "\n", "\t", "é", "日本", "\u0301", "👩‍👩‍👧", "\x1b[1m", "\x1b[0m", "\x1b]0;x\x07", "%s%n", "{}", "\\n", "$(id)", "'", '"',
        "-", "--", "=", "\r", "\x7f", "\x01", "\u200b", "\ufeff", "\U0010ffff", "1234567890", "ß", ":", "error", "-e", "--help", "\u2028", "\x9b"]


def text(rnd, most=6):
    if rnd.random() < .03:
        return rnd.choice(["x", "é", "日"]) * rnd.choice([255, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 30000])
    return "".join(rnd.choice(BITS) for _ in range(rnd.randint(1, most)))


def message(rnd):
    if rnd.random() < .1:  # The names of subcommands and look-alikes of options are messages too.
        m = rnd.choice(["error", "help", "blank", "print", "-", "-5", "-V", "--version", "---", "--nope", "-z", "--stderrr", "-é", "0", " ", "\n", "--exi", "y", "-=5", "--=", "\u00a0"])
    else:
        m = text(rnd)
    return m if not special(m) else "x" + m


def number(rnd, n):
    s = str(n)
    k = rnd.randrange(8)
    if k == 0:
        s = "0" * rnd.randint(1, 3) + s
    elif k == 1:
        s = rnd.choice([" ", "\t", "\n", "\u3000"]) + s + rnd.choice(["", " ", "\n"])
    return s


JUNK = ["", "x", "-1", "256", "1e2", "0x5", "999999999999999999999", "+5", "1 2", "5.", "é", "٣", "300", "65536", "257", "-0", "1_0", "４"]


def valued(rnd, short, long, v):
    """One option in any of its spellings."""
    k = rnd.randrange(6)
    if k == 0 and not v.startswith("=") and v:
        return [short + v]
    if k == 1:
        return [short + "=" + v]
    if k in (2, 3):
        return [long + "=" + v]
    return [short if k == 4 else long, v]


class Valued(list):
    """An option's arguments and what it asks for."""

    def __init__(self, what, value, args):
        super().__init__(args)
        self.what, self.value = what, value


def stamps(t0, t1):
    return [time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(t)) for t in range(int(t0), int(t1) + 1)]


def stamp(s):
    return "\x1b[2m[\x1b[0;34m%s\x1b[0;2m]\x1b[0m " % s


def environment(rnd):
    e = env()
    e.pop("TZ", None)
    k = rnd.randrange(6)
    if k == 0:
        return {}
    if k == 1:
        e.update(NO_COLOR="1", TERM="dumb", COLUMNS="10")
    elif k == 2:
        e.update(LANG="C", LC_ALL="C")
    elif k == 3:
        e.update(TERM="xterm-256color", CLICOLOR_FORCE="1", COLUMNS="1", LINES="1")
    return e


def drain(fd, into):
    try:
        d = os.read(fd, 65536)
    except OSError as e:
        if e.errno != errno.EIO:
            raise
        d = b""
    into.append(d)
    return bool(d)


def run(bin, args, rnd, stdin=None, limit=20):
    """Run the command; stdout and stderr are pipes or terminals of their own."""
    argv = [bin] + [a if isinstance(a, bytes) else a.encode() for a in args]
    ends = []
    for _ in range(2):
        if rnd.random() < .12:
            m, s = pty.openpty()
            tty.setraw(s)
            ends.append((m, s))
        else:
            ends.append(os.pipe())
    outs = {ends[0][0]: [], ends[1][0]: []}
    t0 = time.time()
    p = subprocess.Popen(argv, env=environment(rnd), stdin=subprocess.DEVNULL if stdin is None else stdin, stdout=ends[0][1], stderr=ends[1][1])
    for _, w in ends:
        os.close(w)
    open_ = set(outs)
    end = t0 + limit
    while open_:
        r, _, _ = select.select(list(open_), [], [], max(0, end - time.time()))
        if not r:
            p.kill()
            p.wait()
            for fd in outs:
                os.close(fd)
            return None
        for fd in r:
            if not drain(fd, outs[fd]):
                open_.discard(fd)
    for fd in outs:
        os.close(fd)
    rc = p.wait()
    return rc, b"".join(outs[ends[0][0]]), b"".join(outs[ends[1][0]]), t0, time.time()


def show(args):
    s = "fyi " + " ".join(ascii(a) for a in args)
    return s if len(s) < 400 else s[:400] + "..."


class Out:
    """What one worker saw."""

    def __init__(self):
        self.n, self.seen, self.bad, self.samples, self.counts = 0, set(), [], [], {}

    def case(self, args):
        self.n += 1
        self.seen.add(hash(tuple(args)))
        if len(self.samples) < 3 and len(show(args)) < 200:
            self.samples.append(show(args))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fail(self, args, what):
        self.bad.append(("%s: %s" % (show(args), what), {"args": [a if isinstance(a, str) else a.decode("utf-8", "surrogateescape") for a in args]}))


def died(rc, err=b"panicked"):
    return rc < 0 or (rc == 101 and b"panicked" in err)


def common(o, args, res):
    if res is None:
        o.fail(args, "did not end")
        return False
    if died(res[0], res[2]):
        o.fail(args, "crashed (%d): %r" % (res[0], res[2][-300:]))
        return False
    return True


# ---- C25

def msg_case(bin, rnd, o, cmd=None):
    cmd = cmd or rnd.choice(PRINTING + ["print"] * 6)
    indent = stderr = ts = False
    m = message(rnd)
    opts = []
    if rnd.random() < .4:
        for _ in range(rnd.choice([1, 1, 1, 2])):
            opts.append([rnd.choice(["-i", "--indent"])])
        indent = True
    if rnd.random() < .4:
        opts += [["--stderr"]] * rnd.choice([1] * 8 + [2])
        stderr = True
    if rnd.random() < .3:
        for _ in range(rnd.choice([1] * 8 + [2])):
            opts.append([rnd.choice(["-t", "--timestamp"])])
        ts = True
    # Repeated ones too, with usable values and others.
    def repeats(p):
        return rnd.choice([1, 1, 1, 1, 2, 2, 3]) if rnd.random() < p else 0
    for _ in range(repeats(.6)):
        n = rnd.choice([0, 0, 1, 2, 9, 10, 99, 100, 101, 126, 127, 128, 199, 200, 249, 250, 254, 255, rnd.randrange(256), rnd.randrange(256)])
        opts.append(Valued("exit", n, valued(rnd, "-e", "--exit", number(rnd, n))))
    for _ in range(repeats(.15)):
        opts.append(valued(rnd, "-e", "--exit", rnd.choice(JUNK)))  # Ignored.
        o.count("unusable values")
    if cmd == "print":
        for _ in range(repeats(.7)):
            label = rnd.choice(["", "Foo", text(rnd, 3), "-e", "--exit", "=x", "-h", "--"])
            opts.append(Valued("label", label, valued(rnd, "-p", "--prefix", label)))
        for _ in range(repeats(.6)):
            n = rnd.choice([0, 7, 8, 15, 16, 199, 208, 255, rnd.randrange(256), rnd.randrange(256)])
            opts.append(Valued("color", n, valued(rnd, "-c", "--prefix-color", number(rnd, n))))
        for _ in range(repeats(.15)):
            opts.append(valued(rnd, "-c", "--prefix-color", rnd.choice(JUNK)))
    items = opts + [[m]]
    rnd.shuffle(items)
    last = {it.what: it.value for it in items if isinstance(it, Valued)}
    exit_, label, color = last.get("exit", 0), last.get("label", ""), last.get("color", 199)
    # Empty arguments count for nothing, but they might be a value.
    if rnd.random() < .1:
        items.insert(rnd.randint(0, len(items)), [""])
    args = [cmd] + [a for it in items for a in it]
    res = run(bin, args, rnd)
    o.case(args)
    o.count("messages with %d options" % len(opts))
    if not common(o, args, res):
        return
    rc, out, err, t0, t1 = res
    body = kind_prefix(cmd, label, color) + m + "\n"
    ind = "    " if indent else ""
    wants = [ind + stamp(s) + body for s in stamps(t0, t1)] if ts else [ind + body]
    wants = [w.encode("utf-8") for w in wants]
    got, other = (err, out) if stderr else (out, err)
    if rc != exit_:
        o.fail(args, "exit code %d, expected %d" % (rc, exit_))
    elif other:
        o.fail(args, "%r on the wrong stream" % other[:300])
    elif got not in wants:
        o.fail(args, "printed %r, expected %r" % (got[:400], wants[0][:400]))


# ---- C27

def blank_case(bin, rnd, o):
    opts, counts, stderr = [], [], False
    if rnd.random() < .5:
        stderr = True
        opts += [["--stderr"]] * (2 if rnd.random() < .1 else 1)
    k = rnd.random()
    if k < .75:
        for _ in range(2 if rnd.random() < .05 else 1):
            n = rnd.choice([0, 1, 2, 3, 9, 10, 11, 99, 100, 127, 128, 254, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 9999, 10000, 65535, 65536, 65537,
                            rnd.randrange(1, 300), rnd.randrange(1, 100000), rnd.randrange(1, 3000000)] + [100000, 99999, 123456, 10000000] * (rnd.random() < .05))
            counts.append(max(n, 1))
            opts.append(valued(rnd, "-c", "--count", number(rnd, n)))
    elif k < .85:
        opts.append(valued(rnd, "-c", "--count", rnd.choice([j for j in JUNK if not j.isdigit() or not j.isascii() or len(j) > 20] + ["99999999999999999999999"])))
        opts = [x for x in opts if x != ["-c"]]
    rnd.shuffle(opts)
    args = ["blank"] + [a for it in opts for a in it]
    res = run(bin, args, rnd, limit=60)
    o.case(args)
    if not common(o, args, res):
        return
    rc, out, err, _, _ = res
    got, other = (err, out) if stderr else (out, err)
    o.count("line breaks", len(got))
    if rc != 0:
        o.fail(args, "exit code %d" % rc)
    elif other:
        o.fail(args, "%r on the wrong stream" % other[:100])
    elif got.strip(b"\n") or len(got) not in (counts or [1]):
        o.fail(args, "%d bytes, %s line breaks, expected %s" % (len(got), got.count(b"\n"), counts or 1))


def blank_slow(bin, rnd, o):
    """A reader taking its time gets all of them too; one that leaves ends it."""
    n = rnd.choice([200000, 300001, 70000])
    huge = rnd.random() < .5
    args = ["blank", "-c", str(rnd.choice([10**9, 2**32, 2**32 + 1, 2**64 - 1, 2**63])) if huge else str(n)] + rnd.choice([[], ["--stderr"]])
    r, w = os.pipe()
    err = "--stderr" in args
    p = subprocess.Popen([bin] + args, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL if err else w, stderr=w if err else subprocess.DEVNULL)
    os.close(w)
    got, end = 0, time.time() + 60
    while time.time() < end:
        d = os.read(r, rnd.choice([1, 100, 4096, 65536, 65536]))
        if d.strip(b"\n"):
            o.fail(args, "something else among the line breaks: %r" % d.strip(b"\n")[:50])
            break
        got += len(d)
        if not d or (huge and got > 4_000_000):
            break
    os.close(r)
    try:
        rc = p.wait(30)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = None
    o.case(args)
    o.count("line breaks", got)
    if huge:
        if got < 4_000_000:
            o.fail(args, "ended after %d line breaks" % got)
        if rc is None or died(rc):
            o.fail(args, "with its reader gone, it ended with %s" % rc)
    elif rc != 0 or got != n:
        o.fail(args, "%d line breaks, exit code %s" % (got, rc))


# ---- C26

YES, NO = ["y", "Y", "yes", "YES", "yEs", "Yes"], ["n", "N", "no", "NO", "nO", "No"]
BAD = ["x", "yy", "ye", "noo", "y n", "0", "1", "true", "ja", "yes!", "n.", "é", "\U0001f44d", "yesyes", "-y", "y\x00", "\x1b[Ay", "ｙ", "y\u200b", "y\x1f", "\x1cn"]


def answer(rnd):
    k = rnd.randrange(10)
    pad = lambda: "".join(rnd.choice(WHITE.replace("\n", "")) for _ in range(rnd.choice([0, 0, 0, 1, 2])))
    if k < 2:
        return (pad() + rnd.choice(YES) + pad()).encode(), True
    if k < 4:
        return (pad() + rnd.choice(NO) + pad()).encode(), False
    if k == 4:
        return pad().encode(), None
    if k == 5:
        return rnd.choice([b"\xff", b"y\xff", b"\xc3", b"no\x80", b"\xe2\x80"]), "bad"
    if k == 6:
        return b"x" * rnd.choice([1, 1000, 8191, 8192, 8193, 20000]), "bad"
    return (pad() + rnd.choice(BAD) + pad()).encode(), "bad"


INVALID = "\x1b[1;91mError:\x1b[0m Invalid input; enter \x1b[91mN\x1b[0m or \x1b[92mY\x1b[0m.\n"


def confirm_case(bin, rnd, o):
    m = message(rnd)
    yes = rnd.random() < .5
    indent, ts = rnd.random() < .3, rnd.random() < .25
    opts = []
    if yes:
        opts.append([rnd.choice(["-y", "--yes"])])
    if indent:
        opts.append([rnd.choice(["-i", "--indent"])])
    if ts:
        opts.append([rnd.choice(["-t", "--timestamp"])])
    if rnd.random() < .2:
        # Means nothing here: the answer decides.
        opts.append([rnd.choice(["-e", "--exit"]), str(rnd.choice([0, 1, 2, 3, 7, 255, 300, "x"]))])
    if rnd.random() < .1:
        opts.append(["--stderr"])
    if rnd.random() < .1:
        opts.append([rnd.choice(["-p", "--prefix"]), rnd.choice(["Hey", "No", ""])])
    items = opts + [[m]]
    rnd.shuffle(items)
    args = ["confirm"] + [a for it in items for a in it]
    # The answers, up to the first that counts; then more that must be left alone.
    lines, result = [], None
    for _ in range(rnd.choice([0, 1, 1, 2, 3, 6])):
        a, r = answer(rnd)
        lines.append(a)
        if r != "bad":
            result = yes if r is None else r
            break
    else:
        result = yes
    decided = result is not None and len(lines) > 0 and r != "bad"
    asks = len(lines) + (0 if decided else 1)
    final_eol = rnd.random() < .8
    feed = b"\n".join(lines) + (b"\n" if lines and final_eol else b"")
    mode = rnd.choice(["file", "pipe", "pipe", "talk", "talk", "pty"])
    if any(b"\x00" in l or len(l) > 4000 for l in lines) and mode == "pty":
        mode = "talk"
    o.count("input by " + mode)
    want_q = []
    res = None
    if mode == "file":
        rest = b"n\ny\n" if decided and final_eol else b""
        f = os.memfd_create("in")
        os.write(f, feed + rest)
        os.lseek(f, 0, 0)
        res = run(bin, args, rnd, stdin=f)
        os.close(f)
    elif mode == "pipe":
        r_, w_ = os.pipe()
        fcntl.fcntl(w_, fcntl.F_SETPIPE_SZ, 1 << 20)
        os.write(w_, feed)
        os.close(w_)
        res = run(bin, args, rnd, stdin=r_)
        os.close(r_)
    else:
        res = talk(bin, args, rnd, lines, final_eol, decided, mode == "pty", m)
    o.case(args + [feed.decode("utf-8", "surrogateescape")])
    if not common(o, args, res):
        return
    rc, out, err, t0, t1 = res
    o.count("questions asked", asks)
    if err:
        o.fail(args, "%r on standard error" % err[:200])
        return
    want = 0 if result else 1
    if rc != want:
        o.fail(args, "exit code %d, expected %d, for input %r" % (rc, want, feed[:200]))
        return
    q = kind_prefix("confirm") + m + (" \x1b[2m[\x1b[4mY\x1b[24m/n]\x1b[0m " if yes else " \x1b[2m[y/\x1b[4mN\x1b[24m]\x1b[0m ")
    ind = "    " if indent else ""
    wants = [ind + stamp(s) + q for s in stamps(t0, t1)] if ts else [ind + q]
    ok = any((INVALID.join([w] * asks)).encode() == out for w in wants)
    if not ok:
        o.fail(args, "for input %r, showed %r, expected %r" % (feed[:200], out[:400], INVALID.join([wants[0]] * asks)[:400]))


def talk(bin, args, rnd, lines, final_eol, decided, as_pty, m):
    """Answer each question only once it is there."""
    if as_pty:
        mi, si = pty.openpty()
        a = termios.tcgetattr(si)
        a[3] &= ~termios.ECHO
        a[0] &= ~(termios.ICRNL | termios.IXON | termios.ISTRIP)
        a[3] &= ~(termios.ISIG | termios.IEXTEN)
        cc = a[6]
        for k in (termios.VERASE, termios.VKILL, termios.VEOL, termios.VEOL2, termios.VREPRINT, termios.VWERASE, termios.VLNEXT):
            cc[k] = b"\x00"
        termios.tcsetattr(si, termios.TCSANOW, a)
        w, r = mi, si
    else:
        r, w = os.pipe()
    ro, wo = os.pipe()
    re_, we = os.pipe()
    t0 = time.time()
    p = subprocess.Popen([bin] + [a.encode() for a in args], env=environment(rnd), stdin=r, stdout=wo, stderr=we)
    for fd in (r, wo, we):
        os.close(fd)
    out, err, todo = [], [], list(lines)
    stage, end, openfd = 0, t0 + 20, {ro: out, re_: err}
    closed = False
    fail = False
    while openfd:
        rl, _, _ = select.select(list(openfd), [], [], max(0, end - time.time()))
        if not rl:
            fail = True
            break
        for fd in rl:
            if not drain(fd, openfd[fd]):
                del openfd[fd]
        so_far = b"".join(out)
        # Complete questions end like this.
        if len(re.findall(rb"\x1b\[2m\[(?:\x1b\[4mY\x1b\[24m/n|y/\x1b\[4mN\x1b\[24m)\]\x1b\[0m $", so_far)) and so_far.count(INVALID.encode()) == stage and not closed:
            stage += 1
            try:
                if todo:
                    l = todo.pop(0)
                    last = not todo
                    data = l + (b"\n" if not last or final_eol or as_pty else b"")
                    for i in range(0, len(data), 3 if len(data) < 10 else 5000):
                        os.write(w, data[i:i + (3 if len(data) < 10 else 5000)])
                        if rnd.random() < .3:
                            time.sleep(.002)
                    if last and not (final_eol or as_pty):
                        os.close(w)
                        closed = True
                else:
                    if as_pty:
                        os.write(w, b"\x04")
                    else:
                        os.close(w)
                        closed = True
            except (BrokenPipeError, OSError):
                pass
    if fail:
        p.kill()
    rc = p.wait()
    for fd in (ro, re_) + (() if closed else (w,)):
        os.close(fd)
    if fail:
        return None
    return rc, b"".join(out), b"".join(err), t0, time.time()


# ---- C28

ERROR = b"\x1b[1;91mError:\x1b[0m "


def refused(o, args, res, why):
    rc, out, err, _, _ = res
    o.count("refused: " + why)
    if rc != 1:
        o.fail(args, "exit code %d, expected 1 (%s)" % (rc, why))
    elif out:
        o.fail(args, "%r on standard output (%s)" % (out[:200], why))
    elif not err.startswith(ERROR) or len(err) <= len(ERROR) + 1 or not err.endswith(b"\n") or err.count(b"\n") != 1:
        o.fail(args, "not one error message: %r (%s)" % (err[:300], why))


def some_opts(rnd, cmd):
    opts = []
    for short, long in (("-i", "--indent"), ("-t", "--timestamp"), (None, "--stderr")):
        if rnd.random() < .25:
            opts.append([short if short and rnd.random() < .5 else long])
    if rnd.random() < .3:
        opts.append(valued(rnd, "-e", "--exit", str(rnd.randrange(256))))
    if rnd.random() < .3:
        opts.append(valued(rnd, "-p", "--prefix", text(rnd, 2)))
    if rnd.random() < .2:
        opts.append(valued(rnd, "-c", "--prefix-color", str(rnd.randrange(256))))
    if rnd.random() < .1:
        opts.append([rnd.choice(["-y", "--yes"])])
    return opts


def unescape(out):
    return re.sub(r"\x1b\[[0-9;]*m", "", out.decode("utf-8", "replace"))


def usage_case(bin, rnd, o, helps):
    k = rnd.randrange(12)
    cmd = rnd.choice(sorted(KINDS))
    opts = some_opts(rnd, cmd)
    why = None
    if k < 2:  # No message, or an empty one.
        items = opts + [[""]] * rnd.choice([0, 0, 1, 2])
        why = "no message"
    elif k < 5:  # Too many, or an unknown option on top.
        extra = rnd.choice([["--nope"], ["-z"], ["-V"], ["--version"], ["--exits=4"], ["--INDENT"], ["--stderr2"], [message(rnd)], ["--indent_"]])
        items = opts + [[message(rnd)], extra] + ([[message(rnd)]] if rnd.random() < .2 else [])
        why = "too much"
    elif k < 7:  # Undecodable.
        bad = rnd.choice([b"\xff", b"ab\xc3", b"\xed\xa0\x80", b"-\xff", b"--exit=\xff", b"--\xff", b"\xf4\x90\x80\x80", b"-e\xff"])
        items = opts + [[bad]] + ([[message(rnd)]] if rnd.random() < .6 else [])
        if rnd.random() < .2:
            items.append([rnd.choice(["-e", "--prefix", "-c"]), b"\xfe"])
        why = "undecodable"
    elif k < 9:  # Help.
        all = rnd.random() < .3
        if all:
            cmd = rnd.choice(["help", "", "-h", "--help", "nope", "-x", "Error", "errors", "--helpme"])
            if cmd == "":
                args = rnd.choice([[], [""], ["", ""]])
            else:
                args = [cmd] + rnd.choice([[], ["x"], ["error", "x"], ["-V"], ["--stderr"], ["-e5"]])
            name = ""
        else:
            cmd = rnd.choice(sorted(KINDS) + ["blank"])
            name = cmd
            items = ([] if cmd == "blank" else opts + [[message(rnd)]] * rnd.choice([0, 1])) + [[rnd.choice(["-h", "--help"])]]
            rnd.shuffle(items)
            args = [cmd] + [a for it in items for a in it]
        res = run(bin, args, rnd)
        o.case(args)
        if common(o, args, res):
            o.count("help shown")
            if res[0] != 0 or res[2] or res[1] != helps[name]:
                o.fail(args, "exit code %d, stderr %r, stdout %s the help of %r: %r" % (res[0], res[2][:200], "is" if res[1] == helps[name] else "is not", name, res[1][:200]))
        return
    elif k == 9:
        args = [rnd.choice(["-V", "--version"])] + rnd.choice([[], ["x"], ["error", "hi"], ["-h"], [b"\xff"], ["--stderr"]])
        res = run(bin, args, rnd)
        o.case(args)
        if common(o, args, res):
            o.count("version shown")
            if res[0] != 0 or res[2] or res[1] != helps["version"]:
                o.fail(args, "exit code %d, stdout %r, stderr %r" % (res[0], res[1][:100], res[2][:100]))
        return
    else:  # Anything at all.
        pool = [lambda: text(rnd, 3), lambda: rnd.choice(sorted(SWITCHES | VALUES)), lambda: rnd.choice(sorted(VALUES)) + rnd.choice(["=", ""]) + rnd.choice(JUNK),
                lambda: bytes(rnd.randrange(1, 256) for _ in range(rnd.randint(1, 6))), lambda: "--", lambda: "", lambda: rnd.choice(sorted(KINDS)),
                lambda: rnd.choice(["-" * rnd.randint(1, 5), "-é", "--é=", "-\u0301", "--=", "-=", "-h\u0301", "--exit=é"])]
        args = [rnd.choice([cmd, cmd, cmd, "blank", "help", text(rnd, 2), b"\xff"])] + [rnd.choice(pool)() for _ in range(rnd.choice([0, 1, 2, 3, 5, 30]))]
        args = [a.replace(b"\x00", b"") if isinstance(a, bytes) else a.replace("\x00", "") for a in args]
        # Keep the output of blank within reason.
        args = [a for a in args if not re.search(rb"\d{7}", a if isinstance(a, bytes) else a.encode())]
        res = run(bin, args, rnd)
        o.case(args)
        if common(o, args, res):
            o.count("arbitrary arguments")
            if args and args[0] in KINDS and args[0] != "confirm" and res[0] == 1 and res[2].startswith(ERROR) and res[1]:
                o.fail(args, "refused, but %r on standard output" % res[1][:200])
        return
    rnd.shuffle(items)
    args = [cmd] + [a for it in items for a in it]
    if any(a == "--" for a in args):
        return
    res = run(bin, args, rnd)
    o.case(args)
    if common(o, args, res):
        refused(o, args, res, why)


# ---- What is documented.

def man_options(path):
    """[(names, takes a value)] as the manual has them, and the rest of its text."""
    raw = open(path, encoding="utf-8").read().replace("\\-", "-")
    out = []
    for line in raw.splitlines():
        names = re.findall(r"\\fB(-[^\\]*)\\fR", line)
        if names:
            out.append((names, "<" in line))
    return out, re.sub(r"\\f[BRI]", "", raw)


def help_options(text_):
    out = []
    for line in text_.splitlines():
        m = re.match(r"\s{4,8}((?:-\w, )?--[\w-]+)( <\w+>)?\s{2,}", line) or re.match(r"\s{4,8}((?:-\w, )?--[\w-]+)( <\w+>) ", line)
        if m:
            out.append((m.group(1).split(", "), bool(m.group(2))))
    return out


def completions(o):
    """What the shell offers after 'fyi' and after each subcommand, from bash itself."""
    file = os.path.join(REPO, "release", "completions", "fyi.bash")

    def offer(words):
        script = 'source "$1" || exit 9; shift; COMP_WORDS=("$@"); COMP_CWORD=$((${#COMP_WORDS[@]}-1)); COMP_LINE="$*"; f=$(complete -p fyi | sed "s/.*-F \\([^ ]*\\).*/\\1/"); "$f"; printf "%s\\n" "${COMPREPLY[@]}"'
        r = subprocess.run(["bash", "-c", script, "bash", file] + words, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
        return r.stdout.decode().split(), r.stderr.decode()
    return offer


def documented(bin, rnd, o):
    """Returns the help screens after checking they say what they should, and everything documented is taken."""
    helps = {}

    def go(args):
        res = run(bin, args, rnd)
        o.case(args)
        return res if common(o, args, res) else None
    r = go(["--version"])
    want = re.search(r'(?m)^version\s*=\s*"([^"]+)"', open(os.path.join(REPO, "fyi", "Cargo.toml")).read()).group(1)
    helps["version"] = r[1] if r else b""
    if r and (r[0] != 0 or r[2] or not re.fullmatch(r"(?i)fyi v?%s\n" % re.escape(want), unescape(r[1]))):
        o.fail(["--version"], "exit code %d, stdout %r, stderr %r" % (r[0], r[1][:200], r[2][:200]))
    pages = {}
    for p in sorted(glob.glob(os.path.join(REPO, "release", "man", "*.1"))):
        pages[os.path.basename(p)[:-2].removeprefix("fyi").removeprefix("-")] = man_options(p)
    o.count("manual pages", len(pages))
    names = {n for n in pages if n}
    for name in [""] + sorted(KINDS) + ["blank"]:
        r = go(([name] if name else []) + ["--help"])
        if r is None:
            helps[name] = b""
            continue
        helps[name] = r[1]
        t = unescape(r[1])
        what = ([name] if name else []) + ["--help"]
        if r[0] != 0 or r[2]:
            o.fail(what, "exit code %d, stderr %r" % (r[0], r[2][:200]))
        if name and ("fyi %s " % name) not in t:
            o.fail(what, "not the help of this subcommand: %r" % t[-400:])
        if name in KINDS and name not in ("print", "confirm") and (kind_prefix(name) + "Hello World").encode() not in r[1]:
            o.fail(what, "its example is not there: %r" % t[-600:])
        if want not in t:
            o.fail(what, "version %s not there" % want)
        opts = dict((tuple(n), v) for n, v in help_options(t))
        o.count("documented options", len(opts))
        mans = dict((tuple(n), v) for n, v in pages.get(name, ([], ""))[0])
        for n, v in mans.items():
            if n not in opts:
                o.fail(what, "%s is in the manual but not in the help" % (n,))
        for n, v in opts.items():
            if n not in mans and name in pages:
                o.fail(what, "%s is in the help but not in the manual" % (n,))
            if n not in mans:
                mans[n] = v
        taken(bin, rnd, o, name, mans)
        if not name:
            subs = set(re.findall(r"(?m)^    ([a-z]+)  ", t)) - {"fyi"}
            names |= subs - {"help"}
            for s in sorted(set(KINDS) | {"blank"}):
                if s not in subs:
                    o.fail(what, "subcommand %s is not listed" % s)
    if len(set(helps.values())) != len(helps):
        o.fail(["--help"], "two help screens are the same")
    offer = completions(o)
    subs, _ = offer(["fyi", ""])
    opts = [x for x in subs if x.startswith("-")]
    subs = [x for x in subs if not x.startswith("-")]
    names |= set(subs) - {"help"}
    if not subs:
        o.fail(["completions"], "nothing is offered")
    for x in opts:
        if x not in unescape(helps[""]):
            o.fail(["completions"], "%s is offered but not in the help" % x)
    taken(bin, rnd, o, "", {(x,): False for x in opts})
    for n in sorted(names):
        if n not in KINDS and n != "blank":
            # Documented, whatever it is: must not be unknown to the program.
            r = go([n, "--help"])
            if r and r[1] == helps[""]:
                o.fail([n, "--help"], "subcommand %s is documented but not known" % n)
            continue
        off, err = offer(["fyi", n, "-"])
        known = {x: v for ns, v in pages.get(n, ([], ""))[0] for x in ns}
        if not off:
            o.fail(["completions", n], "nothing is offered; %s" % err[:200])
        o.count("completions offered", len(off))
        taken(bin, rnd, o, n, {(x,): known.get(x, x in VALUES or x == "--count") for x in off})
        for x in off:
            if x not in unescape(helps.get(n, b"")):
                o.fail(["completions", n], "%s is offered but not in the help" % x)
        for x in known:
            if x not in off:
                o.fail(["completions", n], "%s is documented but not offered" % x)
    return helps


def taken(bin, rnd, o, name, opts):
    """Each of the options is taken as an option."""
    for ns, v in sorted(opts.items()):
        outs = []
        for n in ns:
            for form in ([[n, "7"], [n + "=7"]] if v else [[n]]):
                if not name:
                    args, stdin = form, None
                elif name == "blank":
                    args, stdin = [name] + form, None
                else:
                    args, stdin = [name, "Some Message"] + form, None
                res = run(bin, args, rnd, stdin)
                o.case(args)
                if not common(o, args, res):
                    continue
                rc, out, err, _, _ = res
                o.count("documented options tried")
                out_, err_ = re.sub(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", b"TIME", out), re.sub(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", b"TIME", err)
                outs.append((rc, out_, err_))
                ok = rc == 0 or (name == "confirm" and rc == 1) or ("exit" in " ".join(ns) or "-e" in ns) and rc == 7
                if not ok or b"Invalid CLI" in err or b"Missing" in err:
                    o.fail(args, "documented, but exit code %d, stderr %r" % (rc, err[:200]))
                elif n not in ("-h", "--help") and name and name != "blank" and b"Some Message" not in out + err:
                    o.fail(args, "documented, but the message is gone: %r" % (out + err)[:200])
        if len(set(outs)) > 1:
            o.fail([name or "fyi", " = ".join(ns)], "spellings of one option differ: %r" % [x[0] for x in outs])


def worker(job):
    prop, bin, seed, secs, most, helps = job
    time.tzset()
    rnd = random.Random(seed)
    o, end = Out(), time.time() + secs
    while time.time() < end and o.n < most and len(o.bad) < 5:
        if prop == "C25":
            msg_case(bin, rnd, o)
        elif prop == "C26":
            confirm_case(bin, rnd, o)
        elif prop == "C27":
            (blank_slow if rnd.random() < .02 else blank_case)(bin, rnd, o)
        else:
            usage_case(bin, rnd, o, helps)
    return o


RULES = {
    "C25": "random subcommands with any combination, order and spelling of options, hostile texts; streams are pipes and terminals; non-trivial: distinct command lines",
    "C26": "random questions and options x streams of answers (valid, blank, invalid, undecodable, long, missing) fed at once or one after the other; non-trivial: distinct (command line, input)",
    "C27": "counts around all kinds of limits, all spellings, both streams, slow and vanishing readers; non-trivial: distinct command lines",
    "C28": "everything documented in help, manual and completions, then random wrong, help-seeking and arbitrary command lines; non-trivial: distinct command lines",
}


def cli(prop):
    c = Check(prop)
    bin = fyi_bin()
    os.environ.pop("TZ", None)
    time.tzset()
    helps, outs = None, []
    if prop == "C28":
        o = Out()
        helps = documented(bin, random.Random(c.seed), o)
        outs.append(o)
    if prop == "C25":  # Every subcommand for sure.
        o, rnd = Out(), random.Random(c.seed)
        for cmd in PRINTING:
            for _ in range(12):
                msg_case(bin, rnd, o, cmd)
        outs.append(o)
    secs = c.secs(14, 240)
    if not any(o.bad for o in outs):
        with concurrent.futures.ProcessPoolExecutor(CPUS) as ex:
            outs += list(ex.map(worker, [(prop, bin, "%d %s %d" % (c.seed, prop, k), secs, 10**9, helps) for k in range(CPUS)]))
    seen = set()
    for o in outs:
        c.evaluations += o.n
        seen |= o.seen
        c.samples += o.samples[:2]
        for k, n in o.counts.items():
            c.count(k, n)
        for what, replay in o.bad:
            c.violation(what, replay)
    c.distinct = len(seen)
    return c.finish(RULES[prop], minimum=150, assumptions=["the reference interpreter in checks/cli.py",
                    "which arguments are options is decided by the argument parsing library; messages are chosen so that this is not in doubt"])


_NOTE = "held on the command lines tried only; trusts the reference interpreter in checks/cli.py; debug build of the command"
ABOUT = {p: ("runtime monitor: the real command observed on pipes and terminals, next to a reference interpreter", _NOTE, "exploration") for p in RULES}
CHECKS = {p: cli for p in RULES}
