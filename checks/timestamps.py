"""C05: timestamps, recorded at chosen times in every zone there is, judged with Python's zoneinfo."""
import concurrent.futures, datetime, json, os, random, subprocess, zoneinfo
from .common import CPUS, Check, CheckError, env, harness

LOW = int(datetime.datetime(2000, 1, 1, 16, tzinfo=datetime.timezone.utc).timestamp())
HIGH = int(datetime.datetime(2099, 12, 31, 6, tzinfo=datetime.timezone.utc).timestamp())


def local(t, z):
    return datetime.datetime.fromtimestamp(t, z)


def transitions(z):
    """Moments the offset changes."""
    out, step = [], 20 * 86400
    t, o = LOW, local(LOW, z).utcoffset()
    while t < HIGH:
        n = min(t + step, HIGH)
        p = local(n, z).utcoffset()
        if p != o:
            a, b = t, n
            while b - a > 1:
                m = (a + b) // 2
                if local(m, z).utcoffset() == o:
                    a = m
                else:
                    b = m
            out.append(b)
            # Maybe more than one in between; go on from there.
            t, o = b, local(b, z).utcoffset()
        else:
            t = n
    return out


def times(z, rnd, n):
    tr = transitions(z)
    out = []
    for _ in range(n):
        k = rnd.randrange(6)
        if k < 2 and tr:
            t = rnd.choice(tr) + rnd.choice([-3601, -3600, -1801, -2, -1, 0, 1, 2, 1800, 3599, 3600, 7200])
        elif k == 2:  # Ends of days, months, years, as the clock on the wall has it.
            y, m = rnd.randint(2000, 2099), rnd.choice([1, 2, 3, 12, rnd.randint(1, 12)])
            d = datetime.datetime(y, m, rnd.choice([1, 1, 28, rnd.randint(1, 28)]), tzinfo=datetime.timezone.utc)
            t = int(d.timestamp()) - int(local(int(d.timestamp()), z).utcoffset().total_seconds()) + rnd.choice([-1, 0, 1, 86399, 86400, 172799])
        elif k == 3:
            t = rnd.choice([LOW, HIGH, 2**31 - 1, 2**31, 2**31 + 1, 951782399, 951782400, 951868800, 4107542400 - 86400]) + rnd.randint(-2, 2)
        else:
            t = rnd.randint(LOW, HIGH)
        out.append(min(max(t, LOW), HIGH))
    return tr, out


def one(job):
    bin, seed, name, n, out = job
    rnd = random.Random("%s %s" % (seed, name))
    path = next((os.path.join(p, name) for p in zoneinfo.TZPATH if os.path.exists(os.path.join(p, name))), "/nonexistent")
    z = datetime.timezone.utc if path == "/nonexistent" else zoneinfo.ZoneInfo(name)
    tr, ts = times(z, rnd, n)
    with open(out + ".times", "w") as f:
        f.write("\n".join(map(str, ts)))
    argv = [bin, "C05", str(seed + len(name)), "0", "0", out]
    extra = {"FYI_TIMES": out + ".times", "FYI_ZONE": path}
    p = subprocess.run(argv, env=env(extra), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
    if p.returncode < 0:
        return name, len(tr), [], "died of signal %d" % -p.returncode, 0
    if p.returncode == 101:
        return name, len(tr), [], "panicked: " + p.stderr.decode(errors="replace")[-500:], 0
    if p.returncode != 0:
        raise CheckError("%s: monitor ended with %d: %s" % (name, p.returncode, p.stderr.decode(errors="replace")[-500:]))
    res = json.load(open(out))
    os.unlink(out)
    bad = res["error"]
    for t, shown in res["rows"]:
        want = local(t, z).strftime("%Y-%m-%d %H:%M:%S")
        if shown != want and not bad:
            bad = "at %d the timestamp was %r, expected %r" % (t, shown, want)
    return name, len(tr), [t for t, _ in res["rows"]], bad, res["opened"]


def timestamps(prop):
    c = Check(prop)
    bin = harness("hmsg")
    zones = sorted(zoneinfo.available_timezones()) + ["No/Such"]
    n = c.secs(400, 6000)
    jobs = [(bin, c.seed, z, n, c.path("z%d.json" % i)) for i, z in enumerate(zones)]
    opened = 0
    with concurrent.futures.ProcessPoolExecutor(CPUS) as ex:
        for name, ntr, rows, bad, op in ex.map(one, jobs, chunksize=4):
            c.evaluations += len(rows)
            c.distinct += len(set(rows))
            c.count("zones")
            c.count("offset changes found", ntr)
            opened += bool(op)
            if bad:
                c.violation("zone %s: %s" % (name, bad), {"zone": name, "seed": c.seed})
            if len(c.samples) < 4 and rows:
                c.samples.append("%s: %s" % (name, rows[:6]))
    c.count("zones read by the library", opened)
    if opened == 0 and not c.violations:
        raise CheckError("the zone file was never read")
    return c.finish("every zone of the system x times at and around its offset changes, ends of days, months and years, 2000 to 2099, mixed with other edits; non-trivial: distinct (zone, time)",
                    minimum=5000, assumptions=["Python's zoneinfo for what the local time is", "/etc/localtime and the real-time clock are replaced inside the monitored process"])


ABOUT = {"C05": ("runtime monitor: recorded timestamps against an independent time zone implementation",
                 "every installed zone, times sampled around all offset changes and calendar edges; other parts watched by the reference model", "exploration")}
CHECKS = {"C05": timestamps}
