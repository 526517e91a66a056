"""The same workloads, smaller, under Miri: many more schedules, virtual time, undefined behaviour and data races detected."""
import concurrent.futures, json, os, re, subprocess, time
from .common import CPUS, TARGET, VERIF, CheckError, env, harness

MANIFEST = os.path.join(VERIF, "harness", "hmiri", "Cargo.toml")
FAST = "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-data-race-detector -Zmiri-disable-weak-memory-emulation"
FULL = "-Zmiri-tree-borrows"
RATES = ["0.005", "0.01", "0.03", "0.1", "0.3"]


def command(args):
    return ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--locked", "--manifest-path", MANIFEST, "--"] + [str(a) for a in args]


def launch(args, flags, out=None, timeout=600):
    """One run of the interpreter: (exit code or None, standard error)."""
    e = env({"MIRIFLAGS": flags, "CARGO_TARGET_DIR": TARGET + "-miri", "RUSTFLAGS": "-Awarnings"})
    with open(out or os.devnull, "wb") as o:
        p = subprocess.Popen(command(args), env=e, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.PIPE, cwd=VERIF, start_new_session=True)
        try:
            err = p.communicate(timeout=max(1, timeout))[1]
            return p.returncode, err.decode(errors="replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return None, ""


def build():
    rc, err = launch(["C12", 0, 0, 0, 0], FAST, timeout=800)
    return None if rc == 0 else "Miri: %s %s" % (rc, err[-1500:])


def verdict(rc, err, done):
    """(violation, properties) or (None, note)."""
    if "unsupported operation" in err:
        return None, "unsupported operations"
    for what, props in (("error: Undefined Behavior", ("C22",)), ("the evaluated program deadlocked", None), ("error: deadlock", None),
                        ("terminated without waiting for all remaining threads", ("C16", "C19"))):
        if what in err:
            at = err.index(what)
            return re.sub(r"\s+", " ", err[at:at + 900]), props
    if rc == 3:
        return "a call does not return within minutes of virtual time", None
    if rc == 0 or rc is None or "memory leaked" in err:
        return None, None
    return None, "batches without an answer"


def miri(c, prop, secs, full=False):
    """Batches of cases side by side for some seconds."""
    problem = build()
    if problem:  # The native monitors have decided; nothing to add here.
        c.count("Miri could not be used")
        c.samples.append(problem[:300])
        return
    hrt = harness("hrt")
    end = time.time() + secs

    def worker(k):
        got = []
        n = 0
        while time.time() < end and n < 1000:
            out = c.path("miri%d_%d" % (k, n))
            case = k * 100000 + n * 100
            quiet = full and n % 2 == 1
            flags = "%s -Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (FULL if full and (n % 4 < 2) else FAST, c.seed * 7919 + case, RATES[(k + n) % 5])
            args = [prop, c.seed, case, 12 if full else 25, int(quiet)]
            rc, err = launch(args, flags, out, timeout=end - time.time() + 30)
            replay = {"argv": command(args), "env": {"MIRIFLAGS": flags, "RUSTFLAGS": "-Awarnings"}}
            got.append((out, rc, err, replay))
            n += 1
            if "error:" in err and "memory leaked" not in err:
                break
        return got

    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        results = [x for w in ex.map(worker, range(CPUS)) for x in w]
    distinct = 0
    for out, rc, err, replay in results:
        text = open(out, "rb").read()
        if text:
            j = out + ".json"
            p = subprocess.run([hrt, "judge", prop, out, j], env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            if p.returncode not in (0, 1):
                raise CheckError("judging what was seen under Miri: %s" % p.stderr.decode(errors="replace")[-800:])
            res = json.load(open(j))
            for v in res["violations"]:
                c.violation("Miri: " + v["what"], dict(replay, case=v["case"]))
            c.count("cases under Miri", res["evaluations"])
            for k, n in res["counts"].items():
                c.count(k + " (Miri)", n)
            c.evaluations += res["evaluations"]
            distinct += res["distinct"]
        what, props = verdict(rc, err, b"DONE" in text[-20:])
        if what and (props is None or prop in props):
            c.violation("Miri: " + what, replay)
        elif what or props:
            c.count("Miri: " + (what or props)[:60])
        os.unlink(out)
    c.distinct += distinct
    c.count("batches under Miri, each with a schedule seed of its own", len(results))
