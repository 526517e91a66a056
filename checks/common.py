"""Shared pieces of the checks: building, running monitors, verdicts, evidence."""
import json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
CPUS = min(8, os.cpu_count() or 4)
CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP)


class CheckError(Exception):
    """The check itself failed: neither held nor violated."""


def env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS"):
        e.pop(k, None)
    e.update(HOME=e.get("HOME", "/root"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", LANG="C.UTF-8", RUST_BACKTRACE="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(extra or {})
    return e


def sh(cmd, timeout=900, cwd=None, extra=None, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env(extra), timeout=timeout, stdin=kw.pop("stdin", subprocess.DEVNULL),
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def cargo(args, timeout=800, extra=None, target=TARGET, cwd=VERIF):
    e = {"CARGO_TARGET_DIR": target}
    e.update(extra or {})
    try:
        r = sh(["cargo"] + args, timeout=timeout, cwd=cwd, extra=e)
    except subprocess.TimeoutExpired:
        raise CheckError("build timed out: " + " ".join(args))
    if r.returncode:
        raise CheckError("build failed: " + " ".join(args) + "\n" + r.stderr.decode(errors="replace")[-4000:])
    return r


def harness(name, bin=None, features=None, default=True, release=False, tag=""):
    """Build a harness crate against /repo's working tree, return the binary's path."""
    target = TARGET + tag
    a = ["build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "harness", name, "Cargo.toml")]
    if not default:
        a.append("--no-default-features")
    if features:
        a += ["--features", features]
    if release:
        a.append("--release")
    cargo(a, target=target)
    return os.path.join(target, "release" if release else "debug", bin or name)


def fyi_bin(target=TARGET):
    """Build the command from /repo's working tree."""
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)  # Not tracked.
    cargo(["--config", os.path.join(VERIF, "harness", "patch.toml"), "build", "--offline", "-p", "fyi",
           "--manifest-path", os.path.join(REPO, "Cargo.toml")], target=target + "/cli")
    return os.path.join(target, "cli", "debug", "fyi")


class Check:
    """One run of one check."""

    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.violations = []      # (signature, description, replay)
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.counts = {}
        self.work = os.path.join(VERIF, "work", "%s.%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVIDENCE, exist_ok=True)

    def secs(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.work, name)

    def violation(self, what, replay=None, sig=None):
        self.violations.append((sig or what, what, replay or {}))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def add(self, res, label="", replay=None):
        """Merge the JSON result of one monitor process."""
        for v in res["violations"]:
            self.violation((label + ": " if label else "") + v["what"], dict(replay or {}, case=v["case"]), v.get("sig"))
        self.evaluations += res["evaluations"]
        self.distinct += res["distinct"]
        for k, n in res["counts"].items():
            self.count(k, n)
        if len(self.samples) < 8:
            self.samples += [((label + ": ") if label else "") + s for s in res["samples"][:3]]

    def monitors(self, jobs, timeout):
        """Run monitor processes side by side. Each job: (label, argv, outfile, env)."""
        procs = []
        for label, argv, out, extra in jobs:
            if os.path.exists(out):
                os.unlink(out)
            err = open(out + ".err", "wb")
            procs.append((label, argv, out, extra, subprocess.Popen(
                argv, env=env(extra), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, cwd=self.work)))
        end = time.time() + timeout
        problem = None
        for label, argv, out, extra, p in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                problem = problem or "%s: monitor did not end within %d s" % (label, timeout)
                continue
            tail = open(out + ".err", "rb").read()[-1500:].decode(errors="replace")
            replay = {"argv": argv, "env": extra or {}, "label": label}
            if p.returncode in (0, 1) and os.path.exists(out):
                res = json.load(open(out))
                if p.returncode == 1 and not res["violations"]:
                    problem = problem or "%s: exit 1 without violation\n%s" % (label, tail)
                self.add(res, label, replay)
            elif p.returncode < 0 and -p.returncode in CRASH:
                self.violation("%s: the process died of signal %d; %s" % (label, -p.returncode, tail), replay)
            else:
                problem = problem or "%s: monitor ended with %s\n%s" % (label, p.returncode, tail)
        if problem and not self.violations:
            raise CheckError(problem)

    def known(self):
        sigs = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS, encoding="utf-8"):
                line = line.strip()
                if line.startswith("known: property=%s " % self.prop):
                    sigs.append(line.split(" ", 2)[2])
        return sigs

    def finish(self, rule, assumptions=(), minimum=1, extra=None):
        known, new, seen = self.known(), [], set()
        for v in self.violations:
            hit = next((k for k in known if k == v[0]), None)
            if hit is None:
                new.append(v)
            elif hit not in seen:
                seen.add(hit)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, hit))
        if not new and self.distinct < minimum:
            raise CheckError("observed too little: %d distinct cases (need %d); %s" % (self.distinct, minimum, self.counts))
        cov = {"evaluations": int(self.evaluations), "distinct_nontrivial": int(self.distinct), "rule": rule,
               "samples": self.samples[:6] or ["none"], "observed": self.counts}
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)
        if new:
            rp = os.path.join(EVIDENCE, self.prop + ".replay.json")
            with open(rp, "w", encoding="utf-8") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "violations": [{"what": w, "replay": r} for _, w, r in new[:20]]}, f, indent=1)
            for _, w, _ in new[:3]:
                print("  " + ascii(w)[1:-1][:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("held: property=%s on %d evaluations (%d distinct), %.1f s" % (self.prop, self.evaluations, self.distinct, time.time() - self.t0))
        return 0
