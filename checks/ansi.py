"""C10: macros and colours; a generated program prints what they come to, the documented codes say what they should."""
import json, os, random, re
from .common import TARGET, VERIF, Check, CheckError, cargo, sh

STYLES = {"bold": "1", "dim": "2", "italic": "3", "underline": "4", "blink": "5", "strike": "9",
          "!bold": "21", "!dim": "22", "!italic": "23", "!underline": "24", "!blink": "25", "!strike": "29",
          "reset": "0", "!reset": "0", "!fg": "39"}
SHORT = ["blink", "bold", "dim", "italic", "strike", "underline"]


def snake(s):
    return re.sub(r"([a-z])([A-Z])", r"\1_\2", s).lower()


def code(n):
    return "3%d" % n if n < 8 else "9%d" % (n - 8) if n < 16 else "38;5;%d" % n


def literal(s):
    return '"' + "".join(c if " " <= c <= "~" and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


def build(c, text, stage):
    gen = os.path.join(TARGET, "gen.%d.rs" % os.getpid())
    os.makedirs(TARGET, exist_ok=True)
    try:
        with open(gen, "w") as f:
            f.write(text)
        cargo(["build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "harness", "hansi", "Cargo.toml")], extra={"FYI_GENERATED": gen})
        r = sh([os.path.join(TARGET, "debug", "hansi")], timeout=120)
    finally:
        if os.path.exists(gen):
            os.unlink(gen)
    if r.returncode:
        raise CheckError("%s: the program ended with %d: %s" % (stage, r.returncode, r.stderr.decode(errors="replace")[-500:]))
    return dict((a, bytes.fromhex(b).decode()) for a, b in (l.split("\t") for l in r.stdout.decode().splitlines()))


def program(cases):
    out, fns = [], []
    for k in range(0, len(cases), 200):
        fns.append("fn part%d(out: &mut Vec<u8>) {\n" % k)
        for i, (expr, _) in enumerate(cases[k:k + 200], k):
            fns.append('\t{ const S: &str = %s; row(out, "%d", S); }\n' % (expr, i))
        fns.append("}\n")
        out.append("\tpart%d(out);\n" % k)
    return "".join(fns) + "fn generated(out: &mut Vec<u8>) {\n\tlet _ = &out;\n" + "".join(out) + "}\n"


def ansi(prop):
    c = Check(prop)
    rnd = random.Random(c.seed)
    names = json.load(open(os.path.join(VERIF, "data", "colours.json")))
    # First what is there without any keyword.
    got = build(c, program([]), "colours")
    for n in range(256):
        want = {"name": names[n], "back": str(n), "const": str(n), "str": "\x1b[%sm" % code(n), "display": "\x1b[%sm" % code(n), "eq": str(n), "rel": "ok"}
        want["pad"] = want["str"].rjust(20)
        for k, w in want.items():
            c.evaluations += 1
            g = got["%s/%d" % (k, n)]
            if g != w:
                c.violation("colour %d: %s is %r, documented %r" % (n, k, g, w), {"colour": n})
    for k, w in (("sets", "256 256 true"), ("reset", "\x1b[0m")):
        if got[k] != w:
            c.violation("%s: %r, expected %r" % (k, got[k], w), {})
    # Then every keyword alone and combined.
    keys = dict(STYLES)
    for n in range(256):
        keys[str(n)], keys["!%d" % n] = code(n), "39"
        if not names[n].startswith("Misc"):
            keys[snake(names[n])], keys["!" + snake(names[n])] = code(n), "39"
    all = sorted(keys)
    cases = [("csi!()", "\x1b[0m")]

    def seq(ks):
        return "\x1b[%sm" % ";".join(keys[k] for k in ks)
    for k in all:
        cases.append(("csi!(%s)" % k, seq([k])))
    for a in STYLES:
        for b in STYLES:
            cases.append(("csi!(%s, %s)" % (a, b), seq([a, b])))
    for n in range(256):
        if not names[n].startswith("Misc"):
            cases.append(("csi!(bold, %s)" % snake(names[n]), seq(["bold", snake(names[n])])))
        cases.append(("csi!(%d, !%d)" % (n, n), seq([str(n), "!%d" % n])))
    texts = ["", "x", "Hello World!", "é漢😀", "\x1b[1m", "a\nb", "\x00", "\\\"{}"]
    others = [("1", "1"), ("-2", "-2"), ("true", "true"), ("'c'", "c"), ("2.5", "2.5")]

    def content(depth=0):
        k = rnd.randrange(6)
        if k == 0 and depth < 2:
            return wrapped(depth + 1)
        if k == 1:
            return rnd.choice(others)
        if k == 2:
            ks = [rnd.choice(all) for _ in range(rnd.randint(1, 3))]
            return "csi!(%s)" % ", ".join(ks), seq(ks)
        t = rnd.choice(texts)
        return literal(t), t

    def wrapped(depth=0):
        parts = [content(depth) for _ in range(rnd.randint(1, 3))]
        args, text = ", ".join(p[0] for p in parts) + rnd.choice(["", ","]), "".join(p[1] for p in parts)
        if rnd.random() < 0.5:
            s = rnd.choice(SHORT)
            return "%s!(%s)" % (s, args), seq([s]) + text + "\x1b[0m"
        ks = [rnd.choice(all) if rnd.random() < 0.6 else rnd.choice(sorted(STYLES)) for _ in range(rnd.randint(1, 5))]
        return "ansi!((%s) %s)" % (", ".join(ks), args), seq(ks) + text + "\x1b[0m"
    for s in SHORT:
        cases.append(('%s!("t")' % s, "\x1b[%smt\x1b[0m" % STYLES[s]))
    for _ in range(c.secs(1500, 12000)):
        ks = [rnd.choice(all) if rnd.random() < 0.5 else rnd.choice(sorted(STYLES)) for _ in range(rnd.choice([2, 3, 3, 4, 5, 6, 8, 20]))]
        cases.append(("csi!(%s)" % ", ".join(ks), seq(ks)))
    for _ in range(c.secs(1500, 12000)):
        cases.append(wrapped())
    for part in range(0, len(cases), 8000):
        some = cases[part:part + 8000]
        try:
            got = build(c, program(some), "keywords")
        except CheckError as e:
            # The colours alone were built just now.
            if "no rules expected" in str(e) or "cannot find macro" in str(e):
                c.violation("a documented keyword or form is not accepted: " + str(e)[-700:], {})
                break
            raise
        for i, (expr, want) in enumerate(some):
            c.evaluations += 1
            if got[str(i)] != want:
                c.violation("%s comes to %r, documented %r" % (expr[:300], got[str(i)][:300], want[:300]), {"expression": expr})
    c.distinct = len(set(e for e, _ in cases))
    c.count("keywords", len(all))
    c.count("expressions", len(cases))
    c.samples = [e[:200] for e, _ in rnd.sample(cases, 5)]
    return c.finish("every keyword alone, all pairs of styles, every colour by number, name and type, random combinations, wrappers and nestings; non-trivial: distinct expressions",
                    minimum=2000, assumptions=["data/colours.json: the names documented for the 256 colours"])


ABOUT = {"C10": ("runtime monitor: generated program printing every keyword, colour and random combinations, against the documented codes",
                 "every keyword and colour singly and all pairs of styles; longer combinations sampled", "exploration")}
CHECKS = {"C10": ansi}
