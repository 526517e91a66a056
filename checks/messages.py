"""C01-C04, C08, C09, C23: monitors stepping messages next to reference models."""
from .common import Check, harness

RULES = {
    "C01": "random message constructions followed by up to ~20 random part edits with hostile text, every view compared with a part-wise model after each step; non-trivial: distinct histories",
    "C02": "as C01 with formatting removed in between, against an independent scanner; non-trivial: distinct histories",
    "C03": "all kinds x one-step constructors x labels, all 256 colours x label forms, plus random labels; non-trivial: distinct label/kind/colour cases",
    "C04": "pairs of differently built messages and their texts, all supported types on both sides, and lookups in collections; non-trivial: distinct pairs",
    "C08": "hostile texts, measured and cut at every width from 0 past their own; non-trivial: distinct texts with a visible character",
    "C09": "hostile multi-line texts and messages fit to every width from 0 past their own; non-trivial: distinct texts that something is cut from",
    "C23": "boundary and random pairs of 64-bit sizes against exact integer arithmetic, and suffixes put on random messages; non-trivial: distinct pairs with a difference",
}

def messages(prop):
    c = Check(prop)
    both = prop in ("C01", "C02", "C03", "C04")
    n = 10**9
    secs = c.secs(12, 240)
    full = harness("hmsg")
    jobs = [("dev", [full, prop, str(c.seed), str(n), str(secs), c.path("full.json")], c.path("full.json"), None)]
    c.monitors(jobs, secs * 4 + 120)
    if both:
        mini = harness("hmsg", default=False, release=True, tag="-min")
        c.monitors([("release, no features", [mini, prop, str(c.seed + 1000), str(n), str(max(4, secs // 2)), c.path("min.json")], c.path("min.json"), None)], secs * 4 + 120)
    return c.finish(RULES[prop], minimum=200, assumptions=[
        "the reference model and escape scanner in harness/hmsg and harness/hcommon",
        "unicode-width's column counts (shared with the library) are taken as the definition of a character's width"])


_NOTE = ("held on the generated executions only (%s); a monitor steps the real objects and an independent reference model "
         "side by side and compares every observable after each step. Trusts the reference model in /verif/harness.")
ABOUT = {
    "C01": ("runtime monitor: reference model stepped beside the real message", _NOTE % "millions of random edit histories per run", "exploration"),
    "C02": ("runtime monitor: reference scanner and model stepped beside the real message", _NOTE % "millions of random histories with hostile escape sequences", "exploration"),
    "C03": ("runtime monitor: full kind x colour grid and random labels against an independent table", _NOTE % "the full grid of kinds, colours and label forms plus random labels", "exploration"),
    "C04": ("runtime monitor: relational oracle over pairs of messages and texts", _NOTE % "millions of pairs", "exploration"),
    "C08": ("runtime monitor: reference measurer and defining inequalities", _NOTE % "millions of hostile texts, every width", "exploration"),
    "C09": ("runtime monitor: reference fitter", _NOTE % "millions of hostile texts, every width", "exploration"),
    "C23": ("runtime monitor: exact arithmetic oracle", _NOTE % "boundary and random pairs", "exploration"),
}
CHECKS = {p: messages for p in ABOUT}
