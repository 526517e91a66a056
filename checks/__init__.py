"""The checks, by property: REGISTRY[id] = function; ABOUT[id] = (technique, note, level)."""

from . import messages, timestamps, ansi, cli, progress, sigint

REGISTRY, ABOUT = {}, {}
for _m in (messages, timestamps, ansi, cli, progress, sigint):
    for _p, _about in _m.ABOUT.items():
        REGISTRY[_p] = _m.CHECKS[_p]
        ABOUT[_p] = _about
