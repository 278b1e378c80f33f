"""differential execution of a program and of what the tool made of it"""
from common import *
from rungen import RunGen
import luarun

def reference_run(code, limit=400, **kw):
    t = luarun.run(code, steplimit=limit, **kw)
    if t.status == "syntax":
        raise Discard("not a valid program")
    if t.limited:
        raise Discard("runs for too long")
    return t

def compare_runs(ref, out, limit=1600, what="output", mem=True, run=None, **details):
    t = luarun.run(out, steplimit=limit, **(run or {}))
    details = dict(details, output=out)
    if t.status == "syntax":
        raise Violation("invalid", f"{what} does not compile: {t.rawmsg}", **details)
    if t.limited:
        raise Violation("endless", f"{what} runs for (much) longer than the original", **details)
    for i, (a, b) in enumerate(zip(ref.events, t.events)):
        if a != b:
            raise Violation("behaviour", f"event {i} is {b[:200]!r} instead of {a[:200]!r}", ref=ref.rawmsg, res=t.rawmsg, **details)
    if len(ref.events) != len(t.events):
        raise Violation("behaviour", f"{len(t.events)} events instead of {len(ref.events)} ({t.status} {t.rawmsg!r} instead of {ref.status} {ref.rawmsg!r})", **details)
    if (ref.status, ref.msg) != (t.status, t.msg):
        raise Violation("behaviour", f"ended with {t.status} {t.rawmsg!r} instead of {ref.status} {ref.rawmsg!r}", **details)
    if mem and ref.mem != t.mem:
        raise Violation("behaviour", "different memory contents", **details)
    return t
