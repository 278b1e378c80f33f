from common import *
from tool import Ctx
from running import *
from mergegen import MergeGen

PID = "P01"
TECHNIQUE = "property-based testing: random running programs, executed by z8lua before and after safe minification"
NOTE = ("Random search over terminating programs that print what they compute; the safely minified program, under random focus and disabled parts, "
    "must produce the same events (calls of console functions with their arguments), memory and outcome. z8lua stands for the console.")
RULE = ("random typed, terminating programs using _ENV, computed indexes, observing metatables, goto, varargs, coroutines, closures, shorthands and "
    "multiple assignment; non-trivial if the program produced at least 3 events and the minified code differs in tokens")
ASSUMPTIONS = ["z8lua runs programs as the console does", "the arguments of every console function called, the scratch memory and the outcome are the observables"]

def make_ctx():
    return Ctx()

def prop_safe(g, ctx):
    version = pick_version(g)
    gen = RunGen(g, mode="safe", size=g.choice([4, 10, 20, 30]))
    code = gen.program().encode("latin-1")
    api = {"console_locals": False} if g.bool(0.1) else {} # (the console's -global_api)
    ref = reference_run(code, **api)
    args = ["--minify-safe-only"] + g.choice(FOCUSES) + g.subset(DISABLES, 0.12) + ["--global-builtins-only"] * bool(api)
    try:
        out, r = minify(ctx, code, args[1:] + args[:1], version)
    except Violation as v:
        v.details["args"] = " ".join(args)
        raise
    compare_runs(ref, out, run=api, input=code, args=" ".join(args))
    if api: g.event("global api")
    for u in gen.uses: g.event("uses " + u)
    if ref.status == "error": g.event("ends with an error")
    if len(ref.events) >= 3 and toks(out) != toks(code):
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out), events=ref.events[:8])

def prop_merges(g, ctx):
    """programs full of adjacent assignments whose order is visible"""
    version = 42
    gen = MergeGen(g, "safe")
    code = gen.program().encode("latin-1")
    ref = reference_run(code)
    args = ["--minify-safe-only"] + g.weighted([(5, ["--focus-tokens"]), (1, ["--focus-tokens", "--focus-chars"]), (1, []), (1, ["--focus-chars"])]) + g.subset(DISABLES[:-1], 0.08)
    out, r = minify(ctx, code, args, version)
    compare_runs(ref, out, input=code, args=" ".join(args))
    for u in gen.uses: g.event("uses " + u)
    if ref.status == "error": g.event("ends with an error")
    if len(ref.events) >= 3 and toks(out) != toks(code):
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out), events=ref.events[:8])

def probe_bare_local(ctx):
    code = b"function f() return 1,2 end\nlocal a=f()\nlocal b\nprinth(a) printh(b)\nb=3 printh(b)\n"
    out, r = minify(ctx, code, ["--minify-safe-only"])
    return luarun.run(out).events != luarun.run(code).events

FINDINGS = {"bare_local": probe_bare_local}

CHECKS = [("safe", prop_safe, 5000, 150000), ("merges", prop_merges, 4000, 200000)]


def ex(code, *args):
    def run(ctx):
        ref = reference_run(code)
        out, r = minify(ctx, code, ["--minify-safe-only", *args])
        compare_runs(ref, out, input=code, args=" ".join(args))
    return run

EXAMPLES = []
for _n, _c in [
    ("folded-elseif-in-short-while", b"local a=2\nwhile (a>0) a-=1 if a==5 then elseif false then end\nprinth(a)\n"),
    ("folded-elseif-in-short-if", b"local a=2\nif (a>0) if a==5 then elseif a then elseif false then print(2) end\nprinth(a)\n"),
    ("folded-if-in-short-if", b"local a=2\nif (a>0) if nil then print(1) else end print(a)\nprinth(a)\n"),
    ("folded-do-in-short-if", b"local a=2\nif (a>0) if 1 then local b=a print(b) end print(a)\nprinth(a)\n"),
    ("folded-all-in-short-if", b"local a=2\nif (a>9) if a then elseif nil then else print(1) end\nprinth(a)\n"),
]:
    for _a in ([], ["--no-minify-lines"], ["--no-minify-spaces"], ["--no-minify-tokens", "--no-minify-lines"]):
        EXAMPLES.append(("-".join([_n] + _a), ex(_c, *_a)))
