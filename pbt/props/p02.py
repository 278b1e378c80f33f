from common import *
from tool import Ctx
from running import *
from mergegen import MergeGen

PID = "P02"
TECHNIQUE = "property-based testing: random running programs within the documented assumptions, executed by z8lua before and after full minification"
NOTE = ("Random search over terminating programs that print what they compute and that respect the documented assumptions (or state exceptions by hints); "
    "the minified program, under random focus, disabled and safe-only parts, must produce the same events, memory and outcome. z8lua stands for the console.")
RULE = ("random typed, terminating programs with records, methods, closures, varargs, goto, coroutines, shorthands, metatables and multiple assignment; "
    "non-trivial if the program produced at least 3 events and identifiers were renamed or tokens changed")
ASSUMPTIONS = ["z8lua runs programs as the console does", "the arguments of every console function called, the scratch memory and the outcome are the observables"]

def make_ctx():
    return Ctx()

SAFE_PARTS = ["--rename-safe-only", "--reorder-safe-only", "--builtins-safe-only"]
MEMBERS = ["--rename-members-as-globals"]

def prop_full(g, ctx):
    version = pick_version(g)
    gen = RunGen(g, mode="full", size=g.choice([4, 10, 20, 30]))
    code = gen.program().encode("latin-1")
    api = {"console_locals": False} if g.bool(0.1) else {} # (the console's -global_api)
    ref = reference_run(code, **api)
    args = g.choice(FOCUSES) + g.subset(DISABLES, 0.12) + g.subset(SAFE_PARTS, 0.1)
    if g.bool(0.1): args += MEMBERS
    if api: args += ["--global-builtins-only"]
    try:
        out, r = minify(ctx, code, args, version)
    except Violation as v:
        v.details["args"] = " ".join(args)
        raise
    compare_runs(ref, out, run=api, input=code, args=" ".join(args))
    if api: g.event("global api")
    for u in gen.uses: g.event("uses " + u)
    if ref.status == "error": g.event("ends with an error")
    if len(ref.events) >= 3 and toks(out) != toks(code):
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out), events=ref.events[:8])

def prop_merges(g, ctx):
    """programs full of adjacent assignments whose order is visible"""
    version = 42
    gen = MergeGen(g, "full")
    code = gen.program().encode("latin-1")
    ref = reference_run(code)
    args = g.weighted([(5, ["--focus-tokens"]), (1, ["--focus-tokens", "--focus-chars"]), (1, []), (1, ["--focus-chars"])]) + g.subset(DISABLES[:-1], 0.08)
    if g.bool(0.1): args += ["--reorder-safe-only"]
    out, r = minify(ctx, code, args, version)
    compare_runs(ref, out, input=code, args=" ".join(args))
    for u in gen.uses: g.event("uses " + u)
    if ref.status == "error": g.event("ends with an error")
    if len(ref.events) >= 3 and toks(out) != toks(code):
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out), events=ref.events[:8])

def probe_bare_local(ctx):
    code = b"function f() return 1,2 end\nlocal a=f()\nlocal b\nprinth(a) printh(b)\nb=3 printh(b)\n"
    out, r = minify(ctx, code, ["--minify"])
    return luarun.run(out).events != luarun.run(code).events

FINDINGS = {"bare_local": probe_bare_local}

CHECKS = [("full", prop_full, 5000, 150000), ("merges", prop_merges, 4000, 200000)]
