"""helpers shared by the property checks"""
import re
import p8, tool, luarun, lang
from engine import Violation, Discard

VERSIONS = [42, 43, 41, 40, 39, 38, 37, 36, 29]

def pick_version(g):
    return g.weighted([(8, 42), (4, 43), (1, 41), (1, 40), (1, 39), (1, 38), (1, 37), (1, 36), (1, 29)])

FOCUSES = [[], ["--focus-chars"], ["--focus-compressed"], ["--focus-tokens"], ["--focus-tokens", "--focus-chars"], ["--focus-tokens", "--focus-compressed"]]
DISABLES = ["--no-minify-rename", "--no-minify-consts", "--no-minify-spaces", "--no-minify-lines", "--no-minify-comments", "--no-minify-tokens",
            "--no-minify-reorder"]

def text(b):
    return b.decode("latin-1") if isinstance(b, (bytes, bytearray)) else str(b)

def check_ran(r, code=None, allow=(0,)):
    if r.exc:
        last = r.exc.strip().splitlines()[-1]
        raise Violation("crash:" + last.split(":")[0], "internal exception: " + last, input=code, run=r.describe())
    if r.code not in allow:
        raise Violation(f"exit:{r.code}", f"unexpected exit status {r.code}", input=code, run=r.describe())
    return r

def process(ctx, code, args, version=42, allow=(0,), inp="in.p8", out="out.p8"):
    """code (p8scii bytes) -> code of the p8 file that the tool writes"""
    ctx.s.write(inp, p8.write_p8(code, version))
    if ctx.s.exists(out):
        import os
        os.unlink(ctx.s.path(out))
    r = tool.run([ctx.s.path(inp), ctx.s.path(out), *args])
    check_ran(r, code, allow)
    if r.code and not ctx.s.exists(out): return None, r
    return p8.read_code(ctx.s.read(out)), r

def minify(ctx, code, args, version=42, allow=(0,)):
    return process(ctx, code, ["--minify", *args], version, allow)

def compiled(code, what, kind="invalid", **details):
    """canonical bytecode of code that must compile"""
    try:
        return luarun.undump(luarun.dump(code))
    except luarun.CompileError as ex:
        raise Violation(kind, f"{what} does not compile: {ex}", **details)

def reference(code):
    """bytecode of a generated program; programs that the console rejects are outside the domain"""
    try:
        return luarun.undump(luarun.dump(code))
    except luarun.CompileError:
        raise Discard("not a valid program")

def same_bytecode(a, b, names=True):
    return luarun.canon(a) == luarun.canon(b) and (not names or luarun.local_names(a) == luarun.local_names(b))

def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"at {i}: {x!r} vs {y!r}"
    return f"lengths {len(a)} vs {len(b)}"

def toks(code):
    return [(k, s) for k, s, _ in lang.tokenize(code)]
