from common import *
from tool import Ctx
from lang import *
from syngen import SynGen
from renaming import check_renamed, BUILTIN_GLOBALS, BUILTIN_MEMBERS

PID = "P05"
TECHNIQUE = "property-based testing: random scoping-heavy programs, renamed output compared as z8lua bytecode (registers, upvalues, keys)"
NOTE = ("Random search over programs with few names (so that shadowing, redeclaration and collisions abound). The binding of every occurrence is "
    "decided by z8lua's compiler: registers and upvalues of the renamed program must be identical, global and member names must map "
    "consistently and injectively, including in code that never runs.")
RULE = ("random syntactically valid programs whose variables, globals, labels and members are drawn from a small pool of names (some equal to "
    "builtins, short or glyph names), renamed under any focus with the rest of minification disabled; non-trivial if at least 3 distinct "
    "identifiers were renamed")
ASSUMPTIONS = ["z8lua's compiler is the reference for scoping", "tables are not indexed by constant strings (documented assumption of full renaming)"]
BASE = ["--no-minify-consts", "--no-minify-tokens", "--no-minify-reorder"]

def make_ctx():
    return Ctx()

POOLS = [None, ["a", "b", "c"], ["a", "b", "c", "d", "e", "f", "x", "y", "i", "t", "s", "n", "o"], ["foo", "bar", "baz", "self"],
         ["a", "foo", "e", "o", "self", "l1"]]

def one(g, ctx, version, args, **opts):
    gen = SynGen(g, version=version, names=g.choice(POOLS), **opts)
    prog = gen.program()
    code = Layout(g, style=g.choice([0, 1]), comments=False).render(prog)
    ref = reference(code)
    out, r = minify(ctx, code, args, version)
    return code, ref, out

def finish(g, code, out, args):
    a, b = toks(code), toks(out)
    renamed = {(x[1], y[1]) for x, y in zip(a, b) if x != y}
    g.event("identifiers renamed", sum(x != y for x, y in zip(a, b)))
    if len(renamed) >= 3:
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out))

def prop_full(g, ctx):
    version = pick_version(g)
    args = BASE + g.choice(FOCUSES) + g.subset(["--no-minify-lines", "--no-minify-spaces"], 0.2)
    code, ref, out = one(g, ctx, version, args, strindex=False, glyphs=g.bool(0.5), size=g.choice([14, 30, 6]))
    check_renamed(code, out, args, ref)
    finish(g, code, out, args)

def prop_safe(g, ctx):
    """safe renaming: members stay, and so do globals if _ENV is used"""
    version = pick_version(g)
    env = g.bool(0.5)
    args = BASE + g.choice(FOCUSES) + [g.choice(["--minify-safe-only", "--rename-safe-only"])]
    code, ref, out = one(g, ctx, version, args, env=env, strindex=True)
    uses_env = any(t == ("id", "_ENV") for t in toks(code))
    check_renamed(code, out, args, ref, members_fixed=True, globals_fixed=uses_env)
    if uses_env: g.event("uses _ENV")
    finish(g, code, out, args)

def prop_many(g, ctx):
    """more identifiers than there are single-character names, many alive at once"""
    n = g.int(20, 190)
    names = [g.choice(["v", "w", "_", "zz"]) + str(i) for i in range(n)]
    lines, pos = [], 0
    declared = []
    while pos < n:
        k = min(g.int(1, 8), n - pos)
        chunk = names[pos:pos+k]
        kind = g.draw(4)
        if kind == 0 and len(declared) + k < 150:
            lines.append("local " + ",".join(chunk)); declared += chunk
        elif kind == 1:
            lines.append("function " + chunk[0] + "(" + ",".join(chunk[1:]) + ") return " + ",".join(chunk) + " end")
        elif kind == 2:
            lines.append(",".join(chunk) + "=" + ",".join(g.choice(names[:pos+k]) for _ in range(k)))
        elif kind == 3:
            lines.append("for " + ",".join(chunk) + " in all{} do print(" + ",".join(g.choice(names[:pos+k]) for _ in range(3)) + ") end")
        else:
            lines.append("do local " + ",".join(chunk) + " function f() return " + ",".join(g.choice(names[:pos+k]) for _ in range(4)) + " end end")
        pos += k
    for _ in range(g.int(0, 20)):
        lines.append(f"{g.choice(names)}.{g.choice(names)}={g.choice(names)}.{g.choice(names)}")
    code = ("\n".join(lines) + "\n").encode()
    args = BASE + g.choice(FOCUSES)
    out, r = minify(ctx, code, args)
    check_renamed(code, out, args)
    finish(g, code, out, args)

def prop_hinted(g, ctx):
    """some variables, members and labels have explicit new names, that the others must stay clear of"""
    version = 42
    gen = SynGen(g, version=version, names=g.choice([["a", "b", "c"], ["foo", "bar", "baz"], ["a", "b", "c", "d", "e", "f", "x", "i", "s", "o"]]), strindex=False, size=g.choice([6, 14, 25]))
    prog = gen.program()
    plain = Layout(g, style=0, comments=False).render(prog)
    ref = reference(plain)
    toks_ = [t for t in prog if t.k == "id" and t.s not in BUILTIN_GLOBALS and t.s not in BUILTIN_MEMBERS and t.s != "self"]
    if not toks_: raise Discard()
    labels = [t for p, t in zip(prog, prog[1:]) if t.b == "label" and p.s == "::"] # (hints are for declarations of labels)
    toks_ = [t for t in toks_ if t.b != "label"] or labels
    uses = {} # (names are made of the most common letters first, so others are the likeliest to get these)
    for t in prog:
        if t.k != "id":
            for ch in t.s: uses[ch] = uses.get(ch, 0) + 1
    common = sorted((ch for ch in uses if ch.isascii() and ch.islower() and ch not in BUILTIN_MEMBERS and ch not in BUILTIN_GLOBALS), key=lambda ch: (-uses[ch], ch))[:4]
    new = g.shuffled(common + g.subset(["zz", "e1"], 0.5)) + ["q", "z", "j", "x1"]
    names = {}
    for i in range(g.int(1, 4)):
        t = g.choice(labels if labels and g.bool(0.5) else toks_)
        if t.s.startswith(" "): continue
        # (several names for a variable, or one for several: only if the labels or variables can share it)
        n = names.setdefault((t.b == "label", t.s), new[0 if g.bool(0.1) else i])
        t.s = f" --[[rename::{n}]]{t.s}"
    code = Layout(g, style=0, comments=False).render(prog)
    args = BASE + g.choice(FOCUSES) + g.subset(["--no-minify-lines", "--no-minify-spaces"], 0.2)
    if not names: raise Discard()
    out, r = minify(ctx, code, args, version, allow=(0, 3))
    if r.code == 3:
        if "conflicts with that of" not in r.err: raise Violation("refused", f"refused: {r.err[:300]}", input=code, args=" ".join(args))
        g.event("conflicting hints"); raise Discard()
    check_renamed(code, out, args, ref)
    if labels: g.event("with labels")
    for (label, old), n in names.items():
        if not any(x == ("id", n) for x in toks(out)): raise Violation("hint", f"nothing is named {n}, although a hint asks for it", input=code, output=out, args=" ".join(args))
    finish(g, code, out, args)

def ex(code, args=BASE):
    def run(ctx):
        out, r = minify(ctx, code, args)
        check_renamed(code, out, args)
    return run

EXAMPLES = [
    ("redeclared", ex(b"local a=1 local b=2 local a=a+b print(a,b) do local a=a b=a end function b() return a end")),
    ("until-scope", ex(b"repeat local q=f() local w=q until q==w or w2 function w2() end")),
]
CHECKS = [("full", prop_full, 7000, 150000), ("safe", prop_safe, 3000, 60000), ("many", prop_many, 500, 10000), ("hinted", prop_hinted, 2500, 60000)]
