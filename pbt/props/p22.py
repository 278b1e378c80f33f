from common import *
from tool import Ctx
from lang import *
from syngen import SynGen, BINOPS, UNOPS

PID = "P22"
TECHNIQUE = "property-based testing: random programs re-emitted by the tool, compared with the original as z8lua bytecode"
NOTE = ("Random search. Programs z8lua accepts must be accepted; re-emitted unchanged, or with only redundant tokens removed, they must compile to the "
    "same z8lua bytecode including local names. Minified in any way, they must still compile. Nesting is explored up to the depths z8lua itself accepts. z8lua stands for the console.")
RULE = ("random programs over the whole grammar, of any layout, plus expression-heavy and deeply nested ones; non-trivial if z8lua accepts the program "
    "and it has at least 8 tokens")
ASSUMPTIONS = ["z8lua accepts and parses what the console does"]
NOOP = ["--no-minify-rename", "--no-minify-consts", "--no-minify-tokens", "--no-minify-reorder", "--no-minify-spaces", "--no-minify-lines", "--no-minify-comments"]
TOKENS = ["--no-minify-rename", "--no-minify-consts", "--no-minify-reorder"]

def make_ctx():
    return Ctx()

def check_minify(ctx, code, args, version, strict=True):
    ref = reference(code)
    try:
        out, r = minify(ctx, code, args, version)
    except Violation as v:
        v.details["args"] = " ".join(args)
        raise
    d = dict(input=code, output=out, args=" ".join(args))
    res = compiled(out, "output", **d)
    if not same_bytecode(ref, res):
        raise Violation("structure", "the program's structure changed", **d)
    return out

def prop_noop(g, ctx):
    """every part of minification disabled"""
    version = pick_version(g)
    prog = SynGen(g, version=version, size=g.choice([10, 20]), env=g.bool(0.2)).program()
    lay = Layout(g)
    code = lay.render(prog)
    out = check_minify(ctx, code, NOOP + g.choice(FOCUSES), version)
    if toks(out) != toks(code):
        raise Violation("tokens", "tokens changed with everything disabled", input=code, output=out)
    if len(prog) >= 8:
        g.mark(code)
        g.sample = dict(input=text(code), output=text(out))

def prop_tokens(g, ctx):
    """redundant tokens are removed, which must not change what the program is"""
    version = pick_version(g)
    prog = SynGen(g, version=version, size=g.choice([8, 16]), cond_funcs=False, paren_names=False, paren_p=g.choice([0.05, 0.4])).program()
    prog = [t for t, n in zip(prog, prog[1:] + [None]) if not (t.k == "op" and t.s == ";" and n and n.k == "kw" and n.s in ("break", "goto"))]
    code = Layout(g).render(prog)
    args = TOKENS + g.choice(FOCUSES) + g.subset(["--no-minify-spaces", "--no-minify-lines"], 0.15)
    out = check_minify(ctx, code, args, version)
    if len(prog) >= 8 and toks(out) != toks(code):
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out))

def prop_compiles(g, ctx):
    """whatever is minified, the output remains a program"""
    version = pick_version(g)
    prog = SynGen(g, version=version, size=g.choice([8, 16]), cond_funcs=False, env=g.bool(0.2), paren_p=g.choice([0.05, 0.3])).program()
    prog = [t for t, n in zip(prog, prog[1:] + [None]) if not (t.k == "op" and t.s == ";" and n and n.k == "kw" and n.s in ("break", "goto"))]
    code = Layout(g).render(prog)
    reference(code)
    args = g.choice(FOCUSES) + g.choice([[], ["--minify-safe-only"]]) + g.subset(NOOP, 0.12)
    try:
        out, r = minify(ctx, code, args, version)
    except Violation as v:
        v.details["args"] = " ".join(args)
        raise
    compiled(out, "output", input=code, output=out, args=" ".join(args))
    if len(prog) >= 8 and toks(out) != toks(code):
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out))

def prop_exprs(g, ctx):
    """operator soup: random operator sequences with random grouping, whose tree is decided by precedence alone"""
    def operand(d):
        k = g.weighted([(6, 0), (2, 1), (2, 2), (1, 3), (1, 4)])
        if k == 0 or d <= 0: return [ident(g.choice("abcxyz"))]
        if k == 1: return [Tok("num", g.choice(["1", "0x1.8", ".5", "2.", "0b11"]))]
        if k == 2: return [op("(")] + soup(d - 1) + [op(")")]
        if k == 3: return [ident("f"), op("(")] + soup(d - 1) + [op(")")]
        return [op("-")] + [ident("q")]
    def soup(d):
        out = []
        for i in range(g.count(1, 6, 3)):
            if i:
                o = g.choice(BINOPS)[0]
                out.append(kw(o) if o.isalpha() else op(o))
            while g.bool(0.25):
                o = g.choice(UNOPS)
                out.append(kw(o) if o.isalpha() else op(o))
            out += operand(d)
        return out
    toksl = []
    for i in range(g.int(1, 4)):
        toksl += [ident(g.choice("xyz")), op("=")] + soup(3) + [NL()]
    code = Layout(g, style=g.choice(["min", "spaces", None]), comments=0.05).render(toksl) if False else Layout(g).render(toksl)
    for args in (NOOP, TOKENS + g.choice(FOCUSES)):
        out = check_minify(ctx, code, args, 42)
    if len(toksl) >= 8:
        g.mark(code)
        g.sample = dict(input=text(code), output=text(out))

def nest(kind, n, g):
    r = lambda s: (s.encode("latin-1"))
    if kind == "paren": return "x=" + "(" * n + "a" + ")" * n
    if kind == "table": return "x=" + "{" * n + "}" * n
    if kind == "unary": return "x=" + "- " * n + "a"
    if kind == "not": return "x=" + "not " * n + "a"
    if kind == "do": return "do " * n + "a=1 " + "end " * n
    if kind == "if": return "if a then " * n + "b=1 " + "end " * n
    if kind == "while": return "while a do " * n + "b=1 " + "end " * n
    if kind == "function": return "function f() " * n + "b=1 " + "end " * n
    if kind == "lambda": return "x=" + "function() return " * n + "1 " + "end " * n
    if kind == "index": return "x=" + "a[" * n + "1" + "]" * n
    if kind == "call": return "x=" + "f(" * n + "1" + ")" * n
    if kind == "concat": return "x=a" + "..a" * n
    if kind == "pow": return "x=a" + "^a" * n
    if kind == "add": return "x=a" + "+a" * n
    if kind == "and": return "x=a" + " and a" * n
    if kind == "or": return "x=a" + " or a" * n
    if kind == "members": return "x=a" + ".b" * n
    if kind == "calls": return "a" + "()" * n
    if kind == "methods": return "a" + ":b()" * n
    if kind == "elseif": return "if a then b=1 " + "elseif c then b=2 " * n + "end"
    if kind == "list": return "x={" + "1,2,\"a\"," * n + "}"
    if kind == "stmts": return "a=b " * n + "c=d"
    if kind == "locals": return "local a=b " * min(n, 180) + "c=d"
    if kind == "forin": return "for i=1,2 do " * n + "b=1 " + "end " * n
    if kind == "shortif": return "if (a) " * n + "b=1"
    raise KeyError(kind)

# the deepest nesting that z8lua's own limits (200 C levels, 200 locals, 60 upvalues..) allow, or a length for what has no limit there
DEPTHS = {"paren": 190, "table": 190, "unary": 190, "not": 190, "do": 190, "if": 190, "while": 190, "function": 95, "lambda": 60, "index": 60, "call": 190,
    "concat": 190, "pow": 190, "add": 3000, "and": 3000, "or": 3000, "members": 3000, "calls": 3000, "methods": 1000, "elseif": 190, "list": 2000,
    "stmts": 4000, "locals": 180, "forin": 45, "shortif": 190}

def prop_deep(g, ctx):
    kind = g.choice(sorted(DEPTHS))
    n = g.int(1, DEPTHS[kind])
    code = (nest(kind, n, g) + "\n").encode()
    args = g.choice([NOOP, TOKENS, TOKENS + ["--focus-chars"], TOKENS + ["--focus-compressed"]])
    out = check_minify(ctx, code, args, 42)
    g.event(kind)
    if n >= 8:
        g.mark(code + " ".join(args).encode())
        g.sample = dict(kind=kind, depth=n)

def ex(code, args=TOKENS, version=42):
    def run(ctx):
        check_minify(ctx, code, args, version)
    return run

def ex_compiles(code, args=(), version=42):
    def run(ctx):
        out, _ = minify(ctx, code, list(args), version)
        compiled(out, "output", input=code, output=out)
    return run

EXAMPLES = [
    ("return-nothing-at-end", ex(b"a=1 return")),
    ("c-comment-with-include", ex(b"a=1 //[[ x\n--[==[\n#include nothing\n]==] b=2\n")),
    ("print-of-nothing", ex(b"?\na=1\n")),
    ("empty-short-while", ex(b"while not(0 or(a or a))do ; end ? a\n")),
    ("print-without-parens", ex(b"if a then f(function()print{}a.x{1} end)end\n")),
    ("string-lines-in-cond", ex(b"if a==\"\\n\\n\\n\\n\\n\" then b=1 end\n", TOKENS + ["--focus-chars"])),
    ("nested-shorts", ex(b"while{[a]=1}do if a()then end if(b)break else c=1?a\nend d=1 if a then b=1 else if c then end end\n", TOKENS + ["--focus-compressed"])),
]
EXAMPLES += [
    ("constant-prefixes", ex_compiles(b"local b f=b.x b.y=1 b() b:z() max(1,2) c=max(1,2).x d=flr(1):y()\n")),
    ("emptied-short-bodies", ex_compiles(b"if(a) local b\nif(a) local b do local c=f() end\nif(a) if 1==1 then end\nwhile(a) if 1==1 then end\n")),
    ("negative-while", ex_compiles(b"while - 0 do ::l1:: end while -1 do b=1 end\n")),
    ("print-nothing-in-while", ex(b"while(a)print()\nb=1\n", ["--no-minify-rename", "--no-minify-consts", "--no-minify-reorder", "--no-minify-lines"])),
]
CHECKS = [("noop", prop_noop, 3500, 80000), ("tokens", prop_tokens, 4500, 120000), ("exprs", prop_exprs, 3000, 60000),
          ("compiles", prop_compiles, 3000, 100000),
          ("deep", prop_deep, 250, 2500, dict(timeout=60))]
