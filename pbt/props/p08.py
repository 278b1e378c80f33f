import re
from common import *
from tool import Ctx
from lang import *
from syngen import SynGen

PID = "P08"
TECHNIQUE = "property-based testing: random programs and layouts, unminified output compared as z8lua bytecode and token by token"
NOTE = ("Random search. Structure and names of the unminified code must compile to the same z8lua bytecode as the input, its identifiers, literals "
    "and comments must be the same sequence, and unminifying is idempotent. Trusts z8lua's compiler and an own tokenizer.")
RULE = ("random syntactically valid programs (any layout and comments, or first minified by the tool) are unminified with a random indentation; "
    "non-trivial if the output differs from the input and the program has at least 8 tokens")
ASSUMPTIONS = ["z8lua's compiler is the reference for the statement structure"]
INDENTS = [[], ["--unminify-indent", "tabs"], ["--unminify-indent", "0"], ["--unminify-indent", "1"], ["--unminify-indent", "4"]]

def make_ctx():
    return Ctx()

def program(g, version, size):
    toks = SynGen(g, version=version, cond_funcs=False, paren_names=False, size=size).program()
    # (z8lua compiles 'then break' to a slightly different jump than 'then ; break')
    return [t for t, n in zip(toks, toks[1:] + [None]) if not (t.k == "op" and t.s == ";" and n and n.k == "kw" and n.s in ("break", "goto"))]

def unminify(ctx, code, args, version):
    return process(ctx, code, ["--unminify", *args], version)

def essential(tokens):
    """without the tokens that unminification may add, drop or spell differently"""
    same = {"!=": "~="}
    return [(k, s) for k, s in tokens if not (k == "kw" and s in ("then", "do", "end") or k == "op" and s in "();")]

def check_indent(out, args, d):
    """every line is indented by the number of blocks it's in"""
    i = args.index("--unminify-indent") + 1 if "--unminify-indent" in args else None
    unit = "  " if i is None else "\t" if args[i] == "tabs" else " " * int(args[i])
    spans = []
    tokens = tokenize(out, None, spans)
    if len(spans) < len(tokens): return
    s = out.decode("latin-1")
    depth = 0
    for (k, t, _), (start, end) in zip(tokens, spans):
        if k == "kw" and t in ("end", "else", "elseif", "until"): depth -= 1
        nl = s.rfind("\n", 0, start) + 1
        if not s[nl:start].strip(" \t") and t != ";": # (a semicolon that must stay takes the place of the indentation)
            if s[nl:start] != unit * depth:
                raise Violation("indent", f"the line of {s[nl:end]!r} isn't indented by {depth} levels", line=s.count("\n", 0, start) + 1, **d)
        if k == "kw" and t in ("function", "then", "do", "repeat", "else"): depth += 1

def check_unminified(code, out, args, ref=None, comments=None):
    d = dict(input=code, output=out, args=" ".join(args))
    ref = ref or reference(code)
    outcom = []
    try:
        b = [(k, s) for k, s, _ in tokenize(out, outcom)]
    except LexError as ex:
        raise Violation("tokens", f"output can't be tokenized: {ex}", **d)
    a = toks(code)
    if essential(a) != essential(b):
        raise Violation("tokens", "tokens changed " + first_diff(essential(a), essential(b)), **d)
    if len(b) - len(a) > sum(2 for t in a if t in (("kw", "if"), ("kw", "while"))):
        raise Violation("tokens", "tokens were added", **d)
    res = compiled(out, "output", **d)
    if not same_bytecode(ref, res):
        raise Violation("structure", "statement structure changed", **d)
    if not outcom: check_indent(out, args, d)
    if comments is not None:
        got = [c.rstrip("\n") for c, _, _ in outcom]
        want = [c.rstrip("\n") for c in comments]
        if got != want:
            raise Violation("comments", f"comments changed {want} -> {got}", **d)

def prop_unminify(g, ctx):
    version = pick_version(g)
    args = g.choice(INDENTS)
    prog = program(g, version, g.choice([10, 20]))
    lay = Layout(g)
    code = lay.render(prog)
    ref = reference(code)
    comments = [c for c, _, _ in lay.comments]
    if g.bool(0.25):
        orig = code
        # minify first (only what keeps the bytecode the same)
        margs = ["--no-minify-rename", "--no-minify-consts", "--no-minify-reorder"] + g.choice(FOCUSES)
        code, _ = minify(ctx, code, margs, version)
        ref = compiled(code, "minified code", input=orig, minified=code)
        comments = []
        g.event("minified first")
    out, r = unminify(ctx, code, args, version)
    check_unminified(code, out, args, ref, comments)
    again, r = unminify(ctx, out, args, version)
    # (blank lines aside, and spaces aside where there are comments)
    com1, com2 = [], []
    t1, t2 = tokenize(out, com1), tokenize(again, com2)
    lines = lambda code: [re.sub(rb" +", b" ", l) for l in code.split(b"\n") if l.strip()]
    if [t[:2] for t in t1] != [t[:2] for t in t2] or [c[0].strip() for c in com1] != [c[0].strip() for c in com2] \
            or (not comments and lines(out) != lines(again)):
        raise Violation("idempotent", "unminifying again changes something", input=code, output=out, again=again, args=" ".join(args))
    if comments: g.event("with comments")
    if len(prog) >= 8 and out != code:
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out))

def prop_chain(g, ctx):
    """minify, unminify, minify: every stage compiles to the same code (renaming and reordering disabled)"""
    version = pick_version(g)
    margs = ["--no-minify-rename", "--no-minify-consts", "--no-minify-reorder"]
    prog = program(g, version, 10)
    code = Layout(g).render(prog)
    ref = reference(code)
    f = g.choice(FOCUSES)
    m1, _ = minify(ctx, code, margs + f, version)
    u, _ = unminify(ctx, m1, g.choice(INDENTS), version)
    m2, _ = minify(ctx, u, margs + g.choice(FOCUSES), version)
    for name, c in (("minified", m1), ("unminified", u), ("minified again", m2)):
        res = compiled(c, name, input=code, minified=m1, unminified=u, again=m2)
        if not same_bytecode(ref, res):
            raise Violation("structure", f"the {name} code has another structure", input=code, minified=m1, unminified=u, again=m2, args=" ".join(f))
    if len(prog) >= 8:
        g.mark(code)
        g.sample = dict(input=text(code), minified=text(m1), unminified=text(u))

def ex(code, args=[], version=42):
    def run(ctx):
        out, r = unminify(ctx, code, args, version)
        check_unminified(code, out, args)
    return run

EXAMPLES = [
    ("semicolon-before-paren", ex(b"a=b;(f or g)(x)\n")),
    ("double-minus", ex(b"a=- -b\n")),
    ("index-by-long-string", ex(b"a=b[ [[x]]] c={[ [=[y]=]]=1}\n")),
]
CHECKS = [("unminify", prop_unminify, 4000, 80000), ("chain", prop_chain, 1500, 30000)]
