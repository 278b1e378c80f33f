from common import *
from tool import Ctx
from lang import *
from syngen import SynGen

PID = "P07"
TECHNIQUE = "property-based testing: random programs and layouts, compared token by token and as z8lua bytecode"
NOTE = ("Random search. The generated programs cover every statement and expression form; trusts an own tokenizer (checked against the "
    "generator's own token lists) and z8lua's compiler as the reference for structure.")
RULE = ("random syntactically valid programs (all statement and expression forms, goto, short forms, all literal spellings), laid out with random "
    "white space, line breaks and comments, go through the command line with renaming, constants, tokens and reordering disabled and a random "
    "subset of space/line/comment removal; a case is non-trivial if the output differs from the input and the program has at least 8 tokens")
ASSUMPTIONS = ["z8lua's compiler is the reference for the statement structure (bytecode is compared, without line numbers)"]
BASE = ["--no-minify-rename", "--no-minify-consts", "--no-minify-tokens", "--no-minify-reorder"]

def make_ctx():
    return Ctx()

def gen_program(g, version=42, **opts):
    gen = SynGen(g, version=version, **opts)
    return gen.program()

def check_same(code, out, args, names=True):
    ref = reference(code)
    a, b = toks(code), None
    try:
        b = toks(out)
    except LexError as ex:
        raise Violation("tokens", f"output can't be tokenized: {ex}", input=code, output=out, args=" ".join(args))
    if a != b:
        raise Violation("tokens", "token sequence changed " + first_diff(a, b), input=code, output=out, args=" ".join(args))
    res = compiled(out, "output", input=code, output=out, args=" ".join(args))
    if not same_bytecode(ref, res, names):
        raise Violation("structure", "statement structure changed", input=code, output=out, args=" ".join(args))

def norm_comment(c):
    return c.rstrip("\n")

def prop_layout(g, ctx):
    version = pick_version(g)
    args = BASE + g.choice(FOCUSES) + g.subset(["--no-minify-spaces", "--no-minify-lines", "--no-minify-comments"], 0.35)
    prog = gen_program(g, version)
    lay = Layout(g, keep=0.4)
    code = lay.render(prog)
    out, r = minify(ctx, code, args, version)
    check_same(code, out, args)
    incom, outcom = [], []
    intoks = tokenize(code, incom)
    outtoks = tokenize(out, outcom)
    # comments
    got = [c for c, _, _ in outcom]
    if "--no-minify-comments" in args:
        want = [src for src, _, _ in lay.comments]
    else:
        want = [short for _, short, kept in lay.comments if kept]
    if canon_comments(got) != canon_comments(want):
        raise Violation("comments", f"comments changed: {want} -> {got}", input=code, output=out, args=" ".join(args))
    if want: g.event("with comments in output")
    # position of the comments among the tokens
    if "--no-minify-comments" in args:
        wantpos = [i for _, _, i in incom]
    else:
        wantpos = [i for (_, _, i), (_, _, kept) in zip(incom, lay.comments) if kept]
    if [i for _, _, i in outcom] != wantpos:
        raise Violation("comment position", "a comment moved to another token", input=code, output=out, args=" ".join(args))
    # lines
    if "--no-minify-lines" in args or "--no-minify-spaces" in args:
        kept_lines(prog, code, out, intoks, outtoks, incom, args)
        g.event("line checks")
    if len(intoks) >= 8 and out != code:
        g.mark(code + b"\0" + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out))

def canon_comments(cs):
    """a comment in the middle of a short form may have to become a block comment; only its body counts then"""
    out = []
    for c in cs:
        body = c
        m = re.match(r"--\[(=*)\[", c)
        if m:
            body = c[m.end():-len(m.group(1)) - 2]
        else:
            body = c[2:]
        out.append(re.sub(r"\n\s*", " ", body.rstrip("\n")))
    return out

def kept_lines(prog, code, out, intoks, outtoks, incom, args):
    """tokens separated by a line break outside of any block comment remain separated by one"""
    multi = set()
    for c, line, i in incom:
        if "\n" in c: multi.add(i)
    real = [t for t in prog if t.k != "nl"]
    for i in range(1, len(intoks)):
        a_end = intoks[i-1][2] + intoks[i-1][1].count("\n")
        o_end = outtoks[i-1][2] + outtoks[i-1][1].count("\n")
        if intoks[i][2] > a_end and i not in multi and outtoks[i][2] <= o_end:
            raise Violation("lines", f"line break before token {i} ({intoks[i][1]!r}) was lost", input=code, output=out, args=" ".join(args))

def ex(code, args, version=42):
    def run(ctx):
        out, r = minify(ctx, code, args, version)
        check_same(code, out, args)
    return run

EXAMPLES = [
    ("return-at-eof", ex(b"x=1 return\n", BASE)),
    ("unclosed-bracket-in-c-comment", ex(b"x=1 // [[ ]\ny=2\n", BASE)),
]

# hand-picked pairs of adjacent tokens, exhaustively combined in a minimal program
def prop_pairs(g, ctx):
    """any two tokens, next to each other in any way the grammar allows, must not fuse or change"""
    nums = ["1", "1.", ".5", "0x1", "0x.8", "0xf", "0b1", "0b1.1", "1.5", "0", "00", "0x1."]
    unary = ["-", "~", "not ", "#", "@", "%", "$", "- -", "~~", "-~", "@-", "%%", "$ $"]
    binary = [b for b, _ in __import__("syngen").BINOPS]
    words = ["a", "b", "x", "e", "bf", "x1", "\x80", "_", "f0", "p"]
    strs = ["'s'", '"d"', "[[l]]", "[=[m]=]"]
    def operand():
        k = g.draw(5)
        if k == 0: return g.choice(words)
        if k == 1: return g.choice(nums)
        if k == 2: return g.choice(strs)
        if k == 3: return "{" + g.choice(["", "1", "a"]) + "}"
        if k == 4: return "..."
        return g.choice(["(a)", "a.b", "a[b]", "a[ [[k]]]", "f()", "f'x'", "f[[x]]", "a:m()", "nil", "true"])
    def expr():
        s = g.choice(unary) if g.bool(0.3) else ""
        s += " " + operand()
        if g.bool(0.6):
            s += " " + g.choice(binary) + " " + (g.choice(unary) if g.bool(0.3) else "") + " " + operand()
        return s
    def stmt():
        k = g.draw(12)
        if k == 0: return f"x = {expr()}"
        if k == 1: return f"local x = {expr()}"
        if k == 2: return f"if ( {expr()} ) x = {expr()}\n"
        if k == 3: return f"if {operand()} then x = {expr()} end" if True else ""
        if k == 4: return f"? {expr()}\n"
        if k == 5: return f"for i = {expr()} , {expr()} do break end"
        if k == 6: return f"x {g.choice(['+=','-=','..=','^=','>><=','<<>=','>>>=','^^=','|='])} {expr()}"
        if k == 7: return f"f {g.choice(strs)}"
        if k == 8: return f"while ( {expr()} ) x = {expr()} break\n"
        if k == 9: return f"if not {operand()} then f() else x = {expr()} end"
        if k == 10: return f"do ::l:: if ( a ) goto l\n end"
        if k == 11: return f"repeat x = {expr()} until {operand()}"
        return f"x [ {expr()} ] = {expr()}"
    code = " ".join(stmt() for _ in range(g.int(1, 4))).encode("latin-1") + b"\n"
    args = BASE + g.choice(FOCUSES) + g.subset(["--no-minify-lines"], 0.2)
    reference(code)
    out, r = minify(ctx, code, args)
    check_same(code, out, args)
    g.mark(code)
    g.sample = dict(input=text(code), output=text(out))

CHECKS = [("layout", prop_layout, 6000, 120000), ("pairs", prop_pairs, 9000, 200000)]
