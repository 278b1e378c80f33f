from common import *
from tool import Ctx
from running import *
import lang

PID = "P03"
TECHNIQUE = "property-based testing: random constant expressions and programs with constants, evaluated by z8lua with and without folding"
NOTE = ("Random search. On PICO-8 every operator and foldable function is applied to boundary-heavy numbers, strings, booleans and nil; the reference is "
    "z8lua evaluating the same expression with every literal hidden behind a function call, so that nothing folds it. Programs with declared, inferred and "
    "command line constants, in branches of any kind, are executed before and after. On Picotron an own evaluator of Lua 5.4 arithmetic is used.")
RULE = ("random expression trees over constants (depth up to 4), and terminating programs with constant conditions; non-trivial if the tool's output differs "
    "from the input by at least one folded operation")
ASSUMPTIONS = ["z8lua computes as the console does", "Picotron computes as Lua 5.4 does"]

def make_ctx():
    return Ctx()

BIN = {"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "!=": 3, "==": 3, "|": 4, "^^": 5, "&": 6, "<<": 7, ">>": 7, ">>>": 7,
       "<<>": 7, ">><": 7, "..": 8, "+": 9, "-": 9, "*": 10, "/": 10, "\\": 10, "%": 10, "^": 12}
FUNCS = [("abs", 1), ("band", 2), ("bnot", 1), ("bor", 2), ("bxor", 2), ("ceil", 1), ("flr", 1), ("lshr", 2), ("max", 2), ("mid", 3), ("min", 2),
         ("rotl", 2), ("rotr", 2), ("shl", 2), ("shr", 2), ("sgn", 1), ("sqrt", 1), ("max", 1), ("min", 1), ("mid", 2), ("flr", 0)]
EDGES = [0, 1, 0x8000, 0xffff, 0x10000, 0x18000, 0x1ffff, 0x20000, 0xf0000, 0x100000, 0x110000, 0x1f0000, 0x200000, 0x210000, 0x400000, 0x7fff0000,
         0x7fff8000, 0x7fffffff, 0x80000000, 0x80000001, 0x80010000, 0xffff0000, 0xffff8000, 0xfffe0000, 0xffffffff, 0xffe00000, 0xfff00000, 0x0a0000, 0x640000]

def gen_fix(g):
    v = g.weighted([(4, g.choice(EDGES)), (3, g.int(0, 40) << 16), (1, (-g.int(0, 40) << 16) & 0xffffffff), (2, g.int(0, 0xffffffff)), (1, g.int(0, 0xffff))])
    return v

def num_lit(g, v):
    """text of a literal of value v (without a sign), or of a negated one"""
    if v & 0x80000000 and g.bool(0.5):
        w = -v & 0xffffffff
        if w != v: return "-" + num_lit(g, w)
    if not v & 0xffff and g.bool(0.6) and v < 0x80000000: return str(v >> 16)
    if v == 0x8000 and g.bool(0.7): return g.choice(["0.5", ".5"])
    i, f = v >> 16, v & 0xffff
    t = "0x%x" % i
    if f: t += (".%04x" % f).rstrip("0")
    return t

class Folding:
    def __init__(self, g, env):
        self.g, self.env = g, env # env: declared constants: name -> reference text

    def leaf(self, t=None):
        g = self.g
        if self.env and g.bool(0.3):
            n = g.choice(sorted(self.env))
            return n, self.env[n], 20
        t = t or g.weighted([(8, "n"), (3, "s"), (1, "b"), (0.5, "nil")])
        if t == "n":
            s = num_lit(g, gen_fix(g))
            return s, f"id({s})", 11 if s.startswith("-") else 20
        if t == "s":
            v = g.choice([b"", b"a", b"b", b"ab", b"A", b"12", b" 3", b"0x10", b"-1", b"\xff", b"\x80", b"a\0b", b"a\0c", b"\n", b"1.5", b"nan", b"z" * g.int(1, 20)])
            s = lang.esc_string(g, v, False)
            s = s.decode("latin-1") if isinstance(s, bytes) else s
            return s, f"id({s})", 20
        if t == "b":
            s = g.choice(["true", "false"])
            return s, f"id({s})", 20
        return "nil", "id(nil)", 20

    def wrap(self, e, p, strict):
        t, r, q = e
        if q < p or (q == p and strict) or self.g.bool(0.05):
            return "(" + t + ")", "(" + r + ")"
        return t, r

    def expr(self, d, t=None):
        g = self.g
        if d <= 0 or g.bool(0.1): return self.leaf(t)
        k = g.weighted([(8, "bin"), (3, "un"), (3, "fn"), (1, "paren")])
        if k == "bin":
            op = g.choice(sorted(BIN))
            sub = None
            if op in ("and", "or", "==", "~=", "!="): sub = g.choice([None, "n", "s", "b"])
            elif op in ("<", ">", "<=", ">="): sub = g.weighted([(3, "n"), (2, "s"), (0.3, None)])
            elif op == "..": sub = g.weighted([(3, "s"), (2, "n"), (0.3, None)])
            else: sub = g.weighted([(9, "n"), (0.4, "s"), (0.2, None)])
            p = BIN[op]
            right = op in ("..", "^")
            a = self.wrap(self.expr(d - 1, sub), p, right)
            b = self.wrap(self.expr(d - 1, "n" if op == ".." and g.bool(0.3) else sub), p, not right)
            if op == "^" and b[0].startswith("-"): b = ("(" + b[0] + ")", "(" + b[1] + ")")
            return f"{a[0]} {op} {b[0]}", f"{a[1]} {op} {b[1]}", p
        if k == "un":
            op = g.choice(["-", "~", "not ", "#", "- "])
            a = self.wrap(self.expr(d - 1, "s" if op == "#" else g.choice(["n", None]) if op == "not " else "n"), 11, False)
            if a[0][0] == "-" and op == "-" or op == "~" and a[0][0] == "=": op += " "
            return op + a[0], op + a[1], 11
        if k == "fn":
            f, n = g.choice(FUNCS)
            args = [self.expr(d - 1, "n") for _ in range(n)]
            return f"{f}({','.join(a[0] for a in args)})", f"{f}({','.join(a[1] for a in args)})", 20
        a = self.expr(d - 1, t)
        return "(" + a[0] + ")", "(" + a[1] + ")", 20

def prop_exprs(g, ctx):
    env = {}
    src, ref = [], ["local function id(...) return ... end"]
    f = Folding(g, env)
    for i in range(g.int(1, 12)):
        t, r, p = f.expr(g.weighted([(4, 1), (3, 2), (2, 3), (1, 4)]))
        k = g.weighted([(5, "print"), (2, "local"), (1.5, "global"), (1, "index"), (1, "arg"), (1, "ret"), (1, "if")])
        if k == "local" or k == "global":
            n = f"k_{len(env)}"
            src.append(f"--[[$const]] {'local ' if k == 'local' else ''}{n}={t}")
            # the reference evaluates the value in a coroutine, since it may be an error (then both end here)
            ref.append(f"{'local ' if k == 'local' else ''}{n}={r}")
            env[n] = n
            src.append(f"print({n})")
            ref.append(f"print({n})")
            continue
        if k == "print": w = "print(coresume(cocreate(function() return %s end)))"
        elif k == "index": w = "print(coresume(cocreate(function() local t={[1]=2,[\'a\']=3} return t[ %s] end)))"
        elif k == "arg": w = "print(coresume(cocreate(function() return type(%s) end)))"
        elif k == "ret": w = "print(coresume(cocreate(function() return (function() return %s end)() end)))"
        else: w = "print(coresume(cocreate(function() if %s then print(1) elseif not 1 then print(2) else print(3) end end)))"
        src.append(w % t)
        ref.append(w % r)
    code = "\n".join(src).encode("latin-1") + b"\n"
    refcode = "\n".join(ref).encode("latin-1") + b"\n"
    want = reference_run(refcode)
    args = g.choice(FOCUSES) + g.choice([["--minify"], ["--minify-safe-only"], ["--minify-consts-only"], ["--minify", "--no-minify-rename"]])
    out, r = process(ctx, code, args, pick_version(g), allow=(0, 2) if False else (0,))
    d = dict(input=code, args=" ".join(args))
    compare_runs(want, out, **d)
    if sum(1 for t in toks(code) if t[1] in BIN or t[0] == "op") > sum(1 for t in toks(out) if t[1] in BIN or t[0] == "op"):
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out))
        g.event("expressions", len(src))

def prop_programs(g, ctx):
    version = pick_version(g)
    gen = RunGen(g, mode="full", size=g.choice([4, 10, 20]), consts=True, meta=False)
    cli, args = [], []
    gen.scopes.append({})
    for i in range(g.count(0, 3, 1)):
        nm = f"K{i}"
        t = g.choice(["n", "n", "s", "b"])
        kind = g.choice(["const", "const", "default"])
        if t == "n":
            val = g.choice(["1", "0", "2.5", "-3", "0x10", "0x7fff.ffff", "32767", "0b11"])
            opt, a = "--const", val
        elif t == "b":
            val = g.choice(["true", "false"])
            opt, a = "--const", val
        else:
            a = g.choice(["", "x", "v1.2", "a b", 'q"\'', "12", "\\n"])
            val = '"' + a.replace("\\", "\\\\").replace('"', '\\"') + '"'
            opt = "--str-const"
            if g.bool(0.3) and '"' not in a and "\\" not in a: opt, a = "--const", val
        cli.append((nm, val, kind))
        args += [opt, nm, a]
        gen.scopes[0][nm] = gen.scopes[0].get(nm) or __import__("rungen").Var(nm, t, False, True)
    body = gen.program()
    src = "".join(f"--[[$const]] {n}={g.choice(['7', 'true', 'nil', chr(34) + 'dflt' + chr(34)])}\n" for n, v, k in cli if k == "default") + body
    ref = "".join(f"{n}={v}\n" for n, v, k in cli) + body
    code, refcode = src.encode("latin-1"), ref.encode("latin-1")
    want = reference_run(refcode)
    args += g.choice(FOCUSES) + g.choice([["--minify"], ["--minify"], ["--minify-consts-only"], ["--minify", "--no-minify-rename"]]) + \
        g.subset(["--no-minify-spaces", "--no-minify-lines", "--no-minify-comments", "--no-minify-tokens", "--no-minify-reorder"], 0.08)
    try:
        out, r = process(ctx, code, args, version)
    except Violation as v:
        v.details["args"] = " ".join(args)
        raise
    compare_runs(want, out, input=code, args=" ".join(args), reference=refcode)
    if "k_" in body or cli:
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out))

CHECKS = [("exprs", prop_exprs, 3000, 100000), ("programs", prop_programs, 3000, 80000)]

# --- picotron

INT_EDGES = [0, 1, 2, 3, 5, 7, 10, 31, 32, 33, 62, 63, 64, 65, 100, 255, 256, 1000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1,
    10 ** 15, 10 ** 16 + 1, 0x123456789abcdef, (1 << 62), (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1]
FLOATS = ["0.0", "1.0", "0.5", "1.5", "2.0", "2.5", ".1", "0.1", "0.2", "0.3", "3.", "1e15", "1e16", "1e17", "1e21", "1e22", "1e23", "1e100", "1e300", "1e308", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308",
    "1e-3", "1e-5", "1e-7", "123456.789", "0x1p53", "0x.8", "0x1.8p1", "0xap-2", "0x1p63", "0x1p-1074", "9223372036854775807.0", "9223372036854775808", "18446744073709551616", "1e19", "4503599627370495.5", "9007199254740993", "0.1e1",
    "1E+2", "1e-0", "0x1P+4", "1e999", "3.14159265358979", "100.0", "63.0", "64.0", "1e400"]
TRON_BIN = {"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "!=": 3, "==": 3, "|": 4, "~": 5, "^^": 5, "&": 6, "<<": 7, ">>": 7, "..": 8, "+": 9, "-": 9, "*": 10, "/": 10, "//": 10, "\\": 10, "%": 10, "^": 12}
TRON_STRS = [b"", b"a", b"b", b"ab", b"A", b"12", b" 3", b"0x10", b"-1", b"\xff", b"\xc3\xa9", b"\xc3", b"\xa9", "\uffff".encode(), "\U00010000".encode(), b"\xf0", b"a\0b", b"a\0c", b"\n", b"\r", b"1.5", "\u20ac".encode(), b"\xed\xb3\xbf", b"z" * 9]

def tron_num(g):
    k = g.weighted([(4, "edge"), (2, "small"), (1.5, "rand"), (4, "float"), (1.5, "rfloat")])
    if k == "small": return str(g.int(0, 70))
    if k == "edge" or k == "rand":
        v = g.choice(INT_EDGES) if k == "edge" else g.int(0, (1 << 64) - 1) >> g.int(0, 63)
        if v >= 1 << 63 or g.bool(0.3): return ("0x%x" if g.bool() else "0X%X") % v
        return str(v)
    if k == "float": return g.choice(FLOATS)
    m = g.int(0, 1 << g.choice([4, 10, 30, 53]))
    e = g.int(-40, 40) if g.bool(0.8) else g.int(-1080, 970)
    x = abs(float(m) * 2.0 ** max(min(e, 970), -1080))
    return repr(x) if g.bool(0.7) and x < 1e308 else "0x%xp%d" % (m, e)

def tron_str(g, v):
    """a literal of the bytes v, as latin-1 text"""
    k = g.choice(["q", "q", "x", "d", "long"])
    if k == "long" and b"\r" not in v and b"]" not in v and not v.startswith(b"\n"): return "[[" + v.decode("latin-1") + "]]"
    out = ""
    try: v.decode("utf8"); raw = True
    except UnicodeDecodeError: raw = False # (code is utf-8)
    if raw and g.bool(0.2) and v:
        return '"' + "".join("\\u{%x}" % ord(c) for c in v.decode("utf8")) + '"'
    for i, b in enumerate(v):
        c = chr(b)
        if (c.isascii() and c.isprintable() and c not in "\"\\") or (raw and b >= 128 and k == "q"): out += c
        else: out += "\\x%02x" % b if k == "x" else "\\%03d" % b
    return '"' + out + '"'

class TronFolding(Folding):
    def leaf(f, t=None):
        g = f.g
        if f.env and g.bool(0.3):
            n = g.choice(sorted(f.env))
            return n, f.env[n], 20
        t = t or g.weighted([(8, "n"), (3, "s"), (1, "b"), (0.5, "nil")])
        if t == "n":
            s = tron_num(g)
            if g.bool(0.25): return "-" + s, f"id(-{s})", 11
            return s, f"id({s})", 20
        if t == "s":
            s = tron_str(g, g.choice(TRON_STRS))
            return s, f"id({s})", 20
        s = g.choice(["true", "false"]) if t == "b" else "nil"
        return s, f"id({s})", 20

    def expr(f, d, t=None):
        g = f.g
        if d <= 0 or g.bool(0.1): return f.leaf(t)
        k = g.weighted([(8, "bin"), (3, "un"), (2, "fn"), (1, "paren")])
        if k == "bin":
            op = g.choice(sorted(TRON_BIN))
            if op in ("and", "or", "==", "~=", "!="): sub = g.choice([None, "n", "s", "b"])
            elif op in ("<", ">", "<=", ">="): sub = g.weighted([(3, "n"), (2, "s"), (0.3, None)])
            elif op == "..": sub = g.weighted([(3, "s"), (2, "n"), (0.3, None)])
            else: sub = g.weighted([(9, "n"), (0.4, "s"), (0.2, None)])
            p = TRON_BIN[op]
            right = op in ("..", "^")
            a = f.wrap(f.expr(d - 1, sub), p, right)
            b = f.wrap(f.expr(d - 1, "n" if op == ".." and g.bool(0.3) else sub), p, not right)
            if op == "^" and b[0].startswith("-"): b = ("(" + b[0] + ")", "(" + b[1] + ")")
            return f"{a[0]} {op} {b[0]}", f"{a[1]} {op} {b[1]}", p
        if k == "un":
            op = g.choice(["-", "~", "not ", "#", "- "])
            a = f.wrap(f.expr(d - 1, "s" if op == "#" else g.choice(["n", None]) if op == "not " else "n"), 11, False)
            if a[0][0] == "-" and op == "-": op += " "
            return op + a[0], op + a[1], 11
        if k == "fn":
            fn = g.choice(["abs", "ceil", "flr", "max", "min", "mid"])
            if fn in ("abs", "ceil", "flr"): args = [f.expr(d - 1, "n")]
            else:
                # (what a mixture of equal integers and floats gives isn't settled; nor is the sign of zero)
                ints = g.bool()
                args = []
                for _ in range(3 if fn == "mid" else 2):
                    s = str(g.int(0, 40)) if ints else g.choice(["1.5", "2.0", "0.25", "1e300", "7.0", "1e20"])
                    if g.bool(0.4) and s != "0": s = "-" + s
                    args.append((s, f"id({s})", 20))
            return f"{fn}({','.join(a[0] for a in args)})", f"{fn}({','.join(a[1] for a in args)})", 20
        a = f.expr(d - 1, t)
        return "(" + a[0] + ")", "(" + a[1] + ")", 20

def prop_tron(g, ctx):
    import lua54
    env = {}
    src, ref = [], ["local function id(...) return ... end"]
    f = TronFolding(g, env)
    args = []
    for i in range(g.count(0, 2, 0.5)): # constants of the command line
        n = f"KK{i}"
        if g.bool(0.7):
            v = g.choice([g.choice(FLOATS), tron_num(g), "-" + str(g.int(0, 300)), "true", "false", "nil"])
            args += ["--const", n, v]
            ref.append(f"local {n}={v}")
        else:
            v = g.choice(["", "x", "a b", "12", "\u20ac", "\\", "nil", '"'])
            args += ["--str-const", n, v]
            ref.append(f"local {n}=" + tron_str(g, v.encode("utf8")))
        env[n] = n
    for i in range(g.int(1, 12)):
        t, r, p = f.expr(g.weighted([(4, 1), (3, 2), (2, 3), (1, 4)]))
        k = g.weighted([(5, "print"), (2, "const"), (1, "attr"), (1, "index"), (1, "ret"), (1, "if"), (0.7, "cat")])
        if k == "const" or k == "attr":
            n = f"k_{len(env)}"
            # (an error ends both)
            how = g.choice(["--[[$const]] local ", "--[[$const]] "])
            src.append(f"local {n} <const> ={t}" if k == "attr" else f"{how}{n}={t}")
            ref.append(f"local {n} ={r}" if k == "attr" or how.endswith("local ") else f"{n}={r}")
            env[n] = n
            src.append(f"print({n})")
            ref.append(f"print({n})")
            continue
        if k == "print": w = "print(pcall(function() return %s end))"
        elif k == "cat": w = "print(pcall(function() return (%s)..'|'..1 end))"
        elif k == "index": w = "print(pcall(function() local t={[1]=2,[\'a\']=3,[true]=5,[0.5]=6} return t[ %s] end))"
        elif k == "ret": w = "print(pcall(function() return (function() return %s end)() end))"
        else: w = "print(pcall(function() if %s then print(1) elseif not 1 then print(2) else print(3) end end))"
        src.append(w % t)
        ref.append(w % r)
    code = "\n".join(src).encode("latin-1") + b"\n"
    refcode = "\n".join(ref).encode("latin-1") + b"\n"
    want = lua54.run(refcode)
    if want.status == "syntax": raise RuntimeError("the check's own program is invalid: " + want.msg + refcode.decode("latin-1"))
    args += g.choice([["--minify"], ["--minify-safe-only"], ["--minify-consts-only"], ["--minify", "--no-minify-rename"]])
    ctx.s.clear()
    ctx.s.write("in.lua", code)
    r = tool.run([ctx.s.path("in.lua"), ctx.s.path("out.lua"), *args], "picotron")
    d = dict(input=code, args=" ".join(args))
    if r.exc or r.code: check_ran(r, code)
    out = ctx.s.read("out.lua")
    got = lua54.run(out)
    d["output"] = out
    if got.status == "syntax": raise Violation("invalid", f"the output is not valid: {got.msg}", **d)
    for a, b in zip(want.events, got.events):
        if a != b and not (a.startswith("print bool:false") and b.startswith("print bool:false")): raise Violation("value", f"printed {b[:150]!r} instead of {a[:150]!r}", **d)
    if len(want.events) != len(got.events) or want.status != got.status: raise Violation("value", f"{len(got.events)} events and {got.status} {got.msg} instead of {len(want.events)} and {want.status} {want.msg}", **d)
    ops = lambda c: sum(c.count(o) for o in (b"+", b"*", b"/", b"%", b"<<", b"..", b"&", b"|", b"=="))
    if ops(code) > ops(out):
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out))
        g.event("expressions", len(src))

CHECKS.append(("tron", prop_tron, 3000, 80000))
