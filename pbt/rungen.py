"""Random *running* programs: typed, scoped, terminating, and observing what they compute.

mode "full": the program respects the documented assumptions of full minification; mode "safe": it may do anything.
lang "pico8" or "tron": the latter are programs in Picotron's dialect of lua 5.4.
The text is made of statements separated by spaces or line breaks; layout itself is the business of other checks.
"""

NAMES = ["a", "b", "c", "i", "x", "self", "foo", "e", "n", "_", "o", "l"]
BUILTIN_NAMES = ["max", "t", "print_", "flr2", "color", "rnd", "cls", "sub2", "count", "band"]
FIELDS = ["x", "y", "a", "n", "foo", "hp", "self", "i", "print", "add", "max", "len"]
METHODS = ["upd", "go", "m", "get", "sub", "del"]

class Var:
    __slots__ = ("name", "type", "local", "ro", "mode")
    def __init__(self, name, type, local, ro=False):
        self.name, self.type, self.local, self.ro = name, type, local, ro

PREC = {"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "!=": 3, "==": 3, "|": 4, "^^": 5, "&": 6, "<<": 7, ">>": 7, ">>>": 7, "<<>": 7,
        ">><": 7, "..": 8, "+": 9, "-": 9, "*": 10, "/": 10, "\\": 10, "//": 10, "%": 10, "~": 5, "^": 12}
UNARY, ATOM = 11, 20
RIGHT = {"..", "^"}

class Fn:
    def __init__(self, vararg, ret):
        self.vararg, self.ret = vararg, ret
        self.loop = 0
        self.labels = []

class RunGen:
    def __init__(self, g, mode="full", lang="pico8", size=10, focus_tokens=False, hints=False, callbacks=True, meta=True, coroutines=True, shorts=True, names=None, consts=False):
        self.g, self.mode, self.lang, self.size = g, mode, lang, size
        self.safe = mode == "safe"
        self.pico = lang == "pico8"
        self.names, self.builtin_names = list(names or NAMES), BUILTIN_NAMES
        self.callbacks, self.meta, self.coroutines = callbacks, meta, coroutines
        self.shorts = shorts
        self.consts, self.nconsts = consts, 0
        self.scopes = [{}] # innermost last; scopes[0] holds globals
        self.fn = Fn(True, None)
        self.depth = 0 # nesting of statements
        self.certain = True # the statement is executed exactly once, at the top level
        self.oneline = 0
        self.methods = 0 # nesting of methods
        self.budget = size
        self.cost = 0
        self.nlabels = 0
        self.uses = set()
        nshapes = g.count(1, 3, 1.6)
        self.shapes = []
        fields = list(FIELDS)
        for i in range(nshapes):
            sh = {}
            for _ in range(g.int(1, 4)):
                f = g.choice(fields)
                sh[f] = g.weighted([(5, "n"), (2, "s"), (1, "b"), (1, "a")])
            if g.bool(0.6):
                sh[g.choice(METHODS)] = ("m", i)
            if i and g.bool(0.3):
                sh[g.choice(["sub", "obj", "next", "o"])] = ("o", i - 1)
            self.shapes.append(sh)

    # --- names

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]

    def visible(self, type=None, assign=False):
        seen, out = set(), []
        for s in reversed(self.scopes):
            for name, v in s.items():
                if name in seen: continue
                seen.add(name)
                if (type is None or v.type == type) and not (assign and v.ro):
                    out.append(v)
        return sorted(out, key=lambda v: v.name)

    def pickvar(self, type, assign=False):
        vs = self.visible(type, assign)
        return self.g.choice(vs) if vs else None

    def newname(self):
        g = self.g
        if g.bool(0.05):
            return g.choice(self.builtin_names)
        n = g.choice(self.names)
        if g.bool(0.12):
            n += str(g.int(1, 3))
        return n

    def declare(self, name, type, local=True, ro=False):
        v = Var(name, type, local, ro)
        (self.scopes[-1] if local else self.scopes[0])[name] = v
        return v

    def newtype(self, simple=False):
        g = self.g
        t = g.weighted([(6, "n"), (3, "s"), (2, "b"), (2, "a"), (2, "o"), (2, "f"), (1, "any")])
        if simple and t in ("f", "any"): t = "n"
        if t == "o": return ("o", g.draw(len(self.shapes) - 1))
        if t == "f": return ("f", g.choice(["nn", "nn2", "v", "s", "0"]))
        return t

    # --- expressions (text, precedence)

    def wrap(self, e, prec, strict=False):
        t, p = e
        if p < prec or (strict and p == prec) or self.g.bool(0.06):
            return "(" + t + ")"
        return t

    def ex(self, type, d=None):
        return self.expr(type, self.g.int(0, 3) if d is None else d)[0]

    def arg(self, type, d=2):
        return self.wrap(self.expr(type, d), 0)

    def binop(self, op, a, b):
        p = PREC[op]
        l = self.wrap(a, p, op in RIGHT)
        r = self.wrap(b, p, op not in RIGHT)
        if op == "^" and b[1] == UNARY and r == b[0]:
            r = "(" + r + ")"
        return f"{l} {op} {r}", p

    def unop(self, op, a):
        t = self.wrap(a, UNARY)
        if op in "-~" and t.startswith(op): t = "(" + t + ")"
        return (op + (" " if op == "not" else "") + t, UNARY)

    def num(self):
        g = self.g
        k = g.weighted([(6, 0), (2, 1), (1, 2), (1, 3)])
        if k == 0: return str(g.int(0, 10))
        if k == 1: return g.choice(["0.5", "1.25", ".75", "100", "255", "0x10", "32767", "16384"] if self.pico else ["0.5", "1.25", ".75", "100", "255", "0x10", "1e3", "65535", "1.0"])
        if k == 2: return g.choice(["0x0.0001", "0x7fff.ffff", "0b101", "0x8000", "32767.9999", "1.0"] if self.pico else ["1000000", "0xffff", "0x1p4", "0x.8", "0x7fffffffffffffff", "9007199254740993", "1e300", "3.0", "0b101", "1e-3"])
        return str(g.int(0, 255))

    def string(self):
        g = self.g
        s = g.choice(["", "a", "x", "hi", "foo", "12", "3", "key", "a b", "\\n", "1,2,3", "self", "add"])
        q = g.choice(['"', "'"])
        return q + s + q

    def prefix(self, e):
        """an expression usable before . [ : ("""
        t, p = e
        return t if p == ATOM and not t[0] in "{\"'0123456789.f" or (p == ATOM and self.isname(t)) else "(" + t + ")"

    def isname(self, t):
        return t.replace("_", "a").isalnum() and not t[0].isdigit() and t not in ("true", "false", "nil")

    def expr(self, type, d):
        g = self.g
        if isinstance(type, tuple):
            return self.expr_func(type[1], d) if type[0] == "f" else self.expr_obj(type[1], d) if type[0] == "o" else self.expr_method(type[1], d)
        return getattr(self, "expr_" + type)(d)

    def ternary(self, type, d):
        """a and/or choice, for types that are never falsy"""
        c = self.wrap(self.expr("b", d - 1), 2)
        x = self.wrap(self.expr(type, d - 1), 2, True)
        y = self.wrap(self.expr(type, d - 1), 1, True)
        return f"{c} and {x} or {y}", 1

    def var_or(self, type, default):
        v = self.pickvar(type)
        return (v.name, ATOM) if v else default()

    def member(self, type, d):
        """something of the type that is in an object"""
        cands = [(i, f) for i, sh in enumerate(self.shapes) for f, t in sh.items() if t == type]
        if not cands: return None
        i, f = self.g.choice(cands)
        vs = self.visible(("o", i))
        if not vs: return None
        v = self.g.choice(vs)
        return self.index(v.name, f), ATOM

    def index(self, obj, field):
        g = self.g
        if self.safe and g.bool(0.15):
            self.uses.add("string index")
            return g.choice([f'{obj}["{field}"]', f"{obj}['{field}']", f'{obj}["{field[:1]}".."{field[1:]}"]'])
        return f"{obj}.{field}"

    def call(self, sig, d):
        """text of a call to a function of the signature"""
        g = self.g
        vs = self.visible(("f", sig))
        if not vs or self.cost > 60: return None
        f = g.choice(vs).name
        self.cost += 3
        return self.callargs(f, sig, d)

    def callargs(self, f, sig, d):
        g = self.g
        if sig == "s":
            if g.bool(0.15): return f + " " + self.string()
            return f"{f}({self.arg('s', d - 1)})"
        if sig == "0": return f + "()"
        if sig == "v":
            n = g.int(0, 3)
            args = [self.arg("n", d - 1) for _ in range(n)]
            if self.fn.vararg and g.bool(0.2): args.append("...")
            return f"{f}({','.join(args)})"
        args = [self.arg("n", d - 1)]
        if sig == "nn2":
            c = self.call("nn2", d - 1) if g.bool(0.1) else None
            args.append(c or self.arg("n", d - 1))
        elif g.bool(0.05): args.append(self.arg("s", 0))
        return f"{f}({','.join(args)})"

    def expr_n(self, d):
        g = self.g
        if d <= 0:
            return self.var_or("n", lambda: (self.num(), ATOM)) if g.bool(0.65) else (self.num(), ATOM)
        k = g.weighted([(5, "leaf"), (6, "bin"), (2, "un"), (2, "len"), (2, "idx"), (3, "mem"), (3, "call"), (2, "method"), (2, "builtin"), (1, "tern"), (1, "vararg"), (1, "tonum"), (1, "paren")])
        if k == "bin":
            ops = ["+", "-", "*", "+", "-", "%", "&", "|", "^^", "<<", ">>", "/", "\\"] + ([">>>", "<<>", ">><", "^"] if self.pico else [])
            if not self.pico: ops = ["+", "-", "*", "+", "-", "/", "^", "%", "\\", "//", "&", "|", "^^", "~", "<<", ">>"]
            op = g.choice(ops)
            if not self.pico:
                if op in ("&", "|", "^^", "~", "<<", ">>"): return self.binop(op, self.expr_i(d - 1), self.expr_i(d - 1))
                if op in ("%", "\\", "//") and g.bool(0.9): return self.binop(op, self.expr("n", d - 1), (g.choice(["2", "3", "7", "0.5", "10", "1.5"]), ATOM))
            return self.binop(op, self.expr("n", d - 1), self.expr("n", d - 1))
        if k == "un":
            if self.pico and g.bool(0.2): return self.unop(g.choice(["~", "@", "%", "$"]), self.expr("n", d - 1))
            if not self.pico and g.bool(0.2): return self.unop("~", self.expr_i(d - 1))
            return self.unop("-", self.expr("n", d - 1))
        if k == "len":
            t = g.choice(["a", "s"])
            return "#" + self.wrap(self.expr(t, d - 1), ATOM), UNARY
        if k == "idx":
            return f"({self.prefix(self.expr('a', d - 1))}[{self.arg('n', d - 1)}] or {self.num()})", ATOM
        if k == "mem":
            r = self.member("n", d)
            if r: return r
        if k == "call":
            sig = g.choice(["nn", "nn2", "v"])
            r = self.call(sig, d)
            if r: return (r, ATOM) if sig == "nn" or g.bool(0.4) else ("(" + r + ")", ATOM)
        if k == "method":
            r = self.methodcall(d)
            if r: return r, ATOM
        if k == "builtin" and not self.pico:
            b = g.choice(["flr", "abs", "max", "min", "mid", "sgn", "ceil", "select", "count", "rnd", "ord", "math", "tonumber"])
            if self.lookup(b) is None:
                if b == "ord": return f"(ord({self.arg('s', d - 1)}) or 0)", ATOM
                if b == "rnd": return "rnd(1)", ATOM # a stub
                if b == "count": return f"count({self.arg('a', d - 1)})", ATOM
                if b == "math": return f"math.{g.choice(['floor', 'abs', 'max', 'ceil'])}({self.arg('n', d - 1)})", ATOM
                if b == "tonumber": return f"(tonumber({self.arg('s', d - 1)}) or {self.num()})", ATOM
                if b == "select":
                    return (f'select("#"{"," + self.arg("n", d - 1) if g.bool(0.5) else ""}{",..." if self.fn.vararg else ""})', ATOM)
                return f"{b}({','.join(self.arg('n', d - 1) for _ in range({'max': 2, 'min': 2, 'mid': 3}.get(b, 1)))})", ATOM
        if k == "builtin" and self.pico:
            b = g.choice(["flr", "abs", "max", "min", "mid", "sgn", "ceil", "band", "shl", "rotr", "peek", "ord", "cos", "select", "count", "bnot", "rnd"])
            v = self.lookup(b)
            if v is None:
                n = {"flr": 1, "abs": 1, "sgn": 1, "ceil": 1, "mid": 3, "cos": 1, "bnot": 1}.get(b, 2)
                if b == "peek": return f"peek(0x4300+({self.ex('n', d - 1)})%8)", ATOM
                if b == "ord": return f"(ord({self.arg('s', d - 1)}) or 0)", ATOM
                if b == "rnd": return "rnd(1)", ATOM # a stub
                if b == "count": return f"count({self.arg('a', d - 1)})", ATOM
                if b == "select":
                    return (f'select("#"{"," + self.arg("n", d - 1) if g.bool(0.5) else ""}{",..." if self.fn.vararg else ""})', ATOM)
                return f"{b}({','.join(self.arg('n', d - 1) for _ in range(n))})", ATOM
        if k == "tern": return self.ternary("n", d)
        if k == "vararg" and self.fn.vararg:
            return (f"((...) or {self.num()})", ATOM) if g.bool(0.5) else ("#{...}", UNARY)
        if k == "tonum" and not self.lookup("tonum"):
            return f"(tonum({self.arg('s', d - 1)}) or {self.num()})", ATOM
        if k == "paren":
            return "(" + self.ex("n", d - 1) + ")", ATOM
        return self.expr_n(0)

    def expr_i(self, d):
        """a number that's an integer (picotron)"""
        g = self.g
        k = g.weighted([(4, "lit"), (2, "len"), (2, "flr")])
        if k == "len": return "#" + self.wrap(self.expr(g.choice(["a", "s"]), d - 1), ATOM), UNARY
        if k == "flr": return f"({self.ex('n', min(d - 1, 1))})" + g.choice(["\\1", "//1"]), 10
        return g.choice([str(g.int(0, 20)), "0xff", "0x10", "255", "63", "0xffffffff"]), ATOM

    def methodcall(self, d):
        cands = [(i, f) for i, sh in enumerate(self.shapes) for f, t in sh.items() if isinstance(t, tuple) and t[0] == "m"]
        if not cands: return None
        i, f = self.g.choice(cands)
        vs = self.visible(("o", i))
        if not vs or self.cost > 60 or self.methods: return None # (no recursion)
        self.cost += 3
        v = self.g.choice(vs).name
        if self.g.bool(0.15): return f"{self.index(v, f)}({v},{self.arg('n', d - 1)})"
        return f"{v}:{f}({self.arg('n', d - 1)})"

    def expr_s(self, d):
        g = self.g
        if d <= 0:
            return self.var_or("s", lambda: (self.string(), ATOM)) if g.bool(0.6) else (self.string(), ATOM)
        k = g.weighted([(4, "leaf"), (5, "cat"), (2, "tostr"), (2, "mem"), (2, "call"), (1, "sub"), (1, "type"), (1, "tern"), (1, "chr")])
        if k == "cat": return self.binop("..", self.expr(g.choice(["s", "s", "n"]), d - 1), self.expr("s", d - 1))
        if k == "tostr": 
            f = "tostr" if self.pico else g.choice(["tostring", "tostr"])
            if not self.lookup(f): return f"{f}({self.arg(g.choice(['n', 'b']), d - 1)})", ATOM
        if k == "mem":
            r = self.member("s", d)
            if r: return r
        if k == "call":
            r = self.call("s", d)
            if r: return r, ATOM
        if k == "sub" and not self.lookup("sub") and self.pico: return f"sub({self.arg('s', d - 1)},{self.arg('n', d - 1)})", ATOM
        if k == "sub" and not self.pico:
            if g.bool(0.4): return f"({self.ex('s', d - 1)}):{g.choice(['upper()', 'lower()', 'sub(2)', 'rep(2)', 'sub(-2)'])}", ATOM
            if not self.lookup("sub"): return f"sub({self.arg('s', d - 1)},{g.choice(['1,1', '2', '-1', '1,2'])})", ATOM
        if k == "type": return f"type({self.arg(g.choice(['n', 's', 'any', 'a']), d - 1)})", ATOM
        if k == "chr" and not self.pico and not self.lookup("chr"): return f"chr(65+{g.int(0, 25)})", ATOM
        if k == "chr" and self.pico and not self.lookup("chr"): return f"chr(65+({self.ex('n', d - 1)})%26)", ATOM
        if k == "tern": return self.ternary("s", d)
        return self.expr_s(0)

    def expr_b(self, d):
        g = self.g
        if d <= 0:
            return self.var_or("b", lambda: (g.choice(["true", "false"]), ATOM)) if g.bool(0.6) else (g.choice(["true", "false"]), ATOM)
        k = g.weighted([(6, "cmp"), (2, "leaf"), (2, "not"), (2, "logic"), (1, "scmp"), (1, "mem"), (1, "anycmp")])
        if k == "cmp": return self.binop(g.choice(["<", ">", "<=", ">=", "==", "~=", "!="]), self.expr("n", d - 1), self.expr("n", d - 1))
        if k == "not": return self.unop("not", self.expr(g.choice(["b", "b", "any"]), d - 1))
        if k == "logic": return self.binop(g.choice(["and", "or"]), self.expr("b", d - 1), self.expr("b", d - 1))
        if k == "scmp": return self.binop(g.choice(["<", "==", "~=", ">="]), self.expr("s", d - 1), self.expr("s", d - 1))
        if k == "anycmp": return self.binop(g.choice(["==", "~="]), self.expr("any", d - 1), self.expr("any", d - 1))
        if k == "mem":
            r = self.member("b", d)
            if r: return r
        return self.expr_b(0)

    def expr_any(self, d):
        g = self.g
        k = g.weighted([(4, "any"), (2, "n"), (2, "s"), (1, "b"), (2, "nil"), (1, "logic")])
        if k == "nil": return "nil", ATOM
        if k == "any": return self.var_or("any", lambda: ("nil", ATOM))
        if k == "logic": return self.binop(g.choice(["and", "or"]), self.expr("any", d - 1), self.expr("any", d - 1))
        return self.expr(k, d)

    def expr_a(self, d):
        g = self.g
        k = g.weighted([(4, "var"), (4, "cons"), (1, "mem"), (1, "pack"), (1, "split")])
        if k == "var":
            v = self.pickvar("a")
            if v: return v.name, ATOM
        if k == "mem":
            r = self.member("a", d)
            if r: return r
        if k == "split" and not self.lookup("split"): return g.choice(['split"1,2,3"', 'split("4,5")']), ATOM
        items = [self.arg("n", min(d - 1, 1)) for _ in range(g.count(0, 4, 2))]
        if self.fn.vararg and g.bool(0.15): items.append("...")
        elif g.bool(0.15):
            c = self.call(g.choice(["nn2", "v"]), d - 1)
            if c: items.append(c if g.bool(0.7) else "(" + c + ")")
        if g.bool(0.1) and items and items[-1] != "...": items[-1] = f"[{len(items)}]={items[-1]}"
        sep = "," if g.bool(0.85) else ";"
        return "{" + sep.join(items) + (sep if items and g.bool(0.15) else "") + "}", ATOM

    def expr_obj(self, i, d):
        g = self.g
        v = self.pickvar(("o", i))
        if v and g.bool(0.5): return v.name, ATOM
        if d > 0 and g.bool(0.2):
            r = self.member(("o", i), d)
            if r: return r
        items = []
        for f, t in self.shapes[i].items():
            val = self.expr(t, max(0, min(d - 1, 1)))[0]
            if self.safe and g.bool(0.15): items.append(f'["{f}"]={val}')
            else: items.append(f"{f}={val}")
        if g.bool(0.3): items = g.shuffled(items)
        if g.bool(0.1): items.insert(g.draw(len(items)), self.num())
        return "{" + ",".join(items) + "}", ATOM

    def expr_method(self, i, d):
        self.methods += 1
        r = self.function("", ["self", "n"], "n", selftype=("o", i))
        self.methods -= 1
        return r

    SIGS = {"nn": (["n"], "n", False), "nn2": (["n", "n"], "nn", False), "v": (["?"], "nn", True), "s": (["s"], "s", False), "0": ([], None, False)}

    def expr_func(self, sig, d):
        v = self.pickvar(("f", sig))
        if v and self.g.bool(0.35): return v.name, ATOM
        return self.function("", *self.sigof(sig))

    def sigof(self, sig):
        params, ret, vararg = self.SIGS[sig]
        return (list(params), ret, None, vararg)

    def function(self, name, params, ret, selftype=None, vararg=False, method=False):
        """a function's text after (and including) the keyword"""
        g = self.g
        outer = self.fn, self.certain, self.budget, self.cost
        self.fn = Fn(vararg, ret)
        self.certain = False
        self.budget = min(outer[2], g.count(1, 5, 2.5))
        self.scopes.append({})
        names = []
        if method: self.declare("self", selftype)
        for p in params:
            if p == "self":
                nm, ty = (g.weighted([(3, "self"), (1, self.newname())]), selftype)
            elif p == "?":
                if not g.bool(0.4): continue
                nm, ty = self.newname(), "any"
            else:
                nm, ty = self.newname(), p
            if nm in names: nm = nm + "_" + str(len(names))
            names.append(nm)
            self.declare(nm, ty)
        if vararg: names.append("...")
        body = self.block(new=False, ret=True)
        self.scopes.pop()
        self.fn, self.certain, b, c = outer
        self.budget = b - 1
        self.cost = c
        return f"function{' ' + name if name else ''}({','.join(names)}){self.sp()}{body}{self.sp()}end", ATOM

    def sp(self):
        return " " if self.oneline or self.g.bool(0.4) else "\n"

    def retstmt(self):
        g = self.g
        r = self.fn.ret
        if r is None: return "return"
        if r == "nn":
            k = g.weighted([(3, 0), (1, 1), (1, 2)])
            if k == 1:
                c = self.call(g.choice(["nn2"]), 1)
                if c: return "return " + c
            if k == 2 and self.fn.vararg: return "return " + self.arg("n", 1) + ",..."
            return f"return {self.arg('n', 2)},{self.arg('n', 1)}"
        return "return " + self.ex(r, g.int(0, 2))

    # --- statements

    def block(self, new=True, ret=False, loop=False, lo=1):
        g = self.g
        if new: self.scopes.append({})
        self.depth += 1
        out = []
        n = g.count(lo, 5, 2)
        for _ in range(n):
            if self.budget <= 0: break
            out += self.stmt()
        last = None
        if loop and g.bool(0.12) :
            c = self.ex("b", 1)
            out.append(f"if {c} then break end")
        if self.fn is not None and self.fn.ret is not None and g.bool(0.1) and not ret:
            last = self.retstmt()
        if ret and (self.fn.ret is not None):
            last = self.retstmt()
        if last: out.append(last)
        self.depth -= 1
        if new: self.scopes.pop()
        return self.join(out)

    def join(self, stmts):
        g = self.g
        text = ""
        prevnl = True
        for s in stmts:
            if not s: continue
            nl = s.endswith("\n")
            if text and not text.endswith("\n"):
                text += " ;"[g.bool(0.08)] if self.oneline or (g.bool(0.3) and not s.startswith("\n")) else "\n"
            if s.startswith("(") : s = ";" + s
            text += s
        return text

    def stmt(self):
        g = self.g
        self.budget -= 1
        deep = self.depth < 5 and self.budget > 0
        o = [(4, "local"), (4, "assign"), (3, "print"), (2, "op"), (1.5, "arr"), (2, "obj"), (2, "call"), (0.7, "poke"), (0.7, "dead"), (0.4, "fail"), (0.5, "label")]
        if deep:
            o += [(2.5, "if"), (1.5, "for"), (1.2, "forin"), (0.8, "while"), (0.8, "repeat"), (0.8, "do"), (2.5, "func"), (0.8, "closures"), (0.8, "swap"), (1, "multi")]
            if self.coroutines: o.append((0.6, "co"))
            if self.meta: o.append((1, "meta"))
            if self.shorts and not self.oneline: o += [(1.3, "short"), (1, "qprint")]
            if self.safe: o += [(1, "env")]
            if not self.pico: o += [(1, "close"), (0.7, "native")]
            if self.consts: o += [(4, "constif")]
        if self.consts: o += [(4, "const")]
        k = g.weighted(o)
        r = getattr(self, "st_" + k)()
        return r if isinstance(r, list) else [r]

    def conditional(self, func):
        old = self.certain
        self.certain = False
        try: return func()
        finally: self.certain = old

    def st_local(self):
        g = self.g
        n = g.weighted([(5, 1), (2, 2), (1, 3)])
        if g.bool(0.08): # no values
            names = [self.newname() for _ in range(n)]
            for nm in names: self.declare(nm, "any")
            # (srand: see the known finding about a local without values after one whose last value is a call)
            return "srand(1) local " + ",".join(names)
        if g.bool(0.12):
            c = self.call(g.choice(["nn2", "v"]), 2)
            if c:
                names = [self.newname() for _ in range(n)]
                for nm in names: self.declare(nm, "any")
                pre = ""
                if g.bool(0.3):
                    pre = self.arg("n", 1) + ","
                return f"local {','.join(names)}={pre}{c}"
        types = [self.newtype() for _ in range(n)]
        vals = [self.arg(t, g.int(0, 2)) for t in types]
        names = [self.newname() for _ in types]
        text = f"local {','.join(names)}={','.join(vals)}"
        if g.bool(0.08): text += "," + self.arg("n", 1)
        for nm, t in zip(names, types): self.declare(nm, t, ro=g.bool(0.3))
        if not self.pico and g.bool(0.25): # lua 5.4's attributes
            marked = [g.bool(0.7) for _ in names]
            text = f"local {','.join(nm + '<const> ' * m for nm, m in zip(names, marked))}" + text[text.index("="):]
            for nm, m in zip(names, marked):
                if m: self.lookup(nm).ro = True
        return text

    def cexpr(self, type, d):
        """an expression made only of constants"""
        g = self.g
        cs = [v for v in self.visible(type) if v.name.startswith("k_")]
        if d <= 0 or g.bool(0.15):
            if cs and g.bool(0.7): return g.choice(cs).name, ATOM
            if type == "n": return self.num(), ATOM
            if type == "s": return self.string(), ATOM
            if type == "any": return "nil", ATOM
            return g.choice(["true", "false"]), ATOM
        if type == "n":
            k = g.draw(5)
            if k == 0: return self.unop(g.choice(["-", "-", "~"] if self.pico else ["-"]), self.cexpr("n", d - 1))
            if k == 2 and not self.pico:
                f, n = g.choice([("flr", 1), ("abs", 1), ("max", 2), ("min", 2), ("mid", 3), ("ceil", 1)])
                if not self.lookup(f): return f"{f}({','.join(self.cexpr('n', d - 1)[0] for _ in range(n))})", ATOM
            if k == 1: return self.unop("#", self.cexpr("s", d - 1)[:1] + (UNARY,))
            if k == 2 and self.pico:
                f, n = g.choice([("flr", 1), ("abs", 1), ("max", 2), ("min", 2), ("mid", 3), ("band", 2), ("shl", 2), ("ceil", 1), ("bnot", 1)])
                if not self.lookup(f): return f"{f}({','.join(self.cexpr('n', d - 1)[0] for _ in range(n))})", ATOM
            if k == 3: return self.binop(g.choice(["and", "or"]), self.cexpr("n", d - 1), self.cexpr("n", d - 1))
            ops = ["+", "-", "*", "%", "&", "|", "^^", "<<", ">>", "\\", "/"] if self.pico else ["+", "-", "*"]
            return self.binop(g.choice(ops), self.cexpr("n", d - 1), self.cexpr("n", d - 1))
        if type == "s": return self.binop("..", self.cexpr("s", d - 1), self.cexpr("s", d - 1))
        if type == "any": return self.binop("and", self.cexpr("any", d - 1), self.cexpr("n", d - 1))
        k = g.draw(3)
        if k == 0: return self.unop("not", self.cexpr(g.choice(["b", "n", "any"]), d - 1))
        if k == 1: return self.binop(g.choice(["and", "or"]), self.cexpr("b", d - 1), self.cexpr("b", d - 1))
        if k == 2: return self.binop(g.choice(["==", "~="]), self.cexpr("s", d - 1), self.cexpr("s", d - 1))
        return self.binop(g.choice(["<", ">", "<=", ">=", "==", "~="]), self.cexpr("n", d - 1), self.cexpr("n", d - 1))

    def constname(self):
        if self.nconsts and self.g.bool(0.1): # shadowing
            return f"k_{self.g.int(1, self.nconsts)}"
        self.nconsts += 1
        return f"k_{self.nconsts}"

    def st_const(self):
        g = self.g
        glob = self.certain and self.fn.ret is None and self.depth == 0 and len(self.scopes) <= 2 and g.bool(0.4)
        n = 1 if glob else g.weighted([(4, 1), (1, 2), (1, 3)])
        ts = [g.weighted([(4, "n"), (2, "s"), (3, "b"), (0.5, "any")]) for _ in range(n)]
        vals = [self.cexpr(t, g.int(0, 2))[0] for t in ts]
        names = []
        for t in ts:
            nm = self.constname()
            while nm in names or (glob and self.lookup(nm)):
                self.nconsts += 1
                nm = f"k_{self.nconsts}"
            names.append(nm)
        for nm, t in zip(names, ts): self.declare(nm, t, local=not glob, ro=True)
        hint = "--[[$const]]"
        if glob: return f"{hint} {names[0]}={vals[0]}"
        if n > 1 and g.bool(0.4): # the hint on single variables
            return "local " + ",".join((hint if g.bool(0.7) else "") + nm for nm in names) + "=" + ",".join(vals)
        return f"{hint} local {','.join(names)}={','.join(vals)}"

    def constcond(self):
        g = self.g
        c = self.cexpr(g.choice(["b", "b", "n", "any"]), g.int(0, 2))
        if g.bool(0.15): c = self.binop(g.choice(["and", "or"]), c, self.expr("b", 1))
        return c[0]

    def st_constif(self):
        g = self.g
        if self.shorts and not self.oneline and g.bool(0.3):
            self.oneline += 1
            t = f"if ({self.constcond()}) {self.shortbody()}"
            if g.bool(0.5): t += f" else {self.shortbody()}"
            self.oneline -= 1
            return t + "\n"
        cond = lambda: self.constcond() if g.bool(0.7) else self.ex("b", 1)
        t = f"if {cond()} then{self.sp()}{self.conditional(lambda: self.block(lo=0))}"
        for _ in range(g.count(0, 3, 1)):
            t += f"{self.sp()}elseif {cond()} then{self.sp()}{self.conditional(lambda: self.block(lo=0))}"
        if g.bool(0.5): t += f"{self.sp()}else{self.sp()}{self.conditional(lambda: self.block(lo=0))}"
        return t + f"{self.sp()}end"

    def global_target(self, type):
        """a new global, when that's certain to be executed"""
        if not self.certain or self.fn.ret is not None or self.depth > 1: return None
        nm = self.newname()
        if any(nm in s for s in self.scopes): return None
        return nm

    def lvalue(self, type, d=1):
        """an assignable place of the type (text) or None"""
        g = self.g
        k = g.weighted([(5, "var"), (2, "mem"), (1, "elem")])
        if k == "elem" and type == "n":
            v = self.pickvar("a")
            if v: return f"{v.name}[{g.choice(['1', '2', 'flr(' + self.ex('n', 1) + ')%4+1' if self.pico and not self.lookup('flr') else '1', '#' + v.name + '+1', '#' + v.name + '+1'])}]"
        if k == "mem":
            r = self.member(type, d)
            if r: return r[0]
        v = self.pickvar(type, assign=True)
        return v.name if v else None

    def st_assign(self):
        g = self.g
        out = []
        run = g.weighted([(4, 1), (2, 2), (1, 4)]) # runs are what merging is about
        for _ in range(run):
            t = self.newtype(True)
            if g.bool(0.35):
                nm = self.global_target(t)
                if nm:
                    val = self.ex(t)
                    self.declare(nm, t, local=False)
                    out.append(f"{nm}={val}")
                    continue
            lv = self.lvalue(t)
            if lv: out.append(f"{lv}={self.ex(t)}")
            elif not out:
                return self.st_local()
        return out

    def st_multi(self):
        g = self.g
        n = g.int(2, 3)
        types = [self.newtype(True) for _ in range(n)]
        lvs = [self.lvalue(t) for t in types]
        if None in lvs: return self.st_assign()
        vals = [self.arg(t, 1) for t in types]
        text = f"{','.join(lvs)}={','.join(vals)}"
        if g.bool(0.1): text += "," + self.num()
        return text

    def st_swap(self):
        g = self.g
        t = self.newtype(True)
        a, b = self.lvalue(t), self.lvalue(t)
        if not a or not b or "]" in a + b: return self.st_print()
        return f"{a},{b}={b},{a}"

    def st_op(self):
        g = self.g
        if g.bool(0.25):
            lv = self.lvalue("s")
            if lv: return f"{lv}..={self.ex('s')}"
        lv = self.lvalue("n")
        if not lv: return self.st_print()
        ops = ["+", "-", "*", "%", "|", "&", "^^", "<<", ">>", "\\", "/", ">>>"] if self.pico else ["+", "-", "*", "/", "^"]
        if "[" in lv and lv.rstrip("]").split("[")[-1] not in ("1",): return f"{lv}={self.ex('n')}"
        if "[" in lv: return f"{lv}=({lv} or 0)+{self.wrap(self.expr('n', 2), 10)}"
        if not self.pico and g.bool(0.3): return f"{lv}{g.choice(['%', '//', chr(92)])}={g.choice(['2', '3', '0.5', '10'])}"
        if self.pico or g.bool(0.7): return f"{lv}{g.choice(ops)}={self.ex('n')}"
        return f"{lv}={lv}{g.choice(ops)}{self.wrap(self.expr('n', 2), 11)}"

    def printargs(self):
        g = self.g
        ts = [g.choice(["n", "s", "b", "any", "a"]) for _ in range(g.int(1, 3))]
        args = [self.arg(t, g.int(0, 2)) for t in ts]
        if self.fn.vararg and g.bool(0.15): args.append("...")
        elif g.bool(0.15):
            c = self.call(g.choice(["nn2", "v"]), 1)
            if c: args.append(c)
        return ",".join(args)

    def st_print(self):
        if self.lookup("print"): return f"printh({self.printargs()})"
        a = self.printargs()
        if self.g.bool(0.1): return "print" + self.string()
        return f"print({a})"

    def st_qprint(self):
        if self.lookup("print"): return self.st_print()
        self.oneline += 1
        a = self.printargs()
        self.oneline -= 1
        return f"?{a}\n"

    def st_call(self):
        g = self.g
        if g.bool(0.4):
            r = self.methodcall(2)
            if r: return r
        r = self.call(g.choice(["nn", "nn2", "v", "s", "0"]), 2)
        return r if r else self.st_print()

    def st_arr(self):
        g = self.g
        v = self.pickvar("a")
        if not v: 
            val, nm = self.ex("a", 1), self.newname()
            self.declare(nm, "a")
            return f"local {nm}={val}"
        k = g.weighted([(3, "add"), (1, "deli"), (2, "set"), (1, "del")])
        if k == "add" and not self.lookup("add"): return f"add({v.name},{self.arg('n')}{',1' if g.bool(0.15) else ''})"
        if k == "deli" and not self.lookup("deli"): return f"deli({v.name})"
        if k == "del" and not self.lookup("del"): return f"del({v.name},{self.arg('n', 1)})"
        return f"{v.name}[#{v.name}+1]={self.ex('n')}"

    def st_obj(self):
        g = self.g
        i = g.draw(len(self.shapes) - 1)
        v = self.pickvar(("o", i))
        if not v:
            val, nm = self.expr_obj(i, 2)[0], self.newname()
            if not g.bool(0.5):
                gn = self.global_target(("o", i))
                if gn:
                    self.declare(gn, ("o", i), local=False)
                    return f"{gn}={val}"
            self.declare(nm, ("o", i))
            return f"local {nm}={val}"
        f, t = g.choice(sorted(self.shapes[i].items(), key=str))
        if isinstance(t, tuple) and t[0] == "m":
            self.methods += 1
            if g.bool(0.5): r = self.function(f"{v.name}:{f}", ["n"], "n", selftype=("o", i), method=True)[0]
            else: r = self.function(f"{v.name}.{f}", ["self", "n"], "n", selftype=("o", i))[0]
            self.methods -= 1
            return r
        return f"{self.index(v.name, f)}={self.ex(t)}"

    def st_poke(self):
        if not self.pico or self.lookup("poke"): return self.st_print()
        return f"poke(0x4300+({self.ex('n', 1)})%16,{self.arg('n', 1)})"

    def st_dead(self):
        g = self.g
        c = g.choice(["false", "nil", "1==2", "not 1", "true", "1", "2>1"])
        t = f"if {c} then{self.sp()}{self.conditional(self.block)}"
        if g.bool(0.3): t += f"{self.sp()}elseif {g.choice([c, self.ex('b', 1), 'false', 'true'])} then{self.sp()}{self.conditional(self.block)}"
        if g.bool(0.4): t += f"{self.sp()}else{self.sp()}{self.conditional(self.block)}"
        return t + f"{self.sp()}end"

    def st_fail(self):
        g = self.g
        if not g.bool(0.25): return self.st_print()
        self.uses.add("may fail")
        k = g.choice(["assert", "nilindex", "nilcall", "arith"])
        if k == "assert" and not self.lookup("assert"): return f"assert({self.arg('b', 2)},{self.arg('s', 1)})" 
        a = self.pickvar("any")
        if not a: return self.st_print()
        if k == "nilindex": return f"{self.st_local_any()}={a.name}.x"
        if k == "nilcall": return f"{a.name}()"
        return f"{self.st_local_any()}={a.name}+1"

    def st_local_any(self):
        nm = self.newname()
        self.declare(nm, "any")
        return "srand(1) local " + nm

    def st_label(self):
        g = self.g
        if self.oneline: return self.st_print()
        if self.fn.loop and g.bool(0.5): # a break in the middle
            return f"if {self.ex('b', 1)} then break end"
        self.nlabels += 1
        lb = g.choice(["l", "continue", "a", "x", "done"]) + str(self.nlabels)
        body = self.conditional(lambda: self.block())
        return f"do if {self.ex('b', 1)} then goto {lb} end{self.sp()}{body and 'do ' + body + self.sp() + 'end'}{self.sp()}::{lb}:: end"

    def st_if(self):
        g = self.g
        t = f"if {self.ex(g.choice(['b', 'b', 'any']), 2)} then{self.sp()}{self.conditional(self.block)}"
        for _ in range(g.count(0, 2, 0.4)):
            t += f"{self.sp()}elseif {self.ex('b', 2)} then{self.sp()}{self.conditional(self.block)}"
        if g.bool(0.4): t += f"{self.sp()}else{self.sp()}{self.conditional(lambda: self.block(lo=0))}"
        return t + f"{self.sp()}end"

    def st_short(self):
        g = self.g
        self.oneline += 1
        kind = g.choice(["if", "if", "while"])
        if kind == "while":
            nm = self.newname()
            val = g.int(1, 3)
            self.declare(nm, "n", ro=True)
            self.cost += 5
            body = self.conditional(lambda: self.loopbody())
            self.cost -= 5
            self.oneline -= 1
            return [f"local {nm}={val}", f"while ({nm}>0) {nm}-=1 {body}\n"]
        t = f"if ({self.ex(g.choice(['b', 'any']), 2)}) {self.shortbody()}"
        if g.bool(0.4): t += f" else {self.shortbody()}"
        self.oneline -= 1
        return t + "\n"

    def shortbody(self):
        b = self.conditional(self.block) or ";"
        return ";" + b if b.startswith(("do", "(")) else b # (not legal at the start of a shorthand)

    def loopbody(self, scope=None):
        self.fn.loop += 1
        self.cost += 15
        self.scopes.append(dict(scope or {}))
        r = self.block(new=False, loop=True)
        self.scopes.pop()
        self.cost -= 15
        self.fn.loop -= 1
        return r

    def st_for(self):
        g = self.g
        nm = self.newname()
        rng = g.choice(["1,3", "0,2", "3,1,-1", "1,2", "2,1"] + (["1,2,0.5"]))
        if g.bool(0.2): rng = f"1,#{self.wrap(self.expr('a', 1), ATOM)}"
        body = self.conditional(lambda: self.loopbody({nm: Var(nm, "n", True)}))
        return f"for {nm}={rng} do{self.sp()}{body}{self.sp()}end"

    def st_forin(self):
        g = self.g
        k = g.choice(["all", "ipairs", "pairs", "closure"])
        if k == "all" and not self.lookup("all"):
            nm = self.newname()
            src = self.wrap(self.expr("a", 1), 0)
            body = self.conditional(lambda: self.loopbody({nm: Var(nm, "n", True)}))
            return f"for {nm} in all({src}) do{self.sp()}{body}{self.sp()}end"
        if k == "closure":
            nm = self.newname()
            n = g.int(1, 3)
            body = self.conditional(lambda: self.loopbody({nm: Var(nm, "n", True)}))
            pre = self.newname()
            return [f"do local {pre}_k={n}", f"for {nm} in function() if {pre}_k>0 then {pre}_k={pre}_k-1 return {pre}_k end end do{self.sp()}{body}{self.sp()}end end"]
        f = "ipairs" if g.bool(0.5) else "pairs"
        if self.lookup(f): return self.st_print()
        k1, k2 = self.newname(), self.newname()
        src = "{" + ",".join(self.num() for _ in range(g.int(0, 3))) + "}" if f == "pairs" else self.wrap(self.expr("a", 1), 0)
        sc = {k1: Var(k1, "n", True, ro=True)}
        if g.bool(0.7): sc[k2] = Var(k2, "n", True)
        else: k2 = None
        body = self.conditional(lambda: self.loopbody(sc))
        return f"for {k1}{',' + k2 if k2 else ''} in {f}({src}) do{self.sp()}{body}{self.sp()}end"

    def st_while(self):
        g = self.g
        nm = self.newname() + "_w"
        n = g.int(1, 3)
        self.declare(nm, "n", ro=True)
        body = self.conditional(lambda: self.loopbody())
        dec = f"{nm}-=1"
        c = f"{nm}>0" + (f" and {self.wrap(self.expr('b', 1), 3)}" if g.bool(0.3) else "")
        return [f"local {nm}={n}", f"while {c} do{self.sp()}{dec} {body}{self.sp()}end"]

    def st_repeat(self):
        g = self.g
        nm = self.newname() + "_r"
        n = g.int(1, 3)
        self.declare(nm, "n", ro=True)
        old, self.certain = self.certain, False
        self.fn.loop += 1
        self.cost += 15
        self.scopes.append({})
        out = [f"{nm}={nm}-1"]
        self.depth += 1
        for _ in range(g.count(0, 3, 1.5)):
            if self.budget > 0: out += self.stmt()
        loc = None
        if g.bool(0.6):
            loc = self.newname() + "_q"
            out.append(f"local {loc}={self.ex('b', 2)}")
            self.declare(loc, "b")
        self.depth -= 1
        cond = f"{nm}<=0" + (f" or {loc}" if loc else "") + (f" or {self.wrap(self.expr('b', 1), 2)}" if g.bool(0.3) else "")
        self.scopes.pop()
        self.cost -= 15
        self.fn.loop -= 1
        self.certain = old
        return [f"local {nm}={n}", f"repeat{self.sp()}{self.join(out)}{self.sp()}until {cond}" + ("\n" if not self.oneline else "")]

    def st_close(self):
        """lua 5.4's variables that are closed when their block ends"""
        g = self.g
        if any(self.lookup(n) for n in ("setmetatable", "print")): return self.st_print()
        self.uses.add("close")
        nm, e = self.newname(), self.newname()
        outer, self.fn = self.fn, Fn(False, None)
        val = self.arg("n", 1)
        self.fn = outer
        decl = f"local {nm}<close> =setmetatable({{}},{{__close=function({e}) print(\"close\",{val}) end}}) "
        self.scopes.append({nm: Var(nm, "closing", True, True)})
        if g.bool(0.4):
            nm = self.newname()
            if nm not in ("setmetatable", "print"):
                self.declare(nm, "closing", ro=True)
                decl += f"local {nm}<close> =" + g.choice(["nil", "setmetatable({},{__close=function() print\"second\" end})"]) + g.choice([" ", ";"] if self.oneline else [" ", ";", "\n"])
        body = self.conditional(lambda: self.block(new=False))
        self.scopes.pop()
        return f"do {decl}{body} end"

    def st_native(self):
        """lua's own library, some of it not in PICO-8"""
        g = self.g
        self.uses.add("libraries")
        k = g.draw(4)
        if k == 0 and not self.lookup("math"): return f"printh(math.type({self.arg('n', 2)}))"
        if k == 1 and not self.lookup("string"): return f"printh(string.{g.choice(['len', 'upper', 'reverse', 'byte'])}({self.arg('s', 2)}))"
        if k == 2 and not self.lookup("table"): return f"printh(table.concat({{{self.arg('n', 1)},{self.arg('s', 1)}}}))"
        if k == 3 and not self.lookup("pcall"): return f"printh(pcall(function() error({self.string()}) end))"
        return f"printh(#{self.wrap(self.expr('s', 1), ATOM)})"

    def st_do(self):
        old = self.certain
        r = f"do{self.sp()}{self.block()}{self.sp()}end"
        self.certain = old
        return r

    def st_func(self):
        g = self.g
        sig = g.choice(["nn", "nn2", "v", "s", "0"])
        k = g.weighted([(3, "local"), (3, "global"), (1, "assign"), (1, "recursive")])
        if k == "recursive":
            nm = self.newname()
            p = self.newname()
            if p == nm: p += "p"
            self.declare(nm, "n", ro=True) # not called in its body, except below
            old = self.scopes[-1].pop(nm)
            self.scopes.append({})
            self.declare(p, "n", ro=True)
            self.scopes[-1][nm] = Var(nm, "recursing", True, True)
            outer, self.fn = self.fn, Fn(False, None)
            val = self.ex("n", 1)
            self.fn = outer
            self.scopes.pop()
            self.declare(nm, ("f", "nn"), ro=True)
            text = f"local function {nm}({p}) if type({p})~=\"number\" or {p}<=0 or {p}>5 then return 0 end return {nm}({p}-1)+({val}) end"
            return text
        if k == "global":
            nm = self.global_target(None)
            if nm:
                # the body may not call itself
                self.scopes[0][nm] = Var(nm, "defining", False, True)
                f = self.function(nm, *self.sigof(sig))[0]
                self.declare(nm, ("f", sig), local=False, ro=True)
                return f
            v = self.pickvar(("f", sig), assign=True)
            if v:
                f = self.function("", *self.sigof("0"))[0] if sig == "0" else None
                if f is None: return self.st_print()
                return self.st_print()
        nm = self.newname()
        if k == "local":
            self.scopes.append({nm: Var(nm, "defining", True, True)})
            f = self.function(nm, *self.sigof(sig))[0]
            self.scopes.pop()
            self.declare(nm, ("f", sig), ro=True)
            return "local " + f
        f = self.function("", *self.sigof(sig))[0]
        self.declare(nm, ("f", sig), ro=True)
        return f"local {nm}={f}"

    def st_closures(self):
        g = self.g
        t, i = self.newname(), self.newname()
        if t == i: i += "i"
        inc = f"{i}={i}+{self.num()}"
        p = "print" if not self.lookup("print") else "printh"
        body = f"local {t}={{}} for {i}=1,3 do {t}[{i}]=function() {inc} return {i} end end {p}({t}[1](),{t}[1](),{t}[2]())"
        return f"do {body} end"

    def st_co(self):
        g = self.g
        if any(self.lookup(n) for n in ("cocreate", "coresume", "yield", "costatus", "print")): return self.st_print()
        nm = self.newname() + "_c"
        self.scopes.append({nm: Var(nm, "co", True, True)})
        outer = self.fn, self.certain, self.budget
        self.fn = Fn(False, None)
        self.certain = False
        self.budget = min(self.budget, 3)
        old_fail = None
        body = self.block()
        body2 = self.block()
        y = self.arg("n", 1)
        self.fn, self.certain, self.budget = outer[0], outer[1], outer[2] - 2
        self.scopes.pop()
        self.declare(nm, "co", ro=True)
        # in full mode, what's assigned before an error is not to be observed (reordering assumption)
        self.uses.add("coroutine")
        return [f"local {nm}=cocreate(function() {body} yield({y}) {body2} end)", f"print(coresume({nm}))", f"coresume({nm}) print(costatus({nm}))"]

    def st_meta(self):
        g = self.g
        self.uses.add("metatable")
        nm, mt = self.newname(), self.newname() + "_m"
        if nm == mt: mt += "t"
        if self.lookup("setmetatable"): return self.st_print()
        p = "print" if not self.lookup("print") else None
        if not p: return self.st_print()
        k = g.choice(["add", "index", "call", "newindex", "concat", "eq", "len", "inherit"])
        f = g.choice(FIELDS)
        if k == "add": return f"do local {nm}=setmetatable({{{f}={self.num()}}},{{__add=function(l,r) return l.{f}+r end}}) print({nm}+{self.num()}) end"
        if k == "concat": return f"do local {nm}=setmetatable({{{f}={self.string()}}},{{__concat=function(l,r) return l.{f}..r end}}) print({nm}..{self.string()}) end"
        if k == "eq": return f"do local {mt}={{__eq=function(l,r) return l.{f}==r.{f} end}} print(setmetatable({{{f}={self.num()}}},{mt})==setmetatable({{{f}={self.num()}}},{mt})) end"
        if k == "len": return f"do print(#setmetatable({{}},{{__len=function() return {self.num()} end}})) end"
        if k == "call": return f"do local {nm}=setmetatable({{}},{{__call=function(self,v) return v end}}) print({nm}({self.num()})) end"
        if k == "inherit":
            i = g.draw(len(self.shapes) - 1)
            v = self.pickvar(("o", i))
            if not v: return self.st_obj()
            nn = self.newname()
            name = v.name
            self.declare(nn, ("o", i))
            return f"local {nn}=setmetatable({{}},{{__index={name}}})"
        if k == "index": return f"do local {nm}=setmetatable({{}},{{__index=function(t,k) return type(k) end}}) print({nm}.{f},{nm}[1]) end"
        if not self.safe: return f"do local {nm}=setmetatable({{}},{{__newindex=function(t,k,v) rawset(t,1,v) end}}) {nm}.{f}={self.num()} print({nm}[1]) end" if not self.lookup("rawset") else self.st_print()
        # safe: a table that tells everything that happens to it
        obs = self.visible("n")
        ov = g.choice(obs).name if obs else self.num()
        other = self.lvalue("n") or "zz_global"
        seq = g.shuffled([f"{nm}.{f}={self.num()}", f"{other}={self.ex('n', 1)}", f"{nm}.{g.choice(FIELDS)}={self.num()}", f"{self.lvalue('n') or 'zz2'}={self.num()}", f"{nm}[1]={nm}.x"])
        self.uses.add("observing metatable")
        return [f"local {nm}=setmetatable({{}},{{__newindex=function(t,k,v) print(\"set\",k,v,{ov}) end,__index=function(t,k) print(\"get\",k,{ov}) return {self.num()} end}})"] + \
            (self.declare(nm, "proxy", ro=True) and seq if not any(nm + "=" == s[:len(nm) + 1] or s.startswith(nm + "[") for s in seq[:0]) else [])

    def st_env(self):
        g = self.g
        self.uses.add("_ENV")
        if self.lookup("_ENV") or self.lookup("setmetatable"): return self.st_print()
        k = g.choice(["get", "set", "string", "block", "param", "pairs"])
        gs = [v for v in self.scopes[0].values() if v.type == "n" and not v.ro]
        hidden = len(self.scopes) > 1
        if k in ("get", "set", "string"):
            if not gs: return self.st_print()
            v = g.choice(sorted(gs, key=lambda v: v.name))
            if k == "get": return f"print(_ENV.{v.name})" if not self.lookup("print") else self.st_call()
            if k == "set": return f"_ENV.{v.name}={self.ex('n', 1)}"
            return f'_ENV["{v.name}"]={self.ex("n", 1)}'
        f = g.choice(FIELDS)
        if k == "block":
            nm = self.newname()
            return f"do local _ENV=setmetatable({{{nm}={self.num()}}},{{__index=_ENV}}) {self.conditional(self.envblock)} end"
        if k == "param":
            i = g.draw(len(self.shapes) - 1)
            fs = [x for x, t in self.shapes[i].items() if t == "n" and x not in ("print", "add", "max")]
            v = self.pickvar(("o", i))
            if not v or not fs: return self.st_print()
            x = g.choice(fs)
            if any(x in s for s in self.scopes): return self.st_print()
            return f"do (function(_ENV) {x}={x}+{self.num()} end)({v.name}) end"
        if self.lookup("print"): return self.st_call()
        return f"for k_,v_ in pairs({{{f}={self.num()}}}) do print(k_,v_) end" if not self.lookup("pairs") else self.st_call()

    def envblock(self):
        # (assigns to globals go to the new table; what is declared inside is not seen outside)
        saved = dict(self.scopes[0])
        self.scopes.append({"_ENV": Var("_ENV", "env", True, True)})
        r = self.block()
        self.scopes.pop()
        self.scopes[0] = saved
        return r

    def program(self):
        g = self.g
        out = []
        # a few things to begin with
        for _ in range(g.int(1, 3)):
            t = g.choice(["n", "n", "s", "a", ("o", 0)])
            val = self.ex(t, 1)
            nm = self.newname()
            if any(nm in s for s in self.scopes): continue
            if g.bool(0.5):
                self.declare(nm, t, local=False)
                out.append(f"{nm}={val}")
            else:
                self.scopes.append({}) if len(self.scopes) == 1 else None
                self.declare(nm, t)
                out.append(f"local {nm}={val}")
        if len(self.scopes) == 1: self.scopes.append({})
        while self.budget > 0:
            out += self.stmt()
        # observe what there is
        for v in self.visible():
            if v.type in ("n", "s", "b", "a", "any") and g.bool(0.8):
                out.append(f"printh({v.name})")
            elif isinstance(v.type, tuple) and v.type[0] == "o":
                for f, t in self.shapes[v.type[1]].items():
                    if t in ("n", "s", "b", "a"): out.append(f"printh({v.name}.{f})")
        if self.callbacks and g.bool(0.4):
            for cb in ("_init", "_update", "_draw"):
                if g.bool(0.6) and not self.lookup(cb):
                    self.budget = g.int(1, 4)
                    out.append(self.function(cb, [], None)[0])
        return self.join(out) + "\n"
