"""Generates syntactically valid PICO-8 programs that are not meant to be run (they are compared as bytecode)"""
from lang import *

NAMES = ["a", "b", "c", "x", "y", "foo", "bar", "score", "longer_name", "e", "t", "o", "i", "n", "s", "_", "_x", "a1", "A", "Z", "self", "upd8"]
GLYPHS = ["\x8e", "\x97", "\x80a", "h\xff", "\x1e", "\x1f2"]
MEMBERS = ["x", "y", "foo", "pos", "vel", "name", "n", "a", "e", "update", "longer_name", "i"]
BUILTIN_NAMES = ["print", "add", "max", "all", "btn", "spr", "sin", "t", "pairs", "flr", "sub", "rnd", "_init", "_update", "_draw"]
BUILTIN_MEMBERS = ["n", "__index", "__add", "__call"]
BINOPS = [("or", 1), ("and", 2), ("<", 3), (">", 3), ("<=", 3), (">=", 3), ("~=", 3), ("!=", 3), ("==", 3), ("|", 4), ("^^", 5), ("~", 5), ("&", 6),
    ("<<", 7), (">>", 7), (">>>", 7), ("<<>", 7), (">><", 7), ("..", 8), ("+", 9), ("-", 9), ("*", 10), ("/", 10), ("\\", 10), ("%", 10), ("^", 12)]
RIGHT = {"..", "^"}
UNOPS = ["-", "not", "#", "~", "@", "%", "$"]
OPASSIGN = ["+=", "-=", "*=", "/=", "\\=", "%=", "^=", "..=", "|=", "&=", "^^=", "<<=", ">>=", ">>>=", "<<>=", ">><="]
UNARY_PREC = 11
ATOM = 20

def may_be_str(e):
    """could the console take this for a constant string? (it folds and/or)"""
    ks = [t for t in e if t.s not in ("(", ")")]
    return any(t.k == "str" and all(x.s in ("and", "or") for x in ks[max(i - 1, 0):i] + ks[i + 1:i + 2]) for i, t in enumerate(ks))

class FnCtx:
    def __init__(self, vararg, parent=None):
        self.vararg, self.parent = vararg, parent
        self.labels = [] # label names visible for goto
        self.loop = 0

class SynGen:
    def __init__(self, g, version=42, names=None, env=False, labels=True, builtins=True, glyphs=True, strindex=True, max_depth=4, size=14,
                 numbers=None, strings=None, shadow_builtins=True, shorts=True, literals=True, calls_paren=True, dup_params=False, cond_funcs=True, paren_names=True, paren_p=0.05):
        # paren_names: '(name).x' may be generated (compiled differently from name.x if the name is an upvalue; and so are parenthesized excess expressions)
        self.paren_names, self.paren_p = paren_names, paren_p
        # cond_funcs: conditions may contain functions (which z8lua doesn't support in the condition of a short form)
        self.cond_funcs = cond_funcs
        self.g, self.version = g, version
        self.names = list(names or NAMES)
        if glyphs: self.names += GLYPHS
        self.use_builtins, self.shadow_builtins = builtins, shadow_builtins
        self.env, self.use_labels, self.strindex = env, labels, strindex
        self.max_depth, self.size, self.shorts = max_depth, size, shorts
        self.oneline = self.nofunc = 0
        self.fn = FnCtx(True)
        self.budget = size * 6
        self.nlabel = 0

    # --- expressions: return (tokens, precedence)

    def name(self):
        g = self.g
        if self.use_builtins and self.shadow_builtins and g.bool(0.06):
            return g.choice(BUILTIN_NAMES)
        if self.env and g.bool(0.02):
            return "_ENV"
        return g.choice(self.names)

    def refname(self):
        if self.use_builtins and self.g.bool(0.1):
            return self.g.choice(BUILTIN_NAMES)
        return self.name()

    def member(self):
        if self.g.bool(0.05): return self.g.choice(BUILTIN_MEMBERS)
        return self.g.choice(MEMBERS)

    def number(self):
        return gen_number(self.g)

    def string(self):
        return esc_string(self.g, gen_string_value(self.g), allow_nl=not self.oneline)

    def paren(self, toks):
        return [op("(")] + toks + [op(")")]

    def sub(self, e, prec, strict=False):
        toks, p = e
        if p < prec or (strict and p == prec):
            return self.paren(toks)
        if self.g.bool(self.paren_p):
            return self.paren(toks)
        return toks

    def expr(self, d):
        g = self.g
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.atom()
        k = g.weighted([(6, "atom"), (5, "bin"), (2, "un"), (4, "suffixed"), (2, "table"), (0 if self.nofunc else 1.5, "func"), (1, "paren"), (0.7, "vararg")])
        if k == "atom":
            return self.atom()
        if k == "bin":
            o, p = g.choice(BINOPS)
            l, r = self.expr(d - 1), self.expr(d - 1)
            if o in RIGHT:
                lt, rt = self.sub(l, p, strict=True), self.sub(r, p)
                if o == "^" and r[1] == UNARY_PREC and rt is r[0]:
                    pass
            else:
                lt, rt = self.sub(l, p), self.sub(r, p, strict=True)
            return lt + [kw(o) if o.isalpha() else op(o)] + rt, p
        if k == "un":
            o = g.choice(UNOPS)
            e = self.expr(d - 1)
            t = self.sub(e, UNARY_PREC)
            return [kw(o) if o.isalpha() else op(o)] + t, UNARY_PREC
        if k == "suffixed":
            return self.suffixed(d)
        if k == "table":
            return self.table(d), ATOM
        if k == "func":
            return [kw("function")] + self.funcbody(d), ATOM
        if k == "paren":
            return self.paren(self.expr(d - 1)[0]), ATOM
        if self.fn.vararg:
            return [op("...")], ATOM
        return self.atom()

    def atom(self):
        k = self.g.weighted([(5, 0), (4, 1), (2, 2), (1, 3)])
        if k == 0: return [ident(self.refname())], ATOM
        if k == 1: return [Tok("num", self.number())], ATOM
        if k == 2: return [Tok("str", self.string())], ATOM
        return [kw(self.g.choice(["nil", "true", "false"]))], ATOM

    def primary(self, d):
        if d > 0 and self.g.bool(0.12):
            e = self.expr(d - 1)[0]
            inner = [t for t in e if not (t.k == "op" and t.s in ("(", ")"))]
            if not self.paren_names and len(inner) == 1 and inner[0].k == "id" and (e[0] is inner[0] or e[0].s == "("):
                return inner
            return self.paren(e)
        return [ident(self.refname())]

    def suffix(self, d, kind):
        g = self.g
        if kind == 0:
            return [op("."), ident(self.member(), "member")]
        if kind == 1:
            e = self.expr(d - 1)[0]
            if not self.strindex and may_be_str(e):
                e = [Tok("num", "1")]
            return [op("[")] + e + [op("]")]
        if kind == 2:
            return self.args(d)
        return [op(":"), ident(self.member(), "member")] + self.args(d)

    def args(self, d):
        k = self.g.weighted([(8, 0), (1, 1), (1, 2)])
        if k == 0: return [op("(")] + self.explist(d - 1, 0, 3) + [op(")")]
        if k == 1: return [Tok("str", self.string())]
        return self.table(d - 1)

    def suffixed(self, d, last=None):
        toks = self.primary(d)
        for _ in range(self.g.count(0 if last is not None else 1, 3, 0.5 if last is not None else 1.5)):
            toks += self.suffix(d, self.g.weighted([(3, 0), (2, 1), (3, 2), (1, 3)]))
        if last is not None:
            toks += self.suffix(d, last)
        return toks, ATOM

    def call(self, d):
        return self.suffixed(d, last=self.g.weighted([(4, 2), (1, 3)]))[0]

    def target(self, d):
        if self.g.bool(0.3):
            return self.suffixed(d, last=self.g.weighted([(2, 0), (1, 1)]))[0]
        return [ident(self.refname())]

    def explist(self, d, lo, hi):
        n = self.g.int(lo, hi)
        out = []
        for i in range(n):
            if i: out.append(op(","))
            out += self.expr(d)[0]
        return out

    def table(self, d):
        g = self.g
        out = [op("{")]
        n = g.count(0, 4, 1.5)
        for i in range(n):
            k = g.weighted([(3, 0), (3, 1), (1, 2)])
            if k == 0: out += self.expr(d - 1)[0]
            elif k == 1: out += [ident(self.member(), "member"), op("=")] + self.expr(d - 1)[0]
            else:
                e = self.expr(d - 1)[0]
                if not self.strindex and may_be_str(e):
                    e = [Tok("num", "1")]
                out += [op("[")] + e + [op("]"), op("=")] + self.expr(d - 1)[0]
            if i < n - 1 or g.bool(0.15):
                out.append(op(g.weighted([(5, ","), (1, ";")])))
        return out + [op("}")]

    def funcbody(self, d):
        g = self.g
        params = [self.name() for _ in range(g.count(0, 4, 1))]
        vararg = g.bool(0.25)
        toks = [op("(")]
        for i, p in enumerate(params):
            if i: toks.append(op(","))
            toks.append(ident(p))
        if vararg:
            if params: toks.append(op(","))
            toks.append(op("..."))
        toks.append(op(")"))
        old = self.fn
        self.fn = FnCtx(vararg, old)
        toks += self.block(d - 1) + [kw("end")]
        self.fn = old
        return toks

    # --- statements

    def block(self, d, final_ok=True, is_repeat=False):
        g = self.g
        fn = self.fn
        mark = len(fn.labels)
        toks = []
        start = end = None
        if self.use_labels and not self.oneline and d > 0:
            if g.bool(0.06):
                start = self.newlabel()
                fn.labels.append(start)
                toks += [op("::"), ident(start, "label"), op("::")]
            if not is_repeat and g.bool(0.06):
                end = self.newlabel()
                fn.labels.append(end)
        n = g.count(0, 6, 1.7) if d < self.max_depth else g.count(1, self.size, self.size / 2)
        ended = False
        for i in range(n):
            if self.budget <= 0: break
            t = self.stmt(d)
            if not toks and len(t) > 1 and t[0].s == ";" and t[1].s == "(" and g.bool(0.7):
                t = t[1:] # nothing before it that it could call
            toks += t
        if final_ok and g.bool(0.15) and end is None:
            k = g.weighted([(3, "return"), (1, "break"), (1, "goto")])
            if k == "return":
                toks += [kw("return")] + self.explist(min(d, 2), 0, 2)
                if g.bool(0.2): toks.append(op(";"))
        if end is not None:
            toks += [op("::"), ident(end, "label"), op("::")]
            if g.bool(0.2): toks.append(op(";"))
        del fn.labels[mark:]
        return toks

    def newlabel(self):
        avail = [l for l in ["l1", "continue", "x", "a", "foo", "lab", "e"] if l not in self.fn.labels]
        if avail: return self.g.choice(avail)
        self.nlabel += 1
        return f"lbl{self.nlabel}"

    def stmt(self, d):
        toks = self.stmt0(d)
        if toks and toks[0].k == "op" and toks[0].s == "(":
            toks = [op(";")] + toks
        if not (toks and toks[-1].k == "nl") and self.g.bool(0.08):
            toks = toks + [op(";")]
        return toks

    def stmt0(self, d):
        g = self.g
        self.budget -= 1
        deep = d > 0
        opts = [(6, "assign"), (5, "local"), (5, "call"), (3, "opassign"), (0.7, "break"), (0.7, "goto"), (0.3, ";")]
        if deep:
            opts += [(3, "if"), (1.5, "while"), (1.5, "for"), (1.5, "forin"), (1, "repeat"), (1, "do"), (2, "function"), (1.5, "localfunction")]
            if self.shorts and not self.oneline:
                opts += [(3, "shortif"), (1.5, "shortwhile"), (2, "print")]
            elif self.shorts:
                opts += [(0, "print")]
        k = g.weighted(opts)
        e = lambda: self.expr(min(d, 3))[0]
        if k == "assign":
            n = g.count(1, 3, 1.3)
            t = []
            for i in range(n):
                if i: t.append(op(","))
                t += self.target(min(d, 2))
            return t + [op("=")] + self.explist(min(d, 3), 1, n + (1 if self.paren_names and g.bool(0.1) else 0))
        if k == "local":
            t = [kw("local")]
            n = g.count(1, 3, 1.3)
            for i in range(n):
                if i: t.append(op(","))
                t.append(ident(self.name()))
            if g.bool(0.8):
                t += [op("=")] + self.explist(min(d, 3), 1, n)
            return t
        if k == "call":
            return self.call(min(d, 3))
        if k == "opassign":
            return self.target(min(d, 2)) + [op(g.choice(OPASSIGN))] + e()
        if k == "break":
            return [kw("break")] if self.fn.loop else self.call(1)
        if k == "goto":
            if not self.fn.labels: return self.call(1)
            return [kw("goto"), ident(g.choice(self.fn.labels), "label")]
        if k == ";":
            return [op(";")]
        if k == "if":
            t = [kw("if")] + self.cond(d) + [kw("then")] + self.block(d - 1)
            while g.bool(0.2):
                t += [kw("elseif")] + self.cond(d) + [kw("then")] + self.block(d - 1)
            if g.bool(0.4):
                t += [kw("else")] + self.block(d - 1)
            return t + [kw("end")]
        if k == "while":
            c = self.cond(d)
            self.fn.loop += 1
            t = [kw("while")] + c + [kw("do")] + self.block(d - 1) + [kw("end")]
            self.fn.loop -= 1
            return t
        if k == "for":
            t = [kw("for"), ident(self.name()), op("=")] + e() + [op(",")] + e()
            if g.bool(0.3): t += [op(",")] + e()
            self.fn.loop += 1
            t += [kw("do")] + self.block(d - 1) + [kw("end")]
            self.fn.loop -= 1
            return t
        if k == "forin":
            t = [kw("for"), ident(self.name())]
            if g.bool(0.6): t += [op(","), ident(self.name())]
            t += [kw("in")] + self.explist(min(d, 2), 1, 2)
            self.fn.loop += 1
            t += [kw("do")] + self.block(d - 1) + [kw("end")]
            self.fn.loop -= 1
            return t
        if k == "repeat":
            self.fn.loop += 1
            t = [kw("repeat")] + self.block(d - 1, final_ok=False, is_repeat=True)
            self.fn.loop -= 1
            return t + [kw("until")] + e()
        if k == "do":
            return [kw("do")] + self.block(d - 1) + [kw("end")]
        if k == "function":
            t = [kw("function"), ident(self.refname())]
            m = g.weighted([(5, 0), (2, 1), (1, 2), (1, 3)])
            if m in (1, 2):
                for _ in range(m): t += [op("."), ident(self.member(), "member")]
            if m == 3: t += [op(":"), ident(self.member(), "member")]
            return t + self.funcbody(d)
        if k == "localfunction":
            return [kw("local"), kw("function"), ident(self.name())] + self.funcbody(d)
        if k == "print":
            self.oneline += 1
            t = [op("?")] + self.explist(min(d, 2), 1, 2)
            self.oneline -= 1
            return self.stickall(t) + [NL()]
        # short forms
        w = k == "shortwhile"
        self.oneline += 1
        c = self.paren(self.oneline_expr(min(d, 2)))
        if w: self.fn.loop += 1
        body = self.shortbody(d - 1)
        t = [kw("while" if w else "if")] + c + body
        if not w and g.bool(0.3):
            els = self.shortbody(d - 1, can_end=True)
            t += [kw("else")] + els
        if w: self.fn.loop -= 1
        self.oneline -= 1
        # a final print or nested short form is possible
        if self.version >= 42 and g.bool(0.15) and not any(x.k == "nl" for x in t) and not any(x.k == "kw" and x.s in ("return", "break", "goto") for x in t[-4:]):
            self.oneline += 1
            if g.bool(0.5):
                n = [op("?")] + self.explist(1, 1, 2)
            else:
                n = [kw("if")] + self.paren(self.oneline_expr(1)) + self.shortbody(d - 1)
                if g.bool(0.3): n += [kw("else")] + self.shortbody(d - 1)
            self.oneline -= 1
            t = t + n
        return self.stickall(t) + [NL()]

    def shortbody(self, d, can_end=False):
        g = self.g
        toks = []
        for i in range(g.count(1, 3, 1.3)):
            s = self.stmt(min(d, 2))
            while not toks and s and s[0].k == "kw" and s[0].s == "do":
                s = self.stmt(0)
            toks += s
            if s and s[0].k == "kw" and s[0].s in ("break", "goto"): break
        if can_end and g.bool(0.1) and not (len(toks) and toks[-1].k == "kw" and toks[-1].s == "break"):
            toks += [kw("return")] + self.explist(1, 0, 1)
        return toks

    def cond(self, d):
        if self.g.bool(0.3):
            # a line break after a parenthesized part could end a short form, so everything is on one line
            t = self.oneline_expr(d)
            return self.stickall(t, cond=True)
        self.nofunc += not self.cond_funcs
        t = self.expr(min(d, 3))[0]
        self.nofunc -= not self.cond_funcs
        if t[0].k == "op" and t[0].s == "(":
            t = [kw("not")] + t
        return t

    def oneline_expr(self, d):
        """(functions are not allowed, as z8lua confuses the statements in them with the enclosing short form)"""
        self.oneline += 1
        self.nofunc += 1
        t = self.expr(min(d, 3))[0]
        self.oneline -= 1
        self.nofunc -= 1
        return t

    def stickall(self, toks, cond=False):
        for t in toks if cond else toks[1:]:
            t.stick = True
        return toks

    def program(self):
        toks = self.block(self.max_depth)
        # after a long condition starting with a parenthesis, the then/do must be on the same line
        for i, t in enumerate(toks):
            if i and t.k == "kw" and t.s in ("then", "do") and toks[i-1].stick:
                t.stick = True
        return [t for t in toks]
