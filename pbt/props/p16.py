from common import *
from tool import Ctx
import os, re

PID = "P16"
TECHNIQUE = "property-based testing: random programs with colliding names, against an independent linter written from the documentation; metamorphic check that linting does not influence the output"
NOTE = ("Random search. Programs of nested functions, blocks, loops, labels, locals and globals from a small pool of names (including builtins and _-names), with random lint hints, "
    "lint switches and --lint-global; the set of warnings (class, name, line, column) must be exactly the reference's, and the exit status must say whether there are any.")
RULE = ("random programs from a scope-aware generator that computes the documented warnings while generating. "
    "Non-trivial: at least two classes of warnings are expected")
ASSUMPTIONS = ["not documented, so accepted with or without a warning: the implicit self parameter, a non-last parameter that is only assigned to"]

def make_ctx():
    return Ctx()

NAMES = ["a", "b", "c", "d", "foo", "bar", "_", "_u", "_w", "sin", "spr", "t", "print", "rnd", "btn", "x1", "pi"]
BUILTIN = {"sin", "spr", "t", "print", "rnd", "btn", "pairs"}

class Var:
    def __init__(self, name, scope, func, param=None):
        self.name, self.scope, self.func, self.param = name, scope, func, param
        self.used = self.assigned = False

class Func:
    def __init__(self, parent, init):
        self.parent, self.init = parent, init

class Gen:
    def __init__(self, g, maxstmts):
        self.g, self.left = g, maxstmts
        self.out, self.line, self.col = [], 1, 1
        self.scopes = [{}]         # name -> Var; one per local statement and block
        self.labels = [(None, {})] # per block: function, name -> [used]
        self.func = Func(None, True)
        self.decls = []            # Var, pos, previous visible Var or None
        self.globals = []          # name, role, pos, may define
        self.labeldecls = []
        self.hint_globals, self.hint_used = set(), set()
        self.depth = 0

    def emit(self, s):
        self.out.append(s)
        n = s.count("\n")
        if n:
            self.line += n
            self.col = len(s) - s.rfind("\n")
        else: self.col += len(s)

    def find(self, name):
        for s in reversed(self.scopes):
            if name in s: return s[name]

    def var(self, role, name=None):
        """an occurrence that is not a declaration"""
        g = self.g
        name = name or g.choice(NAMES)
        v = self.find(name)
        if v:
            if role == "read": v.used = True
            else: v.assigned = True
        else:
            self.globals.append((name, role, (self.line, self.col), self.func.init and role in ("assign", "func")))
        self.emit(name)

    def declare(self, name, param=None):
        v = Var(name, self.scopes[-1], self.func, param)
        self.decls.append((v, (self.line, self.col), self.find(name)))
        self.emit(name)
        return v

    def new_names(self, n):
        out = []
        for _ in range(n):
            name = self.g.choice(NAMES)
            if name != "_" and name in out: name = self.g.choice([x for x in NAMES if x not in out])
            out.append(name)
        return out

    # --- expressions

    def expr(self, deep=0):
        g = self.g
        k = g.weighted([(4, "var"), (3, "num"), (1, "str"), (1.2, "call"), (0.8, "bin"), (0.6, "table"), (0.6, "member"), (0.5, "func")] if deep < 3 else [(1, "var"), (1, "num")])
        if k == "var": self.var("read")
        elif k == "num": self.emit(str(g.int(0, 9)))
        elif k == "str": self.emit(g.choice(["'a'", '"foo"', "[[b]]"]))
        elif k == "call":
            self.var("read")
            self.emit("(")
            for i in range(g.int(0, 2)):
                if i: self.emit(",")
                self.expr(deep + 1)
            self.emit(")")
        elif k == "bin":
            self.expr(deep + 1)
            self.emit(g.choice([" + ", "..", " and ", "==", " or "]))
            self.expr(deep + 1)
        elif k == "table":
            self.emit("{")
            for i in range(g.int(0, 2)):
                if i: self.emit(",")
                m = g.int(0, 2)
                if m == 1: self.emit(g.choice(NAMES) + "=")
                elif m == 2:
                    self.emit("[")
                    self.expr(deep + 1)
                    self.emit("]=")
                self.expr(deep + 1)
            self.emit("}")
        elif k == "member":
            self.var("read")
            self.emit("." + g.choice(NAMES))
        elif k == "func":
            self.emit("function")
            self.func_body(False)

    # --- functions and blocks

    def hint_func(self):
        """before a function; -> is it hinted as an init function"""
        if self.g.bool(0.2):
            self.emit(self.g.choice(["--$lint: func::_init\n", "--[[$lint: func::_init]]", "--[[$lint:func::_init]] "]))
            return True
        return False

    def func_body(self, init, method=False):
        g = self.g
        self.func = Func(self.func, init)
        self.scopes.append({})
        if method: self.scopes[-1]["self"] = Var("self", self.scopes[-1], self.func, "self")
        self.emit("(")
        names = self.new_names(g.weighted([(2, 1), (2, 0), (1, 2), (0.5, 3)]))
        dots = g.bool(0.1)
        vs = []
        for i, n in enumerate(names):
            if i: self.emit(",")
            vs.append(self.declare(n, "last" if i == len(names) - 1 and not dots else "param"))
        for v in vs: self.scopes[-1][v.name] = v
        if dots: self.emit(",..." if names else "...")
        self.emit(")")
        if self.left > 0 and g.bool(0.8):
            self.emit("\n")
            self.block()
        else: self.emit(" ")
        self.emit("end")
        self.scopes.pop()
        self.func = self.func.parent

    def block(self, n=None, until=False):
        g = self.g
        base = len(self.scopes)
        self.scopes.append({})
        self.labels.append((self.func, {}))
        self.depth += 1
        if g.bool(0.12): self.label()
        for _ in range(n if n is not None else g.int(1, 3)):
            if self.left <= 0: break
            self.stmt()
        if g.bool(0.08) and not until:
            self.emit("return ")
            self.expr()
            self.emit("\n")
        self.depth -= 1
        if until:
            self.emit("until ")
            self.expr()
        self.labels.pop()
        del self.scopes[base:]

    def label(self):
        name = self.g.choice(["a", "lab", "_", "_u", "foo"])
        if name in self.labels[-1][1]: return
        prev = next((True for f, d in self.labels[:-1] if name in d), False)
        # (a visible label of the same function: the console refuses it)
        used = [False]
        self.emit("::")
        self.labeldecls.append((name, (self.line, self.col), prev, used))
        self.labels[-1][1][name] = used
        self.emit(name + "::\n")

    def goto(self):
        vis = []
        for f, d in reversed(self.labels):
            if f is not self.func and f is not None: break
            if f is None and self.func.parent: break
            for n in d:
                if n not in vis: vis.append(n)
        if not vis: return False
        name = self.g.choice(vis)
        for f, d in reversed(self.labels):
            if name in d:
                d[name][0] = True
                break
        self.emit("if (1==1) goto " + name)
        return True

    def stmt(self):
        g = self.g
        self.left -= 1
        kinds = [(4, "local"), (4, "assign"), (3, "call"), (1, "op"), (1.5, "func"), (1, "lfunc"), (1, "do"), (1, "if"), (0.8, "for"), (0.6, "forin"), (0.5, "while"),
                 (0.7, "repeat"), (0.6, "goto"), (0.6, "hint"), (0.5, "method"), (0.5, "short"), (0.6, "init"), (0.3, "env")]
        k = g.weighted(kinds if self.depth < 5 else kinds[:4])
        if k == "local":
            names = self.new_names(g.weighted([(5, 1), (2, 2), (1, 3)]))
            self.emit("local ")
            vs = []
            for i, n in enumerate(names):
                if i: self.emit(", ")
                vs.append(self.declare(n))
            if g.bool(0.8):
                self.emit(" = ")
                for i in range(g.int(1, len(names))):
                    if i: self.emit(",")
                    self.expr()
            self.scopes.append({v.name: v for v in vs})
        elif k == "assign":
            n = g.weighted([(5, 1), (1, 2)])
            for i in range(n):
                if i: self.emit(",")
                if g.bool(0.12):
                    self.var("read")
                    self.emit("." + g.choice(NAMES))
                else: self.var("assign")
            self.emit("=")
            self.expr()
        elif k == "call":
            self.var("read", g.choice(["print", "spr", "foo", "bar", "a"]))
            self.emit("(")
            for i in range(g.int(0, 2)):
                if i: self.emit(", ")
                self.expr()
            self.emit(")")
        elif k == "env": # (whatever is in another environment can't be known, and _ENV is meant to hide another one)
            self.emit(g.choice(["do local _ENV={} do local _ENV={} zz1=zz2 end end", "for _ENV=1,2 do local _ENV={} end", "do local _ENV={} local _ENV={} function zz4() end end",
                                "do local function _f(_ENV) return zz3 end end", "do local _ENV={} local function _f(_ENV) local _ENV=_ENV zz5.x=1 end end"]))
        elif k == "op":
            self.var("op")
            self.emit(g.choice(["+=", " -= ", "..="]))
            self.expr()
        elif k == "func":
            init = self.hint_func()
            self.emit("function ")
            self.var("func")
            self.func_body(init)
        elif k == "init":
            if self.func.parent and g.bool(): # (only at the root)
                self.emit("print()")
                self.touch("print")
            else:
                if g.bool(0.8):
                    self.emit("function ")
                    self.var("func", "_init")
                else:
                    self.emit("local function ")
                    v = self.declare("_init")
                    self.scopes.append({v.name: v})
                self.func_body(not self.func.parent) # (inside a function, it's a function like any other)
        elif k == "method":
            self.emit("function ")
            self.var("read")
            self.emit("." + g.choice(NAMES) if g.bool() else ":" + g.choice(NAMES))
            self.func_body(False, self.out[-1][0] == ":")
        elif k == "lfunc":
            init = self.hint_func()
            self.emit("local function ")
            v = self.declare(g.choice(NAMES))
            self.scopes.append({v.name: v})
            self.func_body(init)
        elif k == "do":
            self.emit("do\n")
            self.block()
            self.emit("end")
        elif k == "if":
            self.emit("if ")
            self.expr()
            self.emit(" then\n")
            self.block()
            if g.bool(0.3):
                self.emit("elseif ")
                self.expr()
                self.emit(" then\n")
                self.block()
            if g.bool(0.3):
                self.emit("else\n")
                self.block()
            self.emit("end")
        elif k == "for" or k == "forin":
            self.emit("for ")
            base = len(self.scopes)
            vs = [self.declare(n) for n in self.new_names(1)]
            if k == "forin":
                if g.bool():
                    names = [n for n in NAMES if n != vs[0].name or n == "_"]
                    self.emit(",")
                    vs.append(self.declare(g.choice(names)))
                self.emit(" in ")
                self.expr()
            else:
                self.emit("=")
                self.expr()
                self.emit(",")
                self.expr()
            self.scopes.append({v.name: v for v in vs})
            self.emit(" do\n")
            self.block()
            self.emit("end")
            del self.scopes[base:]
        elif k == "while":
            self.emit("while ")
            self.expr()
            self.emit(" do\n")
            self.block()
            self.emit("end")
        elif k == "repeat":
            self.emit("repeat\n")
            self.block(until=True)
        elif k == "goto":
            if not self.goto(): self.emit("print()"); self.touch("print")
        elif k == "short":
            self.emit("if (")
            self.expr(2)
            self.emit(") ")
            self.var("assign")
            self.emit("=")
            self.expr(2)
        elif k == "hint":
            # (used:: only of globals, else it is a mention of them)
            hs = []
            for _ in range(g.int(1, 2)):
                n = g.choice(NAMES)
                if g.bool(0.4):
                    hs.append("used::" + n)
                    self.hint_used.add(n)
                else:
                    hs.append(n)
                    self.hint_globals.add(n)
            self.emit(g.choice(["--$lint: ", "--$lint:", "--[[$lint: "]) + g.choice([", ", ",", " "]).join(hs))
            if self.out[-1].startswith("--[["): self.emit("]]")
        self.emit("\n")

    def touch(self, name):
        v = self.find(name)
        if v: v.used = True
        else: self.globals.append((name, "read", None, False))

    # --- the reference linter

    def warnings(self, off, extra):
        """-> required and optional warnings as sets of (line, col, class, name); off: disabled classes"""
        defined = {n for n, role, pos, may in self.globals if may} | self.hint_globals
        mentioned = {n for n, role, pos, may in self.globals} | defined
        used = {n for n, role, pos, may in self.globals if role == "read"} | self.hint_used
        for e in extra:
            if e.startswith("used::"): used.add(e[6:])
            else:
                defined.add(e)
                mentioned.add(e)
        req, opt = [], []
        def add(cls, pos, name, to=None):
            if cls not in off and pos: (req if to is None else to).append((*pos, cls, name))
        for n, role, pos, may in self.globals:
            if n not in defined:
                if n in BUILTIN:
                    if role in ("assign", "func"): add("undefined", pos, n)
                else: add("undefined", pos, n)
            if n not in used and not n.startswith("_"): add("unused-global", pos, n)
        for v, pos, prev in self.decls:
            if v.name != "_":
                if prev: add("duplicate", pos, v.name)
                elif v.name in mentioned: add("duplicate-global", pos, v.name)
                elif v.name in used: add("duplicate-global", pos, v.name, opt) # (only mentioned by a used:: hint)
            if not v.used and not v.name.startswith("_"):
                if v.param == "param":
                    if v.assigned: add("unused", pos, v.name, opt)
                else: add("unused", pos, v.name)
        for n, pos, prev, u in self.labeldecls:
            if prev and n != "_": add("duplicate", pos, n)
            if not u[0] and not n.startswith("_"): add("unused", pos, n)
        return req, opt

CLASSES = [(r"Built-in global '(\w+)' assigned outside", "undefined"), (r"Identifier '(\w+)' not found", "undefined"),
           (r"Local '(\w+)' has the same name as a (?:built-in )?global", "duplicate-global"), (r"(?:Local|Label) '(\w+)' has the same name as", "duplicate"),
           (r"Global '(\w+)' is(?:n't used| only ever assigned)", "unused-global"), (r"(?:Local|Label) '(\w+)' is(?:n't used| only ever assigned)", "unused")]

def parse_warning(line, path):
    m = re.fullmatch(re.escape(path) + r":(\d+):(\d+): (.*)", line)
    if not m: return None
    for pat, cls in CLASSES:
        n = re.match(pat, m.group(3))
        if n: return (int(m.group(1)), int(m.group(2)), cls, n.group(1))

def prop_lint(g, ctx):
    ctx.s.clear()
    gen = Gen(g, g.choice([4, 8, 15, 30]))
    while gen.left > 0: gen.stmt()
    code = "".join(gen.out)
    reference(code.encode())
    args, off = [], set()
    if g.bool(0.4):
        for c in ("unused", "unused-global", "duplicate", "duplicate-global", "undefined"):
            if g.bool(0.3):
                args.append("--no-lint-" + c)
                off.add(c)
        if "unused" in off: off.add("unused-global")
        if "duplicate" in off: off.add("duplicate-global")
    extra = []
    if g.bool(0.25):
        extra = [g.choice(["", "", "used::"]) + g.choice(NAMES) for _ in range(g.int(1, 2))]
        args += ["--lint-global", g.choice([",", ", "]).join(extra)]
    req, opt = gen.warnings(off, extra)
    path = ctx.s.write("a.lua", code)
    nofail = g.bool(0.5)
    if nofail: args.append("--no-lint-fail")
    rest = g.choice([[], ["--minify"], ["--minify-safe-only"], ["--unminify"], ["--minify", "--focus-tokens"]])
    out = ctx.s.path("o.p8")
    r = tool.run([path, out, "--lint", *args, *rest], cwd=ctx.s.dir)
    d = dict(code=code, args=" ".join(args + rest), output=r.out)
    check_ran(r, code.encode(), allow=(0, 2))
    lines = r.out.split("\n")[:-1]
    if lines and lines[0] == "Lint warnings:": lines = lines[1:]
    got = []
    for l in lines:
        w = parse_warning(l, "a.lua")
        if not w: raise Violation("message", f"not understood: {l!r}", **d)
        if w[3] == "self": continue
        got.append(w)
    left = list(got)
    for w in req:
        if w in left: left.remove(w)
        else: raise Violation("missing:" + w[2], f"no warning of class {w[2]} about {w[3]} at {w[0]}:{w[1]}", **d)
    for w in left:
        if w not in opt: raise Violation("extra:" + w[2], f"unexpected warning of class {w[2]} about {w[3]} at {w[0]}:{w[1]}", **d)
    if r.code != (2 if lines and not nofail else 0):
        raise Violation("status", f"exit status {r.code} with {len(lines)} warnings", **d)
    wrote = os.path.exists(out)
    if wrote != (nofail or not lines): raise Violation("written", f"output written: {wrote}", **d)
    if wrote:
        out2 = ctx.s.path("o2.p8")
        check_ran(tool.run([path, out2, *rest], cwd=ctx.s.dir), code.encode())
        if ctx.s.read("o.p8") != ctx.s.read("o2.p8"): raise Violation("changed", "linting changes the produced cart", **d)
    classes = {w[2] for w in got}
    for c in classes: g.event(c, sum(w[2] == c for w in got))
    if not got: g.event("clean")
    if len(classes) >= 2:
        g.mark(code + repr(args))
        g.sample = d

CHECKS = [("lint", prop_lint, 3000, 60000)]
