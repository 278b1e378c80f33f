from common import *
from lang import *
from tool import Ctx
import renaming
from renaming import BUILTIN_GLOBALS, BUILTIN_MEMBERS
import os, fnmatch, re

PID = "P06"
TECHNIQUE = "property-based testing: random programs with random preserve rules, hints and sub-language strings; a reference model predicts for each occurrence whether it stays, gets its hinted name or shares the name of its class; z8lua bytecode decides captures; the rename map is compared with what was renamed"
NOTE = ("Random search. Rules that contradict each other in a way that the documentation doesn't settle (e.g. a table's wildcard against a member's exclusion) aren't generated for the same name.")
RULE = "random programs over few names, with rules (names, wildcards, negation, tables) and hints; non-trivial if some occurrence is kept or hinted due to a rule or hint, and some other identifier is renamed"
ASSUMPTIONS = ["an exclusion beats the wildcards that include the name", "the table of an access is the variable right before the dot, or the variable that a constructor is directly assigned to"]

def make_ctx(): return Ctx()

GLOBALS = ["pos", "vel", "score", "k_max", "k_min", "my_env", "upd", "tbl", "a", "b", "foo", "x", "h\x8e"]
MEMBERS = ["x", "y", "pos", "k_max", "my_x", "my_y", "name", "foo", "a", "hp", "upd", "_z", "h\x8e"]
LOCALS = ["l1", "l2", "a", "b", "tbl", "x", "foo", "self", "pos", "i"]
BUILTINS = ["print", "add", "circfill", "rectfill", "max", "_update", "_init", "rnd"]

# --- rules

class Rules:
    """what the documentation says about rules; None: not settled"""
    def __init__(r): r.g, r.m, r.keys_as_globals, r.texts = [], [], False, []
    def add(r, text):
        r.texts.append(text)
        neg = text.startswith("!")
        t = text.lstrip("!")
        if t in ("*=*.*", "*.*=*"): r.keys_as_globals = True
        elif "." in t: r.m.append((*t.split(".", 1), neg))
        else: r.g.append((t, neg))
    def decide(r, hits, default):
        """hits: (specificity, neg)"""
        pos, neg = [s for s, n in hits if not n], [s for s, n in hits if n]
        if default: pos.append((1,) * len((hits or [((0,), 0)])[0][0]))
        if not neg: return bool(pos)
        if not pos: return False
        # excluded, if each of the inclusions is wilder than some exclusion or the exclusion is about the very name
        best = max(neg)
        if all(p <= best and p != (0,) * len(p) for p in pos) or all(not any(p) for p in pos): return False
        return None
    def global_kept(r, name, default):
        hits = [((int("*" not in p),), n) for p, n in r.g if fnmatch.fnmatchcase(name, p)]
        pos = [s for s, n in hits if not n] + ([(1,)] if default else [])
        neg = [s for s, n in hits if n]
        if not neg: return bool(pos)
        if not pos: return False
        if (1,) in neg: return False # about this very name. (given twice with opposite meaning: never generated)
        if (1,) in pos: return None  # p*, !p: in favour of a name, against a wildcard
        return None if ("*", True) in r.g else False
    def member_kept(r, table, name, default):
        hits = []
        for t, m, n in r.m:
            if fnmatch.fnmatchcase(table, t) and fnmatch.fnmatchcase(name, m): hits.append((int("*" not in t), int("*" not in m), n))
        pos = [(a, b) for a, b, n in hits if not n] + ([(0, 1)] if default else [])
        neg = [(a, b) for a, b, n in hits if n]
        if not neg: return bool(pos)
        if not pos: return False
        if all(p == (0, 0) for p in pos) and ("*", "*", True) not in r.m: return False # *.*, !...
        if (1, 1) in neg: return False
        return None

def gen_rules(g, builtin_neg=True):
    r = Rules()
    gs, ms = {}, {}
    for _ in range(g.count(0, 5, 2)):
        neg = g.bool(0.25)
        if g.bool(0.5):
            p = g.choice(GLOBALS + GLOBALS + ["k_*", "*o*", "*", "my_*", "*s", "p*", "upd*", "x*"])
            if neg and g.bool(0.5): p = g.choice(["circfill", "rectfill", "print", "rect*"])
        else:
            p = g.choice(["*", "*", "*", "tbl", "my_env", "foo", "my_*", "t*", "a", "l1", "_ENV"]) + "." + g.choice(MEMBERS + ["*", "*", "*", "my_*", "k_*", "*o*", "_*"])
        if p in gs: neg = gs[p] # (the same pattern both ways isn't settled)
        gs[p] = neg
        r.add(("!" if neg else "") + p)
    if g.bool(0.12): r.add(g.choice(["*=*.*", "*.*=*"]))
    return r

# --- programs: text pieces and identifier occurrences

class Occ:
    """an occurrence of an identifier (or of one within a string)"""
    __slots__ = ("name", "kind", "table", "explicit", "keep", "var", "tok", "gk", "seps")
    def __init__(o, name, kind, table="", var=None, keep=False, explicit=False):
        o.name, o.kind, o.table, o.var, o.keep, o.explicit = name, kind, table, var, keep, explicit
        o.seps = [] # the separators of the string it's in
        o.gk = None # the global variable whose hint (anywhere in the code) decides
    def resolve(o, gkeys):
        k = gkeys.get(o.gk)
        if k: o.keep, o.kind, o.explicit = k == "preserve", "member" if k == "preserve" else k, True

class Local:
    def __init__(v, name): v.name, v.keys, v.rename = name, None, None

SEPS = [",", ";", "=", ":", "|", ".", "/"]
LETTERS = ["q", "j", "w", "Q", "E", "A", "1", "7", "0"] # (in no name)

def letter_sep(g, other=None):
    c = g.choice([c for c in LETTERS if c != other])
    return (c if c.isdigit() and g.bool() else "\\w" + c), c

class HintGen:
    def __init__(h, g, hints=True, env=True):
        h.g, h.hints, h.envs = g, hints, env
        h.toks = []     # (text, Occ or None, [Occ or str] for strings)
        h.scopes = [{}]
        h.env_kind = [None] # what globals are, in the scopes
        h.gkeys = {}    # of global variables
        h.renames = {}  # (kind, name) or Local -> new name
        h.depth = 0
        h.aliases = []
        h.nlabel = 0

    def t(h, *texts):
        for x in texts: h.toks.append((x, None, None))
    def hint(h, s):
        g = h.g
        h.toks.append((g.choice(["--[[$%s]]", "--[[$%s]]", "--[[%s]]"]) % s if not s.startswith(("placeholder", "def-alias")) else f"--[[${s}]]", None, None))
    def occ(h, o, text=None):
        h.toks.append((text or o.name, o, None))
        return o
    def p(h, prob): return h.hints and h.g.bool(prob)

    def lookup(h, name):
        for s in reversed(h.scopes):
            if name in s: return s[name]
        return None

    # variables
    def var(h, name=None, hintable=True, call=False):
        """an occurrence of a variable. -> the Local, ('global', name)"""
        g = h.g
        locs = sorted({n for s in h.scopes for n in s if n != "_ENV"})
        if name is None: name = g.choice(locs) if locs and g.bool(0.5) else g.choice(GLOBALS) if g.bool(0.75) else g.choice(BUILTINS)
        if name in BUILTINS and h.env_kind[-1] is not None: name = "score" # (some builtins are locals of the console, which no _ENV influences)
        v = h.lookup(name)
        if v:
            h.occ(Occ(name, "local", var=v))
            return v
        kind, explicit, keep = "global", False, False
        if hintable and name not in BUILTINS and h.p(0.1):
            k = g.choice(["global", "member", "preserve"])
            h.hint(k)
            if k == "preserve": keep = True
            else: kind = k
            explicit = True
        elif h.env_kind[-1] is not None:
            if h.env_kind[-1] == "preserve": keep = True
            else: kind = h.env_kind[-1]
            explicit = True
        h.occ(Occ(name, kind, keep=keep, explicit=explicit))
        return ("global", name)

    def keysof(h, v):
        return v.keys if isinstance(v, Local) else v if v else None

    def key(h, table, keys, name=None):
        """the occurrence of a member. table: name of the variable or '' ; keys: the kind by hint"""
        g = h.g
        name = name or (g.choice(MEMBERS) if g.bool(0.9) else g.choice(["__index", "n", "__call"]))
        kind, keep, explicit, gk = "member", False, False, None
        if h.p(0.1):
            k = g.choice(["global", "member", "preserve"])
            h.hint(k)
            keep, kind, explicit = k == "preserve", "member" if k == "preserve" else k, True
        elif isinstance(keys, tuple): gk = keys[1]
        elif keys is not None: keep, kind, explicit = keys == "preserve", "member" if keys == "preserve" else keys, True
        h.occ(Occ(name, kind, table, keep=keep, explicit=explicit)).gk = gk
        # (an explicit global isn't influenced by the table)
        return name

    def keyshint(h, prob=0.12):
        if not h.p(prob): return None
        k = h.g.choice(["preserve", "global", "member"])
        h.hint(k + "-keys")
        return k

    # expressions
    def expr(h, d=2, table=True):
        g = h.g
        k = g.weighted([(4, "num"), (5, "var"), (6 if d else 2, "member"), (3 if d else 0, "call"), (3 if d and table else 0, "table"), (2 if d else 0, "bin"), (1.2 if d else 0, "func"), (2, "str"), (0.5 if d else 0, "paren")])
        if k == "num": h.t(g.choice(["1", "2", "10", "0.5", "0x10"]))
        elif k == "var": h.var()
        elif k == "member": h.access(d)
        elif k == "call":
            h.access(d, call=True)
        elif k == "table": h.table(d - 1, "", None)
        elif k == "bin": h.expr(d - 1); h.t(g.choice(["+", "*", "..", "==", "and", "<"])); h.expr(d - 1)
        elif k == "func": h.t("function"); h.funcbody(d - 1)
        elif k == "str": h.string()
        else: h.t("("); h.expr(d - 1); h.t(")")

    def access(h, d, call=False, final=None):
        """prefix with members. final: 'assign' demands to end with a member"""
        g = h.g
        if g.bool(0.12) and h.envs and final != "meth":
            v = None
            h.occ(Occ("_ENV", "env"))
            table = "_ENV"
            keys = h.env_kind[-1]
            # (names through an _ENV with hinted keys follow it)
        else:
            v = h.var()
            table = v.name if isinstance(v, Local) else v[1]
            keys = h.keysof(v)
        n = g.int(1, 2) if final != "call" else 0
        for i in range(n):
            if g.bool(0.2) and not (final == "assign" and i == n - 1):
                h.t("["); h.expr(0); h.t("]")
                table, keys = "", None
                continue
            h.t(".")
            h.key(table, keys)
            table, keys = "", None
        if call:
            if g.bool(0.3):
                h.t(":"); h.key("", None)
            h.t("(")
            for i in range(g.int(0, 2)):
                if i: h.t(",")
                h.expr(d - 1)
            h.t(")")

    def table(h, d, target, keys, hinted=True):
        g = h.g
        if hinted and (k := h.keyshint()): keys = k
        h.t("{")
        for i in range(g.count(0, 3, 2)):
            j = g.draw(3)
            if j <= 1: h.key(target, keys); h.t("="); h.expr(max(d, 0))
            elif j == 2: h.expr(max(d, 0))
            else: h.t("["); h.expr(0); h.t("]", "="); h.expr(0)
            h.t(",")
        h.t("}")

    def string(h, kind=None):
        g = h.g
        if not h.p(0.7): h.toks.append(('"%s"' % g.choice(["pos", "x,y", "hello", ""]), None, ["keep"])); return
        names = lambda: g.choice(GLOBALS[:-1] + MEMBERS[:-1] + BUILTINS)
        lit = lambda: g.choice(["str", "pos", "1", "", "x", "k_max", "hello world", "7up"])
        parts = []
        k = g.choice(["member", "global", "preserve", "split", "split"])
        if k != "split":
            n = g.int(1, 4)
            for i in range(n):
                if i: parts.append(g.choice([",", ",", ";", " ", "=", "-", "1, "[1:]]))
                parts.append(Occ(names(), k if k != "preserve" else "member", keep=k == "preserve", explicit=True) if g.bool(0.9) else g.choice(["12", "7up", ""]))
            # (without a separator in between, it would be one name)
            h.hint(k)
        else:
            spec, parts = h.split(g.int(1, 2) if g.bool(0.3) else 0, lit, names, [s for s in g.shuffled(SEPS)])
            if h.aliases and g.bool(0.0): pass
            if g.bool(0.25):
                al = f"lang{len(h.aliases)}"
                h.aliases.append((al, spec))
                h.hint("language::" + al + g.choice(["", " "]))
            else: h.hint("language::split " + spec)
        q = g.choice(['"', "'", "[["])
        h.toks.append((q, None, parts))

    def split(h, depth, lit, names, seps):
        """a format of the split sub-language, and a string in it"""
        g = h.g
        sep = seps[0]
        sep_text = sep
        if g.bool(0.2): sep_text, sep = letter_sep(g)
        items, texts = [], []
        n = g.int(1, 4)
        plural = g.int(0, n - 1) if g.bool(0.6) else None
        plen = g.int(1, n - plural) if plural is not None and g.bool(0.4) else 1
        for i in range(n):
            k = g.choice(["member", "global", "string"]) if depth == 0 or g.bool(0.5) else "sub"
            if k == "sub": items.append(h.split_spec(depth - 1, seps[1:], sep))
            else: items.append(k)
        trailing = n == 1 or g.bool(0.2)
        def text_of(i):
            s = items[i] if isinstance(items[i], str) else "(" + spec_of(items[i]) + ")"
            return s + ("s" if plural is not None and plural <= i < plural + plen else "")
        def spec_of(t): return t[0]
        if trailing and n == 1: spec = text_of(0) + sep_text
        else: spec = sep_text.join(text_of(i) for i in range(n)) + (sep_text if trailing else "")
        # the parts: how many?
        count = n
        if plural is not None: count = n - plen + g.int(0, 5)
        elif g.bool(0.15): count = n + g.int(0, 2)
        if count == 0: count = 1
        types = list(items)
        if plural is not None:
            rep = count - (n - plen)
            types = items[:plural] + [items[plural + j % plen] for j in range(rep)] + items[plural + plen:]
        types = (types + ["string"] * count)[:count]
        parts = []
        for i, ty in enumerate(types):
            if i: parts.append(sep)
            parts += h.split_item(ty, lit, names, [sep], seps)
        return spec, parts

    def split_spec(h, depth, seps, outer):
        g = h.g
        items = [g.choice(["member", "global", "string"]) for _ in range(g.int(2, 3))]
        plural = g.bool(0.3)
        text = sep = seps[0]
        if g.bool(0.15): text, sep = letter_sep(g, outer)
        j = g.int(0, len(items) - 1)
        return (text.join(x + ("s" if plural and i == j else "") for i, x in enumerate(items)), sep, items, j if plural else None)

    def split_item(h, ty, lit, names, used, seps):
        g = h.g
        clean = lambda s: s if not any(u in s for u in SEPS + LETTERS) else "v"
        if ty == "string": return [clean(lit())]
        if ty in ("member", "global"):
            if g.bool(0.1): return [g.choice(["8up", "", "5"])]
            o = Occ(names(), ty, explicit=ty == "global")
            o.seps = used
            return [o]
        _, sep, items, j = ty
        types = items if j is None else items[:j] + [items[j]] * g.int(0, 3) + items[j + 1:]
        out = []
        for i, t in enumerate(types):
            if i: out.append(sep)
            out += h.split_item(t, lit, names, used + [sep], seps)
        return out

    # statements
    def newlocal(h, names=None):
        g = h.g
        v = Local(g.choice(names or LOCALS))
        if h.p(0.08): v.rename = h.fresh_rename(v); h.hint("rename::" + v.rename)
        elif h.p(0.12): v.keys = g.choice(["preserve", "global", "member"]); h.hint(v.keys + "-keys")
        h.occ(Occ(v.name, "local", var=v))
        return v

    def fresh_rename(h, key):
        n = h.g.choice(["R%d", "q%dz", "zz%d"]) % len(h.renames)
        h.renames[key] = n
        return n

    def funcbody(h, d, self=False):
        g = h.g
        h.t("(")
        scope = {}
        if self: scope["self"] = Local("self")
        for i in range(g.int(0, 2)):
            if i: h.t(",")
            v = h.newlocal()
            scope[v.name] = v
        h.t(")")
        h.scopes.append(scope)
        h.block(g.int(0, 2), ret=True)
        h.scopes.pop()
        h.t("end")

    def block(h, n, ret=False):
        h.depth += 1
        h.scopes.append({})
        for _ in range(n): h.stmt()
        if ret and h.g.bool(): h.t("return"); h.expr(1)
        h.scopes.pop()
        h.depth -= 1

    def stmt(h):
        g = h.g
        deep = h.depth > 2
        k = g.weighted([(5, "local"), (5, "assign"), (4, "massign"), (3, "call"), (0 if deep else 3, "func"), (0 if deep else 2, "do"), (0 if deep else 2, "for"), (1.2 if h.envs and not deep else 0, "env"), (1, "gtable"), (1, "op"), (1 if h.hints else 0, "grename"), (0.7, "label"), (1, "if")])
        if k == "local":
            h.t("local")
            n, vs = g.int(1, 3), []
            for i in range(n):
                if i: h.t(",")
                vs.append(h.newlocal())
            if g.bool(0.85):
                h.t("=")
                for i in range(g.int(1, n)):
                    if i: h.t(",")
                    if g.bool(0.4): h.table(1, vs[i].name, vs[i].keys)
                    else: h.expr(table=False)
            for v in vs: h.scopes[-1][v.name] = v
        elif k == "assign":
            mark = len(h.toks)
            v = h.var(hintable=True)
            h.t("=")
            if g.bool(0.3):
                h.table(1, v.name if isinstance(v, Local) else v[1], h.keysof(v))
            else: h.expr(table=False)
        elif k == "massign": h.access(1, final="assign"); h.t("="); h.expr()
        elif k == "call": h.access(1, call=True)
        elif k == "op": h.access(1, final="assign"); h.t("+="); h.expr(0)
        elif k == "func":
            h.t("function")
            j = g.draw(2)
            self = False
            if j == 0: h.var(hintable=False)
            else:
                v = h.var(hintable=False)
                table, keys = v.name if isinstance(v, Local) else v[1], h.keysof(v)
                if j == 2: self = g.bool(0.5)
                h.t(":" if self else ".")
                h.key(table, keys)
            h.funcbody(1, self)
        elif k == "do": h.t("do"); h.block(g.int(1, 3)); h.t("end")
        elif k == "if": h.t("if"); h.expr(1); h.t("then"); h.block(g.int(1, 2)); h.t("end")
        elif k == "for":
            h.t("for")
            v = h.newlocal(); sc = {v.name: v}
            h.t("=", "1", ",", "2") if g.bool(0.5) else (h.t("in", "all", "(") if False else (h.t("in"), h.t("(") , h.expr(1), h.t(")")))
            h.t("do")
            h.scopes.append(sc); h.block(g.int(1, 2)); h.scopes.pop()
            h.t("end")
        elif k == "env":
            kind = g.choice(["member", "global", "preserve"])
            if not h.hints: return
            if g.bool():
                h.t("for"); h.hint(kind + "-keys"); h.occ(Occ("_ENV", "env")); h.t("in", "("); h.expr(1); h.t(")", "do")
            else:
                h.t("do", "local"); h.hint(kind + "-keys"); h.occ(Occ("_ENV", "env")); h.t("=")
                if g.bool(): h.table(1, "_ENV", kind)
                else: h.expr(1, table=False)
            h.scopes.append({"_ENV": Local("_ENV")}); h.env_kind.append(kind)
            h.block(g.int(1, 3))
            h.scopes.pop(); h.env_kind.pop()
            h.t("end")
        elif k == "gtable":
            name = g.choice(GLOBALS)
            if h.lookup(name) or h.env_kind[-1] is not None: return
            if name not in h.gkeys and h.p(0.4): h.pending = g.choice(["preserve", "global", "member"]); h.hint(h.pending + "-keys"); h.gkeys[name] = h.pending
            h.occ(Occ(name, "global")); h.t("=")
            h.table(1, name, ("global", name))
        elif k == "grename":
            name = g.choice(GLOBALS)
            if h.lookup(name) or h.env_kind[-1] is not None or ("global", name) in h.renames: return
            n = h.fresh_rename(("global", name))
            h.hint("rename::" + n)
            h.occ(Occ(name, "global")); h.t("="); h.expr(1, table=False)
        elif k == "label":
            n = f"{g.choice(['lab', 'x', 'pos'])}{h.nlabel}"; h.nlabel += 1
            h.t("do", "goto"); h.occ(Occ(n, "label")); h.t("::"); h.occ(Occ(n, "label")); h.t("::", "end")
        if g.bool(0.15): h.t(";")

    def render(h, rules_in_code):
        """-> code (latin-1 text)"""
        g = h.g
        lines = [f"--$def-alias: {a} = split {s}" for a, s in h.aliases]
        out = []
        for x, o, parts in h.toks:
            if parts is not None and parts != ["keep"]:
                body = "".join(p.name if isinstance(p, Occ) else p for p in parts)
                x = x + body + ("]]" if x == "[[" else x)
            out.append(x)
        # (a hint must be right before what it's about; rule comments can be anywhere)
        pos = [i for i in range(len(out)) if not (i and out[i - 1].startswith("--"))]
        for r in rules_in_code:
            i = g.choice(pos) if pos else 0
            out[i] = ("\n--$preserve:" if g.bool(0.7) else "\n--preserve:") + g.choice(["", " "]) + r + "\n" + out[i] if out else r
        text = ""
        for x in out:
            text += x + ("\n" if g.bool(0.12) and not x.startswith("--[") and x != "return" else " ")
        return "\n".join(lines + [text]) + "\n"

    def occurrences(h):
        """the identifiers and strings, in order"""
        for x, o, parts in h.toks:
            if o: yield "id", o
            elif parts is not None: yield "str", (None if parts == ["keep"] else parts)

def prop_rename(g, ctx):
    rules = gen_rules(g)
    gen = HintGen(g, hints=g.bool(0.9), env=g.bool(0.5))
    for _ in range(g.int(2, 9)): gen.stmt()
    # where the rules are given
    cli, code_rules, neg_rules = [], [], []
    for r in rules.texts: g.choice([cli, code_rules] + ([neg_rules] if r.startswith("!") else [])).append(r)
    builtin = [x for x in ("pos", "foo") if g.bool(0.05)]
    not_builtin = [x for x in ("circfill", "rectfill") if g.bool(0.05)]
    in_code = []
    while code_rules:
        n = g.int(1, len(code_rules))
        in_code.append(g.choice([", ", ",", " "]).join(code_rules[:n])); code_rules = code_rules[n:]
    code = gen.render(in_code).encode("latin-1")
    safe = g.bool(0.1)
    args = ["--no-minify-consts", "--no-minify-tokens", "--no-minify-reorder"] + g.choice(FOCUSES) + g.subset(["--no-minify-lines", "--no-minify-spaces"], 0.2)
    if g.bool() and cli: args += ["--preserve", ",".join(cli)]
    else:
        for r in cli: args += ["--preserve", r]
    if neg_rules: args += ["--no-preserve", ",".join(r[1:] for r in neg_rules)]
    if safe: args.append(g.choice(["--minify-safe-only", "--rename-safe-only"]))
    if builtin: args += ["--builtin", ",".join(builtin)]
    if not_builtin: args += ["--not-builtin", ",".join(not_builtin)]
    mag = rules.keys_as_globals
    if g.bool(0.04): args.append("--rename-members-as-globals"); mag = True
    mapfile = ctx.s.path("map.txt") if g.bool(0.6) else None
    if mapfile:
        args += ["--rename-map", mapfile]
        if os.path.exists(mapfile): os.unlink(mapfile)
    ref = reference(code)
    out, run = minify(ctx, code, args)
    d = dict(input=code, output=out, args=" ".join(args), rules=rules.texts)
    if run.err.strip() or run.out.strip(): raise Violation("message", f"unexpected message: {(run.out + run.err)[:400]}", **d)
    # alignment
    try: a, b = toks(code), toks(out)
    except LexError as ex: raise Violation("tokens", f"output can't be tokenized: {ex}", **d)
    if len(a) != len(b) or any(x[0] != y[0] or x[0] not in ("id", "str") and x != y for x, y in zip(a, b)):
        raise Violation("tokens", "something other than identifiers and strings changed: " + first_diff(a, b), **d)
    ia = [(x, y) for x, y in zip(a, b) if x[0] in ("id", "str")]
    occs = list(gen.occurrences())
    for k, o in occs:
        if k == "id" and o.gk: o.resolve(gen.gkeys)
    if len(ia) != len(occs): raise RuntimeError("the check's own tokens don't match")
    # no capture
    res = compiled(out, "output", **d)
    same_structure(ref, res, d)
    # expectations
    gdef = lambda n: (n in BUILTIN_GLOBALS or n in builtin) and n not in not_builtin
    has_env = safe and any(o.kind == "env" for k, o in occs if k == "id")
    kept = hinted = renamed = 0
    classes, applied = {}, set()
    def global_kept(n):
        if safe and has_env: return True if not any(neg for _, neg in rules.g) else None
        k = rules.global_kept(n, gdef(n))
        if mag and k is not True:
            m = rules.member_kept("", n, n in BUILTIN_MEMBERS)
            k = True if m and not any(neg for _, neg in rules.g) else None if m is not False or k is None else False
        return k
    def visit(o, new, instr=False):
        nonlocal kept, hinted, renamed
        what = f"{o.kind} {o.table + '.' if o.table else ''}{o.name}"
        if o.kind == "env":
            if new != "_ENV": raise Violation("preserve", "_ENV was renamed", **d)
            return
        if o.keep and o.kind != "local":
            if ("global", o.name) in gen.renames and new == gen.renames[("global", o.name)]: return
            kept += 1
            if new != o.name: raise Violation("preserve", f"{what} is hinted to be preserved, became {new}", **d)
            return
        if o.kind == "local":
            want = o.var.rename
            if want:
                hinted += 1
                if new != want: raise Violation("rename hint", f"local {o.name} should have become {want}, became {new}", **d)
            key = ("local", o.var, o.name)
        elif o.kind == "label": key = ("label", o.name)
        else:
            kind = o.kind
            if kind == "member":
                k = rules.member_kept(o.table, o.name, o.name in BUILTIN_MEMBERS and not (o.table == "_ENV" and not o.name.startswith("__")))
                if safe and not any(n for _, _, n in rules.m): k = True
                elif safe: k = True if k else None
                if k and instr and any(neg and fnmatch.fnmatchcase(o.name, m) for _, m, neg in rules.m): k = None # (whose member it is isn't known)
                if k:
                    kept += 1
                    if new != o.name: raise Violation("preserve", f"{what} should have been preserved, became {new}", **d)
                    return
                if k is None: return
                if o.table == "_ENV" or mag: kind = "global"
            if kind == "global":
                k = global_kept(o.name)
                if k:
                    kept += 1
                    if new != o.name: raise Violation("preserve", f"{what} should have been preserved, became {new}", **d)
                    return
                if k is None: return
            # (builtins are locals of the console)
            local = o.kind == "global" and not o.explicit and o.table == "" and o.name in luarun.BUILTINS and o.name not in not_builtin
            key = ("local" if local else kind, o.name)
            want = gen.renames.get(key)
            if want is not None and o.kind == kind: hinted += 1
        old = classes.setdefault(key, new)
        if old != new: raise Violation("inconsistent", f"{what} became both {old} and {new}", **d)
        renamed += new != o.name
        # (new names come in order of length)
        if new == o.name and len(new) > 3 and o.kind in ("global", "member") and not safe and not instr and not want and new not in hinted_names:
            raise Violation("not renamed", f"{what} should have been renamed, as no rule preserves it", **d)
    hinted_names = set(gen.renames.values()) | {v.rename for k, o in occs if k == "id" for v in [o.var] if v and getattr(v, "rename", None)}
    grenamed = {n for (k, n) in (x for x in gen.renames if isinstance(x, tuple))}
    for ((ka, sa), (kb, sb)), (k, o) in zip(ia, occs):
        if k == "id":
            if ka != "id" or sa != o.name: raise RuntimeError(f"the check's own tokens don't match: {sa} {o.name}")
            if o.kind == "global" and o.name in grenamed and not o.explicit:
                hinted += 1
                if sb != gen.renames[("global", o.name)]: raise Violation("rename hint", f"global {o.name} should have become {gen.renames[('global', o.name)]}, became {sb}", **d)
                continue
            if o.kind != "local" and o.kind != "label" and o.name in grenamed: continue # (not settled: the hint is for the variable, this is something else by that name)
            visit(o, sb)
        elif o is None:
            if string_value(sa) != string_value(sb): raise Violation("string", f"{sa} became {sb}", **d)
        else:
            val = string_value(sb).decode("latin-1")
            # (names hinted may contain separators; others mustn't)
            pat = "".join(("(" + "".join(n + "|" for n in gen.renames.values()) + "(?:" + "".join(f"(?!{re.escape(x)})" for x in p.seps) + "[A-Za-z_0-9\x1e\x1f\x80-\xff])+)") if isinstance(p, Occ) else re.escape(p) for p in o)
            m = re.fullmatch(pat, val, re.S)
            if not m: raise Violation("string", f"{sa} became {sb}: not of the same form", **d)
            for p, new in zip([p for p in o if isinstance(p, Occ)], m.groups()):
                if p.kind == "global" and p.name in grenamed or p.name in grenamed: continue
                visit(p, new, True)
    # names must not clash within a kind
    for kind in ("global", "member"):
        inv = {}
        for key, new in classes.items():
            if key[0] == kind:
                if new in inv: raise Violation("merged", f"{kind}s {inv[new]} and {key[1]} both became {new}", **d)
                inv[new] = key[1]
                if new != key[1] and new in (BUILTIN_GLOBALS if kind == "global" else BUILTIN_MEMBERS): raise Violation("builtin", f"{kind} {key[1]} became the builtin {new}", **d)
        keptnames = {o.name for k, x in occs for o in ([x] if k == "id" else x or []) if isinstance(o, Occ) and not o.keep and o.name not in grenamed and (o.kind == kind and kind == "global" and global_kept(o.name) or kind == "member" and o.kind == "member" and rules.member_kept(o.table, o.name, False))}
        for new in set(inv) & keptnames:
            if inv[new] != new: raise Violation("merged", f"{kind} {inv[new]} became {new}, which is a preserved name", **d)
    # the map
    if mapfile:
        with open(mapfile, "rb") as f: lines = f.read().decode("utf8").split("\n")
        got = {}
        for l in filter(None, lines):
            m = re.fullmatch(r"(\w+) (\S+) <- (\S+)", l)
            if not m: raise Violation("map", f"odd line {l!r}", **d)
            e = (m.group(1), p8.from_text(m.group(2)).decode("latin-1"), p8.from_text(m.group(3)).decode("latin-1"))
            got[e] = got.get(e, 0) + 1
        want = {}
        for key, new in classes.items():
            old = key[-1]
            k = key[0]
            if k == "local" and isinstance(old, str) and len(key) == 2: k = "global" if ("global", new, old) in got else "local" # (either way for builtins)
            want[(k, new, old)] = want.get((k, new, old), 0) + 1 if k in ("local", "label") else 1
        for (kind, n), new in ((k, v) for k, v in gen.renames.items() if isinstance(k, tuple)): want[(kind, new, n)] = 1
        for e, n in want.items():
            if e[1] != e[2] and got.get(e, 0) < n: raise Violation("map", f"the rename map lacks {e[0]} {e[1]} <- {e[2]} (is there {got.get(e, 0)} times, should be {n})", map="\n".join(lines), **d)
        unsure = any(global_kept(n) is None for n in GLOBALS + BUILTINS) or any(rules.member_kept(t, n, n in BUILTIN_MEMBERS) is None for t in GLOBALS + LOCALS + ["_ENV", ""] for n in MEMBERS + ["__index", "n", "__call"]) or safe
        for e, n in got.items():
            if e[1] != e[2] and n > want.get(e, 0) and not (unsure and e[0] in ("global", "member")) and e[2] not in BUILTINS and e[2] not in grenamed and e[2] != "self":
                raise Violation("map", f"the rename map lists {e[0]} {e[1]} <- {e[2]}, which isn't so ({n} times, {want.get(e, 0)} expected)", map="\n".join(lines), **d)
        g.event("map checked")
    if (kept or hinted) and renamed: g.mark([code.decode("latin-1"), args])
    g.event("kept", kept); g.event("hinted", hinted); g.event("renamed", renamed)
    g.sample = dict(input=text(code), output=text(out), args=" ".join(args))

def same_structure(f1, f2, d):
    """the same registers, upvalues and instructions, whatever the constants"""
    if (f1.nparams, f1.vararg, f1.upvals, len(f1.code), len(f1.protos)) != (f2.nparams, f2.vararg, f2.upvals, len(f2.code), len(f2.protos)):
        raise Violation("capture", "a variable is bound differently (shape of a function changed)", **d)
    for i, ((o1, x1, k1), (o2, x2, k2)) in enumerate(zip(renaming._ops(f1), renaming._ops(f2))):
        if o1 != o2 or x1 != x2 or [r for r, _ in k1] != [r for r, _ in k2] or any(c1[0] != c2[0] or c1[0] != "str" and c1 != c2 for (_, c1), (_, c2) in zip(k1, k2)):
            raise Violation("capture", f"a variable is bound differently (instruction {i}: {o1, x1, k1} vs {o2, x2, k2})", **d)
    for p1, p2 in zip(f1.protos, f2.protos): same_structure(p1, p2, d)

CHECKS = [("rename", prop_rename, 8000, 150000)]
