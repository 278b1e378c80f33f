"""A small interpreter of Lua 5.4 with Picotron's additions (compound assignments, !=, \\, ^^, shorthand if/while/print, include).

Written from the Lua 5.4 manual, independently of the code under test: it is the reference for what a Picotron program does. It is strict about
syntax (labels, gotos, attributes, constants, varargs), so that it also decides whether output is valid. Text is handled as bytes decoded as latin-1.
"""
import math, sys

sys.setrecursionlimit(20000)

class SyntaxErr(Exception): pass
class LuaErr(Exception):
    def __init__(e, value): e.value = value
class Limit(BaseException): pass
class Kill(BaseException): pass

MASK, TOP = (1 << 64) - 1, 1 << 63
def wrap(i):
    i &= MASK
    return i - (1 << 64) if i & TOP else i

# --- lexer

KEYWORDS = {"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while"}
PUNCT = sorted(["+", "-", "*", "/", "//", "\\", "%", "^", "#", "&", "~", "|", "<<", ">>", "==", "~=", "!=", "<=", ">=", "<", ">", "=", "(", ")", "{", "}", "[", "]", "::", ";", ":", ",", ".", "..", "...",
    "^^", "+=", "-=", "*=", "/=", "//=", "\\=", "%=", "^=", "^^=", "&=", "|=", "<<=", ">>=", "..=", "?"], key=len, reverse=True)
COMPOUND = {"+=", "-=", "*=", "/=", "//=", "\\=", "%=", "^=", "^^=", "&=", "|=", "<<=", ">>=", "..="}

ESC = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v", "\\": "\\", '"': '"', "'": "'", "\n": "\n",
    "*": "\1", "#": "\2", "-": "\3", "|": "\4", "+": "\5", "^": "\6"} # (the last six are pico-8's, and picotron's)

def utf8(n):
    """lua's extended utf-8, as latin-1 text"""
    if n < 0x80: return chr(n)
    out, first = [], 0x3f
    while n > first:
        out.append(0x80 | (n & 0x3f)); n >>= 6; first >>= 1
    out.append(((~first << 1) & 0xff) | n)
    return "".join(map(chr, reversed(out)))

def parse_number(s):
    """the value of a numeral (text without sign or spaces), or None"""
    t = s.lower()
    try:
        if t.startswith("0x"):
            m, p, ex = t[2:].partition("p")
            if p and not (ex.lstrip("+-") and ex.lstrip("+-").isdigit() and len(ex) - len(ex.lstrip("+-")) <= 1): return None
            i, dot, f = m.partition(".")
            if not (i or f) or any(c not in "0123456789abcdef" for c in i + f): return None
            if not dot and not p: return wrap(int(i, 16))
            from fractions import Fraction
            n = int(i + f or "0", 16)
            e = (int(ex) if p else 0) - 4 * len(f)
            if not n: return 0.0
            if e > 5000: return math.inf
            if e < -20000: return 0.0
            fr = Fraction(n) * (Fraction(2) ** e)
            try: return fr.numerator / fr.denominator
            except OverflowError: return math.inf
        if t.startswith("0b") and len(t) > 2 and all(c in "01" for c in t[2:]): return wrap(int(t[2:], 2))
        m, p, ex = t.partition("e")
        if p and not (ex.lstrip("+-").isdigit() and len(ex) - len(ex.lstrip("+-")) <= 1): return None
        i, dot, f = m.partition(".")
        if not (i or f) or not (i + f).isdigit() or not t.isascii(): return None
        if not dot and not p:
            v = int(i)
            return v if v < TOP else float(v)
        return float(t)
    except (ValueError, OverflowError):
        return None

def isalpha(c): return c.isascii() and (c.isalpha() or c == "_")
def isalnum(c): return c.isascii() and (c.isalnum() or c == "_")

def long_bracket(s, i):
    """s[i] == '[': -> (content, end) or None"""
    j = i + 1
    while s[j:j + 1] == "=": j += 1
    if s[j:j + 1] != "[": return None
    close = "]" + "=" * (j - i - 1) + "]"
    e = s.find(close, j + 1)
    if e < 0: raise SyntaxErr("unfinished long string/comment")
    t = s[j + 1:e]
    t = t.replace("\r\n", "\n").replace("\n\r", "\n").replace("\r", "\n")
    return (t[1:] if t.startswith("\n") else t), e + len(close)

def lex(s):
    """-> [(kind, value, line)] with kind in: name, kw, num, str, op, eof"""
    toks, i, n, line = [], 0, len(s), 1
    while True:
        while i < n and s[i] in " \t\r\n\f\v":
            if s[i] == "\n": line += 1
            i += 1
        if i >= n: break
        c = s[i]
        if s.startswith("--", i):
            r = long_bracket(s, i + 2) if s[i + 2:i + 3] == "[" else None
            if r: line += s.count("\n", i, r[1]); i = r[1]
            else:
                while i < n and s[i] != "\n": i += 1
        elif isalpha(c):
            j = i
            while j < n and isalnum(s[j]): j += 1
            w = s[i:j]
            toks.append(("kw" if w in KEYWORDS else "name", w, line)); i = j
        elif c.isascii() and c.isdigit() or c == "." and s[i + 1:i + 2].isdigit():
            exp = "pP" if s[i:i + 2] in ("0x", "0X") else "eE"
            j = i
            while j < n:
                if s[j] in exp and s[j + 1:j + 2] in ("+", "-"): j += 2
                elif isalnum(s[j]) or s[j] == ".": j += 1
                else: break
            v = parse_number(s[i:j])
            if v is None: raise SyntaxErr(f"malformed number {s[i:j]}")
            toks.append(("num", v, line)); i = j
        elif c in "\"'":
            l0, j, out = line, i + 1, []
            while True:
                if j >= n or s[j] == "\n": raise SyntaxErr("unfinished string")
                ch = s[j]
                if ch == c: break
                if ch != "\\": out.append(ch); j += 1; continue
                e = s[j + 1:j + 2]
                if e == "": raise SyntaxErr("unfinished string")
                if e == "z":
                    j += 2
                    while j < n and s[j] in " \t\r\n\f\v":
                        if s[j] == "\n": line += 1
                        j += 1
                elif e == "x":
                    h = s[j + 2:j + 4]
                    if len(h) != 2 or any(x not in "0123456789abcdefABCDEF" for x in h): raise SyntaxErr("hexadecimal digit expected")
                    out.append(chr(int(h, 16))); j += 4
                elif e == "u":
                    k = s.find("}", j)
                    h = s[j + 3:k]
                    if s[j + 2:j + 3] != "{" or k < 0 or not h or any(x not in "0123456789abcdefABCDEF" for x in h) or int(h, 16) >= 1 << 31: raise SyntaxErr("bad unicode escape")
                    out.append(utf8(int(h, 16))); j = k + 1
                elif e.isascii() and e.isdigit():
                    k = j + 1
                    while k < j + 4 and s[k:k + 1].isascii() and s[k:k + 1].isdigit(): k += 1
                    if int(s[j + 1:k]) > 255: raise SyntaxErr("decimal escape too large")
                    out.append(chr(int(s[j + 1:k]))); j = k
                elif e in ESC:
                    out.append(ESC[e]); j += 2
                    if e == "\n": line += 1
                else: raise SyntaxErr(f"invalid escape \\{e}")
            toks.append(("str", "".join(out), line)) # (a string counts as being on its last line)
            i = j + 1
        elif c == "[" and s[i + 1:i + 2] in ("[", "=") and (r := long_bracket(s, i)):
            line += s.count("\n", i, r[1])
            toks.append(("str", r[0], line)); i = r[1]
        else:
            for p in PUNCT:
                if s.startswith(p, i): break
            else:
                if c == "!" and s.startswith("!=", i): p = "!="
                else: raise SyntaxErr(f"unexpected symbol {c!r}")
            toks.append(("op", p, line)); i += len(p)
    toks.append(("eof", "<eof>", line))
    return toks

# --- values

class Table:
    __slots__ = ("h", "meta")
    def __init__(t): t.h, t.meta = {}, None

FALSE, TRUE = ("false",), ("true",)
def key_of(k):
    c = k.__class__
    if c is float:
        if k == math.floor(k) if not (math.isinf(k) or math.isnan(k)) else False: return int(k)
    elif c is bool: return TRUE if k else FALSE
    return k
def unkey(k): return k == TRUE if k.__class__ is tuple else k

def rawget(t, k): return t.h.get(key_of(k))
def rawset(t, k, v):
    if k is None: raise LuaErr("index is nil")
    if k.__class__ is float and math.isnan(k): raise LuaErr("index is NaN")
    k = key_of(k)
    if v is None:
        if k in t.h: t.h[k] = None
    else: t.h[k] = v
def border(t):
    n, h = 0, t.h
    while h.get(n + 1) is not None: n += 1
    return n
def nextkey(t, k):
    it = iter(t.h)
    if k is not None:
        k = key_of(k)
        for x in it:
            if x == k: break
        else: raise LuaErr("invalid key to 'next'")
    for x in it:
        if t.h[x] is not None: return [unkey(x), t.h[x]]
    return [None]

class Func:
    __slots__ = ("proto", "up", "vm")
    def __init__(f, proto, up, vm): f.proto, f.up, f.vm = proto, up, vm

class Builtin:
    __slots__ = ("name", "fn")
    def __init__(b, name, fn): b.name, b.fn = name, fn

class Coro:
    def __init__(c, fn): c.fn, c.status, c.thread = fn, "suspended", None

def typename(v):
    c = v.__class__
    return ("nil" if v is None else "boolean" if c is bool else "number" if c is int or c is float else "string" if c is str else "table" if c is Table else
        "thread" if c is Coro else "function")

def fmt_float(f):
    if math.isnan(f): return "nan"
    if math.isinf(f): return "inf" if f > 0 else "-inf"
    s = "%.14g" % f
    return s if any(c in s for c in ".en") else s + ".0"

def tonumber(s):
    """the number a string denotes, or None"""
    t = s.strip(" \t\r\n\f\v")
    neg = t[:1] == "-"
    if t[:1] in ("-", "+"): t = t[1:]
    if t[:2] in ("0b", "0B"): return None
    v = parse_number(t)
    if v is None: return None
    return (wrap(-v) if v.__class__ is int else -v) if neg else v

def to_num(v):
    c = v.__class__
    if c is int or c is float: return v
    if c is str: return tonumber(v)
    return None

def to_int(v):
    """for bitwise operators; -> int or None"""
    c = v.__class__
    if c is int: return v
    if c is str:
        v = tonumber(v)
        if v is None: return None
        if v.__class__ is int: return v
        c = float
    if c is float and not math.isinf(v) and not math.isnan(v) and v == math.floor(v) and -(1 << 63) <= v < 1 << 63: return int(v)
    return None

def fmod_(a, b):
    if math.isinf(a) or b == 0 or math.isnan(a) or math.isnan(b): return math.nan
    m = math.fmod(a, b)
    if m != 0 and (m < 0) != (b < 0): m += b
    return m

def fdiv(a, b):
    if b != 0:
        try: return a / b
        except OverflowError: return math.inf if (a < 0) == (b < 0) else -math.inf
    if a == 0 or math.isnan(a): return math.nan
    return math.copysign(math.inf, a) * math.copysign(1.0, b)

def fpow(a, b):
    try: r = math.pow(a, b)
    except OverflowError: r = math.inf if a > 0 or b % 2 == 0 else -math.inf
    except ValueError: r = math.inf if a == 0 else math.nan
    return r

def shl(a, n):
    if n < 0: return shr(a, -n)
    return wrap((a & MASK) << n) if n < 64 else 0
def shr(a, n):
    if n < 0: return shl(a, -n)
    return wrap((a & MASK) >> n) if n < 64 else 0

def flo(x):
    return x if math.isinf(x) or math.isnan(x) else (float(math.floor(x)) if x != 0 and math.floor(x) != 0 else math.copysign(0.0, x))

EVENTS = {"+": "__add", "-": "__sub", "*": "__mul", "/": "__div", "%": "__mod", "^": "__pow", "//": "__idiv", "&": "__band", "|": "__bor", "~": "__bxor", "<<": "__shl", ">>": "__shr", "..": "__concat"}

def arith_num(op, a, b):
    """numbers only"""
    ints = a.__class__ is int and b.__class__ is int
    if op == "+": return wrap(a + b) if ints else float(a) + float(b)
    if op == "-": return wrap(a - b) if ints else float(a) - float(b)
    if op == "*": return wrap(a * b) if ints else float(a) * float(b)
    if op == "/": return fdiv(float(a), float(b))
    if op == "^": return fpow(float(a), float(b))
    if op == "//":
        if ints:
            if b == 0: raise LuaErr("attempt to perform 'n//0'")
            return wrap(a // b)
        return flo(fdiv(float(a), float(b)))
    if op == "%":
        if ints:
            if b == 0: raise LuaErr("attempt to perform 'n%%0'")
            return wrap(a % b)
        return fmod_(float(a), float(b))
    raise AssertionError(op)

def bits(op, a, b):
    if op == "&": return wrap(a & b)
    if op == "|": return wrap(a | b)
    if op == "~": return wrap(a ^ b)
    if op == "<<": return shl(a, b)
    return shr(a, b)

def raweq(a, b):
    if a is b: return not (a.__class__ is float and math.isnan(a))
    ca, cb = a.__class__, b.__class__
    if ca in (int, float) and cb in (int, float): return a == b
    if ca is str and cb is str: return a == b
    if ca is bool and cb is bool: return a == b
    return False

# --- parser / compiler to python closures

PREC = {"or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "!=": (3, 3), "==": (3, 3), "|": (4, 4), "~": (5, 5), "^^": (5, 5), "&": (6, 6),
    "<<": (7, 7), ">>": (7, 7), "..": (9, 8), "+": (10, 10), "-": (10, 10), "*": (11, 11), "/": (11, 11), "//": (11, 11), "\\": (11, 11), "%": (11, 11), "^": (14, 13)}
CANON = {"\\": "//", "^^": "~", "!=": "~="}
UNARY = 12

class FS:
    """a function being compiled"""
    def __init__(fs, parent, vararg):
        fs.parent, fs.vararg = parent, vararg
        fs.nslots = 0
        fs.upnames, fs.ups = {}, [] # ups: (from parent's locals?, index)
        fs.block = None

class Blk:
    def __init__(b, parent, loop):
        b.parent, b.loop = parent, loop
        b.vars = [] # (name, slot, attrib)
        b.labels, b.gotos, b.closes = {}, [], False

class Label:
    __slots__ = ("name", "nvars", "index")

class Sig:
    __slots__ = ("kind", "v")
    def __init__(s, kind, v): s.kind, s.v = kind, v
BREAK = Sig("break", None)

class Frame:
    __slots__ = ("s", "u", "va", "vm")

class Compiler:
    def __init__(c, text, vm):
        c.toks, c.i, c.vm, c.fs = lex(text), 0, vm, None

    # helpers
    def err(c, msg): raise SyntaxErr(f"line {c.toks[c.i][2]}: {msg} near {str(c.toks[c.i][1])[:30]!r}")
    @property
    def t(c): return c.toks[c.i]
    def nxt(c):
        t = c.toks[c.i]; c.i += 1
        return t
    def check(c, v): return c.t[0] in ("op", "kw") and c.t[1] == v
    def accept(c, v):
        if c.check(v): c.i += 1; return True
        return False
    def expect(c, v):
        if not c.accept(v): c.err(f"{v!r} expected")
    def name(c):
        if c.t[0] != "name": c.err("name expected")
        return c.nxt()[1]

    # scopes
    def find(c, fs, name):
        """-> ("local", slot, attrib) | ("up", index, attrib) | None"""
        b = fs.block
        while b:
            for n, slot, at in reversed(b.vars):
                if n == name: return "local", slot, at
            b = b.parent
        if name in fs.upnames: return ("up",) + fs.upnames[name]
        if fs.parent is None: return None
        r = c.find(fs.parent, name)
        if r is None: return None
        fs.upnames[name] = (len(fs.ups), r[2])
        fs.ups.append((r[0] == "local", r[1]))
        return "up", len(fs.ups) - 1, r[2]

    def declare(c, name, attrib=None):
        fs = c.fs
        slot = fs.nslots
        fs.nslots += 1
        fs.block.vars.append((name, slot, attrib))
        return slot

    # chunk / functions
    def chunk(c):
        fs = c.fs = FS(None, True)
        fs.upnames["_ENV"] = (0, None)
        fs.ups.append(None)
        body = c.block(fresh=True)
        if c.t[0] != "eof": c.err("<eof> expected")
        return fs, body

    def function(c, selfparam, line):
        fs = FS(c.fs, False)
        c.fs = fs
        fs.block = Blk(None, False)
        params = []
        if selfparam: params.append(c.declare("self"))
        c.expect("(")
        if not c.check(")"):
            while True:
                if c.accept("..."): fs.vararg = True; break
                params.append(c.declare(c.name()))
                if not c.accept(","): break
        c.expect(")")
        body = c.block(fresh=True)
        c.expect("end")
        if fs.block.gotos: c.err("no visible label " + fs.block.gotos[0]["name"])
        c.fs = fs.parent
        return c.closure(fs, params, body)

    def closure(c, fs, params, body):
        proto = (tuple(params), fs.vararg, fs.nslots, body)
        ups = fs.ups
        vm = c.vm
        def make(f):
            return Func(proto, [f.s[i] if loc else f.u[i] for loc, i in ups], vm)
        return make

    # blocks
    def block(c, fresh=False, loop=False, stop=None, until=None, line=None, pre=None):
        """-> closure running the statements (in a scope of its own)"""
        fs = c.fs
        b = fs.block = Blk(fs.block, loop)
        if pre: pre()
        stmts, labels = [], {}
        ret = False
        while True:
            if c.t[0] == "eof" or c.t[0] == "kw" and c.t[1] in ("end", "else", "elseif", "until"): break
            if line is not None and c.t[2] != line: break
            if ret: c.err("statement after return")
            if c.accept(";"): continue
            if c.check("::"):
                c.nxt(); n = c.name(); c.expect("::")
                p = b
                while p:
                    if n in p.labels: c.err(f"label {n} already defined")
                    p = p.parent
                lab = Label()
                lab.name, lab.index, lab.nvars = n, len(stmts), len(b.vars)
                # at the end of the block?
                j = c.i
                while True:
                    t = c.toks[j]
                    if line is not None and t[2] != line: end = True; break
                    if t[:2] == ("op", ";"): j += 1
                    elif t[:2] == ("op", "::"): j += 3
                    else:
                        end = t[0] == "eof" or t[0] == "kw" and t[1] in ("end", "else", "elseif"); break
                if end: lab.nvars = 0
                b.labels[n] = lab
                labels[id(lab)] = lab
                continue
            if c.check("return"):
                stmts.append(c.ret(line)); ret = True
                continue
            stmts.append(c.statement())
        if until:
            cond = until()
        else: cond = None
        # resolve gotos
        for g in b.gotos:
            lab = b.labels.get(g["name"])
            if lab is not None:
                if g["nvars"] < lab.nvars: c.err(f"goto {g['name']} jumps into the scope of a local")
                g["target"] = lab
            elif b.parent:
                b.parent.gotos.append(g); g["nvars"] = len(b.parent.vars)
            else: c.err(f"no visible label {g['name']}")
        fs.block = b.parent
        run = c.runner(stmts, labels, b.closes)
        return (run, cond) if until else run

    def runner(c, stmts, labels, closes):
        stmts = tuple(stmts)
        n = len(stmts)
        vm = c.vm
        if not labels and not closes:
            if n == 1: return stmts[0]
            def run(f):
                for s in stmts:
                    r = s(f)
                    if r is not None: return r
        else:
            def run(f):
                i = 0
                while i < n:
                    r = stmts[i](f)
                    if r is not None:
                        if r.kind == "goto" and id(r.v) in labels:
                            vm.step()
                            i = r.v.index
                            continue
                        return r
                    i += 1
        if closes:
            inner = run
            def run(f):
                mark = len(vm.tbc)
                err = None
                try: r = inner(f)
                except LuaErr as x: err, r = x, None
                while len(vm.tbc) > mark:
                    v = vm.tbc.pop()
                    try: vm.call(vm.metaof(v, "__close"), [v, err.value if err else None])
                    except LuaErr as x: err = x
                if err: raise err
                return r
        return run

    def ret(c, line):
        c.nxt()
        t = c.t
        if t[0] == "eof" or t[0] == "kw" and t[1] in ("end", "else", "elseif", "until") or t[:2] == ("op", ";") or line is not None and t[2] != line: ex = []
        else: ex = c.exprlist()
        c.accept(";")
        vals = c.multi(ex)
        return lambda f: Sig("return", vals(f))

    def multi(c, ex):
        """closure -> list of all values of the expressions"""
        if not ex: return lambda f: []
        heads = tuple(e.one for e in ex[:-1])
        last = ex[-1]
        if last.many is None:
            one = last.one
            if not heads: return lambda f: [one(f)]
            allx = heads + (one,)
            return lambda f: [e(f) for e in allx]
        many = last.many
        if not heads: return lambda f: list(many(f))
        return lambda f: [e(f) for e in heads] + list(many(f))

    # statements
    def statement(c):
        vm = c.vm
        s = c.statement_()
        def stmt(f):
            vm.steps -= 1
            if vm.steps < 0: raise Limit()
            return s(f)
        return stmt

    def statement_(c):
        t = c.t
        vm = c.vm
        line = t[2]
        if t[0] == "kw":
            k = t[1]
            if k == "if": return c.if_(line)
            if k == "while":
                c.nxt()
                cond = c.expr()
                if c.accept("do"):
                    body = c.block(loop=True)
                    c.expect("end")
                else:
                    if c.t[2] != line or not cond.paren: c.err("do expected")
                    body = c.short(line, loop=True)
                test = cond.one
                def run(f):
                    while True:
                        v = test(f)
                        if v is None or v is False: return
                        vm.step()
                        r = body(f)
                        if r is not None:
                            if r is BREAK: return
                            return r
                return run
            if k == "do":
                c.nxt()
                body = c.block()
                c.expect("end")
                return body
            if k == "for": return c.for_()
            if k == "repeat":
                c.nxt()
                def until():
                    c.expect("until")
                    return c.expr().one
                body, cond = c.block(loop=True, until=until)
                def run(f):
                    while True:
                        vm.step()
                        r = body(f)
                        if r is not None:
                            if r is BREAK: return
                            return r
                        v = cond(f)
                        if not (v is None or v is False): return
                return run
            if k == "function":
                c.nxt()
                target = c.var(c.name())
                method = False
                while c.check(".") or c.check(":"):
                    method = c.nxt()[1] == ":"
                    target = c.index(target, c.const(c.name()))
                    if method: break
                if target.set is None: c.err("assignment to const variable")
                fn = c.function(method, line)
                put = target.set
                return lambda f: put(f, fn(f))
            if k == "local":
                c.nxt()
                if c.accept("function"):
                    slot = c.declare(c.name())
                    fn = c.function(False, line)
                    def run(f):
                        cell = f.s[slot] = [None]
                        cell[0] = fn(f)
                    return run
                return c.local()
            if k == "break":
                c.nxt()
                b = c.fs.block
                while b and not b.loop: b = b.parent
                if not b: c.err("break outside a loop")
                return lambda f: BREAK
            if k == "goto":
                c.nxt()
                g = dict(name=c.name(), nvars=len(c.fs.block.vars), target=None)
                c.fs.block.gotos.append(g)
                return lambda f: Sig("goto", g["target"])
            c.err("unexpected keyword")
        if c.check("?"):
            c.nxt()
            ex = c.exprlist() if c.t[2] == line and c.t[0] != "eof" else []
            if c.t[2] == line and c.t[0] != "eof": c.err("line break expected after ?") if not (c.t[0] == "kw" and c.t[1] in ("else", "end")) else None
            pr, args = c.var("print").one, c.multi(ex)
            def run(f): vm.call(pr(f), args(f))
            return run
        # expression statement
        e = c.suffixed()
        if c.t[0] == "op" and c.t[1] in COMPOUND:
            op = c.nxt()[1][:-1]
            if e.compound is None: c.err("cannot assign")
            v = c.expr().one
            return e.compound(CANON.get(op, op), v)
        if c.check("=") or c.check(","):
            targets = [e]
            while c.accept(","): targets.append(c.suffixed())
            c.expect("=")
            ex = c.exprlist()
            for x in targets:
                if x.set is None: c.err("cannot assign")
            if len(targets) == 1 and len(ex) == 1:
                prep, v = e.prep, ex[0].one
                if prep is None:
                    put = e.set
                    return lambda f: put(f, v(f))
                def run(f):
                    p = prep(f)
                    p(v(f))
                return run
            vals = c.multi(ex)
            n = len(targets)
            def run(f):
                ps = [(x.prep(f) if x.prep else (lambda val, x=x: x.set(f, val))) for x in targets]
                vs = vals(f)
                vs += [None] * (n - len(vs))
                for i in range(n - 1, -1, -1): ps[i](vs[i])
            return run
        if not e.call: c.err("syntax error (not a statement)")
        many = e.many
        def run(f): many(f)
        return run

    def short(c, line, loop=False):
        if c.t[2] != line or c.t[0] == "eof": c.err("body expected on the line of a shorthand")
        body = c.block(line=line, loop=loop)
        return body

    def if_(c, line):
        parts, els = [], None
        c.nxt()
        cond = c.expr()
        if not (c.check("then") ):
            # shorthand
            if c.t[2] != line or not cond.paren or c.check("do"): c.err("then expected")
            parts.append((cond.one, c.short(line)))
            if c.t[2] == line and c.accept("else"):
                els = c.block(line=line)
        else:
            c.nxt()
            parts.append((cond.one, c.block()))
            while c.accept("elseif"):
                cond = c.expr().one
                c.expect("then")
                parts.append((cond, c.block()))
            if c.accept("else"): els = c.block()
            c.expect("end")
        def run(f):
            for cond, body in parts:
                v = cond(f)
                if not (v is None or v is False): return body(f)
            if els: return els(f)
        return run

    def for_(c):
        vm = c.vm
        c.nxt()
        names = [c.name()]
        if c.check("="):
            c.nxt()
            a = c.expr().one
            c.expect(",")
            b = c.expr().one
            s = c.expr().one if c.accept(",") else None
            c.expect("do")
            slots = []
            c.fs.block = Blk(c.fs.block, False)
            slot = c.declare(names[0])
            body = c.block(loop=True)
            c.outer()
            c.expect("end")
            def run(f):
                x, y, st = a(f), b(f), s(f) if s else 1
                for v in (x, y, st):
                    if v.__class__ not in (int, float): raise LuaErr("'for' value must be a number")
                if st == 0: raise LuaErr("'for' step is zero")
                if x.__class__ is int and st.__class__ is int:
                    if y.__class__ is float:
                        if math.isnan(y): return
                        y = (math.floor(y) if st > 0 else math.ceil(y)) if not math.isinf(y) else (TOP - 1 if y > 0 else -TOP)
                    lo, hi = -TOP, TOP - 1
                    y = max(min(y, hi), lo)
                else: x, y, st = float(x), float(y), float(st)
                while (x <= y) if st > 0 else (x >= y):
                    vm.step()
                    f.s[slot] = [x]
                    r = body(f)
                    if r is not None:
                        if r is BREAK: return
                        return r
                    x = x + st
                    if x.__class__ is int and not -TOP <= x < TOP: return
            return run
        while c.accept(","): names.append(c.name())
        c.expect("in")
        vals = c.multi(c.exprlist())
        c.expect("do")
        c.fs.block = Blk(c.fs.block, False)
        slots = [c.declare(n) for n in names]
        body = c.block(loop=True)
        c.outer()
        c.expect("end")
        ns = len(slots)
        def run(f):
            vs = vals(f)
            vs += [None] * (4 - len(vs))
            fn, st, ctl, cl = vs[:4]
            err, res = None, None
            try:
                while True:
                    vm.step()
                    rs = vm.call(fn, [st, ctl])
                    if not rs or rs[0] is None: break
                    ctl = rs[0]
                    for i in range(ns): f.s[slots[i]] = [rs[i] if i < len(rs) else None]
                    r = body(f)
                    if r is not None:
                        if r is not BREAK: res = r
                        break
            except LuaErr as x: err = x
            if cl is not None: vm.call(vm.metaof(cl, "__close"), [cl, err.value if err else None])
            if err: raise err
            return res
        return run

    def outer(c):
        b = c.fs.block
        for g in b.gotos:
            if b.parent is None: c.err(f"no visible label {g['name']}")
            g["nvars"] = len(b.parent.vars)
            b.parent.gotos.append(g)
        c.fs.block = b.parent

    def local(c):
        vm = c.vm
        names = []
        while True:
            n, at = c.name(), None
            if c.accept("<"):
                at = c.name()
                if at not in ("const", "close"): c.err(f"unknown attribute {at}")
                c.expect(">")
            names.append((n, at))
            if not c.accept(","): break
        if sum(at == "close" for n, at in names) > 1: c.err("multiple to-be-closed variables")
        ex = c.exprlist() if c.accept("=") else []
        slots = [c.declare(n, at) for n, at in names]
        tbc = [i for i, (n, at) in enumerate(names) if at == "close"]
        if tbc: c.fs.block.closes = True
        if len(slots) == 1 and len(ex) == 1 and not tbc:
            slot, one = slots[0], ex[0].one
            def run(f): f.s[slot] = [one(f)]
            return run
        vals = c.multi(ex)
        def run(f):
            vs = vals(f)
            for i, s in enumerate(slots): f.s[s] = [vs[i] if i < len(vs) else None]
            for i in tbc:
                v = vs[i] if i < len(vs) else None
                if v is not None and v is not False:
                    if vm.metaof(v, "__close") is None: raise LuaErr("variable got a non-closable value")
                    vm.tbc.append(v)
        return run

    # expressions
    def exprlist(c):
        l = [c.expr()]
        while c.accept(","): l.append(c.expr())
        return l

    def const(c, v):
        return Ex(lambda f: v)

    def var(c, name):
        r = c.find(c.fs, name)
        if r is None:
            return c.index(c.var("_ENV"), c.const(name))
        kind, i, at = r
        e = Ex(None)
        if kind == "local":
            e.one = lambda f: f.s[i][0]
            def put(f, v): f.s[i][0] = v
        else:
            e.one = lambda f: f.u[i][0]
            def put(f, v): f.u[i][0] = v
        if at is None:
            e.set = put
            vm = c.vm
            def compound(op, val):
                one = e.one
                return lambda f: put(f, vm.arith(op, one(f), val(f)))
            e.compound = compound
        return e

    def index(c, obj, key):
        vm = c.vm
        o, k = obj.one, key.one
        e = Ex(lambda f: vm.index(o(f), k(f)))
        def put(f, v): vm.setindex(o(f), k(f), v)
        def prep(f):
            a, b = o(f), k(f)
            return lambda v: vm.setindex(a, b, v)
        e.set, e.prep = put, prep
        def compound(op, val):
            def run(f):
                a, b = o(f), k(f)
                vm.setindex(a, b, vm.arith(op, vm.index(a, b), val(f)))
            return run
        e.compound = compound
        return e

    def suffixed(c):
        if c.t[0] == "name": e = c.var(c.nxt()[1])
        elif c.accept("("):
            x = c.expr()
            c.expect(")")
            e = Ex(x.one)
            e.paren = True
        else: c.err("unexpected symbol")
        vm = c.vm
        while True:
            if c.check("."):
                c.nxt()
                e = c.index(e, c.const(c.name()))
            elif c.check("["):
                c.nxt()
                k = c.expr()
                c.expect("]")
                e = c.index(e, k)
            elif c.check(":"):
                c.nxt()
                n = c.name()
                args = c.args()
                def mk(o, n, args):
                    def many(f):
                        s = o(f)
                        return vm.call(vm.index(s, n), [s] + args(f))
                    return many
                e = Call(mk(e.one, n, args))
            elif c.check("(") or c.check("{") or c.t[0] == "str":
                args = c.args()
                def mk(fn, args): return lambda f: vm.call(fn(f), args(f))
                e = Call(mk(e.one, args))
            else: return e

    def args(c):
        if c.t[0] == "str":
            s = c.nxt()[1]
            return lambda f: [s]
        if c.check("{"):
            one = c.table().one
            return lambda f: [one(f)]
        c.expect("(")
        if c.accept(")"): return lambda f: []
        l = c.exprlist()
        c.expect(")")
        return c.multi(l)

    def table(c):
        c.expect("{")
        items = []
        while not c.check("}"):
            if c.check("["):
                c.nxt()
                k = c.expr().one
                c.expect("]"); c.expect("=")
                items.append((k, c.expr().one, None))
            elif c.t[0] == "name" and c.toks[c.i + 1][:2] == ("op", "="):
                n = c.nxt()[1]
                c.nxt()
                items.append((lambda f, n=n: n, c.expr().one, None))
            else:
                e = c.expr()
                items.append((None, e.one, e.many if c.check("}") or (c.check(",") or c.check(";")) and c.toks[c.i + 1][:2] == ("op", "}") else None))
            if not (c.accept(",") or c.accept(";")): break
        c.expect("}")
        def one(f):
            t = Table()
            n = 1
            for k, v, many in items:
                if k is not None: rawset(t, k(f), v(f))
                elif many:
                    for x in many(f):
                        if x is not None: t.h[n] = x
                        n += 1
                else:
                    x = v(f)
                    if x is not None: t.h[n] = x
                    n += 1
            return t
        return Ex(one)

    def simple(c):
        t = c.t
        if t[0] in ("num", "str"):
            c.nxt()
            e = c.const(t[1])
            return e
        if t[0] == "kw":
            if t[1] in ("nil", "true", "false"):
                c.nxt()
                return c.const({"nil": None, "true": True, "false": False}[t[1]])
            if t[1] == "function":
                c.nxt()
                return Ex(c.function(False, t[2]))
            c.err("unexpected keyword")
        if c.check("{"): return c.table()
        if c.check("..."):
            if not c.fs.vararg: c.err("cannot use ... outside a vararg function")
            c.nxt()
            e = Ex(lambda f: f.va[0] if f.va else None)
            e.many = lambda f: f.va
            return e
        return c.suffixed()

    def expr(c, limit=0):
        vm = c.vm
        t = c.t
        if t[0] == "kw" and t[1] == "not":
            c.nxt()
            x = c.expr(UNARY).one
            def one(f):
                v = x(f)
                return v is None or v is False
            e = Ex(one)
        elif t[0] == "op" and t[1] in ("-", "~", "#"):
            op = c.nxt()[1]
            x = c.expr(UNARY).one
            fn = {"-": vm.neg, "~": vm.bnot, "#": vm.len}[op]
            e = Ex(lambda f, fn=fn, x=x: fn(x(f)))
        else: e = c.simple()
        while c.t[0] in ("op", "kw") and c.t[1] in PREC and PREC[c.t[1]][0] > limit:
            op = c.nxt()[1]
            r = c.expr(PREC[op][1]).one
            e = Ex(c.binop(CANON.get(op, op), e.one, r))
        return e

    def binop(c, op, a, b):
        vm = c.vm
        if op == "and":
            def one(f):
                v = a(f)
                return v if v is None or v is False else b(f)
        elif op == "or":
            def one(f):
                v = a(f)
                return b(f) if v is None or v is False else v
        elif op == "==": one = lambda f: vm.eq(a(f), b(f))
        elif op == "~=": one = lambda f: not vm.eq(a(f), b(f))
        elif op == "<": one = lambda f: vm.lt(a(f), b(f))
        elif op == "<=": one = lambda f: vm.le(a(f), b(f))
        elif op == ">":
            def one(f):
                x = a(f)
                return vm.lt(b(f), x)
        elif op == ">=":
            def one(f):
                x = a(f)
                return vm.le(b(f), x)
        else: one = lambda f: vm.arith(op, a(f), b(f))
        return one

class Ex:
    __slots__ = ("one", "many", "set", "prep", "compound", "call", "paren")
    def __init__(e, one):
        e.one, e.many, e.set, e.prep, e.compound, e.call, e.paren = one, None, None, None, None, False, False
def Call(many):
    def one(f):
        r = many(f)
        return r[0] if r else None
    e = Ex(one)
    e.many, e.call = many, True
    return e

# --- the machine

class VM:
    def __init__(vm, files=None, steps=200000, lib=None):
        vm.steps, vm.depth, vm.events, vm.tbc = steps, 0, [], []
        vm.files = files or {}
        vm.G = Table()
        vm.strmeta = Table()
        vm.coros, vm.current = [], None
        import lua54lib
        lua54lib.install(vm)

    def step(vm):
        vm.steps -= 1
        if vm.steps < 0: raise Limit()

    def load(vm, text):
        fs, body = Compiler(text, vm).chunk()
        return Func(((), True, fs.nslots, body), [[vm.G]], vm)

    def metaof(vm, v, name):
        c = v.__class__
        m = v.meta if c is Table else vm.strmeta if c is str else None
        return m.h.get(name) if m is not None else None

    def call(vm, fn, args):
        c = fn.__class__
        if c is Func:
            params, vararg, nslots, body = fn.proto
            f = Frame()
            f.s = [None] * nslots
            f.u = fn.up
            n = len(args)
            for i, p in enumerate(params): f.s[p] = [args[i] if i < n else None]
            f.va = args[len(params):] if vararg else None
            vm.depth += 1
            if vm.depth > 160:
                vm.depth -= 1
                raise LuaErr("stack overflow")
            vm.steps -= 1
            if vm.steps < 0: raise Limit()
            try: r = body(f)
            finally: vm.depth -= 1
            return r.v if r is not None else []
        if c is Builtin: return fn.fn(args)
        m = vm.metaof(fn, "__call")
        if m is None: raise LuaErr(f"attempt to call a {typename(fn)} value")
        return vm.call(m, [fn] + args)

    def index(vm, o, k):
        for _ in range(50):
            if o.__class__ is Table:
                v = o.h.get(key_of(k) if k.__class__ is not str else k)
                if v is not None or o.meta is None: return v
                m = o.meta.h.get("__index")
                if m is None: return None
            else:
                m = vm.metaof(o, "__index")
                if m is None: raise LuaErr(f"attempt to index a {typename(o)} value")
            if m.__class__ in (Func, Builtin):
                r = vm.call(m, [o, k])
                return r[0] if r else None
            o = m
        raise LuaErr("'__index' chain too long")

    def setindex(vm, o, k, v):
        for _ in range(50):
            if o.__class__ is Table:
                m = None if o.meta is None else o.meta.h.get("__newindex")
                if m is None or rawget(o, k) is not None:
                    rawset(o, k, v)
                    return
            else:
                m = vm.metaof(o, "__newindex")
                if m is None: raise LuaErr(f"attempt to index a {typename(o)} value")
            if m.__class__ in (Func, Builtin):
                vm.call(m, [o, k, v])
                return
            o = m
        raise LuaErr("'__newindex' chain too long")

    def meta2(vm, op, a, b, what):
        m = vm.metaof(a, EVENTS[op])
        if m is None: m = vm.metaof(b, EVENTS[op])
        if m is None: raise LuaErr(f"attempt to {what} a {typename(b if to_num(a) is not None else a)} value")
        r = vm.call(m, [a, b])
        return r[0] if r else None

    def arith(vm, op, a, b):
        ca, cb = a.__class__, b.__class__
        if op == "..":
            if ca in (str, int, float) and cb in (str, int, float):
                s = vm.tostr(a) + vm.tostr(b)
                if len(s) > 100000: raise Limit()
                return s
            return vm.meta2(op, a, b, "concatenate")
        if op in ("&", "|", "~", "<<", ">>"):
            x, y = to_int(a), to_int(b)
            if x is not None and y is not None: return bits(op, x, y)
            if to_num(a) is not None and to_num(b) is not None: raise LuaErr("number has no integer representation")
            return vm.meta2(op, a, b, "perform bitwise operation on")
        if (ca is int or ca is float) and (cb is int or cb is float): return arith_num(op, a, b)
        x, y = to_num(a), to_num(b)
        if x is not None and y is not None: return arith_num(op, x, y)
        return vm.meta2(op, a, b, "perform arithmetic on")

    def neg(vm, a):
        x = to_num(a)
        if x is not None: return wrap(-x) if x.__class__ is int else -x
        m = vm.metaof(a, "__unm")
        if m is None: raise LuaErr(f"attempt to perform arithmetic on a {typename(a)} value")
        return (vm.call(m, [a, a]) or [None])[0]
    def bnot(vm, a):
        x = to_int(a)
        if x is not None: return ~x
        if to_num(a) is not None: raise LuaErr("number has no integer representation")
        m = vm.metaof(a, "__bnot")
        if m is None: raise LuaErr(f"attempt to perform bitwise operation on a {typename(a)} value")
        return (vm.call(m, [a, a]) or [None])[0]
    def len(vm, a):
        if a.__class__ is str: return len(a)
        m = vm.metaof(a, "__len")
        if m is not None: return (vm.call(m, [a]) or [None])[0]
        if a.__class__ is Table: return border(a)
        raise LuaErr(f"attempt to get length of a {typename(a)} value")
    def eq(vm, a, b):
        if raweq(a, b): return True
        if a.__class__ is Table and b.__class__ is Table:
            m = vm.metaof(a, "__eq") or vm.metaof(b, "__eq")
            if m is not None:
                r = vm.call(m, [a, b])
                return bool(r) and not (r[0] is None or r[0] is False)
        return False
    def cmp(vm, a, b, ev, fn):
        ca, cb = a.__class__, b.__class__
        if ca in (int, float) and cb in (int, float) or ca is str and cb is str: return fn(a, b)
        m = vm.metaof(a, ev) or vm.metaof(b, ev)
        if m is None: raise LuaErr(f"attempt to compare {typename(a)} with {typename(b)}")
        r = vm.call(m, [a, b])
        return bool(r) and not (r[0] is None or r[0] is False)
    def lt(vm, a, b): return vm.cmp(a, b, "__lt", lambda x, y: x < y)
    def le(vm, a, b): return vm.cmp(a, b, "__le", lambda x, y: x <= y)

    def tostr(vm, v):
        c = v.__class__
        if c is str: return v
        if v is None: return "nil"
        if c is bool: return "true" if v else "false"
        if c is int: return str(v)
        if c is float: return fmt_float(v)
        m = vm.metaof(v, "__tostring")
        if m is not None:
            r = vm.call(m, [v])
            return r[0] if r and r[0].__class__ is str else "?"
        return typename(v)

    def shutdown(vm):
        for co in vm.coros:
            if co.thread is not None and co.status != "dead":
                co.kill = True
                co.go.release()
                co.thread.join()

class Trace:
    pass

def run(files, main="main.lua", steps=200000):
    """files: {name: bytes}. -> events, status ("ok", "error", "syntax"), msg, limited"""
    if isinstance(files, bytes): files = {main: files}
    vm = VM({k: v.decode("latin-1") for k, v in files.items()}, steps)
    t = Trace()
    t.status, t.msg, t.limited, t.events = "ok", "", False, vm.events
    try:
        fn = vm.load(vm.files[main])
        vm.call(fn, [])
        for cb, n in (("_init", 1), ("_update", 2), ("_draw", 2)): # as the console does
            for _ in range(n):
                f = vm.G.h.get(cb)
                if f is None: break
                vm.events.append("#" + cb)
                vm.call(f, [])
    except SyntaxErr as e: t.status, t.msg = "syntax", str(e)
    except LuaErr as e: t.status, t.msg = "error", typename(e.value) + (":" + str(e.value) if e.value.__class__ in (str, int, float, bool) else "")
    except (Limit, RecursionError): t.limited = True
    finally: vm.shutdown()
    t.rawmsg, t.mem = t.msg, None
    return t

def evaluate(expr, steps=20000):
    """the values of an expression (text): list, or LuaErr raised"""
    vm = VM({}, steps)
    return vm.call(vm.load("return " + expr), [])
