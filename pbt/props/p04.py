import struct, math
from fractions import Fraction
from common import *
from tool import Ctx
from lang import *

PID = "P04"
TECHNIQUE = "property-based testing: literals of known value, traced by running the output in z8lua (PICO-8) or evaluated by an own evaluator (Picotron)"
NOTE = ("Random search over literal spellings, values, contexts and tool modes; the value of each literal is known to the generator. On PICO-8 the output "
    "is run by z8lua and the values it passes to print are compared; for Picotron an own evaluator of Lua 5.4 literals is used.")
RULE = ("programs of up to 60 literals (random spellings of random values; all 256 characters; 32-bit values near powers of two, uniformly, and near decimal "
    "fractions) in random contexts through random minification modes, unminification, and a second pass; non-trivial if some literal's spelling changed")
ASSUMPTIONS = ["z8lua reads literals as the console does", "Picotron reads literals as Lua 5.4 does, apart from 0b literals"]
MODES = [["--minify"], ["--minify-safe-only"], ["--minify", "--no-minify-consts"], ["--minify", "--no-minify-tokens"],
    ["--minify", "--no-minify-rename", "--no-minify-reorder"], ["--minify-consts-only"], ["--unminify"], ["--minify", "--no-minify-spaces"]]

def make_ctx():
    return Ctx()

def expect_num(v):
    return "0x%04x.%04x" % (v >> 16, v & 0xffff)

def event(v):
    return "s:" + v.decode("latin-1") if isinstance(v, bytes) else expect_num(v & 0xffffffff)

def events(code, what, d):
    tr = luarun.run(code)
    k = tr.key()
    if k[0] != "ok":
        raise Violation("run", f"{what} does not run: {k[:2]}", **d)
    return list(k[2])

def norm(s):
    return s if isinstance(s, str) else bytes(s).decode("latin-1")

CONTEXTS = ["arg", "table", "key", "local", "return", "concat", "neg", "not", "sub", "pow", "index", "paren", "negneg", "cmp", "and", "field"]

def gen_context(g, lit, val, i):
    """(statement, expected printed values)"""
    num = isinstance(val, int)
    c = g.choice(CONTEXTS)
    M = 0xffffffff
    v = f"v{i}"
    if c == "arg" or (not num and c in ("neg", "not", "sub", "negneg")):
        if not num and g.bool(0.3):
            return f"print{lit}\n", [val]
        return f"print({lit})\n", [val]
    if c == "table": return f"{v}={{1,{lit},3}}print({v}[2],#{v})\n", [val, 3 << 16]
    if c == "key": return f"{v}={{[{' ' if lit[0] == '[' else ''}{lit}{' ' if lit[-1] == ']' else ''}]=1}}for k in next,{v} do print(k) end\n", [val]
    if c == "local": return f"local {v},w{i}={lit},{lit} print({v},w{i})\n", [val, val]
    if c == "return": return f"function {v}()return {lit} end print({v}())\n", [val]
    if c == "concat":
        if not num: return f"{v}=\"\"print({v}..{lit}..{v})\n", [val]
        return f"print({lit} ..\"\"==tostr({lit}))\n", [True]
    if c == "neg": return f"print(-{lit})\n", [-val & M]
    if c == "not": return f"print(~{lit})\n", [~val & M]
    if c == "sub": return f"{v}=1 print({v}-{lit},{v}- -{lit})\n", [(0x10000 - val) & M, (0x10000 + val) & M]
    if c == "pow": return f"{v}={lit} print({v}=={lit})\n", [True]
    if c == "index": return f"{v}={{}}{v}[{' ' if lit[0] == '[' else ''}{lit}{' ' if lit[-1] == ']' else ''}]=7 print({v}[({lit})])\n", [7 << 16]
    if c == "paren": return f"print((({lit})))\n", [val]
    if c == "negneg": return f"print(- -{lit},-~{lit},- -~{lit})\n", [val, (val + 1) & M, ~val & M]
    if c == "cmp": return f"{v}={lit} if {v}=={lit} then print({lit}) end\n", [val]
    if c == "and": return f"print(false or {lit})\n", [val]
    return f"{v}={{x={lit},y={lit};z=1}}print({v}.x,{v}.y)\n", [val, val]

def check_program(g, ctx, stmts, expected, version, args):
    code = ("print=print\n" if g.bool(0.1) else "") + "".join(stmts)
    code = code.encode("latin-1")
    out, r = process(ctx, code, args, version)
    d = dict(input=code, output=out, args=" ".join(args))
    want = ["print " + " ".join(("true" if v is True else event(v)) for v in vals) for vals in expected]
    ref = [norm(e) for e in events(code, "input", d)]
    if ref[-len(want):] != want:
        raise Discard("generator's own values are wrong") if g is None else Violation("oracle", "z8lua disagrees with the generator about the input: "
            + first_diff(ref, want), **d)
    got = [norm(e) for e in events(out, "output", d)]
    if got != ref:
        i = next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), min(len(got), len(ref)))
        raise Violation("value", f"value {i} ({stmts[min(i, len(stmts) - 1)]!r}) changed " + first_diff(ref, got), **d)
    return code, out

def gen_string(g):
    k = g.weighted([(4, 0), (2, 1), (2, 2), (1, 3)])
    if k == 0: return gen_string_value(g)
    if k == 1: return bytes([g.int(0, 255) for _ in range(g.int(1, 3))])
    if k == 2: # control characters, escapes, digits, quotes and brackets next to each other
        return bytes(g.choice(b"\0\x01\x06\x07\x09\x0a\x0d\x0e\x0f\x1f\"'\\[]=0129az\x7f\x80\xff \n\n") for _ in range(g.int(1, 10)))
    return g.choice([b"]]", b"]=]", b"]==]", b"\n\n", b"\n]", b"]", b"\r\n", b"\n\r", b"a\0001", b"\\z", b"--[[", b"\\\n"]) * g.int(1, 2) + g.choice([b"", b"]", b"0", b"\n"])

def prop_mixed(g, ctx):
    version = pick_version(g)
    args = g.choice(MODES) + g.choice(FOCUSES)
    stmts, expected = [], []
    for i in range(g.count(1, 30, 12)):
        if g.bool(0.5):
            lit = gen_number(g)
            val = number_value(lit)
        else:
            val = gen_string(g)
            lit = esc_string(g, val)
        s, e = gen_context(g, lit, val, i)
        stmts.append(s); expected.append(e)
    code, out = check_program(g, ctx, stmts, expected, version, args)
    if g.bool(0.3):
        args2 = g.choice(MODES) + g.choice(FOCUSES)
        out2, r = process(ctx, out, args2, version)
        d = dict(input=code, output=out, again=out2, args=" ".join(args) + " / " + " ".join(args2))
        if events(out2, "output of the second pass", d) != events(out, "output", d):
            raise Violation("value", "a value changed in the second pass", **d)
        g.event("two passes")
    if len([1 for k, s in toks(code) if k in ("num", "str")]) >= 2 and out != code:
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code)[:600], output=text(out)[:600])

def gen_value32(g):
    k = g.weighted([(3, 0), (3, 1), (3, 2), (2, 3), (2, 4)])
    if k == 0: return g.int(0, 0xffffffff)
    if k == 1:
        v = (1 << g.int(0, 31)) + g.int(-3, 3)
        return (v if g.bool() else -v) & 0xffffffff
    if k == 2: # near short decimal fractions
        d = g.int(1, 5)
        v = Fraction(g.int(0, 10 ** d * g.choice([1, 10, 3000])), 10 ** d) * 65536
        return (int(v) + g.int(-2, 2)) & 0xffffffff
    if k == 3: return (g.int(0, 0xffff) << 16 | g.choice([0, 1, 0x8000, 0xffff, 0xfffe, 0x7fff, 0x1999, 0x199a])) & 0xffffffff
    return g.int(0, 255) << g.int(0, 24)

def prop_numbers(g, ctx):
    """all sorts of 32-bit values, spelled exactly in hex, with every formatting choice the tool may make"""
    vals = [gen_value32(g) for _ in range(g.int(1, 60))]
    stmts, expected = [], []
    for i, v in enumerate(vals):
        lit = "0x%x.%04x" % (v >> 16, v & 0xffff)
        k = g.choice([0, 0, 1, 2, 3])
        M = 0xffffffff
        if k == 0: s, e = f"print({lit})\n", v
        elif k == 1: s, e = f"print(-{lit})\n", -v & M
        elif k == 2: s, e = f"a=1 print(a-{lit})\n", (0x10000 - v) & M
        else: s, e = f"a=1 print(a+~{lit})\n", (0x10000 + ~v) & M
        stmts.append(s); expected.append([e])
    args = g.choice([["--minify"], ["--minify"], ["--minify", "--no-minify-consts"], ["--minify-safe-only"]]) + g.choice(FOCUSES)
    code, out = check_program(g, ctx, stmts, expected, 42, args)
    g.mark(code + " ".join(args).encode())
    g.sample = dict(args=args, values=["%08x" % v for v in vals[:8]])

def prop_chars(g, ctx):
    """all characters, next to what could be confused with them"""
    a = g.int(0, 255)
    n = g.int(0, 3)
    vals = []
    for b in range(g.choice([8, 16, 24])):
        b = g.int(0, 255)
        vals.append(bytes([a, b]) * (n == 0) or bytes([b]) + bytes([a]) * n + bytes([g.choice(b"0 9]\"'\\\n")]))
    args = g.choice(MODES) + g.choice(FOCUSES)
    stmts = [f"print({esc_string(g, v)})\n" for v in vals]
    code, out = check_program(g, ctx, stmts, [[v] for v in vals], g.choice([42, 42, 39]), args)
    g.mark(code)
    g.sample = dict(args=args, first=text(stmts[0]))

# ---------------------------------------------------------------- picotron

PT_FOCUS = [[]]
PT_MODES = [["--minify"], ["--minify-safe-only"], ["--minify", "--no-minify-consts"], ["--minify", "--no-minify-tokens"], ["--minify-consts-only"],
    ["--unminify"], ["--minify", "--no-minify-rename", "--no-minify-reorder"]]

def wrap64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v

def dbl(x):
    return struct.pack("<d", x)

def gen_ptnum(g):
    """(literal, value): ints are ('i', v), floats ('f', bits)"""
    k = g.weighted([(5, 0), (3, 1), (2, 2), (4, 3), (2, 4), (2, 5), (1, 6)])
    if k == 0:
        v = g.weighted([(4, g.int(0, 300)), (2, g.int(0, (1 << 63) - 1)), (2, max(0, min((1 << 63) - 1, (1 << g.int(0, 63)) + g.int(-2, 2)))), (1, 10 ** g.int(0, 18))])
        return str(v), ("i", v)
    if k == 1:
        v = g.weighted([(3, g.int(0, 0xffff)), (3, g.int(0, (1 << 64) - 1)), (2, ((1 << g.int(0, 63)) + g.int(-2, 2)) & ((1 << 64) - 1))])
        s = g.choice(["0x%x", "0X%X", "0x0%x"]) % v
        return s, ("i", wrap64(v))
    if k == 2:
        v = g.int(0, (1 << g.int(1, 63)) - 1)
        return "0b" + bin(v)[2:], ("i", v)
    if k == 3:
        s = g.choice(["%d.%d" % (g.int(0, 1000), g.int(0, 99999)), "%d." % g.int(0, 99), ".%d" % g.int(0, 99999), "%de%d" % (g.int(0, 99), g.int(-12, 30)),
            "%d.%dE%s%d" % (g.int(0, 9), g.int(0, 10 ** 9), g.choice(["+", "-", ""]), g.int(0, 40))])
        return s, ("f", dbl(float(s)))
    if k == 4:
        m, f = g.int(0, 0xffffff), g.int(0, 0xffffff)
        s = "0x%x.%x" % (m, f) + (g.choice(["", "p%d" % g.int(-40, 40), "P+%d" % g.int(0, 9)]))
        return s, ("f", dbl(float.fromhex(s)))
    if k == 5: # random doubles
        while True:
            bits = g.int(0, (1 << 62) - 1) << 1 | g.int(0, 1)
            x = struct.unpack("<d", struct.pack("<Q", bits & ((1 << 63) - 1)))[0]
            if math.isfinite(x):
                return repr(x) if "." in repr(x) or "e" in repr(x) else repr(x) + ".0", ("f", dbl(x))
            if g.prefix is not None: raise Discard("not finite")
    s = str((1 << 63) + g.int(0, 10 ** 6))
    return s, ("f", dbl(float(s)))

_pt_tok = re.compile(rb"\s*(?:(0[xX][0-9a-fA-F.]*(?:[pP][+-]?\d+)?|0[bB][01]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)|(\[(=*)\[)|([\"'])|([-~(){},;])|(\w+))", re.S)

def pt_number(s):
    t = s.lower()
    if t.startswith("0b"): return ("i", wrap64(int(t[2:], 2)))
    if t.startswith("0x"):
        if "." in t or "p" in t:
            return ("f", dbl(float.fromhex(t if not t.startswith("0x.") else "0x0" + t[2:])))
        return ("i", wrap64(int(t, 16)))
    if "." in t or "e" in t: return ("f", dbl(float(t)))
    v = int(t)
    return ("i", v) if v < 1 << 63 else ("f", dbl(float(v)))

def pt_string(data, i):
    """short string starting at i -> (value, end)"""
    q = data[i:i+1]
    out = bytearray()
    i += 1
    esc = {b"a": 7, b"b": 8, b"t": 9, b"n": 10, b"v": 11, b"f": 12, b"r": 13, b"\\": 92, b'"': 34, b"'": 39, b"\n": 10}
    while True:
        c = data[i:i+1]
        if not c or c == b"\n": raise LexError("unterminated string")
        if c == q: return bytes(out), i + 1
        if c != b"\\":
            out += c; i += 1; continue
        c = data[i+1:i+2]
        if c in esc: out.append(esc[c]); i += 2
        elif c == b"x": out.append(int(data[i+2:i+4], 16)); i += 4
        elif c == b"z":
            i += 2
            while data[i:i+1] in (b" ", b"\n", b"\t", b"\r", b"\v", b"\f"): i += 1
        elif c == b"u":
            j = data.index(b"}", i)
            out += utf8x(int(data[i+3:j], 16)); i = j + 1
        elif c.isdigit():
            j = i + 1
            while j < i + 4 and data[j:j+1].isdigit(): j += 1
            out.append(int(data[i+1:j])); i = j
        else: raise LexError(f"bad escape {c!r}")

def utf8x(v):
    """Lua's extended utf-8, up to 2^31"""
    if v < 0x80: return bytes([v])
    out, first = [], 0x3f
    while v > first:
        out.append(0x80 | v & 0x3f)
        v >>= 6
        first >>= 1
    out.append((~first << 1) & 0xff | v)
    return bytes(reversed(out))

def pt_eval_list(data):
    """values of 'name={expr,expr,..}' with expr: literals under unary minus, not and parentheses"""
    pos = 0
    def peek():
        m = _pt_tok.match(data, pos)
        if not m: raise LexError(f"unexpected {data[pos:pos+10]!r}")
        return m
    def expr():
        nonlocal pos
        m = peek()
        if m.group(1):
            pos = m.end()
            return pt_number(m.group(1).decode())
        if m.group(2):
            close = b"]" + m.group(3) + b"]"
            j = data.index(close, m.end())
            v = data[m.end():j]
            pos = j + len(close)
            v = re.sub(rb"\r\n|\n\r|\r", b"\n", v)
            return ("s", v[1:] if v.startswith(b"\n") else v)
        if m.group(4):
            v, pos = pt_string(data, m.end() - 1)
            return ("s", v)
        t = m.group(5)
        pos = m.end()
        if t == b"(":
            v = expr()
            if peek().group(5) != b")": raise LexError("expected )")
            pos = peek().end()
            return v
        if t in (b"-", b"~"):
            k, v = expr()
            if k == "f":
                x = struct.unpack("<d", v)[0]
                if t == b"~": raise LexError("~ of a float")
                return ("f", dbl(-x))
            return ("i", wrap64(-v if t == b"-" else ~v))
        raise LexError(f"unexpected {data[m.start():m.start()+10]!r}")
    out = []
    m = peek()
    if not m.group(6): raise LexError("expected a name")
    pos = m.end()
    m2 = re.compile(rb"\s*=\s*\{").match(data, pos)
    if not m2: raise LexError("expected ={")
    pos = m2.end()
    while True:
        out.append(expr())
        t = peek().group(5)
        pos = peek().end()
        if t == b"}": break
        if t not in (b",", b";"): raise LexError(f"expected , before {data[pos:pos+10]!r}")
    if data[pos:].strip(): raise LexError(f"trailing {data[pos:pos+20]!r}")
    return out

def gen_ptstring(g):
    data = gen_string(g)
    k = g.weighted([(5, 0), (2, 1), (1, 2)])
    if k == 0:
        # (files are utf-8 text: bytes that aren't valid utf-8 are written as escapes)
        data = bytes(b for b in data if b < 0x80)
        if g.bool(0.3):
            data += g.choice(["é", "♥", "😀", "⬆️"]).encode()
            return esc_text(g, data), data
        return esc_string(g, data, picotron=True), data
    if k == 1:
        return "\"" + "".join("\\x%02x" % b if g.bool() else "\\%03d" % b for b in data) + "\"", data
    out, val = "", b""
    for i in range(g.int(1, 3)):
        v = g.weighted([(3, g.int(0, 0x7ff)), (2, g.int(0, 0x10ffff)), (1, g.int(0, 0x7fffffff))])
        out += "\\u{%x}" % v
        val += utf8x(v)
    return "\"" + out + "\"", val

def esc_text(g, data):
    return "\"" + data.decode("utf8").replace("\\", "\\\\").replace("\"", "\\\"").replace("\n", "\\n").replace("\r", "\\r").replace("\0", "\\0") + "\"" \
        if b"\0" not in data else "\"" + "".join("\\x%02x" % b for b in data) + "\""

def prop_picotron(g, ctx):
    items, want = [], []
    for i in range(g.count(1, 25, 8)):
        if g.bool(0.3):
            lit, v = gen_ptstring(g)
            v = ("s", v)
        else:
            lit, v = gen_ptnum(g)
            k = g.weighted([(5, ""), (2, "-"), (1, "~"), (1, "(-"), (1, "- -"), (1, "-~")])
            if k and not (v[0] == "f" and "~" in k):
                for c in reversed(k):
                    if c == "-": v = ("i", wrap64(-v[1])) if v[0] == "i" else ("f", dbl(-struct.unpack("<d", v[1])[0]))
                    if c == "~": v = ("i", wrap64(~v[1]))
                lit = k + lit + (")" if "(" in k else "")
        items.append((" " if lit[0] == "[" else "") + lit)
        want.append(v)
    code = ("x={" + ",".join(items) + "}\n").encode("utf8", "surrogatepass")
    args = g.choice(PT_MODES) + g.choice(PT_FOCUS)
    ctx.s.write("in.lua", code)
    r = tool.run([ctx.s.path("in.lua"), ctx.s.path("out.lua"), *args], lang="picotron")
    check_ran(r, code)
    out = ctx.s.read("out.lua")
    d = dict(input=code, output=out, args=" ".join(args))
    try:
        if pt_eval_list(code) != want:
            raise Violation("oracle", "own evaluator disagrees with the generator: " + first_diff(pt_eval_list(code), want), **d)
        got = pt_eval_list(out)
    except (LexError, ValueError) as ex:
        raise Violation("picotron", f"output can't be read: {ex}", **d)
    if got != want:
        raise Violation("picotron", "value changed " + first_diff(want, got), **d)
    g.mark(code + " ".join(args).encode())
    g.sample = dict(args=args, input=text(code)[:400], output=text(out)[:400])

def ex(stmt, vals, args):
    def run(ctx):
        from engine import Choices
        import random
        check_program(Choices(random.Random(0)), ctx, [stmt], [vals], 42, args)
    return run

EXAMPLES = [
    ("bracket-at-end", ex("print(\"\\n\\n\\n]\")\n", [b"\n\n\n]"], ["--minify", "--focus-chars"])),
    ("z-at-end", ex("print(\"a\\z\")\n", [b"a"], ["--minify"])),
]
CHECKS = [("mixed", prop_mixed, 2500, 60000), ("numbers", prop_numbers, 1200, 40000), ("chars", prop_chars, 1500, 40000),
          ("picotron", prop_picotron, 3000, 80000)]
