"""own model of picotron carts: pod values and their encodings, files, and the containers (nothing here is taken from /repo)"""
import base64, math, os, re, struct
from codec import Bad, png_pixels, png_write
from podfile import lz4_decode, lz4_encode

# --- pod values: None, bool, int, float, bytes, Table, UD

class Table:
    """a list of (key, value); keys are distinct"""
    def __init__(t, items): t.items = list(items)
    def __repr__(t): return "{" + ", ".join(f"[{k!r}]={v!r}" for k, v in t.items) + "}"

class UD:
    def __init__(u, type, width, height, data): u.type, u.width, u.height, u.data = type, width, height, data
    def __repr__(u): return f"UD({u.type!r},{u.width},{u.height},{u.data[:40]!r})"

def canon(v):
    """equal for values that lua can't tell apart"""
    if v is None: return "nil"
    if isinstance(v, bool): return ("b", v)
    if isinstance(v, int): return ("i", v)
    if isinstance(v, float): return ("f", repr(v))
    if isinstance(v, bytes): return ("s", v)
    if isinstance(v, UD):
        # (for types stored as hex digits, the case doesn't matter)
        return ("u", v.type, v.width, v.height, v.data.lower() if v.type in (b"u8", b"i16", b"i32", b"i64") else v.data)
    if isinstance(v, Table):
        d = {}
        for k, x in v.items:
            if x is None or k is None: continue
            if isinstance(k, float) and k == int(k) if isinstance(k, float) and math.isfinite(k) else False: k = int(k)
            d[canon(k)] = canon(x)
        return ("t", frozenset(d.items()))
    raise TypeError(v)

def s64(n):
    n &= (1 << 64) - 1
    return n - (1 << 64) if n >> 63 else n

class PodText:
    """reader of pod text"""
    def __init__(p, data, depth=0): p.d, p.i, p.depth = data, 0, depth
    def ws(p):
        while p.d[p.i:p.i + 1]:
            if p.d[p.i] in b" \t\r\n\v\f": p.i += 1
            elif p.d.startswith(b"--", p.i) and not p.d.startswith(b"--[", p.i): p.i = (p.d + b"\n").index(b"\n", p.i)
            else: break
    def peek(p, s):
        p.ws()
        return p.d.startswith(s, p.i)
    def accept(p, s):
        if p.peek(s): p.i += len(s); return True
        return False
    def need(p, s):
        if not p.accept(s): raise Bad(f"pod: {s!r} expected at {p.i}: {p.d[p.i:p.i + 30]!r}")
    def name(p):
        p.ws()
        m = re.compile(rb"[A-Za-z_\x80-\xff][A-Za-z0-9_\x80-\xff]*").match(p.d, p.i)
        if not m: return None
        p.i = m.end()
        return m.group()
    def string(p):
        p.ws()
        q = p.d[p.i:p.i + 1]
        if q == b"[":
            m = re.compile(rb"\[(=*)\[").match(p.d, p.i)
            if not m: raise Bad("pod: long string")
            close = b"]" + m.group(1) + b"]"
            j = p.d.index(close, m.end())
            s = p.d[m.end():j]; p.i = j + len(close)
            s = re.sub(rb"\r\n?|\n\r?", b"\n", s)
            return s[1:] if s.startswith(b"\n") else s
        if q not in (b'"', b"'") or not q: raise Bad(f"pod: string expected at {p.i}")
        i, out = p.i + 1, bytearray()
        while True:
            c = p.d[i:i + 1]
            if not c or c == b"\n": raise Bad("pod: unterminated string")
            i += 1
            if c == q: break
            if c != b"\\": out += c; continue
            c = p.d[i:i + 1]; i += 1
            if c in b"abfnrtv" and c: out.append({97: 7, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9, 118: 11}[c[0]])
            elif c in (b"\\", b'"', b"'", b"\n"): out += c
            elif c == b"x": out.append(int(p.d[i:i + 2], 16)); i += 2
            elif c == b"z":
                while p.d[i] in b" \t\r\n\v\f": i += 1
            elif c == b"u":
                j = p.d.index(b"}", i)
                out += chr(int(p.d[i + 1:j], 16)).encode("utf8", "surrogatepass"); i = j + 1
            elif c.isdigit():
                m = re.compile(rb"\d{1,3}").match(p.d, i - 1)
                if int(m.group()) > 255: raise Bad("pod: decimal escape")
                out.append(int(m.group())); i = m.end()
            elif c and c in b"*#-|+^": out.append(1 + b"*#-|+^".index(c))
            else: raise Bad(f"pod: escape {c!r}")
        p.i = i
        return bytes(out)
    def number(p):
        p.ws()
        m = re.compile(rb"0[xX]([0-9a-fA-F]*)(?:\.([0-9a-fA-F]*))?(?:[pP]([+-]?\d+))?|(\d*)(\.\d*)?([eE][+-]?\d+)?").match(p.d, p.i)
        if not m or not m.group(): raise Bad(f"pod: value expected at {p.i}: {p.d[p.i:p.i + 30]!r}")
        p.i = m.end()
        if p.d[p.i:p.i + 1].isalnum(): raise Bad("pod: malformed number")
        t = m.group().decode()
        if t[:2] in ("0x", "0X"):
            if m.group(2) is None and m.group(3) is None: return s64(int(t, 16))
            try: return float.fromhex(t)
            except OverflowError: return math.inf
        if m.group(5) is None and m.group(6) is None:
            n = int(t)
            return n if n < 1 << 63 else float(n)
        return float(t)
    def pxu(p):
        ud, p.i = read_pxu(p.d, p.i)
        return ud
    def value(p):
        p.ws()
        if p.d.startswith(b"pxu\0", p.i): return p.pxu()
        c = p.d[p.i:p.i + 1]
        if c == b"{": return p.table()
        if c in (b'"', b"'", b"["): return p.string()
        if c == b"-":
            p.i += 1
            n = p.number()
            return s64(-n) if isinstance(n, int) else -n
        if c and c in b"0123456789.": return p.number()
        n = p.name()
        if n == b"nil": return None
        if n in (b"true", b"false"): return n == b"true"
        if n == b"userdata":
            p.need(b"(")
            args = [p.value()]
            while p.accept(b","): args.append(p.value())
            p.need(b")")
            if len(args) not in (3, 4): raise Bad("pod: userdata arguments")
            return UD(args[0], args[1], args[2] if len(args) == 4 else 0, args[-1])
        if n == b"unpod":
            p.need(b"(")
            s = p.value()
            p.need(b")")
            return decode_pod(s)
        raise Bad(f"pod: value expected at {p.i}: {p.d[p.i:p.i + 30]!r}")
    def table(p):
        p.need(b"{")
        items, positional, n = {}, {}, 1
        order = []
        def put(k, v):
            c = canon(k)
            if c not in items: order.append(c)
            items[c] = k, v
        while not p.accept(b"}"):
            if p.peek(b"[") and not p.d.startswith(b"[[", p.i) and not p.d.startswith(b"[=", p.i):
                p.need(b"[")
                k = p.value(); p.need(b"]"); p.need(b"=")
                put(k, p.value())
            else:
                at = p.i
                k = None if p.d.startswith(b"pxu\0", p.i) else p.name()
                if k is not None and p.accept(b"="): put(k, p.value())
                else:
                    p.i = at
                    put(n, p.value()); n += 1
            if not p.accept(b",") and not p.accept(b";"):
                p.need(b"}"); break
        return Table(items[c] for c in order)

def parse_pod_text(data):
    p = PodText(data)
    v = p.value()
    p.ws()
    if p.i != len(p.d): raise Bad(f"pod: junk at the end: {p.d[p.i:p.i + 30]!r}")
    return v

def b64d(data):
    data = bytes(data).translate(None, b"\n\r")
    return base64.b64decode(data, b"_-", validate=True)

def b64e(data): return base64.b64encode(data, b"_-")

def decode_pod(data, forms=None):
    """forms: a set that gets what encodings are used"""
    forms = set() if forms is None else forms
    if data.startswith(b"b64:"): data = b64d(data[4:]); forms.add("b64")
    if data.startswith(b"lz4\0"):
        size, unc = struct.unpack_from("<II", data, 4)
        if size != len(data) - 12: raise Bad("pod: lz4 size")
        data = lz4_decode(data[12:]); forms.add("lz4")
        if len(data) != unc: raise Bad("pod: lz4 uncompressed size")
    if b"pxu\0" in data: forms.add("pxu")
    return parse_pod_text(data)

# --- pxu

PXU = {b"u8": (3, 2), b"i16": (12, 4)}

def read_pxu(d, at):
    if d[at:at + 4] != b"pxu\0": raise Bad("pxu: header")
    flags, = struct.unpack_from("<H", d, at + 4)
    at += 6
    def u8():
        nonlocal at
        at += 1
        return d[at - 1]
    def u32():
        nonlocal at
        at += 4
        return struct.unpack_from("<I", d, at - 4)[0]
    if flags & ~0xf84f: raise Bad(f"pxu: flags {flags:#x}")
    size = u32 if flags & 0x800 else u8
    w = size()
    h = size() if flags & 0x40 else 0
    if flags & 0x40 and h == 0 and w: pass
    n = w * (h if flags & 0x40 else 1)
    types = {t: (name, nyb) for name, (t, nyb) in PXU.items()}
    if flags & 15 not in types: raise Bad("pxu: type")
    name, nyb = types[flags & 15]
    def item():
        nonlocal at
        if nyb == 2: return u8()
        at += 2
        return struct.unpack_from("<H", d, at - 2)[0]
    out, kind = [], flags >> 12
    if kind == 1:
        out = [item() for _ in range(n)]
    elif kind in (2, 8):
        bits = u8()
        if bits != (4 if kind == 2 else 0): raise Bad("pxu: bits")
        top = (1 << bits) - 1
        vals, recent = list(range(top)), list(range(top))
        while len(out) < n:
            b = u8()
            k, cnt = b & top, (b >> bits) + 1
            if k == top:
                v = item()
                if bits: vals[recent[-1]] = v
            else:
                recent.remove(k); recent.insert(0, k)
                v = vals[k]
            if cnt == 1 << (8 - bits):
                while True:
                    c = u8()
                    cnt += c
                    if c != 255: break
            out += [v] * cnt
        if len(out) != n: raise Bad("pxu: a run past the end")
    else: raise Bad("pxu: compression")
    return UD(name, w, h, "".join(f"{v:0{nyb}x}" for v in out).encode()), at

def write_pxu(g, u, kind=None):
    """kind: 1 none, 2 mtf, 8 rle"""
    t, nyb = PXU[u.type]
    kind = kind or g.choice([1, 2, 8])
    big = u.width > 255 or u.height > 255 or g.bool(0.15)
    flags = t | (0x40 if u.height else 0) | (0x800 if big else 0) | kind << 12
    f = "<I" if big else "<B"
    out = bytearray(b"pxu\0" + struct.pack("<H", flags) + struct.pack(f, u.width) + (struct.pack(f, u.height) if u.height else b""))
    data = [int(u.data[i:i + nyb], 16) for i in range(0, len(u.data), nyb)]
    item = lambda v: struct.pack("<B" if nyb == 2 else "<H", v)
    if kind == 1:
        for v in data: out += item(v)
        return bytes(out)
    bits = 4 if kind == 2 else 0
    out.append(bits)
    top, ext = (1 << bits) - 1, 1 << (8 - bits)
    vals, recent = list(range(top)), list(range(top))
    i = 0
    while i < len(data):
        n = 1
        while i + n < len(data) and data[i + n] == data[i] and (n < 4 or n % 37 or g.bool(0.95)): n += 1
        v = data[i]
        if v in vals: k = vals.index(v)
        else:
            k = top
            if bits: vals[recent[-1]] = v
        if k != top: recent.remove(k); recent.insert(0, k)
        out.append(k | (min(n, ext) - 1) << bits)
        if k == top: out += item(v)
        if n >= ext:
            m = n - ext
            while m >= 255: out.append(255); m -= 255
            out.append(m)
        i += n
    return bytes(out)

# --- pod text

KEYWORDS = set(b"and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())

def write_string(g, s):
    q = g.choice([b'"', b'"', b"'"])
    if g.bool(0.1) and not (set(s) & set(b"\r\0")) and b"]" not in s and not s.startswith(b"\n"): return b"[[" + s + b"]]"
    out = bytearray(q)
    for i, c in enumerate(s):
        nxt = s[i + 1:i + 2]
        if c == 0: out += b"\\0" if not nxt.isdigit() else b"\\000"
        elif c in (10, 13, 92) or c == q[0]: out += g.choice([{10: b"\\n", 13: b"\\r", 92: b"\\\\"}.get(c, b"\\" + bytes([c])), b"\\%03d" % c])
        elif g.bool(0.03): out += g.choice([b"\\x%02x" % c, b"\\%03d" % c])
        else: out.append(c)
    return bytes(out + q)

def write_number(g, v):
    if isinstance(v, int):
        if v == -1 << 63: return b"0x8000000000000000"
        if g.bool(0.15): return b"0x%x" % (v & (1 << 64) - 1)
        return b"%d" % v
    if math.isinf(v): return b"1e999" if v > 0 else b"-1e999"
    if g.bool(0.1): return v.hex().encode()
    t = repr(v)
    return t.encode()

def write_pod_text(g, v, allow_pxu, depth=0):
    sp = lambda: g.choice([b"", b" ", b"\n\t"]) if g.bool(0.1) else b""
    if v is None: return b"nil"
    if isinstance(v, bool): return b"true" if v else b"false"
    if isinstance(v, (int, float)): return write_number(g, v)
    if isinstance(v, bytes): return write_string(g, v)
    if isinstance(v, UD):
        exact = v.type in PXU and len(v.data) == v.width * (v.height or 1) * PXU[v.type][1] and re.fullmatch(rb"[0-9a-fA-F]*", v.data)
        if allow_pxu and exact and g.bool(0.6): return write_pxu(g, v)
        args = [write_string(g, v.type), b"%d" % v.width] + ([b"%d" % v.height] if v.height or g.bool(0.05) else []) + [b'"' + v.data + b'"']
        return b"userdata(" + b",".join(a + sp() for a in args) + b")"
    parts, n = [], 1
    for k, x in v.items:
        val = write_pod_text(g, x, allow_pxu, depth + 1)
        if g.bool(0.02) and not isinstance(x, UD): val = b"unpod(" + write_string(g, encode_pod(g, x)) + b")"
        if isinstance(k, int) and not isinstance(k, bool) and k == n and g.bool(0.9): parts.append(val); n += 1
        elif isinstance(k, bytes) and re.fullmatch(rb"[A-Za-z_]\w*", k) and k not in KEYWORDS and g.bool(0.9): parts.append(k + sp() + b"=" + sp() + val)
        else: parts.append(b"[" + (b" " if isinstance(k, bytes) else b"") + write_pod_text(g, k, False, depth + 1) + sp() + b"]=" + val)
    sep = g.choice([b",", b",", b",", b";", b", "])
    return b"{" + sp() + sep.join(p + sp() for p in parts) + (sep if parts and g.bool(0.1) else b"") + b"}"

def encode_pod(g, v, forms=None):
    forms = forms if forms is not None else [f for f in ("pxu", "lz4", "b64") if g.bool({"pxu": 0.5, "lz4": 0.4, "b64": 0.2}[f])]
    data = write_pod_text(g, v, "pxu" in forms)
    if "lz4" in forms:
        com = lz4_encode(data, lambda: g.bool(0.9))
        data = b"lz4\0" + struct.pack("<II", len(com), len(data)) + com
    if "b64" in forms: data = b"b64:" + b64e(data)
    return data

STRS = [b"", b"a", b"abc", b"x y", b"end", b"nil", b"\0", b"a\0b", b"\xff\xfe", b"\xc3\xa9", b"\xe2\x98\xba", b"\n", b"\r\n", b"\"", b"'", b"\\", b"]]", b"]]]", b"[[", b"]=]", b"--", b"--[[pod]]", b"pxu\0", b"pxu\0\x03\x20", b"lz4\0aaaa", b"b64:aaaa",
    b"userdata()", b"\x7f\x80", b"1", b"\0001", b"\x0e9", b"\t\v\f\a\b", b"// x", b":: [eoc]", b"\n:: a.lua\n"]

def gen_str(g):
    k = g.weighted([(5, 0), (2, 1), (1, 2), (1, 3)])
    if k == 0: return g.choice(STRS)
    if k == 1: return bytes(g.int(32, 126) for _ in range(g.int(0, 12)))
    if k == 2: return bytes(g.int(0, 255) for _ in range(g.int(0, 12)))
    return g.choice(STRS) * g.int(1, 40) + g.choice(STRS)

INTS = [0, 1, 2, -1, 9, 10, 255, 256, -256, 65535, 1 << 31, -(1 << 31), (1 << 53) + 1, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, 1 << 62, 10**18, -10**18, 99999, 100000, 1000000]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1 / 3, 1e15, 1e16, 1e17, 123456789012345678.0, 2.0**53, 2.0**63, -2.0**63, 2.0**64, 1e100, 1e-5, 1e-7, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, math.inf, -math.inf, 32767.99, 100000.0, 1.5e300, 0.30000000000000004]

def gen_num(g):
    k = g.weighted([(3, 0), (3, 1), (2, 2), (2, 3)])
    if k == 0: return g.choice(INTS)
    if k == 1: return g.choice(FLOATS)
    if k == 2: return s64(g.draw(0xffffffff) << g.int(0, 32) | g.draw(0xffff)) >> g.int(0, 60)
    v = struct.unpack("<d", struct.pack("<Q", g.draw(0xffffffff) << 32 | g.draw(0xffffffff)))[0] if g.bool(0.4) else g.int(-100000, 100000) / g.choice([2, 3, 7, 10, 100, 4096, 65536])
    return v if v == v else 0.25

def gen_ud(g):
    t = g.weighted([(5, b"u8"), (4, b"i16"), (1, b"i32"), (1, b"f64")])
    w = g.weighted([(4, g.int(0, 9)), (3, g.int(10, 40)), (1, g.choice([255, 256, 257, 300])), (0.5, 1000)])
    h = g.weighted([(4, 0), (4, g.int(1, 9)), (0.5, g.choice([255, 256, 300]))])
    if w * max(h, 1) > 5000: h = min(h, 5)
    n = w * max(h, 1)
    if t == b"f64":
        return UD(t, w, h, b",".join(g.choice([b"0", b"1.5", b"-2", b"0.1250"]) for _ in range(min(n, 300))))
    nyb = {b"u8": 2, b"i16": 4, b"i32": 8}[t]
    pal = [g.int(0, (1 << 4 * nyb) - 1) for _ in range(g.choice([1, 2, 15, 16, 40]))] + list(range(g.choice([1, 4, 14, 15, 16])))
    out = []
    while len(out) < n:
        v = g.choice(pal)
        out += [v] * g.weighted([(5, 1), (3, g.int(1, 20)), (1, g.choice([15, 16, 17, 18])), (1, g.choice([255, 256, 257, 270, 271, 272, 510, 511, 512, 526, 527, 700]))])
    data = "".join(f"{v:0{nyb}x}" for v in out[:n])
    if g.bool(0.05): data = data.upper()
    k = g.weighted([(30, 0), (1, 1), (1, 2), (1, 3)])
    if k == 1: data = data[:-nyb]
    elif k == 2: data += "0" * nyb * g.int(1, 3)
    elif k == 3: data = data[:-1]
    return UD(t, w, h, data.encode())

NAMES = [b"a", b"b", b"x", b"name", b"item", b"end", b"goto", b"a b", b"", b"_", b"bmp", b"nil", b"\xc3\xa9", b"pod", b"runtime", b"1", b"\0"]

def gen_value(g, depth=0):
    k = g.weighted([(1, "nil"), (2, "bool"), (4, "num"), (4, "str"), (3, "ud"), (max(0.5, 6 - 2 * depth), "table")])
    if k == "nil": return None
    if k == "bool": return g.bool()
    if k == "num": return gen_num(g)
    if k == "str": return gen_str(g)
    if k == "ud": return gen_ud(g)
    return gen_table(g, depth)

def gen_table(g, depth=0):
    items, seen = [], set()
    style = g.choice(["list", "named", "mixed"])
    for i in range(g.count(0, 8, 3)):
        if style == "list" or style == "mixed" and g.bool(0.5): key = i + 1 if g.bool(0.9) else g.int(-2, 9)
        elif g.bool(0.85): key = g.choice(NAMES)
        else: key = g.choice([gen_num(g), gen_str(g), g.bool()])
        if isinstance(key, float) and key == 0: continue
        # (python's bools and numbers are the same keys, so the tool refuses these)
        c = ("n", key) if isinstance(key, (int, float)) else canon(key)
        if c in seen: continue
        seen.add(c)
        items.append((key, gen_value(g, depth + 1)))
    return Table(items)

# --- files

def split_meta(data):
    """-> metadata bytes or None, payload bytes"""
    if not data.startswith(b"--[[pod"): return None, data
    i = data.find(b"]]")
    if i < 0: return data[4:], b""
    return data[4:i], data[i + 2:]

def is_raw(data): return not data.startswith(b"--[[pod") or data.startswith(b'--[[pod_format="raw"')

def meta_values(meta):
    """-> Table of the metadata"""
    if meta == b"pod": return Table([])
    if meta.startswith(b"pod,"): meta = meta[4:]
    return parse_pod_text(b"{" + meta + b"}")

def write_meta(g, items, first=b"pod"):
    """items: [(key, value)] ; first: how it starts"""
    parts = [first] if first else []
    for k, v in items:
        val = write_pod_text(g, v, False)
        parts.append((k if re.fullmatch(rb"[A-Za-z_]\w*", k) and k not in KEYWORDS else b"[" + write_string(g, k) + b"]") + b"=" + val)
    return b",".join(parts)

def safe_meta(g, items, first=b"pod"):
    """write_meta, such that it can be put in a file"""
    text = write_meta(g, items, first)
    if b"[[" in text: return first, False
    while (i := text.rfind(b"]]")) >= 0: text = text[:i] + b"\\93]" + text[i + 2:]
    return text, True

# --- containers: {path: bytes or None for directories}, version

class BadCart(Exception): pass

def write_p64(g, files, version=2, b64=None, crlf=False, order=None):
    nl = b"\r\n" if crlf else b"\n"
    out = [b"picotron cartridge // www.picotron.net", b"version %d" % version] + ([b""] if g.bool(0.8) else [])
    for path in order or g.shuffled(sorted(files)) if g.bool(0.3) else sorted(files):
        data = files[path]
        out.append(b":: " + path.encode("utf8", "surrogateescape"))
        if data is None: continue
        need = bool(re.search(rb"[\x00-\x08\x0b\x0c\x0e-\x1f\x7f-\xff]|^:: ", data, re.M)) or data.startswith(b"b64$") or b"\r" in data
        if need or (b64 if b64 is not None else g.bool(0.1)):
            t = b"b64$" + b64e(data)
            n = g.choice([76, 76, 76, 60, 10000])
            out += [t[i:i + n] for i in range(0, len(t), n)]
        else: out += data.split(b"\n")
    out.append(b":: [eoc]")
    return nl.join(out) + nl

def read_p64(data):
    """-> files, version"""
    lines = data.split(b"\n")
    if not lines[0].startswith(b"picotron cartridge"): raise BadCart("p64 header")
    if lines.pop() != b"": raise BadCart("p64: the last line isn't terminated")
    files, version, path, cur = {}, None, None, None
    def flush():
        if path is None: return
        if path in files: raise BadCart(f"p64: {path} is there twice")
        if path.endswith("/"):
            if cur: raise BadCart(f"p64: data in a directory: {cur[:3]}")
            files[path] = None
        else:
            d = b"\n".join(cur)
            files[path] = b64d(d[4:]) if d.startswith(b"b64$") else d
    for n, line in enumerate(lines[1:]):
        if line.startswith(b":: "):
            flush()
            path, cur = line[3:].decode("utf8", "surrogateescape"), []
            if path == "[eoc]":
                if n != len(lines) - 2: raise BadCart("p64: data after the end")
                return files, version
        elif path is None:
            m = re.fullmatch(rb"version (\d+)", line)
            if m and version is None: version = int(m.group(1))
            elif line: raise BadCart(f"p64: {line!r} before the files")
        else: cur.append(line)
    raise BadCart("p64: no end")

def write_rom(g, files, version=2):
    out = bytearray()
    for path in sorted(files, key=lambda p: (not p.endswith("/"), p)):
        data = files[path]
        out += path.encode("utf8", "surrogateescape") + b"\0"
        if data is None: continue
        if len(data) < 255 and not g.bool(0.05): out.append(len(data))
        else: out += b"\xff" + struct.pack("<I", len(data))
        out += data
    com = lz4_encode(bytes(out), lambda: g.bool(0.95))
    return b"p64" + bytes([version]) + struct.pack("<I", len(com)) + com

def read_rom(data, exact=True):
    if data[:3] != b"p64": raise BadCart("rom header")
    version, size = data[3], struct.unpack_from("<I", data, 4)[0]
    if 8 + size > len(data) or exact and 8 + size != len(data): raise BadCart("rom size")
    d, i, files = lz4_decode(data[8:8 + size]), 0, {}
    while i < len(d):
        j = d.index(b"\0", i)
        path = d[i:j].decode("utf8", "surrogateescape"); i = j + 1
        if path in files: raise BadCart(f"rom: {path} is there twice")
        if path.endswith("/"): files[path] = None; continue
        n = d[i]; i += 1
        if n == 255: n, = struct.unpack_from("<I", d, i); i += 4
        if i + n > len(d): raise BadCart("rom: a file past the end")
        files[path] = d[i:i + n]; i += n
    return files, version

def bits_of_rows(rows):
    """the bytes hidden in the pixels: 11 bits of each"""
    acc = nb = 0
    out = bytearray()
    for row in rows:
        for x in range(0, len(row), 4):
            r, g, b, a = row[x:x + 4]
            acc |= ((r & 7) | (g & 7) << 3 | (b & 7) << 6 | (a & 3) << 9) << nb
            nb += 11
            while nb >= 8:
                out.append(acc & 255); acc >>= 8; nb -= 8
    return bytes(out)

def read_png(data):
    """-> files, version, rows"""
    w, h, rows = png_pixels(data)
    if (w, h) != (512, 384): raise BadCart(f"png of {w}x{h}")
    files, version = read_rom(bits_of_rows(rows), exact=False)
    return files, version, rows

def write_png(g, files, version=2, rows=None):
    rom = write_rom(g, files, version)
    rows = [bytearray(r) for r in rows] if rows else [bytearray([g_ for _ in range(512) for g_ in (40, 48, 56, 255)]) for _ in range(384)]
    acc, n = int.from_bytes(rom, "little"), -(-len(rom) * 8 // 11)
    if n > 512 * 384: raise BadCart("too large")
    i = 0
    chunk = 1408 # pixels (whole bytes)
    for base in range(0, n, chunk):
        part = int.from_bytes(rom[base * 11 // 8:(base + chunk) * 11 // 8], "little")
        for k in range(base, min(base + chunk, 512 * 384)):
            v = part & 0x7ff; part >>= 11
            y, x = divmod(k, 512)
            row = rows[y]; x *= 4
            row[x] = row[x] & ~7 | v & 7
            row[x + 1] = row[x + 1] & ~7 | v >> 3 & 7
            row[x + 2] = row[x + 2] & ~7 | v >> 6 & 7
            row[x + 3] = row[x + 3] & ~3 | v >> 9 & 3
    return png_write(512, 384, [bytes(r) for r in rows])

def write_dir(path, files):
    os.makedirs(path, exist_ok=True)
    for p in sorted(files):
        full = os.path.join(path, p)
        if files[p] is None: os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f: f.write(files[p])

def read_dir(path):
    out = {}
    for base, dirs, names in os.walk(path):
        rel = os.path.relpath(base, path)
        rel = "" if rel == "." else rel + "/"
        for d in dirs: out[rel + d + "/"] = None
        for n in names:
            with open(os.path.join(base, n), "rb") as f: out[rel + n] = f.read()
    return out

# --- images

def qoi_pixels(data):
    """-> width, height, rows of rgba bytes"""
    if data[:4] != b"qoif": raise Bad("qoi header")
    w, h = struct.unpack(">II", data[4:12])
    i, px, seen, out = 14, (0, 0, 0, 255), [(0, 0, 0, 0)] * 64, bytearray()
    while len(out) < w * h * 4:
        b = data[i]; i += 1
        if b == 254: px = (*data[i:i + 3], px[3]); i += 3
        elif b == 255: px = tuple(data[i:i + 4]); i += 4
        elif b < 64: px = seen[b]
        elif b < 128: px = ((px[0] + (b >> 4 & 3) - 2) & 255, (px[1] + (b >> 2 & 3) - 2) & 255, (px[2] + (b & 3) - 2) & 255, px[3])
        elif b < 192:
            c = data[i]; i += 1
            dg = (b & 63) - 32
            px = ((px[0] + dg - 8 + (c >> 4)) & 255, (px[1] + dg) & 255, (px[2] + dg - 8 + (c & 15)) & 255, px[3])
        else: out += bytes(px) * (b - 192)
        out += bytes(px)
        seen[(px[0] * 3 + px[1] * 5 + px[2] * 7 + px[3] * 11) % 64] = px
    if len(out) != w * h * 4: raise Bad("qoi: a run past the end")
    return w, h, [bytes(out[y * w * 4:(y + 1) * w * 4]) for y in range(h)]

def image_pixels(data):
    return qoi_pixels(data) if data[:4] == b"qoif" else png_pixels(data)

def qoi_write(w, h, rows):
    """only plain and run codes"""
    out, px, run = bytearray(b"qoif" + struct.pack(">II", w, h) + b"\4\0"), (0, 0, 0, 255), 0
    for row in rows:
        for x in range(0, len(row), 4):
            p = tuple(row[x:x + 4])
            if p == px:
                run += 1
                if run == 62: out.append(253); run = 0
                continue
            if run: out.append(191 + run); run = 0
            out += bytes([255, *p]); px = p
    if run: out.append(191 + run)
    return bytes(out + b"\0" * 7 + b"\1")

# --- sysroms: lists of blobs

def read_sysrom(data):
    out, i = [], 0
    while i < len(data):
        if i + 4 > len(data): raise BadCart("sysrom")
        n, = struct.unpack_from(">I", data, i); i += 4
        if i + n > len(data): raise BadCart("sysrom: past the end")
        out.append(data[i:i + n]); i += n
    return out

def write_sysrom(entries): return b"".join(struct.pack(">I", len(e)) + e for e in entries)
