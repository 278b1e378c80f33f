"""A cart, as PICO-8 documents it, with the check's own readers and writers of every format (nothing here is taken from /repo)"""
import hashlib, base64, re, random
import p8, codec, textgen

ROM = 0x4300
AREAS = {"gfx": (0, 0x2000), "map": (0x2000, 0x3000), "gff": (0x3000, 0x3100), "music": (0x3100, 0x3200), "sfx": (0x3200, 0x4300)}
DEFAULT_VERSION = 42
TUPLES = {28: (0,2,0,0), 29: (0,2,1,0), 30: (0,2,2,0), 31: (0,2,2,1), 32: (0,2,2,2), 33: (0,2,3,0), 34: (0,2,4,0), 35: (0,2,4,1), 36: (0,2,4,2),
          37: (0,2,5,0), 38: (0,2,5,2), 39: (0,2,5,4), 40: (0,2,5,5), 41: (0,2,5,6), 42: (0,2,6,1), 43: (0,2,7,0)}
PALETTE = [int(c, 16) for c in """000000 1d2b53 7e2553 008751 ab5236 5f574f c2c3c7 fff1e8 ff004d ffa300 ffec27 00e436 29adff 83769c ff77a8 ffccaa
 291814 111d35 422136 125359 742f29 49333b a28879 f3ef7d be1250 ff6c24 a8e72e 00b543 065ab5 754665 ff6e59 ff9d81""".split()]
PALETTE = [(c >> 16, c >> 8 & 255, c & 255) for c in PALETTE]
PAL6 = {tuple(v & 252 for v in c): i for i, c in enumerate(PALETTE)}

def default_rom():
    rom = bytearray(ROM)
    for i in range(64):
        rom[0x3200 + 68 * i + 65] = 1 if i == 0 else 16
        rom[0x3100 + 4 * i: 0x3104 + 4 * i] = b"ABCD"
    return rom

class Model:
    def __init__(m, code=b""):
        m.code = code
        m.rom = default_rom()
        m.label = None # bytes of 128*128 colors (0..31)
        m.meta = {} # name -> lines
        m.version = DEFAULT_VERSION
        m.tuple = TUPLES[DEFAULT_VERSION]
        m.platform = "w"
    def copy(m):
        c = Model(m.code)
        c.rom, c.label, c.meta = bytearray(m.rom), m.label, {k: list(v) for k, v in m.meta.items()}
        c.version, c.tuple, c.platform = m.version, m.tuple, m.platform
        return c
    def set_version(m, v):
        m.version, m.tuple = v, tuple_of(v)
    def area(m, name):
        a, b = AREAS[name]
        return bytes(m.rom[a:b])
    def title(m):
        """p8scii lines"""
        if "title" in m.meta:
            return [p8.from_text(l) for l in m.meta["title"]]
        out = []
        for line in m.code.split(b"\n")[:2]:
            out.append(re.sub(rb"^-- ?", b"", line) if line.startswith(b"--") else b"")
        while out and not out[-1]: out.pop()
        return out

def tuple_of(v):
    if v in TUPLES: return TUPLES[v]
    if v >= 28: return TUPLES[DEFAULT_VERSION]
    if v >= 19: return (0, 2, 0, 0)
    if v >= 8: return (0, 1, 5 + v, 0)
    return (0, 0, 0, 0)

def diff(want, got, what=("code", "gfx", "map", "gff", "music", "sfx", "label", "meta", "version")):
    """-> None or a description"""
    for w in what:
        if w == "code": a, b = want.code, got.code
        elif w == "label": a, b = want.label or bytes(16384), got.label or bytes(16384)
        elif w == "meta": a, b = list(want.meta.items()), list(got.meta.items())
        elif w == "version": a, b = want.version, got.version
        elif w == "tuple": a, b = (want.tuple, want.platform), (got.tuple, got.platform)
        else: a, b = want.area(w), got.area(w)
        if a != b:
            if isinstance(a, bytes):
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return f"{w} differs at {i:#x} (lengths {len(a)}, {len(b)}): wanted {a[i:i+24]!r}, got {b[i:i+24]!r}"
            return f"{w} differs: wanted {str(a)[:300]}, got {str(b)[:300]}"
    return None

# --- the p8 text format

def gfx_lines(rom):
    return ["".join("%x%x" % (b & 15, b >> 4) for b in rom[64 * y:64 * y + 64]) for y in range(128)]
def map_lines(rom, n=32):
    return [bytes(rom[0x2000 + 128 * y:0x2080 + 128 * y]).hex() for y in range(n)]
def gff_lines(rom):
    return [bytes(rom[0x3000 + 128 * y:0x3080 + 128 * y]).hex() for y in range(2)]
def sfx_lines(rom):
    out = []
    for i in range(64):
        a = 0x3200 + 68 * i
        s = bytes(rom[a + 64:a + 68]).hex()
        for n in range(32):
            v = rom[a + 2 * n] | rom[a + 2 * n + 1] << 8
            s += "%02x%x%x%x" % (v & 63, v >> 6 & 7 | v >> 12 & 8, v >> 9 & 7, v >> 12 & 7)
        out.append(s)
    return out
def music_lines(rom):
    out = []
    for i in range(64):
        ch = rom[0x3100 + 4 * i:0x3104 + 4 * i]
        out.append("%02x " % sum((c >> 7) << k for k, c in enumerate(ch)) + bytes(c & 127 for c in ch).hex())
    return out
EXT = "0123456789abcdefghijklmnopqrstuv"
def label_lines(label):
    return ["".join(EXT[c] for c in label[128 * y:128 * y + 128]) for y in range(128)]

LINES = {"gfx": gfx_lines, "map": map_lines, "gff": gff_lines, "sfx": sfx_lines, "music": music_lines}

def trimmed(lines, defaults):
    n = len(lines)
    while n and lines[n - 1] == defaults[n - 1]: n -= 1
    return lines[:n]

_default_lines = {k: f(default_rom()) for k, f in LINES.items()}

def write_p8(m, style=None, sections=None):
    """style: a function of a name that decides variations, or None for the usual form"""
    st = style or (lambda name: 0)
    parts = []
    secs = []
    if sections is None or "lua" in sections:
        secs.append(("lua", p8.to_text(m.code)))
    others = []
    for k, f in LINES.items():
        if sections is not None and k not in sections: continue
        lines = f(m.rom)
        if not st("full"): lines = trimmed(lines, _default_lines[k])
        if lines:
            if st("upper"): lines = [l.upper() for l in lines]
            if k in ("gfx", "map", "gff") and st("short"): # what is left out is zero
                lines = [l.rstrip("0") or "0" for l in lines]
            if st("space"): lines = [l + " " for l in lines]
            others.append((k, "\n".join(lines)))
    if m.label and (sections is None or "label" in sections):
        lines = label_lines(m.label)
        if st("upper"): lines = [l.upper() for l in lines]
        if st("short"): lines = [l.rstrip("0") or "0" for l in lines]
        if st("space"): lines = [l + " " for l in lines]
        others.append(("label", "\n".join(lines)))
    for k, lines in m.meta.items():
        if lines and (sections is None or "meta:" + k in sections):
            others.append(("meta:" + k, "\n".join(lines)))
    if st("order"):
        meta = [s for s in others if s[0].startswith("meta:")] # (the order of metadata is kept, so it matters)
        rest = [s for s in others if not s[0].startswith("meta:")]
        others = rest[::-1] + meta if st("order") == 1 else rest[2:] + meta + rest[:2]
    if st("lua last"): secs = others + secs
    else: secs = secs + others
    text = "pico-8 cartridge // http://www.pico-8.com\n" + f"version {m.version}\n"
    text += "".join(f"__{k}__{' ' if st('space') else ''}\n{b}\n" for k, b in secs)
    if st("no end") and not text.endswith("\n\n"): text = text[:-1]
    if st("crlf"): text = text.replace("\n", "\r\n")
    return text.encode("utf8")

_header = re.compile(r"__(lua|gfx|gff|label|map|sfx|music|meta:[^\n]*)__")

class BadFile(Exception): pass

CAPS = {ord(c): 65 + i for i, c in enumerate("𝘢𝘣𝘤𝘥𝘦𝘧𝘨𝘩𝘪𝘫𝘬𝘭𝘮𝘯𝘰𝘱𝘲𝘳𝘴𝘵𝘶𝘷𝘸𝘹𝘺𝘻")}

def code_from_text(text, unicaps=False):
    """unicaps: capitals are written as italic letters"""
    if unicaps:
        if re.search("[A-Z]", text): raise BadFile("plain capital letter")
        text = text.translate(CAPS)
    return p8.from_text(text)

def read_p8(data, unicaps=False):
    text = data.decode("utf8")
    lines = text.split("\n")
    if lines.pop() != "": raise BadFile("the last line is not ended")
    if lines[0] != "pico-8 cartridge // http://www.pico-8.com": raise BadFile("header: %r" % lines[0])
    if not re.fullmatch(r"version \d+", lines[1]): raise BadFile("version: %r" % lines[1])
    m = Model()
    m.set_version(int(lines[1][8:]))
    secs, cur = [], None
    for line in lines[2:]:
        k = _header.fullmatch(line)
        if k:
            cur = (k.group(1), [])
            if any(n == cur[0] for n, _ in secs): raise BadFile("section twice: " + cur[0])
            secs.append(cur)
        elif cur is None: raise BadFile("line outside a section")
        else: cur[1].append(line)
    rom = m.rom
    for name, ls in secs:
        if name == "lua": m.code = code_from_text("\n".join(ls), unicaps)
        elif name == "gfx":
            if len(ls) > 128 or any(len(l) != 128 for l in ls): raise BadFile("gfx lines")
            for y, l in enumerate(ls):
                rom[64 * y:64 * y + 64] = bytes(int(l[i + 1] + l[i], 16) for i in range(0, 128, 2))
        elif name in ("map", "gff"):
            if len(ls) > (32 if name == "map" else 2) or any(len(l) != 256 for l in ls): raise BadFile(name + " lines")
            for y, l in enumerate(ls):
                a = AREAS[name][0] + 128 * y
                rom[a:a + 128] = bytes.fromhex(l)
        elif name == "sfx":
            if len(ls) > 64 or any(len(l) != 168 for l in ls): raise BadFile("sfx lines")
            for i, l in enumerate(ls):
                a = 0x3200 + 68 * i
                rom[a + 64:a + 68] = bytes.fromhex(l[:8])
                for n in range(32):
                    s = l[8 + 5 * n:13 + 5 * n]
                    p, w, v, e = int(s[:2], 16), int(s[2], 16), int(s[3], 16), int(s[4], 16)
                    if p > 63 or v > 7 or e > 7: raise BadFile("sfx note")
                    x = p | (w & 7) << 6 | v << 9 | e << 12 | (w >> 3) << 15
                    rom[a + 2 * n:a + 2 * n + 2] = x.to_bytes(2, "little")
        elif name == "music":
            if len(ls) > 64 or any(not re.fullmatch("0[0-9a-f] [0-7][0-9a-f][0-7][0-9a-f][0-7][0-9a-f][0-7][0-9a-f]", l) for l in ls): raise BadFile("music lines")
            for i, l in enumerate(ls):
                f, ch = int(l[:2], 16), bytes.fromhex(l[3:])
                rom[0x3100 + 4 * i:0x3104 + 4 * i] = bytes(c | (f >> k & 1) << 7 for k, c in enumerate(ch))
        elif name == "label":
            if len(ls) != 128 or any(len(l) != 128 for l in ls): raise BadFile("label lines")
            m.label = bytes(EXT.index(c) for l in ls for c in l)
        else:
            m.meta[name[5:]] = ls
    m.sections = [n for n, _ in secs]
    return m

# --- roms and images

def code_region(g, code):
    """some legal stored form of the code that fits, or None"""
    opts = ["pxa", "pxa"]
    if len(code) < codec.CODE_SIZE and 0 not in code and code[:4] not in (b":c:\0", b"\0pxa"): opts.append("raw")
    if 0 not in code: opts.append("old")
    k = g.choice(opts)
    rnd = random.Random(g.draw(0xffff))
    data = code if k == "raw" else codec.encode_pxa(code, lambda n: rnd.randint(0, n)) if k == "pxa" else codec.encode_old(code, lambda n: rnd.randint(0, n))
    return data if len(data) <= codec.CODE_SIZE else None

def to_rom(m, stored):
    return bytes(m.rom) + stored.ljust(codec.CODE_SIZE, b"\0")

def from_rom(data, exact=True):
    if exact and len(data) != codec.CART_SIZE: raise BadFile(f"rom of {len(data)} bytes")
    m = Model()
    m.rom = bytearray(data[:ROM])
    m.code = codec.decode_code(data[ROM:codec.CART_SIZE])[0]
    return m

def trailer(m, rom, hashed=True):
    return bytes([m.version, *m.tuple[:3], ord(m.platform), m.tuple[3]]) + (hashlib.sha1(rom).digest() if hashed else bytes(20))

def label_of_rows(rows, ox=0, oy=0):
    out = bytearray()
    for y in range(128):
        r = rows[y + oy]
        for x in range(ox * 4, ox * 4 + 512, 4):
            out.append(PAL6.get((r[x] & 252, r[x + 1] & 252, r[x + 2] & 252), 0))
    return bytes(out)

def from_png(data):
    w, h, rows = codec.png_pixels(data)
    if (w, h) != (160, 205): raise BadFile(f"png of {w}x{h}")
    raw = codec.rom_from_png(data)
    m = from_rom(raw[:codec.CART_SIZE])
    t = raw[codec.CART_SIZE:]
    m.version, m.tuple, m.platform = t[0], (t[1], t[2], t[3], t[5]), chr(t[4])
    m.hash = t[6:26]
    if m.hash != hashlib.sha1(raw[:codec.CART_SIZE]).digest(): raise BadFile("hash")
    if any(t[26:]): raise BadFile("data after the trailer")
    m.label = label_of_rows(rows, 16, 24)
    m.rows = rows
    return m

def image_of(label, transparent=False):
    """rows of a 128x128 image"""
    cols = [bytes(c) + (b"\0" if transparent and i == 0 else b"\xff") for i, c in enumerate(PALETTE)]
    return [b"".join(cols[c] for c in label[128 * y:128 * y + 128]) for y in range(128)]

def gfx_colors(rom):
    return bytes(c for b in rom[:0x2000] for c in (b & 15, b >> 4))

def rom_gfx(colors):
    return bytes(colors[i] & 15 | (colors[i + 1] & 15) << 4 for i in range(0, 16384, 2))

_res = {}
def resource_rows(name):
    import tool, os
    if name not in _res:
        with open(os.path.join(tool.REPO, name), "rb") as f: _res[name] = codec.png_pixels(f.read())[2]
    return _res[name]

def over(dst, x, y, px):
    """alpha is all or nothing here"""
    if px[3]: dst[y][x * 4:x * 4 + 4] = px

def cart_image(m, template=None, template_only=False):
    """the rows of the png of the cart, before the data"""
    rows = [bytearray(r) for r in (template or resource_rows("template.png"))]
    if template_only: return rows
    if m.label:
        for y in range(128):
            for x in range(128):
                c = m.label[128 * y + x]
                if c: rows[24 + y][(16 + x) * 4:(17 + x) * 4] = bytes(PALETTE[c]) + b"\xff"
    font = resource_rows("font.png")
    for ln, line in enumerate(m.title()):
        y0 = ln * 8
        if y0 >= 16: break
        x0 = 0
        for ch in line:
            w = 8 if ch >= 128 else 4
            if x0 + w <= 124:
                for y in range(6):
                    for x in range(w):
                        sx, sy = ch % 16 * 8 + x, ch // 16 * 6 + y
                        over(rows, 18 + x0 + x, 167 + y0 + y, font[sy][sx * 4:sx * 4 + 4])
            x0 += w
    return rows

# --- urls

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-"

def from_url(text):
    k = re.fullmatch(r"https://www\.pico-8-edu\.com/\?c=([\w-]*=*)(?:&g=([\w-]*))?", text)
    if not k: raise BadFile("url: " + text[:200])
    m = Model()
    if k.group(1):
        m.code = codec.decode_code(base64.b64decode(k.group(1), b"_-", validate=True))[0]
    colors = bytearray()
    g, i = k.group(2) or "", 0
    while i < len(g):
        v = B64.index(g[i]); i += 1
        n = (v >> 4) + 1
        if n == 4: n += B64.index(g[i]); i += 1
        colors += bytes([v & 15]) * n
    if len(colors) > 16384: raise BadFile("too many pixels")
    m.rom[:0x2000] = rom_gfx(colors.ljust(16384, b"\0"))
    return m

def to_url(g, m, stored):
    colors = gfx_colors(m.rom)
    n = len(colors)
    while n and colors[n - 1] == 0: n -= 1
    out, i = "", 0
    short = g.bool(0.3)
    while i < n:
        j = i
        while j < n and colors[j] == colors[i] and j - i < 67: j += 1
        c = j - i
        if short and c > 1: c = g.int(1, c)
        out += B64[min(c - 1, 3) << 4 | colors[i]]
        if c >= 4: out += B64[c - 4]
        i += c
    url = "https://www.pico-8-edu.com/?c=" + base64.b64encode(stored, b"_-").decode()
    return url + ("&g=" + out if out else "")

# --- generation

def gen_area(g, size, default, unit):
    k = g.weighted([(3, "default"), (3, "sparse"), (2, "noise"), (1, "zero"), (1, "head"), (1, "last"), (1, "run")])
    data = bytearray(default)
    if k == "sparse":
        for _ in range(g.int(1, 6)):
            data[g.draw(size - 1)] = g.draw(255)
    elif k == "noise":
        data[:] = textgen.noise(g.draw(0xffff), size, g.choice([list(range(256)), [0, 0, 0, 1, 16, 17, 255], [0x80, 0x7f, 0x41]]))
    elif k == "zero": data[:] = bytes(size)
    elif k == "head":
        n = g.int(1, size // unit) * unit
        data[:n] = textgen.noise(g.draw(0xffff), n, list(range(256)))
    elif k == "last": data[size - 1 - g.draw(3)] ^= 1 << g.draw(7)
    elif k == "run":
        a = g.draw(size - 1); b = min(size, a + g.int(1, 300))
        data[a:b] = bytes([g.draw(255)]) * (b - a)
    if k != "default": g.event("area " + k)
    return bytes(data)

def gen_rom(g, areas=tuple(AREAS)):
    rom = default_rom()
    for k in areas:
        a, b = AREAS[k]
        rom[a:b] = gen_area(g, b - a, rom[a:b], {"gfx": 64, "map": 128, "gff": 128, "music": 4, "sfx": 68}[k])
    return rom

def gen_label(g):
    k = g.weighted([(3, "none"), (2, "sparse"), (2, "noise"), (1, "solid")])
    if k == "none": return None
    if k == "sparse":
        d = bytearray(16384)
        for _ in range(g.int(1, 5)): d[g.draw(16383)] = g.draw(31)
        return bytes(d) if any(d) else None
    if k == "noise":
        d = textgen.noise(g.draw(0xffff), 16384, g.choice([list(range(32)), list(range(16)), [0, 0, 0, 7, 31]]))
        return d
    return bytes([g.int(1, 31)]) * 16384

TITLE_CHARS = list(range(32, 127)) + list(range(128, 256)) + list(range(16, 32))

def gen_title_line(g):
    k = g.weighted([(4, "word"), (3, "any"), (1, "long"), (1, "empty")])
    if k == "word": return g.choice([b"my game", b"By me", b"a", b"-- x --", b"  spaced", b"1234567890123456789012345678901"])
    if k == "any": return bytes(g.choice(TITLE_CHARS) for _ in range(g.count(1, 12, 5)))
    if k == "long": return bytes(g.choice([65, 97, 128, 200]) for _ in range(g.int(28, 36)))
    return b""

_meta_name = ["title", "author", "x", "a_b", "tab info", "2"]

def gen_meta(g):
    out = {}
    for _ in range(g.weighted([(3, 0), (2, 1), (1, 2), (1, 3)])):
        name = g.choice(_meta_name)
        lines = []
        for _ in range(g.count(1, 4, 2)):
            lines.append(p8.to_text(gen_title_line(g)) if g.bool(0.7) or name == "title" else g.choice(["ünï", " x ", "key=value", "#include foo", "pico-8", "😀", ""]))
        if any(l.startswith("__") and l.rstrip().endswith("__") for l in lines): continue
        out[name] = lines
    return out

def gen_code(g, size=400, text_ok=True):
    """code that every format can hold"""
    code = b""
    if g.bool(0.4):
        for _ in range(g.int(1, 3)):
            code += g.choice([b"-- ", b"--", b"--  "]) + gen_title_line(g) + b"\n"
    code += textgen.gen_text(g, size)
    code = re.sub(rb"\r+(?=\n|$)", b"", code)
    code = code.replace(b"#", b"%").rstrip(b"\r")
    if textgen.is_sectionlike(code): code = code.replace(b"__", b"_.")
    if code.startswith(b"pico-8 cartridge") or code.startswith(b"__lua__"): code = b" " + code
    return code

def gen_model(g, size=400):
    m = Model(gen_code(g, size))
    m.rom = gen_rom(g)
    m.label = gen_label(g)
    m.meta = gen_meta(g)
    m.set_version(gen_version(g))
    return m

def gen_version(g):
    return g.weighted([(4, 42), (2, 43), (1, 41), (1, 40), (1, 38), (1, 36), (1, 29), (1, 28), (0.5, 27), (0.5, 18), (0.5, 8), (0.5, 5), (0.5, 60)])
