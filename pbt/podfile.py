"""own readers and writers of the formats that carts are exported into (nothing here is taken from /repo)"""
import re, struct
from codec import Bad

# --- lz4 (block format)

def lz4_decode(data, trace=None):
    """trace gets (size, bytes) or (size, bytes, offset, count) per run of literals and per match"""
    out, i, last = bytearray(), 0, None
    def more(n):
        nonlocal i
        if n == 15:
            while True:
                b = data[i]; i += 1
                n += b
                if b != 255: break
        return n
    while i < len(data):
        start = i
        h = data[i]; i += 1
        n = more(h >> 4)
        if i + n > len(data): raise Bad("lz4: literals past the end")
        out += data[i:i + n]; i += n
        if n and trace is not None: trace.append((i - start, bytes(out[-n:]))); start = i
        if i == len(data):
            # (decoders may rely on how the format has to end)
            if last and (len(out) - last[0] < 12 or len(out) - last[1] < 5): raise Bad(f"lz4: the last match, {last}, is too near the end, {len(out)}")
            return bytes(out)
        off = data[i] | data[i + 1] << 8; i += 2
        n = more(h & 15) + 4
        if not 0 < off <= len(out): raise Bad(f"lz4: offset {off} of {len(out)}")
        last = len(out), len(out) + n
        for _ in range(n): out.append(out[-off])
        if trace is not None: trace.append((i - start, bytes(out[-n:]), off, n))
    if data: raise Bad("lz4: ends with a match")
    return bytes(out)

def lz4_encode(data, decide):
    """decide() -> bool: whether to use a match that is there"""
    out, i, lits = bytearray(), 0, bytearray()
    seen = {}
    def more(n):
        while n >= 255: out.append(255); n -= 255
        out.append(n)
    def block(off=0, n=0):
        a, b = min(len(lits), 15), min(n - 4, 15) if n else 0
        out.append(a << 4 | b)
        if a == 15: more(len(lits) - 15)
        out.extend(lits); lits.clear()
        if n:
            out.extend(struct.pack("<H", off))
            if b == 15: more(n - 4 - 15)
    while i < len(data):
        k = bytes(data[i:i + 4])
        j = seen.get(k)
        if len(k) == 4: seen[k] = i
        if j is not None and i - j <= 0xffff and i + 12 <= len(data) and decide():
            n = 4
            while i + n < len(data) - 5 and data[j + n] == data[i + n]: n += 1
            if n >= 4:
                block(i - j, n)
                i += n
                continue
        lits.append(data[i]); i += 1
    block()
    return bytes(out)

# --- pico-8 pod files: lists of entries

class Entry:
    """kind: file (name, data) | bmp (w, h, bpp, data) | pal (data)"""
    def __init__(e, kind, data, name=None, w=0, h=0, bpp=0, packed=False):
        e.kind, e.data, e.name, e.w, e.h, e.bpp, e.packed, e.raw = kind, bytes(data), name, w, h, bpp, packed, None
    def content(e): return (e.kind, e.name, e.w, e.h, e.bpp, e.data)

def entry_bytes(e, decide=lambda: True):
    body = lz4_encode(e.data, decide) if e.packed else e.data
    size = struct.pack("<I", len(body)) if e.packed else b""
    if e.kind == "file":
        return (b"cFIL" if e.packed else b"CFIL") + struct.pack("<II", 0, len(e.data)) + e.name.encode().ljust(64, b"\0") + size + body
    if e.kind == "bmp":
        return (b"cBMP" if e.packed else b"CBMP") + struct.pack("<6I", len(e.data) + 20, e.w, e.h, e.bpp, 0, 0) + size + body
    return b"CPAL" + struct.pack("<I", 768) + e.data

def pod_bytes(entries, name="", decide=lambda: True):
    return b"CPOD" + struct.pack("<II", 0x44, 1) + name.encode().ljust(32, b"\0") + struct.pack("<I", len(entries)) + bytes(28) + b"".join(entry_bytes(e, decide) for e in entries)

def read_pod(data):
    data = bytes(data)
    if data[:4] != b"CPOD" or struct.unpack_from("<II", data, 4) != (0x44, 1): raise Bad("pod header")
    count, = struct.unpack_from("<I", data, 44)
    at, out = 76, []
    def take(n):
        nonlocal at
        if at + n > len(data): raise Bad("pod: past the end")
        at += n
        return data[at - n:at]
    u32 = lambda: struct.unpack("<I", take(4))[0]
    for _ in range(count):
        start = at
        h = take(4)
        if h in (b"CFIL", b"cFIL"):
            if u32(): raise Bad("pod: file header")
            size = u32()
            name = take(64)
            if name.rstrip(b"\0") != name.split(b"\0")[0]: raise Bad(f"pod: junk after a name: {name!r}")
            body = lz4_decode(take(u32())) if h == b"cFIL" else take(size)
            if len(body) != size: raise Bad("pod: file size")
            e = Entry("file", body, name.rstrip(b"\0").decode(), packed=h == b"cFIL")
        elif h in (b"CBMP", b"cBMP"):
            size, w, hh, bpp, a, b = struct.unpack("<6I", take(24))
            if a or b: raise Bad("pod: bmp header")
            body = lz4_decode(take(u32())) if h == b"cBMP" else take(size - 20)
            if len(body) != size - 20 or len(body) != w * hh * bpp // 8: raise Bad("pod: bmp size")
            e = Entry("bmp", body, None, w, hh, bpp, h == b"cBMP")
        elif h == b"CPAL":
            if u32() != 768: raise Bad("pod: pal size")
            e = Entry("pal", take(768))
        else: raise Bad(f"pod: entry {h!r}")
        e.raw = data[start:at]
        out.append(e)
    if at != len(data): raise Bad(f"pod: {len(data) - at} bytes after the last entry")
    return out

# --- the carts of a .js

def js_array(text, name):
    """-> start, end of what is between the brackets"""
    m = re.search(r"var\s+" + name + r"\s*=\s*\[", text)
    if not m: raise Bad(f"js: no {name}")
    i = m.end()
    while text[i] != "]":
        if text[i] in "`'\"":
            i = text.index(text[i], i + 1)
        i += 1
    return m.end(), i

def js_carts(text):
    """-> [(name, bytes)], text without the carts"""
    a, b = js_array(text, "_cartname")
    c, d = js_array(text, "_cartdat")
    names, i, want = [], a, True
    while i < b:
        if text[i] in "`'\"":
            if not want: raise Bad("js: no comma between names")
            j = text.index(text[i], i + 1)
            names.append(text[i + 1:j]); i = j + 1; want = False
        elif text[i] == ",":
            if want: raise Bad("js: two commas")
            want = True; i += 1
        elif text[i].isspace(): i += 1
        else: raise Bad(f"js: {text[i]!r} in names")
    if names and want: raise Bad("js: comma at the end")
    body = text[c:d]
    data = bytes(map(int, body.split(","))) if body.strip() else b""
    if len(data) != 0x8000 * len(names): raise Bad(f"js: {len(data):#x} bytes for {len(names)} carts")
    spans = sorted([(a, b), (c, d)])
    rest = text[:spans[0][0]], text[spans[0][1]:spans[1][0]], text[spans[1][1]:]
    return [(n, data[0x8000 * i:0x8000 * (i + 1)]) for i, n in enumerate(names)], rest

def js_text(carts, head, mid, tail, names_first=True, quote="`", sep=",", wrap=256):
    names = "var _cartname=[" + (", " if sep == ", " else ",").join(quote + n + quote for n, _ in carts) + "]"
    all_ = b"".join(d for _, d in carts)
    data = "var _cartdat=[" + (",\n".join(sep.join(map(str, all_[i:i + wrap])) for i in range(0, len(all_), wrap))) + "]"
    a, b = (names, data) if names_first else (data, names)
    return head + a + mid + b + tail
