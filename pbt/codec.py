"""Independent decoders (and free-style encoders) of the PICO-8 code formats, and of roms and png carts"""
import zlib, hashlib

CODE_SIZE = 0x3d00
ROM_SIZE = 0x4300
CART_SIZE = 0x8000
OLD_TABLE = "\0\n 0123456789abcdefghijklmnopqrstuvwxyz!#%(){}[]<>+=/*:;.,~_"
assert len(OLD_TABLE) == 0x3c

class Bad(Exception):
    pass

class BitsIn:
    def __init__(self, data, pos):
        self.data, self.pos = data, pos * 8
    def bit(self):
        p = self.pos
        if p >> 3 >= len(self.data):
            raise Bad("ran out of data")
        self.pos = p + 1
        return self.data[p >> 3] >> (p & 7) & 1
    def bits(self, n):
        return sum(self.bit() << i for i in range(n))

def decode_pxa(data, trace=None):
    """-> (code, number of bytes of data that are used, number of items of each kind)"""
    size = data[4] << 8 | data[5]
    total = data[6] << 8 | data[7]
    r = BitsIn(data, 8)
    mtf = list(range(256))
    out = bytearray()
    kinds = dict(lit=0, copy5=0, copy10=0, copy15=0, raw=0)
    def traced(*match):
        if trace is not None: trace.append((r.pos - start, bytes(out[had:]), *match))
    while len(out) < size:
        start, had = r.pos, len(out)
        if r.bit():
            n = 4
            while r.bit():
                n += 1
            i = r.bits(n) + (1 << n) - 16
            if i > 255: raise Bad("mtf index")
            c = mtf.pop(i)
            mtf.insert(0, c)
            out.append(c)
            kinds["lit"] += 1
            traced()
        else:
            n = (5 if r.bit() else 10) if r.bit() else 15
            off = r.bits(n) + 1
            if n == 10 and off == 1:
                kinds["raw"] += 1
                while True:
                    c = r.bits(8)
                    if not c: break
                    out.append(c)
                traced()
                continue
            count = 3
            while True:
                k = r.bits(3)
                count += k
                if k != 7: break
            if off > len(out): raise Bad("offset before the start")
            for _ in range(count):
                out.append(out[-off])
            kinds[f"copy{n}"] += 1
            traced(off, count)
    if len(out) != size:
        raise Bad(f"decoded {len(out)} characters, header says {size}")
    used = (r.pos + 7) >> 3
    if used != total:
        raise Bad(f"used {used} bytes, header says {total}")
    return bytes(out), used, kinds

def decode_old(data, trace=None):
    size = data[4] << 8 | data[5]
    if data[6] or data[7]: raise Bad("reserved bytes")
    p = 8
    out = bytearray()
    kinds = dict(short=0, escape=0, copy=0)
    while len(out) < size:
        start, had, match = p, len(out), ()
        c = data[p]; p += 1
        if c == 0:
            c = data[p]; p += 1
            out.append(c); kinds["escape"] += 1
        elif c < 0x3c:
            out.append(ord(OLD_TABLE[c])); kinds["short"] += 1
        else:
            d = data[p]; p += 1
            off = (c - 0x3c) * 16 + (d & 15)
            n = (d >> 4) + 2
            if off > len(out) or off == 0 or n > off: raise Bad(f"offset {off} length {n} at {len(out)}")
            for _ in range(n):
                out.append(out[-off])
            kinds["copy"] += 1
            match = off, n
        if trace is not None: trace.append((p - start, bytes(out[had:]), *match))
    if len(out) != size: raise Bad(f"decoded {len(out)} characters, header says {size}")
    return bytes(out), p, kinds

def decode_code(data, trace=None):
    """-> (code, bytes used, kind of storage, statistics); trace gets (size, text) or (size, text, offset, count) per item"""
    if data[:4] == b"\0pxa":
        c, n, k = decode_pxa(data, trace)
        return c, n, "pxa", k
    if data[:4] == b":c:\0":
        c, n, k = decode_old(data, trace)
        return c, n, "old", k
    end = data.find(b"\0")
    if end < 0: end = len(data)
    return data[:end], end, "raw", {}

class BitsOut:
    def __init__(self):
        self.out = []
    def bits(self, n, v):
        self.out += [v >> i & 1 for i in range(n)]
    def bytes(self):
        o = self.out + [0] * (-len(self.out) % 8)
        return bytes(sum(b << j for j, b in enumerate(o[i:i+8])) for i in range(0, len(o), 8))

def encode_pxa(code, decide):
    """encodes with arbitrary legal choices: decide(n) -> integer in 0..n"""
    w = BitsOut()
    mtf = list(range(256))
    i = 0
    last = {}
    while i < len(code):
        k = decide(3)
        j = -1
        if k <= 1 and i + 3 <= len(code):
            j = code.rfind(code[i:i+3], 0, i + 2)
            if decide(2) == 0 and j > 0:
                j2 = code.rfind(code[i:i+3], 0, j + 2)
                if j2 >= 0: j = j2
        if j >= 0:
            mx = 0
            while i + mx < len(code) and code[j + mx] == code[i + mx]: mx += 1
            n = mx if decide(2) else 3 + decide(mx - 3)
            off = i - j - 1
            widths = [b for b in (5, 10, 15) if off < (1 << b) and not (b == 10 and off == 0)]
            b = widths[0] if decide(2) else widths[decide(len(widths) - 1)]
            if b == 15: w.bits(2, 0)
            else: w.bits(3, 0b110 if b == 5 else 0b010)
            w.bits(b, off)
            c = n - 3
            while c >= 7:
                w.bits(3, 7); c -= 7
            w.bits(3, c)
            i += n
        elif k == 2 and decide(3) == 0:
            n = min(decide(40), len(code) - i)
            part = code[i:i+n]
            if 0 in part: part = part[:part.index(0)]
            w.bits(3, 0b010); w.bits(10, 0)
            for c in part: w.bits(8, c)
            w.bits(8, 0)
            i += len(part)
        else:
            idx = mtf.index(code[i])
            c = mtf.pop(idx); mtf.insert(0, c)
            n = 4
            v = idx
            w.bits(1, 1)
            while v >= 1 << n:
                v -= 1 << n
                n += 1
                w.bits(1, 1)
            w.bits(1, 0)
            w.bits(n, v)
            i += 1
    data = w.bytes()
    size = len(data) + 8
    return b"\0pxa" + bytes([len(code) >> 8, len(code) & 255, size >> 8, size & 255]) + data

def encode_old(code, decide):
    assert 0 not in code
    out = bytearray(b":c:\0" + bytes([len(code) >> 8, len(code) & 255, 0, 0]))
    inv = {ord(c): i for i, c in enumerate(OLD_TABLE) if i}
    i = 0
    while i < len(code):
        n = 2 + decide(15)
        n = min(n, len(code) - i, i)
        j = code.rfind(code[i:i+n], max(0, i - 0xc3f), i) if n >= 2 and decide(1) else -1
        if j >= 0:
            off = i - j
            out.append(0x3c + (off >> 4)); out.append((n - 2) << 4 | off & 15)
            i += n
        elif code[i] in inv and decide(3):
            out.append(inv[code[i]]); i += 1
        else:
            out.append(0); out.append(code[i]); i += 1
    return bytes(out)

# --- png

def png_pixels(data):
    """-> (width, height, rows of rgba bytes) of an 8 bit rgb/rgba/palette png"""
    assert data[:8] == b"\x89PNG\r\n\x1a\n", "not a png"
    p = 8
    idat = b""
    plte = trns = None
    while p < len(data):
        n = int.from_bytes(data[p:p+4], "big")
        t = data[p+4:p+8]
        body = data[p+8:p+8+n]
        assert zlib.crc32(t + body) == int.from_bytes(data[p+8+n:p+12+n], "big"), "bad crc"
        if t == b"IHDR": ihdr = body
        elif t == b"IDAT": idat += body
        elif t == b"PLTE": plte = body
        elif t == b"tRNS": trns = body
        p += 12 + n
    w, h = int.from_bytes(ihdr[:4], "big"), int.from_bytes(ihdr[4:8], "big")
    depth, ctype, _, _, lace = ihdr[8:13]
    assert lace == 0
    raw = zlib.decompress(idat)
    chans = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ctype]
    bpp = max(1, chans * depth // 8)
    stride = (w * chans * depth + 7) // 8
    prev = bytearray(stride)
    rows = []
    p = 0
    for y in range(h):
        f = raw[p]; line = bytearray(raw[p+1:p+1+stride]); p += 1 + stride
        for i in range(stride):
            a = line[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            if f == 1: line[i] = line[i] + a & 255
            elif f == 2: line[i] = line[i] + b & 255
            elif f == 3: line[i] = line[i] + (a + b) // 2 & 255
            elif f == 4:
                e = a + b - c
                pa, pb, pc = abs(e - a), abs(e - b), abs(e - c)
                line[i] = line[i] + (a if pa <= pb and pa <= pc else b if pb <= pc else c) & 255
        prev = line
        if depth < 8:
            vals = []
            for x in range(w):
                bit = x * depth
                vals.append(line[bit >> 3] >> (8 - depth - (bit & 7)) & ((1 << depth) - 1))
        else:
            vals = line
        out = bytearray()
        for x in range(w):
            if ctype == 6: out += vals[x*4:x*4+4]
            elif ctype == 2: out += bytes(vals[x*3:x*3+3]) + b"\xff"
            elif ctype == 3:
                v = vals[x]
                out += plte[v*3:v*3+3] + bytes([trns[v] if trns and v < len(trns) else 255])
            else: raise Bad("png color type")
        rows.append(bytes(out))
    return w, h, rows

def png_write(w, h, rows, filt=0):
    def chunk(t, body):
        return len(body).to_bytes(4, "big") + t + body + zlib.crc32(t + body).to_bytes(4, "big")
    raw = b"".join(b"\0" + r for r in rows)
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", w.to_bytes(4, "big") + h.to_bytes(4, "big") + bytes([8, 6, 0, 0, 0]))
            + chunk(b"IDAT", zlib.compress(raw, 1)) + chunk(b"IEND", b""))

def rom_from_png(data):
    w, h, rows = png_pixels(data)
    assert (w, h) == (160, 205), "png size"
    out = bytearray()
    for r in rows:
        for x in range(w):
            R, G, B, A = r[x*4:x*4+4]
            out.append((A & 3) << 6 | (R & 3) << 4 | (G & 3) << 2 | (B & 3))
    return bytes(out)

def png_from_rom(rom, base=None):
    """base: rows of 160*205 rgba whose high bits are kept"""
    rom = rom.ljust(160 * 205, b"\0")
    rows = []
    i = 0
    for y in range(205):
        o = bytearray()
        for x in range(160):
            v = rom[i]; i += 1
            r, g, b, a = base[y][x*4:x*4+4] if base else (0, 0, 0, 252)
            o += bytes([r & 252 | v >> 4 & 3, g & 252 | v >> 2 & 3, b & 252 | v & 3, a & 252 | v >> 6 & 3])
        rows.append(bytes(o))
    return png_write(160, 205, rows)

def trailer(rom, version=42, tup=(0, 2, 6, 2), platform="w"):
    return bytes([version, *tup[:3], ord(platform), tup[3]]) + hashlib.sha1(rom).digest()
