"""Generates code-like and arbitrary character data of various lengths and entropies"""
import re, random

WORDS = [b"function", b"local ", b"end\n", b"if ", b" then\n", b"return ", b"x", b"y", b"=", b"+", b"(", b")", b"\n", b" ", b"foo", b"0", b"1", b"12.5",
    b"for i=1,10 do\n", b"_update60", b"spr(1,x,y)\n", b"--", b"[[", b"]]", b"\"", b"\\", b"\x8e", b"\x97", b"\xff", b"\t", b"A", b"Z", b"_", b",", b"#", b"~"]

def noise(seed, n, alphabet):
    r = random.Random(seed)
    return bytes(r.choices(alphabet, k=n))

def gen_text(g, maxlen, zero=False):
    """arbitrary code bytes; repetitive or not, short or long"""
    lo = 0 if zero else 1
    full = [c for c in range(lo, 256)]
    out = bytearray()
    for _ in range(g.count(0, 14, 5)):
        if len(out) >= maxlen: break
        k = g.weighted([(4, "words"), (2, "bytes"), (3, "noise"), (3, "copy"), (2, "run"), (1, "motif")])
        room = maxlen - len(out)
        size = min(room, g.weighted([(4, 12), (4, 60), (3, 400), (1, 2500), (0.4, 9000)]))
        if k == "words":
            for _ in range(g.count(1, 20, 6)):
                out += g.choice(WORDS)
        elif k == "bytes":
            out += bytes(g.int(lo, 255) for _ in range(g.count(1, 12, 4)))
        elif k == "noise":
            n = g.int(1, size)
            a = g.weighted([(3, list(b"ab")), (3, list(b"abcdefgh \n=()")), (2, list(range(32, 127))), (3, full), (1, list(range(lo, 20)) + [255, 128])])
            out += noise(g.draw(0xffff), n, a)
        elif k == "copy" and out:
            i = g.draw(len(out) - 1)
            n = min(g.int(1, size), len(out) - i)
            out += out[i:i+n]
        elif k == "run":
            out += bytes([g.int(lo, 255)]) * g.int(1, size)
        elif k == "motif":
            m = bytes(g.int(lo, 255) for _ in range(g.int(1, 9)))
            out += m * (g.int(1, size) // len(m) + 1)
    return bytes(out[:maxlen])

_sect = re.compile(rb"^__(_|.*__)?\s*$", re.M)

def is_sectionlike(code):
    return _sect.search(code) is not None
