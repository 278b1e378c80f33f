from common import *
from tool import Ctx
import codec, textgen, os, re

PID = "P10"
TECHNIQUE = "property-based testing: random texts through the real writers against an independent decoder, and random legal encodings through the real readers"
NOTE = ("Random search. The decoders and encoders of the code formats, of png carts and of roms are the check's own; texts of up to 70000 characters of "
    "any entropy are covered, compression options in all combinations.")
RULE = ("random texts (words, noise over several alphabets, copies, runs; any of the 256 characters) given to the tool in a rom made by the check's own "
    "encoders, and written as png, rom or tiny rom with random compression options; the output is decoded by the check's own decoder. Non-trivial: "
    "the text has at least 4 characters and the output is stored compressed, or the input was")
ASSUMPTIONS = ["a cart has 0x3d00 bytes for code, and code that is stored uncompressed must end with a null (in tiny roms: with the file)"]

def make_ctx():
    return Ctx()

def make_rom(g, code, stored):
    """rom file bytes holding code in some encoding"""
    head = g.randbytes(codec.ROM_SIZE) if g.bool(0.3) else bytes(codec.ROM_SIZE)
    return head + stored.ljust(codec.CODE_SIZE, b"\0")

def encode_some(g, code):
    """a legal stored form of code, or None"""
    opts = []
    if len(code) < codec.CODE_SIZE and 0 not in code and code[:4] not in (b":c:\0", b"\0pxa"):
        opts.append("raw")
    opts += ["pxa", "pxa"]
    if 0 not in code:
        opts.append("old")
    k = g.choice(opts)
    if k == "raw": return k, code
    import random
    rnd = random.Random(g.draw(0xffff))
    decide = lambda n: rnd.randint(0, n)
    if g.bool(0.3):
        decide = lambda n: n # always the same choice
    data = codec.encode_pxa(code, decide) if k == "pxa" else codec.encode_old(code, decide)
    return k, data

def size_of(g):
    return g.weighted([(10, 300), (8, 2500), (2, 12000), (1, 30000)])

def text_through(ctx, g, code, details):
    """input file that holds code, in some way"""
    how = g.weighted([(3, "rom"), (1, "png"), (1, "tiny"), (2, "p8")])
    if how == "p8" and (textgen.is_sectionlike(code) or b"\r" in code or b"#include" in code or b"\0" in code):
        how = "rom"
    if how == "p8":
        return ctx.s.write("in.p8", p8.write_p8(code + b"\n")), None
    kind, data = encode_some(g, code)
    if len(data) > codec.CODE_SIZE:
        raise Discard("input does not fit")
    if how == "tiny":
        if kind == "raw" and b"\0" in code: raise Discard("null")
        return ctx.s.write("in.rom", data), (kind, data)
    rom = make_rom(g, code, data)
    if how == "png":
        return ctx.s.write("in.png", codec.png_from_rom(rom + (codec.trailer(rom) if g.bool() else b""))), (kind, data)
    return ctx.s.write("in.rom", rom), (kind, data)

def stored_code(fmt, data):
    """the bytes of the code region"""
    if fmt == "tiny-rom": return data
    rom = codec.rom_from_png(data)[:codec.CART_SIZE] if fmt == "png" else data
    if len(rom) != codec.CART_SIZE:
        raise Violation("rom size", f"rom has {len(rom)} bytes")
    return rom[codec.ROM_SIZE:]

def decode_checked(stored, what, **details):
    try:
        return codec.decode_code(stored)
    except (codec.Bad, IndexError) as ex:
        raise Violation("undecodable", f"{what}: the stored code can't be decoded: {ex!r}", **details)

def prop_write(g, ctx):
    ctx.s.clear()
    code = textgen.gen_text(g, size_of(g), zero=g.bool(0.1))
    inp, _ = text_through(ctx, g, code, {})
    fmt = g.choice(["png", "rom", "tiny-rom"])
    opts = g.subset(["--fast-compression"], 0.3) + g.subset(["--old-compression"], 0.3) + g.subset(["--force-compression"], 0.6)
    if g.bool(0.1): opts += ["--count", "--no-count-tokenize"]
    out = ctx.s.path("out." + ("png" if fmt == "png" else "rom"))
    r = tool.run([inp, out, "-f", fmt, *opts])
    d = dict(code=code[:2000], length=len(code), fmt=fmt, opts=opts)
    if r.exc: check_ran(r, code[:2000])
    if r.code:
        verify_refusal(ctx, g, r, inp, code, opts, out, fmt, d)
        return
    with open(out, "rb") as f: data = f.read()
    stored = stored_code(fmt, data)
    got, used, kind, stats = decode_checked(stored, fmt, **d)
    if got != code:
        raise Violation("damaged", f"stored code differs {first_diff(got, code)}", **d)
    if fmt != "tiny-rom" and any(stored[used:]):
        raise Violation("garbage", "the code is followed by garbage", **d)
    if used > codec.CODE_SIZE or (kind == "raw" and fmt != "tiny-rom" and used >= codec.CODE_SIZE):
        raise Violation("overflow", f"{used} bytes stored", **d)
    if kind != "raw":
        if (kind == "old") != ("--old-compression" in opts):
            raise Violation("format", f"stored as {kind}", **d)
    if fmt == "tiny-rom" and used != len(stored):
        raise Violation("garbage", "tiny rom has extra bytes", **d)
    if fmt != "tiny-rom" and ("--force-compression" in opts or "--count" in opts) and kind == "raw":
        raise Violation("format", "not compressed although forced", **d)
    # reading it back
    back = ctx.s.path("back.p8")
    r = check_ran(tool.run([out, back]), code[:2000])
    with open(back, "rb") as f: read = f.read()
    if not textgen.is_sectionlike(code):
        if p8.read_code(read) != code:
            raise Violation("read back", f"code read back differs {first_diff(p8.read_code(read), code)}", **d)
    g.event("stored " + kind)
    for k, v in stats.items():
        if v: g.event(f"{kind}/{k}")
    if len(code) >= 4 and kind != "raw":
        g.mark(code)
        g.sample = dict(length=len(code), head=text(code[:60]), fmt=fmt, opts=opts, stored=used)

def verify_refusal(ctx, g, r, inp, code, opts, out, fmt, d):
    """a refusal has status 3, a message, no output, and a reason"""
    if r.code != 3 or "ERROR" not in r.err:
        raise Violation("refusal", f"exit {r.code}", run=r.describe(), **d)
    if os.path.exists(out):
        raise Violation("refusal", "refused but an output was written", **d)
    if "--old-compression" in opts and b"\0" in code:
        g.event("refused: null in old format")
        return
    size = None
    if len(code) < 0x10000:
        if "--old-compression" in opts:
            # (the sizes printed for text outputs are always those of the new format)
            if len(code) < 8000: raise Violation("refusal", "small code refused", run=r.describe(), **d)
        else:
            r2 = tool.run([inp, ctx.s.path("x.p8"), "--count", "--no-count-tokenize", "--parsable-count", *opts])
            m = re.search(r"^count:.*:compressed:(\d+):", r2.out, re.M)
            if not m: raise Violation("refusal", "no size", run=r2.describe(), **d)
            size = int(m.group(1))
            if size <= codec.CODE_SIZE:
                raise Violation("refusal", f"refused although it takes {size} bytes", run=r.describe(), **d)
    g.event("refused")

def prop_read(g, ctx):
    """any legal encoding is decoded exactly"""
    ctx.s.clear()
    code = textgen.gen_text(g, size_of(g), zero=g.bool(0.2))
    if textgen.is_sectionlike(code): raise Discard("looks like a section")
    kind, data = encode_some(g, code)
    if len(data) > codec.CODE_SIZE: raise Discard("does not fit")
    if codec.decode_code(data)[0] != code: raise AssertionError("own codec is wrong")
    how = g.choice(["rom", "tiny", "png", "url"])
    if how == "tiny":
        inp = ctx.s.write("in.rom", data)
    elif how == "url":
        import base64
        inp = ctx.s.write("in.url", b"https://www.pico-8-edu.com/?c=" + base64.b64encode(data, b"_-"))
    else:
        rom = make_rom(g, code, data)
        inp = ctx.s.write("in." + how, rom if how == "rom" else codec.png_from_rom(rom))
    out = ctx.s.path("out.p8")
    keep = how != "url" and g.bool(0.4)
    if keep:
        fmt = g.choice(["rom", "tiny-rom", "png"])
        out = ctx.s.path("out." + ("png" if fmt == "png" else "xrom"))
        r = check_ran(tool.run([inp, out, "-f", fmt, "--keep-compression"]), code[:2000])
        with open(out, "rb") as f: got = f.read()
        stored = stored_code(fmt, got)
        want = data if fmt == "tiny-rom" else data.ljust(codec.CODE_SIZE, b"\0")
        if stored != want:
            raise Violation("keep", f"compression not kept ({kind}, {how} to {fmt}): {first_diff(stored, want)}", code=code[:2000])
        g.event("kept " + kind)
    else:
        r = check_ran(tool.run([inp, out]), code[:2000])
        with open(out, "rb") as f: got = p8.read_code(f.read())
        if got != code:
            raise Violation("decode", f"{kind} from {how}: {first_diff(got, code)}", code=code[:2000], stored=data[:2000])
    g.event("read " + kind)
    if len(code) >= 4 and kind != "raw":
        g.mark(data)
        g.sample = dict(length=len(code), head=text(code[:60]), kind=kind, stored=len(data), how=how)

def prop_limit(g, ctx):
    """around the limits: 0x3d00 characters, 0x3d00 compressed bytes, 0x10000 characters"""
    ctx.s.clear()
    seed = g.draw(0xffff)
    k = g.draw(3)
    opts = g.subset(["--fast-compression"], 0.4) + g.subset(["--force-compression"], 0.3)
    if k == 0: # character limit for plain storage
        n = codec.CODE_SIZE + g.int(-3, 3)
        code = textgen.noise(seed, n, g.choice([list(b"abcd \n="), list(range(14, 256))]))
    elif k == 1: # compressed size limit: incompressible head, compressible rest
        n = codec.CODE_SIZE - 30 + g.int(-12, 12)
        code = textgen.noise(seed, n, list(range(14, 256))) + b"a" * g.int(40, 3000)
        if g.bool(): opts += ["--old-compression"]
    elif k == 2:
        n = 0x10000 + g.int(-2, 2)
        m = textgen.noise(seed, g.int(1, 50), list(b"abcd \n="))
        code = (m * (n // len(m) + 1))[:n]
    else: # old format near its limit: two bytes per character
        n = codec.CODE_SIZE // 2 - 5 + g.int(-6, 6)
        code = textgen.noise(seed, n, list(range(128, 256))) + b"a" * 12000
        opts += ["--old-compression"]
    inp = ctx.s.write("in.lua", p8.to_text(code + b"\n").encode("utf8"))
    fmt = g.choice(["png", "rom", "tiny-rom"])
    out = ctx.s.path("out." + ("png" if fmt == "png" else "rom"))
    r = tool.run([inp, out, "-f", fmt, *opts])
    d = dict(length=len(code), fmt=fmt, opts=opts, kindof=k, seed=seed)
    if r.exc: check_ran(r)
    if r.code:
        verify_refusal(ctx, g, r, inp, code, opts, out, fmt, d)
    else:
        with open(out, "rb") as f: data = f.read()
        stored = stored_code(fmt, data)
        got, used, kind, stats = decode_checked(stored, fmt, **d)
        if got != code: raise Violation("damaged", f"stored code differs {first_diff(got, code)}", **d)
        if used > codec.CODE_SIZE or (kind == "raw" and fmt != "tiny-rom" and used >= codec.CODE_SIZE):
            raise Violation("overflow", f"{used} bytes stored", **d)
        g.event("fits as " + kind)
        if k == 2 and n > 0xffff: raise Violation("overflow", "too many characters accepted", **d)
    g.mark(f"{k} {n} {seed} {fmt} {opts}")

def prop_distance(g, ctx):
    """copies whose distance or length is around a limit of the formats"""
    ctx.s.clear()
    parts, pos, n = [], {}, 0
    far = g.bool(0.3)
    limits = [0x20, 0x400, 0xc3f, 0x8000] if far else [0x20, 0x400, 0xc3f]
    alpha = [b"qwzxvjky", b"\x80\x81\x82\x83\x84\x85", b"0123", bytes(range(200, 216))]
    filler = g.choice([b"a", b"ab", b"abcdefg", b"a\n"])
    size = 0
    for _ in range(g.int(1, 3)):
        k = g.draw(len(alpha) - 1)
        chunk = textgen.noise(g.draw(0xffff), g.choice([3, 4, 5, 9, 10, 11, 16, 17, 18, 19, 40]), list(alpha[k]))
        dist = g.choice(limits) + g.int(-2, 3)
        if size + dist > 0xff00: break
        gap = max(0, dist - len(chunk))
        fill = (filler * (gap // len(filler) + 1))[:gap]
        parts += [chunk, fill, chunk]
        size += len(chunk) * 2 + gap
        g.event(f"distance {dist - len(chunk) + len(chunk):#x}"[:-1] + "?")
    if g.bool(0.2): parts.append(textgen.noise(g.draw(0xffff), g.int(1, 60), list(range(14, 256))))
    code = b"".join(parts)
    opts = g.subset(["--fast-compression"], 0.4) + g.subset(["--old-compression"], 0.4) + ["--force-compression"]
    fmt = g.choice(["rom", "tiny-rom", "png"])
    inp = ctx.s.write("in.lua", p8.to_text(code + b"\n").encode("utf8"))
    out = ctx.s.path("out." + ("png" if fmt == "png" else "rom"))
    r = check_ran(tool.run([inp, out, "-f", fmt, *opts]), code[:2000])
    with open(out, "rb") as f: data = f.read()
    d = dict(length=len(code), fmt=fmt, opts=opts, head=code[:200])
    got, used, kind, stats = decode_checked(stored_code(fmt, data), fmt, **d)
    if got != code: raise Violation("damaged", f"stored code differs {first_diff(got, code)}", **d)
    back = ctx.s.path("back.lua")
    check_ran(tool.run([out, back]), code[:2000])
    with open(back, "rb") as f:
        if p8.from_text(f.read().decode("utf8")) != code: raise Violation("read back", "code read back differs", **d)
    g.mark(code + " ".join(opts).encode())
    g.sample = dict(length=len(code), opts=opts, stored=used)

CHECKS = [("write", prop_write, 1200, 30000, {"timeout": 200}), ("read", prop_read, 1500, 40000, {"timeout": 200}),
          ("distance", prop_distance, 150, 20000, {"timeout": 400}),
          ("limit", prop_limit, 40, 1200, {"timeout": 400})]
