from common import *
from tool import Ctx
import cartmodel as cm
import codec, textgen, os
from props import p11

PID = "P12"
TECHNIQUE = "property-based testing: random character sequences and unicode texts through every text and binary format, against an independent table of the character set"
NOTE = ("Random search over sequences of the 256 characters, every ordered pair of special characters being likely within a run, and over texts with italic capitals, "
    "raw control characters, variation selectors, foreign characters and invalid utf-8.")
RULE = ("random character sequences are written as text by the check's own table, converted through text and binary formats, standard streams and the unicode-capitals option, "
    "minified and given as constants; every result is compared exactly. Non-trivial: the text holds at least two characters outside of ascii, or capitals with the option")
ASSUMPTIONS = ["a carriage return just before a line break is part of the line break", "characters PICO-8 doesn't know are read as their utf-8 bytes, as the tool documents"]

def make_ctx():
    return Ctx()

SPECIAL = [i for i in range(1, 256) if i < 32 or i >= 127]

def gen_chars(g, nul=True, lf=True):
    k = g.weighted([(4, "pick"), (2, "noise"), (1, "all"), (2, "pairs")])
    if k == "pick": out = bytes(g.choice([g.int(0, 255), g.choice(SPECIAL), g.int(65, 90), g.int(97, 122)]) for _ in range(g.count(1, 30, 8)))
    elif k == "noise": out = textgen.noise(g.draw(0xffff), g.int(1, 400), list(range(256)))
    elif k == "all":
        a = list(range(256))
        out = bytes(g.shuffled(a))
    else:
        c = g.choice([0x83, 0x8b, 0x8e, 0x91, 0x94, 0x82, 0x16, 0x17, 127, 255, 10, 13])
        out = b"".join(bytes([c, d]) for d in range(g.int(1, 256)))
    if not nul: out = out.replace(b"\0", b"\1")
    if not lf: out = out.replace(b"\n", b" ").replace(b"\r", b" ")
    import re
    return re.sub(rb"\r+(?=\n|$)", b"", out)

def tame(code):
    code = code.replace(b"#", b"%").rstrip(b"\r")
    if textgen.is_sectionlike(code) or code.startswith(b"pico-8 cartridge") or code.startswith(b"__lua__"): raise Discard("looks like a section")
    return code

def caps(text_):
    return text_.translate({v: chr(k) for k, v in cm.CAPS.items()})

def prop_formats(g, ctx):
    ctx.s.clear()
    code = tame(gen_chars(g))
    m = cm.Model(code)
    kind = g.choice(["p8", "lua", "png", "rom", "clip", "url", "tiny"])
    path = p11.write_input(ctx, g, m, kind)
    stdin = None
    chain = [kind]
    for step in range(g.count(1, 4, 2)):
        new = g.choice(["p8", "p8", "lua", "lua", "png", "rom", "clip", "url", "tiny"])
        u = g.bool(0.4)
        args = []
        if g.bool(0.25):
            with open(path, "rb") as f: stdin = f.read()
            src = "-"
            args += ["-F", p11.FMT.get(kind, kind)]
        else:
            src, stdin = path, None
            if kind == "tiny" or g.bool(0.2): args += ["-F", p11.FMT.get(kind, kind)]
        out = ctx.s.path(f"o{step}.{p11.EXT[new]}")
        tostd = g.bool(0.25)
        args += ["-f", p11.FMT.get(new, new)]
        if u: args.append("-u")
        r = check_ran(tool.run([src, "-" if tostd else out, *args], stdin=stdin), code)
        chain.append(new + (" -u" if u else "") + (" stdin" if src == "-" else "") + (" stdout" if tostd else ""))
        d = dict(chain=chain, code=code[:600], run=r.describe())
        if tostd:
            with open(out, "wb") as f: f.write(r.raw_out)
        p11.verify(new, out, m, None, False, d, u, ["code"])
        p11.forget(m, new, True)
        path, kind = out, new
    if sum(c >= 127 or c < 32 for c in code) >= 2:
        g.mark((code, tuple(chain)).__repr__())
        g.sample = dict(chain=list(chain), code=p8.to_text(code[:40]))

UNKNOWN = ["é", "ß", "漢", "😀", "\u200d", "ˈ", "ƒ", "♠", "\ufe0f", "\ufe0e", "⬇", "⬆", "➡", "⬅", "🅾", "𝘈", "𝘢𝘣", "が", "ぁ", "ﾟ", "\u2028", "\x85", "\xa0", "ⓧ", "\x7f"]

def prop_typed(g, ctx):
    """text typed in other spellings, and text that isn't from the character set at all"""
    ctx.s.clear()
    want = bytearray()
    raw = bytearray()
    for _ in range(g.count(1, 25, 8)):
        k = g.weighted([(3, "char"), (2, "cap"), (2, "ctrl"), (2, "unknown"), (1, "bad")])
        if k == "char":
            c = g.draw(255)
            raw += p8.to_text(bytes([c])).encode(); want.append(c)
        elif k == "cap":
            i = g.draw(25)
            raw += caps(chr(65 + i)).encode(); want.append(65 + i)
        elif k == "ctrl":
            c = g.choice([*range(1, 9), 11, 12, *range(14, 32), 127])
            raw.append(c); want.append(c)
        elif k == "unknown":
            t = g.choice(UNKNOWN) if g.bool() else chr(g.draw_from(0x10ffff, lambda r: r.choice([r.randrange(0x80, 0xa1), r.randrange(0x80, 0x300), r.randrange(0x2000, 0x3100), r.randrange(0xe000, 0x10000), r.randrange(0x1d400, 0x1d800), 0x10ffff])))
            if "\ud800" <= t <= "\udfff" or t < "\x80": t = "\x80"
            raw += t.encode()
        else:
            raw += bytes([g.choice([0xc3, 0xff, 0x80, 0xe2, 0xf0])])
            raw += b"x" if g.bool() else b""
        if k in ("unknown", "bad"): g.event("foreign")
    text_ = bytes(raw).decode("utf8", "surrogateescape")
    want = expect(text_)
    tame(want)
    if b"\r" in want or b"#" in want: raise Discard("line ends")
    ext = g.choice(["p8", "lua", "none"])
    data = (b"pico-8 cartridge // http://www.pico-8.com\nversion 42\n__lua__\n" if ext == "p8" else b"") + bytes(raw) + b"\n"
    if ext == "lua" and want.startswith((b"pico-8", b"__lua")): raise Discard("header")
    path = ctx.s.write("in" + ("." + ext if ext != "none" else ""), data)
    if ext == "none" and data.startswith((b"\x89PNG", b"[cart]", b"https:")): raise Discard("header")
    fmt = g.choice(["rom", "p8"])
    out = ctx.s.path("o." + fmt)
    r = check_ran(tool.run([path, out]), want)
    m = cm.Model(want)
    p11.verify(fmt, out, m, None, False, dict(text=ascii(text_), ext=ext, run=r.describe()))
    if any(c >= 127 for c in want) or any(c in raw for c in b"\xf0"):
        g.mark(bytes(raw))
        g.sample = dict(text=ascii(text_)[:80], ext=ext)

def expect(text_):
    """what PICO-8 reads: its own characters, italic capitals, and the utf-8 bytes of anything else"""
    out = bytearray()
    i = 0
    while i < len(text_):
        two, c = text_[i:i + 2], text_[i]
        if ord(c) < 128: out.append(ord(c))
        elif c in p8._by_text: out.append(p8._by_text[c])
        elif ord(c) in cm.CAPS: out.append(cm.CAPS[ord(c)])
        elif len(two) == 2 and two in p8._by_text:
            out.append(p8._by_text[two]); i += 1
        else: out += c.encode("utf8", "surrogateescape")
        i += 1
    return bytes(out)

def prop_const(g, ctx):
    """characters in constants given on the command line, in titles and in minified strings"""
    ctx.s.clear()
    chars = gen_chars(g, nul=False, lf=False)[:60]
    if chars.startswith(b"-"): chars = b"a" + chars
    text_ = p8.to_text(chars)
    typed = caps(text_) if g.bool(0.3) else text_
    code = b"x=0 printh(myconst)\n"
    ctx.s.write("in.p8", p8.write_p8(code))
    out = ctx.s.path("o.p8")
    args = ["--minify", "--str-const", "myconst", typed] + g.choice(FOCUSES)
    u = g.bool(0.3)
    if u: args.append("-u")
    title = g.bool(0.4)
    if title: args += ["--title", text_]
    r = check_ran(tool.run([ctx.s.path("in.p8"), out, *args]), code)
    with open(out, "rb") as f: m = cm.read_p8(f.read(), u)
    res = luarun.run(m.code)
    d = dict(chars=chars, typed=ascii(typed), output=m.code, run=r.describe())
    if res.events != ["printh s:" + chars.decode("latin-1")]:
        raise Violation("constant", f"the constant became {str(res.events)[:300]}", **d)
    if title and m.meta.get("title") != [text_]: raise Violation("title", f"the title became {m.meta.get('title')!r}", **d)
    if sum(c >= 127 for c in chars) >= 2:
        g.mark(chars)
        g.sample = dict(text=text_[:60], args=args[:2])

CHECKS = [("formats", prop_formats, 700, 60000, {"timeout": 200}), ("typed", prop_typed, 3000, 60000), ("const", prop_const, 2500, 40000)]
