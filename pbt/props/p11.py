from common import *
from tool import Ctx
import cartmodel as cm
import codec, os, re, base64
import textgen

PID = "P11"
TECHNIQUE = "property-based testing: random carts through random chains of conversions, against an independent model with its own readers and writers of all formats"
NOTE = ("Random search. Carts of random contents in every section (defaults, single changed bytes, noise, partial lines) are written by the check's own writers "
    "in several spellings of each format, converted by the tool along chains of one to five formats (p8, png, rom, tiny rom, clip, url, lua, label, spritesheet), "
    "and each file is decoded by the check's own readers. Exports (js, pod) belong to P14, exact code compression to P10.")
RULE = ("random carts and conversion chains; every output file is decoded by the check's own reader and compared with a model of what each format stores; "
    "png images are compared pixel by pixel with template, label and title. Non-trivial: at least two sections besides code differ from a new cart's, "
    "or the code is not empty and a binary format is involved")
ASSUMPTIONS = ["text formats cannot hold code lines that look like section headers, nor a carriage return just before a line break",
               "a lua file's last line break ends its last line (it is not part of the code)", "colour 0 of a label lets the template show through in a png"]

def make_ctx():
    return Ctx()

BIN = ("png", "clip", "rom", "tiny", "url")
EXT = {"p8": "p8", "png": "png", "clip": "clip", "rom": "rom", "tiny": "rom", "url": "url", "lua": "lua", "label": "png", "spritesheet": "png"}
FMT = {"tiny": "tiny-rom"}

def style_of(g):
    r = {k: g.weighted([(4, 0), (1, 1)]) for k in ("full", "upper", "short", "space", "lua last", "crlf", "no end")}
    r["order"] = g.weighted([(3, 0), (1, 1), (1, 2)])
    return lambda name: r[name]

def gen_template(g):
    """rows of a random 160x205 image"""
    seed = g.draw(0xffff)
    k = g.draw(2)
    alphabet = [list(range(256)), [0, 3, 252, 255], list(range(250, 256))][k]
    raw = bytearray(textgen.noise(seed, 160 * 205 * 4, alphabet))
    if g.bool(0.7):
        raw[3::4] = b"\xff" * (160 * 205)
    return [bytes(raw[640 * y:640 * y + 640]) for y in range(205)]

def write_input(ctx, g, m, kind, name="in"):
    """writes m with the check's own writers; m becomes what the file holds"""
    n = f"{name}.{EXT[kind]}"
    if kind in ("png", "clip", "rom", "tiny", "url"):
        stored = cm.code_region(g, m.code)
        if stored is None or kind == "tiny" and stored == m.code and b"\0" in stored: raise Discard("code does not fit")
    if kind == "p8":
        data = cm.write_p8(m, style_of(g))
    elif kind == "lua":
        data = (p8.to_text(m.code) + g.choice(["\n", ""])).encode("utf8") if not m.code.endswith(b"\n") else (p8.to_text(m.code) + "\n").encode("utf8")
    elif kind in ("png", "clip"):
        rom = cm.to_rom(m, stored)
        if g.bool(0.3):
            m.tuple, m.platform = tuple(g.draw(255) for _ in range(4)), g.choice("wlxE")
        tr = b"" if g.bool(0.2) else cm.trailer(m, rom, g.bool(0.8))
        base = gen_template(g) if g.bool(0.3) else None
        if not tr: # an all-zero trailer
            m.version, m.tuple, m.platform = 0, (0, 0, 0, 0), "\0"
        rows = cm.cart_image(m, base)
        data = codec.png_from_rom(rom + tr, rows)
        m.label = cm.label_of_rows(rows, 16, 24)
        if kind == "clip": data = b"[cart]" + (data.hex().upper() if g.bool(0.2) else data.hex()).encode() + b"[/cart]" + g.choice([b"", b"\n"])
    elif kind == "rom": data = cm.to_rom(m, stored)
    elif kind == "tiny": data = stored
    elif kind == "url": data = cm.to_url(g, m, stored).encode()
    forget(m, kind)
    return ctx.s.write(n, data)

def forget(m, kind, written_by_tool=False):
    """m becomes what kind stores of it (besides the label of an image)"""
    d = cm.Model()
    if kind == "p8":
        m.set_version(m.version)
        m.platform = "w"
        if m.label and not any(m.label): m.label = None
        return
    m.meta = {}
    if kind in ("png", "clip"): return
    m.label = None
    m.version, m.tuple, m.platform = d.version, d.tuple, d.platform
    if kind == "rom": return
    gfx = m.area("gfx")
    m.rom = d.rom
    if kind == "url": m.rom[:0x2000] = gfx
    if kind == "lua" and written_by_tool and m.code.endswith(b"\n"): m.code = m.code[:-1]

def pixels_ok(want, got, exact=True):
    """the image apart from the low bits"""
    font = None
    for y in range(205):
        a, b = want[y], got[y]
        if bytes(v & 252 for v in a) != bytes(v & 252 for v in b):
            for i in range(640):
                if a[i] & 252 != b[i] & 252:
                    if 167 <= y < 183 and 18 * 4 <= i < 142 * 4 and abs(a[i] - b[i]) <= 8: continue # (some of the font is not quite opaque)
                    return f"pixel {i // 4},{y} channel {i % 4}: wanted {a[i] & 252}, got {b[i] & 252}"
    return None

def verify(kind, path, m, template, template_only, d, unicaps=False, only=None):
    """the file of this kind at path holds m"""
    with open(path, "rb") as f: data = f.read()
    what = ["code", "gfx", "map", "gff", "music", "sfx"]
    try:
        if kind == "p8":
            got = cm.read_p8(data, unicaps)
            what += ["label", "meta", "version"]
        elif kind in ("png", "clip"):
            if kind == "clip":
                text = data.decode("ascii")
                if not (text.startswith("[cart]") and text.endswith("[/cart]")): raise cm.BadFile("clip brackets")
                data = bytes.fromhex(text[6:-7])
            got = cm.from_png(data)
            what += ["version", "tuple"]
            bad = not only and pixels_ok(cm.cart_image(m, template, template_only), got.rows)
            if bad: raise Violation("image", f"the written image is wrong: {bad}", **d)
        elif kind == "rom": got = cm.from_rom(data)
        elif kind == "tiny":
            got = cm.Model(codec.decode_code(data)[0])
            what = ["code"]
        elif kind == "url":
            got = cm.from_url(data.decode("ascii"))
            what = ["code", "gfx"]
        elif kind == "lua":
            got = cm.Model(cm.code_from_text(data.decode("utf8"), unicaps))
            what = ["code"]
        elif kind in ("label", "spritesheet"):
            w, h, rows = codec.png_pixels(data)
            if (w, h) != (128, 128): raise cm.BadFile("image size")
            want = cm.image_of(m.label or bytes(16384), True) if kind == "label" else cm.image_of(cm.gfx_colors(m.rom))
            for y in range(128):
                for x in range(0, 512, 4):
                    a, b = want[y][x:x + 4], rows[y][x:x + 4]
                    if a != b and (a[3] or b[3]):
                        raise Violation("image", f"{kind} pixel {x // 4},{y}: wanted {tuple(a)}, got {tuple(b)}", **d)
            return None
    except (cm.BadFile, codec.Bad, ValueError, IndexError, AssertionError) as ex:
        raise Violation("unreadable", f"the {kind} file can't be read back: {ex!r}", **d)
    bad = cm.diff(m, got, only or what)
    if bad: raise Violation("lost", f"in {kind} file: {bad}", **d)
    return got

def prop_chain(g, ctx):
    ctx.s.clear()
    small = g.bool(0.4)
    m = cm.gen_model(g, 300 if small else g.choice([300, 1500, 8000]))
    kind = g.weighted([(4, "p8"), (2, "png"), (1, "clip"), (1, "rom"), (0.5, "tiny"), (0.5, "url"), (0.5, "lua")])
    if kind == "url" or g.bool(0.15):
        m.rom[:0x2000] = bytes(m.rom[:g.choice([0, 64, 640])]).ljust(0x2000, b"\0")
    path = write_input(ctx, g, m, kind)
    if kind not in ("rom", "tiny") and g.bool(0.15): # told by its content, or by the extension in any case
        with open(path, "rb") as f: data = f.read()
        if kind in ("p8", "png", "clip") or kind == "url" and data.startswith(b"https://www.pico-8-edu.com/?"):
            path = ctx.s.write(g.choice(["in", "in.txt", "in.p9", "in.rom.bak", "in." + EXT[kind].upper()]), data)
            g.event("unknown extension")
    chain = [kind]
    d = dict(chain=chain, version=m.version)
    interesting = sum(m.area(k) != cm.Model().area(k) for k in cm.AREAS) + bool(m.label) + bool(m.meta)
    for step in range(g.count(1, 5, 2)):
        prev = kind
        kind = g.weighted([(5, "p8"), (4, "png"), (1, "clip"), (3, "rom"), (1, "tiny"), (1, "url"), (1, "lua"), (0.7, "label"), (0.7, "spritesheet")])
        if kind in ("png", "clip") and m.version > 255: kind = "p8"
        if prev == "p8" or prev == "lua":
            # what was read from a text format
            pass
        args = []
        out = ctx.s.path(f"o{step}.{EXT[kind]}")
        if kind in ("tiny", "label", "spritesheet") or g.bool(0.2): args += ["-f", FMT.get(kind, kind)]
        if prev in ("tiny", ) or g.bool(0.2): args += ["-F", FMT.get(prev, prev)]
        if g.bool(0.2): args += ["-u"]
        template, tonly = None, False
        if kind in ("png", "clip"):
            if g.bool(0.25):
                template = gen_template(g)
                args += ["--template-image", ctx.s.write("t.png", codec.png_write(160, 205, template))]
            if g.bool(0.2):
                args.append("--template-only"); tonly = True
            if g.bool(0.05): args.append("--optimize-png-compression")
        if kind in BIN and g.bool(0.3): args.append("--fast-compression")
        if g.bool(0.1) and kind not in BIN:
            extra = g.choice(["rom", "p8"])
            args += ["--extra-output", ctx.s.path("extra." + extra)]
        else: extra = None
        chain.append(kind + " " + " ".join(a for a in args if a.startswith("-")))
        r = tool.run([path, out, *args])
        d["run"] = r.describe()
        if r.exc: check_ran(r, m.code[:2000])
        if r.code:
            if kind == "url" and "too many characters" in r.err or "cart takes too much" in r.err or "compressed code" in r.err or "too big" in r.err:
                g.event("refused: too large")
                if kind == "url" and len(m.code) < 100 and not any(m.rom[64:0x2000]): raise Violation("refused", "small cart refused", **d)
                return
            check_ran(r, m.code[:2000])
        got = verify(kind, out, m, template, tonly, d, "-u" in args)
        if extra: verify(extra, ctx.s.path("extra." + extra), m, None, False, d, "-u" in args)
        g.event(f"{prev} to {kind}")
        if kind in ("label", "spritesheet"):
            # these hold only an image: read it back too
            n = cm.Model()
            if kind == "label": n.label = m.label if m.label and any(m.label) else None
            else: n.rom[:0x2000] = m.rom[:0x2000]
            r = check_ran(tool.run([out, ctx.s.path("img.p8"), "-F", kind]))
            d["run"] = r.describe()
            verify("p8", ctx.s.path("img.p8"), n, None, False, d)
            break
        forget(m, kind, True)
        if kind in ("png", "clip"): m.label = cm.label_of_rows(got.rows, 16, 24)
        path = out
    if interesting >= 2 or m.code and any(c.split()[0] in BIN for c in chain):
        g.mark(repr((chain, m.code, bytes(m.rom))))
        g.sample = dict(chain=list(chain), code=text(m.code[:80]), sections=interesting)

def prop_images(g, ctx):
    """label and sprite sheet images of any png encoding"""
    ctx.s.clear()
    kind = g.choice(["label", "spritesheet"])
    colors = textgen.noise(g.draw(0xffff), 16384, list(range(32 if kind == "label" else 16)))
    if g.bool(0.3): colors = bytes(colors[:g.draw(3000)]).ljust(16384, b"\0")
    enc = g.choice(["rgba", "low bits", "rgb", "palette", "palette4"])
    if enc == "palette4": colors = bytes(c & 15 for c in colors)
    rows = cm.image_of(colors)
    if enc == "low bits": # the low two bits of each channel don't matter
        noise = textgen.noise(g.draw(0xffff), 512 * 128, [0, 1, 2, 3])
        rows = [bytes(v & 252 | noise[512 * y + i] for i, v in enumerate(r)) for y, r in enumerate(rows)]
    data = codec.png_write(128, 128, rows)
    if enc in ("rgb", "palette", "palette4"):
        import io
        from PIL import Image
        im = Image.frombytes("RGBA", (128, 128), b"".join(rows)).convert("RGB")
        if enc != "rgb": im = im.convert("P", palette=Image.ADAPTIVE, colors=32)
        b = io.BytesIO(); im.save(b, "png"); data = b.getvalue()
        if [c for r in codec.png_pixels(data)[2] for c in r] != [c for r in rows for c in r]: raise Discard("quantized")
    inp = ctx.s.write("i.png", data)
    out = ctx.s.path("o.p8")
    r = check_ran(tool.run([inp, out, "-F", kind]))
    n = cm.Model()
    if kind == "label": n.label = colors if any(colors) else None
    else: n.rom[:0x2000] = cm.rom_gfx(colors)
    verify("p8", out, n, None, False, dict(enc=enc, kind=kind))
    g.event(enc)
    g.mark(colors)
    g.sample = dict(kind=kind, encoding=enc)

CHECKS = [("chain", prop_chain, 700, 60000, {"timeout": 200}), ("images", prop_images, 80, 3000)]
