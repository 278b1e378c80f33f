from common import *
from tool import Ctx
import tool, tron, codec, podfile, fnmatch, textgen, os, shutil, zipfile, io
from props.p20 import BADS, globbed
from tron import canon

PID = "P19"
TECHNIQUE = "round-trips and model-based testing: generated file trees go through chains of containers (p64, dir, rom, png, sysrom and html exports), read by independent readers; histories of filter/insert/merge/extract/list against a dictionary of files; escaping paths against a snapshot of the scratch directory"
NOTE = ("Random search. The containers are read and written by the check's own code (tron.py). picotron.dat isn't available: exports are created from a stand-in made of the entries that the format names.")
RULE = "convert: 2+ files go through at least one other container. ops: at least one operation changes the files. outside: the cart has a path that leads out. Distinct by file tree and command lines"
ASSUMPTIONS = ["names have no surrounding whitespace, line breaks or nul, and none is [eoc] (p64 has no way to write these)", "directories may be added or dropped freely as long as those of the files exist", "no copy of picotron.dat is available"]

def make_ctx():
    ctx = Ctx()
    ctx.template = None
    return ctx

NAMES = ["main.lua", "a.lua", "b.pod", "0.gfx", "1.sfx", "x", "readme.txt", "A.LUA", "a b.lua", "é.lua", "[x].lua", "!n.lua", "a*.lua", "a?b", "b64$", "..x", "x..", ".hid", ".info.pod", "#1", "q'\"`", "a,b", "[eoc].x", "::", "n" * 100, "\udcff.bin", "-x", "a;b", "%20", "ü", "::x", "]", "a-b.lua", "$.lua"]
DIRS = ["", "", "", "sfx/", "gfx/", "gfx/sub/", "d e/", "a.lua.d/", "sub/sub/sub/", "é/", "..d/", "[gs]fx/"]

def gen_data(g):
    k = g.weighted([(3, "code"), (3, "bytes"), (2, "special"), (2, "pod"), (1, "sized"), (0.5, "big"), (1, "empty")])
    if k == "code": return b"-- comment\nx=1\n" * g.int(0, 3) + g.choice([b"", b"y=2", b"y=2\n", b"\n\n"])
    if k == "bytes": return textgen.noise(g.draw(0xffff), g.int(0, 60), g.choice([list(range(256)), list(b"a\n\r:b"), list(range(32, 127)) + [10, 9]]))
    if k == "special":
        return b"".join(g.choice([b":: a.lua\n", b"\n:: ", b":: [eoc]\n", b"b64$", b"b64$YQ==", b"\r\n", b"\r", b"\n", b"\n\n", b"version 3\n", b"picotron cartridge\n", b"::", b" :: x\n", b"\t", b"a", b"\0", b"\x7f", b"\xc3\xa9", b"\x1a", b"--[[pod", b"]]", b"\x0b", b"\x0c", b"\x85", b"\xe2\x80\xa8", b"\x1c"]) for _ in range(g.int(1, 6)))
    if k == "pod": return b"--[[pod" + g.choice([b"", b",runtime=5", b',title="x"']) + b"]]" + tron.encode_pod(g, tron.gen_value(g, 1))
    if k == "sized": return textgen.noise(g.draw(0xffff), g.choice([253, 254, 255, 256, 257, 511]), list(range(97, 123)) + [10])
    if k == "big": return textgen.gen_text(g, 9000, zero=True)
    return b""

def ancestors(path):
    parts = path.rstrip("/").split("/")[:-1]
    return ["/".join(parts[:i + 1]) + "/" for i in range(len(parts))]

def gen_tree(g, n=None, main=0.7, avg=4):
    """{path: bytes | None}"""
    files = {}
    if g.bool(main): files["main.lua"] = gen_data(g) if g.bool(0.5) else b"x=1\n"
    for _ in range(g.count(0, n or 9, avg)):
        p = g.choice(DIRS) + g.choice(NAMES)
        if any(a.rstrip("/") in files for a in ancestors(p)) or p + "/" in files or any(f.startswith(p + "/") for f in files): continue
        files[p] = gen_data(g)
    if g.bool(0.15):
        d = g.choice(["empty/", "gfx/", "sfx/"])
        if d[:-1] not in files: files[d] = None
    for p in list(files):
        for a in ancestors(p): files[a] = None
    return files

def only(files): return {p: x for p, x in files.items() if x is not None}

def gen_label(g):
    """rows of 480x270"""
    noise = textgen.noise(g.draw(0xffff), 97, list(range(256)))
    k = g.choice(["flat", "noise", "stripes"])
    if k == "flat": return [bytes(noise[:3] + b"\xff") * 480] * 270
    alpha = lambda i: 255 if g_opaque else noise[i % 97]
    g_opaque = g.bool(0.7)
    if k == "stripes":
        row = b"".join(bytes([noise[x % 97], noise[(x + 1) % 97], noise[(x * 3) % 97], alpha(x)]) for x in range(480))
        return [row] * 270
    rows = [b"".join(bytes([noise[(x * y) % 97], noise[(x + y) % 97], noise[x % 89], alpha(x + y)]) for x in range(480)) for y in range(9)]
    return [rows[y % 9] for y in range(270)]

def composite(rows, label):
    rows = [bytearray(r) for r in rows]
    for y, lr in enumerate(label):
        row = rows[38 + y]
        for x in range(480):
            s = lr[x * 4:x * 4 + 4]
            o = (16 + x) * 4
            if s[3] == 255: row[o:o + 4] = s
            elif s[3]: row[o:o + 4] = b"????" # (blending: not modelled)
    return rows

def read_any(path, fmt, d):
    """-> files, version or None, rows or None"""
    try:
        if fmt == "dir": return tron.read_dir(path), None, None
        with open(path, "rb") as f: data = f.read()
        if fmt == "p64": return *tron.read_p64(data), None
        if fmt == "rom": return *tron.read_rom(data), None
        if fmt == "png": return tron.read_png(data)
    except BADS as ex: raise Violation("unreadable", f"the {fmt} can't be read: {ex!r}", **d)

def write_any(g, ctx, name, fmt, files, version=2, label=None):
    path = ctx.s.path(name if fmt == "dir" else name + "." + fmt)
    if fmt == "dir": tron.write_dir(path, files); return path
    data = tron.write_p64(g, files, version) if fmt == "p64" else tron.write_rom(g, files, version) if fmt == "rom" else tron.write_png(g, files, version, label)
    with open(path, "wb") as f: f.write(data)
    return path

LABELS = ("label.png", "label.qoi")

def check_label(data, want, what, d):
    """want: rows, of which the low bits don't matter"""
    try: w, h, rows = tron.image_pixels(data)
    except BADS as ex: raise Violation("label", f"{what}: the label can't be read: {ex!r}", **d)
    if (w, h) != (480, 270): raise Violation("label", f"{what}: the label is {w}x{h}", **d)
    for y, (a, b) in enumerate(zip(rows, want)):
        if a == b: continue
        for x in range(480):
            p, q = a[x * 4:x * 4 + 4], b[x * 4:x * 4 + 4]
            if q == b"????" or q[3] != 255: continue
            if bytes(v & ~7 for v in p[:3]) != bytes(v & ~7 for v in q[:3]): raise Violation("label", f"{what}: pixel {x},{y} of the label is {tuple(p)}, should be {tuple(q)}", **d)

def same(want, got, what, d, dirs=None):
    a, b = only(want), only(got)
    if set(a) != set(b): raise Violation("files", f"{what}: missing {sorted(set(a) - set(b))}, extra {sorted(set(b) - set(a))}", **d)
    for p in a:
        if a[p] != b[p]: raise Violation("content", f"{what}: {p!r} became {b[p][:300]!r} ({len(b[p])} bytes), was {a[p][:300]!r} ({len(a[p])})", **d)

def prop_convert(g, ctx):
    ctx.s.clear()
    files = gen_tree(g)
    version = g.choice([0, 1, 2, 3, 9, 255])
    use_png = g.bool(0.05)
    label_rows = None # what the label should look like
    if g.bool(0.6 if use_png else 0.1):
        label_rows = gen_label(g)
        p = g.choice(LABELS)
        files[p] = codec.png_write(480, 270, label_rows) if p == "label.png" else tron.qoi_write(480, 270, label_rows)
    pool = ["p64", "p64", "dir", "rom"] + ["png"] * (2 if use_png else 0)
    fmt = g.choice(pool)
    base = None
    if fmt == "png" and label_rows is None and g.bool(0.5):
        base = [bytearray(r) for r in template(ctx)]
        lab = gen_label(g)
        base = [bytearray(b"".join(bytes([*r[i:i + 3], 255]) for i in range(0, len(r), 4))) for r in composite(base, [bytes(b"".join(r[i:i + 3] + b"\xff" for i in range(0, 1920, 4))) for r in lab])]
    path = write_any(g, ctx, "in", fmt, files, version, base)
    if fmt == "dir": version = None
    elif g.bool(0.15):
        new = ctx.s.path(g.choice(["in", "in.txt", "in.p64.bak", "in." + fmt.upper()]))
        os.rename(path, new)
        path = new
        g.event("unknown extension")
    history = []
    d = dict(files={p: repr(x)[:200] for p, x in files.items()}, history=history)
    for step in range(g.count(1, 4, 2)):
        if fmt == "png" and not any(p in files for p in LABELS):
            # reading a png gives the label that is seen in it
            lab = base if base is not None else [bytearray(b"\x28\x30\x38\xff" * 512)] * 384
            label_rows = [bytes(r[64:64 + 1920]) for r in lab[38:38 + 270]]
            added = True
        else: added = False
        out = g.choice(pool)
        opts = ["--keep-pod-compression"]
        if g.bool(0.15): opts.append("--avoid-base64")
        if g.bool(0.1): opts.append("--minify-safe-only")
        if "--minify-safe-only" in opts: opts += ["--code-files", "none"]
        keep = out != "png"
        if g.bool(0.2): keep = g.bool(); opts.append("--keep-label" if keep else "--delete-label")
        if out in ("rom", "png") and g.bool(0.2): opts.append("--fast-compression")
        if g.bool(0.3) and fmt != "dir": opts += ["--input-format", fmt]
        dst = ctx.s.path(f"o{step}" + ("" if out == "dir" else "." + out))
        args = [path, dst, *opts] if out != "dir" or g.bool(0.5) else [path, dst, "--format", "dir", *opts]
        if out == "dir" and "--format" not in args: args += ["-f", "dir"]
        history.append(" ".join(args).replace(ctx.s.dir + "/", ""))
        r = tool.run(args, "picotron")
        if r.code == 3 and "too much compressed space" in r.err: raise Discard()
        check_ran(r)
        got, ver, rows = read_any(dst, out, d)
        want = dict(files)
        if not keep:
            for p in LABELS: want.pop(p, None)
        elif added:
            # label.qoi or label.png
            new = [p for p in LABELS if p in got and p not in want]
            if len(new) != 1: raise Violation("label", f"reading the png should give a label: {sorted(got)}", **d)
            check_label(got[new[0]], label_rows, "read from png", d)
            want[new[0]] = got[new[0]]
        same(want, got, f"step {step} ({fmt} to {out})", d)
        for p in want:
            for a in ancestors(p):
                if a not in got: raise Violation("dirs", f"step {step}: directory {a} is missing", **d)
        if version is None: version = ver
        elif ver is not None and ver != version: raise Violation("version", f"step {step}: version became {ver}, was {version}", **d)
        if out == "dir": version = None
        if out == "png":
            visible = label_rows if any(p in files for p in LABELS) or added else None
            check_image(ctx, rows, visible, title_of(files), d)
            base = [bytearray(r) for r in rows]
        # (only the low bits may be lost in a png)
        files, path, fmt = want, dst, out
        g.event("to " + out)
    if len(only(files)) >= 2: g.mark((sorted(files), history))
    g.sample = dict(history=history, files=sorted(files))

def template(ctx):
    if ctx.template is None:
        with open(os.path.join(tool.REPO, "template64.png"), "rb") as f: ctx.template = codec.png_pixels(f.read())[2]
    return ctx.template

def title_of(files):
    x = files.get(".info.pod")
    if not x: return False
    try: m = tron.meta_values(tron.split_meta(x)[0] or b"pod")
    except BADS: return True
    return any(k in (b"title", b"version", b"author") for k, _ in m.items)

def check_image(ctx, rows, label, title, d):
    want = template(ctx)
    if label: want = composite(want, label)
    for y, (a, b) in enumerate(zip(rows, want)):
        if title and y >= 300: break
        for x in range(512):
            p, q = a[x * 4:x * 4 + 4], b[x * 4:x * 4 + 4]
            if bytes(q) == b"????": continue
            if p[0] ^ q[0] > 7 or p[1] ^ q[1] > 7 or p[2] ^ q[2] > 7 or p[3] ^ q[3] > 3: raise Violation("image", f"pixel {x},{y} of the png is {tuple(p)}, should look like {tuple(q)}", **d)

# --- what a picture cart looks like

FONT = {}
def font():
    if not FONT:
        with open(os.path.join(tool.REPO, "font64.png"), "rb") as f: w, h, rows = codec.png_pixels(f.read())
        FONT["on"] = [[r[x * 4 + 3] > 0 for x in range(w)] for r in rows]
    return FONT["on"]

def draw_line(rows, line, at, scale):
    """text in Picotron's font: a title in double size with shaded lines, or a subtitle"""
    on = font()
    x = 0
    for c in line:
        cx, cy = c % 16 * 10, c // 16 * 11
        w = 0
        while w < 10 and on[cy + 9][cx + w]: w += 1
        if x + w * scale <= 352:
            for dy in range(9 * scale):
                v = 0x90 if scale == 1 else 0xd0 if dy % 2 == 0 else 0x80
                for dx in range(w * scale):
                    if on[cy + dy // scale][cx + dx // scale]:
                        o = (at[0] + x + dx) * 4
                        rows[at[1] + dy][o:o + 4] = bytes([v, v, v, 255])
        x += w * scale

def gen_title(g):
    plain = g.choice([b"iIl.!1,' ", b"WMwm@", bytes(range(32, 127)), bytes(range(32, 127)), bytes(range(32, 127))])
    if g.bool(0.15): plain += bytes([*range(1, 32), *range(127, 256)])
    return bytes(g.choice(plain) for _ in range(g.choice([0, 1, 3, 20, 30, 45, 70])))

def prop_picture(g, ctx):
    """the picture is the template, with the label and the title on it, and the label can be taken out"""
    ctx.s.clear()
    files = {"main.lua": b"x=1\n"}
    label = None
    for p in g.subset(list(LABELS), 0.35):
        lab = gen_label(g)
        files[p] = codec.png_write(480, 270, lab) if p == "label.png" else tron.qoi_write(480, 270, lab)
        if label is None or p == "label.qoi": label = lab
    if len([p for p in LABELS if p in files]) == 2: files.pop("label.png") # (which of them is used isn't documented)
    title = None
    if g.bool(0.7):
        items = [(k, gen_title(g)) for k in (b"title", b"version", b"author") if g.bool(0.7)] + ([(b"other", b"x")] if g.bool(0.3) else [])
        meta, ok = tron.safe_meta(g, items)
        if not ok: items = []
        files[".info.pod"] = b"--[[" + meta + b"]]nil"
        m = dict(items)
        title = [m.get(b"title", b""), m.get(b"version", b"") + b" " + (b"by " + m[b"author"] if m.get(b"author") else b"")]
    fmt = g.choice(["p64", "rom", "dir"])
    path = write_any(g, ctx, "in", fmt, files)
    args = [path]
    if g.bool(0.3):
        title = [bytes(c for c in gen_title(g) if 32 <= c < 127) or b"x" for _ in range(g.int(1, 2))]
        for t in title: args += ["--title=" + t.decode()]
        g.event("title option")
    if g.bool(0.3):
        label = gen_label(g)
        k = g.choice(["l.png", "l.qoi", "lab.x"])
        ctx.s.write(k, tron.qoi_write(480, 270, label) if k == "l.qoi" else codec.png_write(480, 270, label))
        args += ["--label", ctx.s.path(k)]
        g.event("label option")
    args += g.choice([[], [], ["--minify"], ["--delete-meta", "*"], ["--delete-label"], ["--keep-label"], ["--fast-compression"]])
    base = template(ctx)
    if g.bool(0.3):
        n = textgen.noise(g.draw(0xffff), 97, list(range(256)))
        base = [bytearray(b"".join(bytes([n[(x * y) % 97], n[(x + y) % 97], n[x % 89], 255 if g_ else n[y % 97]]) for x in range(512))) for g_ in [g.bool()] for y in range(384)]
        ctx.s.write("t.png", codec.png_write(512, 384, [bytes(r) for r in base]))
        args += ["--template-image", ctx.s.path("t.png")]
        g.event("template option")
    only_t = g.bool(0.15)
    if only_t: args.append("--template-only")
    outs = [ctx.s.path("o.p64.png")]
    args.insert(1, outs[0])
    lab_out = None
    if label is not None and g.bool(0.5):
        lab_out = ctx.s.path("lab.png")
        if g.bool(): args += ["--extra-output", lab_out, "label"]
        else: args[1:2] = [lab_out, "--format", "label", "--extra-output", outs[0], "png"]
    d = dict(files={p: repr(x)[:120] for p, x in files.items()}, args=" ".join(args).replace(ctx.s.dir + "/", ""))
    r = check_ran(tool.run(args, "picotron"))
    with open(outs[0], "rb") as f: w, h, rows = codec.png_pixels(f.read())
    want = [bytearray(x) for x in base]
    if not only_t:
        if label: want = composite(want, label)
        if title and any(c >= 128 for t in title for c in t):
            # (how they're encoded isn't documented, so they're only expected not to fail)
            for y in range(330, 330 + 26 + 9): want[y][80 * 4:(80 + 352) * 4] = b"????" * 352
            g.event("non-ascii title")
        elif title:
            draw_line(want, title[0], (80, 330), 2)
            if len(title) > 1: draw_line(want, title[1], (80, 356), 1)
    for y, (a, b) in enumerate(zip(rows, want)):
        for x in range(512):
            p, q = a[x * 4:x * 4 + 4], b[x * 4:x * 4 + 4]
            if bytes(q) == b"????": continue
            if p[0] ^ q[0] > 7 or p[1] ^ q[1] > 7 or p[2] ^ q[2] > 7 or p[3] ^ q[3] > 3: raise Violation("picture", f"pixel {x},{y} is {tuple(p)}, should look like {tuple(q)}", **d)
    if lab_out:
        with open(lab_out, "rb") as f: check_label(f.read(), label, "label written", d)
        g.event("label written")
    if label and title: g.mark(d["args"] + repr(title))
    g.sample = dict(args=d["args"], title=repr(title))

# --- traces of the compression

def prop_trace(g, ctx):
    """the traces of (un)compressing a cart list exactly the literals and matches it consists of"""
    ctx.s.clear()
    files = gen_tree(g, main=1)
    inp = write_any(g, ctx, "in", "rom", files)
    outp = ctx.s.path("out.rom")
    tin, tout = ctx.s.path("in.csv"), ctx.s.path("out.csv")
    args = [inp, outp, "--trace-input-compression", tin, "--trace-compression", tout] + g.subset(["--fast-compression"], 0.4)
    # (files that look like pods but aren't can't be recompressed)
    if g.bool(0.4) or any(m in x for x in files.values() if x for m in (b"pod", b"lz4", b"pxu", b"b64")): args.append("--keep-pod-compression")
    d = dict(files={p: repr(x)[:120] for p, x in files.items()}, args=" ".join(args).replace(ctx.s.dir + "/", ""))
    check_ran(tool.run(args, "picotron"))
    for what, rom, path in (("input", inp, tin), ("output", outp, tout)):
        with open(rom, "rb") as f: data = f.read()
        with open(path, "rb") as f: got = f.read()
        items = []
        whole = podfile.lz4_decode(data[8:], items)
        want = "".join(f'{size},"' + piece.decode(errors="backslashreplace").replace('"', '""') + '"' + (",%d:%d" % tuple(m) if m else "") + "\n" for size, piece, *m in items).encode()
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation("trace " + what, f"differs at {i}: {got[max(0, i - 40):i + 40]!r}, should be {want[max(0, i - 40):i + 40]!r}", **d)
        if any(len(i) > 2 for i in items): g.mark(want)
    g.sample = dict(args=d["args"], files=sorted(files))

# --- the code-only formats

def prop_code(g, ctx):
    ctx.s.clear()
    code = g.choice([b"", b"x=1\n", textgen.gen_text(g, 600, zero=False), b"p64x=1", b"print(1)\n" * 40])
    meta = g.choice([b"", b'--[[pod_format="raw",x=1]]'])
    if code.startswith(b"--[[pod") or code.startswith((b"\0pxa", b":c:\0")): raise Discard()
    files = gen_tree(g, main=0)
    files["main.lua"] = meta + code
    path = write_any(g, ctx, "in", "rom", files)
    d = dict(code=repr(code)[:400], meta=repr(meta))
    dst = ctx.s.path("o.lua")
    check_ran(tool.run([path, dst, "--keep-pod-compression"], "picotron"))
    with open(dst, "rb") as f: out = f.read()
    if out != meta + code: raise Violation("lua", f"main.lua was written as {out[:300]!r}", **d)
    back = ctx.s.path("b.rom")
    if not code.startswith((b"p64", b"picotron cartridge", b":: ", b"\x89PNG")):
        check_ran(tool.run([dst, back], "picotron"))
        got, _, _ = read_any(back, "rom", d)
        same({"main.lua": out}, got, "lua to rom", d)
    dst = ctx.s.path("t.rom")
    check_ran(tool.run([path, dst, "--format", "tiny-rom", "--keep-pod-compression"], "picotron"))
    with open(dst, "rb") as f: out = f.read()
    try:
        if out.startswith(b"p64") and out != code: got = tron.read_rom(out)[0]["main.lua"]
        elif out.startswith(b"\0pxa") : got = codec.decode_pxa(out)[0]
        else: got = out
    except BADS as ex: raise Violation("tiny-rom", f"can't be read: {ex!r}", **d)
    if bytes(got) != code: raise Violation("tiny-rom", f"has {bytes(got)[:300]!r}", **d)
    if not code.startswith((b"p64", b"\0pxa", b":c:\0")):
        back = ctx.s.path("c.rom")
        check_ran(tool.run([dst, back, "--input-format", "tiny-rom"], "picotron"))
        got, _, _ = read_any(back, "rom", d)
        same({"main.lua": code}, got, "tiny-rom to rom", d)
    if len(code) > 10: g.mark((code, meta))
    g.sample = dict(code=repr(code)[:100], size=len(out))

# --- filter, insert, merge, extract, list

PATS = ["*", "*.lua", "main.lua", "gfx/*", "sfx/*", "!*.lua", "!gfx/*", "*/*", "?.lua", "[ab]*", "![ab]*", "d?e/*", "*.pod", "!main.lua", "g*", "nothing", "*é*", "gfx/sub/*", "*/0.gfx", "a.lua.d/*", "[!a]*"]

def gen_pats(g):
    return [g.choice(PATS) for _ in range(g.int(1, 3))]

def prop_ops(g, ctx):
    ctx.s.clear()
    files = gen_tree(g)
    fmt = g.choice(["p64", "rom", "dir"])
    path = write_any(g, ctx, "in", fmt, files)
    model = dict(files)
    args, changed = [], False
    kp = ["--keep-pod-compression"]
    desc = []
    ins, merges, made = [], [], set()
    for i in range(g.count(0, 3, 1)):
        k = g.choice(["file", "dir", "dir pats"])
        if k == "file":
            base = g.choice(["new.lua", "data.bin", "a.lua"])
            p = ctx.s.write(f"i{i}/{base}", data := gen_data(g))
            if g.bool(0.4): ins.append(["--insert", p]); add = {base: data}
            else:
                t = g.choice(["sub/new.bin", "main.lua", "gfx/0.gfx", "x/y/z.lua", "z"])
                if g.bool(0.25): t = g.choice(["gfx/", "newdir/"]); ins.append(["--insert", p, t]); add = {t + base: data}
                else: ins.append(["--insert", p, t]); add = {t: data}
        else:
            tree = gen_tree(g, 5)
            base = g.choice(["idir", "gfx"])
            p = ctx.s.path(f"i{i}", base)
            tron.write_dir(p, tree)
            t = g.choice([None, "gfx", "newdir", "newdir/", "x/y", "", ".", "/"])
            if k == "dir pats" and t is None: t = "newdir"
            arg = ["--insert", p] + ([t] if t is not None else [])
            root = base if t is None else t.rstrip("/") if t not in ("", ".", "/") else ""
            add = {(root + "/" if root else "") + q: x for q, x in tree.items()}
            if k == "dir pats":
                pats = gen_pats(g)
                arg.append(",".join(pats))
                add = {q: x for q, x in add.items() if x is not None and globbed(pats, q)}
            ins.append(arg)
            made |= {root + "/", *ancestors(root + "/"), *((root + "/" if root else "") + q for q, x in tree.items() if x is None)}
        desc.append((ins[-1], add))
    for i in range(g.count(0, 2, 1)):
        tree = gen_tree(g)
        f2 = g.choice(["p64", "rom", "dir"])
        p = write_any(g, ctx, f"m{i}", f2, tree)
        arg = ["--merge", p]
        n = g.choice([1, 2, 2, 3]) if f2 != "dir" else 3
        pats = None
        if n > 1: pats = gen_pats(g); arg.append(",".join(pats))
        if n == 3: arg.append(f2)
        merges.append(arg)
        desc.append((arg, {q: x for q, x in tree.items() if pats is None or globbed(pats, q)}))
    # (inserts come before merges, whatever the order they're given in)
    clash = False
    for arg, add in desc:
        add = only(add)
        for q in add:
            if any(a.rstrip("/") in only(model) or a.rstrip("/") in add for a in ancestors(q)) or q + "/" in model or any(f.startswith(q + "/") for f in list(model) + list(add)): clash = True
        model.update(add)
        changed = changed or bool(add)
        for q in list(model):
            for a in ancestors(q): model[a] = None
    if clash: raise Discard() # a file and a directory of the same name
    flt = None
    if g.bool(0.5):
        flt = gen_pats(g)
        args += ["--filter", ",".join(flt)]
    full = dict(model)
    for a in ins + merges: args += a
    d = dict(files={p: repr(x)[:150] for p, x in files.items()}, ops=[" ".join(a).replace(ctx.s.dir + "/", "") for a in ins + merges], filter=flt)
    d["added"] = [{p: repr(x)[:100] for p, x in add.items()} for _, add in desc]
    if flt is not None:
        model = {p: x for p, x in model.items() if globbed(flt, p)}
        changed = changed or model != full
    # --list
    if g.bool(0.25):
        r = tool.run([path, "--list", *args], "picotron")
        check_ran(r)
        lines = r.raw_out.split(b"\n")
        if lines.pop() != b"": raise Violation("list", "the last line isn't terminated", **d)
        names = [x.decode("utf8", "surrogateescape").encode("utf8", "surrogatepass").decode("utf8", "surrogatepass") for x in lines]
        fix = lambda n: n.encode("utf8", "surrogatepass")
        want = {fix(p) for p in only(full)}
        got = {x for x in lines if not x.endswith(b"/")}
        if got != want or len(set(lines)) != len(lines): raise Violation("list", f"lists {sorted(got)}, should be {sorted(want)}", **d)
    out = g.choice(["p64", "rom", "dir"])
    dst = ctx.s.path("out" if out == "dir" else "out." + out)
    extracts = []
    for i in range(g.count(0, 2, 1) if only(model) or g.bool(0.1) else 0):
        cands = sorted(only(model)) + sorted({a for p in only(model) for a in ancestors(p)}) + ["missing.txt", "miss/", "gfx"]
        q = g.choice(cands)
        if g.bool(0.3): q = q.rstrip("/")
        if q.startswith("-"): q = "missing.txt" # (would be an option)
        e = ["--extract", q]
        named = g.bool(0.7)
        if named: e.append(ctx.s.path("cwd", f"x{i}"))
        extracts.append((q, named, e))
        args += e
    if g.bool(0.9) or not extracts: head = [path, dst, "--format", out]
    else: head = [path]; dst = None
    os.makedirs(ctx.s.path("cwd"), exist_ok=True)
    d["args"] = [str(a).replace(ctx.s.dir + "/", "") for a in head + args]
    r = tool.run(head + kp + args, "picotron", cwd=ctx.s.path("cwd"))
    exist = lambda q: q in only(model) or any(p.startswith(q.rstrip("/") + "/") for p in only(model))
    empty = lambda q: q.rstrip("/") + "/" in [*full, *made, *(p for _, add in desc for p in add)]
    if any(not exist(q) and empty(q) for q, _, _ in extracts) and not r.exc: raise Discard() # (empty directories may or may not be kept)
    if any(not exist(q) for q, _, _ in extracts):
        if r.exc or r.code != 3: raise Violation("extract missing", f"extracting something that isn't there: exit {r.code}\n{r.describe()}", **d)
        g.event("refused")
        return
    check_ran(r)
    if dst:
        got, _, _ = read_any(dst, out, d)
        same(model, got, "output", d)
        extra = {p for p in got if p.endswith("/")} - {p for p in full if p.endswith("/")} - {a for _, add in desc for p in add for a in [p, *ancestors(p)]} - made - {a for p in model for a in ancestors(p)}
        if extra: raise Violation("dirs", f"unexpected directories {sorted(extra)}", **d)
    # what's been extracted, and where
    want = {}
    for q, named, e in extracts:
        base = e[2] if named else os.path.join(ctx.s.path("cwd"), q.rstrip("/").rpartition("/")[2])
        rel = os.path.relpath(base, ctx.s.path("cwd"))
        if q in only(model):
            if any(w.startswith(rel + "/") for w in want): raise Discard()
            want[rel] = model[q]
        else:
            if rel in want: raise Discard()
            for p, x in only(model).items():
                if p.startswith(q.rstrip("/") + "/"): want[rel + p[len(q.rstrip("/")):]] = x
    same(want, tron.read_dir(ctx.s.path("cwd")), "extracted", d)
    if changed or extracts: g.mark((sorted(files), d["args"]))
    g.sample = dict(args=d["args"], files=sorted(files))

# --- nothing is written outside of the requested directory

ESC = ["../evil", "../../evil", "a/../../evil", "gfx/../../../evil", "..", "../", "a/..", "../out2/x", "{abs}/evil", "/{abs}/evil", "a//../../evil", "./../evil", "..//evil", "a/../../out/evil", "../in.rom", "../in.p64", "gfx/../x", "./y", "a/./z", "a//b", "//evil", "../out-evil", "../out/../evil2", "...", ".../x", "..a/x"]

def snapshot(root):
    out = {}
    for base, dirs, names in os.walk(root):
        for n in dirs: out[os.path.relpath(os.path.join(base, n), root) + "/"] = None
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f: out[os.path.relpath(p, root)] = f.read()
    return out

def prop_outside(g, ctx):
    ctx.s.clear()
    root = ctx.s.path("1/2/3/4/5/6") # (deep enough for whatever the names do)
    os.makedirs(root)
    absdir = ctx.s.path("1/2/3/abs")
    os.makedirs(absdir)
    files = {"main.lua": b"x=1\n"}
    for _ in range(g.int(1, 3)):
        p = g.choice(ESC).replace("{abs}", absdir)
        if g.bool(0.2): p = p.rstrip("/") + "/"
        files[p] = None if p.endswith("/") else b"evil"
        if g.bool(0.3):
            for a in ancestors(p):
                if a != "/": files[a] = None
    ctx.s.write("1/2/3/4/5/keep.txt", b"keep")
    ctx.s.write("1/2/3/4/5/out2/x", b"keep")
    fmt = g.choice(["rom", "p64"])
    src = "1/2/3/4/5/in." + fmt
    ctx.s.write(src, tron.write_rom(g, files) if fmt == "rom" else tron.write_p64(g, files))
    outdir = ctx.s.path("1/2/3/4/5/out")
    pre = g.bool(0.4)
    if pre: ctx.s.write("1/2/3/4/5/out/old.txt", b"old")
    before = snapshot(ctx.s.dir)
    how = g.choice(["dir", "dir", "extract", "extract all"])
    args = [ctx.s.path(src)]
    q = None
    if how == "dir": args += [outdir, "--format", "dir"]
    elif how == "extract all":
        q = g.choice(["a", "gfx", "..", ".", "a/", "../"])
        args += ["--extract", q, outdir]
    else:
        q = g.choice(sorted(files))
        args += ["--extract", q, outdir]
    clean = how == "dir" and g.bool(0.4)
    if clean: args.append("--clean-output-dir")
    d = dict(files=sorted(files), args=[a.replace(ctx.s.dir, "") for a in args])
    r = tool.run(args, "picotron", cwd=root)
    if r.exc: raise Violation("crash", r.describe(), **d)
    after = snapshot(ctx.s.dir)
    inside = "1/2/3/4/5/out/"
    for p in set(before) | set(after):
        if p.startswith(inside) or p == inside or p == inside[:-1]: continue
        if before.get(p, 0) != after.get(p, 0): raise Violation("outside", f"{p} was {'changed' if p in before and p in after else 'created' if p in after else 'deleted'}", **d)
    if pre and r.code == 0 and not clean and how == "dir" and after.get(inside + "old.txt") != b"old": raise Violation("outside", "a file that isn't in the cart was lost from the directory", **d)
    if clean and r.code == 0 and inside + "old.txt" in after: raise Violation("clean", "--clean-output-dir left a file", **d)
    leads_out = [p for p in files if os.path.relpath(os.path.normpath(os.path.join("/x/y/z", p)), "/x/y/z").split("/")[0] == ".."]
    if how == "dir" and any(files[p] is not None for p in leads_out) and r.code == 0 and not all("out/" in p for p in leads_out):
        raise Violation("outside", f"{leads_out} weren't refused {r.describe()}", **d)
    if leads_out: g.mark((sorted(files), d["args"]))
    g.event("exit %d" % r.code)
    g.sample = d

# --- exports

def stand_in(g, ctx):
    """a picotron.dat of sorts: -> path, entries, html"""
    blob = lambda: textgen.noise(g.draw(0xffff), g.int(0, 300), list(range(256)))
    html = b"<html><title>##page_title##</title><img src=\"##label_file##\">\n<script>" + g.choice([b"", b"\r\n", b"// js\n"]) + b"// ##pcart##" + g.choice([b"\n", b"\n\n  ", b"  \n"]) + b"</script>" + g.choice([b"", b"\n", b"\xc3\xa9"]) + b"</html>"
    js = g.choice([b"", b"function f(){}\n", b"var x=\"p64cart\";\r\n", b"// \xc3\xa9\n"])
    info = {"shell.html": html, "picotron_player.js": js, "other.bin": blob()}
    sdl = {"SDL2": blob(), "Resources/": None, "Resources/Info.plist": blob(), "_CodeSignature/": None, "_CodeSignature/x": blob()}
    ents = [blob(), blob(), blob() or b"x", tron.write_rom(g, info), blob(), blob(), blob(), blob(), tron.write_rom(g, sdl)] + [blob() for _ in range(g.int(0, 2))]
    return ctx.s.write("picotron.dat", tron.write_sysrom(ents)), ents, html, js, sdl

def safe(g, items):
    while True:
        text, ok = tron.safe_meta(g, items)
        if ok: return text

def prop_export(g, ctx):
    ctx.s.clear()
    dat, ents, html, js, sdl = stand_in(g, ctx)
    files = gen_tree(g)
    files.pop(".info.pod", None)
    title = home = None
    if g.bool(0.6):
        title, home = g.choice([None, b"", b"My Game", b"x y"]), g.choice([None, b"", b"/appdata/game"])
        items = [(b"title", title)] * (title is not None) + [(b"export_home", home)] * (home is not None)
        files[".info.pod"] = b"--[[" + safe(g, items) + b"]]nil"
    label = None
    if g.bool(0.1):
        label = gen_label(g)
        files["label.png"] = codec.png_write(480, 270, label)
    for p in list(LABELS):
        if label is None: files.pop(p, None)
    path = write_any(g, ctx, "in", "rom", files, version := g.choice([1, 2, 3]))
    kind = g.weighted([(4, "dat"), (4, "html"), (2, "bin")])
    dst = ctx.s.path("game." + kind if kind != "bin" else g.choice(["game.bin", "gamedir"]))
    args = [path, dst, "--format", kind, "--picotron-dat", dat, "--keep-pod-compression"]
    d = dict(files={p: repr(x)[:150] for p, x in files.items()}, args=[a.replace(ctx.s.dir, "") for a in args])
    name = "game" if dst.endswith(("game.bin", "game." + kind)) else "gamedir"
    if kind == "bin" and g.bool(0.4): name = g.choice(["other", "na me"]); args += ["--export-name", name]
    check_ran(tool.run(args, "picotron"))
    def check_rom(data, what):
        try: got, ver = tron.read_rom(data)
        except BADS as ex: raise Violation("unreadable", f"{what} can't be read: {ex!r}", **d)
        same(files, got, what, d)
        if ver != version: raise Violation("version", f"{what}: version {ver}, was {version}", **d)
    def check_dat(data, what):
        try: es = tron.read_sysrom(data)
        except BADS as ex: raise Violation("unreadable", f"{what} can't be read: {ex!r}", **d)
        if len(es) != 3 or es[0] != (home or b"") or es[1] != ents[2]: raise Violation("dat", f"{what}: entries are {[x[:60] for x in es]}", **d)
        check_rom(es[2], what)
    def check_html(data, what):
        m = tron.re.search(rb'p64cart_str="([0-9a-f]*)"', data)
        if not m: raise Violation("html", f"{what}: no cart", **d)
        check_rom(bytes.fromhex(m.group(1).decode()), what)
        rest = data[:m.start(1)] + data[m.end(1):]
        j = tron.re.search(rb"// ##pcart##\s+", html).end()
        want = html[:j] + b'\np64cart_str="";\nexport_home_str = "' + (home or b"") + b'";\n' + js + html[j:]
        want = want.replace(b"##page_title##", title or b"Picotron Cartridge")
        if label:
            k = tron.re.search(rb"data:image/png;base64,([^\"]*)", rest)
            if not k: raise Violation("html", f"{what}: no label", **d)
            try: w, h, rows = codec.png_pixels(tron.base64.b64decode(k.group(1)))
            except BADS as ex: raise Violation("html", f"{what}: label: {ex!r}", **d)
            if (w, h) != (480, 270) or any(r[i:i + 3] != l[i:i + 3] for r, l in zip(rows, label) for i in range(0, 1920, 4) if l[i + 3] == 255): raise Violation("html", f"{what}: the label is wrong", **d)
            rest = rest.replace(k.group(), b"##label_file##")
        if rest != want: raise Violation("html", f"{what}: is {rest[:800]!r}, should be {want[:800]!r}", **d)
    if kind == "bin":
        with open(os.path.join(dst, name + ".html"), "rb") as f: check_html(f.read(), "html")
        def entries(z): return {i.filename: (z.read(i), i.external_attr >> 16 & 0o111 != 0) for i in z.infolist() if not i.is_dir()}
        for zname, spec in {
            "windows": {f"{name}_windows/{name}.exe": ents[5], f"{name}_windows/sysrom.dat": None, f"{name}_windows/SDL2.dll": ents[6]},
            "linux": {f"{name}_linux/{name}": ents[4], f"{name}_linux/sysrom.dat": None},
            "mac": {f"{name}_mac/{name}.app/Contents/MacOS/{name}": ents[7], f"{name}_mac/{name}.app/Contents/MacOS/sysrom.dat": None},
        }.items():
            try:
                with zipfile.ZipFile(os.path.join(dst, f"{name}_{zname}.zip")) as z: got = entries(z)
            except (OSError, zipfile.BadZipFile) as ex: raise Violation("bin", f"{zname}: {ex!r}", **d)
            for p, x in spec.items():
                if p not in got: raise Violation("bin", f"{p} isn't in {zname}: {sorted(got)}", **d)
                if x is None: check_dat(got[p][0], p)
                elif got[p][0] != x: raise Violation("bin", f"{p} is wrong", **d)
                if x is not None and not p.endswith(".dll") and not got[p][1]: raise Violation("bin", f"{p} isn't executable", **d)
            if zname != "mac" and set(got) != set(spec): raise Violation("bin", f"{zname} has {sorted(got)}", **d)
            if zname == "mac":
                fw = f"{name}_mac/{name}.app/Contents/Frameworks/SDL2.framework/"
                for pre, skip in (("", True), ("Versions/Current/", False), ("Versions/A/", False)):
                    for p, x in only(sdl).items():
                        if skip and p.startswith("_CodeSignature"): continue
                        if got.get(fw + pre + p, (None,))[0] != x: raise Violation("bin", f"{fw + pre + p} is wrong or missing", **d)
    else:
        with open(dst, "rb") as f: data = f.read()
        (check_dat if kind == "dat" else check_html)(data, kind)
        # and it can be read
        back = ctx.s.path("back.rom")
        check_ran(tool.run([dst, back, "--keep-pod-compression", *(["--input-format", kind] if g.bool(0.5) else [])], "picotron"))
        with open(back, "rb") as f: check_rom(f.read(), f"read back from {kind}")
    g.mark((sorted(files), d["args"]))
    g.event(kind)
    g.sample = dict(args=d["args"], files=sorted(files))

CHECKS = [
    ("convert", prop_convert, 1500, 30000),
    ("picture", prop_picture, 90, 4000, {"timeout": 200}),
    ("trace", prop_trace, 500, 10000),
    ("code", prop_code, 2000, 30000),
    ("ops", prop_ops, 12000, 200000),
    ("outside", prop_outside, 4000, 60000),
    ("export", prop_export, 1000, 20000),
]
