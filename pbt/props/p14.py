from common import *
from tool import Ctx
from podfile import *
import cartmodel as cm
import codec, os, io, shutil, textgen, zipfile

PID = "P14"
TECHNIQUE = "stateful model-based testing: random histories of export edits run through the command line and compared after each step with a plain ordered list; created exports compared with a model of the format"
NOTE = ("Random search. js and pod files are read and written by the check's own code (podfile.py), with random content around the carts. pico8.dat isn't available here: "
    "exports are created from stand-in dat files made of the entries that the format names, with random content.")
RULE = "each case is one history of edits (1-7 steps), or one created export. Non-trivial: at least two edits succeed, or an export with at least one cart is created"
ASSUMPTIONS = ["pico-8's js, pod and dat formats as the repository documents them (no copy of pico8.dat is available)"]

def make_ctx():
    return Ctx()

NAMES = ["game.p8", "a.p8", "b.p8", "level 2.p8", "extra-cart.p8", "x", "Ünï.p8", "game.p8.png", "a.b.c", "it's.p8", "a,b.p8", "l[1].p8", "q\"q.p8", "n" * 50 + ".p8", "m" * 64, "é" * 33, "`'\""]

def gen_cart(g):
    m = cm.gen_model(g, g.choice([30, 300, 3000]))
    return m

def as_export(m):
    """what an export keeps of a cart"""
    d = cm.Model(m.code)
    d.rom = bytearray(m.rom)
    return d

def rom_of(g, m):
    stored = cm.code_region(g, m.code)
    return cm.to_rom(m, stored)

def gen_noise_bytes(g, n):
    return bytes(textgen.noise(g.draw(0xffff), n, list(range(g.choice([2, 16, 256])))))

def gen_misc_entry(g, named=False):
    k = g.choice(["file", "bmp8", "bmp32", "pal"])
    if k == "pal": return Entry("pal", gen_noise_bytes(g, 768))
    if k == "file": return Entry("file", gen_noise_bytes(g, g.choice([0, 1, 40, 500])), "", packed=g.bool(0.4))
    w, h = g.int(1, 12), g.int(1, 9)
    bpp = 8 if k == "bmp8" else 32
    return Entry("bmp", gen_noise_bytes(g, w * h * bpp // 8), None, w, h, bpp, packed=g.bool(0.5))

JUNK = ["", "\n", "// var x=[1,2];\n", "var _cdpos=0; var iii=0; var ciii=0;\n", "function f(a){return a[_cartname[0].length]}\n", "var s=\"_cartdat\";\n", "fileData0.push.apply(fileData0, [67, 80,79,68,0]);\n",
        "if(x<y&&z>\"]\"){q=[`]`]}\n", "/* é */\n", "var cartname=[3];\n", "x=[]\r\n"]
def gen_junk(g):
    return "".join(g.choice(JUNK) for _ in range(g.int(0, 4)))

class Export:
    """the file, and the ordered list that it should hold"""
    def __init__(x, g, ctx, kind, carts, name):
        x.kind, x.path, x.carts = kind, ctx.s.path(name + "." + kind), []
        roms = [rom_of(g, m) for _, m in carts]
        if kind == "js":
            quote = g.choice("``'\"")
            if any(quote in n for n, _ in carts): quote = "`"
            x.text = js_text([(n, r) for (n, _), r in zip(carts, roms)], gen_junk(g), ";\n" + gen_junk(g), ";" + g.choice(["\n", ""]) + gen_junk(g), g.bool(0.8), quote,
                g.choice([",", ", "]), g.choice([256, 100, 1 << 20]))
            data = x.text.encode()
        else:
            ents = [gen_misc_entry(g) for _ in range(g.choice([0, 1, 3]))]
            for (n, _), r in zip(carts, roms):
                ents.append(Entry("file", r, n, packed=g.bool(0.15)))
                if g.bool(0.2): ents.append(gen_misc_entry(g))
            data = pod_bytes(ents, g.choice(["", "podname"]), lambda: g.bool(0.9))
        with open(x.path, "wb") as f: f.write(data)
        x.data = data
        x.carts = [(n, as_export(m), r) for (n, m), r in zip(carts, roms)]
        x.note()

    def note(x):
        """remember what isn't carts"""
        if x.kind == "js": x.rest = js_carts(x.data.decode())[1]
        else: x.rest = x.data[:44], x.data[48:76], [e.raw for e in read_pod(x.data) if not e.name]

    def names(x): return [c[0] for c in x.carts]

    def check(x, d):
        with open(x.path, "rb") as f: data = f.read()
        try:
            if x.kind == "js":
                got, rest = js_carts(data.decode())
            else:
                ents = read_pod(data)
                got = [(e.name, e.data) for e in ents if e.name]
                rest = data[:44], data[48:76], [e.raw for e in ents if not e.name]
        except (Bad, ValueError, IndexError) as ex:
            raise Violation("unreadable", f"the {x.kind} can't be read: {ex!r}", **d)
        if [n for n, _ in got] != x.names(): raise Violation("list", f"carts are {[n for n, _ in got]}, should be {x.names()}", **d)
        for i, ((n, rom), (_, m, old)) in enumerate(zip(got, x.carts)):
            if old is not None:
                if rom != old: raise Violation("touched", f"cart {n} was changed by an edit of another cart", **d)
            else:
                same_cart(rom, m, f"cart {n}", d)
                x.carts[i] = n, m, rom
        if rest != x.rest: raise Violation("rest", f"parts of the file not describing carts were changed: {str(rest)[:800]}, was {str(x.rest)[:800]}", **d)
        x.data = data

def same_cart(rom, m, what, d):
    try: got = cm.from_rom(rom)
    except (cm.BadFile, codec.Bad, IndexError, ValueError) as ex: raise Violation("damaged", f"{what} can't be read: {ex!r}", **d)
    bad = cm.diff(m, got, ("code", "gfx", "map", "gff", "music", "sfx"))
    if bad: raise Violation("damaged", f"{what}: {bad}", **d)

def gen_name(g): return g.choice(NAMES)

def fits(kind, name):
    return (kind == "pod" or not all(q in name for q in "`'\"")) and (kind == "js" or len(name.encode()) <= 64)

def distinct_names(g, n):
    return [n for n in g.shuffled(NAMES) if fits('bin', n)][:n]

def write_in(g, ctx, m, name):
    """an input cart file; -> path"""
    if name.endswith(".png"): # (would be taken for an image)
        name = name[:-4]
    style = {}
    return ctx.s.write(os.path.join("in", name), cm.write_p8(m, style)), name

def prop_edit(g, ctx):
    ctx.s.clear()
    kind = g.choice(["js", "pod"])
    names = distinct_names(g, g.choice([0, 1, 2, 2, 3, 4]))
    x = Export(g, ctx, kind, [(n, gen_cart(g)) for n in names], "exp")
    history = [f"{kind} of {names}"]
    d = dict(history=history)
    done = 0
    for step in range(g.count(1, 7, 4)):
        op = g.weighted([(3, "insert"), (2, "replace"), (2, "delete"), (2, "rename"), (1, "list"), (1, "read"), (0.7, "dump"), (0.6, "insert export")])
        names = x.names()
        ok, args = True, None
        pick = lambda: g.choice(names) if names and g.bool(0.85) else gen_name(g)
        new = None
        if op == "insert":
            m = gen_cart(g)
            inp, base = write_in(g, ctx, m, g.choice(["game.p8", "a.p8", "new.p8", "other.p8"]))
            args = [inp, x.path, "--insert-cart"]
            name, before = base, None
            if g.bool(0.7): name = gen_name(g); args.append(name)
            if len(args) == 4 and g.bool(0.5): before = pick(); args.append(before)
            ok = name not in names and (before is None or before in names) and fits(kind, name)
            if ok:
                new = list(x.carts)
                new.insert(names.index(before) if before else len(names), (name, as_export(m), None))
        elif op == "insert export":
            k = g.choice(["js", "pod"])
            carts = [(n, gen_cart(g)) for n in distinct_names(g, g.int(1, 3))]
            y = Export(g, ctx, k, carts, "other")
            args = [y.path, x.path, "--insert-cart"]
            one = None
            if g.bool(0.3): one = g.choice([n for n, _ in carts]); args += ["--cart", one]
            if one: carts = [c for c in carts if c[0] == one]
            ok = all(n not in names for n, _ in carts)
            if ok: new = x.carts + [(n, as_export(m), None) for n, m in carts]
        elif op == "replace":
            m = gen_cart(g)
            inp, base = write_in(g, ctx, m, "new.p8")
            args = [inp, x.path, "--replace-cart"]
            name = names[0] if names else None
            if g.bool(0.7): name = pick(); args.append(name)
            ok = name in names
            if ok: new = [(n, as_export(m), None) if n == name else (n, c, r) for n, c, r in x.carts]
        elif op == "delete":
            name = pick()
            args = [x.path, "--delete-cart", name]
            ok = name in names
            if ok: new = [c for c in x.carts if c[0] != name]
        elif op == "rename":
            name, to = pick(), gen_name(g)
            args = [x.path, "--rename-cart", name, to]
            ok = name in names and to not in names and fits(kind, to)
            if ok: new = [(to if n == name else n, c, r) for n, c, r in x.carts]
        if args:
            if g.bool(0.2): args += ["-f" if len(args) > 1 and args[1] == x.path else "-f", kind]
            history.append(" ".join(os.path.basename(a) for a in args))
            r = tool.run(args)
            d["run"] = r.describe()[:1500]
            if r.exc: check_ran(r)
            if ok:
                if r.code: raise Violation("refused", f"{history[-1]!r} on {names}: {r.err[-200:]}", **d)
                x.carts = new
                done += 1
                g.event(op)
            else:
                if r.code != 3 or "ERROR: " not in r.err: raise Violation("not refused", f"{history[-1]!r} on {names} should be refused", **d)
                with open(x.path, "rb") as f:
                    if f.read() != x.data: raise Violation("refused-but-changed", f"{history[-1]!r} was refused, but changed the file", **d)
                g.event("refused " + op)
        else:
            history.append(op)
            look(g, ctx, x, op, d)
        x.check(d)
    look(g, ctx, x, g.choice(["list", "read", "dump"]), d)
    if done >= 2:
        g.mark(repr(history) + repr(len(x.data)))
        g.sample = dict(history=list(history))

def look(g, ctx, x, op, d):
    """reading an export through the tool"""
    if op == "list":
        r = check_ran(tool.run([x.path, "--list"]))
        if r.out.split("\n")[:-1] != x.names(): raise Violation("--list", f"listed {r.out!r}, should be {x.names()}", **d)
    elif op == "read":
        args = [x.path, ctx.s.path("read.p8")]
        if ctx.s.exists("read.p8"): os.unlink(args[1])
        want = x.carts[0] if x.carts else None
        if g.bool(0.6):
            name = g.choice([*x.names(), "none.p8"])
            args += ["--cart", name]
            want = next((c for c in x.carts if c[0] == name), None)
        if g.bool(0.2): args += ["-F", x.kind]
        r = tool.run(args)
        if not want:
            if r.exc: check_ran(r)
            if r.code != 3 or ctx.s.exists("read.p8"): raise Violation("missing", f"reading a missing cart: exit status {r.code}", run=r.describe(), **d)
            return
        check_ran(r)
        got = cm.read_p8(ctx.s.read("read.p8"))
        bad = cm.diff(want[1], got, ("code", "gfx", "map", "gff", "music", "sfx"))
        if bad: raise Violation("read", f"--cart {want[0]}: {bad}", **d)
    else:
        fmt = g.choice([None, "p8", "rom"])
        dest = ctx.s.path("dumped")
        shutil.rmtree(dest, ignore_errors=True)
        if g.bool(0.3): ctx.s.write("dumped/keep.txt", b"x")
        clean = g.bool(0.3)
        args = [x.path, "--dump", dest] + (["-f", fmt] if fmt else []) + (["--clean-output-dir"] if clean else [])
        kept = ctx.s.exists("dumped/keep.txt") and not clean
        check_ran(tool.run(args))
        fixed = {re.sub(r'[\\/:*?<>|]', "_", n): (n, m) for n, m, _ in x.carts}
        found = {f for f in os.listdir(dest) if not re.fullmatch(r"\d+(\.pal)?\.png", f)}
        if found != set(fixed) | ({"keep.txt"} if kept else set()): raise Violation("dump", f"dumped {sorted(found)}, should be {sorted(fixed)}", **d)
        for f, (n, m) in fixed.items():
            data = ctx.s.read("dumped/" + f)
            if fmt == "rom": same_cart(data, m, f"dumped {n}", d)
            else:
                bad = cm.diff(m, cm.read_p8(data), ("code", "gfx", "map", "gff", "music", "sfx"))
                if bad: raise Violation("dump", f"dumped {n}: {bad}", **d)

# --- new exports

class Dat:
    """a stand-in for pico8.dat"""
    def __init__(x, g):
        pk = lambda: g.bool(0.5)
        dec = lambda: True
        blob = lambda n=40: gen_noise_bytes(g, g.choice([1, n, 10 * n]))
        x.pico_js = "// pico8\n" + gen_junk(g) + "var q=1;\n"
        x.wasm_js = "// wasm\nload('pico8_wasm.wasm')\n" + gen_junk(g)
        x.shell = "<html><img src=\"##label_file##\"><script src=\"##js_file##\"></script></html>\n"
        x.html = [Entry("file", x.pico_js.encode(), "src/pico8.js", packed=pk()), Entry("file", x.wasm_js.encode(), "src/pico8_wasm.js", packed=pk()),
                  Entry("file", x.shell.encode(), "src/shell.html"), Entry("file", blob(), "src/pico8_wasm.wasm")]
        x.boot = cm.Model(b"-- boot\nx=1\n")
        x.boot.set_version(g.choice([41, 42, 8]))
        title = Entry("bmp", gen_noise_bytes(g, 16 * 8), None, 16, 8, 8, packed=pk())
        x.gfx1 = [gen_misc_entry(g), gen_misc_entry(g), Entry("pal", gen_noise_bytes(g, 768)), gen_misc_entry(g), title, gen_misc_entry(g),
                  Entry("bmp", gen_noise_bytes(g, 128 * 128 * 4), None, 128, 128, 32, packed=True), *[gen_misc_entry(g) for _ in range(g.int(0, 2))]]
        x.fpico = [gen_misc_entry(g) for _ in range(g.int(0, 4))]
        x.exe, x.icon_at = make_exe(g)
        x.framework = [Entry("file", b"", "./Headers"), Entry("file", blob(), "./SDL2"), Entry("file", blob(), "./Res/Info.plist"), Entry("file", blob(), "./_CodeSignature/x"), Entry("file", blob(), "other")]
        x.bin = {"bin/pico8.exe": x.exe, "bin/SDL2.dll": blob(), "bin/pico8_dyn.amd64": blob(), "builds/pi_builds/pico8_player": blob(), "builds/pi_builds/pico8_player_64": blob(),
                 "builds/osx_builds/pico8_player": blob(), "builds/osx_builds/pico8.icns": blob(), "builds/osx_builds/sdl2_framework.pod": pod_bytes(x.framework)}
        ents = [Entry("file", pod_bytes(x.html), "pod/f_html5.pod", packed=False), Entry("file", cm.write_p8(x.boot), "pod/pico8_boot.p8"),
                Entry("file", pod_bytes(x.gfx1, "gfx"), "pod/gfx1.pod"), Entry("file", pod_bytes(x.fpico, "fp"), "pod/f_pico8.pod"),
                Entry("file", pod_bytes([Entry("file", v, k) for k, v in x.bin.items()]), "pod/f_bin.pod"), Entry("file", blob(), "misc")]
        x.data = pod_bytes(g.shuffled(ents), "dat")

PLIST = b"<?xml version=\"1.0\"?><dict><key>CFBundleExecutable</key><string>%s</string><id>%s.%s</id></dict>"

def make_exe(g):
    """a PE file with an icon resource; -> bytes, where the pixels of the icon are (None: none)"""
    import struct
    if g.bool(0.15): # without resources
        return b"MZ".ljust(0x3c, b"\0") + struct.pack("<I", 0x40) + b"PE\0\0" + struct.pack("<HHIIIHH", 0x14c, 0, 0, 0, 0, 224, 0) + struct.pack("<H", 0x10b).ljust(224, b"\0") + b"?" + PLIST + b"\0", None
    is64 = g.bool()
    pe = 0x40 + 8 * g.int(0, 9)
    opt = 240 if is64 else 224
    secs = g.int(1, 3)
    body = pe + 24 + opt + 40 * secs
    body += -body % 16
    rva, icon_rva = 0x5000, 0x5000 + 0x200
    size = 0x10828 + 0x200 + 64
    head = bytearray(b"MZ".ljust(0x3c, b"\0") + struct.pack("<I", pe)).ljust(pe, b"\x90")
    head += b"PE\0\0" + struct.pack("<HHIIIHH", 0x8664, secs, 0, 0, 0, opt, 0)
    o = bytearray(opt)
    struct.pack_into("<H", o, 0, 0x20b if is64 else 0x10b)
    struct.pack_into("<I", o, 128 if is64 else 112, rva)
    head += o
    which = g.int(0, secs - 1)
    pre = 32 * g.int(0, 5)
    for i in range(secs):
        head += b".sec".ljust(8, b"\0") + (struct.pack("<IIII", size, rva, size, body + pre) if i == which else struct.pack("<IIII", 0x100, 0x1000 + 0x1000 * i, 0, body)) + bytes(16)
    data = head.ljust(body + pre, b"\x11")
    def directory(ids, at, named=0):
        # (id, offset) pairs
        return struct.pack("<IIHHHH", 0, 0, 0, 0, named, len(ids)) + b"\xff" * (8 * named) + b"".join(struct.pack("<II", *p) for p in ids)
    rs = bytearray(0x200)
    def put(at, b): rs[at:at + len(b)] = b
    put(0, directory([(1, 0x80000100), (3, 0x80000040), (14, 0x80000100)], 0, named=g.int(0, 1)))
    put(0x40, directory([(1, 0x80000080), (2, 0x80000100)], 0x40))
    put(0x80, directory([(0x409, 0xc0)], 0x80))
    put(0xc0, struct.pack("<IIII", icon_rva, 0x10828, 0, 0))
    data += rs
    at = len(data)
    data += gen_noise_bytes(g, 0x10828) + b"\0" + PLIST + b"\0tail"
    return bytes(data), at + 0x28

def label_rgb(label):
    return [cm.PALETTE[c] for c in label]

def check_pod(dat, data, carts, main, export_name, d):
    try: ents = read_pod(data)
    except Bad as ex: raise Violation("unreadable", f"the created pod can't be read: {ex!r}", **d)
    def bad(msg): raise Violation("created", f"created pod: {msg}", **d)
    if [(e.kind, e.name) for e in ents] != [("file", "")] * 3 + [("file", n) for n, _ in carts]: bad(f"entries are {[(e.kind, e.name) for e in ents]}")
    for e, (n, m) in zip(ents[3:], carts): same_cart(e.data, as_export(m), f"cart {n} of the created pod", d)
    boot = cm.read_p8(ents[0].data)
    if boot.code != dat.boot.code: bad("boot cart code")
    if boot.version != main.version: bad(f"boot cart version {boot.version}, the cart's is {main.version}")
    for got, want, is_gfx in ((ents[1], dat.gfx1, True), (ents[2], dat.fpico, False)):
        sub = read_pod(got.data)
        if len(sub) != len(want): bad("number of entries")
        for i, (a, b) in enumerate(zip(sub, want)):
            b = Entry(b.kind, b.data, b.name, b.w, b.h, b.bpp)
            if is_gfx and i == 4:
                t = export_name.encode("latin-1") + b"\0"
                b.data = t + b.data[len(t):]
            if is_gfx and i == 6 and main.label and any(main.label):
                b.w, b.h, b.bpp = 128, 128, 32
                b.data = b"".join(bytes((p[2], p[1], p[0], 255)) for p in label_rgb(main.label))
            if a.content() != b.content(): bad(f"entry {i} of {'gfx1' if is_gfx else 'f_pico8'}: {str(a.content())[:150]} should be {str(b.content())[:150]}")

def check_js(dat, text, carts, wasm, export_name, d):
    try: got, rest = js_carts(text)
    except (Bad, ValueError, IndexError) as ex: raise Violation("unreadable", f"the created js can't be read: {ex!r}", **d)
    if [n for n, _ in got] != [n for n, _ in carts]: raise Violation("created", f"created js lists {[n for n, _ in got]}, should be {[n for n, _ in carts]}", **d)
    for (n, rom), (_, m) in zip(got, carts): same_cart(rom, as_export(m), f"cart {n} of the created js", d)
    tail = dat.wasm_js.replace("pico8_wasm.wasm", export_name + ".wasm") if wasm else dat.pico_js
    if not rest[2].endswith(tail) or len(rest[2]) > len(tail) + 10: raise Violation("created", "created js: the player is not the dat's", **d)

def prop_create(g, ctx):
    ctx.s.clear()
    dat = Dat(g)
    dpath = ctx.s.write("pico8.dat", dat.data)
    kind = g.choice(["js", "pod", "bin"])
    args, carts = [], []
    from_export = g.bool(0.25)
    if from_export:
        k = g.choice(["js", "pod"])
        cs = [(n, gen_cart(g)) for n in distinct_names(g, g.int(1, 3))]
        y = Export(g, ctx, k, cs, "source")
        args = [y.path]
        if g.bool(0.3):
            cs = [g.choice(cs)]
            args += ["--cart", cs[0][0]]
        carts = [(n, as_export(m)) for n, m in cs]
        main = carts[0][1]
    else:
        names = g.shuffled(["main.p8", "a.p8", "b.p8", "c c.p8"])[:g.choice([1, 1, 2, 3])]
        for i, n in enumerate(names):
            m = gen_cart(g)
            if i == 0: main = m
            inp, _ = write_in(g, ctx, m, n)
            carts.append((n, m))
            if i and g.bool(0.3):
                args += ["--extra-input", inp, "p8"]
                if g.bool(0.6):
                    n = g.choice(["named.p8", "second"]) + str(i); args.append(n)
                    carts[-1] = n, m
                carts[-1] = carts[-1] + (True,)
            else: args.append(inp)
        # (positional ones come after --extra-input ones or before?  both are kept in their order)
        explicit = [c[:2] for c in carts[1:] if len(c) == 3]
        carts = [carts[0]] + explicit + [c for c in carts[1:] if len(c) == 2]
        pos = [a for i, a in enumerate(args)]
    if g.bool(0.25):
        n = g.choice(["renamed.p8", "zz"])
        carts[0] = n, carts[0][1]
        ren = ["--output-cart", n]
    else: ren = []
    carts = [c[:2] for c in carts]
    out = ctx.s.path("out game." + kind)
    export_name = "out game"
    exp = []
    if g.bool(0.3): export_name = g.choice(["nm", "a b", "exactly10!"]); exp = ["--export-name", export_name]
    # positional arguments first, options after them
    pos, opt, i = [], [], 0
    while i < len(args):
        if args[i].startswith("--"):
            j = i + 1
            n_ = {"--extra-input": 3, "--cart": 1}[args[i]]
            while j < len(args) and j - i <= n_ and not args[j].startswith("/"): j += 1
            if args[i] == "--extra-input":
                j = i + 3
                if j < len(args) and not args[j].startswith(("/", "--")): j += 1
            opt += args[i:j]; i = j
        else: pos.append(args[i]); i += 1
    cmd = [*pos, out, *opt, *ren, *exp, "--pico8-dat", dpath]
    if g.bool(0.2): cmd += ["-f", kind]
    d = dict(cmd=" ".join(os.path.basename(c) for c in cmd), carts=[n for n, _ in carts])
    r = tool.run(cmd)
    d["run"] = r.describe()[:1500]
    if len({n for n, _ in carts}) < len(carts):
        if r.exc: check_ran(r)
        if r.code != 3 or os.path.exists(out): raise Violation("duplicate", f"creating an export with two carts of the same name: exit status {r.code}", **d)
        return
    check_ran(r)
    if kind == "js": check_js(dat, open(out, encoding="utf8", newline="").read(), carts, False, export_name, d)
    elif kind == "pod": check_pod(dat, open(out, "rb").read(), carts, main, export_name, d)
    else: check_bin(dat, out, carts, main, export_name, d)
    g.event(kind)
    if len(carts) > 1: g.event("several carts")
    if from_export: g.event("from an export")
    g.mark(repr(d["cmd"]) + repr([m.code for _, m in carts]))
    g.sample = dict(cmd=d["cmd"], carts=d["carts"])

def check_bin(dat, out, carts, main, name, d):
    def bad(msg): raise Violation("bin", f"bin export: {msg}", **d)
    label = main.label if main.label and any(main.label) else None
    want = {f"{name}_html", f"{name}_wasm"} | {f"{name}_{k}.zip" for k in ("windows", "linux", "raspi", "osx")}
    if set(os.listdir(out)) != want: bad(f"files are {sorted(os.listdir(out))}")
    for sub, js, wasm in (("html", dat.pico_js, False), ("wasm", dat.wasm_js, True)):
        p = os.path.join(out, f"{name}_{sub}")
        if set(os.listdir(p)) != {name + ".html", name + ".js"} | ({name + ".wasm"} if wasm else set()): bad(f"files in {sub}")
        check_js(dat, open(os.path.join(p, name + ".js"), encoding="utf8", newline="").read(), carts, wasm, name, d)
        html = open(os.path.join(p, name + ".html"), encoding="utf8").read()
        m = re.fullmatch("<html><img src=\"(.*)\"><script src=\"(.*)\"></script></html>\n", html)
        if not m or m[2] != name + ".js": bad(f"html {html[:100]}")
        if not label:
            if m[1]: bad("label in html without a label")
        else:
            import base64
            w, h, rows = codec.png_pixels(base64.b64decode(m[1].removeprefix("data:image/png;base64,")))
            if [tuple(rows[y][4 * x:4 * x + 3]) for y in range(128) for x in range(128)] != label_rgb(label): bad("label in html")
        if wasm and open(os.path.join(p, name + ".wasm"), "rb").read() != next(e.data for e in dat.html if e.name.endswith(".wasm")): bad("wasm")
    zips = {}
    for k in ("windows", "linux", "raspi", "osx"):
        with zipfile.ZipFile(os.path.join(out, f"{name}_{k}.zip")) as z:
            zips[k] = {i.filename: (z.read(i), i.external_attr >> 16 & 0o111 != 0) for i in z.infolist()}
            if len(zips[k]) != len(z.infolist()): bad(f"repeated names in {k}")
    def png_ok(data):
        w, h, rows = codec.png_pixels(data)
        return [tuple(rows[y][4 * x:4 * x + 3]) for y in range(128) for x in range(128)] == label_rgb(label)
    exe = dat.exe
    if label and dat.icon_at is not None:
        px = b"".join(bytes((p[2], p[1], p[0], 255)) for y in reversed(range(128)) for p in label_rgb(label[128 * y:128 * y + 128]))
        exe = exe[:dat.icon_at] + px + exe[dat.icon_at + len(px):]
    b = dat.bin
    pod = None
    def expect(k, files):
        nonlocal pod
        if set(zips[k]) != set(files): bad(f"{k} has {sorted(zips[k])}, should have {sorted(files)}")
        for f, (data, ex) in files.items():
            got, gx = zips[k][f]
            if data == "pod":
                if pod is None: check_pod(dat, got, carts, main, name, d); pod = got
                elif got != pod: bad(f"data.pod of {k} differs")
            elif data == "label":
                if not png_ok(got): bad(f"label of {k}")
            elif data == "icns":
                if not label:
                    if got != b["builds/osx_builds/pico8.icns"]: bad("icns")
                elif not icns_ok(got, label): bad("icns of the label")
            elif got != data: bad(f"{f} of {k} differs")
            if gx != ex and not f.endswith("/"): bad(f"{f} of {k} is {'' if gx else 'not '}executable")
    png = lambda k: {f"{name}_{k}/{name}.png": ("label", False)} if label else {}
    expect("windows", {f"{name}_windows/{name}.exe": (exe, True), f"{name}_windows/data.pod": ("pod", False), f"{name}_windows/SDL2.dll": (b["bin/SDL2.dll"], False)})
    expect("linux", {f"{name}_linux/{name}": (b["bin/pico8_dyn.amd64"], True), f"{name}_linux/data.pod": ("pod", False), **png("linux")})
    expect("raspi", {f"{name}_raspi/{name}": (b["builds/pi_builds/pico8_player"], True), f"{name}_raspi/{name}_64": (b["builds/pi_builds/pico8_player_64"], True), f"{name}_raspi/data.pod": ("pod", False), **png("raspi")})
    c = f"{name}.app/Contents"
    plist = PLIST.decode().replace("%s.%s", f"pico8_author.{name}").replace("%s", name).encode()
    fw = f"{c}/Frameworks/SDL2.framework"
    files = {c + "/": (b"", True), c + "/MacOS/": (b"", True), c + "/Resources/": (b"", True), c + "/MacOS/data.pod": ("pod", False), f"{c}/MacOS/{name}": (b["builds/osx_builds/pico8_player"], True),
             f"{c}/Resources/{name}.icns": ("icns", False), c + "/Info.plist": (plist, False), c + "/Frameworks/": (b"", True), fw + "/": (b"", True), fw + "/Versions/": (b"", True)}
    for v in ("", "/Versions/Current", "/Versions/A"):
        if v: files[fw + v + "/"] = b"", True
        for e in dat.framework:
            if e.name.startswith("./") and (v or "/_CodeSignature" not in e.name): # (as on a mac)
                files[fw + v + e.name[1:] + ("/" if not e.data else "")] = e.data, "." not in e.name.split("/")[-1]
    expect("osx", files)

def icns_ok(data, label):
    import struct
    px = label_rgb(label)
    if data[:4] != b"icns" or struct.unpack(">I", data[4:8])[0] != len(data): return False
    if data[8:12] != b"it32": return False
    size, = struct.unpack(">I", data[12:16])
    body, rest = data[20:8 + size], data[8 + size:]
    # runs of up to 128 literals
    out, i = bytearray(), 0
    while i < len(body):
        h = body[i]
        if h < 128: out += body[i + 1:i + 2 + h]; i += 2 + h
        else: out += body[i + 1:i + 2] * (h - 125); i += 2
    if out != bytes(p[c] for c in range(3) for p in px): return False
    return rest[:4] == b"t8mk" and struct.unpack(">I", rest[4:8])[0] == len(rest) == 8 + 16384 and rest[8:] == b"\xff" * 16384

CHECKS = [("edit", prop_edit, 250, 12000, dict(timeout=120)), ("create", prop_create, 120, 5000, dict(timeout=120))]
