from common import *
from tool import Ctx
from lang import *
from syngen import SynGen
import cartmodel as cm
import codec, os, re, zlib
import textgen
from props import p11

PID = "P17"
TECHNIQUE = "fuzzing: structure-aware mutation of valid carts in every format and of valid programs, with a robustness oracle (documented exit status, message, no internal exception, no hang, no damaged output)"
NOTE = ("Random search. Every input format (p8, png, rom, tiny rom, clip, url, lua, js and pod exports, p64, picotron png and rom, sprite sheet and label images) is mutated "
    "at the level of the file and below its outer encodings; programs are mutated by characters and by tokens.")
RULE = ("each case is one mutated input and one command. Non-trivial: the mutated input differs from the valid one (files), or z8lua rejects the mutated program (code)")
ASSUMPTIONS = ["a program is invalid when z8lua refuses it for unbalanced brackets, blocks, strings or a misplaced token; other checks of the console (e.g. break outside of a loop) "
               "are not required of the tool"]

def make_ctx():
    return Ctx()

LOC = re.compile(r"^[^\n]*(:\d+:\d+|\(tab [0-9A-F], line \d+, col \d+\)): .+|^\?\?\?")

def check_clean(r, out, d, must_fail=False):
    """the outcome is a documented one"""
    if r.exc:
        last = [l for l in r.exc.strip().splitlines() if l.strip()]
        where = [l for l in last if l.strip().startswith("File ")][-1].strip()
        raise Violation("crash:" + last[-1].split(":")[0] + ":" + re.sub(r".*in (\w+)$", r"\1", where), "internal exception: " + last[-1] + " at " + where, run=r.describe(), **d)
    if r.code not in (0, 1, 2, 3, 4):
        raise Violation(f"exit:{r.code}", "undocumented exit status", run=r.describe(), **d)
    if r.code in (3, 4) and "ERROR: " not in r.err:
        raise Violation("message", f"exit status {r.code} without a message", run=r.describe(), **d)
    if r.code == 1:
        if "Compilation errors:" not in r.out: raise Violation("message", "exit status 1 without compilation errors", run=r.describe(), **d)
        after = r.out.split("Compilation errors:\n", 1)[1].split("\n")[0]
        if not LOC.match(after): raise Violation("location", f"no location in {after!r}", run=r.describe(), **d)
    if r.code in (1, 3, 4) and out and os.path.exists(out):
        raise Violation("output", f"exit status {r.code}, but an output was written", run=r.describe(), **d)
    if r.code == 0 and out and not os.path.exists(out):
        raise Violation("no-output", "success, but no output was written", run=r.describe(), **d)
    if re.search(r"^Traceback \(most recent", r.err, re.M):
        raise Violation("traceback", "an internal exception is printed", run=r.describe(), **d)

# --- mutation of bytes

TOKENS = [b"__lua__\n", b"__gfx__\n", b"__map__\n", b"__gff__\n", b"__sfx__\n", b"__music__\n", b"__label__\n", b"__meta:x__\n", b"__foo__\n", b"version ", b"version 99999999999\n",
          b"version -1\n", b"version x\n", b"g", b"z", b"\n", b"\r", b"\0", b"\xff", b"\xf0\x9f", b" ", b"0", b"&g=", b"?c=", b"=", b"&", b"?", b"[cart]", b"[/cart]", b"IHDR", b"IDAT",
          b"\x00pxa", b":c:\0", b"-->8\n", b"#include x\n", b"#include \n", b"\xe2\x80", b"_", b"-", b"%", b"b64$", b"lz4\0", b"pxu\0", b"--[[pod", b"]]", b"\x7f\xff\xff\xff", b"\xff\xff\xff\xff", b"\0\0\0\0"]

def mutate(g, data, n=None):
    data = bytearray(data)
    for _ in range(n or g.count(1, 8, 2)):
        k = g.weighted([(4, "byte"), (2, "del"), (2, "ins"), (1, "dup"), (1, "trunc"), (1.5, "tok"), (0.7, "noise"), (0.7, "swap"), (0.5, "head")])
        size = len(data)
        at = g.draw(0xffffff) % (size + 1) if not g.bool(0.3) else g.draw(0xffffff) % (min(size, 64) + 1)
        if k == "byte":
            if at < size: data[at] = g.choice([0, 255, 128, 127, 32, 48, 10, g.draw(255), data[at] ^ 1 << g.draw(7)])
        elif k == "del": del data[at:at + g.choice([1, 2, 4, 16, 100])]
        elif k == "ins": data[at:at] = g.bytes(g.int(1, 4))
        elif k == "tok": data[at:at] = g.choice(TOKENS)
        elif k == "dup":
            n = g.choice([1, 4, 30, 300])
            data[at:at] = data[at:at + n]
        elif k == "trunc": del data[at:]
        elif k == "noise":
            n = g.choice([4, 20, 200])
            data[at:at + n] = g.randbytes(n)
        elif k == "swap":
            b = g.draw(0xffffff) % (size + 1)
            n = g.choice([1, 4, 16])
            data[at:at + n], data[b:b + n] = data[b:b + n], data[at:at + n]
        else: data[:] = g.choice([b"", b"pico-8 cartridge", b"__lua__", b"[cart]", b"https://www.pico-8-edu.com/?c=", b"\x89PNG\r\n\x1a\n"]) + data[at:]
    return bytes(data)

def gen_file(g, ctx):
    """-> kind, valid bytes (mutated below the outer encoding, maybe)"""
    kind = g.choice(["p8", "png", "rom", "tiny", "clip", "url", "lua", "label", "spritesheet"])
    if kind in ("label", "spritesheet"):
        colors = textgen.noise(g.draw(0xffff), 16384, list(range(32)))
        return kind, codec.png_write(g.choice([128, 128, 160, 1]), 128, cm.image_of(colors)) if False else codec.png_write(128, 128, cm.image_of(colors)), False
    m = cm.gen_model(g, g.choice([60, 400, 3000]))
    p11.write_input(ctx, g, m, kind)
    data = ctx.s.read("in." + p11.EXT[kind])
    inner = False
    if kind in ("png", "clip") and g.bool(0.5):
        # the bytes hidden in the image
        if kind == "clip": data = bytes.fromhex(data.decode().strip()[6:-7])
        rom = codec.rom_from_png(data)
        tail = rom[0x8000:]
        rom = mutate_rom(g, rom[:0x8000]) + tail
        if g.bool(0.3): rom = rom[:0x8000] + mutate(g, tail).ljust(32, b"\0")[:32]
        data = codec.png_from_rom(rom[:160 * 205])
        if kind == "clip": data = b"[cart]" + data.hex().encode() + b"[/cart]"
        inner = True
    elif kind == "rom" and g.bool(0.7):
        data = mutate_rom(g, data)
        inner = True
    elif kind == "url" and g.bool(0.5):
        import base64
        url = data.decode()
        head, _, rest = url.partition("?c=")
        c, _, gfx = rest.partition("&g=")
        raw = base64.b64decode(c, b"_-")
        url = head + "?c=" + base64.b64encode(mutate(g, raw), b"_-").decode() + ("&g=" + gfx if gfx else "")
        data = url.encode()
        inner = True
    return kind, data, inner

def mutate_rom(g, rom):
    code = rom[0x4300:0x8000]
    used = len(code.rstrip(b"\0"))
    new = mutate(g, code[:max(used, 8)])[:0x3d00].ljust(0x3d00, b"\0")
    return rom[:0x4300] + new

OUTS = [("p8", []), ("p8.png", []), ("rom", []), ("rom", ["--format", "tiny-rom"]), ("lua", []), ("url", []), ("clip", [])]
MODES = [[], [], ["--minify"], ["--unminify"], ["--lint"], ["--count"], ["--input-count"], ["--minify-safe-only"], ["--version"]]

def prop_files(g, ctx):
    ctx.s.clear()
    kind, data, inner = gen_file(g, ctx)
    for e in os.scandir(ctx.s.dir): os.unlink(e.path)
    valid = data
    if not inner or g.bool(0.2): data = mutate(g, data)
    path = ctx.s.write("in." + p11.EXT[kind], data)
    ext, fmt = g.choice(OUTS)
    out = ctx.s.path("out." + ext)
    args = [path, out, *fmt, *g.choice(MODES)]
    f = {"tiny": "tiny-rom", "label": "label", "spritesheet": "spritesheet"}.get(kind, kind)
    if kind in ("label", "spritesheet", "tiny") or g.bool(0.3): args += ["--input-format", g.choice([f, f, f, "auto", "p8", "png"])]
    if "--lint" in args: args.append("--no-lint-fail")
    d = dict(input=kind, args=" ".join(args), size=len(data))
    r = tool.run(args, cwd=ctx.s.dir)
    check_clean(r, out, d)
    if r.code == 0:
        m = {"p8": "p8", "p8.png": "png", "rom": "rom", "lua": "lua", "url": "url", "clip": "clip"}[ext]
        try:
            with open(out, "rb") as h: got = h.read()
            if m == "p8": cm.read_p8(got)
            elif m == "png": cm.from_png(got)
            elif m == "rom" and not fmt: cm.from_rom(got)
            elif m == "rom": codec.decode_code(got)
            elif m == "lua": cm.code_from_text(got.decode("utf8"))
            elif m == "url": cm.from_url(got.decode())
            else: cm.from_png(bytes.fromhex(got.decode()[6:-7]))
        except (cm.BadFile, codec.Bad, ValueError, IndexError, AssertionError) as ex:
            if m == "p8" and re.search(rb"(?m)^__.*__\s*$", got.split(b"__lua__\n", 1)[-1]): raise Discard("code that looks like sections") # (p8 files can't hold it)
            raise Violation("damaged", f"success, but the output can't be read: {ex!r}", **d)
    g.event(f"exit {r.code}")
    g.event(kind)
    if data != valid or inner:
        g.mark(data + " ".join(args[2:]).encode())
        g.sample = dict(d, data=data[:300].decode("latin-1"), err=r.err[:200])

# --- mutation of programs

def mutate_code(g, code):
    toks_ = []
    try:
        for t in tokenize(code): toks_.append(t)
    except LexError:
        raise Discard("lex")
    return toks_

CHARS = b"()[]{}\"'\\-=,.;:#?!@$%&*+/<>^~|`\0\1\x7f\x80\xff \n\t\r09azAZ_xeb"

def prop_chars(g, ctx):
    """programs with random characters changed"""
    ctx.s.clear()
    prog = SynGen(g, size=g.choice([6, 14]), env=g.bool(0.1)).program()
    code = bytearray(Layout(g).render(prog))
    for _ in range(g.count(1, 6, 2)):
        at = g.draw(0xffff) % (len(code) + 1)
        k = g.draw(3)
        if k == 0 and at < len(code): code[at] = g.choice(CHARS)
        elif k == 1: code[at:at] = bytes([g.choice(CHARS)])
        elif k == 2: del code[at:at + g.int(1, 3)]
        else: code[at:at] = g.choice([b"end", b"[[", b"--[[", b"0x", b"1e", b"\\x", b"\"\\", b"::", b"goto a", b"...", b"function", b"local", b"--$lint:", b"--[[$const]]", b"--[[member::]]",
            b"--[[preserve]]", b"--[[$", b"--[[memberdefs::", b"#include ", b"\\999", b"\\u{", b"\\z", b"99999", b"<const>", b"<close>", b"=", b"return", b"?", b"//", b"_ENV", b"--$switch-compiler: x\n",
            b"--[[language::split]]", b"0x.", b"0b2", b"1..2", b"1.2.3", b"\n-->8\n", b"e9", b"0b", b"1e99"])
    code = bytes(code)
    run_code(g, ctx, code)

MODES2 = [["--minify"], ["--minify"], ["--minify-safe-only"], ["--unminify"], ["--lint", "--no-lint-fail"], ["--count"], ["--minify", "--unminify"], ["--minify", "--focus-tokens"],
          ["--minify", "--focus-compressed"], ["--minify", "--rename-map", "map.txt"], ["--lint", "--minify", "--no-lint-fail", "--error-format", "tabbed"], ["--minify", "--no-minify-rename"]]

def run_code(g, ctx, code, must_fail=None):
    path = ctx.s.write("in.lua", p8.to_text(code))
    out = ctx.s.path("out.p8")
    args = g.choice(MODES2)
    d = dict(code=code, args=" ".join(args))
    r = tool.run([path, out, *args], cwd=ctx.s.dir)
    check_clean(r, out, d)
    g.event(f"exit {r.code}")
    try:
        luarun.dump(code)
        valid = True
    except luarun.CompileError as ex:
        valid, msg = False, str(ex)
    if not valid:
        g.event("z8lua refuses")
        if r.code == 0: g.event("refused by z8lua only")
        if must_fail and args != ["--count"] and r.code != 1:
            raise Violation("accepted", f"invalid code ({msg}; {must_fail}) is not reported as a compilation error (exit status {r.code})", **d)
        g.mark(code)
        g.sample = dict(code=text(code), args=d["args"], out=r.out[:200])
    return valid, r

STRUCT = ["end", ")", "]", "}", "then", "do", "until", "in", "(", "{", "["]

def prop_tokens(g, ctx):
    """programs with a token removed, doubled or inserted"""
    ctx.s.clear()
    strict = g.bool(0.6)
    prog = SynGen(g, size=g.choice([6, 14]), shorts=not strict).program()
    k = g.choice(["del", "dup", "ins"])
    cands = list(range(len(prog)))
    if strict and k != "ins": # only tokens that no program can miss or double
        cands = [i for i in cands if prog[i].s in STRUCT]
        if not cands: raise Discard("nothing to remove")
    at = cands[g.draw(0xffff) % len(cands)]
    t = prog[at]
    prog2 = list(prog)
    if k == "del": del prog2[at]
    elif k == "dup": prog2.insert(at, t)
    else:
        s = g.choice(STRUCT if strict else [*STRUCT, "else", "elseif", "=", ",", "..", "and"])
        t = kw(s) if s.isalpha() else op(s)
        prog2.insert(at, t)
    code = Layout(g).render(prog2)
    if any(x.s in ("return", "break", "?") for x in prog): strict = False # (what may follow them is not checked by the tool)
    run_code(g, ctx, code, strict and f"{k} {t.s}")


# --- files that were cut off

def prop_cut(g, ctx):
    """a container that was cut off is refused, if what is missing holds something of the cart"""
    from props import p19
    ctx.s.clear()
    kind = g.weighted([(4, "p64"), (3, "rom"), (1, "png")])
    files = p19.gen_tree(g, main=1)
    with open(p19.write_any(g, ctx, "in", kind, files), "rb") as f: data = f.read()
    size = g.choice([len(data) - g.int(0, min(60, len(data))), g.int(0, len(data))])
    if kind == "rom": size = max(size, 8) # (without a header, it's a tiny rom)
    if kind == "p64": size = max(size, data.index(b"\n:: ") + 5) # (without a file, it's an empty cart or code)
    if kind == "p64" and data[:size].endswith(b"\n:: "): size += 1 # (a file without a name ends the cart)
    if kind == "p64" and size < len(data) - 1 and data[:size].endswith(b"\n:: [eoc]"): raise Discard("cut to the end marker")
    ctx.s.write("cut." + kind, data[:size])
    extra = ["--keep-pod-compression", "--input-format", kind]
    full, out = ctx.s.path("full.p64"), ctx.s.path("out.p64")
    d = dict(format=kind, size=len(data), cut=size, data=data[:2000])
    r = tool.run([ctx.s.path("in." + kind), full, *extra], "picotron")
    check_clean(r, full, d)
    if r.code: raise Violation("refused", "the whole cart is refused", run=r.describe(), **d)
    r = tool.run([ctx.s.path("cut." + kind), out, *extra], "picotron")
    check_clean(r, out, d)
    if r.code == 0:
        with open(full, "rb") as f: want = f.read()
        with open(out, "rb") as f: got = f.read()
        if got != want: raise Violation("damaged", "a part of the cart is lost without an error", run=r.describe(), got=got[:2000], **d)
    g.event(kind + (" read" if r.code == 0 else " refused"))
    if size < len(data): g.mark(data + b"%d" % size)
    g.sample = dict(kind=kind, size=len(data), cut=size, err=r.err[:200])

CHECKS = [("files", prop_files, 1500, 60000, dict(timeout=60)), ("chars", prop_chars, 2500, 80000), ("tokens", prop_tokens, 1500, 40000),
    ("cut", prop_cut, 600, 20000)]
