from common import *
from tool import Ctx
from lang import *
from syngen import SynGen
import codec, textgen, os, re
from props import p10

PID = "P09"
TECHNIQUE = "property-based testing: printed counts against an own token counter and the sizes of the files really written"
NOTE = ("Random search. Trusts an own tokenizer and own decoders of the written carts. A minus that is separated from its number by a space, or that "
    "follows a keyword operand (true, false, nil, ...), may be counted either way.")
RULE = ("random programs (and constant-heavy ones) counted as they are, minified under random switches, or unminified, from p8/png/rom inputs to any "
    "output, in plain or parsable form; the numbers are compared with counts of the actual input and output files. Non-trivial: at least 8 tokens")
ASSUMPTIONS = ["a minus separated from its number, or after a keyword operand, may be counted either way"]

def make_ctx():
    return Ctx()

FREE = {",", ".", ":", ";", "::", ")", "]", "}", "end", "local"}

def count_range(code):
    spans = []
    try:
        toks = tokenize(code, None, spans)
    except LexError as ex:
        raise Violation("tokenize", str(ex), code=code)
    lo = hi = 0
    for i, (k, s, _) in enumerate(toks):
        if k in ("op", "kw") and s in FREE:
            continue
        if k == "op" and s in ("-", "~") and i + 1 < len(toks) and toks[i+1][0] == "num":
            pk, ps, _ = toks[i-1] if i else ("kw", "", 0)
            operand = pk in ("num", "str", "id") or (pk in ("op", "kw") and ps in (")", "]", "}", "end", ";"))
            if not operand:
                if spans[i][1] == spans[i+1][0] and not (pk == "kw" and ps in ("true", "false", "nil") or ps == "..."):
                    continue
                hi += 1 # either way
                continue
        lo += 1; hi += 1
    return lo, hi

LIMITS = dict(tokens=8192, chars=0xffff, compressed=0x3d00)

def parse_counts(r, parsable):
    """{(prefix, name): size}; checks the form of each line"""
    out = {}
    for line in r.out.splitlines():
        if parsable:
            m = re.fullmatch(r"count:(None|input|):?(\w+):(\d+):(\d+)", line)
            if not m: continue
            pre = "input" if m.group(1) == "input" else ""
            name, size, lim = m.group(2), int(m.group(3)), int(m.group(4))
            if name in LIMITS and lim != LIMITS[name]:
                raise Violation("limit", f"{line}", run=r.describe())
        else:
            m = re.fullmatch(r"(input )?(\w+): (\d+) (\d+(?:\.(\d+))?)%", line)
            if not m: continue
            pre, name, size = "input" if m.group(1) else "", m.group(2), int(m.group(3))
            if name in LIMITS:
                exact = size / LIMITS[name] * 100
                digits = len(m.group(5) or "")
                if abs(float(m.group(4)) - exact) > (0.500001 if digits == 0 else 0.00500001) or digits != (2 if exact >= 95 else 0):
                    raise Violation("percent", f"{line} (exactly {exact}%)", run=r.describe())
        if (pre, name) in out and out[pre, name] != size:
            raise Violation("contradiction", f"two counts for {pre} {name}", run=r.describe())
        out[pre, name] = size
    return out

def const_program(g):
    """programs in which constants with signs appear in all positions"""
    nums = ["1", "2", "0.5", "0x8000", "32767", "100", "0x.8", "0xffff"]
    def e(d):
        k = g.draw(7) if d else 0
        if k <= 1: return g.choice(nums)
        if k == 2: return g.choice(["-", "~", "- ", "- -", "~ "]) + g.choice(nums)
        if k == 3: return e(d-1) + g.choice(["+", "-", "*", " - ", "^", "\\", "..", "~", "<<", ">"]) + e(d-1)
        if k == 4: return "(" + e(d-1) + ")"
        if k == 5: return "-(" + e(d-1) + ")"
        if k == 6: return g.choice(["a", "f(%s)" % e(d-1), "t[%s]" % e(d-1), "{%s}" % e(d-1), "true", "nil", "'s'", "..."])
        return "not " + e(d-1)
    out = []
    for _ in range(g.int(1, 6)):
        k = g.draw(5)
        if k == 0: out.append(f"x={e(3)}")
        elif k == 1: out.append(f"local y,z={e(2)},{e(2)}")
        elif k == 2: out.append(f"if {e(2)} then g({e(2)}) end")
        elif k == 3: out.append(f"f({e(2)},{e(2)})")
        elif k == 4: out.append(f"--[[const]] local c{len(out)}={e(1)}")
        else: out.append(f"t[{e(2)}],u={e(2)},{{{e(2)};{e(1)}}}")
    if g.bool(0.3): out.append(f"return {e(2)}")
    return "\n".join(out).encode("latin-1") + b"\n"

def prop_count(g, ctx):
    ctx.s.clear()
    if g.bool(0.35):
        code = const_program(g)
    else:
        code = Layout(g).render(SynGen(g, version=42, cond_funcs=False).program())
    reference(code)
    op = g.weighted([(3, []), (5, ["--minify"]), (2, ["--minify-safe-only"]), (2, ["--unminify"]), (1, ["--minify", "--unminify"])])
    args = list(op)
    if "--minify" in op or "--minify-safe-only" in op:
        args += g.choice(FOCUSES) + g.subset(DISABLES, 0.15)
    if "--minify-safe-only" not in op and g.bool(0.2): args += ["--fast-compression"]
    elif g.bool(0.1): args += ["--fast-compression"]
    parsable = g.bool(0.3)
    if parsable: args.append("--parsable-count")
    icount = g.bool(0.5)
    if icount: args.append("--input-count")
    # input
    how = g.weighted([(3, "p8"), (1, "rom"), (1, "png")])
    infile_code, insize = code, None
    if how == "p8":
        inp = ctx.s.write("in.p8", p8.write_p8(code))
        infile_code = p8.read_code(ctx.s.read("in.p8"))
    else:
        import random
        rnd = random.Random(g.draw(0xffff))
        decide = lambda n: rnd.randint(0, n)
        k = g.choice(["pxa", "old", "raw"])
        if b"\0" in code: k = "pxa"
        data = code if k == "raw" else codec.encode_pxa(code, decide) if k == "pxa" else codec.encode_old(code, decide)
        if len(data) > codec.CODE_SIZE: raise Discard("size")
        insize = len(data) if k != "raw" else None
        rom = bytes(codec.ROM_SIZE) + data.ljust(codec.CODE_SIZE, b"\0")
        inp = ctx.s.write("in." + how, rom if how == "rom" else codec.png_from_rom(rom))
    fmt = g.choice(["p8", "png", "rom", "tiny-rom", "lua"])
    out = ctx.s.path("out." + fmt.replace("tiny-", ""))
    r = check_ran(tool.run([inp, out, "-f", fmt, "--count", *args]), code)
    counts = parse_counts(r, parsable)
    d = dict(input=code, args=" ".join(args), out=r.out, fmt=fmt, how=how)
    with open(out, "rb") as f: data = f.read()
    if fmt == "p8": outcode = p8.read_code(data)
    elif fmt == "lua": outcode = p8.from_text(data.decode("utf8"))
    else:
        stored = data if fmt == "tiny-rom" else (codec.rom_from_png(data)[:0x8000] if fmt == "png" else data)[codec.ROM_SIZE:]
        outcode, used, kind, _ = codec.decode_code(stored)
        if kind == "raw":
            if fmt != "tiny-rom": raise Violation("not compressed", "code isn't stored compressed", **d)
        elif counts.get(("", "compressed")) != used:
            raise Violation("compressed", f"printed {counts.get(('', 'compressed'))}, stored {used}", **d)
    if fmt == "lua" and outcode.endswith(b"\n") and counts.get(("", "chars")) == len(outcode) - 1:
        outcode = outcode[:-1]
    def check(pre, name, lo, hi=None):
        hi = lo if hi is None else hi
        got = counts.get((pre, name))
        if got is None or not lo <= got <= hi:
            raise Violation(f"{pre}{name}", f"printed {got}, actual {lo}" + (f"-{hi}" if hi != lo else ""), outcode=outcode, **d)
    check("", "chars", len(outcode))
    check("", "tokens", *count_range(outcode))
    if ("", "compressed") not in counts:
        raise Violation("compressed", "not printed", **d)
    if icount:
        check("input", "chars", len(infile_code))
        check("input", "tokens", *count_range(infile_code))
        if insize is not None: check("input", "compressed", insize)
        elif ("input", "compressed") in counts: raise Violation("input compressed", "printed although not compressed", **d)
        g.event("input counts")
    # the same sizes as when the result is counted on its own, and when it is written to a rom
    if fmt in ("p8", "lua") or g.bool(0.2):
        p = ctx.s.write("again.p8", p8.write_p8(outcode + b"\n")) if fmt != "p8" else out
        extra = ["--fast-compression"] if "--fast-compression" in args else []
        rom = ctx.s.path("x.rom")
        r2 = check_ran(tool.run([p, rom, "--force-compression", *extra]), code)
        with open(rom, "rb") as f: _, used, kind, _ = codec.decode_code(f.read()[codec.ROM_SIZE:])
        if used != counts["", "compressed"]:
            raise Violation("compressed", f"printed {counts['', 'compressed']}, a rom takes {used}", **d)
        r3 = check_ran(tool.run([p, "--count", "--parsable-count", *extra]), code)
        c3 = parse_counts(r3, True)
        for name in ("chars", "compressed"):
            if c3["", name] != counts["", name]:
                raise Violation("recount", f"{name} was {counts['', name]}, counted again {c3['', name]}", **d)
        lo, hi = count_range(outcode)
        if not lo <= c3["", "tokens"] <= hi:
            raise Violation("recount", f"tokens", **d)
    lo, hi = count_range(infile_code)
    if lo >= 8:
        g.mark(code + " ".join(args).encode() + fmt.encode())
        g.sample = dict(args=args, fmt=fmt, input=text(code[:300]), printed=r.out)
    g.event("op " + " ".join(op))

def prop_big(g, ctx):
    """counts near and beyond the limits"""
    ctx.s.clear()
    k = g.draw(2)
    if k == 0: # tokens
        n = 8192 + g.int(-900, 300)
        unit = g.choice(["x=1\n", "x+=-1\n", "f(y)\n", "t={-1,~2;3}\n", "x=y-1\n", "x=a.b:c()\n"])
        code = (unit * (n // 3))[:60000]
        code = code[:code.rindex("\n") + 1].encode()
    elif k == 1: # chars
        n = 65000 + g.int(-4000, 4000)
        code = (b"x=1 " * (n // 4 + 1))[:n].rsplit(b" ", 1)[0] + b" " * g.int(0, 400)
    else: # compressed
        n = g.int(12000, 24000)
        code = b"x=[=[" + textgen.noise(g.draw(0xffff), n, list(range(98, 256))) + b"]=]"
    inp = ctx.s.write("in.p8", p8.write_p8(code + b"\n"))
    parsable = g.bool()
    r = check_ran(tool.run([inp, "--count", *(["--parsable-count"] if parsable else []), "--fast-compression"]), code[:300])
    counts = parse_counts(r, parsable)
    lo, hi = count_range(code)
    d = dict(start=code[:200], out=r.out)
    if not lo <= counts.get(("", "tokens"), -1) <= hi: raise Violation("tokens", f"actual {lo}-{hi}", **d)
    if counts.get(("", "chars")) != len(code): raise Violation("chars", f"actual {len(code)}", **d)
    g.mark(code[:100] + str(len(code)).encode())

def trace_text(items):
    """what a trace lists: size and text of every symbol, and where it's copied from"""
    out = ""
    for size, piece, *match in items:
        out += f'{size},"' + p8.to_text(piece).replace('"', '""') + '"' + (",%d:%d" % tuple(match) if match else "") + "\n"
    return out.encode("utf8")

def prop_trace(g, ctx):
    """the traces of compressed code list exactly the symbols that it consists of, and the size of each"""
    ctx.s.clear()
    code = textgen.gen_text(g, g.choice([30, 300, 2000]), zero=g.bool(0.2))
    if textgen.is_sectionlike(code): raise Discard("looks like a section")
    d = dict(code=code[:1000])
    inp, stored = p10.text_through(ctx, g, code, d)
    args = [inp]
    tin = tout = None
    if stored and g.bool(0.7):
        tin = ctx.s.path("in.csv")
        args += ["--trace-input-compression", tin]
    old = b"\0" not in code and g.bool(0.3)
    fmt = g.choice(["rom", "tiny-rom", "png", "p8", "none"])
    if b"\0" not in code and g.bool(0.7): # (a null can't be in a block of raw characters, which is then listed as one all the same)
        tout = ctx.s.path("out.csv")
        args += ["--trace-compression", tout]
    if fmt in ("p8", "none"): args += ["--count"]
    else: args += ["--force-compression"] + (["--old-compression"] if old else [])
    args += g.subset(["--fast-compression"], 0.3)
    out = ctx.s.path("out.bin")
    if fmt != "none": args += [out, "-f", fmt]
    else: args += ["--lint"] if g.bool(0.3) else []
    r = tool.run(args)
    if r.code in (1, 2, 3): raise Discard("refused")
    check_ran(r)
    d["args"] = " ".join(args).replace(ctx.s.dir + "/", "")
    if tin:
        want = []
        codec.decode_code(stored[1], want)
        if stored[0] == "raw":
            if os.path.exists(tin) and os.path.getsize(tin): raise Violation("trace", "a trace of code that isn't compressed", **d)
        else: compare_trace("input", tin, want, d)
        g.event("input " + stored[0])
    if tout and fmt in ("rom", "tiny-rom", "png"):
        with open(out, "rb") as f: got = p10.stored_code(fmt, f.read())
        want = []
        _, _, kind, _ = codec.decode_code(got, want)
        if kind == "raw": raise Discard("not compressed")
        compare_trace("output", tout, want, d)
        g.event("output " + kind)
    elif tout:
        # the code isn't written compressed, yet it has to be what is listed, in as many bits as are printed
        rom = ctx.s.path("x.rom")
        check_ran(tool.run([inp, rom, "--force-compression"] + [a for a in args if a == "--fast-compression"]), code)
        with open(rom, "rb") as f: got = p10.stored_code("rom", f.read())
        want = []
        _, _, kind, _ = codec.decode_code(got, want)
        if kind == "pxa":
            compare_trace("counted", tout, want, d)
            g.event("counted")
    if len(code) >= 8: g.mark(code + repr(args).encode())
    g.sample = dict(args=d["args"], code=text(code[:200]))

def compare_trace(what, path, items, d):
    with open(path, "rb") as f: got = f.read()
    want = trace_text(items)
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation("trace " + what, f"differs at {i}: {got[max(0, i - 40):i + 40]!r}, should be {want[max(0, i - 40):i + 40]!r}", **d)

def ex(code, n):
    def run(ctx):
        ctx.s.write("in.p8", p8.write_p8(code))
        r = check_ran(tool.run([ctx.s.path("in.p8"), "--count", "--parsable-count"]), code)
        got = parse_counts(r, True).get(("", "tokens"))
        if got != n: raise Violation("tokens", f"printed {got}, actual {n}", input=code)
    return run

EXAMPLES = [
    ("simple", ex(b"x=1\n", 3)), ("negative", ex(b"x=-1\n", 3)), ("minus", ex(b"x=y-1\n", 5)), ("call", ex(b"f(1,2)\n", 4)),
    ("local", ex(b"local a,b=1,2\n", 5)), ("member", ex(b"a.b.c=1\n", 5)), ("method", ex(b"a:b()\n", 3)), ("table", ex(b"t={1,-2;3}\n", 6)),
    ("if", ex(b"if x then y=1 else z=2 end\n", 10)), ("shortif", ex(b"if (x) y=1\n", 6)), ("func", ex(b"function f(a,b) return a end\n", 7)),
    ("index", ex(b"t[1]=t[-1]\n", 7)), ("tilde", ex(b"x=~1\n", 3)), ("string", ex(b"x='a'..[[b]]\n", 5)), ("goto", ex(b"::a:: goto a\n", 3)),
    ("op-assign", ex(b"x+=1\n", 3)), ("print", ex(b"?'a'\n", 2)), ("not", ex(b"x=not y\n", 4)), ("comment", ex(b"--x=1\nx=1//y\n", 3)),
    ("semicolon-minus", ex(b"x=#y\n", 4)), ("for", ex(b"for i=1,2 do end\n", 6)), ("while", ex(b"while x do y() end\n", 5)),
]

CHECKS = [("count", prop_count, 1500, 40000, {"timeout": 120}), ("big", prop_big, 40, 800, {"timeout": 300}),
    ("trace", prop_trace, 500, 20000, {"timeout": 120})]
