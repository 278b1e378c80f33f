from common import *
from tool import Ctx
import cartmodel as cm
import codec, os, re

PID = "P15"
TECHNIQUE = "model-based property testing: random trees of files with includes, against a plain splicing model that tracks the origin of every character"
NOTE = ("Random search. Up to eight files (p8 carts with tabs, lua, png, rom) in nested directories, include directives of whole files and single tabs, decoy directives in "
    "strings and comments; the produced code, the list of includes and the exact locations (three formats) of lint warnings and compilation errors are compared.")
RULE = ("random projects; the spliced code is compared with the model's, and every warning/error with the model's location. "
    "Non-trivial: at least one include was spliced and at least one location was checked")
ASSUMPTIONS = ["files that are included by tab have tab breaks of their own only (not brought in by nested includes)",
               "characters that take several code points in text files do not precede a checked token on its line"]

def make_ctx():
    return Ctx()

TAB = "\n-->8\n"

class File:
    def __init__(self, path, kind):
        self.path, self.kind = path, kind
        self.lines = []   # ("code", text) | ("inc", indent, name as written, File, tab or None) | ("tab",)
        self.head = 0     # lines before the code in the text file

    def source(self):
        out = []
        for l in self.lines:
            if l[0] == "code": out.append(l[1])
            elif l[0] == "tab": out.append("-->8")
            else: out.append(f"{l[1]}#include{l[5]}{l[2]}" + (f":{l[4]:x}" if l[4] is not None else ""))
        return "\n".join(out)

    def tabs(self):
        return sum(l[0] == "tab" for l in self.lines) + 1

def expand(f, tab=None):
    """-> list of (char, File, index in the file's own source)"""
    out, pos, t = [], 0, 0
    first = True
    for l in f.lines:
        text = l[1] if l[0] == "code" else "-->8" if l[0] == "tab" else None
        size = len(text) if text is not None else len(l[1]) + len("#include") + len(l[5]) + len(l[2]) + (2 if l[4] is not None else 0)
        if l[0] == "tab" and tab is not None:
            t += 1
            pos += size + 1
            first = True
            continue
        if tab is None or t == tab:
            if not first: out.append(("\n", f, pos - 1))
            first = False
            if text is not None: out.extend((c, f, pos + i) for i, c in enumerate(text))
            else: out.extend(expand(l[3], l[4]))
        pos += size + 1
    return out

def location(f, idx, fmt, cwd, head_in_tab=False):
    src = f.source()
    before = src[:idx]
    if fmt == "tabbed":
        parts = before.split(TAB)
        # (a token right after a tab break is in the next tab; the break itself is not code)
        t, before = len(parts) - 1, parts[-1]
        line, col = before.count("\n") + 1, len(before) - (before.rfind("\n") + 1) + 1
        return f"{os.path.relpath(f.path, cwd)} (tab {t:X}, line {line + (f.head if head_in_tab else 0)}, col {col})"
    line, col = before.count("\n") + 1 + f.head, len(before) - (before.rfind("\n") + 1) + 1
    return f"{os.path.abspath(f.path) if fmt == 'absolute' else os.path.relpath(f.path, cwd)}:{line}:{col}"

HIGH = [chr(c) for c in (0x80, 0x82 + 1, 0x84, 0x86, 0x90, 0x9a, 0xb5, 0xe0, 0x7f, 0x10, 0x1f)] # (single code points in text)

def gen_line(g, probes):
    """text lines of complete statements, without warnings besides the probes"""
    def probe():
        n = f"zz{len(probes)}"
        probes.append(n)
        return n
    sp = lambda: g.weighted([(6, ""), (1, " "), (0.5, "  "), (0.5, "\t")])
    k = g.weighted([(4, "probe"), (2, "print"), (2, "comment"), (1.5, "strdecoy"), (1, "longdecoy"), (1, "longcomment"), (1, "len"), (1, "multi"), (0.7, "hi"),
                    (0.7, "block"), (0.5, "strcont"), (0.5, "empty"), (0.5, "index"), (0.5, "short"), (0.4, "print?")])
    dec = "#include " + g.choice(["a.lua", "x.p8", "b.lua:1", "nofile"])
    if k == "probe": return [f"{sp()}{g.choice(['print(', '_x=(', '_y={'])}{sp()}{probe()}{sp()}" ] if False else [sp() + g.choice(["print({})", "print(1,{})", "_x={}", "_x=-{}+1", "if ({}) print(1)", "_x={{{}}}"]).format(sp() + probe() + sp())]
    if k == "print": return [sp() + f"print({g.int(0, 99)})" + g.choice(["", " ", " print(3)", ";"])]
    if k == "comment":
        c = g.choice(["--", "//", "-- ", "--[", "--[=", "//[[", "--[==x[["]) + g.choice([dec, "it's", '"', "]]", "[[", "\\"])
        return [sp() + ("--" + dec if re.match(r"--\[=*\[", c) else c)]
    if k == "strdecoy":
        q = g.choice("'\"")
        return [f"_x={q}{g.choice(['', '--', '//', '[[', ']]', chr(92) + q, chr(92) * 2, '-'])}{dec}{q}" + g.choice(["", f" print({probe()})" if g.bool() else ""])]
    if k == "longdecoy":
        n = "=" * g.choice([0, 0, 1, 2])
        return [f"_x=[{n}[" + g.choice(["", "--", "'", '"', "[[" if n else "["]), dec, g.choice(["", "--] ", " " + dec, "]" if n else ""]) + f"]{n}]" + (f" print({probe()})" if g.bool(0.4) else "")]
    if k == "longcomment":
        n = "=" * g.choice([0, 0, 1, 2])
        return [f"--[{n}[" + g.choice(["", "'", '"', "[[" if n else ""]), dec, g.choice(["", "--", "'", dec]) + f"]{n}]" + (f" print({probe()})" if g.bool(0.4) else "")]
    if k == "len": return g.choice([["_x=", "#_y"], ["_x=#_y"], ["_x=", " #{}"], ["_x=", f"#{probe()}"] if g.bool(0.3) else ["_x=(", "#_x)"], ["_x=", "#'#include a.lua'"]])
    if k == "multi": return ["_x={", f"{sp()}{probe()},", "}"]
    if k == "hi": return [f"_x=\"{''.join(g.choice(HIGH) for _ in range(g.int(1, 3)))}\" print({probe()})"]
    if k == "block": return ["do", f"{sp()}print({g.int(0, 9)})", "end"]
    if k == "strcont": return [f"_x='ab{chr(92)}", f"{dec}'" + (f" print({probe()})" if g.bool(0.4) else "")] if g.bool() else ["_x='ab" + chr(92) + "z", f"   cd' print({probe()})"]
    if k == "index": return [f"_y={{}} _x={{1}} _y[_x[1]]={g.int(1, 9)}"] if g.bool() else [f"_y={{}} _y[ [[{g.choice(['q', '#include'])}]] ]=1"]
    if k == "short": return [f"if (_x) _y={probe()}"]
    if k == "print?": return [f"?{probe()}"]
    return [""]

KINDS = [(4, "p8"), (3, "lua"), (1, "png"), (0.7, "clip"), (0.4, "url")]
MAIN_KINDS = KINDS + [(0.3, "rom")] # (an included rom can't be told from text)
EXT = dict(p8=".p8", lua=".lua", png=".p8.png", rom=".rom", clip=".clip", url=".url")

def gen_project(g, ctx, probes, nesting=True):
    """-> the main File; every file is written"""
    root = ctx.s.path("proj")
    dirs = [root] + [os.path.join(root, d) for d in g.choice([[], ["sub"], ["sub", "sub/in"], ["a b", "sub"]])]
    count = g.count(2, 7, 3)
    files = []
    # files only include files of later index, so that there are no cycles; the last ones are leaves
    for i in range(count):
        kind = g.weighted(KINDS if i else MAIN_KINDS)
        name = g.choice(["f", "inc", "my file", "x.y", "F", "a-b"]) + str(i) + EXT[kind]
        files.append(File(os.path.join(g.choice(dirs) if i else root, name), kind))
    for i in reversed(range(count)):
        f = files[i]
        text = f.kind in ("p8", "lua")
        n = g.count(1, 8, 4)
        later = files[i + 1:] if text and nesting else []
        tabbed_ok = f.kind != "lua"
        for j in range(n):
            if later and (g.bool(0.35) or (i == 0 and j == 0)):
                t = g.choice(later)
                rel = os.path.relpath(t.path, os.path.dirname(f.path))
                if g.bool(0.1) and "/" in rel: rel = rel.replace("/", "\\")
                tab = None
                if t.kind != "lua" and g.bool(0.4) and not any(l[0] == "inc" and l[3].tabs_deep() > 1 for l in t.lines):
                    tab = g.int(0, t.tabs() - 1)
                f.lines.append(("inc", g.weighted([(8, ""), (1, " "), (0.5, "\t ")]), rel, t, tab, g.weighted([(8, " "), (0.5, "  "), (0.5, "\t")])))
            else:
                f.lines += [("code", l) for l in gen_line(g, probes)]
            if tabbed_ok and j < n - 1 and f.tabs() < 16 and g.bool(0.25):
                f.lines.append(("tab",))
                if g.bool(0.1): f.lines.append(("code", ""))
        fix_tabs(f)
    return files

def tabs_deep(f):
    return f.tabs() + sum(tabs_deep(l[3]) - 1 for l in f.lines if l[0] == "inc" and l[4] is None)
File.tabs_deep = tabs_deep

def fix_tabs(f):
    """no empty tabs: each holds at least one non-empty line"""
    out, seen = [], False
    for l in f.lines:
        if l[0] == "tab":
            if not seen: out.append(("code", "print(0)"))
            seen = False
        elif l[0] == "inc" or l[1].strip(): seen = True
        out.append(l)
    if not seen: out.append(("code", "print(0)"))
    f.lines = out

def write(g, ctx, f):
    src = f.source()
    code = src.encode("latin-1")
    os.makedirs(os.path.dirname(f.path), exist_ok=True)
    nl = "\r\n" if g.bool(0.1) and f.kind in ("p8", "lua") else "\n"
    if f.kind == "lua":
        data = (p8.to_text(code).replace("\n", nl) + (nl if g.bool() or code.endswith(b"\n") else "")).encode("utf8")
        if data.startswith(b"__lua__") or data.startswith(b"pico-8"): raise Discard("header-like")
    elif f.kind == "p8":
        head = g.choice([cm_header(42), cm_header(8), "__lua__\n", cm_header(42).replace("__lua__", "__gfx__\n0123456789\n__lua__")])
        f.head = head.count("\n")
        data = (head + p8.to_text(code) + "\n" + g.choice(["", "__gfx__\n00000000\n", "__gff__\n01\n"])).replace("\n", nl).encode("utf8")
    else:
        m = cm.Model(code)
        stored = cm.code_region(g, code)
        data = cm.to_rom(m, stored)
        if f.kind in ("png", "clip"): data = codec.png_from_rom(data + cm.trailer(m, data))
        if f.kind == "clip": data = b"[cart]" + data.hex().encode() + b"[/cart]"
        if f.kind == "url": data = cm.to_url(g, m, stored).encode()
    with open(f.path, "wb") as h: h.write(data)

def cm_header(v):
    return f"pico-8 cartridge // http://www.pico-8.com\nversion {v}\n__lua__\n"

def describe(files):
    return {os.path.basename(f.path): f.source().encode("latin-1") for f in files}

def loc_ok(want_f, want_idx, fmt, cwd, line):
    """line starts with the location (the known finding: tabbed lines count the header of the p8 file)"""
    if line.startswith(location(want_f, want_idx, fmt, cwd) + ": "): return True
    return fmt == "tabbed" and line.startswith(location(want_f, want_idx, fmt, cwd, True) + ": ")

def reachable(f, out):
    for l in f.lines:
        if l[0] == "inc":
            out.append(l[3])
            reachable(l[3], out)
    return out

def setup(g, ctx, nesting=True):
    ctx.s.clear()
    probes = []
    files = gen_project(g, ctx, probes, nesting)
    for f in files: write(g, ctx, f)
    main = files[0]
    cwd = g.choice([os.path.dirname(main.path), ctx.s.dir, ctx.s.path("else")])
    os.makedirs(cwd, exist_ok=True)
    arg = g.choice([main.path, os.path.relpath(main.path, cwd)])
    return files, main, cwd, arg

def prop_splice(g, ctx):
    files, main, cwd, arg = setup(g, ctx)
    exp = expand(main)
    want = "".join(c for c, _, _ in exp)
    if len(want) > 60000: raise Discard("long")
    fmt = g.choice(["common", "absolute", "tabbed", None])
    d = dict(main=main.path, **describe(files))
    out = ctx.s.path("out." + g.choice(["rom", "p8", "lua"]))
    r = tool.run([arg, out, *(["--list-includes"] if False else [])], cwd=cwd)
    check_ran(r, want)
    with open(out, "rb") as h: data = h.read()
    if out.endswith("rom"): got = codec.decode_code(data[0x4300:0x8000])[0]
    elif out.endswith("p8"): got = p8.read_code(data)
    else:
        got = p8.from_text(data.decode("utf8"))
        if got.endswith(b"\n"): got = got[:-1]
    got = got.decode("latin-1")
    norm = (lambda s: re.sub(r"(?m)^[ \t]+", "", s)) if any(l[0] == "inc" and l[1] for f in files for l in f.lines) else (lambda s: s)
    a, b = norm(want), norm(got)
    if out.endswith(("p8", "lua")): a, b = a.rstrip("\n"), b.rstrip("\n")
    if a != b:
        raise Violation("splice", f"the code is not the spliced one: {first_diff(a, b)}", want=want.encode("latin-1"), got=got.encode("latin-1"), **d)
    included = []
    r = tool.run([arg, "--list-includes"], cwd=cwd)
    check_ran(r, want)
    listed = r.out.split("\n")[:-1]
    wanted = [os.path.relpath(f.path, cwd) for f in reachable(main, [])]
    if set(os.path.normpath(l.replace("\\", "/")) for l in listed) != set(os.path.normpath(w) for w in wanted):
        raise Violation("list", f"--list-includes lists {listed}, included are {wanted}", **d)
    r = tool.run([arg, "--lint", "--no-lint-unused", "--no-lint-duplicate", "--lint-global", "_x,_y", *(["--error-format", fmt] if fmt else [])], cwd=cwd)
    check_ran(r, want, allow=(0, 2))
    lines = r.out.split("\n")
    lines = lines[1:-1] if lines[0] == "Lint warnings:" else lines[:-1]
    expected = [(m.start(), m.group()) for m in re.finditer(r"\bzz\d+\b", want)]
    if len(lines) != len(expected):
        raise Violation("warnings", f"{len(lines)} warnings instead of {len(expected)}", got=r.out, **d)
    for (i, name), line in zip(expected, lines):
        _, f, idx = exp[i]
        if not line.endswith(f": Identifier '{name}' not found") or not loc_ok(f, idx, fmt, cwd, line):
            raise Violation("location", f"reported {line!r}, but {name} is at {location(f, idx, fmt, cwd)}", expanded=want.encode("latin-1"), **d)
    g.event("includes", len(wanted))
    g.event("locations", len(expected))
    g.event("fmt_" + str(fmt))
    if any(l[0] == "inc" and l[4] is not None for f in files for l in f.lines): g.event("tab_include")
    if wanted and expected: g.mark(want)
    g.sample = {k: text(v) for k, v in d.items()}

# code line with an error, where § precedes the offending token
BAD = ["§)", "x = §= 1", "local §5", "print(1 §2)", "goto §nolabel", 'print(§"abc)', "§`", "for i §do end", "function §5() end", "a:b§=3", "local function a§.b() end",
       "x+=1§,2", "a,b§+=1", "x={1,§)}", "x=1 + §* 2", "if x §print(1) end", "if (x) then print(1) else §) end", "repeat print(1) §end", "x=f§}", "x=(1§;)", "while x §print(1) end",
       "for i=1 §do end", "local x= §end", "print(§]", "f(§=)", "x§.1=2", "x.§[1]=2", "t[§]=1", "::§4::", "goto §5"]

def prop_errors(g, ctx):
    ctx.s.clear()
    probes = []
    files = gen_project(g, ctx, probes)
    main = files[0]
    cands = [f for f in [main, *reachable(main, [])] if f.lines]
    f = g.choice(cands)
    k = g.int(0, len(f.lines))
    # (not inside of a multi-line construct)
    bad = g.choice(BAD)
    pre = g.choice(["", " ", "\t", "print(1) ", "x='\x80\x90' "])
    col = len(pre) + bad.index("§")
    mark = "\x01"
    f.lines.insert(k, ("code", pre + bad.replace("§", mark)))
    exp = expand(main)
    at = [i for i, (c, _, _) in enumerate(exp) if c == mark]
    if not at: raise Discard("not included")
    # it is in a statement position, if the code up to it is complete
    full = "".join(c for c, _, _ in exp)
    try:
        luarun.dump(full[:full.rfind("\n", 0, at[0]) + 1].encode("latin-1") + b"\n")
    except luarun.CompileError:
        raise Discard("not at a statement")
    line_no = k
    f.lines[k] = ("code", pre + bad.replace("§", ""))
    exp = expand(main)
    if exp[at[0]][1] is not f and at[0] < len(exp): raise Discard("?")
    for x in files: write(g, ctx, x)
    cwd = g.choice([os.path.dirname(main.path), ctx.s.dir])
    fmt = g.choice(["common", "absolute", "tabbed", None])
    out = ctx.s.path("out.p8")
    r = tool.run([main.path, out, g.choice(["--minify", "--lint", "--unminify", "--minify-safe-only"]), *(["--error-format", fmt] if fmt else [])], cwd=cwd)
    d = dict(main=main.path, bad=bad, output=r.out, **describe(files))
    check_ran(r, full, allow=(1,))
    if os.path.exists(out): raise Violation("output", "a cart was written though its code does not compile", **d)
    lines = r.out.split("\n")
    if lines[0] != "Compilation errors:": raise Violation("header", "no compilation errors are reported", **d)
    _, sf, idx = exp[at[0]]
    if not loc_ok(sf, idx, fmt, cwd, lines[1]):
        raise Violation("location", f"reported {lines[1]!r}, but the error is at {location(sf, idx, fmt, cwd)}", **d)
    g.event("tab" if sf.tabs() > 1 else "notab")
    g.event("main" if sf is main else "included")
    if sf is not main or sf.tabs() > 1: g.mark(full + str(fmt))
    g.sample = {k: text(v) for k, v in d.items()}

def prop_missing(g, ctx):
    ctx.s.clear()
    probes = []
    files = gen_project(g, ctx, probes)
    main = files[0]
    cands = [f for f in [main, *reachable(main, [])] if f.kind in ("p8", "lua")]
    if not cands: raise Discard("no text file")
    f = g.choice(cands)
    t = g.choice([x for x in files if x is not main and x.kind != "lua" and tabs_deep(x) < 16] or [None])
    tabcase = t is not None and not any(l[0] == "inc" for l in t.lines) and t is not f and g.bool()
    if tabcase: name = os.path.relpath(t.path, os.path.dirname(f.path)) + f":{g.int(t.tabs(), 15):x}"
    else: name = g.choice(["none.lua", "sub/none.p8", "../none.lua", "none.p8:1", "none", "f0", "a\\b.lua"])
    f.lines.insert(0, ("inc", "", name, None, None, " "))
    for x in files: write(g, ctx, x)
    # the file may be included by tab, and not the first
    for x in files:
        x.lines = [l for l in x.lines if l[0] != "inc" or l[3] is not None]
    out = ctx.s.path("out.p8")
    r = tool.run([main.path, out, *g.choice([[], ["--minify"], ["--lint"]])], cwd=ctx.s.dir)
    d = dict(main=main.path, include=name, output=r.out + r.err, **describe(files))
    check_ran(r, name.encode(), allow=(3,) if tabcase else (4,))
    if "ERROR: " not in r.err: raise Violation("message", "no message about the include", **d)
    if os.path.exists(out): raise Violation("output", "a cart was written though an include is missing", **d)
    g.event("tab" if tabcase else "file")
    g.mark(name + str(len(files)) + main.source())
    g.sample = {k: text(v) for k, v in d.items()}

CHECKS = [("splice", prop_splice, 2500, 40000), ("errors", prop_errors, 1200, 20000), ("missing", prop_missing, 200, 3000)]

# --- the known finding, and past failures

def finding_tabbed(c):
    """the line in a tab counts the lines of the file before the code"""
    c.s.clear()
    p = c.s.write("a.p8", cm_header(42) + "print(1)\nprint(zz1)\n")
    r = tool.run([p, "--lint", "--error-format", "tabbed"], cwd=c.s.dir)
    return "a.p8 (tab 0, line 5, col 7)" in r.out

FINDINGS = {"tabbed-header": finding_tabbed}

def example(files, args, want):
    def run(c):
        c.s.clear()
        for n, t in files.items(): c.s.write(n, t)
        r = tool.run(args, cwd=c.s.dir)
        check_ran(r, allow=(0, 1, 2))
        if want not in r.out: raise Violation("example", f"expected {want!r}", run=r.describe())
    return run

EXAMPLES = [
    ("tab-after-len", example({"a.lua": "#include f.p8:1\n", "f.p8": "__lua__\nx=\n#x\nprint(1)\n-->8\nprint(x) print(zz1)\n"}, ["a.lua", "--lint"], "f.p8:6:16: Identifier 'zz1'")),
    ("tab-inner-include", example({"a.lua": "#include f.p8:1\n", "g.lua": "print(2)", "f.p8": "__lua__\n#include g.lua\nprint(1)\n-->8\nprint(1)\n#include g.lua\nprint(zz1)\n"},
        ["a.lua", "--lint"], "f.p8:7:7: Identifier 'zz1'")),
    ("nested-list", example({"a.lua": "#include b.lua\n", "b.lua": "#include c.lua\n", "c.lua": "print(1)\n"}, ["a.lua", "--list-includes"], "b.lua\nc.lua\n")),
    ("unknown-expr", example({"a.lua": "x=)\n"}, ["a.lua", "--lint"], "a.lua:1:3: ")),
    ("unterminated-string", example({"a.lua": "print('abc)\nx={}\n--[['\n#include b.lua\n]]\n"}, ["a.lua", "--lint"], "a.lua:1:7: Unterminated string")),
    ("string-over-lines", example({"a.lua": "x='a\\\n#include b.lua\\\n' y='\\z\n\n #include b.lua' z='\\\r\n#include b.lua\\''\n#include c.lua\n", "c.lua": "print(zz1)\n"},
        ["a.lua", "--lint"], "c.lua:1:7: Identifier 'zz1'")),
    ("string-end-escape", example({"a.lua": "x=1\ny='\\"}, ["a.lua", "--lint"], "a.lua:2:3: Unterminated string")),
]
