from common import *
from lang import *
from syngen import SynGen
from rungen import RunGen
import tool, tron, codec, cartmodel as cm, textgen
import json, os, subprocess, sys
from props.p19 import gen_tree, gen_label, only, write_any

PID = "P18"
TECHNIQUE = "property-based testing: metamorphic - the same random commands run in several long-lived processes with different hash seeds, earlier work, directories, file creation order and order of commands, compared byte for byte; rewritten carts are rewritten once more"
NOTE = "Random search over carts, programs and option combinations of both tools. Differences must show within the sampled hash seeds (three long-lived processes per worker, and fresh ones with random seeds)."
RULE = "commands: at least one command succeeded and wrote a file, from code with at least 3 identifiers or a cart with other data. stable: the cart has contents beyond the default. Distinct by inputs and command lines"
ASSUMPTIONS = ["the time stamp in exports is fixed by the environment variable that the tool offers for it (PICO8_EXPORT_REPRO_TIME)", "messages are compared up to the directory named on the command line"]

class Worker:
    def __init__(self, seed):
        self.env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=tool.REPO)
        self.p = None
    def ask(self, args, lang, cwd):
        if self.p is None:
            self.p = subprocess.Popen([sys.executable, "-X", "utf8", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "detworker.py")],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, text=True, encoding="ascii")
        try:
            self.p.stdin.write(json.dumps(dict(args=args, lang=lang, cwd=cwd)) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line: raise RuntimeError("the worker process ended")
            return json.loads(line)
        except BaseException:
            self.close()
            raise
    def close(self):
        if self.p:
            self.p.kill()
            self.p.communicate()
            self.p = None

class DetCtx(tool.Ctx):
    def __init__(self):
        super().__init__()
        self.workers = [Worker(s) for s in (0, 1234567, 42)]
    def close(self):
        for w in self.workers: w.close()
        super().close()

def make_ctx(): return DetCtx()

def fresh(seed, args, lang, cwd):
    w = Worker(seed)
    try: return w.ask(args, lang, cwd)
    finally: w.close()

NAMES = [a + b for a in ("pos", "vel", "timer", "k", "score", "enemy", "p", "draw_it", "_q", "zz") for b in ("", "1", "_x", "s", "2")]
HINTS = ["--$preserve: pos,vel.*,*.k\n", "--$global: foo\n", "--lint: score,foo\n", "--preserve: *.*\n", "--$lint: func::_update\n", "--$preserve: foo, !bar, p*\n"]

def gen_code(g, pico=True):
    k = g.weighted([(5, "syn"), (3, "run"), (0.6, "bad"), (0.3, "none")] if pico else [(4, "run"), (0.5, "bad"), (0.3, "none")])
    if k == "none": return b""
    if k == "bad": return g.choice([b"x = \nfoo(", b"x = 1 y == 2", b"goto nowhere", b"a = \"abc\nb=2", b"local x <foo> = 1", b"x=0x", b"if a then b()", b"::a:: ::a::", b"x=1 until 3", b"break"])
    if k == "syn":
        gen = SynGen(g, names=g.choice([NAMES, None]), env=g.bool(0.2), size=g.choice([10, 25]), glyphs=g.bool(0.3))
        code = Layout(g, style=g.choice([0, 1]), comments=g.bool(0.3)).render(gen.program())
    else:
        code = RunGen(g, lang="pico8" if pico else "tron", size=g.choice([8, 20])).program()
        if isinstance(code, str): code = code.encode("latin-1")
    if g.bool(0.3): code = g.choice(HINTS).encode() + code
    if k != "bad" and g.bool(0.2): code = rename_hints(g).encode() + code
    return code

def rename_hints(g):
    """globals, members, parameters, locals and labels with rename hints (that conflict at times)"""
    out, clash = [], g.bool(0.15)
    for i in range(g.int(1, 8)):
        to = "nn" if clash and g.bool(0.4) else f"nn{i}"
        out.append(g.choice([f"--[[rename::{to}]]rg{i}={i}", f"function rf{i}(--[[rename::{to}]]rp) return rp end", f"local --[[rename::{to}]]rl{i}={i}", f"rt={{--[[rename::{to}]]rm{i}={i}}}", f"do goto rb{i} ::--[[rename::{to}]]rb{i}:: end"]) + "\n")
    return "".join(out)

MIN = ["--minify", "--minify", "--minify", "--minify-safe-only", "--minify-consts-only", "--minify-transform-only"]
FLAGS = ["--no-minify-rename", "--no-minify-consts", "--no-minify-spaces", "--no-minify-lines", "--no-minify-comments", "--no-minify-tokens", "--no-minify-reorder",
         "--rename-members-as-globals", "--rename-safe-only", "--reorder-safe-only", "--builtins-safe-only", "--ignore-hints"]

def gen_options(g, pico, name):
    args = []
    if g.bool(0.7):
        args += [g.choice(MIN)] + g.choice(FOCUSES if pico else [[]]) + g.subset(FLAGS, 0.06)
        if g.bool(0.3): args += ["--rename-map", name + ".map"]
        if g.bool(0.2): args += ["--preserve", g.choice(["pos*", "*.vel", "k,score", "enemy.*,!p", "*,!zz*"])]
        if g.bool(0.1): args += ["--no-preserve", g.choice(["print", "circfill,cls", "*.__index"])]
        if g.bool(0.1): args += [g.choice(["--const", "--str-const"]), g.choice(["DEBUG", "zz"]), g.choice(["1", "true", "abc"])]
    elif g.bool(0.4): args += ["--unminify"] + (["--unminify-indent", g.choice(["4", "tabs"])] if g.bool(0.5) else [])
    if g.bool(0.4): args += ["--lint"] + g.subset(["--no-lint-unused", "--no-lint-duplicate", "--no-lint-undefined", "--no-lint-fail"], 0.15)
    if g.bool(0.2): args += ["--error-format", g.choice(["common", "tabbed"])]
    if g.bool(0.35): args += ["--count"] + g.subset(["--parsable-count", "--input-count"] + ["--no-count-compress", "--no-count-tokenize"], 0.25)
    if g.bool(0.1): args += ["--builtin" if g.bool() else "--not-builtin", g.choice(["foo,pos", "print", "score"])]
    return args

PICO_OUT = ["p8", "p8", "p8", "lua", "png", "rom", "tiny-rom", "clip", "url"]
TRON_OUT = ["p64", "p64", "rom", "dir", "dir", "lua", "tiny-rom", "png"]
EXT = {"tiny-rom": "rom", "clip": "clip", "url": "url"}

def gen_command(g, pico, name, inputs, i):
    out = g.choice(PICO_OUT if pico else TRON_OUT)
    if out == "png" and g.bool(0.6): out = "p8" if pico else "p64"
    dst = f"{name}" + ("" if out == "dir" else "." + EXT.get(out, out))
    src = g.choice(inputs)
    args = [src, dst] if g.bool(0.93) else [src]
    if len(args) > 1: args += ["--format", out]
    args += gen_options(g, pico, name)
    if len(args) == 1: args.append("--lint")
    if pico:
        if g.bool(0.05): args.append("--old-compression")
        if g.bool(0.05): args.append("--list-includes")
        if g.bool(0.05) and len(args) > 1: args += ["--output-sections", g.choice(["lua,gfx", "code", "gfx,map"])]
        if g.bool(0.1): args += ["--title", g.choice(["my title", "x"])]
        if g.bool(0.1): args += ["--merge", g.choice(inputs), g.choice(["gfx", "lua,map", "label", "sfx,music"])]
        if g.bool(0.05): args += ["--unicode-caps"]
    else:
        if g.bool(0.15): args += ["--filter", g.choice(["*.lua", "*,!gfx/*", "*.pod,*.lua"])]
        if g.bool(0.15): args += [g.choice(["--uncompress-pods", "--keep-pod-compression", "--base64-pods"])]
        if g.bool(0.1): args += ["--delete-meta", "*"] + (["--keep-meta-keys", "x,y"] if g.bool() else [])
        if g.bool(0.1): args += ["--code-files", "*.lua"]
        if g.bool(0.1): args += ["--merge", g.choice(inputs)]
        if g.bool(0.1): args += ["--insert", g.choice(inputs), "sub/ins"]
        if g.bool(0.1): args += ["--list"]
    if g.bool(0.1): args += ["--fast-compression"]
    if g.bool(0.1): args += ["--extra-output", name + ".x" + ("p8" if pico else "p64"), "p8" if pico else "p64"]
    return args

def read_all(root):
    out = {}
    for base, dirs, names in os.walk(root):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f: out[os.path.relpath(p, root)] = f.read()
        for n in dirs: out[os.path.relpath(os.path.join(base, n), root) + "/"] = None
    return out

def put(root, files, order):
    os.makedirs(root)
    for n in order:
        p = os.path.join(root, n)
        if files[n] is None: os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f: f.write(files[n])

def gen_inputs(g, pico):
    """-> files, inputs"""
    files, inputs = {}, []
    for i in range(g.int(1, 3)):
        if pico:
            k = g.choice(["p8", "p8", "lua", "cart", "includer"])
            code = gen_code(g)
            if k == "lua": files[f"c{i}.lua"] = p8.to_text(code).encode("utf8"); inputs.append(f"c{i}.lua")
            elif k == "includer":
                files[f"inc{i}.lua"] = p8.to_text(gen_code(g)).encode("utf8")
                files[f"c{i}.p8"] = p8.write_p8(b"#include " + g.choice([f"inc{i}.lua", f"./inc{i}.lua", "missing.lua"]).encode() + b"\n" + code); inputs.append(f"c{i}.p8")
            elif k == "p8": files[f"c{i}.p8"] = p8.write_p8(code); inputs.append(f"c{i}.p8")
            else:
                m = cm.gen_model(g, 300)
                if g.bool(): m.code = code
                files[f"c{i}.p8"] = cm.write_p8(m); inputs.append(f"c{i}.p8")
        else:
            tree = gen_tree(g, 5)
            tree = {p: x for p, x in tree.items() if not p.endswith(".lua") or p == "main.lua"}
            if g.bool(0.9): tree["main.lua"] = gen_code(g, False)
            for n in ("b.lua", "sub/c.lua"):
                if g.bool(0.3): tree[n] = gen_code(g, False); tree["main.lua"] = tree.get("main.lua", b"") + b"\ninclude " + g.choice([b'"%s"', b'("%s")', b'"./%s"']) % n.encode() + b"\n"
            k = g.choice(["p64", "rom", "dir"])
            if k == "dir":
                for p, x in tree.items(): files[f"c{i}/" + p] = x
                files[f"c{i}/"] = None
                inputs.append(f"c{i}")
            else:
                files[f"c{i}.{k}"] = tron.write_p64(g, tree) if k == "p64" else tron.write_rom(g, tree)
                inputs.append(f"c{i}.{k}")
    return files, inputs

def prop_commands(g, ctx):
    ctx.s.clear()
    pico = g.bool(0.6)
    lang = "pico8" if pico else "picotron"
    files, inputs = gen_inputs(g, pico)
    cmds = [gen_command(g, pico, f"o{i}", inputs, i) for i in range(g.int(1, 3))]
    order = sorted(files)
    a, b, c = ctx.s.path("a"), ctx.s.path("bb/some where"), ctx.s.path("c")
    put(a, files, order)
    put(b, files, g.shuffled(order)[::-1])
    put(c, files, order[::-1])
    d = dict(inputs={n: repr(x)[:600] for n, x in files.items()}, commands=[" ".join(x) for x in cmds])
    n = len(cmds)
    wa, wb, wc = ctx.workers
    ra = [wa.ask(x, lang, a) for x in cmds]
    rb = dict((i, wb.ask(cmds[i], lang, b)) for i in g.shuffled(list(range(n))))
    how = g.weighted([(3, "other"), (2, "again"), (0.25, "fresh")])
    rc = []
    for x in cmds:
        if how == "fresh": rc.append(fresh(g.int(1, 1 << 31), x, lang, c))
        else: rc.append((wc if how == "other" else wa).ask(x, lang, c))
    fa, fb, fc = read_all(a), read_all(b), read_all(c)
    for what, rs, fs in (("another process, hash seed, directory and order", rb, fb), ({"other": "a third process", "again": "the same process, later", "fresh": "a fresh process"}[how], rc, fc)):
        for i in range(n):
            if ra[i]["exc"] or rs[i]["exc"]:
                if bool(ra[i]["exc"]) != bool(rs[i]["exc"]): raise Violation("crash", f"{what}: command {i} crashes only at times: {ra[i]['exc'] or rs[i]['exc']}", **d)
                continue
            for k in ("code", "out", "err"):
                if ra[i][k] != rs[i][k]: raise Violation(k, f"{what}: command {i} differs in {k}: {str(ra[i][k])[:600]!r} vs {str(rs[i][k])[:600]!r}", **d)
        if set(fa) != set(fs): raise Violation("files", f"{what}: the files written differ: {sorted(set(fa) ^ set(fs))}", **d)
        for p in fa:
            if fa[p] != fs[p]:
                at = next((j for j, (x, y) in enumerate(zip(fa[p], fs[p])) if x != y), min(len(fa[p]), len(fs[p])))
                raise Violation("bytes", f"{what}: {p} differs at byte {at} (sizes {len(fa[p])}, {len(fs[p])}): {fa[p][max(0, at - 60):at + 100]!r} vs {fs[p][max(0, at - 60):at + 100]!r}", **d)
    g.event("third: " + how)
    if any(r["code"] == 0 for r in ra): g.event("succeeded")
    if any(r["code"] in (0, 2) for r in ra) and len(fa) > len(files): g.mark(d["commands"] + [sorted(d["inputs"].items())])
    g.sample = d

# --- rewriting

def prop_stable(g, ctx):
    ctx.s.clear()
    pico = g.bool(0.7)
    opts = []
    if pico:
        fmt = g.choice(["p8", "p8", "p8", "lua", "rom", "tiny-rom", "clip", "url", "png"])
        if fmt == "png" and g.bool(0.6): fmt = "p8"
        m = cm.gen_model(g, g.choice([100, 800]))
        if g.bool(0.4): m.code = gen_code(g)
        if fmt == "lua": m.code = m.code.rstrip(b"\n") # (the line break that ends a lua file isn't part of the code)
        from props.p11 import style_of
        ctx.s.write("in.p8", cm.write_p8(m, style_of(g)))
        src = ctx.s.path("in.p8")
        if g.bool(0.1): opts.append("--unicode-caps")
        if g.bool(0.2): opts.append(g.choice(["--fast-compression", "--old-compression", "--force-compression", "--keep-compression"]))
    else:
        fmt = g.choice(["p64", "p64", "rom", "dir", "lua", "tiny-rom", "png"])
        if fmt == "png" and g.bool(0.7): fmt = "p64"
        files = gen_tree(g)
        if fmt in ("lua", "tiny-rom"): files["main.lua"] = gen_code(g, False)
        src = write_any(g, ctx, "in", g.choice(["p64", "rom", "dir"]), files, g.choice([1, 2, 3]))
        if g.bool(0.6): opts.append(g.choice(["--keep-pod-compression", "--uncompress-pods", "--base64-pods"]))
        if g.bool(0.1): opts.append("--avoid-base64")
    lang = "pico8" if pico else "picotron"
    ext = "" if fmt == "dir" else "." + EXT.get(fmt, fmt)
    d = dict(fmt=fmt, options=opts, input=repr(ctx.s.read("in.p8"))[:1500] if pico else {p: repr(x)[:200] for p, x in files.items()})
    outs = []
    for i in range(3):
        os.makedirs(ctx.s.path(str(i)))
        dst = ctx.s.path(str(i), "game" + ext)
        args = [src, dst, "--format", fmt, *opts]
        if i and fmt in ("tiny-rom", "url", "clip", "label"): args += ["--input-format", fmt]
        r = tool.run(args, lang)
        if not i and r.code == 3 and any(x in r.err for x in ("too much compressed space", "too many characters", "Unrecognized POD format")): raise Discard() # (not convertible)
        check_ran(r)
        outs.append(read_all(ctx.s.path(str(i))))
        src = dst
    first = 1 if pico and fmt in ("png", "clip") and m.meta.get("title") else 0 # (a title drawn onto a picture isn't read back)
    for i in range(first + 1, 3):
        if outs[i] != outs[first]:
            for p in sorted(set(outs[first]) | set(outs[i])):
                x, y = outs[first].get(p, b"<none>") or b"", outs[i].get(p, b"<none>") or b""
                if x != y:
                    at = next((j for j, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
                    raise Violation("unstable", f"rewriting ({i}) changes {p} at byte {at} (sizes {len(x)}, {len(y)}): {x[max(0, at - 60):at + 100]!r} vs {y[max(0, at - 60):at + 100]!r}", **d)
    g.event(fmt)
    g.mark([fmt, opts, str(d["input"])])
    g.sample = d

CHECKS = [
    ("commands", prop_commands, 2000, 30000),
    ("stable", prop_stable, 2000, 30000),
]
