from common import *
from tool import Ctx
from rungen import RunGen, Var
from mergegen import MergeGen
import lua54, tool, tron, os, shutil

PID = "P21"
TECHNIQUE = "property-based testing: random running Picotron programs and carts of several code files, executed before and after minification by the check's own interpreter of Picotron's dialect of Lua 5.4"
NOTE = ("Random search over terminating programs (alone, or split over files that include each other and share globals). The minified files must be valid syntax and produce the same events and outcome; "
    "the other files of a cart must be what a conversion without minification gives. lua54.py stands for the console.")
RULE = ("random typed, terminating programs with attributes, integer and float arithmetic, closures, varargs, goto, coroutines, shorthands, metatables; non-trivial if the program produced at least 3 events "
    "and tokens changed (carts: in two or more files). Distinct by code and command line")
ASSUMPTIONS = ["lua54.py runs programs as Picotron does (max, min and mid of an equal integer and float: as the tool folds them)", "the arguments of every console function called and the outcome are the observables"]

def make_ctx():
    return Ctx()

STEPS, MORE = 6000, 40000

def reference(files):
    t = lua54.run(files, steps=STEPS)
    if t.status == "syntax": raise Discard("not a valid program: " + t.msg[:40])
    if t.limited: raise Discard("runs for too long")
    return t

def compare(ref, files, what="output", **details):
    t = lua54.run(files, steps=MORE)
    details = dict(details, output=b"\n---\n".join(k.encode("utf8", "replace") + b":\n" + v for k, v in files.items()))
    if t.status == "syntax": raise Violation("invalid", f"{what} isn't valid: {t.msg}", **details)
    if t.limited: raise Violation("endless", f"{what} runs for (much) longer than the original", **details)
    for i, (a, b) in enumerate(zip(ref.events, t.events)):
        if a != b: raise Violation("behaviour", f"event {i} is {b[:200]!r} instead of {a[:200]!r}", **details)
    if len(ref.events) != len(t.events) or (ref.status, ref.msg) != (t.status, t.msg):
        raise Violation("behaviour", f"{len(t.events)} events instead of {len(ref.events)} ({t.status} {t.msg!r} instead of {ref.status} {ref.msg!r})", **details)

def options(g, mode):
    args = ["--minify-safe-only"] if mode == "safe" else ["--minify"]
    args += g.subset(DISABLES, 0.12)
    if mode == "full":
        args += g.subset(["--rename-safe-only", "--reorder-safe-only", "--builtins-safe-only"], 0.1)
        if g.bool(0.1): args.append("--rename-members-as-globals")
    return args

def run_tool(ctx, args, inp=None):
    r = tool.run(args, lang="picotron")
    return check_ran(r, inp)

HEADER = [b'--[[pod_format="raw",created="2024-03-13 09:03:54",modified="2024-03-14 11:00:00",revision=3]]\n', b"--[[pod_format=\"raw\"]]", b"#!picotron\n"]

def finish(g, mode, gen, code, out, args, ref):
    for u in gen.uses: g.event("uses " + u)
    if ref.status == "error": g.event("ends with an error")
    if len(ref.events) >= 3 and toks(out) != toks(code):
        g.mark(code + " ".join(args).encode())
        g.sample = dict(args=args, input=text(code), output=text(out), events=ref.events[:8])

def prop_programs(g, ctx):
    mode = g.choice(["safe", "full"])
    gen = RunGen(g, mode=mode, lang="tron", size=g.choice([4, 10, 20, 30]), consts=g.bool(0.25))
    single(g, ctx, mode, gen, gen.program().encode("latin-1"))

def prop_merges(g, ctx):
    """programs full of adjacent assignments whose order is visible"""
    mode = g.choice(["safe", "full"])
    gen = MergeGen(g, mode)
    single(g, ctx, mode, gen, gen.program().encode("latin-1"))

def single(g, ctx, mode, gen, code):
    ref = reference({"main.lua": code})
    src = code
    if g.bool(0.1): src = code.replace(b"\n", b"\r\n")
    if g.bool(0.05): src = HEADER[g.draw(1)] + src
    args = options(g, mode)
    ctx.s.write("in.lua", src)
    run_tool(ctx, [ctx.s.path("in.lua"), ctx.s.path("out.lua"), *args], src)
    out = ctx.s.read("out.lua")
    compare(ref, {"main.lua": out}, input=code, args=" ".join(args))
    finish(g, mode, gen, code, out, args, ref)

# --- carts

def chunk(gen, n):
    gen.budget, out = n, []
    if len(gen.scopes) == 1: gen.scopes.append({})
    while gen.budget > 0: out += gen.stmt()
    return gen.join(out) + "\n"

def gen_code(g, mode):
    """code files where main.lua includes some of the others, which see (and add to) its globals"""
    names = ["main.lua"] + g.shuffled(["b.lua", "lib/util.lua", "c.lua", "lib/deep/x.lua", "tools.lua"])[:g.int(1, 3)]
    consts = g.bool(0.3)
    first = RunGen(g, mode=mode, lang="tron", size=6, consts=consts, callbacks=False)
    gens, texts, uses = [], {}, first.uses
    def grow(i):
        """the text of file i; includes some of the following files that weren't included yet"""
        gen = first
        if i:
            gen = RunGen(g, mode=mode, lang="tron", size=6, consts=consts, callbacks=False)
            gen.shapes, gen.scopes, gen.uses, gen.nconsts = first.shapes, [first.scopes[0]], uses, first.nconsts
        parts = [gen.program() if not i and g.bool(0.5) else chunk(gen, g.int(2, 7))]
        first.nconsts = max(first.nconsts, gen.nconsts)
        while todo and (not i or g.bool(0.3)):
            j = todo.pop(0)
            name = names[j]
            if gen.lookup("include"): break
            kind = g.draw(3)
            texts[name] = grow(j)
            q = g.choice(['"', "'"])
            parts.append((f"include({q}{name}{q})", f"include {q}{name}{q}", f"include {q}./{name}{q}" if g.bool(0.3) else f"include {q}{name}{q}", f'include "{name}"')[kind] + g.choice(["\n", " ", ";"]))
            gen.nconsts = first.nconsts
            parts.append(chunk(gen, g.int(1, 6)))
            first.nconsts = max(first.nconsts, gen.nconsts)
        parts.append(observe(gen))
        return "".join(parts)
    todo = list(range(1, len(names)))
    texts["main.lua"] = grow(0)
    return {n: t.encode("latin-1") for n, t in texts.items()}, uses

def observe(gen):
    out = []
    for v in gen.visible():
        if v.type in ("n", "s", "b", "a", "any"): out.append(f"printh({v.name})")
        elif isinstance(v.type, tuple) and v.type[0] == "o":
            out += [f"printh({v.name}.{f})" for f, t in gen.shapes[v.type[1]].items() if t in ("n", "s", "b", "a")]
    return "\n".join(out) + "\n"

OTHERS = {"gfx/0.gfx": [b"--[[pod,created=\"2024-01-02 03:04:05\"]]{1,2,x=3}", b"--[[pod]]{}"], "readme.txt": [b"function foo() return 1 end -- not code\n", b"a  b"], "data.luax": [b"local x = 1  -- comment"],
    "notes": [b"x = 1 + 2"], "0.lua.bak": [b"print(  1 )"], "bin/a.bin": [bytes(range(256)), b""], "lib/lua": [b"  x"]}
UNUSED = [b"-- nobody includes this\nlocal v = 1\nfunction unused(par) return par + v end\n", b"  return { a = 1 }\n", b"", b"-- only a comment"]

def prop_carts(g, ctx):
    mode = g.weighted([(3, "full"), (2, "safe")])
    code, uses = gen_code(g, mode)
    ref = reference(code)
    files = dict(code)
    for n in g.subset(sorted(OTHERS), 0.25): files[n] = g.choice(OTHERS[n])
    if g.bool(0.2): files["zz.lua"] = g.choice(UNUSED)
    for n in code:
        if g.bool(0.15): files[n] = HEADER[g.draw(1)] + files[n]
    for n in list(files):
        while "/" in n:
            n = n[:n.rindex("/")]
            files[n + "/"] = None
    args = options(g, mode)
    skipped = set()
    if g.bool(0.2) and not any(b"$const" in x for x in code.values()): # what isn't chosen stays as it is (and relies on the names of globals, and of members, staying too)
        skipped = {n for n in sorted(files) if files[n] is not None and n.endswith(".lua") and g.bool(0.4)}
        pats = ["*.lua"] + ["!" + n for n in sorted(skipped)] if g.bool(0.6) else [n for n in sorted(files) if n.endswith(".lua") and n not in skipped]
        if pats: args += ["--code-files", ",".join(pats), "--preserve", "*,*.*" if mode == "full" else "*"]
        else: skipped = set()
    fmt, ofmt = g.choice(["p64", "p64", "dir", "rom"]), g.choice(["p64", "p64", "dir", "rom"])
    inp = make(g, ctx, "in", fmt, files)
    common = ["--delete-meta", g.choice(["*", "*.lua", "!*"])] if g.bool(0.5) else []
    meta = common or (["--delete-meta", "*"] if mode == "full" else [])
    plain, outp = ctx.s.path("plain." + ofmt), ctx.s.path("out." + ofmt)
    for p in (plain, outp): shutil.rmtree(p, ignore_errors=True)
    if ofmt == "dir": common += ["-f", "dir"]; meta = meta + ["-f", "dir"] if meta is not common else common
    run_tool(ctx, [inp, plain, *meta])
    run_tool(ctx, [inp, outp, *common, *args])
    want, got = load(plain, ofmt), load(outp, ofmt)
    details = dict(args=" ".join(args + common), input=b"\n---\n".join(k.encode() + b":\n" + v for k, v in files.items() if v is not None))
    if set(want) != set(got): raise Violation("files", f"files {sorted(got)} instead of {sorted(want)}", **details)
    for n in want:
        if (not n.endswith(".lua") or n in skipped) and want[n] != got[n]:
            raise Violation("touched", f"{n} was changed, though it isn't a code file", was=want[n], now=got[n], **details)
    compare(ref, {n: got[n] for n in code}, **details)
    if "zz.lua" in files and lua54.run(got["zz.lua"]).status == "syntax": raise Violation("invalid", "zz.lua isn't valid", output=got["zz.lua"], **details)
    if skipped: g.event("code files chosen")
    for u in uses: g.event("uses " + u)
    if ref.status == "error": g.event("ends with an error")
    g.event(f"{fmt} to {ofmt}")
    if len(ref.events) >= 3 and sum(toks(got[n]) != toks(code[n]) for n in code) >= 2:
        g.mark(str(sorted(code.items())) + " ".join(args))
        g.sample = dict(args=args, input={n: text(x) for n, x in code.items()}, output={n: text(got[n]) for n in code}, events=ref.events[:8])

def make(g, ctx, name, fmt, files):
    p = ctx.s.path(name + "." + fmt)
    if fmt == "dir":
        shutil.rmtree(p, ignore_errors=True)
        tron.write_dir(p, files)
    else: ctx.s.write(name + "." + fmt, (tron.write_p64 if fmt == "p64" else tron.write_rom)(g, files))
    return p

def load(path, fmt):
    if fmt == "dir": files = tron.read_dir(path)
    else:
        with open(path, "rb") as f: data = f.read()
        files = (tron.read_p64(data) if fmt == "p64" else tron.read_rom(data))[0]
    return {n: x for n, x in files.items() if x is not None and n != ".info.pod"}

CHECKS = [("programs", prop_programs, 6000, 150000), ("merges", prop_merges, 3000, 100000), ("carts", prop_carts, 3000, 80000)]
