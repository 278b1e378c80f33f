from common import *
from tool import Ctx
import cartmodel as cm
import codec, os, textgen
from props import p11

PID = "P13"
TECHNIQUE = "model-based property testing: random histories of merge, label, title, version and section options over random carts, against a plain model of a cart"
NOTE = ("Random search. Histories of one to four commands, each with up to four merges (from p8, png, rom, lua, label and sprite sheet files), a label image, title "
    "lines, a version option or a restriction of the written sections; in place or to a new file of another format. The resulting file is read by the check's own reader.")
RULE = ("random base and source carts with random contents in every section; after each command every section of the output is compared with the model. "
    "Non-trivial: at least one merged section really differs between the base and the source")
ASSUMPTIONS = ["a title set by option and a merged title section in one command are not combined (their order is not documented)",
               "merging metadata that the source does not have removes it or leaves it empty"]

def make_ctx():
    return Ctx()

SECTIONS = ["lua", "gfx", "map", "gff", "sfx", "music", "label"]

def merge_model(m, src, sections):
    for s in sections:
        if s == "lua": m.code = src.code
        elif s == "label": m.label = src.label
        elif s.startswith("meta:"):
            k = s[5:]
            if src.meta.get(k): m.meta[k] = list(src.meta[k]) # (an existing one keeps its place)
            else: m.meta.pop(k, None)
        else:
            a, b = cm.AREAS[s]
            m.rom[a:b] = src.rom[a:b]

def gen_source(g, ctx, name):
    """-> path, args for the format, model of what the file holds, format kind"""
    kind = g.weighted([(4, "p8"), (2, "png"), (1, "rom"), (1, "lua"), (0.7, "label"), (0.7, "spritesheet"), (0.5, "url")])
    if kind in ("label", "spritesheet"):
        m = cm.Model()
        colors = textgen.noise(g.draw(0xffff), 16384, list(range(32 if kind == "label" else 16)))
        if g.bool(0.2): colors = bytes(16384)
        if kind == "label": m.label = colors
        else: m.rom[:0x2000] = cm.rom_gfx(colors)
        return ctx.s.write(name + ".png", codec.png_write(128, 128, cm.image_of(colors))), m, kind
    m = cm.gen_model(g, 200)
    if kind == "url": m.rom[:0x2000] = bytes(m.rom[:128]).ljust(0x2000, b"\0")
    return p11.write_input(ctx, g, m, kind, name), m, kind

def gen_meta_sections(g, m, src):
    names = [n for n in [*m.meta, *src.meta, "title", "nope"] if " " not in n] # (a list of sections is split at spaces)
    return ["meta:" + n for n in g.subset(sorted(set(names)), 0.3)]

def state(m, what):
    return tuple((w, m.code if w == "lua" else m.label if w == "label" else m.area(w)) for w in what)

def prop_merge(g, ctx):
    ctx.s.clear()
    m = cm.gen_model(g, 200)
    kind = g.weighted([(4, "p8"), (2, "png"), (1, "rom")])
    path = p11.write_input(ctx, g, m, kind)
    changed = False
    history = []
    for step in range(g.count(1, 4, 2)):
        args = []
        titled = g.bool(0.3)
        if titled:
            lines = [cm.gen_title_line(g) for _ in range(g.int(1, 2))]
            if any(l.startswith(b"-") for l in lines): lines = [b"t" + l for l in lines]
            args += [a for l in lines for a in ("--title", p8.to_text(l))]
        before = m.copy()
        ops = []
        for i in range(g.weighted([(1, 0), (4, 1), (3, 2), (1, 3), (0.5, 4)])):
            spath, src, skind = gen_source(g, ctx, f"s{step}_{i}")
            if skind == "label": secs = ["label"]
            elif skind == "spritesheet": secs = ["gfx"]
            else:
                secs = g.subset(SECTIONS, 0.35)
                if not titled: secs += gen_meta_sections(g, m, src)
                if not secs: secs = [g.choice(SECTIONS)]
                secs = g.shuffled(secs)
            sep = g.choice([",", ", ", ",", " , "])
            args += ["--merge", spath, sep.join(secs)]
            if skind in ("label", "spritesheet") or g.bool(0.2): args += [skind]
            ops.append((src, secs))
            history.append((skind, secs))
        if titled:
            ls = [p8.to_text(l) for l in lines]
            m.meta["title"] = ls
        for src, secs in ops: merge_model(m, src, secs)
        if g.bool(0.2):
            lab = textgen.noise(g.draw(0xffff), 16384, list(range(32)))
            args += ["--label", ctx.s.write(f"label{step}.png", codec.png_write(128, 128, cm.image_of(lab)))]
            m.label = lab
            history.append("--label")
        k = g.weighted([(5, None), (1, "output"), (1, "string"), (1, "update")])
        if k == "output":
            v = cm.gen_version(g)
            args += ["--output-version", str(v)]
            m.set_version(v)
        elif k == "string":
            v = g.choice(sorted(cm.TUPLES))
            t = cm.TUPLES[v]
            args += ["--output-version", "v%d.%d.%d%s" % (*t[:3], "abcdefg"[t[3]] if t[3] else "")]
            m.set_version(v)
        elif k == "update":
            args.append("--update-version")
            m.set_version(cm.DEFAULT_VERSION)
        if k: history.append(args[-2:] if k != "update" else "update")
        prev, kind = kind, g.weighted([(5, "p8"), (2, "png"), (1, "rom")])
        if m.version > 255: kind = "p8"
        sections = None
        if kind != "p8" and g.bool(0.35):
            args.append("--keep-compression") # (of code that was not replaced, or comes from a compressed cart)
            history.append("keep compression")
        if kind == "p8" and g.bool(0.25):
            sections = g.subset(SECTIONS, 0.4) + ["meta:" + n for n in g.subset(sorted(n for n in m.meta if " " not in n) + ["title"], 0.5)]
            if not sections: sections = ["gfx"]
            args += ["--output-sections", ",".join(sections)]
        if kind == prev and g.bool(0.3):
            out = path
            r = tool.run([path, "-i", *args])
        else:
            out = ctx.s.path(f"o{step}.{p11.EXT[kind]}")
            r = tool.run([path, out, *args])
        d = dict(history=history, run=r.describe())
        if r.exc or r.code: 
            check_ran(r, m.code)
        if kind == "p8" and sections is not None:
            want = cm.Model()
            want.set_version(m.version)
            merge_model(want, m, sections)
            want.meta = {k: v for k, v in m.meta.items() if "meta:" + k in sections} # in the order of the cart
            m = want
            got = p11.verify(kind, out, m, None, False, d)
            bad = [s for s in got.sections if s not in sections]
            if bad: raise Violation("section", f"sections {bad} were written", **d)
            if ("lua" in sections) != ("lua" in got.sections): raise Violation("section", "lua section is missing", **d)
            history.append(["only", *sections])
        else:
            got = p11.verify(kind, out, m, None, False, d)
        if any(state(before, [s]) != state(src, [s]) for src, secs in ops for s in secs if not s.startswith("meta:")): changed = True
        for _, secs in ops:
            for s in secs: g.event("merge " + s.split(":")[0])
        p11.forget(m, kind, True)
        if kind == "png": m.label = cm.label_of_rows(got.rows, 16, 24)
        path = out
    if changed:
        g.mark(repr((history, m.code, bytes(m.rom))))
        g.sample = dict(history=history)

def prop_refuse(g, ctx):
    """unknown sections are refused and nothing is written"""
    ctx.s.clear()
    m = cm.gen_model(g, 60)
    path = p11.write_input(ctx, g, m, "p8")
    spath, src, skind = gen_source(g, ctx, "s")
    secs = g.subset(SECTIONS, 0.3)
    bad = g.choice(["luaa", "code", "GFX", "meta", "version", "sound", "*", "gf x", "labels"])
    secs.insert(g.draw(len(secs)), bad)
    inplace = g.bool()
    with open(path, "rb") as f: before = f.read()
    out = ctx.s.path("o.p8")
    r = tool.run([path, "-i" if inplace else out, "--merge", spath, ",".join(secs), *([skind] if skind in ("label", "spritesheet") else [])])
    if r.exc or r.code == 0: check_ran(r, None, (3,))
    if r.code != 3 or "ERROR" not in r.err: raise Violation("refusal", f"exit {r.code}", run=r.describe())
    with open(path, "rb") as f:
        if f.read() != before: raise Violation("refusal", "the input file was changed", run=r.describe())
    if os.path.exists(out): raise Violation("refusal", "an output was written", run=r.describe())
    g.mark(repr(secs))
    g.sample = dict(sections=secs)

CHECKS = [("merge", prop_merge, 500, 40000, {"timeout": 200}), ("refuse", prop_refuse, 60, 2000)]
