from common import *
from tool import Ctx, REPO
import tool, tron, codec, fnmatch, textgen
from podfile import lz4_decode, lz4_encode
from picotron_fs import PicotronFile
import picotron_fs, pico_export
from tron import canon, Table, UD

PID = "P20"
TECHNIQUE = "property-based round-trips: generated pod values in every encoding are rewritten by the command line and decoded by an independent reader; lz4 against an independent decoder and encoder; metadata/payload edits against a model, as random histories"
NOTE = "Random search. The pod, pxu and lz4 decoders are the check's own (tron.py, podfile.py), written from the formats as the repository describes them; no Picotron is available."
RULE = "pods: 1-4 pod files rewritten 1-3 times. Non-trivial: a value with a table, userdata or a string that needs escapes is rewritten. lz4: at least 13 bytes. meta: at least 3 edits. delete: a file loses metadata and another doesn't"
ASSUMPTIONS = ["lua can't tell 1 and 1.0 as table keys, so they're the same key", "the case of hex digits in userdata doesn't matter", "tables with both boolean and 0/1 keys are refused by the tool", "nan can't be written in pods"]

def make_ctx():
    return Ctx()

def fail_read(what, ex, d): raise Violation("unreadable", f"{what} can't be read: {ex!r}", **d)

BADS = (codec.Bad, tron.BadCart, ValueError, IndexError, KeyError, tron.struct.error, AssertionError)

def write_cart(g, ctx, fmt, files, name):
    path = ctx.s.path(name + "." + fmt if fmt != "dir" else name)
    if fmt == "dir": tron.write_dir(path, files); return path
    data = tron.write_p64(g, files) if fmt == "p64" else tron.write_rom(g, files) if fmt == "rom" else tron.write_png(g, files)
    with open(path, "wb") as f: f.write(data)
    return path

def read_cart(path, fmt, d):
    try:
        if fmt == "dir": return tron.read_dir(path)
        with open(path, "rb") as f: data = f.read()
        return (tron.read_p64(data) if fmt == "p64" else tron.read_rom(data) if fmt == "rom" else tron.read_png(data))[0]
    except BADS as ex: fail_read(f"the {fmt}", ex, d)

def interesting(v):
    if isinstance(v, Table): return bool(v.items)
    return isinstance(v, UD) or isinstance(v, bytes) and any(c < 32 or c > 126 or c in b"\"\\'" for c in v)

def gen_meta(g, raw=False):
    items = [(k, tron.gen_value(g, 2)) for k in g.subset([b"created", b"title", b"revision", b"a b", b"end", b"x", b"]]", b"pod_type"], 0.3)]
    items = [(k, v) for k, v in items if v is not None]
    first = b"pod"
    if raw: first = b'pod_format="raw"'
    elif g.bool(0.2): first = g.choice([b'pod_format="pod"', b'pod_type="image"'])
    items = [(k, v) for k, v in items if k != b"pod_type" or not first.startswith(b"pod_type")]
    return tron.safe_meta(g, items, first)[0]

def gen_file(g):
    """-> bytes, value or None"""
    k = g.weighted([(8, "pod"), (1, "raw"), (1, "raw meta")])
    if k == "raw": return textgen.noise(g.draw(0xffff), g.int(0, 60), list(range(256))), None
    if k == "raw meta": return b"--[[" + gen_meta(g, True) + b"]]" + textgen.noise(g.draw(0xffff), g.int(0, 60), list(range(256))), None
    v = tron.gen_table(g) if g.bool(0.6) else tron.gen_value(g)
    return b"--[[" + gen_meta(g) + b"]]" + tron.encode_pod(g, v), v

def prop_pods(g, ctx):
    ctx.s.clear()
    files, values = {"main.lua": b"x=1\n"}, {}
    for name in ["a.pod", "b.pod", "gfx/0.gfx", "sfx/1.sfx"][:g.count(1, 4, 2)]:
        data, v = gen_file(g)
        files[name] = data
        if not tron.is_raw(data): values[name] = v
    runtime = None
    if g.bool(0.5):
        runtime = g.choice([5, 20, 21, 22, 30])
        files[".info.pod"] = b"--[[pod,runtime=%d]]nil" % runtime
    dirs = {p.rpartition("/")[0] + "/" for p in files if "/" in p}
    for p in dirs: files[p] = None
    fmt = g.choice(["p64", "dir", "rom", "rom"])
    path = write_cart(g, ctx, fmt, files, "in")
    history, d = [], {}
    d.update(files={k: repr(v)[:600] for k, v in files.items()}, history=history)
    for step in range(g.count(1, 3, 1.6)):
        out = g.choice(["p64", "p64", "dir", "rom", "rom"])
        mode = g.weighted([(4, ""), (2, "--uncompress-pods"), (2, "--keep-pod-compression"), (1.5, "--base64-pods"), (0.5, "-ub")])
        opts = {"-ub": ["-u", "--base64-pods"], "": []}.get(mode, [mode])
        if g.bool(0.1): opts.append("--minify-safe-only")
        dst = ctx.s.path(f"o{step}" + ("" if out == "dir" else "." + out))
        args = [path, dst, "--format", out, *opts]
        history.append(" ".join(args).replace(ctx.s.dir + "/", ""))
        check_ran(tool.run(args, "picotron"))
        got = read_cart(dst, out, d)
        if set(got) != set(files): raise Violation("files", f"files are {sorted(got)}, should be {sorted(files)}", **d)
        for p, data in files.items():
            if data is None or p == "main.lua": continue
            new = got[p]
            if mode == "--keep-pod-compression" or tron.is_raw(data):
                if new != data: raise Violation("changed", f"{p} should be left as is, but became {new[:300]!r}", **d)
                continue
            (m1, _), (m2, pay) = tron.split_meta(data), tron.split_meta(new)
            if m1 != m2: raise Violation("metadata", f"{p}: metadata became {m2!r}", **d)
            forms = set()
            try: v = tron.decode_pod(pay, forms)
            except BADS as ex: fail_read(f"{p} ({pay[:200]!r})", ex, d)
            if p in values and canon(v) != canon(values[p]): raise Violation("value", f"{p}: {values[p]!r} became {v!r}: {pay[:300]!r}", **d)
            if ("b64" in forms) != ("base64" in " ".join(opts)): raise Violation("encoding", f"{p} with {opts} has {forms}", **d)
            if mode in ("--uncompress-pods", "-ub") and forms & {"lz4", "pxu"}: raise Violation("encoding", f"{p} with {opts} has {forms}", **d)
            if mode in ("", "--base64-pods") and "pxu" in forms and runtime is not None and runtime < 21:
                if b"pxu\0\x0c" in pay: raise Violation("encoding", f"{p}: i16 pxu on a runtime that lacks it", **d)
            for f in forms or ["plain"]: g.event("written " + f)
        files, path = got, dst
    if any(interesting(v) for v in values.values()): g.mark((sorted(files.items(), key=lambda kv: kv[0]), history))
    g.sample = dict(history=history, values={k: repr(v)[:300] for k, v in values.items()})

def prop_single(g, ctx):
    """the pod format: a single pod file, with or without metadata"""
    ctx.s.clear()
    v = tron.gen_value(g)
    meta = gen_meta(g) if g.bool(0.5) else None
    body = tron.encode_pod(g, v)
    if meta is None and body.startswith(b"--[[pod"): raise Discard()
    data = (b"--[[" + meta + b"]]" if meta is not None else b"") + body
    path, dst = ctx.s.write("a.pod", data), ctx.s.path("o.pod")
    mode = g.choice([[], ["-u"], ["--base64-pods"], ["--keep-pod-compression"], ["-u", "--base64-pods"]])
    d = dict(data=repr(data)[:600], opts=mode)
    check_ran(tool.run([path, dst, *mode], "picotron"))
    with open(dst, "rb") as f: out = f.read()
    m, pay = tron.split_meta(out)
    # (a pod file that's just --[[pod]] is written without it)
    if (m if m is not None else b"pod") != (meta if meta is not None else b"pod"): raise Violation("metadata", f"metadata became {m!r}", **d)
    forms = set()
    try: got = tron.decode_pod(pay, forms)
    except BADS as ex: fail_read(repr(pay[:200]), ex, d)
    if canon(got) != canon(v): raise Violation("value", f"{v!r} became {got!r}: {pay[:300]!r}", **d)
    if mode == ["--keep-pod-compression"]:
        if pay != body: raise Violation("changed", f"payload became {pay[:300]!r}", **d)
    elif ("b64" in forms) != ("--base64-pods" in mode) or "-u" in mode and forms & {"lz4", "pxu"}: raise Violation("encoding", f"{mode} has {forms}", **d)
    if interesting(v): g.mark((data, mode))
    g.sample = dict(value=repr(v)[:300], opts=mode, forms=sorted(forms))

# --- lz4

def prop_lz4(g, ctx):
    data = textgen.gen_text(g, g.weighted([(3, 40), (4, 400), (2, 4000), (0.5, 70000)]), zero=True)
    if g.bool(0.15): data = data[:30] + textgen.noise(g.draw(0xffff), g.choice([65500, 65535, 65536, 65600, 70000]), list(range(256))) + data
    if g.bool(0.3): data += data[:g.int(0, 300)]
    d = dict(data=repr(data[:400]), size=len(data))
    for fast in (False, True):
        com = pico_export.lz4_compress(data, fast=fast)
        try: back = lz4_decode(com)
        except (codec.Bad, IndexError) as ex: fail_read(f"lz4 (fast={fast})", ex, d)
        if back != data: raise Violation("lz4", f"fast={fast}: decodes to {len(back)} bytes, the first difference is at {next((i for i, (a, b) in enumerate(zip(back, data)) if a != b), None)}", **d)
        # the format's end of block rules, which decoders may rely on
        tail, last = end_rules(com)
        if last is not None and (tail < 5 or len(data) - last < 12): raise Violation("lz4 end", f"fast={fast}: {tail} literals at the end, last match starts {len(data) - last} before the end", **d)
        if pico_export.lz4_uncompress(com) != data: raise Violation("lz4 own", f"fast={fast}: isn't read back", **d)
    if len(data) >= 13: g.mark(data)
    com = lz4_encode(data, lambda: g.bool(0.8))
    if pico_export.lz4_uncompress(com) != data: raise Violation("lz4 read", "lz4 data isn't read right", **d)
    g.sample = dict(size=len(data), start=repr(data[:60]), compressed=len(com))

def end_rules(com):
    """-> number of literals in the last block, position of the last match"""
    i = pos = 0
    last = None
    while True:
        h = com[i]; i += 1
        n = h >> 4
        if n == 15:
            while True:
                n += com[i]; i += 1
                if com[i - 1] != 255: break
        i += n; pos += n
        if i >= len(com): return n, last
        i += 2
        last = pos
        m = h & 15
        if m == 15:
            while True:
                m += com[i]; i += 1
                if com[i - 1] != 255: break
        pos += m + 4

# --- metadata & payload of a file, as a history of edits

def to_py(v):
    """the values as the tool's own api has them"""
    if isinstance(v, bytes): return v.decode(errors="surrogateescape")
    if isinstance(v, UD): return picotron_fs.UserData(to_py(v.type), v.width, v.height, to_py(v.data))
    if isinstance(v, Table): return {to_py(k): to_py(x) for k, x in v.items if x is not None}
    return v

def from_py(v):
    if isinstance(v, str): return v.encode(errors="surrogateescape")
    if isinstance(v, picotron_fs.UserData): return UD(from_py(v.type), v.width, v.height, from_py(v.data))
    if isinstance(v, dict): return Table((from_py(k), from_py(x)) for k, x in v.items())
    return v

def gen_meta_table(g):
    names = [b"title", b"runtime", b"a b", b"x", b"created", b"pod", b"\xff", b"1"]
    t = Table([(k, v) for k in g.subset(names, 0.35) if (v := tron.gen_value(g, 2)) is not None])
    if g.bool(0.3): t.items.append((1, tron.gen_value(g, 3) or 5))
    return t

def prop_meta(g, ctx):
    raw = g.bool(0.4)
    data = lambda: textgen.noise(g.draw(0xffff), g.int(0, 40), list(b"ab]-[p\n\0\xff") if g.bool(0.5) else list(range(256)))
    def value():
        v = tron.gen_value(g)
        return v if v is not None else 7 # (None stands for no payload in the api's cache)
    history = []
    d = dict(history=history)
    # the model: meta is a Table (without what tells raw from not) or None; payload is bytes or a value
    meta = gen_meta_table(g) if not raw or g.bool(0.5) else None
    payload = data() if raw else value()
    def meta_py(meta):
        m = to_py(meta)
        if raw: m["pod_format"] = "raw"
        return m
    if g.bool(0.5):
        history.append(f"create {payload!r}, {meta!r}"[:300])
        if meta is not None or not raw: f = PicotronFile.create(payload if raw else to_py(payload), meta_py(meta))
        else: f = PicotronFile.create(payload)
    else:
        text, ok = b"", True
        if not (raw and meta is None):
            text, ok = tron.safe_meta(g, [(k, v) for k, v in meta.items if k != 1], b'pod_format="raw"' if raw else b"pod")
            text = b"--[[" + text + b"]]"
        if not ok: raise Discard()
        if meta is not None: meta = Table([(k, v) for k, v in meta.items if k != 1])
        f = PicotronFile(text + (payload if raw else tron.encode_pod(g, payload)))
        history.append(f"data {f.data[:300]!r}")
    def verify():
        for what, x in (("the object", f), ("its data", PicotronFile(f.data))):
            if x.is_raw != raw: raise Violation("raw", f"{what}: is_raw is {x.is_raw}", **d)
            m = x.metadata
            want = None if meta is None else canon(Table(meta.items + ([(b"pod_format", b"raw")] if raw else [])))
            if (m if m is None else canon(from_py(m))) != want: raise Violation("metadata", f"{what}: metadata is {m!r}, should be {meta!r}", **d)
            p = x.payload
            if (p != payload) if raw else (canon(from_py(p)) != canon(payload)): raise Violation("payload", f"{what}: payload is {str(p)[:300]}, should be {str(payload)[:300]}", **d)
        try:
            rm, rp = tron.split_meta(f.data)
            gotm = None if rm is None else canon(tron.meta_values(rm))
            gotp = rp if raw else canon(tron.decode_pod(rp))
        except BADS as ex: fail_read(f"{f.data[:300]!r}", ex, d)
        if gotm != want: raise Violation("metadata", f"written as {rm!r}, should be {meta!r}", **d)
        if gotp != (payload if raw else canon(payload)): raise Violation("payload", f"written as {rp[:300]!r}, should be {str(payload)[:300]}", **d)
    verify()
    for _ in range(g.count(1, 8, 4)):
        op = g.choice(["metadata", "metadata", "key", "payload", "set_payload", "raw_payload", "raw_metadata"] + (["no metadata"] if raw else []))
        if op == "metadata":
            meta = gen_meta_table(g)
            f.metadata = meta_py(meta)
        elif op == "no metadata":
            if payload.startswith(b"--[[pod"): continue
            meta = None
            f.metadata = None
        elif op == "key":
            if meta is None: continue
            m = f.metadata
            v = tron.gen_value(g, 2)
            if v is None: continue
            m["revision"] = to_py(v)
            f.metadata = m
            meta = Table([(k, x) for k, x in meta.items if k != b"revision"] + [(b"revision", v)])
        elif op == "payload":
            payload = data() if raw else value()
            if raw and meta is None and payload.startswith(b"--[[pod"): payload = b""
            f.payload = payload if raw else to_py(payload)
        elif op == "set_payload":
            payload = data() if raw else value()
            opts = dict(compress=g.bool(), use_pxu=g.bool(), use_base64=g.bool(0.3), runtime=g.choice([5, 20, 21, 1 << 40]))
            f.set_payload(payload if raw else to_py(payload), **opts)
            op += str(opts)
        elif op == "raw_payload":
            payload = data() if raw else value()
            f.raw_payload = payload if raw else tron.encode_pod(g, payload)
        else:
            if meta is None: continue
            items = [(k, x) for k, x in gen_meta_table(g).items if k != 1]
            text, ok = tron.safe_meta(g, items, b'pod_format="raw"' if raw else b"pod")
            if not ok: continue
            meta = Table(items)
            f.raw_metadata = text
        history.append(f"{op}: {meta!r} / {payload!r}"[:400])
        verify()
    if len(history) >= 4: g.mark(history)
    g.sample = dict(history=[h[:120] for h in history], raw=raw)

# --- --delete-meta

def prop_delete(g, ctx):
    ctx.s.clear()
    files, values, raws = {"main.lua": b"--[[pod_format=\"raw\",created=1]]x=1\n"}, {}, {"main.lua": b"x=1\n"}
    metas = {"main.lua": Table([(b"pod_format", b"raw"), (b"created", 1)])}
    names = ["a.pod", "b.bin", "gfx/0.gfx", "gfx/1.gfx", "sfx/1.sfx", ".info.pod", "gfx/.info.pod"]
    for name in g.subset(names, 0.6):
        k = g.choice(["pod", "raw", "raw meta"]) if not name.endswith(".info.pod") else "pod"
        items = [(x, v) for x in g.subset([b"created", b"runtime", b"title", b"icon"], 0.5) if (v := tron.gen_value(g, 3)) is not None and (x != b"runtime" or isinstance(v, int) and not isinstance(v, bool))]
        if k == "raw":
            raws[name] = files[name] = b"d" + textgen.noise(g.draw(0xffff), g.int(0, 20), list(range(256)))
            metas[name] = None
            continue
        first = b'pod_format="raw"' if k == "raw meta" else b"pod"
        text, ok = tron.safe_meta(g, items, first)
        if not ok: items = []
        metas[name] = Table(([(b"pod_format", b"raw")] if k == "raw meta" else []) + items)
        if k == "pod":
            values[name] = tron.gen_value(g, 1)
            body = tron.encode_pod(g, values[name])
        else:
            body = raws[name] = b"d" + textgen.noise(g.draw(0xffff), g.int(0, 20), list(range(256)))
        files[name] = b"--[[" + text + b"]]" + body
    for p in {p.rpartition("/")[0] + "/" for p in files if "/" in p}: files[p] = None
    path = write_cart(g, ctx, "rom", files, "in")
    pats = g.choice(["*", "*.pod", "gfx/*", "*,!gfx/*", "*.gfx,b.bin", "*,!*.pod", "main.lua", "?.*", "[ab].*", "none"]).split(",")
    opts = ["--delete-meta", ",".join(pats)]
    keys = ["runtime"]
    if g.bool(0.5):
        keys = g.choice(["runtime", "title,runtime", "*", "t*", "*,!title", "created"]).split(",")
        opts += ["--keep-meta-keys", ",".join(keys)]
    if g.bool(0.3): opts.append(g.choice(["-u", "--keep-pod-compression"]))
    dst = ctx.s.path("o.rom")
    d = dict(files={k: repr(v)[:300] for k, v in files.items()}, opts=opts)
    check_ran(tool.run([path, dst, *opts], "picotron"))
    got = read_cart(dst, "rom", d)
    want, lost, kept = {}, 0, 0
    for p in files:
        if files[p] is None: want[p] = None; continue
        m = metas[p]
        if m is not None and globbed(pats, p):
            keep = [(k, v) for k, v in m.items if globbed(keys, k.decode())]
            if keep: m = Table([(k, v) for k, v in m.items if globbed(keys, k.decode()) or k == b"pod_format"])
            else: m = None if p in raws else Table([])
            if not (m and m.items) and p.rpartition("/")[2] == ".info.pod": continue
            lost += 1
        else:
            if p.rpartition("/")[2] == ".info.pod" and m is None: continue
            kept += 1
        want[p] = m
    if set(got) != set(want): raise Violation("files", f"files are {sorted(got)}, should be {sorted(want)}", **d)
    for p, m in want.items():
        if files[p] is None: continue
        gm, pay = tron.split_meta(got[p])
        try:
            if (None if gm is None else canon(tron.meta_values(gm))) != (None if m is None else canon(m)): raise Violation("metadata", f"{p}: metadata is {gm!r}, should be {m!r}", **d)
            if p in raws:
                if pay != raws[p]: raise Violation("payload", f"{p}: payload became {pay!r}", **d)
            elif canon(tron.decode_pod(pay)) != canon(values[p]): raise Violation("payload", f"{p}: payload became {pay!r}", **d)
        except BADS as ex: fail_read(p, ex, d)
    if lost and kept: g.mark((sorted(files.items(), key=lambda kv: kv[0]), opts))
    g.sample = dict(opts=opts, files=sorted(files))

def globbed(pats, path):
    res = False
    for p in pats:
        if p.startswith("!"):
            if fnmatch.fnmatchcase(path, p[1:]): return False
        elif fnmatch.fnmatchcase(path, p): res = True
    return res

CHECKS = [
    ("pods", prop_pods, 6000, 40000),
    ("single", prop_single, 5000, 40000),
    ("lz4", prop_lz4, 800, 12000),
    ("meta", prop_meta, 8000, 60000),
    ("delete", prop_delete, 3000, 12000),
]
