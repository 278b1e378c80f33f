from common import *
from tool import Ctx
from running import *
import os, json
import cartmodel as cm
import textgen

PID = "P23"
TECHNIQUE = "property-based testing: random programs split between a wrapping compiler, includes and embedded languages, run before and after; random edits by script hooks against a model"
NOTE = ("Random search. The compiler used only wraps its code (in a string that is executed, in rom, or as statements), so the original program is the reference. "
    "The Parens-8 compiler itself is not in the repository (a submodule) and can't be run offline.")
RULE = ("random running programs whose segments are switched between compilers; non-trivial if a compiled segment produced code and at least 3 events were seen")
ASSUMPTIONS = ["z8lua runs programs as the console does", "scripts are written as the documentation describes"]

SCRIPTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "scripts")

EXTRA = r"""
local G,loadf,event=...
local names=%r
G.execute_raw=function(code,env)
  local f,err=loadf("local "..names.."="..names.."\n"..code,"=cart","t",env)
  if not f then event("COMPILED CODE IS WRONG",err,code) error("wrong",0) end
  f()
end
""" % ",".join(luarun.CONSOLE_LOCALS)

def make_ctx():
    return Ctx()

def segment(gen, g):
    """statements, and whether they leave locals behind"""
    del gen.scopes[1:]
    gen.scopes.append({})
    gen.budget = g.choice([1, 2, 4, 8])
    out = []
    while gen.budget > 0: out += gen.stmt()
    return gen.join(out) + "\n", bool(gen.scopes[1])

def prop_compiler(g, ctx):
    ctx.s.clear()
    safe = g.bool(0.5)
    gen = RunGen(g, mode="safe" if safe else "full", size=0)
    gen.callbacks = False
    gen.builtin_names = [n for n in gen.builtin_names if n not in luarun.CONSOLE_LOCALS] # (assigning to these is local to a chunk)
    lua = g.bool(0.25)
    script = os.path.join(SCRIPTS, "wrap.lua" if lua else "wrap.py")
    cli = []
    src, ref = "", "" # what's given to the tool, and what is run for reference
    aliases = {}
    romat = 0
    kinds = set()

    def args():
        nonlocal romat
        a = []
        if g.bool(0.4): a.append("+minify")
        k = g.weighted([(3, None), (2, "+stmt"), (1, "+rom"), (1, "+safe")])
        if k == "+rom":
            a.append(f"+rom={romat}")
            romat += 0x600
        elif k: a.append(k)
        if k == "+rom" and g.bool(0.3): a.append("+safe")
        return " ".join(a)

    def spec():
        nonlocal src
        a = args()
        k = g.draw(3)
        if k == 3 and "+rom" not in a:
            name = f"w{len(aliases)}"
            aliases[name] = True
            own, rest = (a, "") if g.bool() else ("", a)
            src += f"--$def-alias: {name} = {'wrap ' + own if own else 'wrap'}\n"
            return f"{name} {rest}".rstrip()
        return f"wrap {a}".rstrip()

    compiled = False
    if g.bool(0.15):
        compiled = True
        cli += ["--default-compiler", f"wrap {args()}".rstrip()]
    n = g.int(2, 7)
    ncompiled = 0
    for i in range(n):
        if i and g.bool(0.75):
            compiled = not compiled if g.bool(0.8) else compiled
            what = spec() if compiled else "none"
            src += f"--$switch-compiler: {what}\n"
        text, leaves = segment(gen, g)
        if compiled and re.search(r"_ENV\s*[,=]", text): raise Discard("the environment is replaced in a compiled segment")
        if leaves or g.bool(0.4): text = "do\n" + text + "end\n"
        if not compiled and g.bool(0.15): # code that comes from an include
            kinds.add("dynamic include")
            src += "--$dynamic-include: lib " + text.encode("latin-1").hex() + "\n"
        else:
            src += text
            ncompiled += compiled
        ref += text
    if g.bool(0.3):
        src += "--$switch-compiler: none\n"
    for name in sorted(gen.scopes[0]):
        v = gen.scopes[0][name]
        if v.type in ("n", "s", "b", "any"):
            text = f"printh({name})\n"
            src += text
            ref += text
    ref, src = ref.encode("latin-1"), src.encode("latin-1")
    t = reference_run(ref, extra=EXTRA)
    ops = ["--minify-safe-only" if safe else "--minify"]
    if safe: ops.append("--minify")
    limited = g.bool(0.1)
    if limited: ops.append("--minify-transform-only")
    ops += g.choice(FOCUSES) + g.subset(DISABLES, 0.1)
    skipped = g.bool(0.05) and not kinds
    if skipped: ops.append("--no-minify-transform")
    d = dict(input=src, args=" ".join(ops + cli), script=script)
    ctx.s.write("in.p8", p8.write_p8(src, 42))
    r = tool.run([ctx.s.path("in.p8"), ctx.s.path("out.p8"), *ops, *cli, "--builtin", "execute_raw", "--script", script])
    check_ran(r, src)
    if "warning" in (r.out + r.err).lower(): raise Violation("warning", "unexpected warning", run=r.describe(), **d)
    got = cm.read_p8(ctx.s.read("out.p8"))
    out = got.code
    n = out.count(b"execute_raw")
    if any(got.rom[:romat]): t = reference_run(ref, extra=EXTRA, rom=bytes(got.rom)) # (programs may look at the memory)
    compare_runs(t, out, run=dict(extra=EXTRA, rom=bytes(got.rom)), **d)
    g.event("lua script" if lua else "python script")
    if ncompiled and len(t.events) >= 3:
        for k in kinds: g.event(k)
        if n: g.event("executed")
        if any(got.rom[:64]): g.event("in rom")
        g.mark(src + " ".join(ops).encode())
        g.sample = dict(args=ops + cli, input=text_of(src), output=text_of(out), events=t.events[:8])

def text_of(b): return b.decode("latin-1")

# --- embedded languages

EVALLY = r"""
local G,loadf,event=...
local sub,tonum,split,unpack,pcall=sub,tonum,split,unpack,pcall
G.evally=function(s)
  local scope,stack={},{}
  local function atom(t)
    local c=sub(t,1,1)
    if c=="." or c=="'" then return sub(t,2) end
    if c>="0" and c<="9" or c=="-" then return tonum(t) end
    local sc=scope
    while sc do
      if sc.name==t then return sc.val end
      sc=sc.up
    end
    return G[t]
  end
  local function eval(line,at)
    if #line==at then return atom(line[at]) end
    local args={}
    for i=at+1,#line do args[i-at]=atom(line[i]) end
    return atom(line[at])(unpack(args,1,#line-at))
  end
  for text in all(split(s,"\n",false)) do
    local line={}
    for t in all(split(text," ",false)) do if t~="" then add(line,t) end end
    local c=line[1]
    if c==nil then
    elseif c=="@do" then add(stack,scope)
    elseif c=="@end" then scope=deli(stack)
    elseif c=="@let" then scope={name=line[2],val=eval(line,3),up=scope}
    elseif c=="@ret" then return eval(line,2)
    elseif c=="@print" then event("ev",eval(line,2))
    elseif c=="@get" then event("ev",atom(line[2])[atom(line[3])])
    elseif c=="@set" then atom(line[2])[atom(line[3])]=atom(line[4])
    elseif line[2]=="<-" then
      local v,sc=eval(line,3),scope
      while sc and sc.name~=c do sc=sc.up end
      if sc then sc.val=v else G[c]=v end
    else eval(line,1) end
  end
end
"""

HINTED = ["q", "z", "h1", "e", "o", "bar"]

def evally_code(g, gen, names, own):
    """lines; the generator knows which globals there are"""
    glob = gen.scopes[0]
    locs, blocks, out = [], [], []
    def numeric():
        return [n for n in sorted(glob) if glob[n].type == "n"] + sorted(own)
    def atom():
        k = g.draw(5)
        if k >= 4 and locs: return g.choice(locs)
        if k >= 2 and numeric(): return g.choice(numeric())
        if k == 1: return g.choice(["-3", "7.5", "0x1f", "100"])
        return str(g.draw(9))
    def value():
        k = g.draw(3)
        if k == 3: return f"{g.choice(['max', 'min', 'band'])} {atom()} {atom()}"
        if k == 2: return f"flr {atom()}"
        return atom()
    for _ in range(g.int(1, 7)):
        k = g.weighted([(3, "print"), (3, "let"), (3, "set"), (2, "new"), (1, "do"), (1, "end"), (2, "member"), (1, "call")])
        if k == "let":
            v = value()
            locs.append(g.choice(names))
            out.append(f"@let {locs[-1]} {v}")
        elif k == "set" and (numeric() or locs):
            out.append(f"{g.choice([n for n in numeric() if not (n in glob and glob[n].ro)] + locs or ['evx'])} <- {value()}")
        elif k == "new":
            n = "ev" + g.choice(["x", "y", "z", "x2"])
            out.append(f"{n} <- {value()}")
            if n not in locs: own.add(n)
        elif k == "do":
            blocks.append(len(locs))
            out.append("@do")
        elif k == "end" and blocks:
            del locs[blocks.pop():]
            out.append("@end")
        elif k == "member":
            objs = [(n, v.type[1]) for n, v in sorted(glob.items()) if isinstance(v.type, tuple) and v.type[0] == "o" and n not in locs]
            if objs:
                n, i = g.choice(objs)
                ms = [m for m, t in sorted(gen.shapes[i].items()) if t == "n"]
                if ms:
                    m = g.choice(ms)
                    out.append(f"@get {n} .{m}" if g.bool() else f"@set {n} .{m} {atom()}")
        elif k == "call":
            out.append(f"printh '{g.choice(['x', 'a.b', 'foo', '@let'])}")
        else:
            out.append(f"@print {value()}")
    while blocks:
        blocks.pop()
        out.append("@end")
    if g.bool(0.2): out.append(f"@ret {atom()}")
    return out

def evally_text(g, lines):
    """with whitespace and as some kind of literal"""
    if g.bool(0.4): lines = [("  " if g.bool(0.3) else "") + l.replace(" ", g.choice([" ", " ", "  "])) + (" " if g.bool(0.1) else "") for l in lines]
    if g.bool(0.3): lines.insert(g.draw(len(lines)), "")
    k = g.draw(3)
    t = "\n".join(lines)
    if k == 0: return "[[" + ("\n" if g.bool() else "") + t + g.choice(["", "\n"]) + "]]"
    if k == 1: return "[==[\n" + t + "]==]"
    q = "'" if k == 2 and "'" not in t else '"'
    return q + t.replace("\n", g.choice(["\\n", "\\n", "\\10"]) if not re.search(r"\n\d", t) else "\\n") + q

def prop_sublang(g, ctx):
    ctx.s.clear()
    safe = g.bool(0.4)
    gen = RunGen(g, mode="safe" if safe else "full", size=0)
    src = ""
    cli = []
    own, hinted = set(), {}
    lang, args = g.choice(["evally", "evally2"]), ""
    for name in ["evx", "evy", "evz"]:
        if not safe and g.bool(0.1):
            h = g.choice([h for h in HINTED if h not in hinted.values()])
            hinted[name] = h
            src += f"--[[$rename::{h}]]{name}={g.draw(5)}\n"
            own.add(name)
    if hinted: g.event("hinted name")
    elif not safe and g.bool(0.2):
        src += "--$preserve: " + ", ".join(g.subset(gen.names + ["evx", "evy"], 0.3) or ["evx"]) + "\n"
    if g.bool(0.15):
        src += f"--$def-alias: lng = {lang}\n"
        lang = "lng"
    if not safe and g.bool(0.1): cli.append("--rename-members-as-globals")
    n = 0
    for i in range(g.int(1, 4)):
        text, leaves = segment(gen, g)
        if leaves or g.bool(0.4): text = "do\n" + text + "end\n"
        src += text
        for _ in range(g.draw(2)):
            n += 1
            lines = evally_code(g, gen, gen.names + ["evx", "l1"], own)
            call = f"evally({g.choice(['', ' '])}--[[{g.choice(['$', ''])}language::{lang}{g.choice(['', '', ' strict'])}]] {evally_text(g, lines)})"
            if "strict" in call: call = call.replace(" strict", "") # (errors are the business of another check)
            src += g.choice([call, f"printh({call})", f"local lv{i}={call}"]) + "\n"
    for name in sorted(own): src += f"printh({name})\n"
    src = src.encode("latin-1")
    t = reference_run(src, extra=EVALLY)
    ops = ["--minify-safe-only" if safe else "--minify"]
    if safe: ops.append("--minify")
    ops += cli + g.choice(FOCUSES) + g.subset(DISABLES, 0.1)
    d = dict(input=src, args=" ".join(ops))
    ctx.s.write("in.p8", p8.write_p8(src, 42))
    r = tool.run([ctx.s.path("in.p8"), ctx.s.path("out.p8"), *ops, "--builtin", "evally", "--script", os.path.join(SCRIPTS, "evally.py")])
    check_ran(r, src)
    if "warning" in (r.out + r.err).lower(): raise Violation("warning", "unexpected warning", run=r.describe(), **d)
    out = cm.read_p8(ctx.s.read("out.p8")).code
    compare_runs(t, out, run=dict(extra=EVALLY), **d)
    for name, h in hinted.items():
        if "--no-minify-rename" not in ops and re.search(rb"\b%s\b" % name.encode(), out):
            raise Violation("hint", f"{name} wasn't renamed to {h} everywhere", output=out, **d)
    if n and len(t.events) >= 3:
        g.mark(src + " ".join(ops).encode())
        g.sample = dict(args=ops, input=text_of(src), output=text_of(out), events=t.events[:8])


# --- lint in embedded languages

def prop_sublint(g, ctx):
    """what an embedded language defines and uses counts for the code around it, and the other way around"""
    ctx.s.clear()
    names = ["alpha", "beta", "gam", "del_", "x1", "_u"]
    builtins = ["flr", "max", "rnd"]
    lines = []      # (text, None) or (evally lines, kind)
    defined, used, uses, assigned = set(), set(), [], []
    src = ""
    line = 3
    pending = []    # errors to decide once everything is known
    def emit(text):
        nonlocal src, line
        src += text
        line += text.count("\n")
    quiet = g.subset(["undefined", "unused", "duplicate"], 0.1)
    for _ in range(g.int(1, 8)):
        k = g.weighted([(4, "lang"), (2, "assign"), (2, "use"), (1, "func")])
        if k == "assign": # at the top level, this defines
            n = g.choice(names)
            pending.append(("unused", n, line + 1, 1))
            defined.add(n); assigned.append(n)
            emit(f"{n}={g.draw(9)}\n")
        elif k == "use":
            n = g.choice(names + builtins)
            used.add(n)
            pending.append(("undefined", n, line + 1, 5))
            emit(f"add({n},1)\n" if g.bool(0) else f"add({n})\n")
        elif k == "func": # assigning within a function doesn't define
            n = g.choice(names)
            assigned.append(n)
            pending.append(("undefined-target", n, line + 1, 20))
            pending.append(("unused", n, line + 1, 20))
            emit(f"function _update() {n}={g.draw(9)} end\n")
        else:
            strict = g.bool(0.3)
            text, at = [], None
            pre = "evally(" + g.choice(["", " "])
            hint = "--[[language::evally" + (" strict" if strict else "") + "]]"
            col = len(pre) + len(hint) + 1
            here = []
            for i in range(g.int(1, 4)):
                kk = g.draw(3)
                if kk == 0 and g.bool(0.4):
                    text.append("")
                    if strict: here.append(("strict", i))
                elif kk == 1:
                    n = g.choice(names)
                    here.append(("def", n))
                    m = g.choice(names + builtins + ["5", ".zz", "'q"])
                    if m[0] not in ".'5": here.insert(len(here) - 1, ("use", m))
                    text.append(f"{n} <- {m}")
                else:
                    ms = [g.choice(names + builtins + ["5", ".zz"]) for _ in range(g.int(1, 3))]
                    here += [("use", m) for m in ms if m[0] not in ".5"]
                    text.append("@print " + " ".join(ms))
            for what, n in here:
                if what == "def": defined.add(n); assigned.append(n)
                elif what == "use":
                    used.add(n)
                    pending.append(("lang", n, line + 1, col))
                else: pending.append(("strict", n, line + 1, col))
            emit(pre + hint + "[[\n" + "\n".join(text) + "]])\n")
    ctx.s.write("in.p8", p8.write_p8(src.encode(), 42))
    strict = [x for x in pending if x[0] == "strict"]
    want = []
    if strict: # errors in the language itself
        want = [(l, c, f"evally: empty line {n}") for _, n, l, c in strict]
    else:
        for what, n, l, c in pending:
            if what == "undefined" and n not in defined and n not in builtins and "undefined" not in quiet: want.append((l, c, f"Identifier '{n}' not found"))
            elif what == "undefined-target" and n not in defined and "undefined" not in quiet: want.append((l, c, f"Identifier '{n}' not found - did you mean to use 'local' to define it?"))
            elif what == "unused" and n not in used and not n.startswith("_") and "unused" not in quiet: want.append((l, c, f"Global '{n}' is only ever assigned to, never used"))
            elif what == "lang" and n not in defined and n not in builtins: want.append((l, c, f"evally: Identifier '{n}' not found"))
    args = ["--lint", "--builtin", "evally", "--script", os.path.join(SCRIPTS, "evally.py"), *("--no-lint-" + q for q in quiet)]
    r = tool.run([ctx.s.path("in.p8"), *args])
    d = dict(input=src, args=" ".join(args), run=r.describe())
    got = sorted((int(m[1]), int(m[2]), m[3]) for m in re.finditer(r"^.*?in\.p8:(\d+):(\d+): (.*)$", r.out, re.M))
    if strict: # (reported at the end of the string)
        if sorted(m for _, _, m in got) != sorted(m for _, _, m in want) or any(not any(l <= gl <= l + 5 for l, _, m in want if m == gm) for gl, _, gm in got):
            raise Violation("lint", f"reported {got[:3]} instead of {want[:3]}", **d)
    elif got != sorted(want): raise Violation("lint", f"reported {sorted(set(got) - set(want))[:3]} too much, {sorted(set(want) - set(got))[:3]} too little", want=sorted(want), **d)
    if r.exc or r.code != (tool.ERR if strict else tool.WARN if want else tool.OK): raise Violation("status", f"exit status {r.code}", **d)
    if strict: g.event("errors in the language")
    if "lang" in src and want:
        g.mark(src + " ".join(quiet))
        g.sample = dict(args=args[:1], input=src, errors=want[:5])

# --- the hooks of scripts

OWN = b"zork"

def edit_ops(g, ctx, name, stage, code_ok, others):
    """a script's operations at a stage: [(op, *args)]"""
    out = []
    for _ in range(g.count(0, 4, 1.4)):
        k = g.weighted([(4, "rom"), (2, "copy"), (2, "fill"), (2, "append"), (2, "replace"), (1, "set"), (1, "get"), (1, "other"), (1, "write")])
        if k == "rom":
            data = bytes(textgen.noise(g.draw(0xffff), g.weighted([(3, 1), (2, 8), (1, 300)]), list(range(256))))
            out.append((k, g.draw(cm.ROM - len(data)), data.hex()))
        elif k == "copy":
            n = g.int(1, 0x400)
            out.append((k, g.draw(cm.ROM - n), g.draw(cm.ROM - n), n))
        elif k == "fill":
            n = g.int(1, 0x400)
            out.append((k, g.draw(cm.ROM - n), g.draw(255), n))
        elif k == "append":
            t = g.choice([b"\n--end", b"\nprint(1)", b"\nx=\"\x80\xff\""]) if code_ok else g.choice([b"\nprint(1)", b"\nq9=\"\x80\xff\"print(q9)"])
            out.append((k, t.hex()))
        elif k == "replace":
            out.append((k, g.choice([b"$$DATA$$", b"!mark!"]).hex(), g.choice([b"\x99\x01z", b"$$DATA$$!mark!", b"%1", b""]).hex()))
        elif k == "set": out.append((k, g.choice(["fa", "fb"]), f"{name}{stage}{g.draw(9)}"))
        elif k == "get": out.append((k, g.choice(["fa", "fb"])))
        elif k == "other": out.append((k, ctx.s.path("other.p8")))
        elif k == "write":
            f = g.choice(["p8", "rom", "png"])
            others.append((f"w{len(others)}.x", f))
            out.append((k, ctx.s.path(others[-1][0]), f))
    return out

def apply_ops(m, ops, name, fields, log, other, written):
    for op, *t in ops:
        if op == "rom":
            data = bytes.fromhex(t[1])
            m.rom[t[0]:t[0] + len(data)] = data
        elif op == "copy": m.rom[t[0]:t[0] + t[2]] = bytes(m.rom[t[1]:t[1] + t[2]])
        elif op == "fill": m.rom[t[0]:t[0] + t[2]] = bytes([t[1]]) * t[2]
        elif op == "append": m.code += bytes.fromhex(t[0])
        elif op == "replace": m.code = m.code.replace(bytes.fromhex(t[0]), bytes.fromhex(t[1]))
        elif op == "set": fields[t[0]] = t[1]
        elif op == "get":
            log.append(f"{name} field {fields.setdefault(t[0], '')}")
        elif op == "other": m.rom[:0x2000] = other.rom[:0x2000]
        elif op == "write":
            c = m.copy()
            c.rom[:0x2000] = bytes(0x2000)
            written.append((os.path.basename(t[0]), t[1], c))

def prop_hooks(g, ctx):
    ctx.s.clear()
    mini = g.bool(0.5)
    lint = g.bool(0.3)
    parsed = mini or lint
    if parsed:
        lines = []
        for _ in range(g.int(1, 6)):
            lines.append(g.choice(["zork(1)", "  zork(zork(2))", "print(\"$$DATA$$\")", "local s=\"!mark!\"", "x={\"a\",zork 'q'}", "zorc(1)", "if (x) zork(3)", "function f(zork) zork(4) end", "-- zork(5)", "\tprint(x)"]))
        code = "\n".join(lines).encode()
    else:
        code = cm.gen_code(g, 200)
        if g.bool(0.5): code += b"\n" + g.choice([b"$$DATA$$", b"!mark!", b"$$$DATA$$"])
    m = cm.gen_model(g, 0)
    m.code = code
    if g.bool(0.6): m.label = None
    other = cm.gen_model(g, 50)
    ctx.s.write("in.p8", cm.write_p8(m))
    ctx.s.write("other.p8", cm.write_p8(other))
    names = [f"s{i}" for i in range(g.weighted([(3, 1), (3, 2), (1, 3)]))]
    exts = [g.weighted([(3, ".py"), (1, ".lua")]) for _ in names]
    others = []
    pre = {n: edit_ops(g, ctx, n, "pre", not parsed, others) for n in names}
    post = {n: edit_ops(g, ctx, n, "post", True, others) for n in names}
    marks = {n: g.subset(["zork", "zorc"], 0.6) if parsed and lint else [] for n in names}
    if any(marks.values()): # (where things are isn't known anymore once a script edits the text before them)
        for n in names: pre[n] = [o for o in pre[n] if o[0] != "replace"]
    text = ""
    for n in names:
        for stage, ops in (("pre", pre[n]), ("post", post[n])):
            for op in ops: text += " ".join(map(str, (n, stage, *op))) + "\n"
        for k in marks[n]: text += f"{n} syntax {k}\n"
    ctx.s.write("ops", text)
    scripts = []
    for n, ext in zip(names, exts):
        with open(os.path.join(SCRIPTS, "hooks" + ext)) as f: t = f.read()
        if ext == ".lua":
            t = t.replace("@ME@", n)
            if not parsed: t = t.replace("return module\n", "module.preprocess_syntax_main=nil\nreturn module\n")
        elif not parsed: t += "\ndel preprocess_syntax_main\n"
        ctx.s.write(n + ext, t)
        scripts += ["--script", ctx.s.path(n + ext)]
    fmt = g.choice(["p8", "p8", "rom"])
    ops = ["--minify", *g.choice(FOCUSES)] if mini else []
    nofail = lint and g.bool(0.5)
    if lint: ops += ["--lint", "--no-lint-undefined", "--no-lint-unused", "--no-lint-duplicate"] + (["--no-lint-fail"] if nofail else [])
    rest = g.choice([[], ["a"], ["--x", "1"], ["--minify"]])
    r = tool.run([ctx.s.path("in.p8"), ctx.s.path("out." + fmt), *ops, *scripts, "--script-args", ctx.s.path("ops"), ctx.s.path("log"), *rest])
    d = dict(args=" ".join(ops), script_ops=text, scripts=names, exts=exts, run=r.describe(), code=text_of(code))
    # the model
    fields, log, written = {}, [], []
    for n in names:
        log.append(f"{n} pre {len(m.code)} {rest}")
        apply_ops(m, pre[n], n, fields, log, other, written)
    want = []
    if parsed:
        for i, l in enumerate(code.decode("latin-1").split("\n")):
            if l.startswith("--"): continue
            for k in ("zork", "zorc"):
                for x in re.finditer(r"\b%s(\(| ')" % k, l):
                    for n in names:
                        if k in marks[n]: want.append((i + 4, x.start() + 1, f"{n} says {k}"))
    failed = bool(want) and not nofail
    got = sorted((int(x[1]), int(x[2]), x[3]) for x in re.finditer(r"^.*?in\.p8:(\d+):(\d+): (.*)$", r.out, re.M))
    if got != sorted(want): raise Violation("syntax", f"reported {got[:5]} instead of {sorted(want)[:5]}", **d)
    if r.exc or r.code != (tool.WARN if failed else tool.OK): raise Violation("status", f"exit status {r.code}", **d)
    if failed:
        if ctx.s.exists("out." + fmt): raise Violation("output", "an output was written despite errors", **d)
    else:
        if mini: # minification is the business of other checks: here, it sees what the scripts made
            ctx.s.write("ref.p8", cm.write_p8(m))
            r2 = tool.run([ctx.s.path("ref.p8"), ctx.s.path("refout.p8"), *[o for o in ops if "lint" not in o]])
            check_ran(r2, m.code)
            m.code = cm.read_p8(ctx.s.read("refout.p8")).code
        for n in reversed(names):
            log.append(f"{n} post {len(m.code)} {rest}")
            apply_ops(m, post[n], n, fields, log, other, written)
        got = (cm.read_p8 if fmt == "p8" else cm.from_rom)(ctx.s.read("out." + fmt))
        e = cm.diff(m, got, ("code", "gfx", "map", "gff", "music", "sfx") + (("label", "version") if fmt == "p8" else ()))
        if mini: # (a title that comments gave)
            got.meta.pop("title", None)
            m.meta.pop("title", None)
        e = e or cm.diff(m, got, ("meta",)) if fmt == "p8" else e
        if e: raise Violation("cart", e, **d)
    glog = [re.sub(r"^(\w+ (?:pre|post) \d+) \d+", r"\1", l) for l in ctx.s.read("log").decode().split("\n")[:-1]]
    if glog != log: raise Violation("log", f"the scripts saw {glog} instead of {log}", **d)
    for name, f, c in written:
        got = {"p8": cm.read_p8, "rom": cm.from_rom, "png": cm.from_png}[f](ctx.s.read(name))
        if mini:
            got.meta.pop("title", None)
            c.meta.pop("title", None)
        e = cm.diff(c, got, ("code", "gfx", "map", "gff", "music", "sfx") + (("label", "meta", "version") if f == "p8" else ()))
        if e: raise Violation("written", f"in a cart written by a script ({f}): {e}", **d)
        g.event("written by scripts")
    if len(names) > 1: g.event("several scripts")
    if ".lua" in exts: g.event("lua scripts")
    if want: g.event("errors by scripts")
    if text:
        g.mark(text + " ".join(ops))
        g.sample = dict(args=ops, ops=text[:1500], log=log)

# --- across compilers

def prop_crossing(g, ctx):
    """locals and labels aren't available to code that's compiled differently: that's an error where they're used"""
    ctx.s.clear()
    src, line = "", 3
    def emit(t):
        nonlocal src, line
        src += t
        line += t.count("\n")
    seg, segs = 0, 0 # 0: not compiled
    locs = {} # visible locals -> segment; None: global
    want, late = [], []
    labels = {} # label -> segment, in the outermost block
    gotos = []
    stack = []
    nl = 0
    for _ in range(g.int(5, 30)):
        k = g.weighted([(5, "switch"), (6, "local"), (8, "use"), (2, "do"), (2, "end"), (2, "label"), (2, "goto"), (2, "func")])
        if k == "switch" and not stack:
            if g.bool(0.4):
                seg = 0
                emit("--$switch-compiler: none\n")
            else:
                segs += 1
                seg = segs
                emit("--$switch-compiler: wrap" + g.choice(["", " +stmt", " +minify"]) + "\n")
        elif k == "local":
            n = g.choice("abc")
            emit(f"local {n}={g.draw(9)}\n")
            locs = {**locs, n: seg}
        elif k == "use":
            n = g.choice("abc")
            if locs.get(n, seg) != seg: want.append((line + 1, 7, f"cannot use a local '{n}' across a compiler switch - try using a global instead"))
            emit(g.choice([f"print({n})\n", f"zz[1]={n}\n", f"yield({n},{g.draw(9)})\n"]))
        elif k == "func":
            n = g.choice("abc")
            if locs.get(n, seg) != seg: want.append((line + 1, 22, f"cannot use a local '{n}' across a compiler switch - try using a global instead"))
            emit(f"function fn() return {n} end\n")
        elif k == "do":
            stack.append(locs)
            emit("do\n")
        elif k == "end" and stack:
            locs = stack.pop()
            emit("end\n")
        elif k == "label" and not stack:
            nl += 1
            labels[f"l{nl}"] = seg
            emit(f"::l{nl}::\n")
        elif k == "goto":
            gotos.append((line + 1, seg))
            emit(f"do goto @{len(gotos) - 1} end\n")
    while stack:
        stack.pop()
        emit("end\n")
    for i, (l, s) in enumerate(gotos):
        t = g.choice(sorted(labels)) if labels else None
        if not t:
            src = src.replace(f"do goto @{i} end", "do end")
            continue
        src = src.replace(f"do goto @{i} end", f"do goto {t} end", 1)
        if labels[t] != s: late.append((l, 9, f"Cannot goto label {t} across a compiler switch"))
    ctx.s.write("in.p8", p8.write_p8(src.encode(), 42))
    args = ["--minify", "--builtin", "execute_raw", "--script", os.path.join(SCRIPTS, "wrap.py")]
    r = tool.run([ctx.s.path("in.p8"), ctx.s.path("out.p8"), *args])
    d = dict(input=src, args=" ".join(args), run=r.describe())
    got = sorted((int(x[1]), int(x[2]), x[3]) for x in re.finditer(r"^.*?in\.p8:(\d+):(\d+): (.*)$", r.out, re.M))
    want = sorted(want + late)
    if got != want: raise Violation("crossing", f"reported {sorted(set(got) - set(want))[:3]} too much, {sorted(set(want) - set(got))[:3]} too little", want=want, **d)
    if r.exc or r.code != (tool.ERR if want else tool.OK): raise Violation("status", f"exit status {r.code}", **d)
    if want and ctx.s.exists("out.p8"): raise Violation("output", "an output was written despite errors", **d)
    if late: g.event("gotos")
    if want:
        g.mark(src)
        g.sample = dict(input=src, errors=want)

# --- the functions that scripts have

def prop_api(g, ctx):
    ctx.s.clear()
    m = cm.gen_model(g, 30)
    ctx.s.write("in.p8", cm.write_p8(m))
    text, want = "", []
    def num():
        return g.weighted([(4, lambda: str(g.draw(255))), (1, lambda: "0x%x" % g.draw(0x7fff)), (1, lambda: "-" + str(g.draw(300))),
            (1, lambda: "0x%04x.%04x" % (g.draw(0xffff), g.draw(0xffff)))])()
    for _ in range(g.int(1, 12)):
        k = g.weighted([(3, "peek"), (3, "peek2"), (3, "peek4"), (3, "poke"), (3, "poke2"), (3, "poke4"), (2, "memcpy"), (2, "memset"), (2, "utf8"), (1, "mem"), (1, "zero"), (2, "fix"), (2, "str")])
        at = g.draw(0x4200)
        if k.startswith("peek"):
            a = [str(at)] + ([str(g.int(1, 9))] if g.bool(0.4) else [])
        elif k.startswith("poke"):
            a = [str(at)] + [num() for _ in range(g.weighted([(4, 1), (2, 2), (1, 7)]))]
        elif k == "memcpy": a = [str(at), str(g.draw(0x4200) if g.bool(0.6) else max(0, at - g.draw(20))), str(g.draw(0x100))]
        elif k == "memset": a = [str(at), str(g.draw(255)), str(g.draw(0x100))]
        elif k in ("utf8", "mem", "str"):
            data = bytes(g.choice([g.draw(255), 13, 10, 0, 34, 92, 48]) for _ in range(g.count(0, 40, 10)))
            a = [data.hex()]
            if k == "utf8": want.append(f"utf8 {p8.to_text(data).encode('utf8').hex()} {data.hex()}")
            if k == "mem": want.append("mem " + data.hex())
            if k == "str": want.append(f"str {data.hex()} ")
        elif k == "zero":
            n = g.draw(40)
            a = [str(n)]
            want.append("zero " + "00" * n)
        elif k == "fix":
            v = g.draw_from(0xffffffff, lambda r: r.choice([r.getrandbits(32), r.getrandbits(16) << 16, r.getrandbits(5), 0x80000000, 0xffffffff, 0x7fff0000]))
            a = ["0x%04x.%04x" % (v >> 16, v & 0xffff)]
            want.append("fix %d 0x%04x.%04x" % (v, v >> 16, v & 0xffff))
        text += " ".join([k, *a]) + "\n"
    ctx.s.write("ops", text)
    r = tool.run([ctx.s.path("in.p8"), ctx.s.path("out.p8"), "--script", os.path.join(SCRIPTS, "api.lua"), "--script-args", ctx.s.path("ops"), ctx.s.path("log")])
    d = dict(ops=text, run=r.describe())
    if r.exc or r.code: raise Violation("failed", f"exit status {r.code}", **d)
    log = ctx.s.read("log").decode().split("\n")[:-1]
    d["log"] = log
    got = []
    i = 0
    while i < len(log):
        if log[i].startswith("different"): raise Violation("memory", log[i], **d)
        if " native" in log[i]:
            a, b = log[i], log[i + 1]
            if a.split()[2:] != b.split()[2:]: raise Violation("api", f"{b} instead of {a}", **d)
            i += 1
        else: got.append(log[i])
        i += 1
    if got != want: raise Violation("api", f"{[x for x, y in zip(got, want) if x != y][:1]} instead of {[y for x, y in zip(got, want) if x != y][:1]}", **d)
    g.mark(text)
    g.sample = dict(ops=text, log=log[:10])

CHECKS = [("compiler", prop_compiler, 1500, 40000), ("sublang", prop_sublang, 1500, 40000), ("sublint", prop_sublint, 1000, 20000),
    ("hooks", prop_hooks, 700, 15000), ("crossing", prop_crossing, 1000, 20000), ("api", prop_api, 700, 10000)]
