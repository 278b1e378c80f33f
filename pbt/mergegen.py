"""dense programs about the order of adjacent assignments: locals captured at several depths, globals, members, indexes, functions
that read or write them, builtins that call back or access tables; and (safe mode) metamethods and _ENV that observe the order"""

class MergeGen:
    def __init__(self, g, mode):
        self.g, self.mode = g, mode
        self.uses = set()

    def program(self):
        g = self.g
        safe = self.mode == "safe"
        self.locals = g.choice([["x", "y"], ["x", "y", "z"], ["x"]])
        self.globals = g.choice([["gx", "gy"], ["gx"], ["gx", "gy", "gz"]])
        self.members = g.choice([["m"], ["m", "n"]])
        self.depth = g.int(0, 2)
        out = []
        out.append("local " + ",".join(self.locals) + "=" + ",".join(str(i + 1) for i in range(len(self.locals))))
        for i, n in enumerate(self.globals):
            out.append(f"{n}={i + 11}")
        mk = lambda base: "{" + ",".join([str(base), str(base + 1)] + [f"{m}={base + 2 + i}" for i, m in enumerate(self.members)]) + "}"
        out.append("local t=" + mk(21))
        out.append("gt=" + mk(31))
        self.tables = ["t", "gt"]
        # (lengths are asked only of a table without holes and without named members: any other has no definite length)
        out.append("local q={41,42,43}" if g.bool() else "q={41,42,43}")
        if g.bool(0.3):
            out.append("local u=t"); self.tables.append("u")
        self.readers, self.writers, self.multis = [], [], []
        # most programs are about one variable and the functions that access it
        self.hot = g.choice(self.locals[:1] + self.globals[:1] + ["t.m", "gt.m", "t[1]"]) if g.bool(0.3) else self.locals[0]
        for i in range(g.int(1, 3)):
            out.append(self.func(i))
        self.env = False
        if safe and g.bool(0.5):
            out.append(self.meta())
        if g.bool(0.25):
            self.uses.add("coroutine")
            tgt = g.choice(self.locals + self.globals + [f"t.{self.members[0]}"])
            out.append(f"local co=cocreate(function() while true do printh({tgt}) {tgt}={g.int(100, 120)} yield() end end)")
            self.co = True
        else:
            self.co = False
        for i in range(g.int(1, 3)):
            k = g.weighted([(3, "plain"), (2, "func"), (1, "do"), (1, "if"), (1, "loop"), (2, "env")] if safe else [(3, "plain"), (2, "func"), (1, "do"), (1, "if"), (1, "loop")])
            body = self.seq()
            if k == "plain": out.append(body)
            elif k == "do": out.append(f"do {body}\nend")
            elif k == "if": out.append(f"if {g.choice(['true', 'gx', 'not nil'])} then\n{body}\nend")
            elif k == "loop": out.append(f"for i=1,{g.int(1, 2)} do\n{body}\nend")
            elif k == "func":
                out.append(f"local function fn(...)\n{self.seq(vararg=True)}\nend fn({g.choice(['', '1', '1,2', '1,2,3'])})")
            else:
                self.uses.add("_ENV")
                if g.bool(0.5):
                    p = "pr"
                    out.append("do local pr,smt=printh,setmetatable local acc=0 local function ex(k) acc=acc+1 " + g.choice([
                        f"pr({self.locals[0]})", f"{self.locals[0]}=acc", "pr(acc)", ""]) + f" return {g.choice(self.locals + ['acc'])} end")
                    env = g.weighted([(4, "smt({},{__index=function(_,k) return ex(k) end})"),
                                      (3, "smt({},{__index=function(_,k) return ex(k) end,__newindex=function(s,k,v) pr(v) pr(" + g.choice(self.locals) + ") " + g.choice(["", "acc=v "]) + "end})"),
                                      (1, "smt({},{__index=_ENV})")])
                    self.env = True
                    out.append(f"local _ENV={env}\n{self.seq()}\n" + "".join(f"pr({v})" for v in self.locals) + " end")
                    self.env = False
                else:
                    self.uses.add("_ENV use")
                    out.append(f"_ENV[{g.choice([chr(34) + x + chr(34) for x in self.globals])}]={g.int(50, 60)}\n" + self.seq())
        out.append(self.dump())
        return "\n".join(out) + "\n"

    def dump(self):
        p = "pr" if self.env else "printh"
        s = " ".join(f"{p}({v})" for v in self.locals)
        if not self.env:
            s += " " + " ".join(f"{p}({v})" for v in self.globals) + " " + " ".join(f"{p}({t}[1]) {p}({t}[2]) {p}({t}.{m})" for t in ("t", "gt") for m in self.members) + " printh(#q)"
        return s

    def func(self, i):
        """a function, wrapped in some depth of functions, that reads or writes something"""
        g = self.g
        v = g.choice(self.locals + self.globals + [f"t.{m}" for m in self.members] + [f"gt.{self.members[0]}", "t[1]", "gt[1]", "t[2]", "#q", "gt"])
        w = g.choice([x for x in (self.locals + self.globals + ["t.m", "t[1]", "gt.m", "gt[2]"])])
        if g.bool(0.6): v = self.hot
        if g.bool(0.5) and self.hot: w = self.hot
        kind = g.weighted([(5, "read"), (4, "write"), (2, "multi")])
        n = g.int(300, 330)
        if kind == "read": body = f"return {v}" if v not in ("gt",) else "return gt.m"
        elif kind == "write" and g.bool(0.12):
            tb = g.choice(["t", "gt"])
            body = f"{tb}={{{n},{n + 1},m={n + 2}}}" + g.choice(["", f" return {n}", f" return {tb}.m"])
        elif kind == "write": body = g.choice([f"{w}={n} return {v}" if v != "gt" else f"{w}={n}", f"{w}={n} return {n + 1}", f"local old={w} {w}={n} return old", f"{w}={n}"])
        else: body = f"return {v if v != 'gt' else 'gt.m'},{w},{n}"
        name = f"f{i}"
        depth = g.weighted([(3, 0), (3, 1), (2, 2)])
        expr = f"function() {body} end"
        for d in range(depth):
            expr = f"function() return {expr} end"
        style = g.weighted([(4, "localfn"), (3, "global"), (2, "method"), (1, "meta")]) if depth == 0 else g.choice(["local", "global", "member"])
        calls = "()" * depth
        if style == "localfn": s, call = f"local function {name}() {body} end", f"{name}()"
        elif style == "method": s, call = f"ob{i}={{}} function ob{i}:get() {body} end", f"ob{i}:get()"
        elif style == "meta":
            if self.mode == "full": s, call = f"local {name}={expr}", f"{name}()"
            else: s, call = f"local {name}=setmetatable({{}},{{__call={expr}}})", f"{name}()"
        else:
            tgt = dict(local=f"local {name}", member=f"t.{name}").get(style, name)
            s = f"{tgt}=({expr}){calls}" if calls else f"{tgt}={expr}"
            call = f"{tgt.replace('local ', '')}()"
        if depth: self.uses.add(f"closure depth {depth}")
        dict(read=self.readers, write=self.writers, multi=self.multis)[kind].append(call)
        return s

    def meta(self):
        g = self.g
        self.uses.add("metatable")
        self.meta_focus = g.bool()
        obs = self.locals[0] if self.meta_focus else g.choice(self.locals + self.globals + ["rawget(t,1)", "rawget(t,'m')"])
        act = g.choice([f"printh({obs})", f"printh({obs}) {g.choice(self.locals)}={g.int(400, 420)}", f"{g.choice(self.globals)}={g.int(400, 420)}", f"printh({obs}) rawset(t,{g.choice(['1', '2', chr(39) + 'm' + chr(39)])},{g.int(400, 420)})"])
        events = g.subset(["__index", "__newindex", "__add", "__concat", "__len", "__eq", "__lt", "__unm", "__call"], 0.4) or ["__index"]
        if g.bool(0.3): events += g.subset(["__unm", "__bnot", "__band", "__shl", "__idiv", "__le", "__mod", "__pow", "__lshr", "__bxor"], 0.3)
        events = list(dict.fromkeys(events))
        if self.meta_focus: events = events[-2:]
        parts = []
        for e in events:
            if e == "__newindex": parts.append(f"__newindex=function(s,k,v) {act} {g.choice(['', 'rawset(s,k,v) '])}end")
            else: parts.append(f"{e}=function() {act} return {g.choice([obs, '7', 'nil'])} end")
        tgt = "t" if self.meta_focus else g.choice(["t", "gt"])
        clear = g.choice(["", f" {tgt}.m=nil", f" {tgt}[1]=nil", f" {tgt}.m=nil {tgt}[1]=nil {tgt}[2]=nil"])
        self.metas = (tgt, events)
        return f"setmetatable({tgt},{{{','.join(parts)}}}){clear}"

    metas = None

    def targets(self, n):
        g = self.g
        out = []
        for i in range(n):
            if g.bool(0.3) and (not self.env or self.hot in self.locals):
                out.append(self.hot)
                continue
            out.append(g.weighted([(4, g.choice(self.locals)), (3, g.choice(self.globals)), (2, f"{g.choice(self.tables)}.{g.choice(self.members)}"),
                (1.5, f"{g.choice(self.tables)}[{g.choice(['1', '2', '3', self.locals[0]])}]"), (0.3, f"{g.choice(self.tables)}.{g.choice(self.members)}") if not self.env else (0, "x")]))
        if self.env: out = [o if "t" not in o.split(".")[0].split("[")[0] or o in self.locals else g.choice(self.globals) for o in out]
        return out

    def source(self, last=False, vararg=False):
        g = self.g
        if self.env:
            return g.weighted([(3, str(g.int(1, 99))), (3, g.choice(self.globals)), (3, g.choice(self.locals)), (1, "ex()"), (1, "other"), (0.5, f"(function() return {g.choice(self.locals)} end)()")])
        t = g.choice(self.tables)
        opts = [(4, str(g.int(1, 99))), (3, g.choice(self.locals)), (2, g.choice(self.globals)), (2, f"{t}.{g.choice(self.members)}"), (1.5, f"{t}[{g.choice(['1', '2', self.locals[0]])}]"),
                (0.7, "#q"), (0.5, f"{{{g.choice(self.locals + self.globals)}}}"), (0.4, f"function() return {g.choice(self.locals + self.globals)} end"),
                (0.5, f"{g.choice(self.locals + self.globals)}=={g.choice(self.locals + self.globals)}"), (0.5, f"not {g.choice(self.locals)}"),
                (0.5, f"{g.choice(self.locals)} and {g.choice(self.globals)}"), (0.4, f"({g.choice(self.locals)} or 0)..''" if False else f"type({g.choice(self.locals)})"),
                (0.4, f"add(q,{g.int(1, 99)})"), (0.4, "deli(q)"), (0.3, f"del(q,{g.choice(self.locals)})"), (0.3, f"rawget({t},1)"), (0.3, "rawlen(q)"), (0.3, "select('#',unpack(q))"),
                (0.3, f"count(q,{g.int(40, 45)})"), (0.3, f"({t}[2])"), (0.25, f"pack({g.choice(self.locals)}).n"), (0.2, f"rawset({t},1,{g.int(1, 99)})[1]")]
        if self.readers: opts.append((8, g.choice(self.readers)))
        if self.writers: opts.append((5, g.choice(self.writers)))
        if self.multis: opts.append((4, g.choice(["", "("]) + g.choice(self.multis)))
        if self.co: opts.append((1.5, "coresume(co)"))
        if self.readers: opts.append((0.5, f"foreach({{1}},function() printh({g.choice(self.readers)}) end)"))
        if vararg: opts.append((1.5, "..."))
        if self.metas:
            tgt, events = self.metas
            op = dict(__add=f"{tgt}+1", __concat=f"{tgt}..'a'", __len=f"#{tgt}", __eq=f"{tgt}=={{}}", __lt=f"{tgt}<{tgt}", __unm=f"-{tgt}", __call=f"{tgt}()", __index=f"{tgt}.zz", __newindex="1",
                __bnot=f"~{tgt}", __band=f"1&{tgt}", __shl=f"{tgt}<<1", __idiv=f"{tgt}\\2", __le=f"{tgt}>={tgt}", __mod=f"7%{tgt}", __pow=f"{tgt}^2", __lshr=f"{tgt}>>>1", __bxor=f"{tgt}^^1")
            e = op[g.choice(events)]
            opts.append((14 if self.meta_focus else 4, g.weighted([(6, e), (1, f"({e})"), (1, f"{g.choice(self.locals)} and {e}"), (1, f"not ({e})"), (0.5, f"{{{e}}}")])))
        s = g.weighted(opts)
        if s.startswith("(") and not s.endswith(")") or (s.startswith("(") and s.count("(") > s.count(")")): s += ")"
        return s

    def seq(self, vararg=False):
        g = self.g
        out = []
        for i in range(g.int(2, 7)):
            k = g.weighted([(8, "assign"), (4, "local"), (0.7, "op"), (1, "print"), (0.6, "call"), (0.3, "fn")])
            if k == "print":
                out.append(self.dump() if not self.env else "pr(1)")
            elif k == "call" and self.writers and not self.env:
                out.append(g.choice(self.writers))
            elif k == "op":
                v = g.choice(self.locals + ([] if self.env else self.globals))
                out.append(f"{v}=({v} or 0)" if g.bool() else f"{v}=5 {v}+={g.int(1, 9)}")
            elif k == "local":
                n = g.weighted([(5, 1), (3, 2), (1, 3)])
                ns = g.weighted([(5, n), (2, 0), (1, g.int(0, n)), (0.6, n + 1)])
                names = [g.choice(self.locals + ["a", "b", "c"]) for _ in range(n)]
                no = "--[[$no-merge]]" if g.bool(0.05) else ""
                if not ns: # (known finding: a local without values after one whose last value is a call or varargs)
                    for prev in reversed(out):
                        if not prev.startswith(("local ", "--[[$no-merge]]local ")): break
                        if "(" in prev or "..." in prev: # (even if not last: values that aren't needed are removed)
                            out.append("pr(1)" if self.env else "printh(1)")
                            break
                    else: # (may follow another part of the program)
                        out.append("pr(1)" if self.env else "printh(1)")
                out.append(f"{no}local {','.join(names)}" + ("=" + ",".join(self.source(vararg=vararg) for _ in range(ns)) if ns else ""))
                if g.bool(0.5): out.append(" ".join(f"{'pr' if self.env else 'printh'}({x})" for x in names))
            elif k == "fn" and not self.env:
                nm = g.choice(self.locals)
                out.append(f"local {nm}={g.int(1, 9)} local function rd() return {nm} end {nm}=rd() {nm}={g.int(1, 9)} {g.choice(self.globals)}=rd()")
            else:
                n = g.weighted([(6, 1), (3, 2), (1, 3)])
                ns = g.weighted([(6, n), (1, g.int(1, n)), (0.5, n + 1)])
                out.append(f"{','.join(self.targets(n))}={','.join(self.source(vararg=vararg) for _ in range(ns))}")
        sep = g.weighted([(3, "\n"), (1, " "), (0.5, ";")])
        if sep == "\n": return "\n".join(out)
        return sep.join(x + ("\n" if "--" in x and "[[" not in x else "") for x in out)
