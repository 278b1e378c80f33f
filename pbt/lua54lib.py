"""library functions for lua54: the parts of Lua's and Picotron's that programs of the checks use. Everything observable is an event of the machine."""
import math, threading
from lua54 import *
from lua54 import Kill, Limit

def arg(a, i, d=None): return a[i] if i < len(a) else d

def install(vm):
    G = vm.G
    def reg(name, fn, t=G): t.h[name] = Builtin(name, fn)
    def sub(name):
        t = G.h[name] = Table()
        return t

    def num(a, i, d=None):
        v = to_num(arg(a, i))
        if v is None:
            if d is not None and arg(a, i) is None: return d
            raise LuaErr("bad argument (number expected)")
        return v
    def integer(a, i, d=None):
        v = to_int(num(a, i, d))
        if v is None: raise LuaErr("number has no integer representation")
        return v
    def string(a, i):
        v = arg(a, i)
        if v.__class__ in (int, float): return vm.tostr(v)
        if v.__class__ is not str: raise LuaErr("bad argument (string expected)")
        return v
    def table(a, i):
        v = arg(a, i)
        if v.__class__ is not Table: raise LuaErr("bad argument (table expected)")
        return v
    def truth(v): return not (v is None or v is False)

    def show(v, d=0):
        if v.__class__ is Table and v.meta is None and d < 1:
            return "{" + ",".join(show(v.h.get(i + 1), d + 1) for i in range(min(border(v), 8))) + "}"
        c = v.__class__
        return f"float:{v!r}" if c is float else f"{c.__name__}:{vm.tostr(v)}" if c in (int, str, bool) else vm.tostr(v)
    def event(name):
        def fn(a):
            vm.step()
            vm.events.append(name + " " + " ".join(show(v) for v in a))
            return []
        return fn
    for n in ("print", "printh", "circfill", "rectfill", "spr", "poke", "color", "cls", "pset", "sfx", "camera", "srand"): reg(n, event(n))
    reg("rnd", lambda a: [0.25])
    reg("time", lambda a: [1.5]); reg("t", lambda a: [1.5])
    reg("type", lambda a: [typename(a[0])] if a else (_ for _ in ()).throw(LuaErr("bad argument")))
    reg("tostring", lambda a: [vm.tostr(arg(a, 0))])
    reg("tostr", lambda a: [vm.tostr(arg(a, 0)) if a else ""])
    def tonum(a):
        v = arg(a, 0)
        if len(a) > 1 and a[1] is not None:
            try: return [wrap(int(string(a, 0).strip(), integer(a, 1)))]
            except ValueError: return [None]
        return [v if v.__class__ in (int, float) else tonumber(v) if v.__class__ is str else None]
    reg("tonumber", tonum)
    reg("tonum", tonum)
    def select(a):
        if arg(a, 0) == "#": return [len(a) - 1]
        n = integer(a, 0)
        if n < 0: n = len(a) + n
        if n < 1: raise LuaErr("bad argument (index out of range)")
        return a[n:]
    reg("select", select)
    reg("next", lambda a: nextkey(table(a, 0), arg(a, 1)))
    NEXT = G.h["next"]
    def pairs(a):
        m = vm.metaof(arg(a, 0), "__pairs")
        if m is not None: return (vm.call(m, [a[0]]) + [None] * 3)[:3]
        return [NEXT, table(a, 0), None]
    reg("pairs", pairs)
    def inext(a):
        i = a[1] + 1
        v = vm.index(a[0], i)
        return [None] if v is None else [i, v]
    INEXT = Builtin("inext", inext)
    reg("ipairs", lambda a: [INEXT, arg(a, 0), 0])
    def setmt(a):
        t = table(a, 0)
        if arg(a, 1) is not None: table(a, 1)
        t.meta = arg(a, 1)
        return [t]
    reg("setmetatable", setmt)
    def getmt(a):
        v = arg(a, 0)
        m = v.meta if v.__class__ is Table else vm.strmeta if v.__class__ is str else None
        return [m.h.get("__metatable") or m if m else None]
    reg("getmetatable", getmt)
    reg("rawget", lambda a: [rawget(table(a, 0), arg(a, 1))])
    def rset(a): rawset(table(a, 0), arg(a, 1), arg(a, 2)); return [a[0]]
    reg("rawset", rset)
    reg("rawequal", lambda a: [raweq(arg(a, 0), arg(a, 1))])
    reg("rawlen", lambda a: [border(a[0]) if a[0].__class__ is Table else len(string(a, 0))])
    def assert_(a):
        if not truth(arg(a, 0)): raise LuaErr(a[1] if len(a) > 1 else "assertion failed!")
        return a
    reg("assert", assert_)
    def error(a): raise LuaErr(arg(a, 0))
    reg("error", error)
    def pcall(a):
        depth, mark = vm.depth, len(vm.tbc)
        try: return [True] + vm.call(a[0], a[1:])
        except LuaErr as e:
            vm.depth = depth
            return [False, e.value]
    reg("pcall", pcall)
    def include(a):
        n = string(a, 0)
        while n.startswith("./"): n = n[2:]
        if n not in vm.files: raise LuaErr("cannot include")
        vm.step()
        return vm.call(vm.load(vm.files[n]), [])
    reg("include", include)
    def load(a):
        try: fn = vm.load(string(a, 0))
        except SyntaxErr as e: return [None, "syntax error"]
        return [fn]
    reg("load", load)

    # numbers
    def flr(f):
        def fn(a):
            v = num(a, 0)
            if v.__class__ is int: return [v]
            if math.isinf(v) or math.isnan(v): return [v]
            r = f(v)
            return [r if -TOP <= r < TOP else float(r)]
        return fn
    m = sub("math")
    for n, t in (("flr", G), ("floor", m)): reg(n, flr(math.floor), t)
    for n, t in (("ceil", G), ("ceil", m)): reg(n, flr(math.ceil), t)
    for t in (G, m): reg("abs", lambda a: [wrap(abs(num(a, 0))) if num(a, 0).__class__ is int else abs(num(a, 0))], t)
    def fold(better):
        def fn(a):
            if not a: return [0]
            r = num(a, 0)
            if len(a) == 1 : return [r]
            for i in range(1, len(a)):
                v = num(a, i)
                if better(v, r): r = v
            return [r]
        return fn
    for t in (G, m):
        # (which of an equal integer and float is the result isn't known: as when folding)
        reg("max", fold(lambda v, r: not r > v), t)
        reg("min", fold(lambda v, r: not r < v), t)
    def mid(a):
        x, y, z = num(a, 0), num(a, 1), num(a, 2)
        return [y if (x < y) == (y < z) else x if (x < y) != (x < z) else z]
    reg("mid", mid)
    reg("sgn", lambda a: [-1 if num(a, 0) < 0 else 1])
    reg("sqrt", lambda a: [math.sqrt(num(a, 0)) if num(a, 0) >= 0 else math.nan]); reg("sqrt", G.h["sqrt"].fn, m)
    m.h["pi"], m.h["huge"], m.h["maxinteger"], m.h["mininteger"] = math.pi, math.inf, TOP - 1, -TOP
    def toint(a):
        v = arg(a, 0)
        return [to_int(v) if v.__class__ in (int, float) else None]
    reg("tointeger", toint, m)
    reg("type", lambda a: ["integer" if arg(a, 0).__class__ is int else "float" if arg(a, 0).__class__ is float else None], m)

    # strings
    s = sub("string")
    vm.strmeta.h["__index"] = s
    def ssub(a):
        v, i, j = string(a, 0), integer(a, 1, 1), integer(a, 2, -1)
        n = len(v)
        if i < 0: i = max(n + i + 1, 1)
        elif i == 0: i = 1
        if j < 0: j = n + j + 1
        return [v[i - 1:max(min(j, n), 0)] if i <= j else ""]
    for t in (G, s): reg("sub", ssub, t)
    reg("len", lambda a: [len(string(a, 0))], s)
    reg("upper", lambda a: ["".join(c.upper() if c.isascii() else c for c in string(a, 0))], s)
    reg("lower", lambda a: ["".join(c.lower() if c.isascii() else c for c in string(a, 0))], s)
    def rep(a):
        n = integer(a, 1)
        if n * len(string(a, 0)) > 10000: raise LuaErr("resulting string too large")
        return [string(a, 0) * max(n, 0)]
    reg("rep", rep, s)
    reg("reverse", lambda a: [string(a, 0)[::-1]], s)
    def byte(a):
        v, i = string(a, 0), integer(a, 1, 1)
        return [ord(v[i - 1])] if 1 <= i <= len(v) else []
    reg("byte", byte, s); reg("ord", byte)
    def char(a):
        r = []
        for i in range(len(a)):
            c = integer(a, i)
            if not 0 <= c < 256: raise LuaErr("value out of range")
            r.append(chr(c))
        return ["".join(r)]
    reg("char", char, s); reg("chr", char)
    def split(a):
        out = Table()
        for i, p in enumerate(string(a, 0).split(arg(a, 1) or ",")):
            v = tonumber(p) if arg(a, 2) is not False else None
            out.h[i + 1] = p if v is None else v
        return [out]
    reg("split", split)

    # tables
    t = sub("table")
    def unpack(a):
        i, j = integer(a, 1, 1), integer(a, 2, None if arg(a, 2) is not None else border(table(a, 0)))
        if j - i > 500: raise LuaErr("too many results to unpack")
        return [vm.index(a[0], k) for k in range(i, j + 1)]
    reg("unpack", unpack); reg("unpack", unpack, t)
    def pack(a):
        out = Table()
        for i, v in enumerate(a):
            if v is not None: out.h[i + 1] = v
        out.h["n"] = len(a)
        return [out]
    reg("pack", pack); reg("pack", pack, t)
    def insert(a):
        x, n = table(a, 0), border(a[0])
        if len(a) == 2: rawset(x, n + 1, a[1]); return []
        p = integer(a, 1)
        if not 1 <= p <= n + 1: raise LuaErr("position out of bounds")
        for i in range(n, p - 1, -1): rawset(x, i + 1, rawget(x, i))
        rawset(x, p, arg(a, 2))
        return []
    reg("insert", insert, t)
    def remove(a):
        x, n = table(a, 0), border(a[0])
        p = integer(a, 1, n)
        if n and not 1 <= p <= n + 1: raise LuaErr("position out of bounds")
        v = rawget(x, p)
        for i in range(p, n): rawset(x, i, rawget(x, i + 1))
        if p <= n: rawset(x, n, None)
        return [v]
    reg("remove", remove, t)
    reg("concat", lambda a: [str(arg(a, 1) or "").join(string([rawget(a[0], i + 1)], 0) for i in range(border(table(a, 0))))], t)
    def add(a):
        if arg(a, 0) is None: return []
        x = table(a, 0)
        n = border(x)
        p = integer(a, 2, n + 1)
        if not 1 <= p <= n + 1: raise LuaErr("position out of bounds")
        for i in range(n, p - 1, -1): rawset(x, i + 1, rawget(x, i))
        rawset(x, p, arg(a, 1))
        return [arg(a, 1)]
    reg("add", add)
    def delete(a):
        x, n = table(a, 0), border(a[0])
        for i in range(1, n + 1):
            if raweq(rawget(x, i), arg(a, 1)):
                v = rawget(x, i)
                for k in range(i, n): rawset(x, k, rawget(x, k + 1))
                rawset(x, n, None)
                return [v]
        return []
    reg("del", delete)
    reg("deli", remove)
    def foreach(a):
        for i in range(1, border(table(a, 0)) + 1): vm.call(arg(a, 1), [rawget(a[0], i)])
        return []
    reg("foreach", foreach)
    def all_(a):
        if arg(a, 0) is None: return [Builtin("none", lambda b: [])]
        x, i = table(a, 0), [0]
        def it(b):
            i[0] += 1
            return [rawget(x, i[0])]
        return [Builtin("all", it)]
    reg("all", all_)
    def count(a):
        x = table(a, 0)
        n = border(x)
        return [n if len(a) < 2 else sum(raweq(rawget(x, i), a[1]) for i in range(1, n + 1))]
    reg("count", count)

    # coroutines, as threads that take turns
    def create(a):
        if typename(arg(a, 0)) != "function": raise LuaErr("bad argument (function expected)")
        return [Coro(a[0])]
    def resume(a):
        co = arg(a, 0)
        if co.__class__ is not Coro: raise LuaErr("bad argument (coroutine expected)")
        if co.status != "suspended": return [False, "cannot resume"]
        if co.thread is None:
            if len(vm.coros) > 40: raise Limit()
            co.go, co.back, co.kill, co.exc = threading.Semaphore(0), threading.Semaphore(0), False, None
            def body():
                co.go.acquire()
                try:
                    if not co.kill: co.out = [True] + vm.call(co.fn, co.inp)
                except LuaErr as e: co.out = [False, e.value]
                except Kill: pass
                except BaseException as e: co.exc = e
                co.status = "dead"
                co.back.release()
            co.thread = threading.Thread(target=body, daemon=True)
            co.thread.start()
            vm.coros.append(co)
        prev, depth, tbc = vm.current, vm.depth, vm.tbc
        if prev: prev.status = "normal"
        co.inp, co.status, vm.current = a[1:], "running", co
        vm.tbc = getattr(co, "tbc", [])
        co.go.release()
        co.back.acquire()
        co.tbc, vm.tbc = vm.tbc, tbc
        vm.current, vm.depth = prev, depth
        if prev: prev.status = "running"
        if co.exc: raise co.exc
        return co.out
    def yield_(a):
        co = vm.current
        if co is None: raise LuaErr("attempt to yield from outside a coroutine")
        co.out, co.status = [True] + a, "suspended"
        depth = vm.depth
        co.back.release()
        co.go.acquire()
        if co.kill: raise Kill()
        vm.depth = depth
        return co.inp
    def status(a): return [arg(a, 0).status if arg(a, 0).__class__ is Coro else "dead"]
    c = sub("coroutine")
    for n, x, fn in (("cocreate", "create", create), ("coresume", "resume", resume), ("yield", "yield", yield_), ("costatus", "status", status)):
        reg(n, fn)
        reg(x, fn, c)
    G.h["_G"] = G
