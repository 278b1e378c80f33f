"""compares the bytecode of a program with that of its renamed version"""
from common import *

CALLBACKS = {"_init", "_update", "_update60", "_draw"}
BUILTIN_GLOBALS = set(luarun.BUILTINS) | CALLBACKS | {"_ENV"}
METAMETHODS = {"__index", "__newindex", "__call", "__add", "__sub", "__mul", "__div", "__idiv", "__mod", "__pow", "__unm", "__concat", "__len", "__eq",
    "__lt", "__le", "__gc", "__mode", "__metatable", "__tostring", "__ipairs", "__pairs", "__band", "__bor", "__bxor", "__bnot", "__shl", "__shr",
    "__lshr", "__rotl", "__rotr"}
BUILTIN_MEMBERS = {"n"} | METAMETHODS

class Maps:
    def __init__(self):
        self.globals, self.members = {}, {}
    def add(self, table, old, new, what, details):
        prev = table.setdefault(old, new)
        if prev != new:
            raise Violation("inconsistent", f"{what} {old} became both {prev} and {new}", **details)

def _ops(f):
    """instructions with operands: (op, fixed operands, [(role, const)])"""
    ks = f.consts
    for ins in f.code:
        o, a, c, b = ins & 63, (ins >> 6) & 255, (ins >> 14) & 511, (ins >> 23) & 511
        def rk(x): return ks[x & 255] if x & 256 else ("reg", x)
        if o == 1:
            yield o, a, [("value", ks[ins >> 14])]
        elif o in luarun._UNARY:
            yield o, (a, b), []
        elif o == 6: # gettabup
            yield o, (a, b), [("global" if f.upnames[b] == b"_ENV" else "member", rk(c))]
        elif o == 7:
            yield o, (a, b), [("key", rk(c))]
        elif o == 12:
            yield o, (a, b), [("key", rk(c))]
        elif o == 8:
            yield o, a, [("global" if f.upnames[a] == b"_ENV" else "member", rk(b)), ("value", rk(c))]
        elif o == 10:
            yield o, a, [("key", rk(b)), ("value", rk(c))]
        elif o in luarun._ABC_K:
            yield o, a, [("value", rk(b)), ("value", rk(c))]
        else:
            yield o, ins >> 6, []

def compare(f1, f2, maps, details):
    if (f1.nparams, f1.vararg, f1.upvals, len(f1.code), len(f1.protos)) != (f2.nparams, f2.vararg, f2.upvals, len(f2.code), len(f2.protos)):
        raise Violation("capture", "a variable is bound differently (shape of a function changed)", **details)
    for i, ((o1, x1, ks1), (o2, x2, ks2)) in enumerate(zip(_ops(f1), _ops(f2))):
        if o1 != o2 or x1 != x2 or len(ks1) != len(ks2):
            raise Violation("capture", f"a variable is bound differently (instruction {i}: {o1, x1} vs {o2, x2})", **details)
        for (r1, k1), (r2, k2) in zip(ks1, ks2):
            if r1 != r2:
                raise Violation("capture", f"a variable is bound differently ({r1} {k1} vs {r2} {k2})", **details)
            if r1 in ("global", "member", "key") and k1[0] == "str" and k2[0] == "str":
                s1, s2 = k1[1].decode("latin-1"), k2[1].decode("latin-1")
                if r1 == "global":
                    maps.add(maps.globals, s1, s2, "global", details)
                else:
                    maps.add(maps.members, s1, s2, "member", details)
            elif k1 != k2:
                raise Violation("capture", f"an operand changed ({k1} vs {k2})", **details)
    for p1, p2 in zip(f1.protos, f2.protos):
        compare(p1, p2, maps, details)

def check_injective(table, what, details):
    inv = {}
    for old, new in table.items():
        if new in inv:
            raise Violation("merged", f"{what}s {inv[new]} and {old} both became {new}", **details)
        inv[new] = old

def is_ident(s):
    return bool(s) and s not in lang.KEYWORDS and lang.is_word(s[0]) and not s[0].isdigit() and all(lang.is_word(c) for c in s)

def check_renamed(code, out, args, ref=None, preserved_globals=(), preserved_members=(), members_fixed=False, globals_fixed=False):
    """-> Maps. all oracles of a rename that should touch nothing else"""
    details = dict(input=code, output=out, args=" ".join(args))
    ref = ref or reference(code)
    try:
        a, b = toks(code), toks(out)
    except lang.LexError as ex:
        raise Violation("tokens", f"output can't be tokenized: {ex}", **details)
    if len(a) != len(b) or any(x != y and not (x[0] == y[0] == "id") for x, y in zip(a, b)):
        raise Violation("tokens", "something other than identifiers changed: " + first_diff([x for x in a if x[0] != "id"], [x for x in b if x[0] != "id"]), **details)
    res = compiled(out, "output", **details)
    maps = Maps()
    compare(ref, res, maps, details)
    check_injective(maps.globals, "global", details)
    check_injective(maps.members, "member", details)
    for old, new in maps.globals.items():
        if old != new and (globals_fixed or old in BUILTIN_GLOBALS or old in preserved_globals):
            raise Violation("preserve", f"global {old} should have kept its name, became {new}", **details)
        if old != new and new in BUILTIN_GLOBALS:
            raise Violation("builtin", f"global {old} became the builtin {new}", **details)
    for old, new in maps.members.items():
        if old != new and (members_fixed or old in BUILTIN_MEMBERS or old in preserved_members):
            raise Violation("preserve", f"member {old} should have kept its name, became {new}", **details)
        if old != new and new in BUILTIN_MEMBERS:
            raise Violation("builtin", f"member {old} became the special member {new}", **details)
    for (k, s) in b:
        if k == "id" and not is_ident(s):
            raise Violation("tokens", f"{s!r} is not an identifier", **details)
    return maps
