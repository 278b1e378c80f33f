"""Runs and compiles PICO-8 Lua with z8lua (lupaz8), independently of /repo: the reference for what a program does"""
import struct, re
from lupaz8 import luaz8

# the locals that the console itself declares in front of every cart
CONSOLE_LOCALS = ("time sub chr ord tostr tonum add del deli clip color pal palt fillp pget pset sget sset fget fset circ circfill "
    "rect rectfill oval ovalfill line spr sspr mget mset tline peek poke peek2 poke2 peek4 poke4 memcpy memset max min mid flr ceil "
    "cos sin atan2 srand band bor bxor bnot shl shr lshr rotl rotr").split()

BUILTINS = ("abs add all assert atan2 btn btnp camera cartdata ceil chr circ circfill clip cls cocreate color coresume cos costatus "
    "count cstore cursor del deli dget dset extcmd fget fillp flip flr foreach fset getmetatable ipairs inext line load ls map max "
    "memcpy memset menuitem mget mid min mset music next ord oval ovalfill pack pairs pal palt peek peek2 peek4 pget poke poke2 poke4 "
    "print printh pset rawequal rawget rawlen rawset rect rectfill reload reset rnd rrect rrectfill run select serial setmetatable "
    "sfx sget sgn sin split spr sqrt srand sset sspr stat stop sub t time tline tonum tostr trace type unpack yield band bnot bor bxor "
    "lshr rotl rotr shl shr mapdraw").split()


_PRELUDE = r"""
local steplimit,stubs,keep,extra=...
local type,tostr,rawlen,rawget,select,pcall,cocreate0,sethook,error=type,tostr,rawlen,rawget,select,pcall,cocreate,debug.sethook,error
local loadf,peek,pairs0,tostring0,srand0=load,peek,pairs,tostring,srand
local ev,n={},0
local find=string.find
local G=_G
memset(0,0,0x7fff) memset(0x7fff,0,1) memset(0x8000,0,0x7fff) memset(0xffff,0,1)
local ticks,limited=0,false
local function fmt(v,d)
  local t=type(v)
  if t=="number" then return tostr(v,1) end
  if t=="string" then
    if find(v,"^cart:%d+: ") then v="(runtime error)" end -- (these name variables and lines)
    return "s:"..v
  end
  if t=="table" then
    if d>=2 then return "{..}" end
    local s="{"
    local l=rawlen(v)
    if l>40 then l=40 end
    for i=1,l do s=s..fmt(rawget(v,i),d+1).."," end
    return s.."}"
  end
  if t=="nil" then return "nil" end
  if t=="boolean" then return v and "true" or "false" end
  return t
end
local function event(name,...)
  local s=name
  for i=1,select("#",...) do s=s.." "..fmt((select(i,...)),0) end
  n=n+1
  if n>3000 then limited=true error("LIMIT") end
  ev[n]=s
end
local function hook()
  ticks=ticks+1
  if ticks>steplimit then limited=true error("LIMIT") end
end
local keepset={}
for i=1,#keep do keepset[keep[i]]=true end
local drop={}
for k in pairs0(G) do if not keepset[k] then drop[#drop+1]=k end end
for i=1,#drop do G[drop[i]]=nil end
for i=1,#stubs do
  local name=stubs[i]
  if G[name]==nil or name=="print" or name=="printh" then
    if name=="stat" or name=="btn" or name=="btnp" or name=="rnd" or name=="t" or name=="time" or name=="mget" or name=="fget" or name=="sget" or name=="pget" then
      G[name]=function(...) event(name,...) return 0 end
    elseif name=="stop" then
      G[name]=function(...) event(name,...) error("STOP",0) end
    else
      G[name]=function(...) event(name,...) end
    end
  end
end
G.cocreate=function(f)
  local co=cocreate0(f)
  sethook(co,hook,"",1000)
  return co
end
if extra then loadf(extra,"=extra")(G,loadf,event) end
local function run(code)
  local f,err=loadf(code,"=cart")
  if not f then return "syntax",err,ev,0,false end
  sethook(hook,"",1000)
  local ok,msg=pcall(f)
  local status="ok"
  if not ok then status="error" end
  if ok then
    for i=1,3 do
      local name=i==1 and "_init" or i==2 and (G._update60~=nil and "_update60" or "_update") or "_draw"
      local cb=G[name]
      if cb~=nil and not limited then
        n=n+1 ev[n]="cb:"..name
        ok,msg=pcall(cb)
        if not ok then status="error" break end
      end
    end
  end
  sethook()
  if msg~=nil and type(msg)~="string" then msg=fmt(msg,0) end
  return status,msg,ev,n,limited,ticks
end
return run
"""

class Trace:
    __slots__ = ("status", "msg", "events", "limited", "ticks", "mem", "rawmsg")
    def key(self):
        return (self.status, self.msg, tuple(self.events), self.mem)

MEMORY_LIMIT = 512 << 20 # (an endless loop of 'a..=a' would take all there is)

def _runtime():
    return luaz8.LuaRuntime(encoding="latin-1", source_encoding="latin-1", overflow_handler=True, unpack_returned_tuples=True,
                            max_memory=MEMORY_LIMIT)

_keep = set(BUILTINS) | {"srand"}

def run(code, steplimit=400, console_locals=True, mem=(0x4300, 0x4400), extra_stubs=(), extra=None, rom=None):
    """code: p8scii bytes. Runs the program (then _init, _update, _draw once); returns a Trace.
    steplimit is in thousands of VM instructions; extra is lua code that adds globals, rom the memory's initial contents"""
    rt = _runtime()
    g = rt.globals()
    stubs = rt.table_from(list(BUILTINS) + list(extra_stubs))
    keep = rt.table_from(sorted(_keep))
    peekf, pokef = g.peek, g.poke
    runner = g.load(_PRELUDE)(steplimit, stubs, keep, extra)
    for i in range(0, len(rom or b""), 128):
        pokef(i, *rom[i:i+128])
    src = code.decode("latin-1")
    if console_locals:
        src = "local %s=%s\n" % (",".join(CONSOLE_LOCALS), ",".join(CONSOLE_LOCALS)) + src
    t = Trace()
    try:
        status, msg, ev, n, limited, *rest = runner(src)
    except luaz8.LuaMemoryError:
        status, msg, ev, n, limited, rest = "error", "not enough memory", (), 0, True, ()
    if status == "error" and isinstance(msg, str) and "not enough memory" in msg:
        limited = True
    t.status, t.limited = status, bool(limited)
    t.ticks = rest[0] if rest else 0
    t.events = [ev[i + 1] for i in range(int(n))] if n else []
    t.rawmsg = msg
    if status == "error" and isinstance(msg, str):
        if msg == "STOP":
            t.msg = "STOP"
        elif msg.startswith("cart:") or msg.startswith("[string"):
            t.msg = "runtime error"
        else:
            t.msg = normalize_error(msg)
    else:
        t.msg = None if status == "ok" else "syntax error"
    t.mem = bytes(int(b) & 255 for b in peekf(mem[0], mem[1] - mem[0])) if mem else None
    return t

def normalize_error(msg):
    # messages made by the interpreter name variables and positions; messages made by the program do not contain these forms
    if re.match(r"(attempt to|bad argument|invalid|stack overflow|number expected|string expected|table expected)", msg):
        return "runtime error"
    return msg

# ---------------------------------------------------------------- bytecode

class CompileError(Exception):
    pass

_compiler = None
def dump(code):
    """compile p8scii bytes -> raw bytecode; raises CompileError"""
    global _compiler
    if _compiler is None:
        rt = _runtime()
        _compiler = (rt, rt.globals().load, rt.eval("string.dump"))
    rt, load, sdump = _compiler
    f = load(code.decode("latin-1"), "=cart")
    if isinstance(f, tuple):
        raise CompileError(f[1])
    return sdump(f).encode("latin-1")

class Func:
    __slots__ = ("nparams", "vararg", "maxstack", "code", "consts", "protos", "upvals", "upnames", "locals", "lines")

def undump(b):
    o = 18
    def i4():
        nonlocal o
        v, = struct.unpack_from("<i", b, o); o += 4
        return v
    def u1():
        nonlocal o
        v = b[o]; o += 1
        return v
    def s():
        nonlocal o
        n, = struct.unpack_from("<Q", b, o); o += 8
        if n == 0:
            return None
        v = b[o:o+n-1]; o += n
        return v
    def func():
        nonlocal o
        f = Func()
        i4(); i4()
        f.nparams, f.vararg, f.maxstack = u1(), u1(), u1()
        n = i4()
        f.code = struct.unpack_from("<%dI" % n, b, o); o += 4 * n
        n = i4()
        ks = []
        for _ in range(n):
            t = u1()
            if t == 0: ks.append(("nil",))
            elif t == 1: ks.append(("bool", u1()))
            elif t == 3: ks.append(("num", i4()))
            elif t == 4: ks.append(("str", s()))
            else: raise ValueError("const type %d" % t)
        f.consts = ks
        f.protos = [func() for _ in range(i4())]
        f.upvals = [(u1(), u1()) for _ in range(i4())]
        s()
        f.lines = [i4() for _ in range(i4())]
        f.locals = [(s(), i4(), i4()) for _ in range(i4())]
        f.upnames = [s() for _ in range(i4())]
        return f
    f = func()
    return f

_UNARY = set(range(28, 35))
_ABC_K = {6: "c", 7: "c", 8: "ac", 10: "bc", 12: "c", 37: "bc", 38: "bc", 39: "bc"}
_ABC_K.update({op: "bc" for op in range(13, 28)})

def canon(f):
    """a nested structure describing what the bytecode does, with constants resolved and without debug info"""
    out = []
    ks = f.consts
    for ins in f.code:
        op, a, c, b = ins & 63, (ins >> 6) & 255, (ins >> 14) & 511, (ins >> 23) & 511
        if op == 1: # loadk
            out.append((op, a, ks[ins >> 14]))
        elif op in _UNARY:
            out.append((op, a, b))
        elif op in (8,):
            # settabup: A upvalue, B key, C value
            out.append((op, a, ks[b & 255] if b & 256 else b, ks[c & 255] if c & 256 else c))
        elif op in (6, 7, 12):
            out.append((op, a, b, ks[c & 255] if c & 256 else c))
        elif op in _ABC_K:
            out.append((op, a, ks[b & 255] if b & 256 else b, ks[c & 255] if c & 256 else c))
        else:
            out.append((op, ins >> 6))
    return (f.nparams, f.vararg, f.maxstack, tuple(out), tuple(canon(p) for p in f.protos), tuple(f.upvals))

def local_names(f):
    """all local and upvalue names, for when names are expected to be the same"""
    return (tuple(x[0] for x in f.locals), tuple(f.upnames), tuple(local_names(p) for p in f.protos))

def flat_instructions(f):
    """every instruction of canon with the enclosing function, in order"""
    for p in [f]:
        yield from ((f, i) for i in canon_code(f))
    for p in f.protos:
        yield from flat_instructions(p)

def canon_code(f):
    return canon(f)[3]

def compile_canon(code):
    return canon(undump(dump(code)))
