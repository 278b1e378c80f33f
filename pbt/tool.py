"""Runs the command line tools of /repo in-process, and owns the scratch directory of a worker"""
import os, sys, io, shutil, tempfile, traceback, contextlib

REPO = os.environ.get("VERIF_REPO", "/repo")

def setup_env():
    os.environ.setdefault("LANG", "C.UTF-8")
    os.environ["PICO8_EXPORT_REPRO_TIME"] = "1577934245"
    os.environ["PICO8_PLATFORM_CHAR"] = "w"
    os.environ["PICO8_VERSION_LATEST_IS_DEFAULT"] = "t"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)

setup_env()
sys.dont_write_bytecode = True
import shrinko8 as _shrinko8
import shrinkotron as _shrinkotron

OK, ERR, WARN, FAIL, INCLUDE = 0, 1, 2, 3, 4

class RunResult:
    __slots__ = ("code", "out", "err", "exc", "args", "raw_out")
    def describe(self):
        return f"args={self.args} exit={self.code}\n--- stdout\n{self.out[-3000:]}\n--- stderr\n{self.err[-1500:]}\n--- exception\n{self.exc}"

class _Out(io.TextIOWrapper):
    def __init__(self):
        super().__init__(io.BytesIO(), encoding="utf8", errors="surrogatepass", newline="", write_through=True)
    def raw(self):
        self.flush()
        return self.buffer.getvalue()
    def text(self):
        return self.raw().decode("utf8", "surrogatepass")

def run(args, lang="pico8", stdin=None, cwd=None):
    """runs shrinko8/shrinkotron; never raises for what the tool does (except for the harness' own Hang)"""
    from engine import Hang
    mod = _shrinko8 if lang == "pico8" else _shrinkotron
    r = RunResult()
    r.args, r.exc = list(args), None
    so, se = _Out(), _Out()
    old = sys.stdout, sys.stderr, sys.stdin, sys.argv
    oldcwd = os.getcwd() if cwd else None
    if cwd:
        os.chdir(cwd)
    sys.stdout, sys.stderr, sys.argv = so, se, ["shrinko", *args]
    if stdin is not None:
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding="utf8")
    try:
        code = mod.main(list(args))
        r.code = 0 if code is None else int(code)
    except SystemExit as ex:
        r.code = ex.code if isinstance(ex.code, int) else (0 if ex.code is None else 1)
    except Hang:
        raise
    except BaseException:
        r.code = -1
        r.exc = traceback.format_exc()
    finally:
        sys.stdout, sys.stderr, sys.stdin, sys.argv = old
        if oldcwd:
            os.chdir(oldcwd)
    r.raw_out, r.err = so.raw(), se.text()
    r.out = r.raw_out.decode("utf8", "replace")
    return r

class Scratch:
    """a directory of its own for each worker; emptied by clear()"""
    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="vp-pbt-", dir=base)
    def path(self, *parts):
        return os.path.join(self.dir, *parts)
    def write(self, name, data):
        p = self.path(name)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, (bytes, bytearray)) else data.encode("utf8", "surrogatepass"))
        return p
    def read(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()
    def exists(self, name):
        return os.path.exists(self.path(name))
    def clear(self):
        for e in os.scandir(self.dir):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path)
            else:
                os.unlink(e.path)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

class Ctx:
    """the usual context of a worker"""
    def __init__(self):
        self.s = Scratch()
    def close(self):
        self.s.close()
