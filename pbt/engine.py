"""A small property-based testing engine.

Every random decision of a test case is drawn from a Choices object and recorded as (value, max); 0 is always the
simplest value.  A failing case is shrunk by editing the recorded sequence (deleting, zeroing, lowering, swapping runs) and
replaying it, so generators need no shrinkers of their own.  Runs are deterministic in (seed, property, case index): each case
has its own generator, so the number of worker processes does not influence what is generated.
"""
import os, sys, time, json, random, signal, traceback, hashlib, multiprocessing, faulthandler

class Violation(Exception):
    """The property does not hold for this case. kind groups failures that should not be confused while shrinking"""
    def __init__(self, kind, msg, **details):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.details = kind, msg, details

class Discard(Exception):
    """The generated case is outside of the property's domain"""

class Hang(Exception):
    pass

class Choices:
    def __init__(self, rng=None, prefix=None, limit=100000):
        self.rng, self.prefix, self.limit = rng, prefix, limit
        self.values, self.maxes = [], []
        self.events, self.nontrivial, self.sample = {}, None, None

    def draw(self, mx):
        """an integer in [0, mx]"""
        i = len(self.values)
        if i >= self.limit:
            raise Discard("too many choices")
        if self.prefix is not None:
            v = min(self.prefix[i], mx) if i < len(self.prefix) else 0
        else:
            v = self.rng.randint(0, mx) if mx > 0 else 0
        self.values.append(v)
        self.maxes.append(mx)
        return v

    def draw_from(self, mx, func):
        """like draw, but the value is chosen by func(rng) when generating"""
        i = len(self.values)
        if i >= self.limit:
            raise Discard("too many choices")
        if self.prefix is not None:
            v = min(self.prefix[i], mx) if i < len(self.prefix) else 0
        else:
            v = func(self.rng)
        self.values.append(v)
        self.maxes.append(mx)
        return v

    # --- derived draws

    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def bool(self, p=0.5):
        """True with probability p; shrinks to False"""
        return self.draw_from(1, lambda r: 1 if r.random() < p else 0) == 1

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs of (weight, item); the first item is the simplest"""
        total = sum(w for w, _ in pairs)
        def pick(r):
            x = r.random() * total
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.draw_from(len(pairs) - 1, pick)][1]

    def count(self, lo, hi, avg=None):
        """a length; biased towards the small end"""
        if avg is None:
            return self.int(lo, hi)
        p = 1.0 / (avg - lo + 1)
        def pick(r):
            n = 0
            while n < hi - lo and r.random() > p:
                n += 1
            return n
        return lo + self.draw_from(hi - lo, pick)

    def bytes(self, n):
        return bytes(self.draw(255) for _ in range(n))

    def randbytes(self, n):
        """n pseudo-random bytes from one choice (does not shrink bytewise)"""
        return random.Random(self.draw(0xffffff)).randbytes(n)

    def shuffled(self, seq):
        seq, out = list(seq), []
        while seq:
            out.append(seq.pop(self.draw(len(seq) - 1)))
        return out

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    # --- bookkeeping

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def mark(self, key):
        """the case is non-trivial; key identifies it"""
        if not isinstance(key, (bytes, str)):
            key = repr(key)
        if isinstance(key, str):
            key = key.encode("utf8", "surrogatepass")
        self.nontrivial = hashlib.blake2b(key, digest_size=8).digest()

class Result:
    def __init__(self):
        self.evaluations = self.discards = 0
        self.nontrivial = set()
        self.events = {}
        self.samples = []
        self.violation = None
        self.error = None

def run_case(prop, ctx, g, case_timeout):
    def on_alarm(sig, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(case_timeout)
    try:
        prop(g, ctx)
    except Hang:
        raise Violation("hang", f"the case did not end within {case_timeout} seconds")
    finally:
        signal.alarm(0)

def attempt(prop, ctx, values, case_timeout):
    """replay values; returns (choices, violation or None)"""
    g = Choices(prefix=list(values))
    try:
        run_case(prop, ctx, g, case_timeout)
    except Violation as v:
        return g, v
    except Discard:
        pass
    return g, None

def shrink(prop, ctx, values, violation, budget_s=60, max_attempts=4000, case_timeout=30):
    best, best_v = list(values), violation
    deadline = time.time() + budget_s
    attempts = 0
    seen = set()

    def better(a, b):
        return (len(a), a) < (len(b), b)

    def consider(cand):
        nonlocal best, best_v, attempts
        key = tuple(cand)
        if key in seen or attempts >= max_attempts or time.time() > deadline:
            return False
        seen.add(key)
        attempts += 1
        try:
            g, v = attempt(prop, ctx, cand, case_timeout)
        except Exception:
            return False
        if v is not None and v.kind == violation.kind:
            used = g.values
            while used and used[-1] == 0:
                used = used[:-1]
            if better(used, best):
                best, best_v = used, v
                return True
        return False

    consider(list(best))
    improved = True
    while improved and time.time() < deadline and attempts < max_attempts:
        improved = False
        # delete runs
        size = max(len(best) // 2, 1)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                if i + size <= len(best) and consider(best[:i] + best[i+size:]):
                    improved = True
                else:
                    # try deleting while lowering a preceding length choice
                    if size <= 16 and i > 0 and i + size <= len(best) and best[i-1] > 0:
                        if consider(best[:i-1] + [best[i-1]-1] + best[i+size:]):
                            improved = True
                i -= max(size // 2, 1) if size <= 8 else size
            size //= 2
        # zero runs
        size = max(len(best) // 4, 1)
        while size >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i+size]):
                    if consider(best[:i] + [0] * len(best[i:i+size]) + best[i+size:]):
                        improved = True
                i += size
            size //= 2
        # lower single values
        for i in range(len(best) - 1, -1, -1):
            if i < len(best) and best[i] > 0:
                lo, hi = 0, best[i]
                while lo < hi:
                    mid = (lo + hi) // 2
                    if i < len(best) and consider(best[:i] + [mid] + best[i+1:]):
                        improved = True
                        hi = mid
                    else:
                        lo = mid + 1
                    if i >= len(best):
                        break
                if i < len(best) and best[i] > 0 and consider(best[:i] + [best[i]-1] + best[i+1:]):
                    improved = True
    return best, best_v, attempts

def case_rng(seed, pid, index):
    return random.Random(f"{seed}/{pid}/{index}")

def worker(prop, make_ctx, pid, seed, indices, queue, opts):
    try:
        res = Result()
        ctx = make_ctx()
        rate = max(1, len(indices) // 4)
        for n, index in enumerate(indices):
            g = Choices(rng=case_rng(seed, pid, index))
            try:
                run_case(prop, ctx, g, opts["case_timeout"])
            except Discard:
                res.discards += 1
                for k, v in g.events.items():
                    res.events[k] = res.events.get(k, 0) + v
                continue
            except Violation as v:
                values = list(g.values)
                best, bv, tries = shrink(prop, ctx, values, v, budget_s=opts["shrink_s"])
                res.evaluations += 1
                res.violation = dict(index=index, values=best, kind=bv.kind, msg=bv.msg, details=jsonable(bv.details),
                                     orig_len=len(values), shrink_attempts=tries)
                break
            res.evaluations += 1
            for k, v in g.events.items():
                res.events[k] = res.events.get(k, 0) + v
            if g.nontrivial is not None:
                if g.nontrivial not in res.nontrivial and g.sample is not None and n % rate == 0 and len(res.samples) < 3:
                    res.samples.append(g.sample)
                res.nontrivial.add(g.nontrivial)
        if hasattr(ctx, "close"):
            ctx.close()
    except BaseException:
        res.error = traceback.format_exc()
    queue.put(pickle_result(res))

def pickle_result(res):
    return dict(evaluations=res.evaluations, discards=res.discards, nontrivial=res.nontrivial, events=res.events,
                samples=res.samples, violation=res.violation, error=res.error)

def jsonable(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, bytes):
            v = v.decode("latin1")
        elif not isinstance(v, (str, int, float, bool, type(None), list, tuple, dict)):
            v = repr(v)
        out[k] = v
    return out

def run_property(pid, prop, make_ctx, seed, cases, jobs=8, case_timeout=60, shrink_s=60, chunks=None):
    """run cases in worker processes; returns a merged Result"""
    mp = multiprocessing.get_context("fork")
    total = Result()
    nchunks = chunks or jobs * max(1, min(8, cases // (jobs * 25)))
    chunk_list = [list(range(c, cases, nchunks)) for c in range(nchunks)]
    chunk_list = [c for c in chunk_list if c]
    queue = mp.Queue()
    procs = {}
    pending = list(enumerate(chunk_list))
    active = 0
    opts = dict(case_timeout=case_timeout, shrink_s=shrink_s)
    live = []
    stop = False
    def launch():
        i, chunk = pending.pop(0)
        p = mp.Process(target=worker, args=(prop, make_ctx, pid, seed, chunk, queue, opts))
        p.start()
        live.append(p)
    while (pending and not stop) or active:
        while pending and active < jobs and not stop:
            launch()
            active += 1
        try:
            r = queue.get(timeout=1)
        except Exception:
            # a worker that died without reporting (e.g. out of memory) is an error of the harness
            dead = [p for p in live if not p.is_alive() and p.exitcode not in (0, None)]
            if dead and queue.empty():
                total.error = f"worker died with exit code {dead[0].exitcode}"
                break
            continue
        active -= 1
        total.evaluations += r["evaluations"]
        total.discards += r["discards"]
        total.nontrivial |= r["nontrivial"]
        for k, v in r["events"].items():
            total.events[k] = total.events.get(k, 0) + v
        if len(total.samples) < 5:
            total.samples.extend(r["samples"][:5 - len(total.samples)])
        if r["error"]:
            total.error = r["error"]
            stop = True
            break
        if r["violation"]:
            total.violation = r["violation"]
            stop = True
            break
    for p in live:
        if p.is_alive() and (stop or total.error):
            p.terminate()
    for p in live:
        p.join(timeout=10)
        if p.is_alive():
            p.kill()
    return total
