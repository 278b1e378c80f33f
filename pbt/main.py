"""main.py <property> quick|thorough [seed]   or   main.py <property> replay <file>
exit 0: held on everything explored; 1: violation (with a VIOLATION line); 2: the check itself failed"""
import os, sys, json, time, importlib, traceback, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import engine
from engine import Violation, Discard

def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]

def write_replay(pid, check, data):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(dict(property=pid, check=check, **data), indent=1)
    path = os.path.join(d, f"{pid}-{check}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(blob)
    return path

def report(pid, check, viol):
    path = write_replay(pid, check, viol)
    print(f"--- {pid}/{check}: {viol['kind']}: {viol['msg']}"[:3000])
    for k, v in (viol.get("details") or {}).items():
        print(f"  {k}: {str(v)[:3000]}")
    print(f"VIOLATION property={pid} replay={path}")

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    mod = importlib.import_module("props." + pid.lower())
    if tier == "replay":
        return replay(pid, mod, sys.argv[3])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    t0 = time.time()
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=mod.RULE, samples=[], checks={})
    status, nviol = 0, 0
    only = os.environ.get("VERIF_ONLY")
    jobs = int(os.environ.get("VERIF_JOBS", "8"))

    # explicit examples first: past failures and corner cases, through the same oracles
    examples = getattr(mod, "EXAMPLES", [])
    if examples and not only:
        ctx = mod.make_ctx()
        try:
            for name, func in examples:
                try:
                    engine.run_case(lambda g, c: func(c), ctx, None, 120)
                except Violation as v:
                    report(pid, "example:" + name, dict(example=name, kind=v.kind, msg=v.msg, details=engine.jsonable(v.details)))
                    status, nviol = 1, nviol + 1
        finally:
            if hasattr(ctx, "close"): ctx.close()
        cov["checks"]["examples"] = dict(evaluations=len(examples))
        cov["evaluations"] += len(examples)
    for k in known_findings(pid):
        func = getattr(mod, "FINDINGS", {}).get(k["probe"])
        if func is None:
            print(f"unknown probe {k['probe']}"); return 2
        ctx = mod.make_ctx()
        try:
            if func(ctx):
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
            else:
                print(f"(the finding '{k['what']}' does not occur any more)")
        finally:
            if hasattr(ctx, "close"): ctx.close()

    for name, prop, quick, thorough, *opt in mod.CHECKS:
        if only and name != only:
            continue
        if status:
            break
        opt = opt[0] if opt else {}
        cases = max(1, int((quick if tier == "quick" else thorough) * scale))
        t1 = time.time()
        res = engine.run_property(f"{pid}/{name}", prop, opt.get("make_ctx", mod.make_ctx), seed, cases, jobs=opt.get("jobs", jobs),
                                  case_timeout=opt.get("timeout", 60), shrink_s=40 if tier == "quick" else 240)
        cov["checks"][name] = dict(evaluations=res.evaluations, discarded=res.discards, distinct_nontrivial=len(res.nontrivial),
                                   events=dict(sorted(res.events.items())), wall_s=round(time.time() - t1, 1))
        cov["evaluations"] += res.evaluations
        cov["distinct_nontrivial"] += len(res.nontrivial)
        for s in res.samples[:max(1, 5 // len(mod.CHECKS))]:
            cov["samples"].append(dict(check=name, case=s))
        print(f"{pid}/{name}: {res.evaluations} cases, {len(res.nontrivial)} distinct non-trivial, {res.discards} discarded, "
              f"{time.time() - t1:.1f}s")
        if res.events:
            print("   ", ", ".join(f"{k}={v}" for k, v in sorted(res.events.items())))
        if res.violation:
            report(pid, name, dict(seed=seed, **res.violation))
            status, nviol = 1, nviol + 1
        elif res.error:
            print(res.error)
            print(f"{pid}/{name}: the check itself failed")
            status = 2
            break
        elif res.evaluations and len(res.nontrivial) < cases * opt.get("min_nontrivial", 0.02):
            print(f"{pid}/{name}: too few non-trivial cases")
            status = 2
            break
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return status

def replay(pid, mod, path):
    with open(path) as f:
        data = json.load(f)
    ctx = mod.make_ctx()
    try:
        if "example" in data:
            func = dict(mod.EXAMPLES)[data["example"]]
            try:
                engine.run_case(lambda g, c: func(c), ctx, None, 120)
                v = None
            except Violation as ex:
                v = ex
        else:
            entry = [c for c in mod.CHECKS if c[0] == data["check"]][0]
            opt = entry[4] if len(entry) > 4 else {}
            if opt.get("make_ctx"):
                if hasattr(ctx, "close"): ctx.close()
                ctx = opt["make_ctx"]()
            g, v = engine.attempt(entry[1], ctx, data["values"], 120)
    finally:
        if hasattr(ctx, "close"): ctx.close()
    if v is None:
        print("the replayed case holds")
        return 0
    print(f"{v.kind}: {v.msg}")
    for k, x in v.details.items():
        print(f"--- {k}:\n{x.decode('latin-1') if isinstance(x, bytes) else x}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
