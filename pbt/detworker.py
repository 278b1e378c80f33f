"""a process that runs the tool on request: one json object per line"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tool

out = os.fdopen(os.dup(1), "w", encoding="ascii")
os.dup2(2, 1)
for line in sys.stdin:
    q = json.loads(line)
    if "seed" in q:
        import random
        random.seed(q["seed"])
        continue
    r = tool.run(q["args"], q["lang"], cwd=q["cwd"])
    out.write(json.dumps(dict(code=r.code, out=r.raw_out.decode("latin-1"), err=r.err, exc=r.exc)) + "\n")
    out.flush()
