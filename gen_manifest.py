#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the modules in pbt/props"""
import json, os, re, ast
here = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    path = os.path.join(here, "pbt", "props", p.lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=p, reason="no check has been built for it yet"))
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("TECHNIQUE", "NOTE"):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append(dict(property=p, quick_cmd=f"./run.sh {p} quick", thorough_cmd=f"./run.sh {p} thorough", evidence_file=f"evidence/{p}.json",
        technique=consts["TECHNIQUE"], level="exploration", level_note=consts["NOTE"]))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo. Everything is driven through the command line entry points of shrinko8.py and shrinkotron.py, in-process."),
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
