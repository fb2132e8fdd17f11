#!/usr/bin/env python3
"""Generates MANIFEST.json from the list of properties and the modules in props/."""
import json, os, sys, importlib
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "props")]
NA = {
}
LEVEL = "other"
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    id = p["id"]
    f = os.path.join(ROOT, "props", id.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module(id.lower())
        checks.append(dict(property=id, quick_cmd="python3 check.py %s quick" % id,
                           thorough_cmd="python3 check.py %s thorough" % id,
                           evidence_file="evidence/%s.json" % id,
                           technique=getattr(m, "SHORT", "path-partitioned abstract interpretation of LLVM IR"),
                           level=LEVEL, level_note=m.NOTE))
    else:
        na.append(dict(property=id, reason=NA.get(id, "No static check built yet.")))
json.dump(dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0, \"lib\"); import ir; ir.load()'",
               checks=checks, not_applicable=na,
               notes="All checks are static analyses of /repo's current sources (clang -emit-llvm, never executed). See DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
