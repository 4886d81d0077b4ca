#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib")
sys.dont_write_bytecode = True
import plan
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plan.PLAN:
        na.append({"property": i, "reason": plan.NOT.get(i, "its specification module and driver are not finished")})
        continue
    pl = plan.PLAN[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": pl.get("technique", plan.TECHNIQUE), "level": pl.get("level", "model_checking"),
                   "level_note": pl.get("note", "") + plan.NOTE})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the real sources are compiled unchanged and observed by redirecting their calls to libc, pthreads and OpenSSL at link time. TLA+ with TLC throughout."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
