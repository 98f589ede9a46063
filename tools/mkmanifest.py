#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/tools/props.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    c = cfg.get(d["id"])
    if not c or "na" in c:
        na.append({"property": d["id"], "reason": (c or {}).get("na", "not yet built: no contracts for the functions that decide it")})
        continue
    checks.append({
        "property": d["id"],
        "quick_cmd": "./check.sh %s quick" % d["id"],
        "thorough_cmd": "./check.sh %s thorough" % d["id"],
        "technique": c.get("technique", "contract-based deductive verification of the Go functions (gocv: weakest-precondition style VCs from go/ssa, rewriting + z3/cvc5)"),
        "level": c["level"],
        "level_note": c.get("note", "every obligation of every function under contract is discharged for all inputs on each run; on a failure a concrete input is searched on the real code"),
    })
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "no hook commits in /repo; the oracle program and in-package harnesses are compiled in with go build -overlay", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
