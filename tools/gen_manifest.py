#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    p = PROPS.get(i)
    if not p:
        na.append({"property": i, "reason": "no check built yet"}); continue
    tsan = any(x["variant"] == "tsan" for x in p["parts"])
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
        "technique": p.get("technique") or ("runtime monitoring: generated workloads on the real library under " + ("ThreadSanitizer and " if tsan else "") + "ASan+UBSan, event logs judged by an independent oracle"),
        "level": p["level"], "level_note": p.get("note") or p["rule"]})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "MDFLIB_VERIF_HOOKS", "enable": "the checks compile /repo's sources with -DMDFLIB_VERIF_HOOKS",
               "source_commits": ["4021e65"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
