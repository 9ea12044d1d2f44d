#!/usr/bin/env python3
"""(Re)generates MANIFEST.json from properties.jsonl and the property modules present"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
FAULT = {"C09"}
NOTE = {}
checks, na = [], []
for p in props:
    m = os.path.join(V, "mbv/props/%s.py" % p["id"].lower())
    if not os.path.exists(m):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    src = open(m).read()
    lev = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    tech = re.search(r'^TECHNIQUE = "(.*)"', src, re.M)
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                   "technique": tech.group(1) if tech else "bounded-exhaustive exploration of the real code against a reference model",
                   "level": lev,
                   "level_note": "Every case of the bounded space stated in the evidence file is executed on the real code and compared with an independent reference model; nothing is claimed outside those bounds (see DESIGN.md). Trusts the Python runtime, the bagit and fs packages and the model in mbv/model.py."})
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "All checks: run.py <ID> [--tier quick|thorough] [--replay FILE]. Scratch data lives in a fresh directory under /dev/shm (or /tmp) and is removed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
