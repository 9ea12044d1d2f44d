#!/usr/bin/env python3
"""fill the generated tables of DESIGN.md (between the marker lines) from the property modules and the findings file"""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
kf = json.load(open(os.path.join(V, "known_findings.json")))

def spaces():
    out = []
    for p in props:
        m = importlib.import_module("mbv.props." + p["id"].lower())
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("* decided by: %s" % m.TECHNIQUE)
        out.append("* rule checked on every execution: %s" % m.RULE)
        out.append("* bounds, quick: %s" % m.BOUNDS["quick"])
        out.append("* bounds, thorough: %s" % m.BOUNDS["thorough"])
        for a in m.ASSUMPTIONS:
            out.append("* assumption: %s" % a)
        out.append("")
    return "\n".join(out)

def findings():
    out = ["Known findings (not repaired):", ""]
    out += ["* `%s` (%s): %s" % (f["id"], f["property"], f["what"]) for f in kf["findings"]]
    out += ["", "Repaired (one `fix:` commit each):", ""]
    out += ["* %s" % f for f in kf["fixed"]]
    return "\n".join(out)

def seeded():
    out = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
    d = os.path.join(V, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), m.get("caught", "yes")))
    return "\n".join(out)

f = os.path.join(V, "DESIGN.md")
s = open(f).read()
for name, fn in (("spaces", spaces), ("findings", findings), ("seeded", seeded)):
    s = re.sub(r"(<!-- begin %s -->\n).*?(<!-- end %s -->)" % (name, name), lambda m: m.group(1) + fn() + "\n" + m.group(2), s, flags=re.S)
open(f, "w").write(s)
