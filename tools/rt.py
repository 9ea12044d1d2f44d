#!/usr/bin/env python3
"""run the repository's tests and compare with the baseline"""
import json, subprocess, sys
out = sys.argv[1] if len(sys.argv) > 1 else "/tmp/mbv-rt.json"
subprocess.run(["bash", "/opt/vp/test.sh", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = set(json.load(open(out))["passed"])
print("baseline %d, passed %d, lost: %s" % (len(b), len(o), sorted(b - o)))
sys.exit(1 if b - o else 0)
