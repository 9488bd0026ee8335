#!/usr/bin/env python3
"""run /opt/vp/test.sh and list stable tests that no longer pass"""
import json, subprocess, sys, tempfile, os
out = tempfile.mktemp(suffix=".json")
subprocess.run(["bash", "/opt/vp/test.sh", out], stdout=subprocess.DEVNULL,
               stderr=subprocess.DEVNULL)
o = json.load(open(out)); os.unlink(out)
b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
miss = sorted(set(b) - set(o["passed"]))
print(len(b), "stable;", "missing:", miss)
sys.exit(bool(miss))
