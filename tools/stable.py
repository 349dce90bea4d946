#!/usr/bin/env python3
"""rebuild /repo and run its tests; prints the stable tests that no longer pass"""
import json, subprocess
subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/stable_out.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = json.load(open("/tmp/stable_out.json"))
print("lost:", sorted(b - set(o["passed"])), "passed:", len(o["passed"]))
