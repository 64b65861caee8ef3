#!/usr/bin/env python3
"""Builds /repo, runs its tests and lists stable tests that do not pass."""
import json, subprocess, sys
subprocess.run("bash /opt/vp/build.sh >/tmp/rb.log 2>&1 || tail -20 /tmp/rb.log", shell=True)
subprocess.run("bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1", shell=True)
t = json.load(open("/tmp/rt.json")); b = json.load(open("/opt/vp/BASELINE.json"))
bad = [x for x in b["stable"] if x not in t["passed"]]
print(len(t["passed"]), "passed; stable not passing:", bad)
sys.exit(bool(bad))
