#!/usr/bin/env python3
"""all.py [tier]: run every registered check on /repo, one after another"""
import json, subprocess, sys, time
t = sys.argv[1] if len(sys.argv) > 1 else "quick"
bad = 0
for c in json.load(open("/verif/MANIFEST.json"))["checks"]:
    cmd = c["quick_cmd"] if t == "quick" else c["thorough_cmd"]
    t0 = time.time()
    p = subprocess.run(cmd, shell=True, cwd="/verif", capture_output=True, text=True)
    bad += p.returncode != 0
    print(p.returncode, "%.0fs" % (time.time() - t0), p.stdout.strip()[-1500:], p.stderr[-500:], flush=True)
print("not quiet:", bad)
