#!/usr/bin/env python3
"""catch.py [ID..]: apply each seeded change to /repo, run its property's check, undo"""
import json, os, subprocess, sys
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    pid = json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.getoutput("git -C /repo status --porcelain").strip()
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        for p in [pid] + [x for x in os.environ.get("ALSO", "").split(",") if x]:
            r = subprocess.run([sys.executable, V + "/check.py", p, "--tier", "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            ok = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
            ls = [l for l in r.stdout.splitlines() if l.startswith("  ") and not l.startswith("    ")]
            print("%s %s %s rc=%d | %s" % (i, p, "CAUGHT" if ok else "MISSED", r.returncode, " || ".join(x.strip() for x in ls)[:400]))
            sys.stdout.flush()
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
