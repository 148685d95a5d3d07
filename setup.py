#!/usr/bin/env python3
"""Build the rustc driver and warm the dependency caches of the analysed crates."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import dump
dump.driver()
print("spec:", len(dump.spec_dump()["bodies"]), "bodies")
for c in dump.CONFIGS:
    print(c + ":", len(dump.repo_dump(c)["bodies"]), "bodies")
