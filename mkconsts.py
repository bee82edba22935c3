#!/usr/bin/env python3
"""records the numeric literals of the original source (dev tool): search hints only"""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc.draw import mine
out = {}
for f in sorted(glob.glob("/repo/welleng/**/*.py", recursive=True)):
    out[os.path.relpath(f, "/repo")] = mine([f])
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data/consts.json"), "w"))
print(sum(map(len, out.values())))
