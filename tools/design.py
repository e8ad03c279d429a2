#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (tools/DESIGN.in.md) from tools/props.py, tools/methods.py and seeded/*/meta.json."""
import os, sys, json, glob
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
from methods import METHODS
root = os.path.dirname(here)
PROPS.sort(key=lambda p: p["id"])
out = ["## Properties and how each is decided", ""]
for p in PROPS:
    out += ["### %s %s" % (p["id"], p["title"]), "", METHODS[p["id"]].strip(), ""]
seeds = ["| id | property (its check catches it) | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
s = open(here + "/DESIGN.in.md").read().replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds))
open(root + "/DESIGN.md", "w").write(s)
