#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json,glob,os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
print("| bug | property (= the check that catches it) | what it breaks |\n|---|---|---|")
for f in sorted(glob.glob(here+"/seeded/*/meta.json")):
    m=json.load(open(f)); print("| %s | %s | %s |"%(f.split('/')[-2],m["property"],m["what_it_breaks"]))
