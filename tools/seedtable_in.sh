#!/bin/sh
# Replaces the table of planted bugs in DESIGN.md by the current one.
cd "$(dirname "$0")/.." && python3 - <<'P'
import subprocess
t=subprocess.run(["python3","tools/seedtable.py"],capture_output=True,text=True).stdout.rstrip("\n")
L=open("DESIGN.md").read().split("\n")
i=L.index("<!-- tools/seedtable.py -->")+1
j=i
while j<len(L) and L[j].startswith("|"): j+=1
L[i:j]=t.split("\n")
open("DESIGN.md","w").write("\n".join(L))
P
