#!/usr/bin/env python3
"""Writes known_findings.json: the repairs committed in /repo (from their commit messages and the table below,
which says which property each belongs to) and the defects recorded rather than repaired.  Run by hand."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "findings.py")).read())   # PROPERTY_OF: subject -> property, KNOWN: list
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h\t%s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
out = list(KNOWN); miss = []
undone = {l.split("Revert \"",1)[1].rstrip("\"") for l in log if "\tRevert \"" in l}
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix: ") or s in undone: continue
    s = s[5:]; p = next((v for k, v in PROPERTY_OF if k in s), None)
    if p is None: miss.append(s); continue
    out.append({"property": p, "status": "fixed", "commit": h, "what": "fixed: property=%s %s before the repair this failed: %s" % (p, h, s)})
json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(out), "entries; without a property:", miss)
