#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts plus one section per property, taken from the monitors themselves."""
import ast, os, json, textwrap, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, tests, files, mech, note, technique=None, observe=None):
    P.append(dict(id=id, title=title, text=text, tests=tests, note=note, mech=mech, technique=technique))
exec(open(os.path.join(HERE, "tools", "propdefs.py")).read())
def wrap(s, ind=""): return "\n".join(textwrap.wrap(s, 110, initial_indent=ind, subsequent_indent=ind and "  "))
out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in P:
    src = open(os.path.join(HERE, "props", p["id"] + ".py")).read(); t = ast.parse(src)
    fdoc = {f.name: (ast.get_docstring(f) or "").split("\n")[0] for f in t.body if isinstance(f, ast.FunctionDef)}
    mons, info = [], {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "MONITORS":
            for e in n.value.elts: mons.append((e.elts[0].value, fdoc.get(getattr(e.elts[1], "id", ""), ""), e.elts[2].value, e.elts[3].value, e.elts[4].value if len(e.elts) > 4 else None))
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "INFO": info = ast.literal_eval(n.value)
    out += ["### %s: %s" % (p["id"], p["title"]), ""]
    out += [wrap("Quantified over: %s. Out of the tests' reach because %s." % (p["text"], p["tests"])), ""]
    d = (ast.get_docstring(t) or "").replace("\n", " "); d = d.split(":", 1)[1].strip() if d.startswith(p["id"]) else d
    out += [wrap("Monitors: %s" % d), ""]
    out += [wrap("Oracle and bounds: %s." % p["note"].rstrip(".")), ""]
    if p["technique"]: out += [wrap("Technique: %s." % p["technique"]), ""]
    if info.get("variant", "plain") != "plain": out += ["Build variant: %s." % info["variant"], ""]
    out += [wrap("- `%s`%s (%d cases quick, %d thorough)" % (m, " [%s build]" % v if v else "", q, th) + (": " + dd if dd else "")) for m, dd, q, th, v in mons] + [""]
K = json.load(open(os.path.join(HERE, "known_findings.json")))
out += ["## Findings", "", wrap("known_findings.json lists %d defects of the original tree that the monitors found and that were repaired in /repo (one `fix:` commit each, or one commit for several entries), and the following, which were recorded rather than repaired:" % sum(k["status"] == "fixed" for k in K)), ""]
out += [wrap("- %s (monitor `%s`): %s" % (k["property"], k["monitor"], k["what"])) for k in K if k["status"] == "known"] + [""]
n = {}
for k in K:
    if k["status"] == "fixed": n[k["property"]] = n.get(k["property"], 0)+1
out += [wrap("Repairs per property: " + ", ".join("%s %d" % x for x in sorted(n.items())) + "."), ""]
out += ["## Planted bugs", "", "| bug | property | needs | caught by (quick tier) |", "|---|---|---|---|"]
C = json.load(open(os.path.join(HERE, "tools", "catches.json"))) if os.path.exists(os.path.join(HERE, "tools", "catches.json")) else {}
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), C.get(i, "?")))
out += ["", open(os.path.join(HERE, "tools", "design_tail.md")).read()]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
print("DESIGN.md", len("\n".join(out)))
