"""Development aid: lines of pixell's python code that no check reaches.
usage: VERIF_COV=dir ./check.py ID ... ; tools/coverage.py dir REPO [module.py ...]"""
import sys, os, ast
d, repo, mods = sys.argv[1], sys.argv[2], sys.argv[3:]
seen = {}
for f in os.listdir(d):
    for l in open(os.path.join(d, f)):
        m, n = l.split(); seen.setdefault(m, set()).add(int(n))
for m in mods or sorted(seen):
    p = os.path.join(repo, "pixell", m)
    if not os.path.exists(p): continue
    src = open(p).read(); L = src.split("\n"); t = ast.parse(src); tot = hit = 0
    for fn in ast.walk(t):
        if not isinstance(fn, ast.FunctionDef): continue
        lines = {s.lineno for b in fn.body for s in ast.walk(b) if isinstance(s, ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.Global)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))}
        miss = sorted(x for x in lines if x not in seen.get(m, ())); tot += len(lines); hit += len(lines)-len(miss)
        if not miss: continue
        if len(miss) == len(lines): print("%s:%d %s: not reached (%d lines)" % (m, fn.lineno, fn.name, len(lines)))
        else:
            print("%s:%d %s: %d of %d lines missed" % (m, fn.lineno, fn.name, len(miss), len(lines)))
            for x in miss: print("    %d: %s" % (x, L[x-1].strip()[:110]))
    print("== %s: %d of %d lines" % (m, hit, tot))
