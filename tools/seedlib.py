"""Helper for planting bugs: mk(id, prop, edits, demo, needs, breaks) applies the edits in a scratch copy of
/repo, checks that the stable tests still pass there and that the demonstration tells the two apart, and only
then writes seeded/<id>/.  try_checks(id, props) runs checks against the scratch copy with the bug."""
import os, sys, json, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = None
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def env(**kw):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="4", DUCC0_NUM_THREADS="4", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0"); e.update(kw); e.pop("PYTHONPATH", None); return e
def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    sh(["git", "clone", "-q", "/repo", d + "/repo"]); return d
ACT = "import sys; sys.path.insert(0, %r); import pxbuild; pxbuild.activate(%r); "
def runpy(d, pkg, code, cwd, t=600):
    return sh([PY, "-c", ACT % (HERE + "/lib", pkg) + code], env=env(VERIF_REPO=d + "/repo"), cwd=cwd, timeout=t)
def package(d, name):
    p = d + "/" + name
    r = sh([PY, "-c", "import sys; sys.path.insert(0, %r); import pxbuild; pxbuild.make_package('plain', %r)" % (HERE + "/lib", p)], env=env(VERIF_REPO=d + "/repo"))
    if r.returncode: print(r.stdout[-3000:]); raise SystemExit("build failed")
    return p
def demo_run(d, pkg, demo): return runpy(d, pkg, "import runpy; runpy.run_path(%r, run_name='__main__')" % demo, d + "/repo", 300)
def mk(id, prop, edits, demo, needs, breaks, tests=True, keep=False):
    d = scratch()
    try:
        df = d + "/demo.py"; open(df, "w").write(demo)
        r = demo_run(d, package(d, "pkg0"), df)
        if r.returncode: print(id, "demo fails on the unchanged tree\n", r.stdout[-1500:]); return False
        for f, old, new in edits:
            p = d + "/repo/" + f; s = open(p).read(); assert s.count(old) == 1, (id, f, s.count(old), old); open(p, "w").write(s.replace(old, new))
        pkg = package(d, "pkg1")
        r = demo_run(d, pkg, df)
        if r.returncode == 0: print(id, "demo passes with the bug"); return False
        print(id, "demo:", r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else "")
        if tests:
            r = runpy(d, pkg, "import pytest; sys.exit(pytest.main(['-q','-p','no:cacheprovider','-x','--timeout=300','tests']))", d + "/repo")
            ok = "39 passed" in r.stdout and "failed" not in r.stdout.splitlines()[-1]
            if not ok: print(id, "tests:", r.stdout.strip().splitlines()[-3:]); return False
        diff = sh(["git", "-C", d + "/repo", "diff"]).stdout
        o = HERE + "/seeded/" + id; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff); open(o + "/demo.py", "w").write(demo)
        open(o + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=4\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'); os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
        try_checks(id, [prop], d)
        return True
    finally: shutil.rmtree(d, ignore_errors=True)
def try_checks(id, props, d=None, tier="quick", seed=1):
    own = d is None
    if own:
        d = scratch(); r = sh(["git", "-C", d + "/repo", "apply", HERE + "/seeded/%s/patch.diff" % id])
        if r.returncode: print(id, "does not apply", r.stdout); return
    try:
        for p in props:
            r = sh([HERE + "/check.py", p, "--tier", tier, "--seed", str(seed)], cwd=HERE, env=env(VERIF_REPO=d + "/repo"))
            print("  %s %s rc=%d %s" % (id, p, r.returncode, " | ".join(l for l in r.stdout.splitlines() if "VIOLATION" not in l and "inputs:" not in l)[-300:]))
    finally:
        if own: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    import glob
    ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
    for i in ids: try_checks(i, [json.load(open(HERE + "/seeded/%s/meta.json" % i))["property"]])
