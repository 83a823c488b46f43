"""Worker: runs one shard of a property's cases and streams results as json lines."""
import os, sys, json, importlib, faulthandler
sys.dont_write_bytecode = True
def main():
    a = json.load(open(sys.argv[1]))
    faulthandler.enable()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import pxbuild
    pxbuild.activate(a["pkg"])
    cov = os.environ.get("VERIF_COV")     # development aid: which lines of pixell a check reaches (tools/coverage.py)
    if cov:
        mt, seen = sys.monitoring, set()
        def line(code, no):
            if "/pixell/" in code.co_filename: seen.add((os.path.basename(code.co_filename), no))
            return mt.DISABLE
        mt.use_tool_id(mt.COVERAGE_ID, "verif"); mt.register_callback(mt.COVERAGE_ID, mt.events.LINE, line); mt.set_events(mt.COVERAGE_ID, mt.events.LINE)
    import harness
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props"))
    mod = importlib.import_module(a["prop"])
    mons = {m[0]: m[1] for m in mod.MONITORS}
    out = open(a["out"], "a", buffering=1)
    import native
    san, pos = os.environ.get("PX_SANLOG"), {}
    if getattr(mod, "INFO", {}).get("native"): native.watch()
    if san: native.san_new(san, pos)      # what was reported while importing is not pixell's
    for mon, idx in a["cases"]:
        out.write(json.dumps({"start": [mon, idx]}) + "\n"); out.flush()
        old = native.snapshot()
        r = harness.run_case(a["prop"], mon, mons[mon], a["seed"], idx, a["tier"])
        r["native"] = native.diff(old)
        if san:
            text = native.san_new(san, pos); rep = native.reports(text) if text else []
            if rep: r.update(status="violation", msg="; ".join(sorted(set(rep))[:4])[:800], trace=text[:6000])
        out.write(json.dumps(r, default=str) + "\n"); out.flush()
    if cov: open(os.path.join(cov, "%s-%d" % (a["prop"], os.getpid())), "w").write("\n".join("%s %d" % x for x in sorted(seen)))
    out.write(json.dumps({"end": True}) + "\n")
main()
