#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when it changes)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, tests, files, mech, note, technique=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, note=note, technique=technique, observe=observe))
exec(open(os.path.join(HERE, "tools", "propdefs.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"] or ["return values of the public functions, compared in the harness (props/%s.py)" % p["id"]], "hook_needed": None}}) + "\n")
checks = []
for p in P:
    if not os.path.exists(os.path.join(HERE, "props", p["id"]+".py")) and not os.path.exists(os.path.join(HERE, "props", p["id"]+"_run.py")):
        print("no monitor for", p["id"]); continue
    checks.append({"property": p["id"], "quick_cmd": "./check.py %s" % p["id"], "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"] or "runtime monitors (reference-model oracles) on the real code under seeded hostile workloads",
        "level": "exploration", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python lib/pxbuild.py plain asan tsan", "checks": checks, "not_applicable": [],
  "notes": "No hooks in /repo: every observation is made at the public interface or by sanitizer instrumentation added at build time. The commits in /repo are all repairs (fix:), listed in known_findings.json."},
  open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
