#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props/*.py (kept in step)."""
import glob
import json
import os
import runpy

HERE = os.path.dirname(os.path.abspath(__file__))
props, na = [], []
for f in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
    g = runpy.run_path(f)
    props += g["PROPS"]
    na += g.get("NOT_APPLICABLE", [])

TECH = "symbolic execution of the real source (AST-instrumented, path-exhaustive within bounds) with Z3 deciding every branch and assertion; counterexamples replayed on the real code"
seen = set()
with open(os.path.join(HERE, "properties.jsonl"), "w") as out:
    for p in props + [n["p"] for n in na]:
        assert p["id"] not in seen, p["id"]
        seen.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p.get("over", ["inputs"]), "text": p["forall"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}
        out.write(json.dumps(d) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3'",
    "checks": [
        {"property": p["id"],
         "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
         "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
         "technique": p.get("tech", TECH),
         "level": "model_checking",
         "level_note": p["note"]}
        for p in props],
    "not_applicable": [{"property": n["p"]["id"], "reason": n["reason"]} for n in na],
    "notes": "No hooks in /repo: the instrumentation is applied to the source text as it is loaded by the checks. Genuine defects repaired in /repo are listed in known_findings.txt.",
}
json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(props), "claimed,", len(na), "not applicable")
