#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and lmverif/rules/meta.json from tool/props.py (run by hand, not by checks)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tool"))
import props
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mech"]]}}) + "\n")
checks, na, meta = [], [], {}
for p in props.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 /verif/check.py %s" % p["id"], "thorough_cmd": "python3 /verif/check.py %s" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
    meta[p["id"]] = {"module": p["id"].lower(), "rule": p["rule"], "assumptions": p["assume"]}
json.dump({"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: facts extracted from clang's type-checked AST of every translation unit on every run (about 30 s), then one rule per property. No hooks in /repo."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
json.dump(meta, open(os.path.join(H, "lmverif", "rules", "meta.json"), "w"), indent=1)
