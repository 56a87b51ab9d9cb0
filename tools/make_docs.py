"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py:  python3-vt tools/make_docs.py"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from table import TABLE  # noqa: E402

props, checks = [], []
for r in TABLE:
    if not os.path.exists(os.path.join(V, "checks", r["id"] + ".py")):
        continue
    assert len(r["title"]) <= 80, r["title"]
    props.append({"id": r["id"], "title": r["title"], "statement": r["statement"],
                  "quantifier": {"over": r["over"], "text": r["text"]}, "why_tests_cant": r["why"],
                  "anchors": {"files": r["files"], "mechanism": [{"name": n, "where": w} for n, w in r["mech"]],
                              "observe_at": r["observe"], "hook_needed": None}})
    checks.append({"property": r["id"], "quick_cmd": f"python3-vt run.py {r['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3-vt run.py {r['id']}",
                   "evidence_file": f"evidence/{r['id']}.json",
                   "technique": "property-based testing (Hypothesis): " + r["technique"],
                   "level": "exploration", "level_note": r["note"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3-vt -c 'import hypothesis, numpy, sympy'", "checks": checks,
       "not_applicable": [],
       "notes": "No hooks: the checks drive the package's own functions, imported from /repo's working tree. "
                "VERIF_SEED seeds every random choice, VERIF_TIER selects the budget."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
import jsonschema  # noqa: E402
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
for p in props:
    jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
print(len(props), "properties")
