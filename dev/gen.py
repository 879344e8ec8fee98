"""Writes properties.jsonl and MANIFEST.json from dev/props.py (one source of truth)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
from props import NOT_APPLICABLE, PROPS  # noqa: E402
from specs.table import TABLE  # noqa: E402

TECH = "abstract interpretation of the parsed source over finite abstract domains"
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
checks = []
na = {x["property"] for x in NOT_APPLICABLE}
for p in PROPS:
    if p["id"] in na or p["id"] not in TABLE:
        assert p["id"] in na, "property %s has neither a check nor a reason" % p["id"]
        continue
    checks.append({
        "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "technique": TECH + (": " + p["domain"] if p.get("domain") else ""), "level": "other",
        "level_note": p["note"]})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
               "not_applicable": NOT_APPLICABLE,
               "notes": "No hooks in /repo. Checks parse /repo's working tree on every run; nothing is cached between runs. "
                        "See DESIGN.md."}, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
