"""Writes DESIGN.md from design_head.md, props.py, the specifications and the seeded changes."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
from props import ENG, NOT_APPLICABLE, PROPS  # noqa: E402
from specs.table import TABLE  # noqa: E402

out = [open(os.path.join(HERE, "design_head.md")).read().rstrip("\n") + "\n", "## 4. Property by property\n"]
times = {}
for p in PROPS:
    e = os.path.join(VERIF, "evidence", p["id"] + ".json")
seeds = {}
sd = os.path.join(VERIF, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m))
na = {x["property"]: x["reason"] for x in NOT_APPLICABLE}
for p in PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p["id"] in na:
        out.append("Not applicable: %s\n" % na[p["id"]])
        continue
    mod, fn = TABLE[p["id"]].split(":")
    meta = importlib.import_module("specs." + mod).META[p["id"]]
    out.append("* *Stated over*: %s." % p["quantifier"]["text"].rstrip("."))
    out.append("* *Decided by* `specs/%s.py:%s`: %s" % (mod, fn, meta["explanation"]))
    out.append("* *Domain*: %s.  *Bounds and trust*: %s" % (p.get("domain") or "finite abstract domains",
                                                           p["note"].replace(ENG, "") or "none beyond section 1"))
    out.append("* *Why tests do not settle it*: %s" % p["why_tests_cant"])
    if seeds.get(p["id"]):
        out.append("* *Planted changes it reports*: %s." % "; ".join("`%s` (%s)" % (d, m["needs"]) for d, m in seeds[p["id"]]))
    out.append("")
tail = os.path.join(HERE, "design_tail.md")
if os.path.exists(tail):
    out.append(open(tail).read())
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write("\n".join(out).rstrip("\n") + "\n")
