"""writes properties.jsonl and MANIFEST.json from props.py and checks.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.checks import CHECKS  # noqa
from sa.props import PROPS  # noqa
try:
    from sa.props import NA
except ImportError:
    NA = {}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for pid in sorted(PROPS):
        p = PROPS[pid]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "/usr/bin/python3 -m compileall -q sa", "checks": [], "not_applicable": []}
for pid in sorted(PROPS):
    p = PROPS[pid]
    if pid in CHECKS:
        c = {"property": pid, "quick_cmd": f"/usr/bin/python3 sa/run.py {pid}", "technique": p["technique"], "level": "other", "level_note": p["note"]}
        if p["thorough"]:
            c["thorough_cmd"] = f"VERIF_TIER=thorough /usr/bin/python3 sa/run.py {pid}"
        m["checks"].append(c)
    else:
        m["not_applicable"].append({"property": pid, "reason": NA.get(pid, "no check yet")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]], "not claimed")
