#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, level="model_checking",
         observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level, observe=list(observe), na=na))


SCHED = "stateless exploration of every event ordering of the real simulator against an operational reference model"
CTMC = "explicit-state Markov model of the queue (all reachable states), conformance of the implementation over an exhaustive parameter grid"
GRID = "exhaustive enumeration of a bounded input grid against an independent reference model"

exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x

checks, na = [], []
for p in P:
    built = os.path.exists(os.path.join(V, "mc", "checks", p["id"].lower() + ".py"))
    if p["na"] or not built:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 run_check.py %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py %s" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1,
               "setup_cmd": "python3 run_check.py setup",
               "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: every random draw is already reachable through numpy's generator "
                        "objects, which the checks replace from outside."}, f, indent=1)
print(len(P), "properties,", len(checks), "checks,", [x["property"] for x in na])
