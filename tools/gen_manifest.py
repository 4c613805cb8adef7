#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PY = "/opt/veriftools/pyvenv/bin/python3"
PURE = {
    "M01": "A pure function of one ranking: no schedule, clock, I/O or second party can influence it, so there is nothing for a simulator to decide. Its end-to-end form, the values that evaluate reports, is C02; its independence of schedule and history is T01.",
    "M02": "A pure arithmetical fact about single calls, without anything to schedule or to fault; C02 compares every value that evaluate reports with the definition.",
    "M03": "A pure fact about single calls, without anything to schedule or to fault; C02 evaluates cut-offs of zero and unjudged documents against the reference.",
    "M04": "A pure function on strings, without anything to schedule or to fault; that it does not depend on schedule and history is T02.",
    "M05": "A pure fact about single calls, without anything to schedule or to fault; its end-to-end form is C02 and S02.",
    "A01": "A pure function of one sample, without anything to schedule or to fault; its end-to-end form is C03, its independence of schedule and history T02.",
    "A02": "A pure function of one matrix, without anything to schedule or to fault; its end-to-end form is C03, its independence of schedule and history T02.",
    "A03": "A pure function of one matrix, without anything to schedule or to fault; its end-to-end form is C03, its independence of schedule and history T02.",
    "A04": "A pure function of its maps, without anything to schedule or to fault; its independence of schedule and history is T02.",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PURE:
        na.append({"property": p, "reason": PURE[p]})
    elif os.path.exists(os.path.join(V, "simlib", "props", p.lower() + ".py")):
        m = importlib.import_module("simlib.props." + p.lower()).P
        checks.append({"property": p, "quick_cmd": "%s check.py %s --tier quick" % (PY, p), "thorough_cmd": "%s check.py %s --tier thorough" % (PY, p),
                       "technique": m.technique, "level": "exploration", "level_note": m.level_note or "Seeded search: " + m.rule})
    else:
        na.append({"property": p, "reason": "Not claimed yet: its check is not built."})
json.dump({"version": 1, "setup_cmd": PY + " check.py --build", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
