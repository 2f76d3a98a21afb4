#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
NA = {
 "C22": "A pure function of one input: no schedule, clock, I/O, crash or history for a simulator to control. Testing inputs "
        "would be input generation, not simulation.",
 "C23": "A pure function of the constructor arguments; no concurrency, time, I/O or multi-step behaviour is involved.",
 "C24": "A statistical quality of the detection algorithms on data distributions; it is not decidable by any schedule, fault or "
        "history and has no sharp oracle.",
}
NOTES = json.load(open(os.path.join(HERE, "level_notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NA:
        na.append(dict(property=p, reason=NA[p]))
    elif os.path.exists(os.path.join(HERE, "dst", "props", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="%s check.py %s" % (PY, p),
                           thorough_cmd="%s check.py %s --tier thorough" % (PY, p),
                           evidence_file="evidence/%s.json" % p,
                           technique="deterministic simulation with fault injection: seeded search over schedules and fault sequences",
                           level="exploration", level_note=NOTES.get(p, NOTES["default"])))
    else:
        na.append(dict(property=p, reason="not built yet"))
doc = dict(version=1, setup_cmd="%s -c \"import sys; sys.path.insert(0, '/repo'); import pysad\"" % PY, checks=checks,
           not_applicable=na,
           notes="One seed (VERIF_SEED, property, run index) is one exactly repeatable simulated run. No hooks in /repo: the seams "
                 "are the public methods, the two process-wide random generators, sys.settrace line events, open() and time(), "
                 "all controlled from outside. Replays: /opt/venv/bin/python check.py replay FILE.")
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
