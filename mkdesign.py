#!/usr/bin/env python3
"""Writes the seeded-bug table into DESIGN.md from catches.tsv (id, property, caught yes/no, message)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
rows = [l.rstrip("\n").split("\t") for l in open(os.path.join(HERE, "catches.tsv"))]
doc = open(os.path.join(HERE, "DESIGN.md")).read()
a, b = "<!-- catches -->\n", "<!-- /catches -->"
tab = ["%d of %d planted changes are caught by the quick check of their property (VERIF_SEED=1).\n" % (
    sum(r[2] == "yes" for r in rows), len(rows)), "| change | check | caught | first report |", "|---|---|---|---|"]
tab += ["| %s | %s | %s | %s |" % (r[0], r[1], r[2], (r[3] if len(r) > 3 else "").replace("|", "/")) for r in rows]
i, j = doc.index(a) + len(a), doc.index(b)
open(os.path.join(HERE, "DESIGN.md"), "w").write(doc[:i] + "\n".join(tab) + "\n" + doc[j:])
