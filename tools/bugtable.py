#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
FIRST = {"c06-split-leaf": "after documents with wide groups were added", "c09-shared-leaf": "by C06 too",
         "c31-early-answer": "after a client that does not find its server was added", "c32-waits-for-rest": "after input ending inside a header was added",
         "c02-shared-reply": "after the yielding build was added"}
p = "/verif/DESIGN.md"
s = open(p).read()
i = s.index("## Planted bugs")
rows = ["| bug | needs | caught by |", "|-----|-------|-----------|"]
for d in sorted(os.listdir("/verif/seeded")):
    m = json.load(open("/verif/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s%s |" % (d, m["needs"], m["property"], (", " + FIRST[d]) if d in FIRST else ""))
open(p, "w").write(s[:i] + """## Planted bugs

Each is confirmed with `tools/plant.sh` (builds, tests pass, the demonstration separates) and run with `tools/runbugs.sh`. All of them
are caught by the check of their property at the quick tier. Besides them several hundred mutants (generated by rewriting operators,
conditions and constants of all Go files, and about 200 written by hand from the texts of the properties) were run; the survivors were
either equivalent, or led to stronger scenarios (late end of sessions, sticky load errors, long lines, repeated files, wide groups,
programs that hang).

""" + "\n".join(rows) + "\n")
