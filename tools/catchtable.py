#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (development aid)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED_FIRST = {"c27-ack-first", "c12-scratch-buffer", "c14-hex-key", "c16-root-32bit", "c09-long-unknown", "c16-leftover", "c11-sixteen-open", "c13-sweep", "c15-batches", "c17-first-entries", "c19-heap-limit", "c13-callback-first", "c03-total-bytes", "c24-large-write", "c11-failed-photo"}
rows = ["| planted bug | caught by | what it needs |", "|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    rows.append("| %s | %s%s | %s |" % (d, m["property"], " (after strengthening)" if d in MISSED_FIRST else "", m["needs"]))
s = open(R + "/DESIGN.md").read()
a, b = s.index("<!-- table -->"), s.index("<!-- /table -->")
open(R + "/DESIGN.md", "w").write(s[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + s[b:])
