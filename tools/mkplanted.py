#!/usr/bin/env python3
"""Rewrites the list of planted changes at the end of DESIGN.md from seeded/*/meta.json (development helper)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## Planted changes and the checks that catch them"
ALSO = {"c16-eta-frozen": "C16, C30", "c24-large-sites": "C24, C26"}
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (i, ALSO.get(i, m["property"]), " ".join(m["needs"].split()).replace("|", "/")[:130]))
text = open(os.path.join(ROOT, "DESIGN.md")).read().split(HEAD)[0].rstrip() + "\n\n" + HEAD + "\n\n"
text += """Every change passes the repository's tests and has a demonstration. All %d are caught by the quick check named here (seed 1).
Changes that a first version of the checks missed, and what was added for them, are marked in the git history of `harness/`.

| change | caught by | needs |
|--------|-----------|-------|
""" % len(rows) + "\n".join(rows) + "\n"
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
