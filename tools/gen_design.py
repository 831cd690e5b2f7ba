#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"c02-negative-base-exponent": "C02", "c05-neg-in-place": "C18", "c05-shared-digest": "C06", "c13-last-digit-only": "C14",
    "c15-shared-pool": "C17", "c19-borrowed-generators": "C06", "c20-negated-encoding": "C17 C16", "c18-add-writes-operand": "C05",
    "c20-reused-receiver": "C17", "c06-parallel-halves": "C05 C10 C04"}
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    also = ALSO.get(os.path.basename(os.path.dirname(f)), "").split()
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), " ".join(m["needs"].split()).replace("|", "/"),
        ", ".join([m["property"]] + also)))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\| bug \| needs \| caught by \|\n\|---\|---\|---\|\n(SEEDTABLE|(\|.*\n)*\|.*)", lambda _: "\n".join(rows), s)
open(p, "w").write(s)
