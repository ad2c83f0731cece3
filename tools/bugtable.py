"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json.
Arguments: ids whose check has to be marked as missing the bug."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {
    "C01c": "systems with equal and empty names",
    "C02c": "edits of one number of a geometry, twins that differ in one",
    "C03d": "settings reset before each run, caller's own settings",
    "C05c": "the same list objects passed again",
    "C06d": "contradictory limits",
    "C03e": "contour plots of the first electrode's grid",
    "C06f": "narrow ranges, optimality within 1e-5",
    "C13e": "exact demands among the constraints sent to workers",
    "C17d": "orientations close to gimbal lock or half a turn",
    "C16e": "euler angles of modes that are no proper rotation",
    "C26d": "patches without area",
    "C06e": "exact values with limits that exclude them",
    "C09e": "a second electrode of the same list of arrays",
    "C09c": "the file rewritten and loaded again",
    "C13c": "the stand-in pool on live objects, repeated after edits",
}
try:
    FIRST_MISSED.update(json.load(open(os.path.join(
        HERE, "tools", "first_missed.json"))))
except OSError:
    pass
rows = ["| bug | needs | breaks | caught by | |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (
        i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"),
        "not caught" if i in sys.argv[1:] else m["property"],
        "missed at first; added: " + FIRST_MISSED[i]
        if i in FIRST_MISSED else ""))
d = os.path.join(HERE, "DESIGN.md")
s = open(d).read()
a, b = "<!-- bugs -->", "<!-- /bugs -->"
s = s[:s.index(a)+len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(d, "w").write(s)
