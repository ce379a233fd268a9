#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (documentation only; no check reads seeded/)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# planted bugs that a check missed when they were written, and what was done about it
MISSED = {
    "c06-loopback": "missed at first; the directions now send equal plaintexts and the ciphertexts are compared",
    "c22-bounded": "missed at first; floods of failing requests that nobody reads added",
    "c22-patient": "missed at first; addresses that never answer added",
    "c07-long-ad": "missed at first; associated data of up to 70000 bytes and nearly equal data added",
    "c08-lockdown": "missed at first; floods of bad messages added",
    "c21-dropped-events": "missed at first; the caller may give up the event stream",
    "c22-polled-end": "missed at first; the end is looked for by polling, too",
    "c23-busy-directory": "missed at first; second starts on a directory in use added",
    "c24-bad-clients": "missed at first; streaks of like connections added",
}
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    cell = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (i, cell(m["what_it_breaks"]), cell(m["needs"]), m["property"] + (": " + MISSED[i] if i in MISSED else "")))
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
mark = "<!-- planted bugs -->"
s = s[:s.index(mark)] + mark + "\n| planted bug | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(d, "w").write(s)
