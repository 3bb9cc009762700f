#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md from the output of `mkseed.py --check --all`: gen_catches.py LOG."""
import re, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for line in open(sys.argv[1], errors="replace"):
    m = re.match(r"(c\d+-\S+) (caught \S+|\S+)\s*(?:by (\S+))?", line.strip())
    if not m: continue
    id = m.group(1)
    if not os.path.isdir(os.path.join(root, "seeded", id)): continue
    prop = id.split("-")[0].upper()
    by = m.group(3) if m.group(2).startswith("caught") else "missed"
    others = [x for x in (by or "").split(",") if x and x != prop and x != "missed"]
    rows.append((id, prop if by != "missed" and prop in (by or "") else "missed" , " ".join(others)))
rows.sort()
missed = [r for r in rows if r[1] == "missed"]
out = ["%d planted bugs, %d caught by the check of the property they break." % (len(rows), len(rows) - len(missed)), "",
       "| planted bug | own check | also reported by |", "|---|---|---|"]
out += ["| %s | %s | %s |" % r for r in rows]
p = os.path.join(root, "DESIGN.md"); s = open(p).read()
a, b = "<!-- catches:begin -->", "<!-- catches:end -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
