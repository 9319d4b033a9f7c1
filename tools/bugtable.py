"""Writes the table of planted bugs at the end of DESIGN.md from /verif/seeded/*/meta.json.

Not a check: run by hand after planting.  `missed` names those that the property's quick check does not catch.
"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set()
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"], "no" if d in missed else m["property"]))
rows.sort()
t = "## Planted bugs\n\nEach compiles, passes the repository's tests and has a demonstration; the last column is the check that reports it (quick tier, seed 1).\n\n"
t += "| property | bug | needs | caught by |\n|---|---|---|---|\n"
t += "".join(f"| {p} | {d} | {n} | {c} |\n" for p, d, n, c in rows)
f = V + "/DESIGN.md"
s = open(f).read()
s = re.sub(r"\n## Planted bugs\n.*", "\n", s, flags=re.S).rstrip("\n") + "\n\n"
open(f, "w").write(s + t)
