"""Write BOUNDS.md (scenarios, bounds and assumptions of all checks) and the
table of planted bugs in DESIGN.md.

Run with: PYTHONPATH=.:/repo/src /opt/venv/bin/python tools/bounds.py"""

import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo/src"]
import sx.run  # noqa: F401,E402  (finds the solver)

out = [
    "# Bounds and assumptions of every check",
    "",
    "Generated by tools/bounds.py from the checks.  *quick* scenarios run in "
    "both tiers; *deeper* ones run with larger bounds in the thorough tier; "
    "*thorough* ones only there.",
    "",
]
for f in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9][0-9].py"))):
    n = os.path.basename(f)[:-3]
    m = importlib.import_module("checks." + n)
    q = {s.name: s for s in m.scenarios("quick")}
    out += [f"## {m.__doc__.strip()}", ""]
    for s in q.values():
        out.append(f"- quick `{s.name}`: {s.bounds}")
    for s in m.scenarios("thorough"):
        if s.name not in q:
            out.append(f"- thorough `{s.name}`: {s.bounds}")
        elif s.params != q[s.name].params:
            d = ", ".join(
                f"{k}={v}" for k, v in s.params.items()
                if q[s.name].params.get(k) != v
            )
            out.append(f"- deeper `{s.name}`: {d[:200]}")
    out += ["", "Assumptions:", ""]
    out += [f"- {a}" for a in m.ASSUMPTIONS]
    out.append("")
with open(os.path.join(HERE, "BOUNDS.md"), "w") as fh:
    fh.write("\n".join(out))

rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
missed = json.load(open(os.path.join(HERE, "tools", "missed.json")))
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    by = missed.get(n, m["property"])
    rows.append(f"| {n} | {by} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(HERE, "DESIGN.md")
text = open(p).read()
a, rest = text.split("<!-- seeded -->")
_, b = rest.split("<!-- /seeded -->")
with open(p, "w") as fh:
    fh.write(
        a + "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->" + b
    )
