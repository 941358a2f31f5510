"""Regenerate the per-property section of DESIGN.md from the contracts, the corpora, tools/notes.json and the planted bugs."""

import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import check  # noqa: E402
import props  # noqa: E402

check.load("contracts", "")
for f in glob.glob(os.path.join(HERE, "contracts", "*.py")):
    if not f.endswith("__init__.py"):
        importlib.import_module("contracts." + os.path.basename(f)[:-3])
from pyvc import contract, rt  # noqa: E402

notes = json.load(open(os.path.join(HERE, "tools", "notes.json")))
base = json.load(open(os.path.join(HERE, "contracts", "baseline.json")))
caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
out = []
for p in props.P:
    n = notes[p["id"]]
    out.append(f"### {p['id']} {p['title']}  (level: {n['level']})\n")
    out.append(n["note"] + "\n")
    out.append("Contracts (function: what is specified; bound if any):\n")
    for c in contract.REGISTRY[p["id"]]:
        fn = c.target.replace("mergekit.", "", 1)
        doc = " ".join((c.__doc__ or "see the ensures clauses in the contract").split())
        un = base.get(c.__name__, {}).get("unproved")
        out.append(f"* `{c.__name__}` on `{fn}`: {doc}" + (f" — bounded: {c.bounded}" if c.bounded else "") + (
            f" — undecided: {', '.join(un)}" if un else ""))
    out.append(f"\nRun-time contracts (bounded, corpus): {n['rest']}")
    tr = sorted({x for c in contract.REGISTRY[p["id"]] for x in (getattr(c, "trusted", ()) or ())})
    if tr:
        out.append("\nTrusted: " + "; ".join(tr) + ".")
    out.append("")
out.append("## Planted bugs\n")
out.append("| bug | property | what it needs | reported by |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '')} |")
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read().split("<!-- generated by tools/design.py -->")[0]
open(path, "w").write(s + "<!-- generated by tools/design.py -->\n\n## Properties\n\n" + "\n".join(out) + "\n")
sys.stdout.flush()
os._exit(0)
