"""Verify every contract on the pinned tree and record what was discharged, for which source text.

python tools/baseline.py [module-or-contract ...]   (others keep their entry)
check.py uses the record only to tell "could never be proved" from "was proved before this change"."""

import importlib
import json
import os
import pkgutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

check.load("contracts", "")
for m in pkgutil.iter_modules([os.path.join(HERE, "contracts")]):
    importlib.import_module("contracts." + m.name)
from pyvc import contract as pc  # noqa: E402

sel = sys.argv[1:]
path = os.path.join(HERE, "contracts", "baseline.json")
old = check.BASELINE
todo, props = {}, {}
for p, l in pc.REGISTRY.items():
    for c in l:
        props.setdefault(c.__name__, []).append(p)
        if not sel or c.__name__ in sel or c.__module__.split(".")[-1] in sel:
            todo[c.__name__] = c
res = check.run_jobs([((n,), "contract", c, 900) for n, c in todo.items()], int(os.environ.get("JOBS", "6")), 1e12)
for (n,), r in res.items():
    if r.get("error"):
        print(n, "ERROR", r["error"])
        old.pop(n, None)
        continue
    bad = sorted({check.label(o["name"]) for o in r["obligations"] if o["status"] != "proved"})
    print(n, props[n], r["status"], f"{r['time']}s", bad, r["unsupported"][:1])
    old[n] = dict(status=r["status"], unproved=bad, sources=dict(sorted(r["sources"].items())))
old = {n: v for n, v in sorted(old.items()) if n in props}
with open(path, "w") as f:
    json.dump(old, f, indent=1)
    f.write("\n")
sys.stdout.flush()
os._exit(0)
