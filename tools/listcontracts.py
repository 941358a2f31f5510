"""List the contracts per property: class, function, bounded or not."""
import glob
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import contract  # noqa: E402

for f in sorted(glob.glob(os.path.join(sys.path[0], "contracts", "*.py"))):
    m = os.path.basename(f)[:-3]
    if m != "__init__":
        importlib.import_module("contracts." + m)
for p in sorted(contract.REGISTRY):
    print(p, ", ".join(f"{c.__name__}({c.target.split(':')[1]})" + ("*" if c.bounded else "") for c in contract.REGISTRY[p]))
