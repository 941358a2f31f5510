#!/bin/bash
# nothing to build: the verifier is Python run by the interpreter of /repo's own
# environment; this only confirms that the solvers can be loaded
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONPATH=$PWD
/opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, cvc5, torch, mergekit
print("z3", z3.get_version_string(), "torch", torch.__version__)
P
