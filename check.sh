#!/bin/bash
# bash check.sh PROPERTY [--tier quick|thorough] ...
cd "$(dirname "$0")" || exit 2
V=$PWD
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONPATH=$V TQDM_DISABLE=1 TRANSFORMERS_VERBOSITY=error HF_HUB_DISABLE_PROGRESS_BARS=1 HF_HUB_OFFLINE=1
exec /opt/venv/bin/python "$V/check.py" "$@"
