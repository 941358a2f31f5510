. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONPATH=/verif
export TQDM_DISABLE=1 TRANSFORMERS_VERBOSITY=error HF_HUB_DISABLE_PROGRESS_BARS=1 HF_HUB_OFFLINE=1
