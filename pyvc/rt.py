"""Run-time side of the contracts: the same properties evaluated on the real
code in CPython.  It replays refutations, cross-checks the verifier's model of
Python/torch, and is the labelled bounded stand-in for functions outside the
verifier's subset."""

import json
import random
import time
import traceback

CASES = {}  # property -> [Case]
FINDINGS = {}  # property -> {finding id: fn}


class Skip(Exception):
    """the case does not apply (e.g. a private helper no longer exists)"""


class Case:
    def __init__(self, prop, fn, bound, quick, deep, limit):
        self.prop, self.fn, self.bound, self.quick, self.deep, self.limit = prop, fn, bound, quick, deep, limit
        self.name = fn.__name__


def case(prop, bound, quick=100, deep=None, limit=60):
    """fn(rng, i, note): one evaluation; any exception is a failing input"""

    def deco(fn):
        CASES.setdefault(prop, []).append(Case(prop, fn, bound, quick, deep or quick * 8, min(limit, 40)))
        return fn

    return deco


def finding(prop, fid):
    def deco(fn):
        FINDINGS.setdefault(prop, {})[fid] = fn
        return fn

    return deco


def _short(x, n=1500):
    try:
        s = json.dumps(x, default=repr)
    except Exception:
        s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def run_case(c, seed, deep=False, only=None, limit=None):
    """-> dict(evaluations, distinct, failures=[...], skipped, sample)"""
    t0 = time.time()
    out = dict(name=c.name, bound=c.bound, evaluations=0, skipped=0, failures=[], samples=[], seen=0)
    sigs = set()
    limit = limit or c.limit * (6 if deep else 1)
    idx = [only] if only is not None else range(c.deep * 8 if deep else c.deep)
    for i in idx:
        rng = random.Random(f"{seed}/{c.prop}/{c.name}/{i}")
        notes = []
        try:
            sig = c.fn(rng, i, notes.append)
            out["evaluations"] += 1
            sigs.add(_short(sig if sig is not None else notes or i))
            if len(out["samples"]) < 2 and notes:
                out["samples"].append(_short(notes, 400))
        except Skip as e:
            out["skipped"] += 1
            if out["skipped"] > 20 and not out["evaluations"]:
                break
            out["skip_reason"] = str(e)
        except Exception as e:
            out["evaluations"] += 1
            out["failures"].append(dict(
                property=c.prop, case=c.name, index=i, seed=seed, input=_short(notes, 6000),
                error=f"{type(e).__name__}: {e}"[:3000], traceback=traceback.format_exc()[-4000:]))
            if len(out["failures"]) >= 2:
                break
        if time.time() - t0 > limit:
            break
    out["distinct"] = len(sigs)
    out["time"] = round(time.time() - t0, 2)
    return out
