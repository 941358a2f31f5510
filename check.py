"""Decide one property:  python check.py P01 [--tier quick|thorough] [--replay FILE]

1. every contract registered for the property is verified against the source
   text of /repo's working tree (pyvc: AST -> verification conditions -> z3/cvc5);
2. the same contracts are evaluated at run time on the real code over a seeded
   corpus (replay of refutations, cross-check of the verifier's library models,
   bounded stand-in where a contract is out of the verifier's reach).
exit 0: nothing refuted; exit 1 + VIOLATION line otherwise.
"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def load(pkg, prop):
    """import the contract / corpus modules; a module lists its properties in PROPS"""
    errs = []
    base = importlib.import_module(pkg)
    for m in sorted(x.name for x in pkgutil.iter_modules(base.__path__)):
        path = os.path.join(base.__path__[0], m + ".py")
        with open(path) as f:
            src = f.read()
        if f'"{prop}"' not in src:
            continue
        try:
            importlib.import_module(f"{pkg}.{m}")
        except Exception as e:
            errs.append((f"{pkg}.{m}", f"{type(e).__name__}: {e}", traceback.format_exc()[-3000:]))
    return errs


def _child(q, kind, payload):
    try:
        import torch

        torch.set_num_threads(1)
        if not os.environ.get("VF_DEBUG"):
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        if kind == "contract":
            from pyvc.contract import run_contract

            r = run_contract(payload)
            q.put(dict(name=r.name, status=r.status, obligations=r.obligations, unsupported=r.unsupported,
                       inlined=sorted(r.inlined), called=sorted(r.called), assumptions=sorted(r.assumptions),
                       paths=r.paths, time=round(r.time, 2), solver_time=round(r.solver_time, 2), sources=r.sources, bounded=r.bounded))
        elif kind == "case":
            from pyvc.rt import run_case

            c, seed, deep, only, limit = payload
            q.put(run_case(c, seed, deep, only, limit))
        elif kind == "finding":
            q.put(payload())
    except BaseException as e:
        q.put(dict(error=f"{type(e).__name__}: {e}", traceback=traceback.format_exc()[-3000:]))


def run_jobs(jobs, nproc, deadline):
    """jobs: [(key, kind, payload, limit_s)] -> {key: result or dict(error=..)}"""
    ctx = mp.get_context("fork")
    todo, live, done = list(jobs), {}, {}
    while todo or live:
        while todo and len(live) < nproc:
            key, kind, payload, limit = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(q, kind, payload), daemon=False)
            p.start()
            live[key] = (p, q, time.time(), limit)
        time.sleep(0.05)
        for key in list(live):
            p, q, t0, limit = live[key]
            if not q.empty():
                done[key] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[key]
            elif not p.is_alive():
                if not q.empty():
                    continue
                done[key] = dict(error=f"worker ended with code {p.exitcode}")
                del live[key]
            elif time.time() - t0 > limit or time.time() > deadline:
                p.kill()
                p.join()
                done[key] = dict(error="time limit", timeout=True)
                del live[key]
        if time.time() > deadline and todo:
            for key, *_ in todo:
                done[key] = dict(error="time limit", timeout=True)
            todo = []
    return done


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-contracts", action="store_true")
    ap.add_argument("--no-corpus", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 3300)
    nproc = min(8, os.cpu_count() or 1)

    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)

    c_errs = [] if a.no_contracts else load("contracts", prop)
    r_errs = [] if a.no_corpus else load("corpus", prop)
    from pyvc import contract as pc
    from pyvc import rt

    with open(os.path.join(HERE, "known_findings.json")) as f:
        known = [k for k in json.load(f) if k["property"] == prop]

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        if rec["kind"] == "runtime":
            c = next(c for c in rt.CASES[prop] if c.name == rec["case"])
            r = rt.run_case(c, rec["seed"], only=rec["index"])
            print(json.dumps(r, indent=1))
            sys.exit(1 if r["failures"] else 0)
        for cls in pc.REGISTRY.get(prop, []):
            if cls.__name__ == rec["contract"]:
                r = pc.run_contract(cls)
                bad = [o for o in r.obligations if o["status"] in ("refuted", "unknown") and o["name"] in rec["failed_obligations"]]
                print(json.dumps(bad, indent=1))
                sys.exit(1 if bad else 0)
        sys.exit(0)

    contracts = [] if a.no_contracts else pc.REGISTRY.get(prop, [])
    cases = [] if a.no_corpus else rt.CASES.get(prop, [])
    deep = tier == "thorough"
    jobs = [(("c", cls.__name__), "contract", cls, (cls.budget_s + 60) * (3 if deep else 1))
            for cls in sorted(contracts, key=lambda c: -(c.weight if isinstance(getattr(c, "weight", None), (int, float)) else 1))]
    jobs += [(("r", c.name), "case", (c, seed, deep, None, None), c.limit * (6 if deep else 1) + 120) for c in cases]
    for k in known:
        if k.get("status") == "known" and k["id"] in rt.FINDINGS.get(prop, {}):
            jobs.append((("k", k["id"]), "finding", rt.FINDINGS[prop][k["id"]], 120))
    res = run_jobs(jobs, nproc, deadline)

    # contracts not decided: the bounded stand-in is run deeper for them
    undecided, refuted, proved = [], [], []
    for cls in contracts:
        r = res[("c", cls.__name__)]
        r.setdefault("name", f"{cls.target}[{cls.__name__}]")
        r.setdefault("obligations", [])
        if r.get("error"):
            r["status"] = "unknown"
            r["unsupported"] = [r["error"]]
        (proved if r["status"] == "proved" else refuted if r["status"] == "refuted" else undecided).append((cls, r))
    if (undecided or refuted) and cases and not deep:
        lim = 110 if refuted else 30
        djobs = [(("d", c.name), "case", (c, seed + 1000, True, None, lim), lim + 60) for c in cases]
        res.update(run_jobs(djobs, nproc, min(deadline, time.time() + lim + 120)))

    violations = []
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)

    def emit(rec, tail=""):
        path = os.path.join(rdir, f"{prop}-{len(violations)}.json")
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=repr)
        violations.append((path, tail, rec))

    corpus_stats = []
    for key, r in res.items():
        if key[0] not in "rd":
            continue
        if r.get("error"):
            corpus_stats.append(dict(name=key[1], error=r["error"]))
            continue
        corpus_stats.append({k: r[k] for k in ("name", "bound", "evaluations", "distinct", "skipped", "samples", "time")})
        for f in r["failures"]:
            emit(dict(kind="runtime", contracts_failing=[x["name"] for _, x in refuted], **f))
    for m, e, tb in r_errs:
        # a moved helper is not a broken property; anything else that stops the import is
        if e.startswith("ImportError: cannot import name"):
            corpus_stats.append(dict(name=m, error=e))
            continue
        emit(dict(kind="import", module=m, error=e, traceback=tb))
    # obligations that used to be discharged and no longer are, in code that is not the pinned code
    lost = []
    for cls, r in undecided:
        b = BASELINE.get(cls.__name__)
        if b is None or r.get("error") or all(b["sources"].get(k) == h for k, h in r.get("sources", {}).items()):
            continue
        bad = [o for o in r["obligations"] if o["status"] == "unknown" and label(o["name"]) not in b["unproved"]]
        if bad:
            lost.append((cls, r, bad))
    if (refuted or lost) and not violations:
        for cls, r, bad in [(c, r, [o for o in r["obligations"] if o["status"] == "refuted"]) for c, r in refuted] + lost:
            emit(dict(kind="obligation", property=prop, contract=cls.__name__, function=cls.target,
                      failed_obligations=[o["name"] for o in bad], verifier_output=bad[:5]),
                 " no-failing-input-found")

    for k in known:
        if k.get("status") == "known":
            r = res.get(("k", k["id"]))
            if r is True:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")

    # contracts with a stated bound (a tensor rank, a number of models) are counted apart, never as proved
    split = lambda b: [o for _, r in proved + refuted + undecided if bool(r.get("bounded")) == b for o in r["obligations"]]
    obls, bobls = split(False), split(True)
    disch, bdisch = ([o for o in l if o["status"] == "proved"] for l in (obls, bobls))
    backends = {}
    for o in disch + bdisch:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    assumptions = sorted({x for _, r in proved + refuted + undecided for x in r.get("assumptions", [])})
    ev = dict(
        property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=LEVELS.get(prop, "proof"),
        coverage=dict(
            obligations=len(obls), discharged=len(disch),
            bounded_contract_obligations=len(bobls), bounded_contract_discharged=len(bdisch),
            checker_cmd=f"bash /verif/check.sh {prop} (pyvc verification conditions from /repo's source; z3 "
                        f"{_z3v()}, cvc5)",
            trusted_base=["pyvc's Python semantics and VC generator (/verif/pyvc)", "z3 / cvc5"] + assumptions,
            functions_under_contract=[dict(function=cls.target, contract=cls.__name__, status=r["status"],
                                           obligations=len(r["obligations"]), paths=r.get("paths", 0),
                                           seconds=r.get("time"), solver_seconds=r.get("solver_time"),
                                           inlined=r.get("inlined", []), callee_contracts=r.get("called", []),
                                           bounded=r.get("bounded"))
                                      for cls, r in proved + refuted + undecided],
            undecided_by_the_verifier=[dict(contract=cls.__name__, reason=(r.get("unsupported") or ["solver unknown: " + ", ".join(
                o["name"] for o in r["obligations"] if o["status"] not in ("proved",))])[:3],
                stand_in="bounded run-time corpus below") for cls, r in undecided],
            discharged_by=backends,
            solver_seconds=round(sum(r.get("solver_time", 0) or 0 for _, r in proved + refuted + undecided), 2),
            bounded_runtime_checks=corpus_stats,
            evaluations=sum(s.get("evaluations", 0) for s in corpus_stats),
            distinct_nontrivial=sum(s.get("distinct", 0) for s in corpus_stats),
            samples=[dict(case=s["name"], input=x) for s in corpus_stats for x in s.get("samples", [])[:1]],
            rule="run-time corpus: seeded generators in /verif/corpus; distinct by generated input",
        ),
        assumptions=assumptions + ["floating point treated as real arithmetic; Python ints unbounded",
                                   "termination is not proved"],
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    if LEVELS.get(prop, "proof") != "proof":
        ev["coverage"]["explanation"] = (
            f"contract verification of the functions listed: {len(disch)} of {len(obls)} obligations without a bound and "
            f"{len(bdisch)} of {len(bobls)} under a stated case bound were discharged; what lies outside the verifier's reach "
            f"was evaluated as run-time contracts on {sum(s.get('evaluations', 0) for s in corpus_stats)} generated inputs")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

    for cls, r in proved + refuted + undecided:
        n = len(r["obligations"])
        d = sum(o["status"] == "proved" for o in r["obligations"])
        print(f"{r['status']:12s} {cls.__name__:28s} {d}/{n} obligations  {r.get('time', '?')}s"
              + (f"  {str(r['unsupported'][0])[:300]}" if r.get("unsupported") else ""))
        if r["status"] != "proved":
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print(f"    {o['status']}: {o['name']}")
    for s in corpus_stats:
        print(f"runtime      {s['name']:28s} " + (s["error"] if "error" in s else
              f"{s['evaluations']} evaluations, {s['distinct']} distinct, {s['skipped']} skipped, {s['time']}s"))
    for m, e, _ in c_errs:
        print(f"contract module {m} not loadable on this tree: {e}")
    for path, tail, rec in violations[:3]:
        print("  ", rec.get("error") or rec.get("failed_obligations"))
        if a.v:
            print(rec.get("traceback"))
    if violations:
        path, tail, _ = violations[0]
        print(f"VIOLATION property={prop} replay={path}{tail}")
    sys.stdout.flush()
    os._exit(1 if violations else 0)


def label(name):
    return re.sub(r"<.*>", "", name)


def _z3v():
    try:
        import z3

        return z3.get_version_string()
    except Exception:
        return "?"


try:
    with open(os.path.join(HERE, "MANIFEST.json")) as _f:
        LEVELS = {c["property"]: c["level"] for c in json.load(_f)["checks"]}
except Exception:
    LEVELS = {}

# which obligations were discharged for which text of the functions (written by tools/baseline.py)
try:
    with open(os.path.join(HERE, "contracts", "baseline.json")) as _f:
        BASELINE = json.load(_f)
except Exception:
    BASELINE = {}

if __name__ == "__main__":
    main()
