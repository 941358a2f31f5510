"""Function contracts and the runner that checks them against /repo's source."""

import importlib
import inspect
import time
import traceback

import z3

from . import core
from .core import Engine, Obligation, PathEnd, PyRaise, Unsupported, B
from .interp import Interp, func_ast

REGISTRY = {}  # property -> [Contract classes]


class Contract:
    """One function under contract.

    target   "module:Qual.name" of the function whose current body is verified
    cases    list of case labels (each case is a separate symbolic input shape)
    loops    {(qualname, ordinal): LoopSpec}
    calls    {"module:Qual.name": fn(I, *args)}: callee contracts used at call sites
    models   extra modelled callables
    bounded  text, when the case analysis bounds something (rank, list length)
    """

    target = ""
    cases = [None]
    loops = {}
    calls = {}
    models = {}
    bounded = None
    timeout_ms = 10000
    max_paths = 400
    budget_s = 240
    trusted = ()
    uf_concat = False  # strings put together from parts are an uninterpreted function of the parts

    def setup(self, I, case):
        """-> (args, kwargs, ghost)"""
        raise NotImplementedError

    def ensures(self, I, g, result):
        return ()

    def raises(self, I, g, exc):
        """term under which this exception is allowed; None: never"""
        return None


def contract(*props):
    def deco(cls):
        for p in props:
            REGISTRY.setdefault(p, []).append(cls)
        return cls

    return deco


def resolve(target):
    mod, qual = target.split(":")
    m = importlib.import_module(mod)
    o = m
    for part in qual.split("."):
        o = inspect.getattr_static(o, part)
    if isinstance(o, (classmethod, staticmethod)):
        o = o.__func__
    if isinstance(o, property):
        o = o.fget
    return o


def source_hashes(keys):
    """{function: hash of its syntax tree without docstrings and positions}"""
    import ast
    import copy
    import hashlib

    out = {}
    for k in keys:
        try:
            node = copy.deepcopy(func_ast(resolve(k))[0])
        except Exception:
            out[k] = None
            continue
        for n in ast.walk(node):
            b = getattr(n, "body", None)
            if isinstance(b, list):
                n.body = [x for x in b if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))
                          and not isinstance(x, ast.Pass)] or [ast.Pass()]
        out[k] = hashlib.sha1(ast.dump(node).encode()).hexdigest()[:16]
    return out


class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = []  # dicts
        self.unsupported = []  # reasons
        self.inlined = set()
        self.called = set()
        self.assumptions = set()
        self.paths = 0
        self.time = 0.0
        self.solver_time = 0.0
        self.sources = {}
        self.bounded = None

    @property
    def status(self):
        st = {o["status"] for o in self.obligations}
        if "vacuous" in st:
            return "vacuous"
        if "refuted" in st:
            return "refuted"
        if self.unsupported:
            return "unsupported"
        if "unknown" in st:
            return "unknown"
        if not self.obligations:
            return "empty"
        return "proved"


def run_contract(cls, log=None):
    c = cls()
    res = Result(f"{c.target}" + (f"[{cls.__name__}]"))
    res.bounded = c.bounded
    t0 = time.time()
    core._given_up.clear()
    try:
        fn = resolve(c.target)
    except Exception as e:
        res.unsupported.append(f"cannot resolve {c.target}: {e}")
        return res
    for case in c.cases:
        eng = Engine(timeout_ms=c.timeout_ms, log=log)
        eng.uf_concat = c.uf_concat
        covered = [False]
        tag = f"{c.target}" + (f"<{case}>" if case is not None else "")

        def path():
            I = Interp(eng, contracts=c.calls, loops=c.loops, models=c.models)
            I.root = c.target
            args, kwargs, g = c.setup(I, case)
            if not covered[0]:
                covered[0] = True
                eng.cover(f"{tag}:precondition-satisfiable")
            try:
                r = I.call(fn, args, kwargs)
            except PyRaise as e:
                goal = c.raises(I, g, e.exc)
                eng.prove(f"{tag}:no-unexpected-{e.cls.__name__}", False if goal is None else goal)
                return
            for lab, term in c.ensures(I, g, r):
                eng.prove(f"{tag}:ensures:{lab}", term)

        try:
            eng.explore(path, max_paths=c.max_paths, deadline=t0 + c.budget_s)
        except Unsupported as e:
            if log:
                log(traceback.format_exc())
            res.unsupported.append(f"{tag}: {e}")
        except z3.Z3Exception as e:
            if log:
                log(traceback.format_exc())
            res.unsupported.append(f"{tag}: z3: {e}")
        except RecursionError:
            res.unsupported.append(f"{tag}: recursion limit")
        except Exception as e:  # an engine error is never a verdict
            res.unsupported.append(f"{tag}: engine error {type(e).__name__}: {e} "
                                   + traceback.format_exc()[-600:])
        for o in eng.obligations:
            res.obligations.append(dict(name=o.name, status=o.status, detail=o.detail, backend=o.backend,
                                        time=round(o.time, 4), precise=o.precise))
        res.inlined |= eng.inlined
        res.called |= eng.called_contracts
        res.assumptions |= eng.assumptions
        res.paths += eng.paths
        res.solver_time += eng.solver_time
    res.assumptions |= set(c.trusted)
    res.sources = source_hashes({c.target} | res.inlined)
    res.time = time.time() - t0
    return res
