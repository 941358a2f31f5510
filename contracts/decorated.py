"""Contracts of decorated merge methods (mergekit/merge_methods/easy_define.py)."""

import inspect
from typing import List, Optional

import pydantic
import torch
import z3

import mergekit.merge_methods.easy_define as ED
from mergekit.architecture import WeightInfo
from mergekit.common import ImmutableMap, ModelReference
from pyvc import lib
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import ModelFn, SDict, SList, SObj
from pyvc.tmodel import sym_tensor

from .util import *


class _Cls:
    pass


class _Self:
    pass


def plain(tensors: List[torch.Tensor], weight: List[float], k: List[int] = 3, scale: float = 2.0, flag: bool = False) -> torch.Tensor:
    pass


def base(tensors: List[torch.Tensor], base_tensor: torch.Tensor, weight: List[float], scale: float) -> torch.Tensor:
    pass


def optbase(tensors: List[torch.Tensor], weight: List[float], base_tensor: Optional[torch.Tensor] = None,
            output_weight: WeightInfo = None, base_model: Optional[ModelReference] = None) -> torch.Tensor:
    pass


def basefirst(tensors: List[torch.Tensor], weight: List[float], base_model: Optional[ModelReference] = None) -> torch.Tensor:
    pass


def nothing(tensors: List[torch.Tensor]) -> torch.Tensor:
    pass


FUNCS = [plain, base, optbase, basefirst, nothing]
VECTORS = {plain: ["weight", "k"], base: ["weight"], optbase: ["weight"], basefirst: ["weight"], nothing: []}
SCALARS = {plain: {"scale": 2.0, "flag": False}, base: {"scale": None}, optbase: {}, basefirst: {}, nothing: {}}
DEFAULTS = {"k": 3}


def _getattr(I, o, name, *default):
    if isinstance(o, SObj) and name not in o.fields and o.cls is _Self:
        if default:
            return default[0]
        raise PyRaise(AttributeError(name))
    return I.getattr(o, name)


class _Sig:
    pass


def _signature(I, f):
    ps = inspect.signature(f).parameters
    return SObj(_Sig, {"parameters": SDict(pairs=[(k, SObj(_Sig, {"annotation": p.annotation, "default": p.default, "kind": p.kind, "name": k}))
                                                  for k, p in ps.items()])})


@contract("P16")
class Decorated(Contract):
    """tensors in model order (base first or apart), parameters aligned with them, declared defaults"""

    target = "mergekit.merge_methods.easy_define:__merge_method"
    cases = [(f.__name__, n, b) for f in FUNCS for n in (0, 1, 3) for b in ["none", "outside"] + (["first", "last"] if n else []) + (["mid"] if n == 3 else [])
             if not (n == 1 and b == "last")]
    bounded = "five signatures, at most 3 models"

    def __init__(self):
        self.models = {inspect.signature: _signature, pydantic.create_model: self.create, type: self.mktype, getattr: _getattr, pydantic.Field: lambda I, *a, **k: None,
                       (_Cls, "__call__"): None}
        for f in FUNCS:
            self.models[f] = self.called
        self.registry = None

    def create(self, I, name, __base__=None, **fields):
        I.state_g["tt"] = fields
        return SObj(_Cls, {"fields": fields})

    def mktype(self, I, *a):
        if len(a) == 1:
            return lib.b_type(I, a[0])
        I.state_g["mm"] = a[2]
        return ModelFn(lambda I_: SObj(_Self, {}))

    def called(self, I, *a, **kw):
        I.state_g["calls"].append((a, kw))
        return I.state_g["result"]

    def setup(self, I, case):
        fname, n, b = case
        f = {x.__name__: x for x in FUNCS}[fname]
        ms = [z3.Const(f"model{k}", ModelO.sort) for k in range(n)]
        out = z3.Const("outside_model", ModelO.sort)
        if n:
            I.eng.assume(z3.Distinct(*ms, out))
        bm = {"none": None, "outside": out, "first": ms[0] if n else None, "last": ms[-1] if n else None, "mid": ms[1] if n == 3 else None}[b]
        ts = [sym_tensor(I.eng, f"t{k}", [z3.Int("len")]) for k in range(n)]
        g = dict(f=f, ms=ms, bm=bm, ts=ts, calls=[], out=out, result=SObj(_Self, {}))
        I.state_g = g
        return (f, "some_method", "url", "Pretty"), {}, g

    def ensures(self, I, g, r):
        f, ms, bm, ts = g["f"], g["ms"], g["bm"], g["ts"]
        tt, mm = g["tt"], dict(g["mm"].pairs)
        # what the method declares
        vec = I.call(mm["tensor_parameters"], (None,)).items
        sca = I.call(mm["parameters"], (None,)).items
        yield "per-model-parameters", z3.BoolVal([p.fields["name"] for p in vec] == VECTORS[f] and all(
            p.fields["required"] == (p.fields["name"] not in DEFAULTS) and p.fields["default_value"] == DEFAULTS.get(p.fields["name"]) for p in vec))
        yield "global-parameters", z3.BoolVal([p.fields["name"] for p in sca] == list(SCALARS[f]) and all(
            p.fields["required"] == (SCALARS[f][p.fields["name"]] is None) and p.fields["default_value"] is SCALARS[f][p.fields["name"]] for p in sca))
        yield "names", z3.BoolVal(I.call(mm["name"], (None,)) == "some_method" and I.call(mm["pretty_name"], (None,)) == "Pretty"
                                  and I.call(mm["reference_url"], (None,)) == "url")
        # what its task is given
        ow, gt = SObj(_Self, {}), SObj(_Self, {})
        val = {(k, v): z3.Real(f"{v}_{k}") for k in range(len(ms) + 1) for v in VECTORS[f]}
        imap = lambda pairs: SObj(ImmutableMap, {"data": SDict(pairs=pairs)})
        # the planner reads parameters for every model that may take part, in any order
        tp = imap([(m, imap([(v, val[(k, v)]) for v in VECTORS[f]])) for k, m in reversed(list(enumerate(ms + [g["out"]])))])
        sp = {v: z3.Real(f"global_{v}") for v in SCALARS[f]}
        given = {}
        made = SObj(_Self, {})

        def tt_call(I_, **kw):
            given.update(kw)
            made.fields.update(kw)
            return made

        I.models[(_Cls, "__call__")] = lambda I_, o, **kw: tt_call(I_, **kw)
        t = I.call(mm["make_task"], (SObj(_Self, {}),), dict(
            output_weight=ow, tensors=gt, parameters=imap(list(sp.items())), tensor_parameters=tp, base_model=bm))
        yield "makes-its-task", z3.BoolVal(t is made and given.get("gather_tensors") is gt and set(given) <= set(tt))
        args = I.call(tt["arguments"], (made,))
        yield "waits-for-its-tensors", z3.BoolVal([(k, v is gt) for k, v in args.pairs] == [("tensors", True)])
        try:
            res = I.call(tt["execute"], (made,), {"tensors": SDict(pairs=list(zip(ms, ts)))})
        except PyRaise as e:
            yield "refused-only-without-its-base", z3.BoolVal(
                f is base and isinstance(e.exc, ValueError) and not any(m is bm for m in ms))
            return
        yield "needs-its-base", z3.BoolVal(f is not base or any(m is bm for m in ms))
        yield "called-once", z3.BoolVal(len(g["calls"]) == 1 and res is g["result"] and not g["calls"][0][0])
        kw = g["calls"][0][1]
        apart = f in (base, optbase)
        order = [k for k, m in enumerate(ms) if m is not bm]
        inside = [k for k, m in enumerate(ms) if m is bm]
        if not apart:
            order = inside + order
        got = lib.to_seq(I, kw["tensors"]).items
        yield "tensors-in-order", z3.BoolVal(len(got) == len(order) and all(x is ts[k] for x, k in zip(got, order)))
        yield "nothing-unknown", z3.BoolVal(set(kw) == set(inspect.signature(f).parameters))
        for v in VECTORS[f]:
            l = lib.to_seq(I, kw[v]).items
            yield "aligned-parameters", z3.And(z3.BoolVal(len(l) == len(order)), *[R(x) == val[(k, v)] for x, k in zip(l, order)])
        for v in SCALARS[f]:
            yield "global-parameters-by-name", R(kw[v]) == sp[v]
        if apart:
            yield "its-base", z3.BoolVal(kw["base_tensor"] is (ts[inside[0]] if inside else None))
        if "base_model" in kw:
            yield "its-base-model", z3.BoolVal(kw["base_model"] is bm)
        if "output_weight" in kw:
            yield "its-output-weight", z3.BoolVal(kw["output_weight"] is ow)


def bad_unannotated(tensors: List[torch.Tensor], foo):
    pass


def bad_text(tensors: List[torch.Tensor], foo: str = "x"):
    pass


def bad_optional(tensors: List[torch.Tensor], foo: Optional[float] = None):
    pass


def bad_list(tensors: List[torch.Tensor], foo: List[str] = 1):
    pass


def bad_no_tensors(foo: float = 1.0):
    pass


def bad_tensors(tensors, foo: float = 1.0):
    pass


def bad_tensor_type(tensors: List[float]):
    pass


def bad_default(tensors: List[torch.Tensor], weight: List[float] = [1.0]):
    pass


def bad_base(tensors: List[torch.Tensor], base_tensor: float):
    pass


BAD = [bad_unannotated, bad_text, bad_optional, bad_list, bad_no_tensors, bad_tensors, bad_tensor_type, bad_default, bad_base]


@contract("P16")
class Refused(Contract):
    """a signature that cannot be served is refused when it is declared"""

    target = "mergekit.merge_methods.easy_define:__merge_method"
    cases = [f.__name__ for f in BAD]
    bounded = "nine kinds of unusable signature"

    def __init__(self):
        self.models = {inspect.signature: _signature, pydantic.Field: lambda I, *a, **k: None,
                       pydantic.create_model: lambda I, *a, **k: SObj(_Cls, {}),
                       type: lambda I, *a: lib.b_type(I, a[0]) if len(a) == 1 else ModelFn(lambda I_: SObj(_Self, {}))}

    def setup(self, I, case):
        return ({f.__name__: f for f in BAD}[case], "some_method", None, None), {}, None

    def ensures(self, I, g, r):
        yield "refused", False

    def raises(self, I, g, exc):
        return isinstance(exc, (ValueError, TypeError))
