"""Shared vocabulary of the contracts: model references, tensor maps, parameter maps."""

import torch
import z3

import mergekit.common as MC
from pyvc import lib, tmodel
from pyvc.core import *
from pyvc.core import B, R, S, Z, T, Engine, SDict, SList, SObj, SSet
from pyvc.tmodel import DType, Device, STensor

INT, REAL, BOOL, STR = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()

ModelO = Opaque("ModelRef", pyclass=MC.ModelReference)
TModel = TOpaque(ModelO)


class TTensor(T):
    """tensors of a fixed rank inside unbounded containers"""

    _cache = {}

    def __new__(cls, rank):
        if rank in cls._cache:
            return cls._cache[rank]
        o = super().__new__(cls)
        cls._cache[rank] = o
        o.rank = rank
        o.sort = z3.DeclareSort(f"Tensor{rank}")
        o.dim = [z3.Function(f"dim{rank}_{d}", o.sort, INT) for d in range(rank)]
        o.el = z3.Function(f"el{rank}", o.sort, *[INT] * rank, REAL)
        o.dty = z3.Function(f"dty{rank}", o.sort, DType)
        o.dev = z3.Function(f"dev{rank}", o.sort, Device)
        return o

    def dec(self, t):
        r = STensor([f(t) for f in self.dim], lambda *i: self.el(t, *[Z(x) for x in i]), self.dty(t), self.dev(t))
        r.term = t
        return r

    def enc(self, v):
        if not isinstance(v, STensor) or len(v.dims) != self.rank:
            raise Unsupported(f"expected a tensor of rank {self.rank}")
        t = getattr(v, "term", None)
        if t is not None and t.sort() == self.sort and v.at(*[z3.Int(f"pr{k}") for k in range(self.rank)]).eq(
                self.el(t, *[z3.Int(f"pr{k}") for k in range(self.rank)])):
            return t
        eng = Engine.current
        t = eng.fresh("tens", self.sort)
        for f, d in zip(self.dim, v.dims):
            eng.assume(f(t) == Z(d))
        eng.assume(self.dty(t) == v.dtype)
        eng.assume(self.dev(t) == v.device)
        vs = [eng.fresh_bound("u", INT) for _ in range(self.rank)]
        if vs:
            body = eng.generic(lambda: tmodel.num(v.at(*vs)), vs, [])
            eng.assume(z3.ForAll(vs, self.el(t, *vs) == body, patterns=[self.el(t, *vs)]))
        else:
            eng.assume(self.el(t) == tmodel.num(v.at()))
        return t

    def wf(self, eng):
        """dimensions are nonnegative"""
        x = z3.Const("wft", self.sort)
        for f in self.dim:
            eng.assume(z3.ForAll([x], f(x) >= 0, patterns=[f(x)]))


def tensor_dict(I, name, rank, order=True):
    """an arbitrary dict ModelReference -> tensor of that rank (any number of models)"""
    tt = TTensor(rank)
    tt.wf(I.eng)
    d = SDict(kt=TModel, vt=tt, dom=z3.Const(f"{name}_dom", z3.ArraySort(ModelO.sort, BOOL)),
              val=z3.Const(f"{name}_val", z3.ArraySort(ModelO.sort, tt.sort)))
    if order:
        lib.dict_order(I, d)
    return d


def same_shape(I, d, dims, dtype=None):
    """every tensor of the dict has these dimensions (and this dtype)"""
    k = z3.Const("ssk", ModelO.sort)
    t = z3.Select(d.val, k)
    cs = [f(t) == Z(x) for f, x in zip(d.vt.dim, dims)]
    if dtype is not None:
        cs.append(d.vt.dty(t) == tmodel.dt(dtype))
    I.eng.assume(z3.ForAll([k], z3.Implies(z3.Select(d.dom, k), z3.And(*cs)), patterns=[t]))


def imap(data):
    return SObj(MC.ImmutableMap, {"data": data})


def param_map(name, fields, dom=None):
    """ImmutableMap[ModelReference, ImmutableMap[str, value]]; fields: {param: sort}"""
    fs = {f: z3.Function(f"{name}_{f}", ModelO.sort, s) for f, s in fields.items()}
    data = SDict(kt=TModel, has=(lambda k: z3.BoolVal(True)) if dom is None else (lambda k: z3.Select(dom, k)),
                 get=lambda k: imap(SDict(pairs=[(f, fs[f](k)) for f in fs])))
    return imap(data), fs


def dims(n, *names):
    return [z3.Int(x) for x in names[:n]]


def idx_in(ds, tag="ix"):
    """an arbitrary index tuple inside the given dimensions: (indices, condition)"""
    v = [z3.Int(f"{tag}{k}") for k in range(len(ds))]
    return v, z3.And(*[z3.And(x >= 0, x < Z(d)) for x, d in zip(v, ds)]) if v else z3.BoolVal(True)


def dims_are(t, ds):
    if not isinstance(t, STensor) or len(t.dims) != len(ds):
        return z3.BoolVal(False)
    return z3.And(*[Z(a) == Z(b) for a, b in zip(t.dims, ds)]) if ds else z3.BoolVal(True)


def absr(x):
    return z3.If(x < 0, -x, x)


def msum(I, n, f):
    """sum over k < n of f(k)"""
    return tmodel.big_sum(I, n, f)


def mention(I, *terms):
    """make terms visible to the solvers (they trigger quantified facts)"""
    for t in terms:
        I.eng.assume(I.eng.fresh("mention", t.sort()) == t)
