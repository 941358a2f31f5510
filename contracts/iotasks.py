"""Contracts of the tensor loading, gathering and saving tasks (mergekit/io/tasks.py)."""

import torch
import z3

import mergekit.common as MC
import mergekit.io.tasks as IT
from mergekit.architecture import WeightInfo
from mergekit.graph import Task
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
from pyvc import lib, tmodel
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import HDict, HList, HSet, LoopSpec, SDict, SList, SObj, SSet
from pyvc.tmodel import DType, STensor

from .util import *

M = "mergekit.io.tasks:"
OStr = TOpt(TStr)
T2 = TTensor(2)
OT2 = TOpt(T2)
LoaderO = Opaque("Loader", pyclass=LazyTensorLoader)
PATHS = z3.Function("INDEX", LoaderO.sort, z3.ArraySort(STR, BOOL))  # names in the checkpoint's index
PATHV = z3.Function("INDEXFILE", LoaderO.sort, z3.ArraySort(STR, STR))
STORED = z3.Function("STORED", LoaderO.sort, STR, T2.sort)
LOADER_OF = z3.Function("LOADER_OF", ModelO.sort, LoaderO.sort)
CONVERTED = z3.Function("CONVERTED", LoaderO.sort, OT2.sort)
DTNAME = z3.Function("dtype_named", STR, DType)


class _Index:
    pass


IndexO = Opaque("ShardIndex", attrs={
    "tensor_paths": lambda I, t: SDict(kt=TStr, vt=TStr, dom=PATHS(_of(t)), val=PATHV(_of(t)))})
INDEX_OF = z3.Function("INDEX_OF", LoaderO.sort, IndexO.sort)
_of = z3.Function("INDEX_LOADER", IndexO.sort, LoaderO.sort)


def _index(I, t):
    ix = INDEX_OF(t)
    I.eng.assume(_of(ix) == t)
    return ix


LoaderO.attrs["index"] = _index
LoaderO.methods["get_tensor"] = lambda I, t, name, device="cpu", **k: _get_tensor(I, t, name)


def _get_tensor(I, t, name):
    """contract of LazyTensorLoader.get_tensor: the stored tensor of that name, KeyError if there is none"""
    if not I.eng.branch(z3.Select(PATHS(t), S(name))):
        raise PyRaise(KeyError("tensor not in the checkpoint"))
    return T2.dec(STORED(t, S(name)))


def names_of(g):
    """(how many, name at position k) of the search order: own name, aliases, tied names"""
    na, nt = g["na"], g["nt"]
    at = lambda k: z3.If(k == 0, g["tensor"], z3.If(k <= na, z3.Select(g["al"], k - 1), z3.Select(g["ti"], k - 1 - na)))
    return 1 + na + nt, at


def first_existing(g, dom, r):
    """r (an optional string) is the first name of the search order that exists"""
    n, at = names_of(g)
    k, j = z3.Int("fk"), z3.Int("fj")
    there = lambda x: z3.Select(dom, at(x))
    return z3.And(
        z3.Implies(z3.Not(OStr.is_none(r)), z3.Exists([k], z3.And(0 <= k, k < n, OStr.v(r) == at(k), there(k), z3.ForAll(
            [j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(there(j))))))),
        z3.Implies(OStr.is_none(r), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Not(there(k))))))


def load_task(I, case):
    """case: (aliases given, tied names given)"""
    al, ti = case
    g = dict(tensor=z3.String("tensor"), al=z3.Const("aliases", z3.ArraySort(INT, STR)),
             ti=z3.Const("tied", z3.ArraySort(INT, STR)), na=z3.Int("na") if al else z3.IntVal(0),
             nt=z3.Int("nt") if ti else z3.IntVal(0), model=z3.Const("model", ModelO.sort))
    I.eng.assume(z3.And(g["na"] >= 0, g["nt"] >= 0))
    o = SObj(IT.LoadTensor, {
        "model": g["model"], "tensor": g["tensor"], "dtype": None, "device": None, "optional": False, "per_gpu": False,
        "aliases": SList(n=g["na"], t=TStr, arr=g["al"]) if al else None,
        "tied_names": SList(n=g["nt"], t=TStr, arr=g["ti"]) if ti else None})
    return o, g


def _resolve_inv(c):
    g = c.I.state_g
    n, at = names_of(g)
    j = z3.Int("rj")
    yield "none-so-far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(c.i)), z3.Not(z3.Select(PATHS(g["loader"]), at(j)))))
    yield "search-order", z3.And(Z(c.n) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), S(c.item(j)) == at(j))))


@contract("P15")
class ResolveName(Contract):
    target = M + "LoadTensor._resolve_name"
    cases = [(a, t) for a in (False, True) for t in (False, True)]
    loops = {("LoadTensor._resolve_name", 0): LoopSpec(_resolve_inv)}

    def setup(self, I, case):
        o, g = load_task(I, case)
        g["loader"] = z3.Const("loader", LoaderO.sort)
        I.state_g = g
        return (o, g["loader"]), {}, g

    def ensures(self, I, g, r):
        yield "own-name-then-aliases-then-tied-names", first_existing(g, PATHS(g["loader"]), OStr.enc(r))


@contract("P15")
class LoadExecute(Contract):
    target = M + "LoadTensor.execute"
    cases = [(o, d, dv) for o in (False, True) for d in (False, True) for dv in (False, True)]

    def __init__(self):
        def resolve(I, self_, loader):
            g = I.state_g
            r = I.eng.fresh("resolved", OStr.sort)
            I.eng.assume(first_existing(g, PATHS(loader), r))
            # tensor names are not empty
            I.eng.assume(z3.Implies(z3.Not(OStr.is_none(r)), OStr.v(r) != z3.StringVal("")))
            g["resolved"] = r
            return OStr.dec(r)

        self.calls = {
            M + "LoadTensor._resolve_name": resolve,
            M + "LoadTensor._load_converted_tensor": lambda I, self_, loader: OT2.dec(CONVERTED(loader)),
            "mergekit.common:dtype_from_name": lambda I, n: tmodel.dt_wrap(DTNAME(S(n))) if hasattr(tmodel, "dt_wrap") else DTNAME(S(n)),
        }
        cache = SObj(IT.LoaderCache, tag="cache")
        self.models = {IT.LoaderCache: lambda I: cache,
                       (IT.LoaderCache, "get"): lambda I, c, m: LOADER_OF(m)}

    trusted = ("tensor names are not empty", "LoaderCache.get: the loader of the given model")

    def setup(self, I, case):
        opt, d, dv = case
        T2.wf(I.eng)
        o, g = load_task(I, (True, True))
        g["optional"] = o.fields["optional"] = opt
        if d:
            g["dtype"] = o.fields["dtype"] = z3.String("dtype")
            I.eng.assume(g["dtype"] != z3.StringVal(""))
        if dv:
            o.fields["device"] = "cpu"
        g["loader"] = LOADER_OF(g["model"])
        g["case"] = case
        I.state_g = g
        return (o,), {}, g

    def ensures(self, I, g, r):
        L = g["loader"]
        nm = g["resolved"]
        conv = CONVERTED(L)
        if r is None:
            yield "skipped-only-if-absent-and-optional", z3.And(z3.BoolVal(g["optional"]), OStr.is_none(nm), OT2.is_none(conv))
            return
        src = z3.If(OStr.is_none(nm), OT2.v(conv), STORED(L, OStr.v(nm)))
        yield "found", z3.Or(z3.Not(OStr.is_none(nm)), z3.Not(OT2.is_none(conv)))
        yield "shape", dims_are(r, [f(src) for f in T2.dim])
        ix, inr = idx_in(r.dims)
        want = T2.el(src, *ix)
        if g["case"][1]:
            yield "requested-dtype", r.dtype == DTNAME(g["dtype"])
            yield "values-up-to-rounding-to-the-dtype", z3.Implies(inr, R(r.at(*ix)) == want)
        else:
            yield "stored-dtype", r.dtype == T2.dty(src)
            yield "values", z3.Implies(inr, R(r.at(*ix)) == want)

    def raises(self, I, g, exc):
        if isinstance(exc, RuntimeError):
            return z3.And(z3.BoolVal(not g["optional"]), OStr.is_none(g["resolved"]), OT2.is_none(CONVERTED(g["loader"])))
        return None


# ------------------------------------------------------------------ gathering

WIO = z3.DeclareSort("WeightInfoV")
WNAME = z3.Function("WNAME", WIO, STR)
WOPT = z3.Function("WOPT", WIO, BOOL)
WFORCE = z3.Function("WFORCE", WIO, OStr.sort)
AnyO = Opaque("AnyV")
WAL = z3.Function("WALIASES", WIO, AnyO.sort)
WTI = z3.Function("WTIED", WIO, AnyO.sort)
WeightO = Opaque("WeightInfoV", pyclass=WeightInfo, attrs={
    "name": lambda I, t: WNAME(t), "optional": lambda I, t: WOPT(t), "force_dtype": lambda I, t: OStr.dec(WFORCE(t)),
    "aliases": lambda I, t: WAL(t), "tied_names": lambda I, t: WTI(t)})
TWeight = TOpaque(WeightO)
MSTR = z3.Function("str_ModelRef", ModelO.sort, STR)


def key_of(m, w):
    return lib.str_concat([MSTR(m), ":", WNAME(w)])


def weight_map(I):
    d = SDict(kt=TModel, vt=TWeight, dom=z3.Const("wi_dom", z3.ArraySort(ModelO.sort, BOOL)),
              val=z3.Const("wi_val", z3.ArraySort(ModelO.sort, WIO)))
    lib.dict_order(I, d)
    a, b = z3.Const("ka", ModelO.sort), z3.Const("kb", ModelO.sort)
    I.eng.assume(z3.ForAll([a, b], z3.Implies(
        z3.And(z3.Select(d.dom, a), z3.Select(d.dom, b), key_of(a, z3.Select(d.val, a)) == key_of(b, z3.Select(d.val, b))),
        a == b)))
    return d


DISTINCT = "the models of one gathering have different texts (P11)"


@contract("P15")
class GatherArguments(Contract):
    target = M + "GatherTensors.arguments"
    cases = ["dtype", "no-dtype"]
    trusted = (DISTINCT,)
    uf_concat = True

    def setup(self, I, case):
        d = weight_map(I)
        dt = z3.String("gdtype") if case == "dtype" else None
        o = SObj(IT.GatherTensors, {"weight_info": imap(d), "dtype": dt, "device": z3.Const("gdev", AnyO.sort)})
        return (o,), {}, (d, dt, o)

    def ensures(self, I, g, r):
        d, dt, o = g
        m = z3.Const("anym", ModelO.sort)
        I.eng.assume(z3.Select(d.dom, m))
        n, kget, kidx = d.order
        w = z3.Select(d.val, m)
        k = key_of(m, w)
        # name the position of m so that the comprehension's facts apply
        mention(I, r.key_fn(kidx(m)))
        yield "every-model-has-its-request", r.has(k)
        t = r.at(k)
        yield "a-load-task", isinstance(t, SObj) and t.cls is IT.LoadTensor
        f = t.fields
        yield "of-that-model", f["model"] == m
        yield "of-that-models-weight", z3.And(S(f["tensor"]) == WNAME(w), f["aliases"] == WAL(w), f["tied_names"] == WTI(w))
        fd = WFORCE(w)
        own = z3.And(z3.Not(OStr.is_none(fd)), OStr.v(fd) != z3.StringVal(""))
        yield "in-the-weights-dtype-or-the-merges", OStr.enc(f["dtype"]) == z3.If(own, fd, OStr.enc(dt))
        yield "optional-iff-the-weight-is", B(f["optional"]) == WOPT(w)


@contract("P15")
class GatherExecute(Contract):
    target = M + "GatherTensors.execute"
    trusted = (DISTINCT,)
    uf_concat = True
    timeout_ms = 20000

    def setup(self, I, case):
        T2.wf(I.eng)
        d = weight_map(I)
        loaded = z3.Function("loaded", STR, OT2.sort)
        kw = SDict(kt=TStr, has=lambda k: z3.BoolVal(True), get=lambda k: OT2.dec(loaded(S(k))))
        o = SObj(IT.GatherTensors, {"weight_info": imap(d), "dtype": None, "device": None})
        return (o,), {"**sym": kw}, (d, loaded)

    def ensures(self, I, g, r):
        d, loaded = g
        m = z3.Const("anym", ModelO.sort)
        I.eng.assume(z3.Select(d.dom, m))
        n, kget, kidx = d.order
        k = key_of(m, z3.Select(d.val, m))
        there = z3.Not(OT2.is_none(loaded(k)))
        for d2 in I.dict_log:
            mention(I, d2.key_fn(kidx(m)), d2.key_index(k) if d2.key_index.domain(0) == STR else d2.key_index(m))
            if hasattr(d2, "filter"):
                p = z3.Select(d2.filter[1], kidx(m))
                mention(I, p, d2.key_fn(p))
        yield "exactly-the-models-that-have-the-weight", z3.And(z3.Implies(there, B(r.has(m))))
        q = z3.Const("anyq", ModelO.sort)
        yield "no-other-model", z3.Implies(B(r.has(q)), z3.And(
            z3.Select(d.dom, q), z3.Not(OT2.is_none(loaded(key_of(q, z3.Select(d.val, q)))))))
        i, j = z3.Int("anyi"), z3.Int("anyj")
        yield "in-the-given-order", z3.Implies(z3.And(0 <= i, i < j, j < r.src_n), kidx(r.key_fn(i)) < kidx(r.key_fn(j)))
        I.eng.assume(z3.And(there, B(r.has(m))))
        x = r.at(m)
        src = OT2.v(loaded(k))
        yield "its-own-shape", dims_are(x, [f(src) for f in T2.dim])
        ix, inr = idx_in(T2.dec(src).dims)
        yield "its-own-values", z3.Implies(inr, R(x.at(*ix)) == T2.el(src, *ix))


@contract("P15")
class SaveExecute(Contract):
    target = M + "SaveTensor.execute"
    cases = [(t, o, d) for t in (False, True) for o in (False, True) for d in (False, True)]

    def __init__(self):
        self.calls = {
            "mergekit.common:dtype_from_name": lambda I, n: DTNAME(S(n)),
            "mergekit.io.tensor_writer:TensorWriter.save_tensor":
                lambda I, w, name, tensor, clone=False: w.fields["calls"].append((name, tensor, clone)),
        }

    def setup(self, I, case):
        t, o, d = case
        w = SObj(IT.TensorWriter, {"calls": []})
        T2.wf(I.eng)
        x = T2.dec(z3.Const("x", T2.sort)) if t else None
        name, cl = z3.String("tname"), z3.Bool("clone")
        dty = z3.String("sdtype") if d else None
        if d:
            I.eng.assume(dty != z3.StringVal(""))
        me = SObj(IT.SaveTensor, {"tensor_name": name, "tensor_task": None, "writer_task": None, "clone": cl, "optional": o,
                                  "dtype": dty, "force_main_thread": False})
        return (me, w, x), {}, (case, w, x, name, dty, cl)

    def ensures(self, I, g, r):
        (t, o, d), w, x, name, dty, cl = g
        c = w.fields["calls"]
        if not t:
            yield "absent-only-if-optional", o
            yield "nothing-written", not c
            return
        yield "written-once", len(c) == 1
        nm, y, k = c[0]
        yield "under-its-name", S(nm) == name
        yield "clone-option-passed", B(k) == cl
        yield "same-shape", dims_are(y, x.dims)
        ix, inr = idx_in(x.dims)
        yield "values", z3.Implies(inr, R(y.at(*ix)) == R(x.at(*ix)))
        yield "dtype", y.dtype == (DTNAME(dty) if d else x.dtype)

    def raises(self, I, g, exc):
        (t, o, d), w, *_ = g
        if isinstance(exc, RuntimeError):
            return z3.BoolVal(not t and not o and not w.fields["calls"])
        return None


@contract("P15")
class ReturnExecute(Contract):
    target = M + "ReturnTensor.execute"
    cases = [False, True]
    calls = {"mergekit.common:dtype_from_name": lambda I, n: DTNAME(S(n))}

    def setup(self, I, case):
        T2.wf(I.eng)
        x = T2.dec(z3.Const("x", T2.sort))
        dty = z3.String("sdtype") if case else None
        if case:
            I.eng.assume(dty != z3.StringVal(""))
        me = SObj(IT.ReturnTensor, {"weight_info": None, "tensor_task": None, "dtype": dty})
        return (me, x), {}, (case, x, dty)

    def ensures(self, I, g, y):
        case, x, dty = g
        yield "same-shape", dims_are(y, x.dims)
        ix, inr = idx_in(x.dims)
        yield "values", z3.Implies(inr, R(y.at(*ix)) == R(x.at(*ix)))
        yield "dtype", y.dtype == (DTNAME(dty) if case else x.dtype)


TaskO = Opaque("AnyTask", pyclass=Task)


@contract("P15")
class FinalizeArguments(Contract):
    target = M + "FinalizeModel.arguments"

    def setup(self, I, case):
        n = z3.Int("nsave")
        I.eng.assume(n >= 0)
        ts = SList(n=n, t=TOpaque(TaskO), arr=z3.Const("saves", z3.ArraySort(INT, TaskO.sort)))
        w = z3.Const("writer", TaskO.sort)
        me = SObj(IT.FinalizeModel, {"tensor_save_tasks": ts, "writer_task": w})
        return (me,), {}, (n, ts, w)

    def ensures(self, I, g, r):
        n, ts, w = g
        j = z3.Int("anyj")
        I.eng.assume(z3.And(0 <= j, j < n))
        # some argument of the closing task is the j-th save task
        key = z3.String("anykey")
        found = I.eng.exists([STR], lambda k: z3.And(B(r.has(k)), r.at(k) == z3.Select(ts.arr, j)))
        yield "closes-only-after-every-save", found
        yield "uses-the-writer", z3.And(B(r.has("writer")), r.at("writer") == w)


@contract("P15")
class FinalizeExecute(Contract):
    target = M + "FinalizeModel.execute"
    calls = {"mergekit.io.tensor_writer:TensorWriter.finalize": lambda I, w: w.fields["calls"].append("finalize")}

    def setup(self, I, case):
        w = SObj(IT.TensorWriter, {"calls": []})
        return (SObj(IT.FinalizeModel, {}), w), {}, w

    def ensures(self, I, w, r):
        yield "closed-once", w.fields["calls"] == ["finalize"]


@contract("P15")
class SaveArguments(Contract):
    target = M + "SaveTensor.arguments"

    def setup(self, I, case):
        a, b = z3.Const("writer", TaskO.sort), z3.Const("tt", TaskO.sort)
        return (SObj(IT.SaveTensor, {"writer_task": a, "tensor_task": b}),), {}, (a, b)

    def ensures(self, I, g, r):
        d = dict(r.pairs)
        yield "writer-and-tensor", set(d) == {"writer", "tensor"} and d["writer"] is g[0] and d["tensor"] is g[1]
