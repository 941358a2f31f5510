"""Contracts of the merge planner (mergekit/plan.py).

Each planning function is checked against the contract of the function below
it; a call is an event in a ghost log, so that 'plans exactly these, in this
order' is a statement about that log."""

import z3

import mergekit.config as CF
import mergekit.io.tasks as IT
import mergekit.plan as PL
from mergekit.architecture import WeightInfo
from mergekit.graph import Task
from pyvc import lib
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import HDict, HList, LoopSpec, SDict, SList, SObj, SSet

from .util import *

M = "mergekit.plan:"


class TArr(T):
    """a total array, as ghost data"""

    def __init__(self, sort):
        self.sort = z3.ArraySort(INT, sort)

    def enc(self, v):
        return v


WO = Opaque("PlannedWeight", pyclass=WeightInfo)
TW = TOpaque(WO)
WNAME = z3.Function("pw_name", WO.sort, STR)
WOPT = z3.Function("pw_optional", WO.sort, BOOL)
WDT = z3.Function("pw_dtype", WO.sort, TOpt(TStr).sort)
WO.attrs.update({"name": lambda I, t: WNAME(t), "optional": lambda I, t: WOPT(t),
                 "force_dtype": lambda I, t: TOpt(TStr).dec(WDT(t))})
AW = z3.ArraySort(INT, WO.sort)
AM = z3.ArraySort(INT, ModelO.sort)

SrcO = Opaque("PlanSource", pyclass=CF.InputSliceDefinition)
S_MODEL = z3.Function("ps_model", SrcO.sort, ModelO.sort)
S_FROM = z3.Function("ps_from", SrcO.sort, INT)
S_TO = z3.Function("ps_to", SrcO.sort, INT)
SrcO.attrs.update({"model": lambda I, t: S_MODEL(t), "layer_range": lambda I, t: SList(items=[S_FROM(t), S_TO(t)])})
TSrc = TOpaque(SrcO)
SliceO = Opaque("PlanSlice", pyclass=CF.OutputSliceDefinition)
SL_N = z3.Function("sl_n", SliceO.sort, INT)
SL_SRC = z3.Function("sl_sources", SliceO.sort, z3.ArraySort(INT, SrcO.sort))
SL_BASE = z3.Function("sl_base", SliceO.sort, TOpt(TOpaque(ModelO)).sort)
SliceO.attrs["sources"] = lambda I, t: SList(n=SL_N(t), t=TSrc, arr=SL_SRC(t))
SlParO = Opaque("SliceParameters")
SlParO.truthy = z3.Function("slice_parameters_truth", SlParO.sort, z3.BoolSort())
SL_PAR = z3.Function("sl_parameters", SliceO.sort, TOpt(TOpaque(SlParO)).sort)
SliceO.attrs["parameters"] = lambda I, t: TOpt(TOpaque(SlParO)).dec(SL_PAR(t))
TSlice = TOpaque(SliceO)


class Ev:
    """one call of the function below"""


LOUT = z3.Function("out_layer_weight", INT, INT, WO.sort)  # output layer, position
LOUTN = z3.Function("out_layer_len", INT, INT)
LIN = z3.Function("in_layer_weight", ModelO.sort, INT, INT, WO.sort)
LINN = z3.Function("in_layer_len", ModelO.sort, INT, INT)
PREW, POSTW = (z3.Function(n, INT, WO.sort) for n in ("pre_weight", "post_weight"))


class _OutArch:
    pass


class _ModelArch:
    pass


def lst(n, t, f):
    k = z3.Int("lk")
    return SList(n=n, t=t, arr=z3.Lambda([k], f(k)))


def planner(I, **fields):
    log = SList(items=[])
    o = SObj(PL.MergePlanner, {"config": SObj(CF.MergeConfiguration, {"base_model": None, "parameters": None}, tag="config"),
                               "__log__": log, **fields})
    return o


def start_log(I, t):
    """the log so far: any events"""
    n = z3.Int("log0")
    I.eng.assume(n >= 0)
    return SList(n=n, t=t, arr=z3.Const("logarr", z3.ArraySort(INT, t.sort)))


def reader(config, t=0, name=None, slice_out=None, module=None):
    return SObj(CF.ConfigReader, {"config": config, "t": t, "tensor_name": name, "slice_out": slice_out, "module": module})


# ------------------------------------------------------------------ plan_layer


TTensorEv = TRec(Ev, {"weight": TW, "nin": TInt, "win": TArr(WO.sort), "nmod": TInt, "mods": TArr(ModelO.sort), "t": TReal,
                      "slice": TSlice, "named": TOpt(TStr)})


def _plan_tensor_contract(I, self_, weight, weights_in, models, cfg_reader):
    g = I.state_g
    f = cfg_reader.fields
    I.eng.prove("the-merge-configuration-is-used", z3.BoolVal(f["config"] is self_.fields["config"]))
    I.eng.prove("the-module-is-used", z3.BoolVal(f["module"] is g["module"]))
    nin, win = weights_in.as_array(TW)
    nm, mods = models.as_array(TOpaque(ModelO))
    ev = SObj(Ev, {"weight": weight, "nin": nin, "win": win, "nmod": nm, "mods": mods, "t": R(f["t"]), "slice": f["slice_out"],
                   "named": f["tensor_name"]})
    lib.list_append(I, self_.fields["__log__"], ev)


ARCH_MODELS = {
    (_OutArch, "layer_weights"): lambda I, o, index=None: lst(LOUTN(Z(index)), TW, lambda k: LOUT(Z(index), k)),
    (_OutArch, "pre_weights"): lambda I, o: lst(I.state_g["npre"], TW, PREW),
    (_OutArch, "post_weights"): lambda I, o: lst(I.state_g["npost"], TW, POSTW),
    (PL.MergePlanner, "_model_arch"): lambda I, o, m: SObj(_ModelArch, {"model": m}, tag="arch"),
    (_ModelArch, "get_module"): lambda I, o, name: _get_module(I, o, name),
    (_ModelArch, "layer_weights"): lambda I, o, index=None: lst(
        LINN(o.fields["model"], Z(index)), TW, lambda k: LIN(o.fields["model"], Z(index), k)),
}


def _get_module(I, o, name):
    I.eng.prove("same-module-of-the-source", z3.BoolVal(name is I.state_g["name"]))
    return SObj(_ModelArch, {"model": o.fields["model"]}, tag="module-arch")


def _out_arch(I, self_, name):
    I.eng.prove("the-module-being-planned", z3.BoolVal(name is I.state_g["name"]))
    return SObj(_OutArch, {}, tag="out-arch")


def pat(arr, k):
    return dict(patterns=[z3.Select(arr, k)]) if arr.num_args() == 0 else {}


def ev_at(log, t, j):
    n, arr = log.as_array(t)
    acc = {k: a for (k, _), a in zip(t.var, t.acc)}
    e = z3.Select(arr, j)
    return lambda f: acc[f](e)


def layer_event(I, g, log, pos, idx):
    """event pos plans weight idx of the current output layer from the right input layers"""
    e = ev_at(log, TTensorEv, pos)
    j = z3.Int("lej")
    src = lambda k: z3.Select(g["src"], k)
    return z3.And(
        e("weight") == LOUT(g["cur"], idx), e("nin") == g["n"], e("nmod") == g["n"], e("t") == g["t"], e("slice") == g["slice"],
        TOpt(TStr).is_none(e("named")),
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < g["n"]), z3.And(
            z3.Select(e("mods"), j) == S_MODEL(src(j)),
            z3.Select(e("win"), j) == LIN(S_MODEL(src(j)), S_FROM(src(j)) + g["off"], idx)))))


def _layer_inv(c):
    g = c.I.state_g
    log = c["self.__log__"]
    n, arr = log.as_array(TTensorEv)
    k = z3.Int("lik")
    yield "one-per-weight", n == g["n0"] + Z(c.i)
    yield "earlier-events-kept", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g["n0"]), z3.Select(arr, k) == z3.Select(g["log0"], k)))
    yield "planned-so-far", z3.ForAll([k], z3.Implies(z3.And(g["n0"] <= k, k < g["n0"] + Z(c.i)), layer_event(
        c.I, g, log, k, k - g["n0"])), **pat(arr, k))


@contract("P06")
class PlanLayer(Contract):
    """every weight of the output layer, from each source's layer at the offset, or refused"""

    target = M + "MergePlanner.plan_layer"
    calls = {M + "MergePlanner.plan_tensor": _plan_tensor_contract, M + "MergePlanner._out_module_arch": _out_arch}
    models = ARCH_MODELS
    loops = {("MergePlanner.plan_layer", 0): LoopSpec(_layer_inv, {"self.__log__": HList(TTensorEv)})}

    def setup(self, I, case):
        n, off, cur = z3.Ints("nsrc offset current")
        t, name = z3.Real("t"), z3.String("module_name")
        I.eng.assume(z3.And(n >= 1, cur >= 0))
        k, m, q = z3.Int("alk"), z3.Const("alm", ModelO.sort), z3.Int("alq")
        I.eng.assume(z3.ForAll([k], LOUTN(k) >= 0, patterns=[LOUTN(k)]))
        I.eng.assume(z3.ForAll([m, q], LINN(m, q) >= 0, patterns=[LINN(m, q)]))
        src = z3.Const("srcs", z3.ArraySort(INT, SrcO.sort))
        sl, mod = z3.Const("slice", SliceO.sort), SObj(CF.OutputModuleDefinition, {}, tag="module")
        log = start_log(I, TTensorEv)
        p = planner(I, _current_module_layers=cur, __log__=log)
        g = dict(n=n, off=off, cur=cur, t=t, src=src, slice=sl, module=mod, name=name, p=p, n0=Z(log.n), log0=log.arr)
        I.state_g = g
        rd = reader(p.fields["config"], t=z3.Real("other_t"), slice_out=sl, module=mod)
        return (p, SList(n=n, t=TSrc, arr=src), off, t, rd, name), {}, g

    def mismatch(self, g):
        j = z3.Int("mmj")
        s = z3.Select(g["src"], j)
        return z3.Exists([j], z3.And(0 <= j, j < g["n"], LINN(S_MODEL(s), S_FROM(s) + g["off"]) != LOUTN(g["cur"])))

    def ensures(self, I, g, r):
        log = g["p"].fields["__log__"]
        n, arr = log.as_array(TTensorEv)
        k = z3.Int("plk")
        yield "refuses-sources-of-another-structure", z3.Not(self.mismatch(g))
        yield "one-tensor-per-weight", n == g["n0"] + LOUTN(g["cur"])
        yield "each-from-its-sources", z3.Implies(z3.And(0 <= k, k < LOUTN(g["cur"])), layer_event(I, g, log, g["n0"] + k, k))
        yield "earlier-plans-kept", z3.Implies(z3.And(0 <= k, k < g["n0"]), z3.Select(arr, k) == z3.Select(g["log0"], k))
        yield "next-output-layer", Z(g["p"].fields["_current_module_layers"]) == g["cur"] + 1

    def raises(self, I, g, exc):
        if isinstance(exc, RuntimeError):
            return z3.And(self.mismatch(g), z3.BoolVal(g["p"].fields["__log__"].arr.eq(g["log0"])))
        return None


# ------------------------------------------------------------------ plan_slice

TLayerEv = TRec(Ev, {"off": TInt, "t": TReal, "slice": TSlice, "cur": TInt})


def _plan_layer_contract(I, self_, sources, layer_offset=None, t=None, cfg_reader=None, module_name=None):
    g = I.state_g
    f = cfg_reader.fields
    I.eng.prove("the-merge-configuration-is-used", z3.BoolVal(f["config"] is self_.fields["config"]))
    I.eng.prove("the-module-is-used", z3.BoolVal(f["module"] is g["module"] and module_name is g["name"]))
    I.eng.prove("parameters-and-sources-of-the-same-slice", z3.And(
        f["slice_out"] == g["slice"], Z(sources.length()) == SL_N(g["slice"]), z3.BoolVal(sources.arr.eq(SL_SRC(g["slice"])))))
    I.eng.prove("no-tensor-name-yet", z3.BoolVal(f["tensor_name"] is None))
    lib.list_append(I, self_.fields["__log__"], SObj(Ev, {
        "off": Z(layer_offset), "t": R(t), "slice": f["slice_out"], "cur": Z(self_.fields["_current_module_layers"])}))
    I.setattr(self_, "_current_module_layers", Z(self_.fields["_current_module_layers"]) + 1)


def slice_event(g, log, pos, idx, n):
    e = ev_at(log, TLayerEv, pos)
    return z3.And(e("off") == idx, e("slice") == g["slice"], e("cur") == g["cur"] + idx,
                  z3.Implies(n == 1, e("t") == 1),
                  z3.Implies(n > 1, e("t") * z3.ToReal(n - 1) == z3.ToReal(idx)))


def _slice_inv(c):
    g = c.I.state_g
    log = c["self.__log__"]
    n, arr = log.as_array(TLayerEv)
    k = z3.Int("sik")
    total = g["len"]
    yield "one-per-layer", n == g["n0"] + Z(c.i)
    yield "layers-counted", Z(c["self._current_module_layers"]) == g["cur"] + Z(c.i)
    yield "earlier-events-kept", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g["n0"]), z3.Select(arr, k) == z3.Select(g["log0"], k)))
    yield "planned-so-far", z3.ForAll([k], z3.Implies(z3.And(g["n0"] <= k, k < g["n0"] + Z(c.i)), slice_event(
        g, log, k, k - g["n0"], total)), **pat(arr, k))


@contract("P06")
class PlanSlice(Contract):
    """one output layer per layer of the range, with t running from 0 to 1, or refused"""

    target = M + "MergePlanner.plan_slice"
    calls = {M + "MergePlanner.plan_layer": _plan_layer_contract}
    models = ARCH_MODELS
    loops = {("MergePlanner.plan_slice", 0): LoopSpec(_slice_inv, {
        "self.__log__": HList(TLayerEv), "self._current_module_layers": TInt})}

    def setup(self, I, case):
        cur, name = z3.Int("current"), z3.String("module_name")
        sl, mod = z3.Const("slice", SliceO.sort), SObj(CF.OutputModuleDefinition, {}, tag="module")
        I.eng.assume(z3.And(SL_N(sl) >= 1, cur >= 0))
        s0 = z3.Select(SL_SRC(sl), 0)
        log = start_log(I, TLayerEv)
        p = planner(I, _current_module_layers=cur, __log__=log)
        g = dict(slice=sl, module=mod, name=name, cur=cur, p=p, n0=Z(log.n), log0=log.arr, len=S_TO(s0) - S_FROM(s0))
        I.state_g = g
        return (p, sl, mod, name), {}, g

    def mismatch(self, g):
        j = z3.Int("smj")
        s = z3.Select(SL_SRC(g["slice"]), j)
        return z3.Exists([j], z3.And(0 <= j, j < SL_N(g["slice"]), S_TO(s) - S_FROM(s) != g["len"]))

    def ensures(self, I, g, r):
        log = g["p"].fields["__log__"]
        n, arr = log.as_array(TLayerEv)
        k = z3.Int("psk")
        ln = z3.If(g["len"] > 0, g["len"], 0)
        yield "refuses-sources-of-different-length", z3.Not(self.mismatch(g))
        yield "one-layer-per-layer-of-the-range", n == g["n0"] + ln
        yield "each-at-its-offset-and-t", z3.Implies(z3.And(0 <= k, k < ln), slice_event(g, log, g["n0"] + k, k, g["len"]))
        yield "earlier-plans-kept", z3.Implies(z3.And(0 <= k, k < g["n0"]), z3.Select(arr, k) == z3.Select(g["log0"], k))
        yield "layers-counted", Z(g["p"].fields["_current_module_layers"]) == g["cur"] + ln

    def raises(self, I, g, exc):
        if isinstance(exc, RuntimeError):
            return z3.And(self.mismatch(g), z3.BoolVal(g["p"].fields["__log__"].arr.eq(g["log0"])))
        return None


# ------------------------------------------------------------------ plan_module

# a planned weight outside the layers (slice: whose sources are used), or a whole slice
TModEv = TRec(Ev, {"kind": TInt, "weight": TW, "slice": TSlice, "nin": TInt, "win": TArr(WO.sort), "nmod": TInt,
                   "mods": TArr(ModelO.sort), "cur": TInt})


def _plan_outer(I, self_, weight, weights_in, models, cfg_reader):
    g = I.state_g
    f = cfg_reader.fields
    I.eng.prove("the-merge-configuration-is-used", z3.BoolVal(f["config"] is self_.fields["config"]))
    I.eng.prove("the-module-is-used", z3.BoolVal(f["module"] is g["module"]))
    I.eng.prove("resolved-for-this-tensor", S(f["tensor_name"]) == WNAME(weight))
    I.eng.prove("outside-the-layers-t-is-zero", R(f["t"]) == 0)
    nin, win = weights_in.as_array(TW)
    nm, mods = models.as_array(TOpaque(ModelO))
    lib.list_append(I, self_.fields["__log__"], SObj(Ev, {
        "kind": z3.IntVal(0), "weight": weight, "slice": f["slice_out"], "nin": nin, "win": win, "nmod": nm, "mods": mods,
        "cur": z3.IntVal(0)}))


def _plan_slice_contract(I, self_, definition, module_def=None, module_name=None):
    g = I.state_g
    I.eng.prove("the-module-is-used", z3.BoolVal(module_def is g["module"] and module_name is g["name"]))
    cur = Z(self_.fields["_current_module_layers"])
    lib.list_append(I, self_.fields["__log__"], SObj(Ev, {
        "kind": z3.IntVal(1), "weight": z3.Const("no_weight", WO.sort), "slice": definition, "nin": z3.IntVal(0),
        "win": z3.Const("no_win", AW), "nmod": z3.IntVal(0), "mods": z3.Const("no_mods", AM), "cur": cur}))
    # plan_slice counts its layers (proved above)
    s0 = z3.Select(SL_SRC(definition), 0)
    ln = S_TO(s0) - S_FROM(s0)
    I.setattr(self_, "_current_module_layers", cur + z3.If(ln > 0, ln, 0))


def outer_event(log, pos, w, sl):
    e = ev_at(log, TModEv, pos)
    j = z3.Int("oej")
    n = SL_N(sl)
    return z3.And(e("kind") == 0, e("weight") == w, e("slice") == sl, e("nin") == n, e("nmod") == n, z3.ForAll(
        [j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(e("win"), j) == w,
                                                      z3.Select(e("mods"), j) == S_MODEL(z3.Select(SL_SRC(sl), j))))))


CUM = z3.Function("layers_before", INT, INT)  # output layers of the slices before the k-th


def inner_event(g, log, pos, k):
    e = ev_at(log, TModEv, pos)
    return z3.And(e("kind") == 1, e("slice") == z3.Select(g["slices"], k), e("cur") == CUM(k))


def _module_parts(g, log, npre, nsl, npost):
    """the log holds npre outer events, then nsl slices, then npost outer events"""
    n, arr = log.as_array(TModEv)
    k = z3.Int("mpk")
    first, last = z3.Select(g["slices"], 0), z3.Select(g["slices"], g["ns"] - 1)
    yield "nothing-else", n == npre + nsl + npost
    yield "first-weights-from-the-first-slice", z3.ForAll([k], z3.Implies(
        z3.And(0 <= k, k < npre), outer_event(log, k, PREW(k), first)), **pat(arr, k))
    yield "slices-in-order", z3.ForAll([k], z3.Implies(
        z3.And(npre <= k, k < npre + nsl), inner_event(g, log, k, k - npre)), **pat(arr, k))
    yield "last-weights-from-the-last-slice", z3.ForAll([k], z3.Implies(
        z3.And(npre + nsl <= k, k < n), outer_event(log, k, POSTW(k - npre - nsl), last)), **pat(arr, k))


def _mod_inv(which):
    def inv(c):
        g = c.I.state_g
        i = Z(c.i)
        log = c["self.__log__"]
        n = [(i, 0, 0), (g["npre"], i, 0), (g["npre"], g["ns"], i)][which]
        yield from _module_parts(g, log, *[Z(x) for x in n])
        if which == 1:
            yield "layers-counted", Z(c["self._current_module_layers"]) == CUM(i)
    return inv


@contract("P06")
class PlanModule(Contract):
    """first weights from the first slice's sources, the slices in order, last weights from the last slice's"""

    target = M + "MergePlanner.plan_module"
    calls = {M + "MergePlanner.plan_tensor": _plan_outer, M + "MergePlanner.plan_slice": _plan_slice_contract,
             M + "MergePlanner._out_module_arch": _out_arch}
    models = ARCH_MODELS
    loops = {("MergePlanner.plan_module", 0): LoopSpec(_mod_inv(0), {"self.__log__": HList(TModEv)}),
             ("MergePlanner.plan_module", 1): LoopSpec(_mod_inv(1), {"self.__log__": HList(TModEv), "self._current_module_layers": TInt}),
             ("MergePlanner.plan_module", 2): LoopSpec(_mod_inv(2), {"self.__log__": HList(TModEv)})}

    def setup(self, I, case):
        npre, npost, ns = z3.Ints("npre npost nslices")
        name = z3.String("module_name")
        I.eng.assume(z3.And(npre >= 0, npost >= 0, ns >= 1))
        sls = z3.Const("slices", z3.ArraySort(INT, SliceO.sort))
        x, k = z3.Const("asl", SliceO.sort), z3.Int("ak")
        I.eng.assume(z3.ForAll([x], SL_N(x) >= 1, patterns=[SL_N(x)]))
        s0 = z3.Select(SL_SRC(z3.Select(sls, k)), 0)
        ln = S_TO(s0) - S_FROM(s0)
        I.eng.assume(CUM(0) == 0)
        I.eng.assume(z3.ForAll([k], z3.Implies(k >= 0, CUM(k + 1) == CUM(k) + z3.If(ln > 0, ln, 0)), patterns=[CUM(k + 1)]))
        mod = SObj(CF.OutputModuleDefinition, {"slices": SList(n=ns, t=TSlice, arr=sls), "models": None, "parameters": None}, tag="module")
        p = planner(I, _current_module_layers=z3.Int("stale"))
        p.fields["__log__"] = SList(n=z3.IntVal(0), t=TModEv, arr=z3.Const("logarr", z3.ArraySort(INT, TModEv.sort)))
        g = dict(npre=npre, npost=npost, ns=ns, slices=sls, module=mod, name=name, p=p)
        I.state_g = g
        return (p, name, mod), {}, g

    def ensures(self, I, g, r):
        yield from _module_parts(g, g["p"].fields["__log__"], g["npre"], g["ns"], g["npost"])


# ------------------------------------------------------------------ plan_tensor

ParO = Opaque("ResolvedParameter", truthy=None)
PAR = z3.Function("resolved", STR, STR, TOpt(TOpaque(ModelO)).sort, ParO.sort)  # tensor, parameter, model
OM = TOpt(TOpaque(ModelO))
DFLT = z3.Function("default_of", STR, ParO.sort)
W_NAL = z3.Function("pw_naliases", WO.sort, INT)
W_AL = z3.Function("pw_aliases", WO.sort, z3.ArraySort(INT, STR))
W_HASAL = z3.Function("pw_has_aliases", WO.sort, BOOL)
W_EMB = z3.Function("pw_is_embed", WO.sort, BOOL)
HASKEY = z3.Function("model_has_tensor", ModelO.sort, z3.ArraySort(STR, BOOL))
WO.attrs["is_embed"] = lambda I, t: W_EMB(t)


def _aliases(I, t):
    if not I.eng.branch(W_HASAL(t)):
        return None
    return SList(n=W_NAL(t), t=TStr, arr=W_AL(t))


WO.attrs["aliases"] = _aliases


def present(m, w):
    """the model's checkpoint holds the weight under its name or an alias"""
    j = z3.Int("prj")
    return z3.Or(z3.Select(HASKEY(m), WNAME(w)), z3.And(W_HASAL(w), z3.Exists([j], z3.And(
        0 <= j, j < W_NAL(w), z3.Select(HASKEY(m), z3.Select(W_AL(w), j))))))


class _Loader:
    pass


def _cache_get(I, o, m):
    return SObj(_Loader, {"index": SObj(_Loader, {"tensor_paths": SDict(
        kt=TStr, vt=TStr, dom=HASKEY(m), val=z3.Const("files", z3.ArraySort(STR, STR)))})})


class _Method:
    pass


class _PDef:
    pass


def _parameter(I, self_, name, model=None, default=None, required=False):
    """contract of ConfigReader.parameter: the value resolved for this tensor, parameter and model"""
    g = I.state_g
    f = self_.fields
    I.eng.prove("resolved-in-the-callers-scope", z3.And(R(f["t"]) == g["t"], z3.BoolVal(
        f["slice_out"] is g["slice"] and f["module"] is g["module"] and f["config"] is g["config"])))
    spec = [d for d in g["defs"] if d.fields["name"] == name][0].fields
    I.eng.prove("declared-default", z3.BoolVal(default is spec["default_value"]))
    is_base = z3.BoolVal(False) if model is None or g["base"] is None else model == g["base"]
    I.eng.prove("required-unless-base", B(required) == z3.And(spec["required"], z3.Not(is_base)))
    return PAR(S(f["tensor_name"]), z3.StringVal(name), OM.enc(model))


@contract("P06")
class PlanTensor(Contract):
    """one task merging exactly the given models' tensors, with the parameters resolved for each of them"""

    target = M + "MergePlanner.plan_tensor"
    cases = [(1, b, t) for b in (None, "first", "other") for t in (False, True)] + [
        (2, None, False), (2, "first", False), (2, "first", True), (2, "other", False), (3, None, False), (3, "first", False)]
    bounded = "1 or 2 source models (3 when the weight is not optional), two parameters of each kind"
    calls = {"mergekit.config:ConfigReader.parameter": _parameter}

    def __init__(self):
        self.models = {
            IT.LoaderCache: lambda I: SObj(_Loader, tag="cache"),
            (_Loader, "get"): _cache_get,
            (_Method, "parameters"): lambda I, o: SList(items=list(I.state_g["gdefs"])),
            (_Method, "tensor_parameters"): lambda I, o: SList(items=list(I.state_g["tdefs"])),
            (_Method, "make_task"): lambda I, o, **kw: self.made(I, kw),
        }

    def made(self, I, kw):
        o = SObj(Ev, kw)
        I.state_g["made"].append(o)
        return o

    def setup(self, I, case):
        n, base, tok = case
        ms = [z3.Const(f"model{k}", ModelO.sort) for k in range(n)]
        if n > 1:
            I.eng.assume(z3.Distinct(*ms))  # the same model twice in one slice: known finding
        ws = [z3.Const(f"weight_in{k}", WO.sort) for k in range(n)]
        w = z3.Const("weight_out", WO.sort)
        if n == 3:
            I.eng.assume(z3.Not(WOPT(w)))
        x = z3.Const("nnw", WO.sort)
        I.eng.assume(z3.ForAll([x], W_NAL(x) >= 0, patterns=[W_NAL(x)]))
        b = {None: None, "first": ms[0], "other": z3.Const("base", ModelO.sort)}[base]
        mk = lambda nm: SObj(_PDef, {"name": nm, "required": z3.Bool("req_" + nm), "default_value": DFLT(z3.StringVal(nm))})
        gd, td = [mk("t"), mk("lambda")], [mk("weight"), mk("density")]
        cfg = SObj(CF.MergeConfiguration, {"base_model": b, "dtype": z3.String("dtype"), "parameters": None, "tokenizer": None})
        sl = SObj(CF.OutputSliceDefinition, {"base_model": None, "parameters": None, "sources": None}, tag="slice")
        mod = SObj(CF.OutputModuleDefinition, {"parameters": None}, tag="module")
        t = z3.Real("t")
        method = SObj(_Method, {}, tag="method")
        tk = SObj(Ev, {}, tag="tokenizer-task") if tok else None
        p = SObj(PL.MergePlanner, {"config": cfg, "options": SObj(Ev, {"device": z3.String("device"), "read_to_gpu": z3.Bool("gpu")}),
                                   "_method": method, "_tokenizer_task": tk, "_tensors": SList(items=[])})
        g = dict(ms=ms, ws=ws, w=w, base=b, gdefs=gd, tdefs=td, defs=gd + td, config=cfg, slice=sl, module=mod, t=t, p=p,
                 made=[], tok=tk)
        I.state_g = g
        rd = reader(cfg, t=t, name=z3.String("stale_name"), slice_out=sl, module=mod)
        return (p, w, SList(items=ws), SList(items=list(ms)), rd), {}, g

    def ensures(self, I, g, r):
        done = g["p"].fields["_tensors"].items
        some = z3.Or(*[present(m, w) for m, w in zip(g["ms"], g["ws"])])
        if not done:
            yield "only-an-optional-weight-nobody-has-is-skipped", z3.And(WOPT(g["w"]), z3.Not(some))
            return
        yield "an-optional-weight-nobody-has-is-skipped", z3.Or(z3.Not(WOPT(g["w"])), some)
        yield "one-task", len(done) == 1 and len(g["made"]) == 1
        (w, task), = done
        f = g["made"][0].fields
        yield "for-this-weight", z3.And(z3.BoolVal(task is g["made"][0]), w == g["w"], f["output_weight"] == g["w"])
        yield "base-model", z3.BoolVal(f["base_model"] is g["base"])
        inp = f["tensors"]
        gather = inp
        if inp.cls is PL.PermutedEmbeddings:
            e = inp.fields
            gather = e["gather_tensors"]
            yield "only-embeddings-follow-the-tokenizer", z3.And(W_EMB(g["w"]), z3.BoolVal(
                e["tokenizer_task"] is g["tok"] and g["tok"] is not None and e["base_model"] is g["base"]))
        else:
            yield "embeddings-follow-the-tokenizer", z3.Or(z3.Not(W_EMB(g["w"])), z3.BoolVal(g["tok"] is None))
        wi = gather.fields["weight_info"].fields["data"].pairs
        yield "reads-exactly-the-given-tensors", z3.And(z3.BoolVal(len(wi) == len(g["ms"])), *[
            z3.And(a == m, b == w_) for (a, b), m, w_ in zip(wi, g["ms"], g["ws"])])
        yield "in-the-merge-dtype", z3.BoolVal(gather.fields["dtype"] is g["config"].fields["dtype"])
        gp = f["parameters"].fields["data"].pairs
        yield "global-parameters-of-this-tensor", z3.And(z3.BoolVal([k for k, _ in gp] == ["t", "lambda"]), *[
            v == PAR(WNAME(g["w"]), z3.StringVal(k), OM.none) for k, v in gp])
        tp = f["tensor_parameters"].fields["data"].pairs
        yield "parameters-for-each-model", z3.BoolVal(len(tp) == len(g["ms"]))
        for (m, mp), m0, w0 in zip(tp, g["ms"], g["ws"]):
            ps = mp.fields["data"].pairs
            yield "parameters-of-its-own-tensor-and-model", z3.And(m == m0, z3.BoolVal([k for k, _ in ps] == ["weight", "density"]), *[
                v == PAR(WNAME(w0), z3.StringVal(k), OM.some(m0)) for k, v in ps])


# ------------------------------------------------------------------ the list of tasks

TaskO = Opaque("PlannedTask", pyclass=Task)
TTask = TOpaque(TaskO)
OSt = TOpt(TStr)


def all_planned(I):
    n = z3.Int("planned")
    I.eng.assume(n >= 0)
    pair = TTup(TW, TTask)
    arr = z3.Const("plan", z3.ArraySort(INT, pair.sort))
    return n, arr, pair, SList(n=n, t=pair, arr=arr)


def want_dtype(I, w, out):
    """the weight's own dtype if it forces one, otherwise the output dtype"""
    d = WDT(w)
    return z3.If(z3.And(z3.Not(OSt.is_none(d)), OSt.v(d) != z3.StringVal("")), d, OSt.enc(out))


SaveSort = z3.DeclareSort("SaveTask")
SAVE_F = {f: z3.Function("st_" + f, SaveSort, t.sort) for f, t in (
    ("tensor_name", TStr), ("tensor_task", TTask), ("optional", TBool), ("clone", TBool), ("dtype", OSt))}


class _SaveT(T):
    """save tasks, their (single) writer being identity-checked"""

    sort = SaveSort
    F = SAVE_F

    def enc(self, v):
        if is_z3(v) and v.sort() == self.sort:
            return v
        if not isinstance(v, SObj) or v.cls is not IT.SaveTensor:
            raise Unsupported("not a save task")
        eng = Engine.current
        s = eng.fresh("save", self.sort)
        f = v.fields
        eng.prove("the-one-writer", z3.BoolVal(f["writer_task"] is eng.the_writer))
        eng.assume(z3.And(self.F["tensor_name"](s) == S(f["tensor_name"]), self.F["tensor_task"](s) == f["tensor_task"],
                          self.F["optional"](s) == B(f["optional"]), self.F["clone"](s) == B(f["clone"]),
                          self.F["dtype"](s) == OSt.enc(f["dtype"])))
        return s


SAVET = _SaveT()


def save_is(s, pair, e, clone, out, I):
    w, t = pair.acc[0](e), pair.acc[1](e)
    F = SAVET.F
    return z3.And(F["tensor_name"](s) == WNAME(w), F["tensor_task"](s) == t, F["optional"](s) == WOPT(w), F["clone"](s) == clone,
                  F["dtype"](s) == want_dtype(I, w, out))


def _disk_inv(c):
    g = c.I.state_g
    n, arr = c["save_tasks"].as_array(SAVET)
    k = z3.Int("dik")
    yield "one-each", n == Z(c.i)
    yield "saved-so-far", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(c.i)), save_is(
        z3.Select(arr, k), g["pair"], z3.Select(g["arr"], k), g["clone"], g["out"], c.I)))


def _writer_task(I, **kw):
    o = SObj(Ev, kw, tag="writer-task")
    I.eng.the_writer = o
    return o


@contract("P06")
class PlanToDisk(Contract):
    """one save task per planned tensor, in its dtype, all closed by one finalize task"""

    target = M + "MergePlanner.plan_to_disk"
    cases = [(o, t) for o in (False, True) for t in (False, True)]
    calls = {M + "MergePlanner._plan": lambda I, self_: None}
    models = {IT.TensorWriterTask: _writer_task}
    loops = {("MergePlanner.plan_to_disk", 0): LoopSpec(_disk_inv, {"save_tasks": HList(SAVET)})}

    def setup(self, I, case):
        o, t = case
        n, arr, pair, l = all_planned(I)
        out = z3.String("out_dtype") if o else None
        opt = dict(out_shard_size=z3.Int("shard"), safe_serialization=z3.Bool("safe"), async_write=z3.Bool("asy"),
                   write_threads=z3.Int("threads"), clone_tensors=z3.Bool("clone"))
        tok = SObj(Ev, {}, tag="tokenizer-task") if t else None
        p = SObj(PL.MergePlanner, {"config": SObj(Ev, {"out_dtype": out}), "options": SObj(Ev, opt), "_tensors": l, "_tokenizer_task": tok})
        g = dict(n=n, arr=arr, pair=pair, out=out, clone=z3.Bool("clone"), opt=opt, tok=tok)
        I.state_g = g
        return (p, z3.String("out_path")), {}, g

    def ensures(self, I, g, r):
        n, k = g["n"], z3.Int("dek")
        w = I.eng.the_writer.fields
        o = g["opt"]
        yield "writer-options", z3.And(*[B(eq) for eq in (
            S(w["out_path"]) == z3.String("out_path"), Z(w["max_shard_size"]) == o["out_shard_size"],
            B(w["safe_serialization"]) == o["safe_serialization"], B(w["use_async"]) == o["async_write"],
            Z(w["write_threads"]) == o["write_threads"])])
        yield "nothing-else", Z(r.length()) == n + 1 + (1 if g["tok"] is not None else 0)
        fin = r.get(n)
        I.eng.assume(z3.And(0 <= k, k < n))
        yield "every-tensor-is-saved", save_is(SAVET.enc(r.get(k)), g["pair"], z3.Select(g["arr"], k), g["clone"], g["out"], I)
        yield "then-finalized", z3.BoolVal(isinstance(fin, SObj) and fin.cls is IT.FinalizeModel
                                           and fin.fields["writer_task"] is I.eng.the_writer)
        ts = lib.to_seq(I, fin.fields["tensor_save_tasks"])
        yield "finalize-waits-for-all", z3.And(Z(ts.length()) == n, SAVET.enc(ts.get(k)) == SAVET.enc(r.get(k)))
        if g["tok"] is not None:
            yield "tokenizer-is-built", z3.BoolVal(r.get(n + 1) is g["tok"])


@contract("P06")
class PlanInMemory(Contract):
    target = M + "MergePlanner.plan_in_memory"
    cases = [False, True]
    calls = {M + "MergePlanner._plan": lambda I, self_: None}

    def setup(self, I, case):
        n, arr, pair, l = all_planned(I)
        out = z3.String("out_dtype") if case else None
        p = SObj(PL.MergePlanner, {"config": SObj(Ev, {"out_dtype": out}), "_tensors": l})
        return (p,), {}, (n, arr, pair, out)

    def ensures(self, I, g, r):
        n, arr, pair, out = g
        k = z3.Int("mek")
        yield "nothing-else", Z(r.length()) == n
        I.eng.assume(z3.And(0 <= k, k < n))
        x = r.get(k).fields
        e = z3.Select(arr, k)
        w = pair.acc[0](e)
        yield "every-tensor", z3.And(x["weight_info"] == w, x["tensor_task"] == pair.acc[1](e), OSt.enc(x["dtype"]) == want_dtype(I, w, out))
