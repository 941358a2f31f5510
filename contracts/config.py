"""Contracts of parameter resolution (mergekit/config.py)."""

import z3

import mergekit.common as MC
import mergekit.config as CF
from pyvc import lib
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import HDict, HList, HSet, LoopSpec, SDict, SList, SObj, SSet

from .util import *

E = "mergekit.config:evaluate_setting"

# a setting of any kind, and what it resolves to (None when no condition applies)
SettingO = Opaque("Setting")
TSetting = TOpaque(SettingO)
ValueO = Opaque("ParamValue", truthy=None)
ValueO.truthy = z3.Function("param_value_truth", ValueO.sort, z3.BoolSort())  # any value may be zero or false
TOptV = TOpt(TOpaque(ValueO))
NameO = TOpt(TStr)
EVAL = z3.Function("EVAL", NameO.sort, SettingO.sort, REAL, TOptV.sort)

FILT = z3.Function("FILT", z3.DeclareSort("Cond"), NameO.sort)
CVAL = z3.Function("CVAL", z3.DeclareSort("Cond"), SettingO.sort)
CondO = Opaque("Cond", pyclass=CF.ConditionalParameter, attrs={
    "filter": lambda I, t: NameO.dec(FILT(t)), "value": lambda I, t: CVAL(t)})
TCond = TOpaque(CondO)


def evaluate_contract(I, tensor_name, setting, t=0):
    """callee contract: some function of (tensor name, setting, t)"""
    return TOptV.dec(EVAL(NameO.enc(tensor_name), setting, R(t)))


def cond_matches(c, nm):
    """a condition with no filter or '*' matches everything, otherwise its filter is part of a (non-empty) name"""
    f = FILT(c)
    fv = NameO.v(f)
    nv = NameO.v(nm)
    return z3.Or(NameO.is_none(f), fv == z3.StringVal("*"),
                 z3.And(z3.Not(NameO.is_none(nm)), nv != z3.StringVal(""), z3.Contains(nv, fv)))


def _cond_inv(c):
    nm = c.I.state_name
    j = z3.Int("cj")
    yield "no-earlier-match", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(c.i)), z3.Not(cond_matches(c.seq.get(j), nm))))


@contract("P05")
class EvaluateSetting(Contract):
    target = E
    cases = ["float", "int", "bool", "str", "gradient", "int-gradient", "string-list", "conditions", "one-condition"]
    calls = {E: None}
    loops = {("evaluate_setting", 0): LoopSpec(_cond_inv)}

    def __init__(self):
        def rec(I, tensor_name, setting, t=0):
            if isinstance(setting, SList):
                # a single condition, wrapped
                assert len(setting.items) == 1
                c = setting.items[0]
                if I.eng.branch(cond_matches(c, NameO.enc(tensor_name))):
                    return TOptV.dec(EVAL(NameO.enc(tensor_name), CVAL(c), R(t)))
                return None
            return evaluate_contract(I, tensor_name, setting, t)
        self.calls = {E: rec}

    def setup(self, I, case):
        nm = z3.Const("tname", NameO.sort)
        I.state_name = nm
        t = z3.Real("t")
        I.eng.assume(z3.And(t >= 0, t <= 1))
        n = z3.Int("n")
        I.eng.assume(n >= 1)
        name = NameO.dec(nm)
        arr = lambda s: z3.Const("set", z3.ArraySort(INT, s))
        s = {
            "float": lambda: z3.Real("x"), "int": lambda: z3.Int("x"), "bool": lambda: z3.Bool("x"),
            "str": lambda: z3.String("x"),
            "gradient": lambda: SList(n=n, t=TReal, arr=arr(REAL)),
            "int-gradient": lambda: SList(n=n, t=TInt, arr=arr(INT)),
            "string-list": lambda: SList(n=n, t=TStr, arr=arr(STR)),
            "conditions": lambda: SList(n=n, t=TCond, arr=arr(CondO.sort)),
            "one-condition": lambda: z3.Const("x", CondO.sort),
        }[case]()
        return (name, s, t), {}, (case, nm, s, n, t)

    def ensures(self, I, g, r):
        case, nm, s, n, t = g
        if case in ("float", "int", "bool", "str"):
            yield "scalar-as-is", r is s or (is_z3(r) and r.eq(s))
        elif case in ("gradient", "int-gradient"):
            a = lambda i: R(z3.Select(s.arr, i))
            k = z3.Int("k")
            # on each of the n-1 equal segments the value runs linearly between the anchors
            pos = t * z3.ToReal(n - 1)
            yield "interpolates", z3.Implies(
                z3.And(0 <= k, k + 1 < n, z3.ToReal(k) <= pos, pos <= z3.ToReal(k + 1)),
                R(r) == a(k) + (pos - z3.ToReal(k)) * (a(k + 1) - a(k)))
            yield "single-anchor", z3.Implies(n == 1, R(r) == a(0))
            yield "first", z3.Implies(t == 0, R(r) == a(0))
            yield "last", z3.Implies(t == 1, R(r) == a(n - 1))
        elif case == "string-list":
            k = z3.Int("k")
            pos = t * z3.ToReal(n - 1)
            yield "step-anchor", z3.Implies(z3.And(0 <= k, k < n, z3.ToReal(k) <= pos, pos < z3.ToReal(k + 1)),
                                            S(r) == z3.Select(s.arr, k))
        elif case == "conditions":
            k, j = z3.Int("k"), z3.Int("j")
            c = z3.Select(s.arr, k)
            first = z3.And(0 <= k, k < n, cond_matches(c, nm), z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < k), z3.Not(cond_matches(z3.Select(s.arr, j), nm)))))
            yield "first-match-decides", z3.Implies(first, TOptV.enc(r) == EVAL(nm, CVAL(c), t))
            none = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(cond_matches(z3.Select(s.arr, j), nm))))
            yield "no-match-no-value", z3.Implies(none, TOptV.enc(r) == TOptV.none)
        else:
            yield "condition-decides", TOptV.enc(r) == z3.If(cond_matches(s, nm), EVAL(nm, CVAL(s), t), TOptV.none)


# ------------------------------------------------------------------ the order of scopes

PARAMS = z3.DeclareSort("Params")  # a parameter map, possibly empty
PNE = z3.Function("PNE", PARAMS, BOOL)
PDOM = z3.Function("PDOM", PARAMS, STR, BOOL)
PVAL = z3.Function("PVAL", PARAMS, STR, SettingO.sort)
SRC = z3.DeclareSort("SliceSource")
SMODEL = z3.Function("SMODEL", SRC, ModelO.sort)
SPARAMS = z3.Function("SPARAMS", SRC, PARAMS)


def pmap(p):
    d = SDict(kt=TStr, has=lambda k: z3.And(PNE(p), PDOM(p, S(k))), get=lambda k: PVAL(p, S(k)))
    d.nonempty = PNE(p)
    return d


SourceO = Opaque("SliceSource", pyclass=CF.InputSliceDefinition, attrs={
    "model": lambda I, t: SMODEL(t), "parameters": lambda I, t: None if I.state_g["none"] == "source" else pmap(SPARAMS(t))})
TSource = TOpaque(SourceO)

# the tensor name only travels to evaluate_setting and into the error message
RNameO = Opaque("ReaderName", truthy=z3.Function("name_given", z3.DeclareSort("ReaderName"), BOOL))
RN = z3.Function("rname", RNameO.sort, NameO.sort)


def evaluate_named(I, tensor_name, setting, t=0):
    return TOptV.dec(EVAL(RN(tensor_name), setting, R(t)))


def scope(pm, nm, name, t):
    """the value a scope's parameter map gives this tensor, if any"""
    if pm is None:
        return TOptV.none
    return z3.If(z3.And(PNE(pm), PDOM(pm, S(name))), EVAL(RN(nm), PVAL(pm, S(name)), t), TOptV.none)


def has(v):
    return z3.Not(TOptV.is_none(v))


def _src_inv(c):
    g = c.I.state_g
    if g["model"] is None:
        return
    j = z3.Int("sj")
    s = c.seq.get(j)
    yield "no-earlier-source", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(c.i)), z3.Not(z3.And(
        SMODEL(s) == g["model"], has(scope(None if g["none"] == "source" else SPARAMS(s), g["nm"], g["name"], g["t"]))))))


@contract("P05")
class ReaderParameter(Contract):
    target = "mergekit.config:ConfigReader.parameter"
    cases = [(sl, mod, mdl, req) for sl in (True, False) for mod in (True, False) for mdl in (True, False)
             for req in (True, False)]
    cases = [c + (None,) for c in cases] + [(True, True, True, False, x) for x in ("source", "slice", "module", "config")]
    calls = {E: evaluate_named}
    loops = {("ConfigReader.parameter", 0): LoopSpec(_src_inv)}

    def setup(self, I, case):
        sl, mod, mdl, req, none = case
        nm = z3.Const("tname", RNameO.sort)
        t = z3.Real("t")
        name = z3.String("pname")
        ps = {k: None if k == none else z3.Const(f"params_{k}", PARAMS) for k in ("slice", "module", "config")}
        opt = lambda k: None if ps[k] is None else pmap(ps[k])
        n = z3.Int("nsrc")
        I.eng.assume(n >= 0)
        srcs = SList(n=n, t=TSource, arr=z3.Const("srcs", z3.ArraySort(INT, SRC)))
        model = z3.Const("model", ModelO.sort) if mdl else None
        dflt = z3.Const("dflt", ValueO.sort)
        g = dict(nm=nm, t=t, name=name, model=model, ps=ps, n=n, srcs=srcs, dflt=dflt, case=case, none=none)
        I.state_g = g
        cfg = SObj(CF.MergeConfiguration, {"parameters": opt("config")})
        slo = SObj(CF.OutputSliceDefinition, {"sources": srcs, "parameters": opt("slice"), "base_model": None,
                                              "residual_weight": None}) if sl else None
        modo = SObj(CF.OutputModuleDefinition, {"slices": None, "models": None, "parameters": opt("module")}) if mod else None
        me = SObj(CF.ConfigReader, {"config": cfg, "t": t, "tensor_name": nm, "slice_out": slo, "module": modo})
        return (me, name), {"model": model, "default": dflt, "required": req}, g

    def spec(self, g):
        """ordered scopes below the per-source one"""
        sl, mod, mdl, req, none = g["case"]
        out = []
        if sl:
            out.append(scope(g["ps"]["slice"], g["nm"], g["name"], g["t"]))
        if mod:
            out.append(scope(g["ps"]["module"], g["nm"], g["name"], g["t"]))
        out.append(scope(g["ps"]["config"], g["nm"], g["name"], g["t"]))
        return out

    def src(self, g, k):
        s = z3.Select(g["srcs"].arr, k)
        v = scope(None if g["none"] == "source" else SPARAMS(s), g["nm"], g["name"], g["t"])
        return z3.And(SMODEL(s) == g["model"], has(v)), v

    def none_from_sources(self, g):
        if not (g["case"][0] and g["case"][2]):
            return z3.BoolVal(True)
        j = z3.Int("nj")
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < g["n"]), z3.Not(self.src(g, j)[0])))

    def ensures(self, I, g, r):
        sl, mod, mdl, req, none = g["case"]
        r = TOptV.enc(r)
        k, j = z3.Int("k"), z3.Int("j")
        if sl and mdl:
            m, v = self.src(g, k)
            yield "source-of-the-model-first", z3.Implies(
                z3.And(0 <= k, k < g["n"], m, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(self.src(g, j)[0])))),
                r == v)
        rest = TOptV.none if req else TOptV.some(g["dflt"])
        sc = self.spec(g)
        for v in reversed(sc):
            rest = z3.If(has(v), v, rest)
        yield "slice-then-module-then-config-then-default", z3.Implies(self.none_from_sources(g), r == rest)
        if req:
            yield "required-means-a-value", z3.Not(TOptV.is_none(r))

    def raises(self, I, g, exc):
        if not g["case"][3] or not isinstance(exc, RuntimeError):
            return None
        return z3.And(self.none_from_sources(g), *[z3.Not(has(v)) for v in self.spec(g)])


@contract("P05")
class ReaderBaseModel(Contract):
    target = "mergekit.config:ConfigReader.base_model"
    cases = ["no-slice", "slice"]

    def setup(self, I, case):
        o = TOpt(TModel)
        cb, sb = z3.Const("cb", o.sort), z3.Const("sb", o.sort)
        cfg = SObj(CF.MergeConfiguration, {"base_model": o.dec(cb)})
        slo = None
        if case == "slice":
            slo = SObj(CF.OutputSliceDefinition, {"base_model": o.dec(sb), "sources": SList(), "parameters": None})
        me = SObj(CF.ConfigReader, {"config": cfg, "slice_out": slo, "t": z3.Real("t"), "tensor_name": None, "module": None})
        return (me,), {}, (case, o, cb, sb)

    def ensures(self, I, g, r):
        case, o, cb, sb = g
        want = cb if case == "no-slice" else z3.If(o.is_none(sb), cb, sb)
        yield "own-base-model-first", o.enc(r) == want


def _reader(I, tag):
    fs = {}
    for f in ("config", "t", "tensor_name", "slice_out", "module"):
        fs[f] = z3.Real("t") if f == "t" else z3.Const(f"{tag}_{f}", SettingO.sort)
    return SObj(CF.ConfigReader, dict(fs)), fs


def _narrow(method, field, value):
    class Narrow(Contract):
        target = f"mergekit.config:ConfigReader.{method}"

        def setup(self, I, case):
            me, fs = _reader(I, "r")
            v = value()
            return (me, v), {}, (me, dict(fs), v)

        def ensures(self, I, g, r):
            me, fs, v = g
            yield "a-reader", isinstance(r, SObj) and r.cls is CF.ConfigReader and r is not me
            for f in fs:
                want = v if f == field else fs[f]
                yield f"{f}-" + ("set" if f == field else "kept"), r.fields.get(f) is want or (
                    is_z3(r.fields.get(f)) and is_z3(want) and r.fields[f] == want)
                yield f"{f}-of-the-original-kept", me.fields[f] is fs[f]

    Narrow.__name__ = "Reader_" + method
    return contract("P05")(Narrow)


_narrow("for_out_slice", "slice_out", lambda: z3.Const("new", SettingO.sort))
_narrow("for_tensor", "tensor_name", lambda: z3.String("new"))
_narrow("with_t", "t", lambda: z3.Real("new"))
_narrow("for_module", "module", lambda: z3.Const("new", SettingO.sort))
