"""Contracts of mixture-of-experts construction (mergekit/moe)."""

import json
import os

import torch
import transformers
import z3

import mergekit.moe.common as MC_
import mergekit.moe.config as MCF
import mergekit.moe.deepseek as DS
import mergekit.moe.mixtral as MX
from mergekit.architecture import WeightInfo
from mergekit.architecture.json_definitions import NAME_TO_ARCH
from mergekit.common import ModelReference
from mergekit.io import LazyTensorLoader, TensorWriter
from pyvc import lib, tmodel
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import HDict, HList, LoopSpec, ModelFn, SDict, SList, SObj, SSet
from pyvc.tmodel import STensor, num, sym_tensor

from .util import *

try:
    import mergekit.moe.qwen as QW
except ImportError:
    QW = None
try:
    import mergekit.moe.qwen3 as Q3
except ImportError:
    Q3 = None

M = "mergekit.moe.common:"


class _Cfg:
    pass


class _Any:
    pass


# ---------------------------------------------------------------- noise and scale


def _randn_like(I, t, **k):
    """an arbitrary tensor of t's shape and dtype (a standard normal draw)"""
    f = z3.Function(f"draw{len(I.state_g['draws'])}", *[INT] * len(t.dims), REAL)
    I.state_g["draws"].append((f, list(t.dims)))
    return STensor(list(t.dims), lambda *i: f(*[Z(x) for x in i]), t.dtype, t.device)


@contract("P13")
class NoiseScale(Contract):
    """tensor + noise_scale * draw, then residual_scale for residual weights only; None means off"""

    target = M + "noise_and_scale"
    cases = [(r, n, s, d) for r in (False, True) for n in (False, True) for s in (False, True) for d in (1, 2)]
    bounded = "tensor ranks 1 and 2 (dimensions and values unbounded)"
    models = {torch.randn_like: _randn_like}
    trusted = ("torch.randn_like: an arbitrary tensor of the same shape (its distribution is not checked)",)

    def setup(self, I, case):
        resid, ns, rs, rank = case
        t = sym_tensor(I.eng, "t", [z3.Int(f"d{k}") for k in range(rank)])
        e = SObj(MCF.Expert, {"source_model": z3.Const("src", ModelO.sort), "positive_prompts": None, "negative_prompts": None,
                              "noise_scale": z3.Real("noise_scale") if ns else None,
                              "residual_scale": z3.Real("residual_scale") if rs else None})
        g = dict(t=t, at=t.at, draws=[], case=case)
        I.state_g = g
        return (t, e), {"is_residual": resid}, g

    def ensures(self, I, g, r):
        resid, ns, rs, rank = g["case"]
        t = g["t"]
        yield "shape", dims_are(r, t.dims)
        ix, inr = idx_in(t.dims)
        want = R(g["at"](*ix))
        yield "one-draw-iff-noise", z3.BoolVal(len(g["draws"]) == (1 if ns else 0))
        if ns:
            f, ds = g["draws"][0]
            want = want + f(*ix) * z3.Real("noise_scale")
        if resid and rs:
            want = want * z3.Real("residual_scale")
        yield "value", z3.Implies(inr, R(r.at(*ix)) == want)
        yield "input-unchanged", z3.BoolVal(t.at is g["at"])


# ---------------------------------------------------------------- stored tensors, saved tensors

TenS = Opaque("MoETensor", pyclass=torch.Tensor)
TTen = TOpaque(TenS)
LoadO = Opaque("MoELoader", pyclass=LazyTensorLoader)
HAS = z3.Function("in_checkpoint", LoadO.sort, STR, BOOL)
STORED = z3.Function("stored_tensor", LoadO.sort, STR, TenS.sort)
DtO = z3.DeclareSort("MoEDtype")
CONV = z3.Function("converted_to", TenS.sort, INT, TenS.sort)
NOISED = z3.Function("noised_and_scaled", TenS.sort, INT, BOOL, TenS.sort)
ZERO = z3.Function("zeros_of", INT, TenS.sort)
LOADER_OF = z3.Function("MOE_LOADER_OF", ModelO.sort, LoadO.sort)
DT = {None: 0, torch.float16: 1, torch.float32: 2, torch.bfloat16: 3}


def conv(t, dt):
    if dt is None or (z3.is_app(t) and t.decl().eq(CONV) and t.arg(1).as_long() == DT[dt]):
        return t  # converting twice to the same dtype is converting once
    return CONV(t, DT[dt])


TenS.methods.update({
    "to": lambda I, t, dtype=None, **k: conv(t, dtype),
    "contiguous": lambda I, t: t,
    "clone": lambda I, t: t,
})


def _get_tensor(I, t, key, device="cpu", aliases=None, raise_on_missing=True):
    """contract of LazyTensorLoader.get_tensor (P04): the tensor stored under the key, or else under the first stored alias"""
    names = [S(key)] + [S(a) for a in (lib.b_list(I, aliases).items if aliases is not None else [])]
    for n in names:
        if I.eng.branch(HAS(t, n)):
            return STORED(t, n)
    if B(raise_on_missing) is True or (not isinstance(raise_on_missing, bool) and I.eng.branch(B(raise_on_missing))) or raise_on_missing is True:
        raise PyRaise(KeyError("tensor not in the checkpoint"))
    return None


LoadO.methods["get_tensor"] = _get_tensor


def new_writer():
    return SObj(TensorWriter, {"finalized": False}, tag="writer")


def _save(I, w, name, tensor, clone=False):
    if w.fields["finalized"]:
        raise Unsupported("save after finalize")
    I.state_g["saves"].append((name, tensor))


def _finalize(I, w):
    I.setattr(w, "finalized", True)


WRITER = {(TensorWriter, "save_tensor"): _save, (TensorWriter, "finalize"): _finalize}


def expert_id(e):
    return e.fields["id"]


def noised(I, tensor, expert, is_residual=False):
    """contract of noise_and_scale"""
    return NOISED(tensor, expert_id(expert), B(is_residual))


@contract("P13")
class CopyOut(Contract):
    """one weight is saved once, under the requested name, from its own name or an alternative; or skipped if optional"""

    target = M + "copy_tensor_out"
    cases = [(al, ti, opt, ex, on, dt) for al in (0, 2) for ti in (0, 1) for opt in (False, True) for ex in (False, True) for on in (False, True)
             for dt in (None, torch.float16)]
    bounded = "at most two aliases and one tied name"
    calls = {M + "noise_and_scale": noised}
    models = WRITER

    def setup(self, I, case):
        al, ti, opt, ex, on, dt = case
        name = z3.String("name")
        I.eng.assume(name != z3.StringVal(""))
        als, tis = [z3.String(f"alias{k}") for k in range(al)], [z3.String(f"tied{k}") for k in range(ti)]
        I.eng.assume(z3.And(*[x != z3.StringVal("") for x in als + tis]) if als + tis else z3.BoolVal(True))
        w = SObj(WeightInfo, {"name": name, "aliases": tuple(als) if al else None, "tied_names": tuple(tis) if ti else None, "optional": opt,
                              "is_embed": False, "force_dtype": None, "input_space": None, "output_space": None, "is_kq": False})
        e = SObj(MCF.Expert, {"id": z3.Int("expert")}) if ex else None
        resid = z3.Bool("is_residual")
        out = z3.String("output_name") if on else None
        if on:
            I.eng.assume(out != z3.StringVal(""))
        L = z3.Const("loader", LoadO.sort)
        g = dict(case=case, names=[name] + als + ([] if opt else tis), L=L, saves=[], out=out if on else name, resid=resid)
        I.state_g = g
        return (w, L, new_writer()), dict(expert=e, is_residual=resid, output_name=out, out_dtype=dt, clone=z3.Bool("clone")), g

    def ensures(self, I, g, r):
        al, ti, opt, ex, on, dt = g["case"]
        found = z3.Or(*[HAS(g["L"], n) for n in g["names"]])
        yield "at-most-once", z3.BoolVal(len(g["saves"]) <= 1)
        if not g["saves"]:
            yield "skipped-only-if-optional-and-absent", z3.And(z3.BoolVal(opt), z3.Not(found))
            return
        name, t = g["saves"][0]
        yield "found", found
        yield "output-name", S(name) == g["out"]
        src = STORED(g["L"], g["names"][-1])
        for n in reversed(g["names"][:-1]):
            src = z3.If(HAS(g["L"], n), STORED(g["L"], n), src)
        if ex:
            src = NOISED(src, z3.Int("expert"), g["resid"])
        yield "content", t == conv(src, dt)

    def raises(self, I, g, exc):
        if isinstance(exc, KeyError):
            return z3.And(z3.BoolVal(not g["case"][2] and not g["saves"]), z3.Not(z3.Or(*[HAS(g["L"], n) for n in g["names"]])))
        return None


@contract("P13")
class ConvertSave(Contract):
    """the converted tensor is saved once under the target name; a failed conversion is an error"""

    target = M + "convert_and_save_checkpoint_tensors"
    cases = [None, torch.float16]
    models = WRITER

    def __init__(self):
        def convert(I, mt, src, target):
            I.state_g["asked"] = (mt, src, target)
            return z3.Const("converted", TenS.sort) if I.eng.branch(z3.Bool("convertible")) else None

        self.calls = {"mergekit.architecture.conversion:convert_checkpoint_tensors": convert}

    def setup(self, I, dt):
        src = SDict(pairs=[("a", z3.Const("t0", TenS.sort)), ("b", z3.Const("t1", TenS.sort))])
        g = dict(mt=z3.String("model_type"), src=src, target=z3.String("target_name"), saves=[], dt=dt)
        I.state_g = g
        return (g["mt"], src, g["target"], new_writer()), dict(out_dtype=dt, clone=z3.Bool("clone")), g

    def asked(self, g):
        mt, src, target = g["asked"]
        return z3.And(S(mt) == g["mt"], z3.BoolVal(src is g["src"]), S(target) == g["target"])

    def ensures(self, I, g, r):
        yield "asked-for-the-target", self.asked(g)
        yield "saved-once", z3.BoolVal(len(g["saves"]) == 1)
        for name, t in g["saves"]:
            yield "target-name", S(name) == g["target"]
            yield "content", t == conv(z3.Const("converted", TenS.sort), g["dt"])

    def raises(self, I, g, exc):
        return z3.And(z3.BoolVal(isinstance(exc, RuntimeError) and not g["saves"]), z3.Not(z3.Bool("convertible")), self.asked(g))


# ---------------------------------------------------------------- loaders

ExpO = Opaque("ExpertV", pyclass=MCF.Expert)
SRC = z3.Function("source_model", ExpO.sort, ModelO.sort)
ExpO.attrs["source_model"] = lambda I, t: SRC(t)
TExp = TOpaque(ExpO)
TLoad = TOpaque(LoadO)


def _models_of(g):
    """models at position k: the base, the experts' sources, the shared experts' sources"""
    ne, ns = g["ne"], g["ns"]
    return 1 + ne + ns, lambda k: z3.If(k == 0, g["base"], z3.If(k <= ne, SRC(z3.Select(g["ex"], k - 1)), SRC(z3.Select(g["sh"], k - 1 - ne))))


def dict_arrays(d):
    if d.concrete:
        dom, val = z3.K(ModelO.sort, z3.BoolVal(False)), z3.Const("no_loaders", z3.ArraySort(ModelO.sort, LoadO.sort))
        for k, v in d.pairs:
            dom, val = z3.Store(dom, k, True), z3.Store(val, k, v)
        return dom, val
    return d.dom, d.val


def _io_inv(c):
    g = c.I.state_g
    n, at = _models_of(g)
    dom, val = dict_arrays(c["loaders"])
    m, j = z3.Const("iom", ModelO.sort), z3.Int("ioj")
    yield "source-order", z3.And(Z(c.n) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), c.item(j) == at(j))))
    yield "seen-models-loaded", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(c.i)), z3.Select(dom, at(j))))
    yield "loaded-are-its-own", z3.ForAll([m], z3.Implies(z3.Select(dom, m), z3.Select(val, m) == LOADER_OF(m)))


@contract("P13")
class InitializeIO(Contract):
    """every model of the recipe gets its own checkpoint's loader; the base loader is the base model's"""

    target = M + "initialize_io"
    cases = [False, True]
    loops = {("initialize_io", 0): LoopSpec(_io_inv, {"loaders": HDict(TModel, TLoad)})}

    def __init__(self):
        self.models = {}
        self.calls = {"mergekit.common:ModelReference.lazy_loader": lambda I, m, **k: LOADER_OF(m)}
        self.models[TensorWriter] = self.mkwriter

    def mkwriter(self, I, **kw):
        I.state_g["writers"].append(kw)
        return SObj(TensorWriter, {"kw": kw}, tag="writer")

    def setup(self, I, shared):
        g = dict(ne=z3.Int("n_experts"), ns=z3.Int("n_shared") if shared else z3.IntVal(0), base=z3.Const("base", ModelO.sort),
                 ex=z3.Const("experts", z3.ArraySort(INT, ExpO.sort)), sh=z3.Const("shared", z3.ArraySort(INT, ExpO.sort)), writers=[])
        I.eng.assume(z3.And(g["ne"] >= 0, g["ns"] >= 0))
        c = SObj(MCF.MoEMergeConfig, {"base_model": g["base"], "experts": SList(n=g["ne"], t=TExp, arr=g["ex"]),
                                      "shared_experts": SList(n=g["ns"], t=TExp, arr=g["sh"]) if shared else None})
        o = SObj(_Any, {k: z3.Const("opt_" + k, AnyS) for k in ("transformers_cache", "lazy_unpickle", "out_shard_size", "safe_serialization",
                                                               "async_write", "write_threads")})
        g["o"] = o
        g["out"] = z3.String("out_path")
        I.state_g = g
        return (c, g["out"], o), {}, g

    def ensures(self, I, g, r):
        loaders, base, w = r
        n, at = _models_of(g)
        j = z3.Int("pj")
        yield "every-model-has-its-loader", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
            z3.Select(loaders.dom, at(j)), z3.Select(loaders.val, at(j)) == LOADER_OF(at(j)))))
        yield "base-loader", base == LOADER_OF(g["base"])
        yield "one-writer", z3.BoolVal(len(g["writers"]) == 1 and w.fields["kw"] is g["writers"][0])
        kw, o = g["writers"][0], g["o"].fields
        yield "writer-options", z3.And(S(kw["out_path"]) == g["out"], z3.BoolVal(
            kw["max_shard_size"] is o["out_shard_size"] and kw["safe_serialization"] is o["safe_serialization"]
            and kw["use_async"] is o["async_write"] and kw["max_write_threads"] is o["write_threads"]))


AnyS = z3.DeclareSort("MoEOption")
ModelO.methods.setdefault("lazy_loader", lambda I, t, **k: LOADER_OF(t))


# ---------------------------------------------------------------- is_bad_config


@contract("P13")
class IsBad(Contract):
    """a recipe is refused exactly when it cannot give a working mixture"""

    target = "mergekit.moe.config:is_bad_config"
    cases = [(n, m, f) for n in (0, 1, 2, 3) for m in ("random", "hidden") for f in (False, True)]
    bounded = "at most three experts, at most one prompt each (texts unbounded)"
    max_paths = 3000

    def setup(self, I, case):
        n, mode, same = case
        es, spec = [], []
        for k in range(n):
            p = [z3.String(f"pos{k}")] if I.eng.branch(z3.Bool(f"has_pos{k}")) else ([] if k else None)
            q = [z3.String(f"neg{k}")] if I.eng.branch(z3.Bool(f"has_neg{k}")) else (None if k else [])
            m = z3.Const(f"src{k}", ModelO.sort)
            es.append(SObj(MCF.Expert, {"source_model": m, "positive_prompts": None if p is None else SList(items=list(p)),
                                        "negative_prompts": None if q is None else SList(items=list(q)), "noise_scale": None, "residual_scale": None}))
            spec.append((p or [], q or [], m))
        ept = z3.Int("experts_per_token")
        c = SObj(MCF.MoEMergeConfig, {"experts": SList(items=es), "gate_mode": mode, "experts_per_token": ept,
                                      "base_model": z3.Const("base", ModelO.sort), "shared_experts": None, "dtype": None, "architecture": None})
        I.state_g = dict(spec=spec, ept=ept, case=case)
        return (c, same), {}, I.state_g

    def ensures(self, I, g, r):
        n, mode, same = g["case"]
        spec, ept = g["spec"], g["ept"]
        bad = z3.Or(ept < 1, n < ept)
        if mode != "random" and n:
            eqp = [z3.And(*[a == b for a, b in zip(p[0] + p[1], spec[0][0] + spec[0][1])]) if len(p[0]) == len(spec[0][0]) and len(p[1]) == len(spec[0][1])
                   else z3.BoolVal(False) for p in spec[1:]]
            bad = z3.Or(bad, z3.BoolVal(any(not p[0] for p in spec)), z3.And(*eqp) if eqp else z3.BoolVal(True))
            if not same:
                eqs = [p[2] == spec[0][2] for p in spec[1:]]
                bad = z3.Or(bad, z3.And(*eqs) if eqs else z3.BoolVal(True))
        yield "refused-exactly-when-unusable", z3.BoolVal(I.truth(r)) == bad


# ---------------------------------------------------------------- writing the model

MLP = ("gate_proj", "up_proj", "down_proj")


class _WriteModel(Contract):
    """every tensor of the output once: base weights from the base model, every expert's (and the shared expert's)
    weights from its own model with its noise and scale, the given router vectors; nothing else"""

    cases = [(2, 2, None), (1, 3, torch.float16), (2, 1, torch.float16)]
    bounded = "at most 2 layers, at most 3 experts (checkpoints, tensors, router vectors arbitrary)"
    arch = "MistralForCausalLM"
    config_cls = transformers.MistralConfig
    mod = ""
    cls = ""
    shared = (False,)
    fused = None
    max_paths = 2000
    trusted = ("transformers' conversion of per-expert tensors to the fused layout (convert_checkpoint_tensors)",
               "all_weights: the real architecture definition evaluated for 1 and 2 layers")

    def __init__(self):
        q = f"{self.mod}:{self.cls}"
        self.calls = {
            M + "select_dtype": lambda I, c, b: I.state_g["dt"],
            M + "initialize_io": self.init_io,
            M + "noise_and_scale": noised,
            M + "convert_and_save_checkpoint_tensors": self.convert,
            q + "._generate_config": self.gen,
            "mergekit.architecture.base:ModelArchitecture.all_weights": self.weights,
            "mergekit.architecture:arch_info_for_config": lambda I, c: NAME_TO_ARCH[self.arch][0],
            "mergekit.architecture.auto:arch_info_for_config": lambda I, c: NAME_TO_ARCH[self.arch][0],
        }
        self.models = {(TensorWriter, "save_tensor"): _save, (TensorWriter, "finalize"): _finalize, (_Cfg, "save_pretrained"): lambda I, o, p: None,
                       os.makedirs: lambda I, *a, **k: None, os.path.join: lambda I, *a: z3.String("joined"),
                       json.dump: lambda I, *a, **k: None, open: lambda I, *a, **k: lib.ModelCM(lambda I: SObj(_Any, {}, tag="file"))}

    def init_io(self, I, config, out_path, opts):
        """contract of initialize_io"""
        g = I.state_g
        ms = [g["base"]] + [e.fields["source_model"] for e in g["experts"]] + [e.fields["source_model"] for e in g["shared"]]
        d = SDict(kt=TModel, has=lambda k: z3.Or(*[k == m for m in ms]), get=lambda k: LOADER_OF(k))
        return (d, LOADER_OF(g["base"]), g["writer"])

    def convert(self, I, mt, src, target, writer, out_dtype=None, clone=False):
        """contract of convert_and_save_checkpoint_tensors"""
        I.state_g["fused"].append((mt, list(src.pairs), target, out_dtype))

    def gen(self, I, self_, base_cfg, *a, **k):
        I.state_g["gen"].append((a, k))
        return SObj(_Cfg, {"hidden_size": z3.Int("hidden"), "num_attention_heads": z3.Int("heads"), "num_key_value_heads": z3.Int("kv_heads")}, tag="out_cfg")

    def weights(self, I, info, config):
        g = I.state_g
        g["infos"] = [SObj(WeightInfo, {k: getattr(w, k) for k in WeightInfo.model_fields}) for w in self.real(g["layers"])]
        return SList(items=list(g["infos"]))

    def real(self, layers):
        return NAME_TO_ARCH[self.arch][0].all_weights(self.config_cls(num_hidden_layers=layers))

    def mkexpert(self, k, tag):
        return SObj(MCF.Expert, {"id": z3.IntVal(k), "source_model": z3.Const(f"{tag}{k}", ModelO.sort), "positive_prompts": None,
                                 "negative_prompts": None, "noise_scale": None, "residual_scale": None})

    def setup(self, I, case):
        layers, n, dt = case[:3]
        sh = case[3] if len(case) > 3 else False
        experts = [self.mkexpert(k, "src") for k in range(n)]
        shared = [self.mkexpert(100, "shared")] if sh else []
        base = z3.Const("base", ModelO.sort)
        ModelO.methods["config"] = lambda I_, t, **k: g["base_cfg"]
        ModelO.methods["lazy_loader"] = lambda I_, t, **k: LOADER_OF(t)
        router = [z3.Const(f"router{k}", TenS.sort) for k in range(layers)]
        srouter = [z3.Const(f"shared_router{k}", TenS.sort) for k in range(layers)]
        g = dict(case=case, layers=layers, experts=experts, shared=shared, base=base, dt=dt, saves=[], fused=[], gen=[], router=router, srouter=srouter,
                 base_cfg=SObj(_Cfg, {"num_hidden_layers": layers, "torch_dtype": dt}, tag="base_cfg"), writer=new_writer())
        I.state_g = g
        I.eng.assume(z3.And(z3.Int("heads") > 0, z3.Int("hidden") > 0, z3.Int("kv_heads") > 0))
        # the checkpoints contain every weight their model needs; the head and projection biases may be absent
        ms = [base] + [e.fields["source_model"] for e in experts + shared]
        g["has_head"] = I.eng.branch(z3.Bool("head_stored"))
        g["has_bias"] = I.eng.branch(z3.Bool("bias_stored"))
        for w in self.real(layers):
            for m in ms:
                there = g["has_head"] if w.optional else g["has_bias"] if w.name.endswith(".bias") else True
                I.eng.assume(HAS(LOADER_OF(m), z3.StringVal(w.name)) == there)
        c = SObj(MCF.MoEMergeConfig, {"base_model": base, "experts": SList(items=list(experts)), "experts_per_token": z3.Int("per_token"), "dtype": None,
                                      "shared_experts": SList(items=list(shared)) if sh else None, "gate_mode": "hidden", "architecture": None})
        o = SObj(_Any, {"trust_remote_code": False, "clone_tensors": z3.Bool("clone")}, tag="options")
        cls = getattr(__import__(self.mod, fromlist=["x"]), self.cls)
        return (SObj(cls, {}), "out", c, o, SList(items=list(router))), {"shared_router_weights": SList(items=list(srouter)) if sh else None}, g

    def expected(self, I, g):
        """{name: tensor}, {fused name: (sources)}"""
        dt = g["dt"]
        st = lambda m, n: STORED(LOADER_OF(m), z3.StringVal(n))
        out, fused = {}, {}
        for w in self.real(g["layers"]):
            n = w.name
            if ".mlp." not in n:
                if w.optional and not g["has_head"]:
                    continue
                if n.endswith(".bias") and not g["has_bias"]:
                    heads = z3.Int("heads") if "q_proj" in n else z3.Int("kv_heads")
                    out[n] = conv(ZERO(heads * (z3.Int("hidden") / z3.Int("heads"))), dt)
                    continue
                out[n] = conv(st(g["base"], n), dt)
            elif not self.fused:
                for k, e in enumerate(g["experts"]):
                    out[n.replace(".mlp.", f".mlp.experts.{k}.")] = conv(NOISED(st(e.fields["source_model"], n), e.fields["id"], z3.BoolVal("down_proj" in n)), dt)
                for e in g["shared"]:
                    out[n.replace(".mlp.", f".mlp.{self.shared_name}.")] = conv(NOISED(st(e.fields["source_model"], n), e.fields["id"], z3.BoolVal("down_proj" in n)), dt)
        for l in range(g["layers"]):
            p = f"model.layers.{l}.mlp."
            out[p + "gate.weight"] = conv(g["router"][l], dt)
            if self.shared_name == "shared_expert" and g["shared"]:
                out[p + "shared_expert_gate.weight"] = conv(g["srouter"][l], dt)
            if self.fused:
                mt, names = self.fused
                src = lambda part, k, e: NOISED(st(e.fields["source_model"], f"{p}{part}.weight"), e.fields["id"], z3.BoolVal(part == "down_proj"))
                for tgt, parts in (("gate_up_proj", ("gate_proj", "up_proj")), ("down_proj", ("down_proj",))):
                    fused[f"{p}experts.{tgt}"] = (mt, {f"{p}experts.{k}.{names[x]}.weight": src(x, k, e) for k, e in enumerate(g["experts"]) for x in parts})
        return out, fused

    shared_name = "shared_experts"

    def ensures(self, I, g, r):
        want, fused = self.expected(I, g)
        got = [(S(n).as_string() if not isinstance(n, str) else n, t) for n, t in g["saves"]]
        yield "no-tensor-twice", z3.BoolVal(len({n for n, _ in got}) == len(got))
        yield "exactly-the-output's-tensors", z3.BoolVal({n for n, _ in got} == set(want))
        for n, t in got:
            if n in want:
                yield f"content:{n}", t == want[n]
        fs = {t if isinstance(t, str) else S(t).as_string(): (m, dict(src), dt) for m, src, t, dt in g["fused"]}
        yield "fused-experts-once", z3.BoolVal(len(fs) == len(g["fused"]) and set(fs) == set(fused))
        for n, (m, src, dt) in fs.items():
            if n in fused:
                yield f"fused-sources:{n}", z3.And(z3.BoolVal(m == fused[n][0] and dt is g["dt"] and set(src) == set(fused[n][1])),
                                                   *[src[k] == fused[n][1][k] for k in src if k in fused[n][1]])
        yield "finished", z3.BoolVal(g["writer"].fields["finalized"] is True)
        yield "expert-count-in-config", z3.BoolVal(len(g["gen"]) == 1)
        for a, k in g["gen"]:
            vals = list(a) + list(k.values())
            yield "configured-for-these-experts", z3.BoolVal(len(vals) > 0 and vals[0] == len(g["experts"]))


@contract("P13")
class WriteMixtral(_WriteModel):
    target = "mergekit.moe.mixtral:MixtralMoE.write_model"
    mod, cls = "mergekit.moe.mixtral", "MixtralMoE"
    fused = ("mixtral", {"gate_proj": "w1", "down_proj": "w2", "up_proj": "w3"})


@contract("P13")
class WriteDeepseek(_WriteModel):
    target = "mergekit.moe.deepseek:DeepseekMoE.write_model"
    mod, cls = "mergekit.moe.deepseek", "DeepseekMoE"
    arch, config_cls = "LlamaForCausalLM", transformers.LlamaConfig
    cases = [(l, n, d, s) for l, n, d in _WriteModel.cases for s in (False, True)]

    def gen(self, I, self_, base_cfg, *a, **k):
        super().gen(I, self_, base_cfg, *a, **k)
        return SDict(pairs=[])


if QW is not None:
    @contract("P13")
    class WriteQwen(_WriteModel):
        target = "mergekit.moe.qwen:QwenMoE.write_model"
        mod, cls = "mergekit.moe.qwen", "QwenMoE"
        arch, config_cls = "Qwen2ForCausalLM", transformers.Qwen2Config
        cases = [(l, n, d, True) for l, n, d in _WriteModel.cases]
        shared_name = "shared_expert"

        def __init__(self):
            super().__init__()
            self.models[torch.zeros] = lambda I, n, dtype=None, **k: conv(ZERO(Z(n)), dtype)


if Q3 is not None:
    @contract("P13")
    class WriteQwen3(_WriteModel):
        target = "mergekit.moe.qwen3:Qwen3MoE.write_model"
        mod, cls = "mergekit.moe.qwen3", "Qwen3MoE"
        arch, config_cls = "Qwen3ForCausalLM", transformers.Qwen3Config
        fused = ("qwen3_moe", {"gate_proj": "gate_proj", "down_proj": "down_proj", "up_proj": "up_proj"})


# ---------------------------------------------------------------- configurations


class _GenConfig(Contract):
    """the output's configuration has as many experts as the recipe and routes each token to as many as asked"""

    cases = [(k, s) for k in ("given", None) for s in (0, 1, 2)]
    made, cfgname, shared_arg = None, "", True
    count, per_token = "num_local_experts", "num_experts_per_tok"

    def __init__(self):
        self.models = {(_Cfg, "to_dict"): lambda I, o: SDict(pairs=[("intermediate_size", z3.Int("inter"))])}
        for c in ("MistralConfig", "MixtralConfig", "Qwen2MoeConfig", "Qwen3MoeConfig"):
            if hasattr(transformers, c):
                self.models[getattr(transformers, c)] = self.mk

    def mk(self, I, **kw):
        r = SObj(_Cfg, {"intermediate_size": z3.Int("inter"), "max_position_embeddings": z3.Int("mpe"), **kw}, tag="generated")
        return r

    def setup(self, I, case):
        k, s = case
        n = z3.Int("n_experts")
        I.eng.assume(n > 0)
        per = z3.Int("per_token") if k else None
        if k:
            I.eng.assume(per >= 1)
        mod, cls = self.target.split(":")[0], self.target.split(":")[1].split(".")[0]
        b = SObj(_Cfg, {"max_position_embeddings": z3.Int("mpe")}, tag="base_cfg")
        kw = {"experts_per_token": per}
        if self.shared_arg:
            kw["shared_experts"] = s
        return (SObj(getattr(__import__(mod, fromlist=["x"]), cls), {}), b, n), kw, dict(n=n, per=per, s=s)

    def default(self, s):
        return 2

    def field(self, I, r, k):
        return r.fields.get(k)

    def ensures(self, I, g, r):
        yield "as-many-experts", Z(self.field(I, r, self.count)) == g["n"]
        yield "as-many-per-token", Z(self.field(I, r, self.per_token)) == (g["per"] if g["per"] is not None else self.default(g["s"]))
        yield "shared-experts-supported", z3.BoolVal(g["s"] <= self.max_shared)

    max_shared = 9

    def raises(self, I, g, exc):
        return z3.BoolVal(isinstance(exc, NotImplementedError) and g["s"] > self.max_shared)


@contract("P13")
class MixtralConfig(_GenConfig):
    target = "mergekit.moe.mixtral:MixtralMoE._generate_config"
    max_shared = 0


@contract("P13")
class DeepseekConfig(_GenConfig):
    target = "mergekit.moe.deepseek:DeepseekMoE._generate_config"
    max_shared = 1
    count = "n_routed_experts"

    def default(self, s):
        return 1 if s else 2

    def field(self, I, r, k):
        return dict(r.pairs)[k]

    def ensures(self, I, g, r):
        yield from super().ensures(I, g, r)
        sh = self.field(I, r, "n_shared_experts")
        yield "shared-count", z3.BoolVal((sh or 0) == g["s"])


if QW is not None:
    @contract("P13")
    class QwenConfig(_GenConfig):
        target = "mergekit.moe.qwen:QwenMoE._generate_config"
        shared_arg = False
        count = "num_experts"
        cases = [(k, 1) for k in ("given", None)]


if Q3 is not None:
    @contract("P13")
    class Qwen3Config(_GenConfig):
        target = "mergekit.moe.qwen3:Qwen3MoE._generate_config"
        shared_arg = False
        count = "num_experts"
        cases = [(k, 0) for k in ("given", None)]


# ---------------------------------------------------------------- router vectors

import mergekit.moe.router as RT  # noqa: E402

HID = {}


@contract("P13")
class GateParams(Contract):
    """router vector of an expert, per layer: its positive minus its negative prompts' vector, normalised; experts in recipe order"""

    target = "mergekit.moe.router:get_gate_params"
    cases = [(m, n, neg) for m in ("cheap_embed", "hidden", "hidden_avg", "hidden_last") for n in (1, 3) for neg in ("none", "first", "all")]
    bounded = "1 or 3 experts (layers, sizes and values unbounded)"

    def __init__(self):
        R_ = "mergekit.moe.router:"
        self.calls = {R_ + "tokenize_prompts": lambda I, p, t: SObj(_Any, {"prompts": p}, tag="tok"),
                      R_ + "get_cheap_embedding": self.cheap, R_ + "get_hidden_states": self.hidden}
        self.models = {transformers.AutoModelForCausalLM.from_pretrained.__func__: lambda I, cls, *a, **k: SObj(_Any, {}, tag="net")}

    def vec(self, I, tok):
        g = I.state_g
        p = tok.fields["prompts"]
        k = [i for i, x in enumerate(g["prompts"]) if x is p]
        if not k:
            raise Unsupported("unknown prompts")
        f = g["fs"][k[0]]
        return STensor([g["L"], g["H"]], lambda i, j: f(Z(i), Z(j)), tmodel.dt(torch.float32))

    def cheap(self, I, embed, tokenized, num_layers=None, vocab_size=None):
        g = I.state_g
        g["how"].append(("cheap", embed is g["embed"] or (is_z3(embed) and embed.eq(g["embed"])), num_layers))
        return self.vec(I, tokenized)

    def hidden(self, I, model, tokenized, average=True):
        I.state_g["how"].append(("hidden", average))
        return self.vec(I, tokenized)

    def setup(self, I, case):
        mode, n, neg = case
        L, Hd = z3.Int("layers"), z3.Int("hidden")
        I.eng.assume(z3.And(L >= 0, Hd >= 0))
        es, prompts, fs, of = [], [], [], []
        for k in range(n):
            p = SList(items=[z3.String(f"pos{k}")])
            q = SList(items=[z3.String(f"neg{k}")]) if neg == "all" or (neg == "first" and k == 0) else None
            row = []
            for x in (p, q):
                if x is None:
                    row.append(None)
                    continue
                f = z3.Function(f"hid{len(fs)}", INT, INT, REAL)
                prompts.append(x)
                fs.append(f)
                row.append(f)
            of.append(row)
            es.append(SObj(MCF.Expert, {"positive_prompts": p, "negative_prompts": q, "source_model": z3.Const(f"s{k}", ModelO.sort)}))
        m = z3.Const("model", ModelO.sort)
        cfg = SObj(_Cfg, {"num_hidden_layers": L, "vocab_size": z3.Int("vocab"), "hidden_size": Hd})
        ModelO.methods["config"] = lambda I_, t, **k: cfg
        ModelO.methods["lazy_loader"] = lambda I_, t, **k: LOADER_OF(t)
        ModelO.attrs.setdefault("model", lambda I_, t: SObj(_Any, {"path": z3.String("path"), "revision": None}))
        emb = STORED(LOADER_OF(m), z3.StringVal("model.embed_tokens.weight"))
        I.eng.assume(HAS(LOADER_OF(m), z3.StringVal("model.embed_tokens.weight")))
        g = dict(case=case, L=L, H=Hd, prompts=prompts, fs=fs, of=of, how=[], embed=emb)
        I.state_g = g
        return (m, SObj(_Any, {}, tag="tokenizer"), SList(items=es)), {"mode": mode}, g

    def ensures(self, I, g, r):
        mode, n, neg = g["case"]
        yield "shape", dims_are(r, [g["L"], z3.IntVal(n), g["H"]])
        if mode == "cheap_embed":
            yield "token-embeddings", z3.And(*[z3.And(z3.BoolVal(bool(h[1])), Z(h[2]) == g["L"]) if h[0] == "cheap" else z3.BoolVal(False) for h in g["how"]])
        else:
            yield "hidden-states-mode", z3.BoolVal(all(h[0] == "hidden" and bool(h[1]) == (mode == "hidden_avg") for h in g["how"]))
        l, h = z3.Int("l"), z3.Int("h")
        inr = z3.And(0 <= l, l < g["L"], 0 <= h, h < g["H"])
        for k in range(n):
            pos, ng = g["of"][k]
            raw = lambda i, j: pos(i, j) - (ng(i, j) if ng is not None else 0)
            row = STensor([g["H"]], lambda j: raw(l, Z(j)), tmodel.dt(torch.float32))
            nrm = tmodel.num(I.call(torch.linalg.vector_norm, [row], {}).at()) if False else tmodel_norm(I, row)
            den = z3.If(nrm < R(1e-8), R(1e-8), nrm)
            yield f"vector-of-expert-{k}", z3.Implies(inr, R(r.at(l, k, h)) == raw(l, h) / den)


def tmodel_norm(I, row):
    return R(num(I.call(torch.norm, [row], {"p": 2}).at()))
