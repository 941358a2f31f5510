"""Run-time contracts of the tensor tasks (P15), decorated merge methods (P16) and
references / configuration text (P11)."""

import contextlib
import json
import os
import shutil
import tempfile
from typing import List, Optional

import numpy as np
import safetensors.torch
import torch
import yaml

from mergekit.architecture import WeightInfo
from mergekit.common import ImmutableMap, ModelPath, ModelReference, dtype_from_name, get_config_value, parse_kmb, set_config_value
from mergekit.config import MergeConfiguration
from mergekit.graph import Executor, Task
from mergekit.io.tasks import FinalizeModel, GatherTensors, LoaderCache, LoadTensor, ReturnTensor, SaveTensor, TensorWriterTask
from mergekit.merge_methods import REGISTERED_MERGE_METHODS
from mergekit.merge_methods.base import TensorDictWrapper
from mergekit.merge_methods.easy_define import merge_method
from pyvc.rt import Skip, case


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vftask")
    try:
        yield d
    finally:
        LoaderCache().loaders.clear()
        shutil.rmtree(d, ignore_errors=True)


def gen(rng):
    g = torch.Generator()
    g.manual_seed(rng.randrange(1 << 30))
    return g


def write(path, tensors, model_type="llama"):
    os.makedirs(path)
    safetensors.torch.save_file(tensors, os.path.join(path, "model.safetensors"))
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump({"architectures": ["LlamaForCausalLM"], "model_type": model_type}, f)


DT = {"float32": torch.float32, "float16": torch.float16, "bfloat16": torch.bfloat16}


def run1(task):
    out = [v for _, v in Executor([task]).run(quiet=True)]
    assert len(out) == 1
    return out[0]


@case("P15", "checkpoints of up to 8 tensors; every combination of name, aliases, tied names, optional, dtype", quick=300, deep=3000)
def load_resolves_names_in_order(rng, i, note):
    g = gen(rng)
    with scratch() as d:
        pool = [f"n{k}" for k in range(8)]
        have = rng.sample(pool, rng.randrange(1, 8))
        dts = {n: rng.choice(list(DT)) for n in have}
        data = {n: torch.randn(2, 3, generator=g).to(DT[dts[n]]) for n in have}
        write(os.path.join(d, "m"), data)
        m = ModelReference.parse(os.path.join(d, "m"))
        name = rng.choice(pool)
        al = tuple(rng.sample(pool, rng.randrange(0, 3))) or None
        ti = tuple(rng.sample(pool, rng.randrange(0, 3))) or None
        opt = rng.random() < 0.5
        dt = rng.choice([None, "float32", "bfloat16", "float16", "torch.float32"])
        note(dict(have=have, name=name, aliases=al, tied=ti, optional=opt, dtype=dt))
        task = LoadTensor(model=m, tensor=name, aliases=al, tied_names=ti, optional=opt, dtype=dt)
        src = next((x for x in [name] + list(al or []) + list(ti or []) if x in data), None)
        try:
            got = run1(task)
        except RuntimeError:
            assert src is None and not opt, "an available tensor was refused"
            return
        if src is None:
            assert opt and got is None, "a missing required tensor was not reported"
            return
        want = data[src]
        if dt:
            want = want.to(DT[dt.replace("torch.", "")])
        assert got.dtype == want.dtype and torch.equal(got, want), f"got the wrong tensor for {name} (expected {src})"


@case("P15", "2-4 models, tensors under different names per model, some absent and optional", quick=200, deep=2000)
def gather_maps_each_model_to_its_tensor(rng, i, note):
    g = gen(rng)
    with scratch() as d:
        n = rng.randrange(1, 5)
        wi, want = {}, {}
        dt = rng.choice([None, "float32", "bfloat16"])
        for k in range(n):
            p = os.path.join(d, f"m{k}")
            nm = rng.choice(["a", "b", "c"])
            opt = rng.random() < 0.4
            force = rng.choice([None, None, "float16"])
            present = not opt or rng.random() < 0.5
            x = torch.randn(3, generator=g)
            write(p, {nm if present else "zzz": x, "other": torch.zeros(3)})
            m = ModelReference.parse(p)
            wi[m] = WeightInfo(name=nm, optional=opt, force_dtype=force)
            if present:
                want[m] = x.to(DT[force or dt or "float32"])
        note(dict(names=[(str(m), w.name, w.optional, w.force_dtype) for m, w in wi.items()], dtype=dt))
        got = run1(GatherTensors(weight_info=ImmutableMap(wi), dtype=dt))
        assert set(got) == set(want), "models whose tensor is absent must be left out, all others present"
        for m in want:
            assert got[m].dtype == want[m].dtype and torch.equal(got[m], want[m]), f"{m} got another model's tensor"
        assert list(got) == [m for m in wi if m in want], "order of the models changed"


class Fixed(Task[Optional[torch.Tensor]]):
    key: str

    def arguments(self):
        return {}

    def execute(self):
        return FIX[self.key]


class FixedT(Task[torch.Tensor]):
    key: str

    def arguments(self):
        return {}

    def execute(self):
        return FIX[self.key]


FIX = {}


@case("P15", "up to 8 tensors to save, some None, some optional, clone on/off, any dtype", quick=150, deep=1500)
def save_writes_what_was_computed(rng, i, note):
    g = gen(rng)
    with scratch() as d:
        out = os.path.join(d, "out")
        n = rng.randrange(1, 9)
        shared = torch.randn(4, 3, generator=g)
        writer = TensorWriterTask(out_path=out, max_shard_size=rng.choice([1, 40, 10**6]), safe_serialization=rng.random() < 0.7)
        saves, want, bad = [], {}, False
        clone = rng.random() < 0.7
        for k in range(n):
            r = rng.random()
            v = None if r < 0.2 else (shared if r < 0.35 and clone else torch.randn(2, k + 1, generator=g))
            FIX[f"{i}/{k}"] = v
            opt = rng.random() < 0.5
            dt = rng.choice([None, "float16", "bfloat16"])
            saves.append(SaveTensor(tensor_name=f"t{k}", tensor_task=Fixed(key=f"{i}/{k}"), writer_task=writer,
                                    clone=clone, optional=opt, dtype=dt))
            if v is None:
                bad |= not opt
            else:
                want[f"t{k}"] = v.to(DT[dt]) if dt else v
        fin = FinalizeModel(tensor_save_tasks=tuple(saves), writer_task=writer)
        note(dict(n=n, none=[k for k in range(n) if FIX[f"{i}/{k}"] is None], optional=[s.optional for s in saves], clone=clone,
                  dtypes=[s.dtype for s in saves]))
        targets = saves + [fin]
        rng.shuffle(targets)
        try:
            Executor(targets).execute()
        except RuntimeError:
            assert bad, "a complete set of tensors was refused"
            return
        finally:
            for k in range(n):
                FIX.pop(f"{i}/{k}", None)
        assert not bad, "a missing required tensor was silently dropped"
        got = {}
        for fn in os.listdir(out):
            p = os.path.join(out, fn)
            if fn.endswith(".safetensors"):
                got.update(safetensors.torch.load_file(p))
            elif fn.endswith(".bin"):
                got.update(torch.load(p, weights_only=True))
        assert set(got) == set(want), f"wrote {sorted(got)}, expected {sorted(want)}"
        for k in want:
            assert got[k].dtype == want[k].dtype and torch.equal(got[k], want[k]), f"{k} changed on the way to disk"


@case("P15", "in-memory results: dtype conversion and nothing else", quick=60, deep=300)
def returned_tensor_is_the_result(rng, i, note):
    g = gen(rng)
    x = torch.randn(3, 2, generator=g)
    FIX[f"r{i}"] = x
    dt = rng.choice([None, "float16", "bfloat16", "float32"])
    note(dict(dtype=dt))
    got = run1(ReturnTensor(weight_info=WeightInfo(name="w"), tensor_task=FixedT(key=f"r{i}"), dtype=dt))
    FIX.pop(f"r{i}")
    want = x.to(DT[dt]) if dt else x
    assert got.dtype == want.dtype and torch.equal(got, want)


# ------------------------------------------------------------------ P16 decorated methods

CALLS = []


def define(kind):
    if kind == "plain":
        @merge_method(name="vf_plain")
        def plain(tensors: List[torch.Tensor], weight: List[float], k: List[int] = 3, scale: float = 2.0, flag: bool = False) -> torch.Tensor:
            CALLS.append(dict(tensors=tensors, weight=weight, k=k, scale=scale, flag=flag))
            return tensors[0] if tensors else torch.zeros(1)
    elif kind == "base":
        @merge_method(name="vf_base")
        def base(tensors: List[torch.Tensor], base_tensor: torch.Tensor, weight: List[float], scale: float) -> torch.Tensor:
            CALLS.append(dict(tensors=tensors, base_tensor=base_tensor, weight=weight, scale=scale))
            return base_tensor
    elif kind == "optbase":
        @merge_method(name="vf_optbase")
        def optbase(tensors: List[torch.Tensor], weight: List[float], base_tensor: Optional[torch.Tensor] = None,
                    output_weight: WeightInfo = None, base_model: Optional[ModelReference] = None) -> torch.Tensor:
            CALLS.append(dict(tensors=tensors, base_tensor=base_tensor, weight=weight, output_weight=output_weight, base_model=base_model))
            return tensors[0] if tensors else torch.zeros(1)
    elif kind == "basefirst":
        @merge_method(name="vf_basefirst")
        def basefirst(tensors: List[torch.Tensor], weight: List[float], base_model: Optional[ModelReference] = None) -> torch.Tensor:
            CALLS.append(dict(tensors=tensors, weight=weight, base_model=base_model))
            return tensors[0] if tensors else torch.zeros(1)


@case("P16", "1-6 models in any order, four signatures covering base tensor / optional base / base first / none", quick=300, deep=3000)
def decorated_method_receives_aligned_arguments(rng, i, note):
    kind = rng.choice(["plain", "base", "optbase", "basefirst"])
    if f"vf_{kind}" not in REGISTERED_MERGE_METHODS:
        define(kind)
    m = REGISTERED_MERGE_METHODS[f"vf_{kind}"]
    try:
        n = rng.randrange(1, 7)
        models = [ModelReference.parse(f"{rng.choice('abcdef')}{k}-{rng.randrange(99)}") for k in range(n)]
        rng.shuffle(models)
        ts = {r: torch.full((1,), float(j)) for j, r in enumerate(models)}
        w = {r: 10.0 + j for j, r in enumerate(models)}
        kk = {r: 100 + j for j, r in enumerate(models)}
        base = rng.choice(models) if kind == "base" or rng.random() < 0.6 else None
        outside = kind in ("optbase", "basefirst", "plain") and base is not None and rng.random() < 0.2 and n > 1
        for j, r in enumerate(models):
            FIX[f"e{r}"] = ts[r]
        inputs = [r for r in models if not (outside and r == base)]
        note(dict(kind=kind, models=[str(r) for r in inputs], base=str(base), base_absent=outside))
        g = TensorDictWrapper(tensors=ImmutableMap({r: Fixed(key=f"e{r}") for r in inputs}))
        names = {p.name: p for p in m.parameters()}
        assert set(names) == {"plain": {"scale", "flag"}, "base": {"scale"}, "optbase": set(), "basefirst": set()}[kind]
        tnames = {p.name: p for p in m.tensor_parameters()}
        assert set(tnames) == ({"weight", "k"} if kind == "plain" else {"weight"})
        assert tnames["weight"].required and (kind != "plain" or (not tnames["k"].required and tnames["k"].default_value == 3))
        if kind == "plain":
            assert not names["scale"].required and names["scale"].default_value == 2.0 and names["flag"].default_value is False
        if kind == "base":
            assert names["scale"].required
        out = WeightInfo(name="w")
        task = m.make_task(output_weight=out, tensors=g, base_model=base, parameters=ImmutableMap({"scale": 5.0, "flag": True}),
                           tensor_parameters=ImmutableMap({r: ImmutableMap({"weight": w[r], "k": kk[r]}) for r in models}))
        CALLS.clear()
        run1(task)
        assert len(CALLS) == 1
        c = CALLS[0]
        if kind in ("base", "optbase"):
            order = [r for r in inputs if r != base]
        elif base in inputs:
            order = [base] + [r for r in inputs if r != base]
        else:
            order = inputs
        got = [models[int(t.item())] for t in c["tensors"]]
        assert sorted(map(str, got)) == sorted(map(str, order)), f"received {list(map(str, got))}"
        if kind in ("basefirst", "plain") and base in inputs:
            assert got[0] == base, "the base model must come first"
        assert got == order, f"tensors not in the order of the input models: {list(map(str, got))}, expected {list(map(str, order))}"
        assert c["weight"] == [w[r] for r in got], "weights are not aligned with the tensors"
        if kind == "plain":
            assert c["k"] == [kk[r] for r in got] and c["scale"] == 5.0 and c["flag"] is True
        if kind == "base":
            assert c["base_tensor"].item() == models.index(base) and c["scale"] == 5.0
        if kind == "optbase":
            if base in inputs:
                assert c["base_tensor"].item() == models.index(base)
            else:
                assert c["base_tensor"] is None
            assert c["output_weight"] == out and c["base_model"] == base
        if kind == "basefirst":
            assert c["base_model"] == base
    finally:
        for k in list(FIX):
            if k.startswith("e"):
                FIX.pop(k)


@case("P16", "declarations whose parameters have no or an unsupported annotation, or bad defaults", quick=9, deep=9)
def impossible_signatures_refused(rng, i, note):
    T, L = torch.Tensor, List[torch.Tensor]

    def f1(tensors: L, foo):
        pass

    def f2(tensors: L, foo: str = "x"):
        pass

    def f3(tensors: L, foo: Optional[float] = None):
        pass

    def f4(tensors: L, foo: List[str] = 1):
        pass

    def f5(tensors, foo: float = 1.0):
        pass

    def f6(foo: float = 1.0):
        pass

    def f7(tensors: L, w: List[float] = [1.0]):
        pass

    def f8(tensors: L, base_tensor: float):
        pass

    def f9(tensors: List[float]):
        pass

    f = [f1, f2, f3, f4, f5, f6, f7, f8, f9][i % 9]
    note(f.__name__)
    try:
        merge_method(name="vf_bad")(f)
    except (ValueError, TypeError):
        return
    finally:
        REGISTERED_MERGE_METHODS.pop("vf_bad", None)
    raise AssertionError(f"a method declared as {f.__annotations__} was accepted")


# ------------------------------------------------------------------ P11 references and text forms

ALPH = "abcXYZ019_-./"


def word(rng, extra=""):
    return "".join(rng.choice(ALPH + extra) for _ in range(rng.randrange(1, 9)))


def rand_ref(rng):
    p = ModelPath(path=word(rng, " \"'" if rng.random() < 0.2 else ""), revision=word(rng) if rng.random() < 0.4 else None)
    lo = ModelPath(path=word(rng), revision=word(rng) if rng.random() < 0.3 else None) if rng.random() < 0.4 else None
    return ModelReference(model=p, lora=lo, override_architecture=rng.choice([None, None, "LlamaForCausalLM"]))


@case("P11", "random model / revision / LoRA / architecture combinations; path text without '+' and '@'", quick=600, deep=8000)
def reference_text_round_trip(rng, i, note):
    r = rand_ref(rng)
    note(dict(path=r.model.path, rev=r.model.revision, lora=str(r.lora), arch=r.override_architecture))
    s = str(r)
    want = r.model.path + (f"@{r.model.revision}" if r.model.revision else "")
    if r.lora:
        want += "+" + r.lora.path + (f"@{r.lora.revision}" if r.lora.revision else "")
    assert s == want, f"{s!r}, expected {want!r}"
    back = ModelReference.parse(s)
    assert back.model == r.model and back.lora == r.lora
    assert back == r or r.override_architecture, "parsing the text form gives a different reference"
    j = ModelReference.model_validate_json(r.model_dump_json())
    assert j == r and hash(j) == hash(r), "JSON round trip changed the reference"
    y = ModelReference.model_validate(yaml.safe_load(yaml.dump(r.model_dump(mode="json"))))
    assert y == r, "YAML round trip changed the reference"
    # the dictionary wrapper keys results by this serialisation
    k = ModelReference.model_validate_json(r.model_dump_json(exclude_none=True, exclude_defaults=True, round_trip=True))
    assert k == r


@case("P11", "text with several '+' or '@' is refused, not reinterpreted", quick=100, deep=500)
def ambiguous_reference_refused(rng, i, note):
    s = word(rng) + rng.choice(["@a@b", "+a+b", "@x@y+z", "+l@a@b"])
    note(s)
    try:
        r = ModelReference.parse(s)
    except Exception:
        return
    raise AssertionError(f"{s!r} was accepted as {r!r}")


@case("P11", "distinct references never share a merge-cache directory (up to CRC collisions)", quick=200, deep=1500)
def cache_ids_distinguish(rng, i, note):
    p, rev = word(rng), word(rng)
    a = ModelPath(path="x/" + p, revision=None)
    others = [ModelPath(path="y/" + p), ModelPath(path="x/" + p, revision=rev), ModelPath(path="x/" + p + "q")]
    note(dict(p=p, rev=rev))
    if not hasattr(a, "_unique_id"):
        raise Skip("private helper gone")
    ids = [x._unique_id() for x in [a] + others]
    assert len(set(ids)) == len(ids), f"{ids}"
    assert all("/" not in x for x in ids)


@case("P11", "sizes with K/M/B suffixes, dtype names, dotted configuration keys", quick=300, deep=2000)
def small_parsers(rng, i, note):
    n = rng.randrange(0, 10**rng.randrange(1, 10))
    suf, f = rng.choice([("", 1), ("k", 10**3), ("K", 10**3), ("m", 10**6), ("M", 10**6), ("b", 10**9), ("B", 10**9)])
    note(dict(n=n, suffix=suf))
    assert parse_kmb(f"{n}{suf}") == n * f
    assert parse_kmb(n) == n
    for bad in ("12x", "k", ""):
        try:
            parse_kmb(bad)
        except (ValueError, IndexError):
            pass
        else:
            raise AssertionError(f"{bad!r} accepted as a size")
    for nm, dt in (("float32", torch.float32), ("float16", torch.float16), ("bfloat16", torch.bfloat16), ("int64", torch.int64)):
        assert dtype_from_name(nm) is dt and dtype_from_name("torch." + nm) is dt
    assert dtype_from_name(None) is None
    try:
        dtype_from_name("float99")
    except RuntimeError:
        pass
    else:
        raise AssertionError("unknown dtype accepted")

    class C:
        pass

    root = C()
    o = root
    parts = [rng.choice("abc") + str(k) for k in range(rng.randrange(1, 4))]
    for p in parts[:-1]:
        setattr(o, p, C())
        o = getattr(o, p)
    o.keep = 1
    key = ".".join(parts)
    set_config_value(root, key, n)
    assert get_config_value(root, key) == n and o.keep == 1 and getattr(o, parts[-1]) == n
    try:
        get_config_value(root, key + "x")
    except RuntimeError:
        pass
    else:
        raise AssertionError("missing key not reported")


@case("P11", "random merge configurations: YAML text and back is the same configuration", quick=200, deep=2500)
def configuration_round_trip(rng, i, note):
    from corpus.plan import rand_setting

    def params(ns=("weight", "density", "t")):
        return {k: rand_setting(rng) for k in ns if rng.random() < 0.4}

    def src(layers):
        d = {"model": str(rand_ref(rng).model_copy(update={"override_architecture": None}))}
        if layers:
            a = rng.randrange(5)
            d["layer_range"] = [a, a + 3]
        p = params()
        if p:
            d["parameters"] = p
        return d

    cfg = {"merge_method": rng.choice(["linear", "slerp", "ties"])}
    mode = rng.choice(["models", "slices", "modules"])
    body = {"models": [src(False) for _ in range(2)]} if mode == "models" or rng.random() < 0.3 and mode == "modules" else {
        "slices": [{"sources": [src(True) for _ in range(rng.randrange(1, 3))]} for _ in range(rng.randrange(1, 3))]}
    if mode == "modules":
        cfg["modules"] = {"default": body}
    else:
        cfg.update(body)
    if rng.random() < 0.5:
        cfg["base_model"] = "base/model"
    p = params(("normalize", "lambda"))
    if p:
        cfg["parameters"] = p
    for k, vs in (("dtype", ["float32", "bfloat16"]), ("out_dtype", ["float16"]), ("tokenizer_source", ["union", "base", "some/model"]),
                  ("chat_template", ["auto", "chatml"])):
        if rng.random() < 0.4:
            cfg[k] = rng.choice(vs)
    note(cfg)
    a = MergeConfiguration.model_validate(cfg)
    text = a.to_yaml()
    b = MergeConfiguration.model_validate(yaml.safe_load(text))
    assert a == b, f"configuration changed in its YAML form:\n{text}"
    refs = a.referenced_models()
    assert len(refs) == len(set(refs)) and set(refs) == set(b.referenced_models())
    want = set()

    def walk(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("model", "base_model") and isinstance(v, str):
                    want.add(ModelReference.parse(v))
                else:
                    walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)

    walk({k: v for k, v in cfg.items() if k != "tokenizer_source"})
    assert set(refs) == want, "referenced models are not those the configuration names"
    n = sum(k in cfg for k in ("models", "slices", "modules"))
    assert n == 1


@case("P11", "configurations with none or several of models/slices/modules are refused", quick=30, deep=100)
def contradictory_configuration_refused(rng, i, note):
    full = {"models": [{"model": "a"}], "slices": [{"sources": [{"model": "a", "layer_range": [0, 1]}]}],
            "modules": {"default": {"models": [{"model": "a"}]}}}
    keys = rng.choice([[], ["models", "slices"], ["models", "modules"], ["slices", "modules"], ["models", "slices", "modules"], "tok", "mod"])
    if keys == "tok":
        cfg = {"merge_method": "linear", "models": full["models"], "tokenizer_source": "base", "tokenizer": {"source": "base"}}
    elif keys == "mod":
        cfg = {"merge_method": "linear", "modules": {"default": {"models": [{"model": "a"}], "slices": full["slices"]}}}
    else:
        cfg = {"merge_method": "linear", **{k: full[k] for k in keys}}
    note(cfg)
    try:
        MergeConfiguration.model_validate(cfg)
    except Exception:
        return
    raise AssertionError("accepted")
