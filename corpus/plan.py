"""Run-time contracts of parameter resolution (P05) and of a whole merge (P06),
against an oracle that reads the configuration and the checkpoints by itself."""

import contextlib
import json
import math
import os
import shutil
import tempfile

import numpy as np
import safetensors.torch
import torch
import yaml

from mergekit.config import (
    ConditionalParameter,
    ConfigReader,
    InputSliceDefinition,
    MergeConfiguration,
    OutputModuleDefinition,
    OutputSliceDefinition,
    evaluate_setting,
)
from mergekit.io.tasks import LoaderCache
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from pyvc.rt import Skip, case

# ------------------------------------------------------------------ settings


def rand_scalar(rng):
    return rng.choice([0.0, 1.0, 0.5, 0.25, 2.0, -1.0, 3, 0, round(rng.uniform(-2, 2), 3)])


def rand_value(rng):
    if rng.random() < 0.5:
        return rand_scalar(rng)
    return [rand_scalar(rng) for _ in range(rng.randrange(1, 6))]


FILTERS = ["self_attn", "mlp", "q_proj", "weight", "layers.1.", "nothing-matches", "embed", "norm"]


def rand_setting(rng):
    k = rng.random()
    if k < 0.5:
        return rand_value(rng)
    if k < 0.6:
        return {"value": rand_value(rng), **({"filter": rng.choice(FILTERS + ["*"])} if rng.random() < 0.6 else {})}
    out = []
    for _ in range(rng.randrange(1, 4)):
        e = {"value": rand_value(rng)}
        r = rng.random()
        if r < 0.7:
            e["filter"] = rng.choice(FILTERS)
        elif r < 0.8:
            e["filter"] = "*"
        out.append(e)
    return out


def o_value(v, t):
    if not isinstance(v, list):
        return float(v)
    if len(v) == 1:
        return float(v[0])
    pos = t * (len(v) - 1)
    return float(np.interp(pos, np.arange(len(v)), np.array(v, dtype=float)))


def o_setting(name, s, t):
    """None when nothing matches"""
    if isinstance(s, dict):
        s = [s]
    if isinstance(s, list) and s and isinstance(s[0], dict):
        for c in s:
            f = c.get("filter")
            if f is None or f == "*" or (name and f in name):
                return o_value(c["value"], t)
        return None
    return o_value(s, t)


def parsed(s):
    d = OutputSliceDefinition(sources=[], parameters={"x": s})
    return d.parameters["x"]


NAMES = ["model.layers.1.self_attn.q_proj.weight", "model.layers.10.mlp.up_proj.weight", "model.embed_tokens.weight",
         "model.norm.weight", "lm_head.weight", None, ""]


@case("P05", "settings with up to 3 conditions and gradients of up to 5 values, t on a grid of [0,1]", quick=1500, deep=20000)
def setting_evaluation(rng, i, note):
    s = rand_setting(rng)
    name = rng.choice(NAMES)
    n = rng.randrange(1, 8)
    t = rng.choice([0, 1, 0.0, 1.0, rng.random(), rng.randrange(n + 1) / n])
    note(dict(setting=s, name=name, t=t))
    got = evaluate_setting(name, parsed(s), t)
    want = o_setting(name, s, t)
    assert (got is None) == (want is None), f"got {got}, expected {want}"
    if want is not None:
        assert abs(got - want) < 1e-9 * max(1, abs(want)), f"got {got}, expected {want}"


def maybe_params(rng, names=("p", "q")):
    if rng.random() < 0.35:
        return None
    return {n: rand_setting(rng) for n in names if rng.random() < 0.6}


@case("P05", "up to 3 sources, parameters at any subset of the four levels", quick=800, deep=10000)
def parameter_precedence(rng, i, note):
    models = ["a", "b", "c"][: rng.randrange(1, 4)]
    src = [{"model": m, "layer_range": [0, 4], **({"parameters": p} if (p := maybe_params(rng)) is not None else {})} for m in models]
    sl = {"sources": src, **({"parameters": p} if (p := maybe_params(rng)) is not None else {})}
    mod_p = maybe_params(rng) if rng.random() < 0.6 else None
    glob = maybe_params(rng)
    cfg = {"merge_method": "linear", "slices": [sl], **({"parameters": glob} if glob is not None else {})}
    conf = MergeConfiguration.model_validate(cfg)
    use_slice, use_mod = rng.random() < 0.8, mod_p is not None
    name, t = rng.choice(NAMES), rng.choice([0.0, 0.5, 1.0, rng.random()])
    rd = ConfigReader(config=conf, t=rng.random(), tensor_name="other")
    steps = [lambda r: r.for_tensor(name), lambda r: r.with_t(t)]
    if use_slice:
        steps.append(lambda r: r.for_out_slice(conf.slices[0]))
    if use_mod:
        md = OutputModuleDefinition(slices=conf.slices, parameters=mod_p)
        steps.append(lambda r: r.for_module(md))
    rng.shuffle(steps)
    for st in steps:
        rd = st(rd)
    model = rng.choice([None] + models)
    from mergekit.common import ModelReference

    ref = ModelReference.parse(model) if model else None
    p = rng.choice(["p", "q", "absent"])
    default = rng.choice([None, 7.5, 0.0])
    required = rng.random() < 0.3
    note(dict(cfg=cfg, module=mod_p, slice=use_slice, name=name, t=t, model=model, p=p, default=default, required=required))
    levels = []
    if use_slice:
        if model:
            for s in src:
                if s["model"] == model and p in (s.get("parameters") or {}):
                    levels.append(s["parameters"][p])
        if p in (sl.get("parameters") or {}):
            levels.append(sl["parameters"][p])
    if use_mod and p in mod_p:
        levels.append(mod_p[p])
    if p in (glob or {}):
        levels.append(glob[p])
    want = next((v for v in (o_setting(name, s, t) for s in levels) if v is not None), None)
    try:
        got = rd.parameter(p, model=ref, default=default, required=required)
    except RuntimeError:
        assert required and want is None, f"refused although a value is configured: {want}"
        return
    if want is None:
        assert not required, "required parameter silently defaulted"
        assert got == default and type(got) is type(default), f"got {got}, expected the default {default}"
    else:
        assert abs(got - want) < 1e-9 * max(1, abs(want)), f"got {got}, expected {want}"


# ------------------------------------------------------------------ whole merges

H, V, I = 4, 7, 6


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vfplan")
    try:
        yield d
    finally:
        LoaderCache().loaders.clear()
        shutil.rmtree(d, ignore_errors=True)


LAYER = {
    "input_layernorm.weight": (H,), "self_attn.q_proj.weight": (H, H), "self_attn.k_proj.weight": (H, H),
    "self_attn.v_proj.weight": (H, H), "self_attn.o_proj.weight": (H, H), "post_attention_layernorm.weight": (H,),
    "mlp.up_proj.weight": (I, H), "mlp.gate_proj.weight": (I, H), "mlp.down_proj.weight": (H, I),
}


def llama_config(layers, tied=False):
    return dict(architectures=["LlamaForCausalLM"], model_type="llama", hidden_size=H, intermediate_size=I,
                num_attention_heads=2, num_key_value_heads=2, num_hidden_layers=layers, vocab_size=V,
                tie_word_embeddings=tied, torch_dtype="float32")


def write_model(path, g, rng, layers, dtype=torch.float32, head=True):
    os.makedirs(path)
    t = {"model.embed_tokens.weight": (V, H), "model.norm.weight": (H,)}
    if head:
        t["lm_head.weight"] = (V, H)
    for l in range(layers):
        for n, s in LAYER.items():
            t[f"model.layers.{l}.{n}"] = s
    tensors = {n: torch.randn(s, generator=g).to(dtype) for n, s in t.items()}
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump(llama_config(layers, not head), f)
    names = list(tensors)
    rng.shuffle(names)
    k = rng.randrange(1, 4)
    bin_ = rng.random() < 0.25
    ext, stem = ("bin", "pytorch_model") if bin_ else ("safetensors", "model")

    def save(d, p):
        torch.save(d, p) if bin_ else safetensors.torch.save_file(d, p, metadata={"format": "pt"})

    if k == 1:
        save(tensors, os.path.join(path, f"{stem}.{ext}"))
    else:
        wm = {}
        for j in range(k):
            part = {n: tensors[n] for n in names[j::k]}
            fn = f"{stem}-{j+1:05d}-of-{k:05d}.{ext}"
            save(part, os.path.join(path, fn))
            wm.update({n: fn for n in part})
        with open(os.path.join(path, f"{stem}.{ext}.index.json"), "w") as f:
            json.dump({"metadata": {}, "weight_map": wm}, f)
    return {n: v.float().double().numpy() if dtype != torch.float64 else v.numpy() for n, v in tensors.items()}


def read_out(path):
    res = {}
    for fn in sorted(os.listdir(path)):
        if fn.endswith(".safetensors"):
            for k, v in safetensors.torch.load_file(os.path.join(path, fn)).items():
                assert k not in res, f"{k} written twice"
                res[k] = v
        elif fn.endswith(".bin"):
            for k, v in torch.load(os.path.join(path, fn), weights_only=True).items():
                assert k not in res, f"{k} written twice"
                res[k] = v
    return res


def resolve(levels, name, t, default=None):
    for s in levels:
        if s is None:
            continue
        v = o_setting(name, s, t)
        if v is not None:
            return v
    return default


def o_combine(method, xs, base_i, glob, per):
    """merge a list of float64 arrays"""
    if method == "passthrough":
        s = per[0].get("scale")
        return xs[0] if s is None else xs[0] * s
    if method == "linear":
        w = [p["weight"] for p in per]
        r = sum(a * x for a, x in zip(w, xs))
        return r / sum(w) if glob["normalize"] else r
    if method == "slerp":
        if len(xs) == 1:
            return xs[0]
        a, b = xs[base_i], xs[1 - base_i]
        na, nb = np.linalg.norm(a), np.linalg.norm(b)
        dot = float((a / na * (b / nb)).sum())
        t = glob["t"]
        if abs(abs(dot) - 0.9995) < 1e-5:
            raise Skip("threshold")
        if abs(dot) > 0.9995:
            return (1 - t) * a + t * b
        th = math.acos(dot)
        return (math.sin((1 - t) * th) * a + math.sin(t * th) * b) / math.sin(th)
    if method == "task_arithmetic":
        d = sum((p["weight"] * (x - xs[base_i]) for j, (x, p) in enumerate(zip(xs, per)) if j != base_i), 0 * xs[base_i])
        if glob["normalize"]:
            w = sum(p["weight"] for j, p in enumerate(per) if j != base_i)
            if abs(w) >= 1e-8 and len(xs) > 1:
                d = d / w
        return xs[base_i] + glob["lambda"] * d
    raise KeyError(method)


GLOBALS = {"linear": {"normalize": True}, "slerp": {"t": None}, "task_arithmetic": {"lambda": 1.0, "normalize": False},
           "passthrough": {}}
PERMODEL = {"linear": {"weight": None}, "slerp": {}, "task_arithmetic": {"weight": None}, "passthrough": {"scale": None}}


def positive(s):
    """keep weights away from zero sums"""
    if isinstance(s, list):
        return [positive(x) for x in s]
    if isinstance(s, dict):
        return {**s, "value": positive(s["value"])}
    return abs(s) + 0.25


def in01(s):
    if isinstance(s, list):
        return [in01(x) for x in s]
    if isinstance(s, dict):
        return {**s, "value": in01(s["value"])}
    return abs(s) % 1.0


def choose(rng, f):
    return f(rand_setting(rng))


def total_setting(rng, f):
    """a setting that always yields a value"""
    s = choose(rng, f)
    if isinstance(s, dict):
        s = [s]
    if isinstance(s, list) and isinstance(s[0], dict):
        s = s + [{"value": f(rand_value(rng))}]
    return s


def build_config(rng, names, layers, method):
    n = len(names)
    base = rng.choice(names) if method in ("slerp", "task_arithmetic") else (rng.choice(names) if rng.random() < 0.3 and method == "linear" else None)
    cfg = {"merge_method": method}
    if base:
        cfg["base_model"] = base
    glob = {}
    if method == "slerp":
        glob["t"] = total_setting(rng, in01)
    if method in ("linear", "task_arithmetic"):
        if rng.random() < 0.5:
            glob["weight"] = total_setting(rng, positive)
        if rng.random() < 0.3:
            glob["normalize"] = rng.choice([0.0, 1.0])
    if method == "task_arithmetic" and rng.random() < 0.5:
        glob["lambda"] = rand_setting(rng)
    if method == "passthrough" and rng.random() < 0.4:
        glob["scale"] = rand_setting(rng)

    def per():
        if method in ("linear", "task_arithmetic") and ("weight" not in glob or rng.random() < 0.5):
            return {"weight": total_setting(rng, positive) if "weight" not in glob else choose(rng, positive)}
        if method == "passthrough" and rng.random() < 0.4:
            return {"scale": rand_setting(rng)}
        return None

    def entry(m, rng_=None):
        e = {"model": m}
        p = per()
        if rng_ is not None:
            e["layer_range"] = rng_
        if p is not None:
            e["parameters"] = p
        return e

    if glob:
        cfg["parameters"] = glob
    mode = rng.choice(["models", "slices", "modules", "modules-models"])
    if mode in ("models", "modules-models"):
        k = {"passthrough": 1, "slerp": 2}.get(method, n)
        ms = rng.sample(names, k)
        if method == "slerp" and base not in ms:
            ms = ms[:1]  # the base is added
        if method == "passthrough":
            ms = ms[:1]
        if method == "linear" and base and base not in ms:
            ms = ms + [base]
        if method == "task_arithmetic" and rng.random() < 0.4:
            ms = [m for m in ms if m != base] or ms
        if len({layers[m] for m in ms + ([base] if base else [])}) != 1:
            mode = "slices"
        else:
            body = {"models": [entry(m) for m in ms]}
    if mode in ("slices", "modules"):
        slices = []
        for _ in range(rng.randrange(1, 4)):
            k = {"passthrough": 1, "slerp": rng.choice([1, 2, 2])}.get(method, rng.randrange(1, n + 1))
            ms = rng.sample(names, k)
            sb = base
            sl = {}
            if base and rng.random() < 0.25:
                sb = rng.choice(names)
                sl["base_model"] = sb
            if method in ("slerp", "task_arithmetic") and sb not in ms:
                ms[rng.randrange(len(ms))] = sb
            ms = list(dict.fromkeys(ms))
            ln = rng.randrange(1, 1 + min(layers[m] for m in ms))
            sl["sources"] = []
            for m in ms:
                a = rng.randrange(0, layers[m] - ln + 1)
                sl["sources"].append(entry(m, [a, a + ln]))
            if method == "slerp" and rng.random() < 0.3:
                sl["parameters"] = {"t": choose(rng, in01)}
            if method == "linear" and rng.random() < 0.2:
                sl["parameters"] = {"weight": choose(rng, positive)}
            slices.append(sl)
        body = {"slices": slices}
    if mode.startswith("modules"):
        if rng.random() < 0.4 and method == "slerp":
            body["parameters"] = {"t": choose(rng, in01)}
        cfg["modules"] = {"default": body}
    else:
        cfg.update(body)
    return cfg, base, mode


def o_merge(cfg, data, layers, out_dtype):
    """independent evaluation of a configuration"""
    method = cfg["merge_method"]
    gbase = cfg.get("base_model")
    mod = (cfg.get("modules") or {}).get("default")
    body = mod or cfg
    if body.get("models"):
        ms = body["models"]
        names = [m["model"] for m in ms]
        sources = [dict(m, layer_range=[0, layers[m["model"]]]) for m in ms]
        if gbase and gbase not in names:
            sources.append({"model": gbase, "layer_range": [0, layers[gbase]]})
        slices = [{"sources": sources}]
    else:
        slices = body["slices"]

    def tensor(out_name, sl, in_names, t):
        base = sl.get("base_model") or gbase
        chain = [(sl.get("parameters") or {}), ((mod or {}).get("parameters") or {}), (cfg.get("parameters") or {})]
        glob = {p: resolve([c.get(p) for c in chain], out_name, t, d) for p, d in GLOBALS[method].items()}
        xs, per, bi = [], [], None
        present = []
        for s, nm in zip(sl["sources"], in_names):
            d = data[s["model"]]
            have = nm if nm in d else ("model.embed_tokens.weight" if nm == "lm_head.weight" else None)
            present.append(nm in d)
            if s["model"] == base:
                bi = len(xs)
            xs.append(d[have])
            per.append({p: resolve([c.get(p) for c in [(s.get("parameters") or {})] + chain], nm, t, dv)
                        for p, dv in PERMODEL[method].items()})
        if not any(present):
            return None
        return o_combine(method, xs, bi, glob, per)

    out = {}
    first, last = slices[0], slices[-1]
    out["model.embed_tokens.weight"] = tensor("model.embed_tokens.weight", first, ["model.embed_tokens.weight"] * len(first["sources"]), 0)
    o = 0
    for sl in slices:
        n = sl["sources"][0]["layer_range"][1] - sl["sources"][0]["layer_range"][0]
        for k in range(n):
            t = k / (n - 1) if n > 1 else 1
            for w in LAYER:
                on = f"model.layers.{o}.{w}"
                out[on] = tensor(on, sl, [f"model.layers.{s['layer_range'][0] + k}.{w}" for s in sl["sources"]], t)
            o += 1
    for w in ("model.norm.weight", "lm_head.weight"):
        out[w] = tensor(w, last, [w] * len(last["sources"]), 0)
    return {k: v for k, v in out.items() if v is not None}, o


@case("P06", "2-3 tiny Llama checkpoints of 1-4 layers (sharded, .bin or safetensors, tied or untied heads), linear / "
      "passthrough / slerp / task_arithmetic, models / slices / modules, filters and gradients", quick=150, deep=2000, limit=100)
def merged_checkpoint_matches_configuration(rng, i, note):
    g = torch.Generator()
    g.manual_seed(rng.randrange(1 << 30))
    with scratch() as d:
        n = rng.randrange(2, 4)
        names = [os.path.join(d, x) for x in ["m-a", "m-b", "m-c"][:n]]
        same = rng.random() < 0.5
        L = rng.randrange(1, 5)
        layers = {m: L if same else rng.randrange(1, 5) for m in names}
        in_dt = rng.choice([torch.float32, torch.float32, torch.float16])
        data = {m: write_model(m, g, rng, layers[m], in_dt, head=rng.random() < 0.75) for m in names}
        method = rng.choice(["linear", "passthrough", "slerp", "task_arithmetic"])
        cfg, base, mode = build_config(rng, names, layers, method)
        cfg["dtype"] = "float32"
        od = rng.choice([None, "float32", "bfloat16", "float16"])
        if od:
            cfg["out_dtype"] = od
        note(dict(cfg=cfg, layers=layers))
        opts = dict(out_shard_size=rng.choice([1, 200, 1000, 10**9]), safe_serialization=rng.random() < 0.8, quiet=True,
                    clone_tensors=rng.random() < 0.3, write_model_card=rng.random() < 0.3, copy_tokenizer=False,
                    lazy_unpickle=rng.random() < 0.5, async_write=rng.random() < 0.3, write_threads=rng.choice([1, 2]))
        want, nl = o_merge(cfg, data, layers, od)
        conf = MergeConfiguration.model_validate(yaml.safe_load(yaml.dump(cfg)))
        out = os.path.join(d, "out")
        run_merge(conf, out, MergeOptions(**opts))
        got = read_out(out)
        assert set(got) == set(want), f"missing {sorted(set(want) - set(got))}, unexpected {sorted(set(got) - set(want))}"
        tol = {None: 1e-4, "float32": 1e-4, "bfloat16": 0.02, "float16": 3e-3}[od]
        odt = getattr(torch, od or "float32")
        for k in want:
            v = got[k]
            assert v.dtype == odt, f"{k} has dtype {v.dtype}"
            x = v.double().numpy()
            assert x.shape == want[k].shape, f"{k}: shape {x.shape}"
            m = max(1.0, np.abs(want[k]).max())
            assert np.isfinite(x).all() and np.abs(x - want[k]).max() <= tol * 4 * m, (
                f"{k}: got {x.reshape(-1)[:4].tolist()}, expected {want[k].reshape(-1)[:4].tolist()}")
        with open(os.path.join(out, "config.json")) as f:
            oc = json.load(f)
        assert oc["num_hidden_layers"] == nl, f"config.json says {oc['num_hidden_layers']} layers, checkpoint has {nl}"
        assert oc["architectures"] == ["LlamaForCausalLM"]
        dt = oc.get("dtype", oc.get("torch_dtype"))
        assert dt == (od or "float32"), f"config.json says dtype {dt}"
        if opts["write_model_card"]:
            assert os.path.exists(os.path.join(out, "README.md")) and os.path.exists(os.path.join(out, "mergekit_config.yml"))
            with open(os.path.join(out, "mergekit_config.yml")) as f:
                MergeConfiguration.model_validate(yaml.safe_load(f))


@case("P06", "invalid configurations are refused", quick=60, deep=300)
def inconsistent_configuration_refused(rng, i, note):
    g = torch.Generator()
    g.manual_seed(rng.randrange(1 << 30))
    with scratch() as d:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        layers = {a: 3, b: 2}
        for m in (a, b):
            write_model(m, g, rng, layers[m])
        kind = rng.randrange(4)
        if kind == 0:  # slices of different length
            cfg = {"merge_method": "linear", "parameters": {"weight": 1.0}, "slices": [{"sources": [
                {"model": a, "layer_range": [0, 3]}, {"model": b, "layer_range": [0, 2]}]}]}
        elif kind == 1:  # models with different numbers of layers
            cfg = {"merge_method": "linear", "parameters": {"weight": 1.0}, "models": [{"model": a}, {"model": b}]}
        elif kind == 2:  # missing required parameter
            cfg = {"merge_method": "linear", "models": [{"model": a, "parameters": {"weight": 1.0}}]}
            cfg["models"].append({"model": a + "/../a"})
        else:  # layer that does not exist
            cfg = {"merge_method": "passthrough", "slices": [{"sources": [{"model": b, "layer_range": [1, 3]}]}]}
        note(dict(cfg=cfg))
        out = os.path.join(d, "out")
        try:
            run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(quiet=True, copy_tokenizer=False, write_model_card=False))
        except Exception:
            return
        raise AssertionError("an impossible configuration was merged without an error")
