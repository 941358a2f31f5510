"""Run-time contracts of mixture-of-experts construction (P13)."""

import contextlib
import json
import math
import os
import shutil
import tempfile
import warnings

import numpy as np
import safetensors.torch
import torch
import transformers

from mergekit.io.tasks import LoaderCache
from mergekit.moe import ALL_OUTPUT_ARCHITECTURES
from mergekit.moe.config import MoEMergeConfig, is_bad_config
from mergekit.moe.router import get_gate_params
from mergekit.options import MergeOptions
from mergekit.scripts.moe import build, select_output_arch
from pyvc.rt import Skip, case

from corpus.tokenizer import SPECIAL, make_tokenizer

transformers.logging.set_verbosity_error()
H, I, V, HEADS = 8, 6, 12, 2


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vfmoe")
    try:
        yield d
    finally:
        LoaderCache().loaders.clear()
        shutil.rmtree(d, ignore_errors=True)


def gen(rng):
    g = torch.Generator()
    g.manual_seed(rng.randrange(1 << 30))
    return g


ARCHN = dict(llama="LlamaForCausalLM", mistral="MistralForCausalLM", qwen2="Qwen2ForCausalLM", qwen3="Qwen3ForCausalLM")


def write_model(path, g, rng, mt, layers, head=True, dtype="float32"):
    os.makedirs(path)
    cfg = dict(architectures=[ARCHN[mt]], model_type=mt, hidden_size=H, intermediate_size=I, num_attention_heads=HEADS,
               num_key_value_heads=1, head_dim=H // HEADS, num_hidden_layers=layers, vocab_size=V, tie_word_embeddings=not head, torch_dtype=dtype,
               max_position_embeddings=64, rms_norm_eps=1e-6, bos_token_id=1, eos_token_id=2)
    kv = H // HEADS
    L = {"input_layernorm.weight": (H,), "self_attn.q_proj.weight": (H, H), "self_attn.k_proj.weight": (kv, H),
         "self_attn.v_proj.weight": (kv, H), "self_attn.o_proj.weight": (H, H), "post_attention_layernorm.weight": (H,),
         "mlp.up_proj.weight": (I, H), "mlp.gate_proj.weight": (I, H), "mlp.down_proj.weight": (H, I)}
    if mt == "qwen2":
        L.update({"self_attn.q_proj.bias": (H,), "self_attn.k_proj.bias": (kv,), "self_attn.v_proj.bias": (kv,)})
    if mt == "qwen3":
        L.update({"self_attn.q_norm.weight": (kv,), "self_attn.k_norm.weight": (kv,)})
    t = {"model.embed_tokens.weight": (V, H), "model.norm.weight": (H,)}
    if head:
        t["lm_head.weight"] = (V, H)
    for l in range(layers):
        t.update({f"model.layers.{l}.{n}": s for n, s in L.items()})
    tensors = {n: torch.randn(s, generator=g).to(getattr(torch, dtype)) for n, s in t.items()}
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump(cfg, f)
    safetensors.torch.save_file(tensors, os.path.join(path, "model.safetensors"), metadata={"format": "pt"})
    return tensors


def read_out(path):
    res = {}
    for fn in sorted(os.listdir(path)):
        if fn.endswith(".safetensors"):
            d = safetensors.torch.load_file(os.path.join(path, fn))
        elif fn.endswith(".bin"):
            d = torch.load(os.path.join(path, fn), weights_only=True)
        else:
            continue
        for k, v in d.items():
            assert k not in res, f"{k} written twice"
            res[k] = v
    return res


def rand_expert(rng, path, prompts=False):
    e = {"source_model": path}
    if rng.random() < 0.4:
        e["residual_scale"] = rng.choice([0.0, 0.5, 2.0, -1.0])
    if rng.random() < 0.25:
        e["noise_scale"] = rng.choice([0.0, 1e-3])
    return e


def o_expert(x, e, residual):
    """-> (value, tolerance)"""
    x = x.float()
    tol = 0.0
    if e.get("noise_scale") is not None:
        tol = e["noise_scale"] * 12
    if residual and e.get("residual_scale") is not None:
        x = x * e["residual_scale"]
        tol = tol * abs(e["residual_scale"])
    return x, tol


def near(a, b, tol, what):
    assert a.shape == b.shape, f"{what}: shape {tuple(a.shape)}, expected {tuple(b.shape)}"
    if not torch.allclose(a.float(), b.float(), rtol=1e-2 if a.dtype != torch.float32 else 1e-5, atol=tol + (1e-2 if a.dtype != torch.float32 else 1e-6)):
        raise AssertionError(f"{what}: not the weights it is documented to hold")


def arch_by(name):
    for a in ALL_OUTPUT_ARCHITECTURES:
        if a.name() == name:
            return a
    raise Skip(name)


SETUPS = [("Mixtral", "llama"), ("Mixtral", "mistral"), ("DeepSeek MoE", "llama"), ("DeepSeek MoE", "mistral"), ("Qwen MoE", "qwen2"),
          ("Qwen MoE", "llama"), ("Qwen3 MoE", "qwen3")]


@case("P13", "every output architecture, 1-4 experts drawn with repetition from 3 models, 1-3 layers, shared experts, residual scale, noise", quick=200, deep=2000, limit=150)
def written_model_holds_the_experts(rng, i, note):
    g = gen(rng)
    oname, mt = SETUPS[i % len(SETUPS)]
    arch = arch_by(oname)
    with scratch() as d:
        layers = rng.randrange(1, 4)
        head = rng.random() < 0.7
        in_dt = rng.choice(["float32", "float32", "bfloat16"])
        data = {}
        for j in range(4):
            p = os.path.join(d, f"m{j}")
            data[p] = write_model(p, g, rng, mt, layers, head, in_dt)
        paths = list(data)
        base = rng.choice(paths)
        n = rng.randrange(1, 5)
        experts = [rand_expert(rng, rng.choice(paths)) for _ in range(n)]
        cfg = {"base_model": base, "experts": experts, "gate_mode": "random", "experts_per_token": rng.randrange(1, n + 1)}
        shared = None
        if oname == "Qwen MoE" or (oname == "DeepSeek MoE" and rng.random() < 0.5):
            shared = rand_expert(rng, rng.choice(paths))
            cfg["shared_experts"] = [shared]
        out_dt = rng.choice([None, None, "bfloat16", "float32"])
        if out_dt:
            cfg["dtype"] = out_dt
        note(dict(arch=oname, model_type=mt, cfg=cfg, layers=layers, head=head))
        conf = MoEMergeConfig.model_validate(cfg)
        assert arch.supports_config(conf), "supported configuration refused"
        router = [torch.randn(n, H, generator=g) for _ in range(layers)]
        srouter = [torch.randn(1, H, generator=g) for _ in range(layers)]
        out = os.path.join(d, "out")
        arch.write_model(out, conf, MergeOptions(quiet=True, clone_tensors=rng.random() < 0.5, safe_serialization=True,
                                                 out_shard_size=rng.choice([10**9, 2000])), router_weights=router, shared_router_weights=srouter)
        got = read_out(out)
        want_dt = getattr(torch, out_dt or in_dt)
        for k, v in got.items():
            assert v.dtype == want_dt, f"{k}: {v.dtype}, expected {want_dt}"
        seen = set()

        def take(name):
            assert name in got, f"{name} is missing from the output"
            seen.add(name)
            return got[name]

        b = data[base]
        for k, v in b.items():
            if ".mlp." in k:
                continue
            near(take(k), v, 0, k)
        for l in range(layers):
            near(take(f"model.layers.{l}.mlp.gate.weight"), router[l], 0, f"router {l}")
            pre = f"model.layers.{l}.mlp"
            src = [{p: o_expert(data[e["source_model"]][f"{pre}.{p}.weight"], e, p == "down_proj") for p in ("gate_proj", "up_proj", "down_proj")} for e in experts]
            fused = f"{pre}.experts.gate_up_proj"
            if fused in got:
                gu, dn = take(fused), take(f"{pre}.experts.down_proj")
                assert gu.shape[0] == n and dn.shape[0] == n, "wrong number of experts"
                for j in range(n):
                    near(gu[j, :I], src[j]["gate_proj"][0], src[j]["gate_proj"][1], f"layer {l} expert {j} gate")
                    near(gu[j, I:], src[j]["up_proj"][0], src[j]["up_proj"][1], f"layer {l} expert {j} up")
                    near(dn[j], src[j]["down_proj"][0], src[j]["down_proj"][1], f"layer {l} expert {j} down")
            else:
                for j in range(n):
                    for p in ("gate_proj", "up_proj", "down_proj"):
                        near(take(f"{pre}.experts.{j}.{p}.weight"), src[j][p][0], src[j][p][1], f"layer {l} expert {j} {p}")
            if shared:
                sn = "shared_expert" if oname == "Qwen MoE" else "shared_experts"
                for p in ("gate_proj", "up_proj", "down_proj"):
                    w, tol = o_expert(data[shared["source_model"]][f"{pre}.{p}.weight"], shared, p == "down_proj")
                    near(take(f"{pre}.{sn}.{p}.weight"), w, tol, f"layer {l} shared expert {p}")
                if oname == "Qwen MoE":
                    near(take(f"{pre}.shared_expert_gate.weight"), srouter[l], 0, f"shared router {l}")
        for k in set(got) - seen:
            # architectures that need attention biases get zeros
            assert oname == "Qwen MoE" and k.endswith("_proj.bias") and not got[k].any(), f"unexpected tensor {k}"
        with open(os.path.join(out, "config.json")) as f:
            oc = json.load(f)
        ne = oc.get("num_local_experts", oc.get("num_experts", oc.get("n_routed_experts")))
        assert ne == n, f"the configuration says {ne} experts, {n} were written"
        assert oc["num_experts_per_tok"] == cfg["experts_per_token"], "experts_per_token not written"
        assert oc["num_hidden_layers"] == layers and oc["hidden_size"] == H
        if oname != "DeepSeek MoE" and i % 3 == 0:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m, info = transformers.AutoModelForCausalLM.from_pretrained(out, output_loading_info=True)
            miss = [k for k in info["missing_keys"] if head or "lm_head" not in k]
            assert not miss and not info["unexpected_keys"] and not info["mismatched_keys"], f"transformers cannot load it: {info}"


@case("P13", "up to 5 experts; embedding and hidden-state gates against a direct evaluation", quick=150, deep=1500, limit=150)
def gates_belong_to_their_experts(rng, i, note):
    g = gen(rng)
    with scratch() as d:
        layers = rng.randrange(1, 4)
        p = os.path.join(d, "m")
        data = write_model(p, g, rng, "llama", layers, True)
        words = [f"_w{j}" for j in range(V - 3)]
        tok = make_tokenizer(SPECIAL + words, [])
        tok.save_pretrained(p)
        tok = transformers.AutoTokenizer.from_pretrained(p)
        tok.padding_side = "left"
        tok.pad_token_id = tok.bos_token_id
        n = rng.randrange(1, 6)

        def prompts():
            return ["".join(rng.choice("abcd_w123 ") for _ in range(rng.randrange(1, 8))) for _ in range(rng.randrange(1, 4))]

        mode = rng.choice(["cheap_embed", "cheap_embed", "hidden", "hidden_last", "hidden_avg", "random", "uniform_random"])
        experts = [{"source_model": p, "positive_prompts": prompts(), **({"negative_prompts": prompts()} if rng.random() < 0.5 else {})} for _ in range(n)]
        note(dict(mode=mode, experts=experts))
        conf = MoEMergeConfig.model_validate({"base_model": p, "experts": experts, "gate_mode": mode, "experts_per_token": 1})
        got = get_gate_params(conf.base_model, tok, conf.experts, mode=mode, device="cpu")
        assert tuple(got.shape) == (layers, n, H), f"shape {tuple(got.shape)}, expected (layers, experts, hidden)"
        if mode == "random":
            return
        if mode == "uniform_random":
            assert got.abs().max() <= math.sqrt(1 / H) + 1e-6
            return
        model = None
        if mode != "cheap_embed":
            model = transformers.AutoModelForCausalLM.from_pretrained(p, torch_dtype=torch.bfloat16, device_map="cpu")
        emb = data["model.embed_tokens.weight"].double().numpy()

        def vec(ps):
            enc = tok([(tok.bos_token or "") + q for q in ps], return_tensors="pt", padding=True, add_special_tokens=False)
            if mode == "cheap_embed":
                v = np.zeros(H)
                for row, mask in zip(enc["input_ids"], enc["attention_mask"]):
                    for t, k in zip(row.tolist(), mask.tolist()):
                        if k:
                            v += emb[t]
                v = v / max(np.linalg.norm(v), 1e-8)
                return np.stack([v] * layers)
            with torch.no_grad():
                o = model(**enc, output_hidden_states=True)
            hs = torch.stack(o.hidden_states[:-1]).double()
            hs = hs.mean(dim=2) if mode == "hidden_avg" else hs[:, :, -1, :]
            return hs.mean(dim=1).numpy()

        for j, e in enumerate(experts):
            v = vec(e["positive_prompts"])
            if e.get("negative_prompts"):
                v = v - vec(e["negative_prompts"])
            nv = np.linalg.norm(v, axis=-1, keepdims=True)
            a = got[:, j, :].double().numpy()
            if (nv < 1e-3).any():
                continue
            assert np.allclose(a, v / nv, atol=1e-5 if mode == "cheap_embed" else 5e-2), f"gate of expert {j} is not computed from its prompts"


@case("P13", "end to end: routed and shared experts with prompts", quick=60, deep=600, limit=120)
def build_gives_each_expert_its_router_row(rng, i, note):
    g = gen(rng)
    with scratch() as d:
        oname, mt = rng.choice([s for s in SETUPS if s[0] in ("Mixtral", "Qwen MoE", "Qwen3 MoE")])
        layers = rng.randrange(1, 3)
        words = [f"_w{j}" for j in range(V - 3)]
        data, paths = {}, []
        for j in range(3):
            p = os.path.join(d, f"m{j}")
            data[p] = write_model(p, g, rng, mt, layers, True)
            make_tokenizer(SPECIAL + words, []).save_pretrained(p)
            paths.append(p)
        base = rng.choice(paths)
        n = rng.randrange(2, 5)

        def prompts(k):
            return ["".join(f"_w{(k * 3 + q) % (V - 3)}" for q in range(rng.randrange(1, 4)))]

        experts = [{"source_model": paths[j % 3], "positive_prompts": prompts(j)} for j in range(n)]
        cfg = {"base_model": base, "experts": experts, "gate_mode": "cheap_embed", "architecture": oname}
        if oname == "Qwen MoE":
            cfg["shared_experts"] = [{"source_model": rng.choice(paths), "positive_prompts": prompts(7)}]
        note(cfg)
        conf = MoEMergeConfig.model_validate(cfg)
        if is_bad_config(conf):
            raise Skip("prompts coincide")
        out = os.path.join(d, "out")
        build(conf, out, MergeOptions(quiet=True, device="cpu"), device="cpu")
        got = read_out(out)
        tok = transformers.AutoTokenizer.from_pretrained(base)
        emb = data[base]["model.embed_tokens.weight"].double().numpy()

        def gate(ps):
            v = np.zeros(H)
            for q in ps:
                for t in tok((tok.bos_token or "") + q, add_special_tokens=False)["input_ids"]:
                    v += emb[t]
            return v / np.linalg.norm(v)

        for l in range(layers):
            r = got[f"model.layers.{l}.mlp.gate.weight"].double().numpy()
            assert r.shape == (n, H)
            for j in range(n):
                assert np.allclose(r[j], gate(experts[j]["positive_prompts"]), atol=1e-5), f"layer {l}: router row {j} is not the gate of expert {j}"
            if oname == "Qwen MoE":
                s = got[f"model.layers.{l}.mlp.shared_expert_gate.weight"].double().numpy()
                assert s.shape == (1, H) and np.allclose(s[0], gate(cfg["shared_experts"][0]["positive_prompts"]), atol=1e-5), "shared expert gate"


@case("P13", "configurations of up to 4 experts", quick=300, deep=3000)
def useless_configuration_refused(rng, i, note):
    n = rng.randrange(0, 5)
    pp = [["a"], ["b"], ["a", "b"], [], None]

    def ex():
        return {"source_model": rng.choice(["x", "y"]), "positive_prompts": rng.choice(pp), "negative_prompts": rng.choice([None, None, ["c"]])}

    cfg = {"base_model": "x", "experts": [ex() for _ in range(n)], "gate_mode": rng.choice(["hidden", "random", "cheap_embed"]), "experts_per_token": rng.randrange(0, 4)}
    same_ok = rng.random() < 0.5
    note(dict(cfg=cfg, allow_all_same=same_ok))
    got = bool(is_bad_config(MoEMergeConfig.model_validate(cfg), allow_all_same=same_ok))
    E = cfg["experts"]
    if cfg["experts_per_token"] < 1 or n < cfg["experts_per_token"]:
        want = True
    elif cfg["gate_mode"] == "random":
        want = False
    else:
        want = any(not e["positive_prompts"] for e in E)
        if not want:
            key = [(tuple(e["positive_prompts"]), tuple(e["negative_prompts"] or [])) for e in E]
            want = all(k == key[0] for k in key[1:]) or (not same_ok and all(e["source_model"] == E[0]["source_model"] for e in E[1:]))
    assert got == want, f"is_bad_config = {got}, expected {want}"
