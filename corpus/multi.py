"""Run-time contracts of interdependent merges (P14) and of the LoRA merge cache (P18)."""

import contextlib
import json
import os
import shutil
import sys
import tempfile

import numpy as np
import safetensors.torch
import torch
import yaml
from click.testing import CliRunner

import mergekit.scripts.multimerge as mm
from mergekit.common import ModelReference
from mergekit.config import MergeConfiguration
from mergekit.graph import Executor
from mergekit.io.tasks import LoaderCache
from mergekit.options import MergeOptions
from pyvc.rt import Skip, case


@contextlib.contextmanager
def scratch(prefix="vfmulti"):
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield d
    finally:
        LoaderCache().loaders.clear()
        shutil.rmtree(d, ignore_errors=True)


def gen(rng):
    g = torch.Generator()
    g.manual_seed(rng.randrange(1 << 30))
    return g


class Crash(BaseException):
    pass


def rand_docs(rng, inter, leaves, spaces=True):
    """random acyclic set of recipes, shuffled -> docs, deps (name -> set of names)"""
    n = rng.randrange(1, 6)
    names = [f"mix{j}" + (rng.choice(["", " v2", "-x", ".y"]) if spaces else "") for j in range(n)]
    if spaces and rng.random() < 0.2:
        # names that read like other values of a recipe
        words = ["linear", "float32", "union", "base", "chatml", "model_token", "auto"]
        for j in range(n):
            if rng.random() < 0.6:
                names[j] = words.pop(rng.randrange(len(words)))
    if rng.random() < 0.7:
        names[-1] = None
    docs, deps = [], {}
    for j, nm in enumerate(names):
        prev = [x for x in names[:j] if x is not None]
        used = set()

        def ref():
            if prev and rng.random() < 0.6:
                x = rng.choice(prev)
                used.add(x)
                return x
            return rng.choice(leaves)

        def as_ref(r):
            k = rng.random()
            if k < 0.15:
                return {"model": {"path": r}}
            if k < 0.25:
                return {"model": r, "override_architecture": "LlamaForCausalLM"}
            if k < 0.32 and " " not in r:
                return {"model": {"path": r, "revision": "main"}}
            if k < 0.4:
                return {"model": r, "lora": rng.choice(["ada/pter", {"path": "ada/pter", "revision": "r2"}, "my adapter"])}
            if k < 0.5 and " " not in r:
                return rng.choice([r + "+ada/pter", r + "+ada/pter@r3", r + "@main+ada/pter", r + "@v1"])
            return r

        refs = [ref() for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.4:
            doc = {"merge_method": "linear", "slices": [{"sources": [{"model": as_ref(r), "layer_range": [0, 1], "parameters": {"weight": 1.0}} for r in refs]}]}
        else:
            doc = {"merge_method": "linear", "models": [{"model": as_ref(r), "parameters": {"weight": 1.0}} for r in refs]}
        if rng.random() < 0.4:
            doc["base_model"] = as_ref(ref())
        if rng.random() < 0.3:
            doc["tokenizer"] = {"source": rng.choice(["union", "base"]), "tokens": {"<t>": {"source": {"kind": "model_token", "model": as_ref(ref()), "token_id": 1}}}}
        elif rng.random() < 0.3:
            # as a tokenizer source "union" and "base" are keywords
            s0 = set(used)
            r = ref()
            if r in ("union", "base"):
                used.clear()
                used.update(s0)
            else:
                doc["tokenizer_source"] = as_ref(r)
        if rng.random() < 0.3:
            doc["chat_template"] = rng.choice(["auto", "chatml", "{{ bos + a + b + c @ d @ e }}"])
        if rng.random() < 0.3:
            doc["dtype"] = "float32"
        docs.append((nm, doc))
        deps[nm] = used
    rng.shuffle(docs)
    return docs, deps


def refs_of(cfg):
    """every model path in a parsed configuration, with its multiplicity"""
    out = []

    def walk(v):
        if isinstance(v, ModelReference):
            out.append((v.model.path, v.model.revision, v.override_architecture, v.lora and (v.lora.path, v.lora.revision)))
        elif isinstance(v, dict):
            for x in v.values():
                walk(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(x)
        elif hasattr(v, "model_fields_set"):
            for k in type(v).model_fields:
                walk(getattr(v, k))

    walk(cfg)
    return out


def to_text(docs):
    return "\n---\n".join(yaml.safe_dump({**d, **({"name": n} if n is not None else {})}) for n, d in docs)


@case("P14", "up to 5 interdependent recipes in any order; crash of any one merge followed by a rerun", quick=300, deep=4000)
def merges_run_after_what_they_use(rng, i, note):
    with scratch() as d:
        inter, final = os.path.join(d, rng.choice(["inter", "inter dir"])), os.path.join(d, "final")
        os.makedirs(inter)
        leaves = ["leaf/a", "leaf/b"]
        docs, deps = rand_docs(rng, inter, leaves)
        text = to_text(docs)
        lazy = rng.random() < 0.7
        crash_at = rng.choice([None, rng.randrange(len(docs))])
        note(dict(text=text, lazy=lazy, crash_at=crash_at))
        where = {n: (os.path.join(inter, n) if n is not None else final) for n, _ in docs}
        back = {v: k for k, v in where.items()}
        log, runs = [], []

        def done(p):
            return os.path.exists(os.path.join(p, "config.json")) and os.path.exists(os.path.join(p, "model.safetensors"))

        def fake_merge(cfg, out_path, options=None, **kw):
            nm = back[out_path]
            log.append(nm)
            orig = MergeConfiguration.model_validate(dict(docs)[nm])
            want = [((where[x[0]] if x[0] in where else x[0]), *x[1:]) for x in refs_of(orig)]
            got = refs_of(cfg)
            assert got == want, f"recipe {nm}: models {got}, expected {want}"
            assert cfg.chat_template == orig.chat_template and cfg.merge_method == orig.merge_method and cfg.dtype == orig.dtype
            for p in deps[nm]:
                assert done(where[p]), f"{nm} started before {p} was complete"
                assert not lazy or log.count(p) <= 1
            os.makedirs(out_path, exist_ok=True)
            with open(os.path.join(out_path, "model-1.safetensors"), "w") as f:
                f.write("x")
            if crash_at is not None and len(log) - 1 == crash_at and not runs:
                raise Crash()
            os.rename(os.path.join(out_path, "model-1.safetensors"), os.path.join(out_path, "model.safetensors"))
            with open(os.path.join(out_path, "config.json"), "w") as f:
                f.write("{}")

        old = mm.run_merge
        mm.run_merge = fake_merge
        try:
            def go():
                cfgs, dd = mm.load_config(text, inter)
                assert {n: set(v) for n, v in dd.items()} == deps, f"dependencies {dd}, expected {deps}"
                tasks = mm.make_tasks(cfgs, dd, MergeOptions(), inter, final, lazy)
                Executor(tasks, math_device="cpu", storage_device="cpu").execute()
            try:
                go()
            except Crash:
                pass
            first = list(log)
            if crash_at is None:
                assert sorted(map(str, first)) == sorted(map(str, where)), f"ran {first}"
            else:
                runs.append(1)
                log.clear()
                go()
                whole = first[:-1] if lazy else []
                assert sorted(map(str, log)) == sorted(map(str, set(where) - set(whole))), f"after a crash in {first[-1]!r}: reran {log}"
        finally:
            mm.run_merge = old
        for n, p in where.items():
            assert done(p), f"{n} was never produced"


@case("P14", "invalid sets of recipes", quick=60, deep=300)
def invalid_recipe_sets_refused(rng, i, note):
    with scratch() as d:
        kind = ["cycle", "self", "dup", "two_unnamed", "no_out"][i % 5]
        def doc(*refs):
            return {"merge_method": "linear", "models": [{"model": r, "parameters": {"weight": 1.0}} for r in refs]}
        if kind == "cycle":
            n = rng.randrange(2, 5)
            docs = [(f"c{j}", doc("leaf", f"c{(j + 1) % n}")) for j in range(n)] + [("ok", doc("leaf"))]
        elif kind == "self":
            docs = [("a", doc("a"))]
        elif kind == "dup":
            docs = [("a", doc("x")), ("b", doc("y")), ("a", doc("z"))]
        elif kind == "two_unnamed":
            docs = [(None, doc("x")), ("b", doc("y")), (None, doc("z"))]
        else:
            docs = [(None, doc("x")), ("b", doc("y"))]
        if kind != "no_out":
            rng.shuffle(docs)
        text = to_text(docs)
        note(dict(kind=kind, text=text))
        ran = []

        def fake(cfg, out_path, options=None, **kw):
            ran.append(out_path)
            os.makedirs(out_path, exist_ok=True)

        fp = os.path.join(d, "c.yml")
        with open(fp, "w") as f:
            f.write(text)
        old = mm.run_merge
        mm.run_merge = fake
        try:
            r = CliRunner().invoke(mm.main, [fp, "-I", os.path.join(d, "inter")] + ([] if kind == "no_out" else ["--out-path", os.path.join(d, "o")]))
        finally:
            mm.run_merge = old
        assert r.exit_code != 0 and not isinstance(r.exception, KeyError), f"{kind}: accepted ({r.output})"
        assert not ran, f"{kind}: merges ran before the set was refused"


H, V, I = 4, 7, 6
LAYER = {
    "input_layernorm.weight": (H,), "self_attn.q_proj.weight": (H, H), "self_attn.k_proj.weight": (H, H),
    "self_attn.v_proj.weight": (H, H), "self_attn.o_proj.weight": (H, H), "post_attention_layernorm.weight": (H,),
    "mlp.up_proj.weight": (I, H), "mlp.gate_proj.weight": (I, H), "mlp.down_proj.weight": (H, I),
}


def write_model(path, g, dtype="float32"):
    os.makedirs(path)
    t = {"model.embed_tokens.weight": (V, H), "model.norm.weight": (H,), "lm_head.weight": (V, H)}
    t.update({f"model.layers.0.{n}": s for n, s in LAYER.items()})
    tensors = {n: torch.randn(s, generator=g).to(getattr(torch, dtype)) for n, s in t.items()}
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump(dict(architectures=["LlamaForCausalLM"], model_type="llama", hidden_size=H, intermediate_size=I, num_attention_heads=2,
                       num_key_value_heads=2, num_hidden_layers=1, vocab_size=V, tie_word_embeddings=False, torch_dtype=dtype), f)
    safetensors.torch.save_file(tensors, os.path.join(path, "model.safetensors"), metadata={"format": "pt"})
    return {k: v.double().numpy() for k, v in tensors.items()}


def read_out(path):
    res = {}
    for fn in sorted(os.listdir(path)):
        if fn.endswith(".safetensors"):
            for k, v in safetensors.torch.load_file(os.path.join(path, fn)).items():
                assert k not in res, f"{k} in two files of {path}"
                res[k] = v.double().numpy()
    return res


CRASH_POINTS = ["save_file", "rename", "open_w", "config"]


def killed_after(points, k, body):
    """run body in a child that dies (like a power cut) at the k-th disk effect, leaving a torn file behind"""
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            n = [0]

            def tick(partial=None):
                n[0] += 1
                if n[0] == k:
                    if partial:
                        with open(partial, "wb") as f:
                            f.write(b"torn")
                    os._exit(7)

            import safetensors.torch as st
            real_save, real_rename, real_torch_save = st.save_file, os.rename, torch.save

            def save_file(t, fn, *a, **kw):
                tick(str(fn))
                real_save(t, fn, *a, **kw)
                tick()

            def rename(a, b):
                tick()
                real_rename(a, b)
                tick()

            st.save_file = save_file
            os.rename = rename
            import transformers

            rc = transformers.PretrainedConfig.save_pretrained

            def sp(self, *a, **kw):
                tick()
                rc(self, *a, **kw)
                tick()

            transformers.PretrainedConfig.save_pretrained = sp
            import transformers.modeling_utils as mu

            for mod in (mu,):
                if hasattr(mod, "safe_save_file"):
                    mod.safe_save_file = save_file
            body()
            os._exit(0)
        except BaseException as e:
            if os.environ.get("VF_DEBUG"):
                import traceback
                with open("/tmp/vf_child.txt", "w") as f:
                    traceback.print_exc(file=f)
            os._exit(9)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


@case("P14", "a chain or diamond of real merges killed at any of its first 24 disk effects, then run again", quick=24, deep=120, limit=150)
def killed_multimerge_resumes_correctly(rng, i, note):
    g = gen(rng)
    with scratch() as d:
        A, B = os.path.join(d, "A"), os.path.join(d, "B")
        a, b = write_model(A, g), write_model(B, g)
        diamond = rng.random() < 0.5
        wa, wb = round(rng.uniform(0.2, 2), 2), round(rng.uniform(0.2, 2), 2)

        def doc(name, *mw, **kw):
            return {"merge_method": "linear", "models": [{"model": m, "parameters": {"weight": w}} for m, w in mw], "parameters": {"normalize": False}, **({"name": name} if name else {}), **kw}

        docs = [doc("one", (A, wa), (B, wb)), doc("two", ("one", 0.5), (A, 1.0))]
        one = {k: wa * a[k] + wb * b[k] for k in a}
        two = {k: 0.5 * one[k] + a[k] for k in a}
        if diamond:
            docs.append(doc(None, ("one", 1.0), ("two", -0.5)))
            fin = {k: one[k] - 0.5 * two[k] for k in a}
        else:
            docs.append(doc(None, ("two", 2.0), (B, 1.0)))
            fin = {k: 2 * two[k] + b[k] for k in a}
        rng.shuffle(docs)
        fp = os.path.join(d, "c.yml")
        with open(fp, "w") as f:
            f.write("\n---\n".join(yaml.safe_dump(x) for x in docs))
        inter, out = os.path.join(d, "i"), os.path.join(d, "o")
        args = [fp, "-I", inter, "--out-path", out, "--no-write-model-card", "--quiet", "--out-shard-size", rng.choice(["1B", "1M"])]
        k = i + 1 if i < 24 else rng.randrange(1, 60)
        note(dict(diamond=diamond, killed_at=k, args=args[4:]))

        def body():
            mm.main(args, standalone_mode=False)

        rc = killed_after(None, k, body)
        assert rc in (0, 7), f"first run failed (exit {rc})"
        r = CliRunner().invoke(mm.main, args)
        if r.exception is not None:
            raise AssertionError(f"rerun after a crash failed: {r.exception!r}")
        for path, want in ((os.path.join(inter, "one"), one), (os.path.join(inter, "two"), two), (out, fin)):
            idx = os.path.join(path, "model.safetensors.index.json")
            got = {}
            if os.path.exists(idx):
                with open(idx) as f:
                    wm = json.load(f)["weight_map"]
                for fn in set(wm.values()):
                    x = safetensors.torch.load_file(os.path.join(path, fn))
                    got.update({n: x[n].double().numpy() for n in wm if wm[n] == fn})
            else:
                got = {n: v.double().numpy() for n, v in safetensors.torch.load_file(os.path.join(path, "model.safetensors")).items()}
            assert set(got) == set(want), f"{os.path.basename(path)}: incomplete after the rerun"
            for n in want:
                assert np.allclose(got[n], want[n], rtol=1e-4, atol=1e-4), f"{os.path.basename(path)}: {n} is wrong after the rerun"


# ------------------------------------------------------------------ LoRA cache


def write_lora(path, g, rank=2):
    os.makedirs(path)
    mods = ["q_proj", "down_proj"]
    with open(os.path.join(path, "adapter_config.json"), "w") as f:
        json.dump(dict(peft_type="LORA", task_type="CAUSAL_LM", r=rank, lora_alpha=rank * 2, target_modules=mods, lora_dropout=0.0,
                       bias="none", fan_in_fan_out=False, inference_mode=True, base_model_name_or_path="x"), f)
    t = {}
    for m, par in (("q_proj", "self_attn"), ("down_proj", "mlp")):
        o, i = LAYER[f"{par}.{m}.weight"]
        t[f"base_model.model.model.layers.0.{par}.{m}.lora_A.weight"] = torch.randn(rank, i, generator=g)
        t[f"base_model.model.model.layers.0.{par}.{m}.lora_B.weight"] = torch.randn(o, rank, generator=g)
    safetensors.torch.save_file(t, os.path.join(path, "adapter_model.safetensors"), metadata={"format": "pt"})
    d = {}
    for m, par in (("q_proj", "self_attn"), ("down_proj", "mlp")):
        pre = f"base_model.model.model.layers.0.{par}.{m}"
        d[f"model.layers.0.{par}.{m}.weight"] = 2.0 * (t[pre + ".lora_B.weight"].double() @ t[pre + ".lora_A.weight"].double()).numpy()
    return d


def check_merged(ref, base, delta, dtype=None):
    p = ref.model.path
    got = safetensors.torch.load_file(os.path.join(p, "model.safetensors"))
    tol = 1e-4 if dtype in (None, "float32") else 6e-2
    assert set(base) <= set(got), "merged model is incomplete"
    for n in base:
        want = base[n] + delta.get(n, 0)
        assert np.allclose(got[n].double().numpy(), want, rtol=tol, atol=tol), f"{n} is not base + adapter"
        if dtype:
            assert got[n].dtype == getattr(torch, dtype), f"{n}: {got[n].dtype}, asked for {dtype}"


@case("P18", "2 base models, 2 adapters, 3 dtypes, up to 6 requests in any order against one cache", quick=25, deep=150, limit=120)
def cache_returns_the_requested_merge(rng, i, note):
    g = gen(rng)
    with scratch("vflora") as d:
        bases, loras = {}, {}
        for j in range(2):
            # same directory names under different parents
            p = os.path.join(d, f"p{j}", "model")
            bases[p] = write_model(p, g)
            q = os.path.join(d, f"q{j}", "lora")
            loras[q] = write_lora(q, g)
        cache = os.path.join(d, "cache")
        reqs = [(rng.choice(list(bases)), rng.choice([None] + list(loras) * 2), rng.choice([None, "float32", "bfloat16"])) for _ in range(rng.randrange(1, 7))]
        note(reqs)
        for b, l, dt in reqs:
            ref = ModelReference.model_validate({"model": b, "lora": l} if l else {"model": b})
            if l is None:
                assert ref.merged(cache_dir=cache, lora_merge_dtype=dt) == ref, "a model without adapter was changed"
                continue
            m = ref.merged(cache_dir=cache, lora_merge_dtype=dt)
            assert m.lora is None
            check_merged(m, bases[b], loras[l], dt)
        ref = ModelReference.model_validate({"model": list(bases)[0], "lora": list(loras)[0]})
        try:
            ref.merged(cache_dir=None)
        except RuntimeError:
            pass
        else:
            raise AssertionError("merged an adapter with no place to put it")


@case("P18", "adapter merge killed at any of its first 12 disk effects, or failing with an error, then requested again", quick=14, deep=60, limit=120)
def interrupted_adapter_merge_is_not_reused(rng, i, note):
    g = gen(rng)
    with scratch("vflora") as d:
        b, l, cache = os.path.join(d, "b"), os.path.join(d, "l"), os.path.join(d, "cache")
        base, delta = write_model(b, g), write_lora(l, g)
        ref = ModelReference.model_validate({"model": b, "lora": l})
        k = i % 14
        note(dict(killed_at=k))
        if k == 0:
            # the adapter is missing at first
            shutil.move(l, l + "x")
            try:
                ref.merged(cache_dir=cache)
            except Exception:
                pass
            else:
                raise AssertionError("merged a missing adapter")
            shutil.move(l + "x", l)
        else:
            rc = killed_after(None, k, lambda: ref.merged(cache_dir=cache))
            assert rc in (0, 7), f"first attempt failed ({rc})"
        m = ref.merged(cache_dir=cache)
        check_merged(m, base, delta)


@case("P18", "up to 10 requests over 3 bases, 3 adapters, 3 revisions of each and 3 dtypes (model loading replaced by a recorder)",
      deep=600)
def distinct_requests_use_distinct_entries(rng, i, note):
    """what a request resolves to was computed for exactly that request"""
    import mergekit.common as C

    class Model:
        def __init__(self, key):
            self.key = key

        def merge_and_unload(self):
            return self

        def save_pretrained(self, path, **kw):
            os.makedirs(path, exist_ok=True)
            with open(os.path.join(path, "key.json"), "w") as f:
                json.dump(self.key, f)

    class Auto:
        @staticmethod
        def from_pretrained(path, revision=None, torch_dtype=None, **kw):
            dt = kw.get("dtype", torch_dtype)
            return Model([path, revision, None if dt is None else str(dt)])

    class Peft:
        @staticmethod
        def from_pretrained(model, path, revision=None, **kw):
            return Model(model.key + [path, revision])

    saved = {}

    def patch(o, n, v):
        if not hasattr(o, n):
            raise Skip(f"{n} not there")
        saved[(o, n)] = o.__dict__[n] if n in o.__dict__ else getattr(o, n)
        setattr(o, n, v)

    with scratch("vflora") as d:
        try:
            patch(C, "get_auto_cls", lambda *a, **k: Auto)
            patch(C.peft.PeftModel, "from_pretrained", staticmethod(Peft.from_pretrained))
            patch(C.ModelReference, "config", lambda self, *a, **k: type("Cfg", (), {"architectures": ["LlamaForCausalLM"]})())
            names = ["x/base", "y/base", "base"]
            adapters = ["x/ad", "y/ad", "ad"]
            revs = [None, "v1", "v2"]
            for _ in range(rng.randrange(2, 11)):
                b, l = rng.choice(names), rng.choice(adapters)
                rb, rl = rng.choice(revs), rng.choice(revs)
                dt = rng.choice([None, "float16", "bfloat16"])
                note([b, rb, l, rl, dt])
                ref = ModelReference.model_validate({"model": {"path": b, "revision": rb}, "lora": {"path": l, "revision": rl}})
                m = ref.merged(cache_dir=d, lora_merge_dtype=dt)
                with open(os.path.join(m.model.path, "key.json")) as f:
                    key = json.load(f)
                want = [b, rb, f"torch.{dt}" if dt else None, l, rl]
                assert key == want, f"asked for {want}, got the merge made for {key}"
        finally:
            for (o, n), v in saved.items():
                setattr(o, n, v)
