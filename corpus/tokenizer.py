"""Run-time contracts of tokenizer construction and embedding permutation (P10)."""

import contextlib
import json
import os
import shutil
import tempfile
from types import SimpleNamespace

import numpy as np
import safetensors.torch
import tokenizers
import torch
from transformers import LlamaTokenizerFast

from mergekit.common import ImmutableMap, ModelReference
from mergekit.config import MergeConfiguration
from mergekit.io.tasks import GatherTensors, LoaderCache
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from mergekit.tokenizer.build import BuildTokenizer
from mergekit.tokenizer.config import TokenEmbeddingConfig
from mergekit.tokenizer.embed import PermutedEmbeddings
from pyvc.rt import Skip, case


def gen(rng):
    g = torch.Generator()
    g.manual_seed(rng.randrange(1 << 30))
    return g


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vftok")
    try:
        yield d
    finally:
        LoaderCache().loaders.clear()
        shutil.rmtree(d, ignore_errors=True)


def o_embeddings(vocab, perms, embeds, base, tokens, original, pad):
    """vocab: token -> id; perms[m]: id -> old id or -1; embeds[m]: float64 array.
    tokens: token -> dict(source=None|"zero"|("model", m)|("token", m, old id), force)"""
    E = next(iter(embeds.values())).shape[1]
    n = len(vocab)
    rows = n if not pad or n % pad == 0 else (n // pad + 1) * pad
    out = {m: np.zeros((rows, E)) for m in embeds}
    for tok, tid in vocab.items():
        have = [m for m in embeds if perms[m][tid] >= 0]
        force = False
        if tok in tokens:
            src, force = tokens[tok]["source"], tokens[tok]["force"]
            if src == "zero":
                dflt = np.zeros(E)
            elif src[0] == "model":
                dflt = embeds[src[1]][perms[src[1]][tid]]
            else:
                dflt = embeds[src[1]][src[2]]
        elif not have:
            dflt = np.zeros(E)
        elif len(have) == 1:
            dflt = embeds[have[0]][perms[have[0]][tid]]
        elif base is not None and base in have:
            dflt = embeds[base][perms[base][tid]]
        else:
            dflt = sum(embeds[m][perms[m][tid]] for m in have) / len(have)
        for m in embeds:
            out[m][tid] = dflt if (force or perms[m][tid] < 0) else embeds[m][perms[m][tid]]
    for m in embeds:
        if rows > n:
            out[m][n:] = out[m][:n].mean(axis=0)
    return out


def token_sources(rng, toks, models, vocab, perms, embeds, original):
    """-> (oracle form, configuration form)"""
    oracle, conf = {}, {}
    for tok in toks:
        if rng.random() < 0.6:
            continue
        force = rng.random() < 0.4
        tid = vocab[tok]
        m = rng.choice(models)
        k = rng.random()
        if k < 0.3:
            oracle[tok], src = dict(source="zero", force=force), {"kind": "zero"}
        elif k < 0.55 and perms[m][tid] >= 0:
            oracle[tok], src = dict(source=("model", m), force=force), str(m)
        elif k < 0.8:
            old = rng.randrange(embeds[m].shape[0])
            oracle[tok], src = dict(source=("token", m, old), force=force), {"kind": "model_token", "model": str(m), "token_id": old}
        else:
            c = [t for t, o in original[m].items() if o < embeds[m].shape[0]]
            st = rng.choice(c)
            oracle[tok], src = dict(source=("token", m, original[m][st]), force=force), {"kind": "model_token", "model": str(m), "token": st}
        conf[tok] = {"source": src, "force": force}
    return oracle, conf


@case("P10", "1-4 models, output vocabularies of up to 12 tokens in arbitrary order, every kind of token source, padding up to 8", quick=400, deep=6000)
def permuted_embeddings_follow_the_rules(rng, i, note):
    g = gen(rng)
    k = rng.randrange(1, 5)
    models = [ModelReference.parse(f"m{j}") for j in range(k)]
    base = rng.choice([None] + models)
    toks = [f"t{j}" for j in range(rng.randrange(1, 13))]
    rng.shuffle(toks)
    ids = list(range(len(toks)))
    rng.shuffle(ids)
    vocab = dict(zip(toks, ids))
    original, perms, embeds, T = {}, {}, {}, {}
    dt = rng.choice([torch.float32, torch.float64, torch.float32, torch.bfloat16])
    E = rng.randrange(1, 5)
    for m in models:
        own = [t for t in toks if rng.random() < 0.7] + [f"x{m}{j}" for j in range(rng.randrange(0, 3))]
        own = own or ["only"]
        rng.shuffle(own)
        original[m] = {t: j for j, t in enumerate(own)}
        rows = len(own) + rng.randrange(0, 3)
        T[m] = torch.randn(rows, E, generator=g).to(dt)
        embeds[m] = T[m].double().numpy()
        perms[m] = {vocab[t]: original[m].get(t, -1) for t in toks}
    oracle, conf = token_sources(rng, toks, models, vocab, perms, embeds, original)
    if rng.random() < 0.15:
        # the base model is not one of this slice's sources
        base = ModelReference.parse("outside")
        original[base] = {t: j for j, t in enumerate(toks) if rng.random() < 0.7}
        perms[base] = {vocab[t]: original[base].get(t, -1) for t in toks}
    pad = rng.choice([None, None, 1, 2, 3, 8])
    note(dict(vocab=vocab, perms={str(m): p for m, p in perms.items()}, base=str(base), tokens=conf, pad=pad, dtype=str(dt)))
    # the task's own fields only matter through tokens / pad / base
    ga = GatherTensors(weight_info=ImmutableMap({}), dtype=None)
    bt = BuildTokenizer(base_model=base, referenced_models=tuple(models), tokenizer_source="union", add_tokens=())
    task = PermutedEmbeddings(
        gather_tensors=ga, tokenizer_task=bt,
        tokens=ImmutableMap({t: TokenEmbeddingConfig.model_validate(c) for t, c in conf.items()}) if conf or rng.random() < 0.5 else None,
        pad_to_multiple_of=pad, base_model=base)
    info = SimpleNamespace(tokenizer=SimpleNamespace(get_vocab=lambda: dict(vocab)), permutations=perms, original_vocabs=original)
    before = {m: T[m].clone() for m in models}
    got = task.execute(tokenizer_info=info, tensors=dict(T))
    want = o_embeddings(vocab, perms, embeds, base, oracle, original, pad)
    assert set(got) == set(want), "not every model got an embedding matrix"
    tol = dict(rtol=1e-5, atol=1e-6) if dt != torch.bfloat16 else dict(rtol=4e-2, atol=4e-2)
    for m in models:
        assert torch.equal(before[m], T[m]), f"the embeddings of {m} were modified"
        a = got[m].double().numpy()
        assert a.shape == want[m].shape, f"{m}: shape {a.shape}, expected {want[m].shape}"
        assert got[m].dtype == dt
        bad = [t for t in toks if not np.allclose(a[vocab[t]], want[m][vocab[t]], **tol)]
        assert not bad, f"{m}: rows of {bad} do not belong to these tokens"
        assert np.allclose(a, want[m], **tol), f"{m}: padding rows are not the mean"
        # rows that are copied are copied exactly
        for t in toks:
            if perms[m][vocab[t]] >= 0 and not (t in oracle and oracle[t]["force"]):
                assert torch.equal(got[m][vocab[t]], T[m][perms[m][vocab[t]]])
    assert {str(m) for m in got} == {str(m) for m in models}


@case("P10", "2-3 models with different input dtypes", quick=20, deep=100)
def embedding_dtype_independent_of_hashing(rng, i, note):
    """the models are visited in the order they are given, whatever their hash"""
    models = [ModelReference.parse(rng.choice("abcdefgh") + f"{rng.randrange(10**6)}") for _ in range(3)]
    dts = [torch.float32, torch.bfloat16, torch.float16]
    rng.shuffle(dts)
    T = {m: torch.ones(2, 2, dtype=d) for m, d in zip(models, dts)}
    note([str(d) for d in dts])
    vocab = {"a": 0, "b": 1}
    perms = {m: {0: 0, 1: 1} for m in models}
    task = PermutedEmbeddings(
        gather_tensors=GatherTensors(weight_info=ImmutableMap({}), dtype=None),
        tokenizer_task=BuildTokenizer(base_model=None, referenced_models=tuple(models), tokenizer_source="union", add_tokens=()),
        tokens=None, pad_to_multiple_of=None, base_model=None)
    info = SimpleNamespace(tokenizer=SimpleNamespace(get_vocab=lambda: dict(vocab)), permutations=perms, original_vocabs={})
    got = task.execute(tokenizer_info=info, tensors=T)
    assert {str(v.dtype) for v in got.values()} == {str(dts[0])}, "result dtype depends on the hash of the model names"
    assert list(got) == models


# ------------------------------------------------------------------ real tokenizers

SPECIAL = ["<unk>", "<s>", "</s>"]


def make_tokenizer(tokens, added, merges=()):
    data = {"version": "1.0", "model": {"type": "BPE", "vocab": {t: j for j, t in enumerate(tokens)}, "merges": list(merges)}, "added_tokens": []}
    tok = tokenizers.Tokenizer.from_str(json.dumps(data))
    with tempfile.TemporaryDirectory() as p:
        fp = os.path.join(p, "tokenizer.json")
        tok.save(fp)
        res = LlamaTokenizerFast(tokenizer_file=fp)
    for a in added:
        res.add_tokens(a)
    return res


H, I = 4, 6


def llama_config(vocab):
    return dict(architectures=["LlamaForCausalLM"], model_type="llama", hidden_size=H, intermediate_size=I,
                num_attention_heads=2, num_key_value_heads=2, num_hidden_layers=1, vocab_size=vocab,
                tie_word_embeddings=False, torch_dtype="float32")


def write_model(path, rng, pool, weights=None):
    """-> (vocab of the tokenizer, rows of the embedding)"""
    os.makedirs(path)
    plain = [t for t in pool if rng.random() < 0.6]
    rng.shuffle(plain)
    added = [t for t in ["<a1>", "<a2>", "<a3>", pool[0]] if rng.random() < 0.4 and t not in plain]
    rng.shuffle(added)
    merges = []
    if rng.random() < 0.5:
        parts = ["a", "b", "c", "ab", "bc", "abc"]
        at = rng.randrange(len(plain) + 1)
        plain[at:at] = parts
        if rng.random() < 0.5:
            rng.shuffle(plain)
        merges = ["a b", "b c", "ab c", "a bc"]
    tok = make_tokenizer(SPECIAL + plain, added, merges)
    tok.save_pretrained(path)
    vocab = tok.get_vocab()
    # rows: exact, padded beyond the tokenizer, or fewer than the tokenizer has ids
    extra = rng.choice([0, 0, 3, -1, -2, -4])
    rows = max(4, len(vocab) + extra)
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump(llama_config(rows), f)
    if weights is not None:
        L = {"input_layernorm.weight": (H,), "self_attn.q_proj.weight": (H, H), "self_attn.k_proj.weight": (H, H),
             "self_attn.v_proj.weight": (H, H), "self_attn.o_proj.weight": (H, H), "post_attention_layernorm.weight": (H,),
             "mlp.up_proj.weight": (I, H), "mlp.gate_proj.weight": (I, H), "mlp.down_proj.weight": (H, I)}
        sh = {"model.embed_tokens.weight": (rows, H), "model.norm.weight": (H,), "lm_head.weight": (rows, H)}
        sh.update({f"model.layers.0.{n}": s for n, s in L.items()})
        t = {n: torch.randn(s, generator=weights) for n, s in sh.items()}
        safetensors.torch.save_file(t, os.path.join(path, "model.safetensors"), metadata={"format": "pt"})
        return vocab, rows, {n: v.double().numpy() for n, v in t.items()}
    return vocab, rows, None


def setup(rng, d, weights=None):
    n = rng.randrange(1, 4)
    pool = [f"_w{j}" for j in range(8)]
    models, vocabs, rows, data = [], {}, {}, {}
    for j in range(n):
        p = os.path.join(d, f"m{j}")
        v, r, t = write_model(p, rng, pool, weights)
        m = ModelReference.parse(p)
        models.append(m)
        vocabs[m], rows[m], data[m] = v, r, t
    return models, vocabs, rows, data


def usable(vocabs, rows, m):
    return {t: j for t, j in vocabs[m].items() if j < rows[m]}


def o_check_tokenizer(out_vocab, models, vocabs, rows, source, base, added):
    """the output vocabulary for a tokenizer source"""
    b = base or models[0]
    if source == "base":
        want = set(usable(vocabs, rows, b))
    elif source == "union":
        want = set().union(*[set(usable(vocabs, rows, m)) for m in models])
    else:
        want = set(vocabs[source])
    want |= set(added)
    assert set(out_vocab) == want, f"missing {sorted(want - set(out_vocab))}, unexpected {sorted(set(out_vocab) - want)}"
    assert sorted(out_vocab.values()) == list(range(len(out_vocab))), "token ids are not a permutation of 0..n-1"
    keep = usable(vocabs, rows, b) if source in ("base", "union") else vocabs[source]
    for t, j in keep.items():
        assert out_vocab[t] == j, f"token {t} moved from {j} to {out_vocab[t]}"


@case("P10", "1-3 models with BPE tokenizers of up to 15 tokens, embedding matrices smaller and larger than the tokenizer", quick=150, deep=1500, limit=120)
def built_tokenizer_and_permutations(rng, i, note):
    with scratch() as d:
        models, vocabs, rows, _ = setup(rng, d)
        base = rng.choice([None] + models)
        source = rng.choice(["union", "union", "base", "model"])
        if source == "model":
            source = rng.choice(models)
        added = rng.sample(["<n1>", "<a1>", "_w1"], rng.randrange(0, 3))
        note(dict(vocabs={str(m): v for m, v in vocabs.items()}, rows={str(m): r for m, r in rows.items()}, base=str(base), source=str(source), added=added))
        info = BuildTokenizer(base_model=base, referenced_models=tuple(models), tokenizer_source=source, add_tokens=tuple(added)).execute()
        out = info.tokenizer.get_vocab()
        o_check_tokenizer(out, models, vocabs, rows, source, base, added)
        for m in models:
            p = info.permutations[m]
            assert set(p) == set(out.values()), "a token has no permutation entry"
            for t, j in out.items():
                want = usable(vocabs, rows, m).get(t, -1)
                assert p[j] == want, f"{m}: token {t} mapped to row {p[j]}, expected {want}"
            for t, j in info.original_vocabs[m].items():
                assert j >= rows[m] or vocabs[m].get(t) == j, f"{m}: original vocabulary has {t} at {j}"


@case("P10", "1-3 tiny Llama models with different tokenizers merged end to end", quick=60, deep=600, limit=150)
def merged_embeddings_follow_the_tokenizer(rng, i, note):
    g = gen(rng)
    with scratch() as d:
        models, vocabs, rows, data = setup(rng, d, g)
        base = rng.choice([None] + models)
        b = base or models[0]
        source = rng.choice(["union", "union", "base", "model"])
        if source == "model":
            source = rng.choice(models)
        pad = rng.choice([None, None, 4, 16])
        legacy = rng.random() < 0.3
        # expected tokenizer comes from the configuration alone
        if source == "base":
            names = set(usable(vocabs, rows, b))
        elif source == "union":
            names = set().union(*[set(usable(vocabs, rows, m)) for m in models])
        else:
            names = set(vocabs[source])
        # special tokens may be written back by the serializer; keep them out of the way
        if any(s not in usable(vocabs, rows, m) for m in models for s in SPECIAL):
            raise Skip("special token beyond the embedding")
        new = ["<new>"] if rng.random() < 0.5 else []
        emb = {m: data[m]["model.embed_tokens.weight"] for m in models}
        w = [round(rng.uniform(0.2, 2), 2) for _ in models]
        cfg = {"merge_method": "linear", "models": [{"model": str(m), "parameters": {"weight": x}} for m, x in zip(models, w)]}
        if base:
            cfg["base_model"] = str(base)
        oracle, conf = {}, {}
        fake_vocab = {t: j for j, t in enumerate(sorted(names | set(new)))}
        if not legacy:
            fperm = {m: {fake_vocab[t]: usable(vocabs, rows, m).get(t, -1) for t in fake_vocab} for m in models}
            oracle, conf = token_sources(rng, sorted(set(rng.sample(sorted(names), min(3, len(names)))) - set(SPECIAL)) + new, models, fake_vocab, fperm, emb, {m: usable(vocabs, rows, m) for m in models})
            cfg["tokenizer"] = {"source": source if isinstance(source, str) else str(source), "tokens": conf, **({"pad_to_multiple_of": pad} if pad else {})}
        else:
            new, pad = [], None
            cfg["tokenizer_source"] = source if isinstance(source, str) else str(source)
        names |= set(conf)
        note(dict(cfg=cfg, vocabs={str(m): v for m, v in vocabs.items()}, rows={str(m): r for m, r in rows.items()}))
        out = os.path.join(d, "out")
        run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(quiet=True, write_model_card=False, device="cpu", trust_remote_code=False))
        ov = LlamaTokenizerFast.from_pretrained(out).get_vocab()
        assert set(ov) == names, f"saved tokenizer: missing {sorted(names - set(ov))}, unexpected {sorted(set(ov) - names)}"
        perms = {m: {j: usable(vocabs, rows, m).get(t, -1) for t, j in ov.items()} for m in models}
        with open(os.path.join(out, "config.json")) as f:
            oc = json.load(f)
        got = safetensors.torch.load_file(os.path.join(out, "model.safetensors"))
        for name in ("model.embed_tokens.weight", "lm_head.weight"):
            e = {m: data[m][name] for m in models}
            want = o_embeddings(ov, perms, e, base, oracle, vocabs, pad)
            want = sum(x * want[m] for m, x in zip(models, w)) / sum(w)
            a = got[name].double().numpy()
            assert oc["vocab_size"] == a.shape[0], f"configured vocabulary {oc['vocab_size']}, embedding rows {a.shape[0]}"
            assert a.shape == want.shape, f"{name}: {a.shape}, expected {want.shape}"
            bad = [t for t, j in ov.items() if not np.allclose(a[j], want[j], rtol=1e-4, atol=1e-5)]
            assert not bad, f"{name}: rows of tokens {bad} are wrong"
            assert np.allclose(a, want, rtol=1e-4, atol=1e-5), f"{name}: padding rows are wrong"
