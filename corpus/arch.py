"""Run-time contracts of the architecture definitions (P17)."""

import json
import os
import shutil
import tempfile

import safetensors.torch
import torch
import transformers

from mergekit.architecture import arch_info_for_config
from mergekit.architecture.base import ConfiguredModelArchitecture
from mergekit.architecture.json_definitions import JSON_ARCHITECTURES
from pyvc.rt import Skip, case

# architectures whose transformers implementation in this sandbox is an
# independent description of the same checkpoint layout
KNOWN = """ApertusForCausalLM ArceeForCausalLM BertForMaskedLM BertForMultipleChoice BertForSequenceClassification
BertForTokenClassification BertModel Cohere2ForCausalLM CohereForCausalLM DistilBertForMaskedLM
DistilBertForSequenceClassification DistilBertForTokenClassification GPT2ForSequenceClassification GPT2LMHeadModel
GPTBigCodeForCausalLM Gemma2ForCausalLM Gemma3ForCausalLM Glm4ForCausalLM GraniteForCausalLM
GraniteMoeHybridForCausalLM Lfm2ForCausalLM Llama4ForConditionalGeneration LlamaForCausalLM
LlamaForSequenceClassification MistralForCausalLM MixtralForCausalLM Olmo2ForCausalLM Phi3ForCausalLM PhiForCausalLM
Qwen2ForCausalLM Qwen3ForCausalLM Qwen3MoeForCausalLM Qwen3VLForConditionalGeneration
Qwen3VLMoeForConditionalGeneration RobertaForSequenceClassification RobertaForTokenClassification StableLmForCausalLM
Starcoder2ForCausalLM WhisperForConditionalGeneration Glm4MoeForCausalLM GemmaForCausalLM RobertaForMaskedLM""".split()
TIED_ONLY = {"WhisperForConditionalGeneration": {"proj_out.weight"}, "GemmaForCausalLM": {"lm_head.weight"},
             "RobertaForMaskedLM": {"lm_head.decoder.bias"}}  # never stored: shared with another parameter


def tiny_config(name, layers):
    cls = getattr(transformers, name, None)
    if cls is None:
        raise Skip(f"{name} not in this transformers")
    cfg = cls.config_class()
    for c in [cfg] + [getattr(cfg, s, None) for s in ("text_config", "vision_config")]:
        if c is None:
            continue
        for k in ("num_hidden_layers", "num_layers", "n_layer", "n_layers", "depth", "encoder_layers", "decoder_layers"):
            if hasattr(c, k):
                try:
                    setattr(c, k, layers)
                except Exception:
                    pass
        try:
            if getattr(c, "layer_types", None):
                c.layer_types = list(c.layer_types)[:layers]
        except Exception:
            pass
    cfg.architectures = [name]
    return cls, cfg


_SD = {}


def model_keys(name, layers):
    if (name, layers) not in _SD:
        from transformers.initialization import no_init_weights

        cls, cfg = tiny_config(name, layers)
        with torch.device("meta"), no_init_weights():
            m = cls(cfg)
        _SD[name, layers] = (cfg, set(m.state_dict()))
    return _SD[name, layers]


@case("P17", f"{len(KNOWN)} architectures, 2 and 3 layers, default configurations of transformers as the oracle",
      quick=len(KNOWN), deep=len(KNOWN) * 2, limit=150)
def definition_covers_every_parameter(rng, i, note):
    name = KNOWN[i % len(KNOWN)]
    layers = 2 if i < len(KNOWN) else 3
    note(dict(architecture=name, layers=layers))
    try:
        cfg, sd = model_keys(name, layers)
    except Skip:
        raise
    except Exception as e:
        raise Skip(f"transformers cannot build {name}: {e}")
    arch = arch_info_for_config(cfg)
    assert arch is not None, f"no definition found for {name}"
    ws = arch.all_weights(cfg)
    names = [w.name for w in ws]
    assert len(names) == len(set(names)), f"defined twice: {sorted(n for n in set(names) if names.count(n) > 1)}"
    covered = set(names) | {a for w in ws for a in (w.aliases or ())}
    missing = sd - covered - TIED_ONLY.get(name, set())
    assert not missing, f"parameters of the model that no merge would write: {sorted(missing)[:8]}"
    bogus = {w.name for w in ws if not w.optional and not (set(w.aliases or ()) & sd)} - sd
    assert not bogus, f"required weights that the model does not have: {sorted(bogus)[:8]}"
    # module by module: pre + layers + post is the whole model, in order, whatever the view
    conf = ConfiguredModelArchitecture(info=arch, config=cfg)
    flat = []
    for m in arch.modules:
        mod = conf.get_module(m)
        n = mod.num_layers()
        part = [w.name for w in mod.pre_weights()]
        for k in range(n):
            lw = [w.name for w in mod.layer_weights(k)]
            part += lw
        part += [w.name for w in mod.post_weights()]
        assert part == [w.name for w in mod.all_weights()]
        flat += part
    assert flat == names
    emb = {w.name for w in ws if w.is_embed}
    for w in ws:
        if w.name in ("model.embed_tokens.weight", "lm_head.weight"):
            assert w.name in emb, f"{w.name} not marked as an embedding"
        for tn in w.tied_names or ():
            assert tn in covered, f"{w.name} tied to unknown {tn}"


class _Num(int):
    """a configuration whose every value is the same number"""

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        return self


@case("P17", "every bundled definition, 1 to 12 layers", quick=len(JSON_ARCHITECTURES), deep=len(JSON_ARCHITECTURES) * 6, limit=60)
def definitions_list_each_weight_once(rng, i, note):
    a = JSON_ARCHITECTURES[i % len(JSON_ARCHITECTURES)]
    n = rng.choice([1, 2, 3, 11, 12])
    note(dict(architectures=list(a.architectures), layers=n))
    names = [w.name for w in a.all_weights(_Num(n))]
    assert len(names) == len(set(names)), f"listed twice: {sorted({x for x in names if names.count(x) > 1})[:6]}"
    left = [x for x in names if "$" in x]
    assert not left, f"unresolved placeholders: {left[:4]}"


@case("P17", "every JSON definition, 1-4 layers: layer weights of different layers never collide, substitution is total",
      quick=len(JSON_ARCHITECTURES), deep=len(JSON_ARCHITECTURES))
def layers_never_collide(rng, i, note):
    arch = JSON_ARCHITECTURES[i % len(JSON_ARCHITECTURES)]
    note(dict(architectures=arch.architectures))

    class Cfg:
        pass

    for mname, md in arch.modules.items():
        a = md.architecture
        key = a.num_layers_config_key()
        n = rng.randrange(2, 5)
        cfg = Cfg()
        if key:
            o = cfg
            parts = key.split(".")
            for p in parts[:-1]:
                setattr(o, p, Cfg())
                o = getattr(o, p)
            setattr(o, parts[-1], n)
            assert a.num_layers(cfg) == n or getattr(a.definition, "override_num_layers", None) is not None
        tmpl = [w.name for w in a.definition.layer_templates.weights]
        if not any("${layer_index" in t for t in tmpl):
            continue
        seen = {}
        for k in range(n):
            ws = a.layer_weights(k, cfg)
            for t, w in zip(tmpl, ws):
                want = t.replace("${layer_index}", str(k)).replace("${layer_index+1}", str(k + 1)).replace("${layer_index-1}", str(k - 1))
                assert "$" in want or w.name == want, f"{w.name}, expected {want}"
                assert "$" not in w.name
                assert w.name not in seen or "${layer_index" not in t, f"{w.name} belongs to layers {seen[w.name]} and {k}"
                seen[w.name] = k


MOE = {  # model type -> (expert key patterns) of checkpoints in the per-expert layout
    "mixtral": ("model.layers.{l}.block_sparse_moe.experts.{e}.{w}.weight", ("w1", "w3"), "w2",
                "model.layers.{l}.block_sparse_moe.gate.weight"),
    "qwen3_moe": ("model.layers.{l}.mlp.experts.{e}.{w}.weight", ("gate_proj", "up_proj"), "down_proj", "model.layers.{l}.mlp.gate.weight"),
    "qwen2_moe": ("model.layers.{l}.mlp.experts.{e}.{w}.weight", ("gate_proj", "up_proj"), "down_proj", "model.layers.{l}.mlp.gate.weight"),
}


@case("P17", "per-expert checkpoints of 2-24 experts and up to 12 layers, every stacked tensor asked for in any order",
      quick=60, deep=600)
def stacked_experts_keep_their_order(rng, i, note):
    from mergekit.architecture.conversion import can_convert_checkpoint_keys, convert_checkpoint_tensors

    mt = rng.choice(list(MOE))
    pat, gu, dn, gate = MOE[mt]
    E, L = rng.choice([2, 3, 9, 10, 11, 24]), rng.choice([1, 2, 11, 12])
    g = torch.Generator()
    g.manual_seed(rng.randrange(1 << 30))
    src = {}
    for l in range(L):
        for e in range(E):
            for w in gu:
                src[pat.format(l=l, e=e, w=w)] = torch.randn(3, 2, generator=g)
            src[pat.format(l=l, e=e, w=dn)] = torch.randn(2, 3, generator=g)
        src[gate.format(l=l)] = torch.randn(E, 2, generator=g)
    items = list(src.items())
    rng.shuffle(items)
    d = dict(items)
    lazy = {k: (lambda v=v: v) for k, v in d.items()} if rng.random() < 0.5 else d
    note(dict(model_type=mt, experts=E, layers=L))
    for _ in range(4):
        l = rng.randrange(L)
        which = rng.randrange(4)
        if which == 0:
            key = f"model.layers.{l}.mlp.experts.gate_up_proj"
            want = torch.stack([torch.cat([src[pat.format(l=l, e=e, w=w)] for w in gu]) for e in range(E)])
        elif which == 1:
            key = f"model.layers.{l}.mlp.experts.down_proj"
            want = torch.stack([src[pat.format(l=l, e=e, w=dn)] for e in range(E)])
        elif which == 2:
            key = f"model.layers.{l}.mlp.gate.weight"
            want = src[gate.format(l=l)]
        else:
            key, want = f"model.layers.{L + 3}.mlp.experts.down_proj", None
        got = convert_checkpoint_tensors(mt, lazy, key)
        assert can_convert_checkpoint_keys(mt, set(d), key) == (want is not None), f"availability of {key} misjudged"
        if want is None:
            assert got is None, "a tensor appeared from nowhere"
        else:
            assert got is not None and torch.equal(got, want), f"{key}: experts in the wrong order or wrong data"


@case("P17", "checkpoints with up to 3 layer stacks and loose tensors of an architecture without a definition",
      quick=25, deep=200, limit=60)
def inferred_architecture_covers_checkpoint(rng, i, note):
    from mergekit.architecture.auto import infer_architecture_info
    from mergekit.common import ModelReference
    from mergekit.options import MergeOptions

    d = tempfile.mkdtemp(prefix="vfarch")
    try:
        n = rng.randrange(1, 4)
        stacks = rng.sample(["model.layers", "encoder.block", "decoder.h", "vision.blocks"], rng.randrange(0, 4))
        names = set()
        for s in stacks:
            L = rng.choice([1, 2, 3, 12])
            for l in range(L):
                for w in ["a.weight", "b.bias", "experts.0.w"][: rng.randrange(1, 4)] if False else ["a.weight", "b.bias", "experts.0.w"]:
                    names.add(f"{s}.{l}.{w}")
        for w in ["embed.weight", "final.norm.weight", "modelx.weight", "head.bias"]:
            if rng.random() < 0.7 or not names:
                names.add(w)
        # a configuration transformers knows but cannot build this architecture from
        cfg = {"architectures": ["SomethingUnknown"], "model_type": "clip_vision_model"}
        refs = []
        for k in range(n):
            p = os.path.join(d, f"m{k}")
            os.makedirs(p)
            drop = {x for x in names if k and rng.random() < 0.1}
            safetensors.torch.save_file({x: torch.zeros(1) for x in names - drop}, os.path.join(p, "model.safetensors"))
            with open(os.path.join(p, "config.json"), "w") as f:
                json.dump(cfg, f)
            refs.append((ModelReference.parse(p), drop))
        note(dict(names=sorted(names), dropped=[sorted(x[1]) for x in refs]))
        base = refs[0][0] if rng.random() < 0.5 else None
        info = infer_architecture_info(tuple(r for r, _ in refs), base, MergeOptions())
        ws = [w for w in info.all_weights(None)]
        got = [w.name for w in ws]
        assert len(got) == len(set(got)), "a weight appears twice"
        assert names <= set(got), f"not covered: {sorted(names - set(got))}"
        dropped = set().union(*[x for _, x in refs])
        for w in ws:
            if w.name not in names or w.name in dropped:
                assert w.optional, f"{w.name} is not in every model but required"
    finally:
        shutil.rmtree(d, ignore_errors=True)
