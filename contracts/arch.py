"""Contracts of the architecture definitions (mergekit/architecture/)."""

import re

import z3
from pydantic import BaseModel

import mergekit.architecture.base as AB
import mergekit.architecture.json_definitions as AJ
from mergekit.architecture.base import WeightInfo
from pyvc import lib
from pyvc.contract import Contract, contract, resolve
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import HList, LoopSpec, ModelFn, SDict, SList, SObj, SSet

from .util import *

M = "mergekit.architecture.json_definitions:"
MB = "mergekit.architecture.base:"
HOLE = re.compile(r"\$\{([a-z_]+)([+-]1)?\}")


def modules():
    """every bundled module definition: (label, JsonModuleArchitecture)"""
    out = []
    for k, a in enumerate(AJ.JSON_ARCHITECTURES):
        for name, m in a.modules.items():
            if isinstance(m.architecture, AJ.JsonModuleArchitecture):
                out.append((f"{a.expected_model_type}/{a.architectures[0]}/{name}", m.architecture))
    return out


def texts_of(w):
    yield w.name
    yield from w.aliases or ()
    yield from w.tied_names or ()


def all_templates():
    seen = {}
    for _, m in modules():
        d = m.definition
        for w in (*d.pre_weights, *d.layer_templates.weights, *d.post_weights):
            for t in texts_of(w):
                seen.setdefault(t)
    # and some the bundled files do not use
    for t in ("${num_layers}", "a.${layer_index+1}.b", "a.${layer_index-1}", "x${num_layers+1}y", "${num_layers-1}.z", "plain",
              "a.${layer_index}.b.${num_layers}"):
        seen.setdefault(t)
    return list(seen)


def digits(I, t):
    """decimal text of an integer"""
    r = lib.to_str(I, t)
    return S(r)


def spec_text(I, template, n, i):
    """the template with every ${...} replaced by the number it names; None when it names an unknown one"""
    parts, pos = [], 0
    for m in HOLE.finditer(template):
        if m.start() > pos:
            parts.append(z3.StringVal(template[pos:m.start()]))
        base = {"num_layers": n, "layer_index": i}.get(m.group(1))
        if base is None:
            return None
        parts.append(digits(I, Z(base) + int(m.group(2) or 0) if m.group(2) else Z(base)))
        pos = m.end()
    if pos < len(template):
        parts.append(z3.StringVal(template[pos:]))
    out = []
    for p in parts:  # neighbouring constants in one piece
        if out and z3.is_string_value(p) and z3.is_string_value(out[-1]):
            out[-1] = z3.StringVal(out[-1].as_string() + p.as_string())
        else:
            out.append(p)
    return lib._concat_of(out)


def _template_new(I, template):
    if not isinstance(template, str):
        raise Unsupported("symbolic template")
    return SObj(AJ.TemplateWithArithmetic, {"template": template}, tag="template")


def _substitute(I, self_, mapping=None, **kw):
    """string.Template.substitute with the class's own pattern"""
    t = self_.fields["template"]
    parts, pos = [], 0
    for m in AJ.TemplateWithArithmetic.pattern.finditer(t):
        if m.group("escaped") is not None:
            parts += [t[pos:m.start()], "$"]
        elif m.group("invalid") is not None:
            raise PyRaise(ValueError("invalid placeholder"))
        else:
            key = m.group("named") or m.group("braced")
            parts += [t[pos:m.start()], lib.to_str(I, lib.getitem(I, mapping, key))]
        pos = m.end()
    parts.append(t[pos:])
    parts = [p for p in parts if not (isinstance(p, str) and p == "")]
    return lib.str_concat(parts) if parts else ""


import string

MODELS = {
    AJ.TemplateWithArithmetic: _template_new,
    (AJ.TemplateWithArithmetic, "substitute"): _substitute,
    string.Template.substitute: _substitute,
    BaseModel.model_dump: lambda I, o, **k: I.lift(o.model_dump(**k)) if not isinstance(o, SObj) else lib._model_dump(I, o, **k),
    BaseModel.model_validate.__func__: lambda I, cls, d: _validate(I, cls, d),
}


def _validate(I, cls, d):
    if cls is not WeightInfo or not (isinstance(d, SDict) and d.concrete):
        raise Unsupported("model_validate")
    o = SObj(WeightInfo)
    for f, info in WeightInfo.model_fields.items():
        hit = [v for k, v in d.pairs if k == f]
        v = hit[0] if hit else info.get_default(call_default_factory=True)
        if isinstance(v, SList):
            v = tuple(v.items)
        o.fields[f] = v
    return o


@contract("P17")
class TemplateSubstitution(Contract):
    """every template of the bundled definitions, for all layer counts and indices"""

    target = M + "_template_substitution"
    cases = [(t, l) for t in all_templates() for l in (True, False)]
    models = MODELS
    bounded = "the templates of the bundled definitions (layer counts and indices unbounded)"
    trusted = ("string.Template.substitute replaces what its pattern matches",)

    def setup(self, I, case):
        t, layer = case
        n, i = z3.Int("n"), z3.Int("i")
        I.eng.assume(z3.And(n >= 1, i >= 0, i < n))
        return (t, n, i if layer else None), {}, (t, n, i if layer else None)

    def ensures(self, I, g, r):
        t, n, i = g
        want = spec_text(I, t, n, i)
        yield "denotes-the-number-it-names", False if want is None else S(r) == want

    def raises(self, I, g, exc):
        t, n, i = g
        return spec_text(I, t, n, i) is None and isinstance(exc, (KeyError, ValueError))


class _Json(Contract):
    models = MODELS
    bounded = "the bundled definitions (layer counts and indices unbounded)"

    def __init__(self):
        self.calls = {M + "JsonModuleArchitecture.num_layers": lambda I, self_, config: I.nl}

    def prep(self, I):
        n, i, j = z3.Ints("n i j")
        I.eng.assume(z3.And(n >= 1, 0 <= i, i < n, 0 <= j, j < n))
        for x in (n, i, j):
            s = digits(I, x)
            I.eng.assume(z3.InRe(s, lib.DIGITS))
        I.nl = n
        return n, i, j


def names_match(I, ws, defs, n, i):
    if len(ws.items) != len(defs):
        yield "as-many-weights-as-defined", False
        return
    for k, (w, d) in enumerate(zip(ws.items, defs)):
        f = w.fields if isinstance(w, SObj) else {x: getattr(w, x) for x in WeightInfo.model_fields}
        eqs = [S(f["name"]) == spec_text(I, d.name, n, i)]
        for fld in ("aliases", "tied_names"):
            a, b = f[fld], getattr(d, fld)
            if (a is None) != (b is None) or (a is not None and len(a) != len(b)):
                eqs.append(z3.BoolVal(False))
            elif a is not None:
                eqs += [S(x) == spec_text(I, y, n, i) for x, y in zip(a, b)]
        for fld in ("is_embed", "optional", "force_dtype"):
            eqs.append(z3.BoolVal(f[fld] == getattr(d, fld)))
        yield f"weight-{k}-is-this-layers", z3.And(*eqs)


@contract("P17")
class LayerWeights(_Json):
    """layer i lists exactly its templates with its own index; layers never share names"""

    target = M + "JsonModuleArchitecture.layer_weights"
    cases = [l for l, _ in modules()]

    def setup(self, I, case):
        m = dict(modules())[case]
        n, i, j = self.prep(I)
        return (m, i, SObj(object, tag="config")), {}, (m, n, i, j)

    def ensures(self, I, g, r):
        m, n, i, j = g
        d = m.definition
        yield from names_match(I, r, d.layer_templates.weights, n, i)
        # lemmas over the contract: no name appears in two layers, twice in one layer, or outside the layers
        eng = I.eng
        ts = [w.name for w in d.layer_templates.weights]
        fixed = [w.name for w in (*d.pre_weights, *d.post_weights)]
        at = lambda t, k: spec_text(I, t, n, k)
        dig = [z3.InRe(digits(I, x), lib.DIGITS) for x in (n, i, j)]
        inv = [z3.Function("int_str_inv", STR, INT)(digits(I, x)) == x for x in (i, j)]
        outer = [z3.Function("int_str_inv", STR, INT)(digits(I, x)) == x for x in (i, n)] + [i < n]
        for a in range(len(ts)):
            for b in range(a, len(ts)):
                if a != b:
                    eng.prove("no-duplicates-within-a-layer", at(ts[a], i) != at(ts[b], i), only=dig)
                eng.prove("layers-do-not-share-names", z3.Implies(i != j, at(ts[a], i) != at(ts[b], j)), only=dig + inv)
        for a in range(len(ts)):
            for f in fixed:
                eng.prove("layer-names-differ-from-the-others", at(ts[a], i) != at(f, None),
                          only=dig + outer if HOLE.search(f) else dig)
        for a in range(len(fixed)):
            for b in range(a):
                eng.prove("no-duplicates-outside-layers", at(fixed[a], None) != at(fixed[b], None), only=dig)


@contract("P17")
class PreWeights(_Json):
    target = M + "JsonModuleArchitecture.pre_weights"
    cases = [l for l, _ in modules()]
    which = "pre_weights"

    def setup(self, I, case):
        m = dict(modules())[case]
        n, i, j = self.prep(I)
        return (m, SObj(object, tag="config")), {}, (m, n)

    def ensures(self, I, g, r):
        m, n = g
        yield from names_match(I, r, getattr(m.definition, self.which), n, None)


@contract("P17")
class PostWeights(PreWeights):
    target = M + "JsonModuleArchitecture.post_weights"
    which = "post_weights"


# ------------------------------------------------------------------ all weights, prefixes

WInfoO = Opaque("WeightInfoO", pyclass=WeightInfo)
TW = TOpaque(WInfoO)
W_ = z3.Function("LAYERW", INT, INT, WInfoO.sort)
PRE_, POST_ = (z3.Function(x, INT, WInfoO.sort) for x in ("PREW", "POSTW"))
LEN_ = z3.Function("LAYERLEN", INT, INT)
OFF_ = z3.Function("OFFSET", INT, INT)


class _Arch(AB.ModuleArchitecture):
    def pre_weights(self, config):
        raise NotImplementedError

    post_weights = layer_weights = pre_weights


def _off_axioms(np):
    j = z3.Int("oj")
    return [OFF_(0) == np, z3.ForAll([j], LEN_(j) >= 0, patterns=[LEN_(j)]),
            z3.ForAll([j], z3.Implies(j >= 0, OFF_(j + 1) == OFF_(j) + LEN_(j)), patterns=[OFF_(j + 1)])]


def _aw_inv(c):
    g = c.I.aw
    res = c["res"]
    n, arr = res.as_array(TW)
    i, j, k = Z(c.i), z3.Int("wj"), z3.Int("wk")
    yield "length", n == OFF_(i)
    yield "offsets-grow", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), OFF_(j) + LEN_(j) <= OFF_(i)), patterns=[OFF_(j)])
    yield "room-for-the-first", OFF_(i) >= g["np"]
    yield "first-weights-first", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g["np"]), z3.Select(arr, k) == PRE_(k)))
    yield "layers-in-order", z3.ForAll([j, k], z3.Implies(
        z3.And(0 <= j, j < i, 0 <= k, k < LEN_(j)), z3.Select(arr, OFF_(j) + k) == W_(j, k)), patterns=[W_(j, k)])


@contract("P17")
class AllWeights(Contract):
    """pre weights, then every layer's weights in order, then post weights - nothing else, nothing twice"""

    target = MB + "ModuleArchitecture.all_weights"
    loops = {("ModuleArchitecture.all_weights", 0): LoopSpec(_aw_inv, {"res": HList(TW)})}

    def __init__(self):
        def lst(n, f):
            return SList(n=n, t=TW, arr=z3.Lambda([z3.Int("li")], f(z3.Int("li"))))

        self.models = {
            (_Arch, "num_layers"): lambda I, o, c: I.aw["n"],
            (_Arch, "pre_weights"): lambda I, o, c: lst(I.aw["np"], PRE_),
            (_Arch, "post_weights"): lambda I, o, c: lst(I.aw["nq"], POST_),
            (_Arch, "layer_weights"): lambda I, o, index=None, config=None: lst(LEN_(Z(index)), lambda k: W_(Z(index), k)),
        }

    def setup(self, I, case):
        n, np, nq = z3.Ints("n np nq")
        I.eng.assume(z3.And(n >= 0, np >= 0, nq >= 0))
        for a in _off_axioms(np):
            I.eng.assume(a)
        I.aw = dict(n=n, np=np, nq=nq)
        return (SObj(_Arch, tag="arch"), SObj(object, tag="config")), {}, I.aw

    def ensures(self, I, g, r):
        ln, arr = r.as_array(TW)
        n, np, nq = g["n"], g["np"], g["nq"]
        j, k = z3.Ints("ej ek")
        yield "nothing-else", ln == OFF_(n) + nq
        yield "first", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < np), z3.Select(arr, k) == PRE_(k)))
        yield "every-layer-in-order", z3.Implies(z3.And(0 <= j, j < n, 0 <= k, k < LEN_(j)),
                                                 z3.Select(arr, OFF_(j) + k) == W_(j, k))
        yield "last", z3.Implies(z3.And(0 <= k, k < nq), z3.Select(arr, OFF_(n) + k) == POST_(k))


@contract("P17", "P06")
class PrefixWeight(Contract):
    target = MB + "_prefix_weight"
    cases = [(p, a, t) for p in (False, True) for a in (None, 0, 1, 2) for t in (None, 0, 2)]
    bounded = "at most two aliases and tied names"

    def setup(self, I, case):
        p, a, t = case
        mk = lambda n, c: None if c is None else tuple(z3.String(f"{n}{k}") for k in range(c))
        w = SObj(WeightInfo, {"name": z3.String("name"), "is_embed": z3.Bool("e"), "optional": z3.Bool("o"),
                              "aliases": mk("al", a), "force_dtype": z3.String("fd"), "tied_names": mk("ti", t)})
        pre = z3.String("prefix") if p else None
        return (w, pre), {}, (w, pre)

    def ensures(self, I, g, r):
        w, pre = g
        if pre is None:
            yield "unchanged-without-prefix", r is w
            return
        put = lambda x: z3.Concat(pre, x)
        yield "name", S(r.fields["name"]) == put(w.fields["name"])
        for f in ("aliases", "tied_names"):
            want = [put(x) for x in w.fields[f] or ()]
            got = list(r.fields[f] or ())
            yield f"{f}-prefixed", z3.And(z3.BoolVal(len(want) == len(got)), *[S(x) == y for x, y in zip(got, want)])
        for f in ("is_embed", "optional", "force_dtype"):
            yield f"{f}-kept", r.fields[f] == w.fields[f]
