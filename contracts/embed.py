"""Contracts of the tokenizer-driven embedding permutation (mergekit/tokenizer/embed.py)."""

import torch
import z3

import mergekit.common as MC
import mergekit.tokenizer.build as TB
import mergekit.tokenizer.config as TC
import mergekit.tokenizer.embed as TE
from pyvc import lib, tmodel
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import HDict, HSet, LoopSpec, SDict, SList, SObj, SSet
from pyvc.tmodel import STensor

from .util import *

E_ = "mergekit.tokenizer.embed:PermutedEmbeddings."
SrcSort = z3.Datatype("TokenSource")
SrcSort.declare("zero")
SrcSort.declare("model", ("of", ModelO.sort))
SrcSort.declare("other", ("what", INT))
SrcSort = SrcSort.create()


class _Src(T):
    sort = SrcSort

    def enc(self, v):
        if is_z3(v) and v.sort() == SrcSort:
            return v
        if is_z3(v) and v.sort() == ModelO.sort:
            return SrcSort.model(v)
        if isinstance(v, SObj) and v.cls is TC.ZeroEmbedding:
            return SrcSort.zero
        raise Unsupported("token source")

    def dec(self, t):
        return t


TCfg = TRec(TC.TokenEmbeddingConfig, {"source": _Src(), "force": TBool})
NAMES = z3.ArraySort(STR, BOOL)
IDS = z3.ArraySort(STR, INT)
CFGS = z3.ArraySort(STR, TCfg.sort)
PERM = z3.ArraySort(INT, INT)


def src_of(cfg):
    return TCfg.acc[0](cfg)


def force_of(cfg):
    return TCfg.acc[1](cfg)


class _Tok:
    pass


def vocabulary(I):
    """an arbitrary output vocabulary: tokens and their distinct ids 0..n-1"""
    dom, ids = z3.Const("vocab", NAMES), z3.Const("vocab_id", IDS)
    v = SDict(kt=TStr, vt=TInt, dom=dom, val=ids)
    n, _, idx = lib.dict_order(I, v)
    tok = z3.Function("token_of", INT, STR)
    t = z3.String("vct")
    I.eng.assume(z3.ForAll([t], z3.Implies(z3.Select(dom, t), z3.And(
        0 <= z3.Select(ids, t), z3.Select(ids, t) < n, tok(z3.Select(ids, t)) == t)), patterns=[z3.Select(ids, t)]))
    I.eng.assumptions.add("the output tokenizer's ids are distinct and lie in 0..len(vocab)-1")
    return v, dict(V=dom, ID=ids, n=n, idx=idx, tok=tok, vocab=v)


def perms_of(I, g, models, rows=None):
    """one permutation per model: every output id to a row of its embedding, or to a negative number"""
    ps = [z3.Const(f"perm{k}", PERM) for k in range(len(models))]
    if rows is not None:
        i = z3.Int("pmi")
        for p, r in zip(ps, rows):
            I.eng.assume(z3.ForAll([i], z3.Select(p, i) < r, patterns=[z3.Select(p, i)]))
    g["P"] = ps
    return SDict(pairs=[(m, SDict(kt=TInt, vt=TInt, dom=z3.K(INT, z3.BoolVal(True)), val=p)) for m, p in zip(models, ps)])


def row(g, k, t):
    """the row of model k's embedding holding the token, negative if it has none"""
    return z3.Select(g["P"][k], z3.Select(g["ID"], t))


def bases(n):
    return [None, "first", "outside"] + (["last"] if n > 1 else [])


# ---------------------------------------------------------------- which embedding stands in for a missing token


def default_rule(g, t, a, c, cfg):
    """the documented rule for a token without configuration"""
    has = [row(g, k, t) >= 0 for k in range(g["nm"])]
    cnt = sum([z3.If(h, 1, 0) for h in has], z3.IntVal(0))
    base = z3.And(row(g, g["bk"], t) >= 0, True) if g["bk"] is not None else z3.BoolVal(False)
    only = g["ms"][-1]
    for k in range(g["nm"] - 2, -1, -1):
        only = z3.If(has[k], g["ms"][k], only)
    fixed = lambda s: z3.And(z3.Not(a), c, src_of(cfg) == s, z3.Not(force_of(cfg)))
    return z3.If(cnt == 0, fixed(SrcSort.zero), z3.If(cnt == 1, fixed(SrcSort.model(only)), z3.If(
        base, fixed(SrcSort.model(g["ms"][g["bk"] or 0])), z3.And(a, z3.Not(c)))))


def _assigned(g, t, done, C0, F0, C, F, A):
    """what assign_embedding_sources has decided for a token (done: it was reached)"""
    sel = z3.Select
    new = z3.And(sel(g["V"], t), done, z3.Not(sel(C0, t)))
    return z3.If(new, default_rule(g, t, sel(A, t), sel(C, t), sel(F, t)), z3.And(
        sel(C, t) == sel(C0, t), sel(F, t) == sel(F0, t), z3.Not(sel(A, t))))


def dom_of(x):
    if isinstance(x, SSet) and x.concrete:
        d = z3.K(STR, z3.BoolVal(False))
        for y in x.items:
            d = z3.Store(d, S(y), True)
        return d
    return x.dom


def _assign_inv(c):
    g = c.I.state_g
    t = z3.String("ait")
    C, F, A = c["token_configs"].dom, c["token_configs"].val, dom_of(c["tokens_to_average"])
    yield "decided-so-far", z3.ForAll([t], _assigned(g, t, Z(g["idx"](t)) < Z(c.i), g["C0"], g["F0"], C, F, A), patterns=[
        z3.Select(C, t), z3.Select(F, t), z3.Select(A, t)] if all(z3.is_const(x) for x in (C, F, A)) else [])


@contract("P10")
class AssignSources(Contract):
    """every token without configuration: base model's, the only owner's, zero, or the average"""

    target = E_ + "assign_embedding_sources"
    cases = [(n, b) for n in (1, 2, 3) for b in bases(n)]
    bounded = "1 to 3 models"
    loops = {("PermutedEmbeddings.assign_embedding_sources", 0): LoopSpec(_assign_inv, {
        "token_configs": HDict(TStr, TCfg), "tokens_to_average": HSet(TStr)})}

    def setup(self, I, case):
        n, b = case
        ms = [z3.Const(f"model{k}", ModelO.sort) for k in range(n)]
        out = z3.Const("base_model", ModelO.sort)
        if n > 1 or b == "outside":
            I.eng.assume(z3.Distinct(*ms, out) if b == "outside" else z3.Distinct(*ms))
        base = {None: None, "first": ms[0], "last": ms[-1], "outside": out}[b]
        v, g = vocabulary(I)
        g.update(nm=n, ms=ms, base=base, bk={None: None, "first": 0, "last": n - 1, "outside": None}[b])
        perms = perms_of(I, g, ms + ([out] if b == "outside" else []))
        g["C0"], g["F0"] = z3.Const("configured", NAMES), z3.Const("config", CFGS)
        cfgs = SDict(kt=TStr, vt=TCfg, dom=g["C0"], val=g["F0"])
        g["cfgs"] = cfgs
        I.state_g = g
        o = SObj(TE.PermutedEmbeddings, {"base_model": base, "tokens": None, "pad_to_multiple_of": None})
        return (o, perms, SList(items=list(ms)), v, cfgs), {}, g

    def ensures(self, I, g, r):
        t = z3.String("token")
        yield "by-the-documented-rule", _assigned(g, t, z3.BoolVal(True), g["C0"], g["F0"], g["cfgs"].dom, g["cfgs"].val, dom_of(r))


# ---------------------------------------------------------------- the embedding a configuration names


@contract("P10")
class DefaultEmbedding(Contract):
    """zero, the named model's own embedding of the token, or the embedding of the named token"""

    target = E_ + "compute_default_embedding"
    cases = ["zero", "model", "token-id", "token", "none"]

    def setup(self, I, case):
        ms = [z3.Const(f"model{k}", ModelO.sort) for k in range(2)]
        I.eng.assume(z3.Distinct(*ms))
        rows = [z3.Int(f"rows{k}") for k in range(2)]
        e = z3.Int("embed")
        I.eng.assume(z3.And(e >= 1, *[r >= 1 for r in rows]))
        v, g = vocabulary(I)
        perms = perms_of(I, g, ms, rows)
        ts = [tmodel.sym_tensor(I.eng, f"emb{k}", [rows[k], e]) for k in range(2)]
        tensors = SDict(pairs=list(zip(ms, ts)))
        ov = [SDict(kt=TStr, vt=TInt, dom=z3.Const(f"ov{k}", NAMES), val=z3.Const(f"ovid{k}", IDS)) for k in range(2)]
        info = SObj(TB.TokenizerInfo, {"tokenizer": None, "permutations": perms, "original_vocabs": SDict(pairs=list(zip(ms, ov)))})
        token, tid = z3.String("token"), z3.Int("token_id")
        which = z3.Const("of_model", ModelO.sort)
        I.eng.assume(z3.Or(*[which == m for m in ms]))
        other = z3.String("other_token")
        oid = z3.Int("other_id")
        src = {"zero": lambda: SObj(TC.ZeroEmbedding, {"kind": "zero"}), "model": lambda: which, "none": lambda: None,
               "token-id": lambda: SObj(TC.ModelTokenEmbedding, {"kind": "model_token", "model": which, "token_id": oid, "token": None}),
               "token": lambda: SObj(TC.ModelTokenEmbedding, {"kind": "model_token", "model": which, "token_id": None, "token": other}),
               }[case]()
        cfg = SObj(TC.TokenEmbeddingConfig, {"source": src, "force": z3.Bool("force")})
        o = SObj(TE.PermutedEmbeddings, {"base_model": None})
        g.update(case=case, ms=ms, rows=rows, e=e, ts=ts, ov=ov, which=which, other=other, oid=oid, tid=tid)
        return (o, info, tensors, perms, token, tid, cfg), {}, g

    def row(self, g, k):
        if g["case"] == "model":
            return z3.Select(g["P"][k], g["tid"]), z3.Select(g["P"][k], g["tid"]) >= 0
        if g["case"] == "token-id":
            return g["oid"], z3.And(g["oid"] >= 0, g["oid"] < g["rows"][k])
        i = z3.Select(g["ov"][k].val, g["other"])
        return i, z3.And(z3.Select(g["ov"][k].dom, g["other"]), i >= 0, i < g["rows"][k])

    def ensures(self, I, g, r):
        j = z3.Int("dim")
        I.eng.assume(z3.And(0 <= j, j < g["e"]))
        yield "one-row", z3.And(z3.BoolVal(len(r.dims) == 1), Z(r.dims[0]) == g["e"])
        got = R(r.at(j))
        if g["case"] == "zero":
            yield "zero", got == 0
            return
        for k in range(2):
            i, ok = self.row(g, k)
            yield "the-named-row", z3.Implies(g["which"] == g["ms"][k], z3.And(ok, got == R(g["ts"][k].at(i, j))))

    def raises(self, I, g, exc):
        if g["case"] == "none":
            return z3.BoolVal(isinstance(exc, NotImplementedError))
        if isinstance(exc, AssertionError) and g["case"] != "zero":
            return z3.And(*[z3.Implies(g["which"] == g["ms"][k], z3.Not(self.row(g, k)[1])) for k in range(2)])
        return False


# ---------------------------------------------------------------- the permutation


DEF = z3.Function("default_embedding", STR, INT, REAL)


def _assign_call(I, self_, permutations, models, vocab, token_configs):
    """contract of assign_embedding_sources (AssignSources)"""
    g = I.state_g
    ok = len(models.items) == g["nm"] and all(a is b for a, b in zip(models.items, g["ms"])) and vocab.val is g["ID"]
    I.eng.prove("assigned-for-the-merged-models", z3.BoolVal(bool(ok) and permutations is g["perms"]))
    C0 = token_configs.dom if not token_configs.concrete else z3.K(STR, z3.BoolVal(False))
    F0 = token_configs.val if not token_configs.concrete else z3.Const("no_config", CFGS)
    C, F, A = z3.Const("assigned", NAMES), z3.Const("assigned_config", CFGS), z3.Const("averaged", NAMES)
    t = z3.String("ast")
    I.eng.assume(z3.ForAll([t], _assigned(g, t, z3.BoolVal(True), C0, F0, C, F, A), patterns=[
        z3.Select(C, t), z3.Select(A, t), z3.Select(g["V"], t)]))
    g.update(C=C, F=F, A=A)
    token_configs.pairs, token_configs.kt, token_configs.vt = None, TStr, TCfg
    token_configs.dom, token_configs.val, token_configs.order = C, F, None
    return SSet(t=TStr, dom=A)


def _default_call(I, self_, tokenizer_info, tensors, permutations, token, token_id, cfg):
    """contract of compute_default_embedding (DefaultEmbedding)"""
    g = I.state_g
    I.eng.prove("default-of-this-token-by-its-configuration", z3.And(
        Z(token_id) == z3.Select(g["ID"], S(token)), _Src().enc(cfg.fields["source"]) == src_of(z3.Select(g["F"], S(token))),
        z3.BoolVal(tensors is g["tensors"] and permutations is g["perms"])))
    if I.eng.choose(2):
        raise PyRaise(AssertionError("token not found"))
    tk = S(token)
    return STensor([g["e"]], lambda j: DEF(tk, Z(j)), g["dt"], g["dev"])


def default_el(g, t, j):
    """the stand-in embedding of a token"""
    has = [row(g, k, t) >= 0 for k in range(g["nm"])]
    cnt = sum([z3.If(h, 1, 0) for h in has], z3.IntVal(0))
    tot = sum([z3.If(h, R(g["ts"][k].at(row(g, k, t), j)), 0) for k, h in enumerate(has)], z3.RealVal(0))
    return z3.If(z3.Select(g["A"], t), tot / z3.ToReal(cnt), DEF(t, j))


def row_el(g, k, t, j):
    forced = z3.And(z3.Select(g["C"], t), force_of(z3.Select(g["F"], t)))
    return z3.If(z3.And(row(g, k, t) >= 0, z3.Not(forced)), R(g["ts"][k].at(row(g, k, t), j)), default_el(g, t, j))


T1 = TTensor(1)
T2 = TTensor(2)


def _defaults_inv(c):
    g = c.I.state_g
    t, j = z3.String("dit"), z3.Int("dij")
    d = c["default_embeds"]
    seen = z3.And(z3.Select(g["V"], t), Z(g["idx"](t)) < Z(c.i))
    if d.concrete:
        yield "defaults-so-far", z3.ForAll([t], z3.Not(seen))
        return
    v = z3.Select(d.val, t)
    yield "defaults-so-far", z3.ForAll([t], z3.Select(d.dom, t) == seen)
    yield "each-default", z3.ForAll([t], z3.Implies(seen, T1.dim[0](v) == g["e"]))
    yield "its-elements", z3.ForAll([t, j], z3.Implies(z3.And(seen, 0 <= j, j < g["e"]), T1.el(v, j) == default_el(g, t, j)))


def _rows_inv(c):
    g = c.I.state_g
    k = [i for i, m in enumerate(g["ms"]) if m is c["model"]][0]
    r, j = z3.Int("rir"), z3.Int("rij")
    x = c["new_embed"]
    yield "size", z3.And(Z(x.dims[0]) == g["vs"](c), Z(x.dims[1]) == g["e"])
    t = g["tok"](r)
    there = z3.And(z3.Select(g["V"], t), z3.Select(g["ID"], t) == r, Z(g["idx"](t)) < Z(c.i))
    el = c.I.eng.generic(lambda: R(x.at(r, j)), [r, j], [0 <= r, r < Z(x.dims[0]), 0 <= j, j < g["e"]])
    yield "rows-so-far", z3.ForAll([r, j], z3.Implies(z3.And(0 <= r, r < Z(x.dims[0]), 0 <= j, j < g["e"]),
                                                      el == z3.If(there, row_el(g, k, t, j), 0)))


@contract("P10")
class Permute(Contract):
    """row by row: a model's own embedding of the token, or the stand-in; as many rows as the vocabulary, padded"""

    target = E_ + "execute"
    cases = [(1, None, None, False), (1, None, 8, False), (2, None, None, True), (2, "first", None, True), (2, "outside", None, True), (3, None, None, False)]
    bounded = "1 to 3 models; padding to 8"
    calls = {E_ + "assign_embedding_sources": _assign_call, E_ + "compute_default_embedding": _default_call}
    models = {(_Tok, "get_vocab"): lambda I, o: o.fields["vocab"]}
    loops = {("PermutedEmbeddings.execute", 0): LoopSpec(_defaults_inv, {"default_embeds": HDict(TStr, T1)}),
             ("PermutedEmbeddings.execute", 3): LoopSpec(_rows_inv, {"new_embed": T2})}
    timeout_ms = 20000

    def setup(self, I, case):
        n, b, pad, conf = case
        ms = [z3.Const(f"model{k}", ModelO.sort) for k in range(n)]
        out = z3.Const("base_model", ModelO.sort)
        if n > 1:
            I.eng.assume(z3.Distinct(*ms, out))
        base = {None: None, "first": ms[0], "outside": out}[b]
        rows = [z3.Int(f"rows{k}") for k in range(n)]
        e = z3.Int("embed")
        I.eng.assume(z3.And(e >= 1, *[r >= 1 for r in rows]))
        v, g = vocabulary(I)
        g.update(nm=n, ms=ms, base=base, bk={None: None, "first": 0, "outside": None}[b], e=e)
        extra = [out] if b == "outside" else []
        perms = perms_of(I, g, ms + extra, rows + [z3.Int("rows_out")] * len(extra))
        dt, dv = z3.Const("dtype", tmodel.DType), z3.Const("device", tmodel.Device)
        ts = [tmodel.sym_tensor(I.eng, f"emb{k}", [rows[k], e]) for k in range(n)]
        tensors = SDict(pairs=list(zip(ms, ts)))
        toks = None
        if conf:
            toks = SObj(MC.ImmutableMap, {"data": SDict(kt=TStr, vt=TCfg, dom=z3.Const("configured", NAMES), val=z3.Const("config", CFGS))})
        nv = g["n"]
        vs = nv if pad is None else ((nv + pad - 1) / pad) * pad
        g.update(ts=ts, perms=perms, tensors=tensors, dt=ts[0].dtype, dev=ts[0].device, pad=pad, vs=lambda c: vs, VS=vs)
        o = SObj(TE.PermutedEmbeddings, {"gather_tensors": None, "tokenizer_task": None, "tokens": toks,
                                         "pad_to_multiple_of": pad, "base_model": base})
        info = SObj(TB.TokenizerInfo, {"tokenizer": SObj(_Tok, {"vocab": v}), "permutations": perms, "original_vocabs": None})
        I.state_g = g
        return (o, info, tensors), {}, g

    def ensures(self, I, g, r):
        ps = r.pairs
        yield "one-per-model", z3.BoolVal(len(ps) == g["nm"] and all(a is b for (a, _), b in zip(ps, g["ms"])))
        t, j = z3.String("token"), z3.Int("dim")
        I.eng.assume(z3.And(z3.Select(g["V"], t), 0 <= j, j < g["e"]))
        i = z3.Select(g["ID"], t)
        for k, (_, x) in enumerate(ps):
            yield "size", z3.And(Z(x.dims[0]) == g["VS"], Z(x.dims[1]) == g["e"])
            yield "row-of-the-token", R(x.at(i, j)) == row_el(g, k, t, j)

    def raises(self, I, g, exc):
        if isinstance(exc, AssertionError):
            return z3.BoolVal(str(exc) == "token not found" or "token not found" in repr(getattr(exc, "sym_args", "")))
        return False


# ---------------------------------------------------------------- the permutations

B_ = "mergekit.tokenizer.build:"
VSIZE = z3.Function("configured_vocab_size", ModelO.sort, TOpt(TInt).sort)
PathO = Opaque("TokModelPath", attrs={"path": lambda I, t: t, "revision": lambda I, t: t})
MPATH = z3.Function("path_of_model", ModelO.sort, PathO.sort)
ModelO.attrs.setdefault("model", lambda I, t: MPATH(t))
LOADED = z3.Function("tokenizer_loads", PathO.sort, BOOL)
TVOC = z3.Function("tokens_of", PathO.sort, NAMES)
TIDS = z3.Function("ids_of", PathO.sort, IDS)
TLEN = z3.Function("number_of_tokens", NAMES, INT)


def tokenizer_of(I, path, dom, ids):
    return SObj(_Tok, {"dom": dom, "ids": ids, "of": path})


def _vocab_of(I, o):
    v = SDict(kt=TStr, vt=TInt, dom=o.fields["dom"], val=o.fields["ids"])
    if "order" in o.fields and o.fields["order"][0] is o.fields["dom"]:
        v.order = o.fields["order"][1]
    else:
        n, _, _ = lib.dict_order(I, v)
        I.setattr(o, "order", (o.fields["dom"], v.order))
        I.eng.assume(n == TLEN(o.fields["dom"]))
    return v


def _auto(I, cls, path, revision=None, trust_remote_code=False, **kw):
    """AutoTokenizer.from_pretrained: the model's tokenizer, or an error"""
    I.eng.prove("revision-of-the-same-model", z3.BoolVal(revision is None or revision.eq(path)))
    if not I.eng.branch(LOADED(path)):
        raise PyRaise(OSError("no tokenizer"))
    return tokenizer_of(I, path, TVOC(path), TIDS(path))


def _stripped(I, path, trust_remote_code=False):
    """contract of get_stripped_tokenizer: the tokens of the model with an embedding"""
    g = I.state_g
    I.eng.prove("base-tokenizer-of-the-base-model", path == MPATH(g["bm"]))
    return tokenizer_of(I, path, g["sdom"], TIDS(path))


def _union(I, base_tok, tokenizers, trust_remote_code=False):
    """contract of build_union_tokenizer: some tokenizer"""
    g = I.state_g
    return tokenizer_of(I, None, I.eng.fresh("union", NAMES), I.eng.fresh("union_ids", IDS))


def _add(I, o, tok):
    """the token is in the vocabulary afterwards, with an id of its own"""
    dom, ids = o.fields["dom"], o.fields["ids"]
    if not I.eng.branch(z3.Select(dom, S(tok))):
        i = I.eng.fresh("new_id", INT)
        I.setattr(o, "dom", z3.Store(dom, S(tok), True))
        I.setattr(o, "ids", z3.Store(ids, S(tok), i))
    I.state_g["added"].append(tok)


def _vsize(I, path, trust_remote_code=False):
    g = I.state_g
    for m in g["ms"]:
        if path.eq(MPATH(m)):
            return TOpt(TInt).dec(VSIZE(m))
    raise Unsupported("vocabulary size of another model")


def _perm_inv(c):
    g = c.I.state_g
    k = [i for i, m in enumerate(g["refs"]) if m is c["model"]][0]
    r = z3.Int("pir")
    v, p = c["vocab_out"], c["p"]
    tok = z3.Function("out_token", INT, STR)
    t = tok(r)
    if not g.get("out"):
        # the ids of the output tokenizer are distinct: token_of is their inverse
        x = z3.String("pit")
        c.I.eng.assume(z3.ForAll([x], z3.Implies(z3.Select(v.dom, x), tok(z3.Select(v.val, x)) == x), patterns=[z3.Select(v.val, x)]))
        c.I.eng.assumptions.add("the output tokenizer's ids are distinct")
        g["out"] = v
    _, _, idx = lib.dict_order(c.I, v)
    there = z3.And(z3.Select(v.dom, t), z3.Select(v.val, t) == r, Z(idx(t)) < Z(c.i))
    if p.concrete:
        yield "rows-so-far", z3.ForAll([r], z3.Not(there))
        return
    yield "rows-so-far", z3.ForAll([r], z3.And(z3.Select(p.dom, r) == there, z3.Implies(there, z3.Select(p.val, r) == own_row(c.I, g, k, t))))


def own_row(I, g, k, t):
    """the row a model's own tokenizer gives to a token: -1 if it has none or no embedding"""
    m = g["refs"][k]
    pth, bp = MPATH(m), MPATH(g["bm"])
    own = z3.And(LOADED(pth), z3.BoolVal(m is not g["bm"]))
    dom = z3.If(own, TVOC(pth), g["sdom"])
    ids = z3.If(own, TIDS(pth), TIDS(bp))
    size = VSIZE(m)
    rows = z3.If(TOpt(TInt).is_none(size), TLEN(dom), TOpt(TInt).v(size))
    ok = z3.And(z3.Select(dom, t), z3.Select(ids, t) < rows)
    return z3.If(ok, z3.Select(ids, t), -1)


@contract("P10")
class BuildPermutations(Contract):
    """each output token is mapped to the row of the model's own token of that name, or to -1"""

    target = B_ + "build_tokenizer"
    cases = [("base", None, 1), ("base", 1, 0), ("union", None, 0), ("model", 1, 0)]
    bounded = "2 referenced models, up to 1 added token"
    calls = {B_ + "get_stripped_tokenizer": _stripped, B_ + "build_union_tokenizer": _union, B_ + "get_vocab_size": _vsize}
    loops = {("build_tokenizer", 3): LoopSpec(_perm_inv, {"p": HDict(TInt, TInt)})}

    def __init__(self):
        import transformers

        self.models = {transformers.AutoTokenizer.from_pretrained.__func__: _auto, (_Tok, "get_vocab"): _vocab_of, (_Tok, "add_tokens"): _add}

    def setup(self, I, case):
        s, b, a = case
        ms = [z3.Const(f"model{k}", ModelO.sort) for k in range(2)]
        I.eng.assume(z3.And(z3.Distinct(*ms), MPATH(ms[0]) != MPATH(ms[1])))
        base = None if b is None else ms[b]
        g = dict(ms=ms, refs=ms, bm=ms[b or 0], sdom=z3.Const("stripped", NAMES), added=[], case=case)
        I.state_g = g
        src = ms[1] if s == "model" else s
        return (base, SList(items=list(ms)), src, z3.Bool("trust"), SList(items=[z3.String(f"new{k}") for k in range(a)])), {}, g

    def ensures(self, I, g, r):
        s, b, a = g["case"]
        f = r.fields
        tok = f["tokenizer"].fields
        yield "tokens-added", z3.And(z3.BoolVal(len(g["added"]) == a), *[z3.Select(tok["dom"], S(x)) for x in g["added"]])
        yield "from-its-source", z3.BoolVal({"base": lambda: tok["of"].eq(MPATH(g["bm"])), "union": lambda: tok["of"] is None,
                                             "model": lambda: tok["of"].eq(MPATH(g["ms"][1]))}[s]())
        ps = f["permutations"].pairs
        yield "one-per-model", z3.BoolVal(len(ps) == 2 and all(x is y for (x, _), y in zip(ps, g["refs"])))
        t = z3.String("token")
        I.eng.assume(z3.Select(tok["dom"], t))
        i = z3.Select(tok["ids"], t)
        for k, (_, p) in enumerate(ps):
            yield "row-of-the-same-token", z3.And(z3.Select(p.dom, i), z3.Select(p.val, i) == own_row(I, g, k, t))
        for m, v in f["original_vocabs"].pairs:
            own = g["sdom"] if m is g["bm"] else TVOC(MPATH(m))
            yield "original-vocabulary", z3.BoolVal(v.dom.eq(own) and v.val.eq(TIDS(MPATH(m))))

    def raises(self, I, g, exc):
        if isinstance(exc, OSError) and g["case"][0] == "model":
            return z3.Not(LOADED(MPATH(g["ms"][1])))
        return False
