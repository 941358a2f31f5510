"""Contracts of the merge methods: linear, passthrough, task arithmetic, SLERP, ... and size handling."""

import numpy as np
import torch
import z3

import mergekit.merge_methods.linear as ML
import mergekit.merge_methods.passthrough as MP
import mergekit.merge_methods.slerp as MS
from mergekit.architecture import WeightInfo
from pyvc import lib, tmodel
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import HDict, HList, HSet, LoopSpec, ModelFn, SDict, SList, SObj, SSet
from pyvc.tmodel import STensor, sym_tensor

from .util import *

i_ = z3.Int("qi")


def weight_info(name="w", is_embed=False):
    return SObj(WeightInfo, {"name": name, "is_embed": is_embed, "optional": False, "aliases": None,
                             "tied_names": None, "force_dtype": None})


def dict_keys_of(I, d):
    n, get, idx = lib.dict_order(I, d)
    return n, get, idx


# ------------------------------------------------------------------ size handling

T2 = TTensor(2)
RECT = "mergekit.merge_methods.rectify_embed:"


def _common(get, n):
    """(all equal, lower-bound facts) helpers over a list of rank-2 tensors"""


def _min_havoc(I, cur):
    if not isinstance(cur, SList) or not cur.concrete or len(cur.items) != 2:
        raise Unsupported("min_size is not a two-element list")
    if I.eng.branch(I.eng.fresh("min_unset", BOOL)):
        cur.items = [None, None]
    else:
        cur.items = [I.eng.fresh("min0", INT), I.eng.fresh("min1", INT)]
    return cur


def _tcs_inv0(c):
    ms = c["min_size"]
    i = Z(c.i)
    if any(x is None for x in ms.items):
        yield "unset-only-before-the-first", z3.And(i == 0, z3.BoolVal(all(x is None for x in ms.items)))
        return
    for d in range(2):
        m = Z(ms.items[d])
        j = z3.Int("qj")
        at = lambda k: Z(c.item(k).dims[d])
        yield f"minimum-so-far-{d}", z3.And(i > 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), m <= at(j))))
        yield f"minimum-attained-{d}", z3.Exists([j], z3.And(j >= 0, j < i, m == at(j)))


def _tcs_inv1(c):
    ts, old = c["tensors"], c.old["tensors"]
    ms = c["min_size"]
    m0, m1 = (Z(x) for x in ms.items)
    j, a, b = z3.Int("qj"), z3.Int("qa"), z3.Int("qb")
    yield "length-kept", Z(ts.length()) == Z(old.length())
    new, o = z3.Select(ts.arr, j), z3.Select(old.arr, j)
    yield "cut-so-far", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(c.i)), z3.And(
        T2.dim[0](new) == m0, T2.dim[1](new) == m1, T2.dty(new) == T2.dty(o))), patterns=[new])
    yield "values-kept", z3.ForAll([j, a, b], z3.Implies(z3.And(j >= 0, j < Z(c.i), 0 <= a, a < m0, 0 <= b, b < m1),
                                   T2.el(new, a, b) == T2.el(o, a, b)), patterns=[T2.el(new, a, b)])
    yield "rest-untouched", z3.ForAll([j], z3.Implies(z3.And(j >= Z(c.i), j < Z(ts.length())), new == o), patterns=[new])


def _size_model(I, v):
    return tmodel.SShape(list(lib.to_seq(I, v).items))


def sub_spec(before_n, before, after_n, after, r):
    """postcondition of take_common_submatrix over array-backed lists"""
    j, k, a, b = z3.Int("sj"), z3.Int("sk"), z3.Int("sa"), z3.Int("sb")
    n = Z(before_n)
    o, w = z3.Select(before, j), z3.Select(after, j)
    ok = z3.Select(before, k)
    rng = z3.And(j >= 0, j < n)
    yield "length-kept", Z(after_n) == n
    for d in range(2):
        yield f"no-larger-than-any-{d}", z3.ForAll([j, k], z3.Implies(z3.And(rng, k >= 0, k < n), T2.dim[d](w) <= T2.dim[d](ok)))
        yield f"as-large-as-some-{d}", z3.ForAll([j], z3.Implies(rng, z3.Exists([k], z3.And(k >= 0, k < n, T2.dim[d](w) == T2.dim[d](ok)))))
    yield "leading-block-kept", z3.ForAll([j, a, b], z3.Implies(
        z3.And(rng, 0 <= a, a < T2.dim[0](w), 0 <= b, b < T2.dim[1](w)), T2.el(w, a, b) == T2.el(o, a, b)))
    yield "dtype-kept", z3.ForAll([j], z3.Implies(rng, T2.dty(w) == T2.dty(o)))


@contract("P12")
class TakeCommonSubmatrix(Contract):
    target = RECT + "take_common_submatrix"
    models = {torch.Size: _size_model}
    loops = {
        ("take_common_submatrix", 0): LoopSpec(_tcs_inv0, {"min_size": _min_havoc}),
        ("take_common_submatrix", 2): LoopSpec(_tcs_inv1, {"tensors": HList(T2)}),
    }

    def setup(self, I, case):
        T2.wf(I.eng)
        n = z3.Int("nt")
        I.eng.assume(n >= 0)
        arr = z3.Const("ts", z3.ArraySort(INT, T2.sort))
        l = SList(n=n, t=T2, arr=arr)
        return (l,), {}, (n, arr, l)

    def ensures(self, I, g, r):
        n, arr, l = g
        if l.arr is None:
            yield "still-the-same-list", False
            return
        yield from sub_spec(n, arr, l.n, l.arr, r)


def all_same(tt, n, arr):
    j, k = z3.Int("aj"), z3.Int("ak")
    x, y = z3.Select(arr, j), z3.Select(arr, k)
    return z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < n, k >= 0, k < n),
                                        z3.And(*[f(x) == f(y) for f in tt.dim]) if tt.dim else z3.BoolVal(True)))


def tensor_list(I, rank, name="ts"):
    tt = TTensor(rank)
    tt.wf(I.eng)
    n = z3.Int(f"{name}_n")
    I.eng.assume(n >= 0)
    arr = z3.Const(f"{name}_a", z3.ArraySort(INT, tt.sort))
    return SList(n=n, t=tt, arr=arr), tt, n, arr


RANKS = [1, 2, 3, 4]


@contract("P12")
class CheckSameShape(Contract):
    target = RECT + "check_same_shape"
    cases = RANKS
    bounded = "tensor rank 1 to 4 (list length and sizes unbounded)"

    def setup(self, I, case):
        l, tt, n, arr = tensor_list(I, case)
        return (l, "name"), {}, (tt, n, arr)

    def ensures(self, I, g, r):
        tt, n, arr = g
        yield "returns-only-when-all-sizes-agree", all_same(tt, n, arr)

    def raises(self, I, g, exc):
        tt, n, arr = g
        return z3.Not(all_same(tt, n, arr)) if isinstance(exc, RuntimeError) else None


def take_common_contract(I, tensors):
    if not tensors.concrete and tensors.t is not None and tensors.t is not T2:
        # a list of other ranks can only get here empty
        I.eng.prove("take_common_submatrix:call:requires:matrices", Z(tensors.n) == 0)
        return False
    n, arr = tensors.as_array(T2)
    if not (tensors.concrete or tensors.arr is not None):
        raise Unsupported("take_common_submatrix on this list")
    new = I.eng.fresh("common", z3.ArraySort(INT, T2.sort))
    r = I.eng.fresh("cut", BOOL)
    I.eng.note_mut(tensors)
    for lab, g in sub_spec(n, arr, n, new, r):
        I.eng.assume(g)
    if tensors.concrete:
        tensors.items = [T2.dec(z3.Select(new, k)) for k in range(len(tensors.items))]
    else:
        tensors.t, tensors.arr = T2, new
        tensors._get = lambda i: T2.dec(z3.Select(new, Z(i)))
    return r


@contract("P12")
class RectifyEmbedSizes(Contract):
    target = RECT + "rectify_embed_sizes"
    cases = RANKS
    calls = {RECT + "take_common_submatrix": take_common_contract}
    bounded = "tensor rank 1 to 4 (list length and sizes unbounded)"

    def setup(self, I, case):
        l, tt, n, arr = tensor_list(I, case)
        e = z3.Bool("is_embed")
        return (weight_info("w", e), l), {}, (case, tt, n, arr, l, e)

    def ensures(self, I, g, r):
        rank, tt, n, arr, l, e = g
        yield "sizes-agree-afterwards", all_same(tt, n, l.arr)
        yield "other-weights-untouched", z3.Implies(z3.Not(e), z3.And(Z(l.n) == n, l.arr == arr))
        if rank == 2:
            for lab, t in sub_spec(n, arr, l.n, l.arr, None):
                yield "embedding-" + lab, z3.Implies(e, t)

    def raises(self, I, g, exc):
        rank, tt, n, arr, l, e = g
        if not isinstance(exc, RuntimeError):
            return None
        return z3.And(z3.Not(all_same(tt, n, arr)), z3.Or(z3.Not(e), z3.BoolVal(rank != 2)))


def rectify_contract(I, info, tensors):
    """callee contract of rectify_embed_sizes"""
    eng = I.eng
    first = tensors.items[0] if tensors.concrete else tensors.get(z3.IntVal(0))
    rank = len(first.dims)
    if tensors.concrete and any(len(t.dims) != rank for t in tensors.items):
        raise PyRaise(RuntimeError("Tensor size mismatch"))
    tt = TTensor(rank)
    n, arr = tensors.as_array(tt)
    embed = I.getattr(info, "is_embed")
    if rank == 2 and I.truth(embed):
        new = eng.fresh("rect", z3.ArraySort(INT, tt.sort))
        for lab, g in sub_spec(n, arr, n, new, None):
            eng.assume(g)
        eng.assume(all_same(tt, n, new))
        eng.note_mut(tensors)
        if tensors.concrete:
            tensors.items = [tt.dec(z3.Select(new, k)) for k in range(len(tensors.items))]
        else:
            tensors.t, tensors.arr = tt, new
            tensors._get = lambda i: tt.dec(z3.Select(new, Z(i)))
        return None
    if not eng.branch(all_same(tt, n, arr)):
        raise PyRaise(RuntimeError("Tensor size mismatch"))
    return None


# ------------------------------------------------------------------ linear


class _Linear(Contract):
    target = "mergekit.merge_methods.linear:LinearMergeTask.execute"
    calls = {RECT + "rectify_embed_sizes": rectify_contract}
    bounded = "tensor rank 1 to 4 (models and sizes unbounded)"

    def prep(self, I, rank, embed):
        d = tensor_dict(I, "T", rank)
        n, get, idx = lib.dict_order(I, d)
        I.eng.assume(n > 0)
        pm, fs = param_map("P", {"weight": REAL})
        norm = z3.Bool("normalize")
        self_ = SObj(ML.LinearMergeTask, {"tensor_parameters": pm, "normalize": norm,
                                          "weight_info": weight_info("w", embed)})
        key = lambda k: d.kt.enc(get(k))
        return d, n, key, fs["weight"], norm, self_


@contract("P07", "P12")
class LinearExecute(_Linear):
    cases = RANKS

    def setup(self, I, rank):
        d, n, key, W, norm, self_ = self.prep(I, rank, False)
        ds = [z3.Int(f"d{k}") for k in range(rank)]
        same_shape(I, d, ds)
        return (self_, d), {}, (d, n, key, W, norm, ds)

    def ensures(self, I, g, r):
        d, n, key, W, norm, ds = g
        ix, rng = idx_in(ds)
        val = lambda k: d.vt.el(z3.Select(d.val, key(k)), *ix)
        num = msum(I, n, lambda k: W(key(k)) * val(k))
        den = msum(I, n, lambda k: W(key(k)))
        yield "shape", dims_are(r, ds)
        got = R(r.at(*ix))
        yield "weighted-sum", z3.Implies(z3.And(rng, z3.Not(norm)), got == num)
        yield "weighted-mean", z3.Implies(z3.And(rng, norm, den != 0), got * den == num)


@contract("P12")
class LinearMismatch(_Linear):
    """sizes differ: an error for ordinary weights, the common submatrix for embeddings"""

    cases = [(1, False), (2, False), (3, False), (2, True)]

    def setup(self, I, case):
        rank, embed = case
        d, n, key, W, norm, self_ = self.prep(I, rank, embed)
        return (self_, d), {}, (rank, embed, d, n, key, W, norm)

    def _same(self, g):
        rank, embed, d, n, key, W, norm = g
        j, k = z3.Int("aj"), z3.Int("ak")
        x, y = z3.Select(d.val, key(j)), z3.Select(d.val, key(k))
        return z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < n, k >= 0, k < n),
                                            z3.And(*[f(x) == f(y) for f in d.vt.dim])))

    def ensures(self, I, g, r):
        rank, embed, d, n, key, W, norm = g
        if not embed:
            yield "never-merges-different-sizes", self._same(g)
            return
        k, j = z3.Int("k"), z3.Int("j")
        ix, rng = idx_in(r.dims)
        for q in range(2):
            yield f"common-size-{q}", z3.Implies(z3.And(k >= 0, k < n), Z(r.dims[q]) <= d.vt.dim[q](z3.Select(d.val, key(k))))
        val = lambda k: d.vt.el(z3.Select(d.val, key(k)), *ix)
        num = msum(I, n, lambda k: W(key(k)) * val(k))
        yield "weighted-sum-of-the-common-block", z3.Implies(z3.And(rng, z3.Not(norm)), R(r.at(*ix)) == num)

    def raises(self, I, g, exc):
        return z3.Not(self._same(g)) if isinstance(exc, RuntimeError) and not g[1] else None


# ------------------------------------------------------------------ passthrough


@contract("P07")
class PassthroughExecute(Contract):
    target = "mergekit.merge_methods.passthrough:PassthroughMergeTask.execute"
    cases = [(r, s) for r in RANKS for s in ("scale", "scale-none", "no-scale", "many")]
    bounded = "tensor rank 1 to 4 (sizes unbounded)"

    def setup(self, I, case):
        rank, mode = case
        m = ModelO.const("m")
        ds = [z3.Int(f"d{k}") for k in range(rank)]
        for d in ds:
            I.eng.assume(d >= 0)
        t = sym_tensor(I.eng, "t", ds)
        s = z3.Real("scale")
        pairs = {"scale": [("scale", s)], "scale-none": [("scale", None)], "no-scale": [], "many": []}[mode]
        pm = imap(SDict(pairs=[(m, imap(SDict(pairs=pairs)))]))
        self_ = SObj(MP.PassthroughMergeTask, {"tensor_parameters": pm})
        if mode == "many":
            d = tensor_dict(I, "T", rank)
            I.eng.assume(lib.dict_order(I, d)[0] != 1)
        else:
            d = SDict(pairs=[(m, t)])
        return (self_, d), {}, (mode, ds, t, t.at, s)

    def ensures(self, I, g, r):
        mode, ds, t, at, s = g
        if mode == "many":
            yield "refuses-anything-but-one-tensor", False
            return
        ix, rng = idx_in(ds)
        yield "shape", dims_are(r, ds)
        yield "value", z3.Implies(rng, R(r.at(*ix)) == (R(at(*ix)) * s if mode == "scale" else R(at(*ix))))
        yield "input-not-modified", z3.Implies(rng, R(t.at(*ix)) == R(at(*ix)))

    def raises(self, I, g, exc):
        return g[0] == "many" if isinstance(exc, RuntimeError) else None


# ------------------------------------------------------------------ slerp

UF = tmodel.uf
SLERP = "mergekit.merge_methods.slerp:"


def slerp_ret(I, t, v0, v1, *a, **k):
    """callee contract of slerp(): SLERP(t, v0, v1) elementwise, endpoints first/second argument"""
    f = z3.Function(f"slerp{len(v0.dims)}", REAL, *[REAL] * 2, REAL)
    if not I.eng.branch(B(tmodel.dims_equal(I, v0.dims, v1.dims))):
        raise PyRaise(ValueError("shapes"))
    v0, v1 = tmodel.frozen(v0), tmodel.frozen(v1)
    r = STensor(v0.dims, lambda *i: f(R(t), R(v0.at(*i)), R(v1.at(*i))), torch.float32, "cpu")
    r.slerp_of = (t, v0, v1)
    return r


@contract("P09", "P12")
class SlerpExecute(Contract):
    target = SLERP + "SlerpTask.execute"
    calls = {RECT + "rectify_embed_sizes": rectify_contract, SLERP + "slerp": slerp_ret}
    cases = [(r, m) for r in (1, 2, 3) for m in ("base-first", "base-second", "one", "no-base")] + [(2, "embed"), (2, "three")]
    bounded = "tensor rank 1 to 3 (sizes unbounded)"

    def setup(self, I, case):
        rank, mode = case
        a, b, c = (ModelO.const(x) for x in "abc")
        I.eng.assume(z3.Distinct(a, b, c))
        d0 = [z3.Int(f"d{k}") for k in range(rank)]
        d1 = [z3.Int(f"e{k}") for k in range(rank)]
        for d in d0 + d1:
            I.eng.assume(d >= 0)
        dt0 = z3.Const("dt0", tmodel.DType)
        x = sym_tensor(I.eng, "x", d0, dtype=dt0)
        y = sym_tensor(I.eng, "y", d1)
        z = sym_tensor(I.eng, "z", d1)
        pairs = [(a, x), (b, y)]
        if mode == "base-second":
            pairs = [(b, y), (a, x)]
        if mode == "one":
            pairs = [(b, y)]
        if mode == "three":
            pairs.append((c, z))
        base = c if mode == "no-base" else a
        t = z3.Real("t")
        self_ = SObj(MS.SlerpTask, {"base_model": base, "t": t, "weight_info": weight_info("w", mode == "embed")})
        return (self_, SDict(pairs=pairs)), {}, (mode, d0, d1, x, y, t, dt0)

    def ensures(self, I, g, r):
        mode, d0, d1, x, y, t, dt0 = g
        if mode in ("no-base", "three"):
            yield "refused", False
            return
        if mode == "one":
            yield "single-tensor-unchanged", r is y
            return
        f = z3.Function(f"slerp{len(d0)}", REAL, REAL, REAL, REAL)
        ix, rng = idx_in(r.dims)
        yield "interpolates-from-the-base-model", z3.Implies(rng, R(r.at(*ix)) == f(t, R(x.at(*ix)), R(y.at(*ix))))
        yield "dtype-of-the-base", r.dtype == dt0
        if mode == "embed":
            for q in range(2):
                yield f"common-size-{q}", z3.And(Z(r.dims[q]) <= d0[q], Z(r.dims[q]) <= d1[q],
                                                 z3.Or(Z(r.dims[q]) == d0[q], Z(r.dims[q]) == d1[q]))
        else:
            yield "shape", dims_are(r, d0)
            yield "sizes-agree", z3.And(*[p == q for p, q in zip(d0, d1)])

    def raises(self, I, g, exc):
        mode, d0, d1 = g[:3]
        if not isinstance(exc, RuntimeError):
            return None
        if mode in ("no-base", "three"):
            return True
        if mode == "embed" or mode == "one":
            return None
        return z3.Not(z3.And(*[p == q for p, q in zip(d0, d1)]))


@contract("P09")
class SlerpFormula(Contract):
    """slerp(t, v0, v1): sin((1-t)θ)/sin θ · v0 + sin(tθ)/sin θ · v1 with θ = acos of the cosine of the
    two (normalised) tensors; linear interpolation when |cos| > 0.9995; endpoints at t = 0 and 1."""

    target = SLERP + "slerp"
    cases = [1, 2]
    bounded = "tensor rank 1 and 2 (sizes unbounded)"
    trusted = ("sin(0) = 0; sin(acos c) != 0 for |c| <= 0.9995",)

    def setup(self, I, rank):
        ds = [z3.Int(f"d{k}") for k in range(rank)]
        for d in ds:
            I.eng.assume(d >= 0)
        v0, v1 = sym_tensor(I.eng, "v0", ds), sym_tensor(I.eng, "v1", ds)
        t = z3.Real("t")
        I.eng.assume(UF("sin")(z3.RealVal(0)) == 0)
        return (t, v0, v1), {}, (ds, v0, v1, t)

    def ensures(self, I, g, r):
        ds, v0, v1, t = g
        ix, rng = idx_in(ds)
        a, b = R(v0.at(*ix)), R(v1.at(*ix))
        yield "shape", dims_are(r, ds)
        got = R(r.at(*ix))
        # the coefficient of each input depends on t and the angle only
        n0 = tmodel.method(I, v0, "norm").at()
        n1 = tmodel.method(I, v1, "norm").at()
        eng = I.eng
        # (case split as in the definition of the unit vectors)
        u0 = (lambda p: R(p) / n0) if eng.branch(n0 > R(1e-8)) else (lambda p: R(p))
        u1 = (lambda p: R(p) / n1) if eng.branch(n1 > R(1e-8)) else (lambda p: R(p))
        d = tmodel.reduce_full(I, tmodel.pointwise(I, lambda p, q: u0(p) * u1(q), v0, v1))
        big = z3.Or(d > R(0.9995), d < -R(0.9995))
        th = UF("acos")(d)
        sin = UF("sin")
        if eng.branch(big):
            yield "lerp-when-nearly-parallel", z3.Implies(rng, got == (1 - t) * a + t * b)
        else:
            eng.assume(sin(th) != 0)
            f0, f1 = sin(th - th * t) / sin(th), sin(th * t) / sin(th)
            yield "slerp-formula", z3.Implies(rng, got == f0 * a + f1 * b)
            # endpoints: lemmas over the formula
            yield "lemma-start-0", z3.Implies(t == 0, f0 == 1)
            yield "lemma-start-1", z3.Implies(t == 0, f1 == 0)
            yield "lemma-end-0", z3.Implies(t == 1, f0 == 0)
            yield "lemma-end-1", z3.Implies(t == 1, f1 == 1)
        yield "start-point", z3.Implies(z3.And(rng, t == 0), got == a)
        yield "end-point", z3.Implies(z3.And(rng, t == 1), got == b)


# ------------------------------------------------------------------ nearswap


@contract("P09", "P12")
class Nearswap(Contract):
    target = "mergekit.merge_methods.nearswap:nearswap_merge"
    cases = [(r, n) for r in (1, 2, 3) for n in (0, 1, 2)]
    bounded = "tensor rank 1 to 3 (sizes unbounded)"

    def setup(self, I, case):
        rank, n = case
        ds, es = [z3.Int(f"d{k}") for k in range(rank)], [z3.Int(f"e{k}") for k in range(rank)]
        for d in ds + es:
            I.eng.assume(d >= 0)
        a, b, c = sym_tensor(I.eng, "a", ds), sym_tensor(I.eng, "b", es), sym_tensor(I.eng, "c", es)
        t = z3.Real("t")
        return (SList(items=[b, c][:n]), a, t), {}, (n, ds, es, a, b, t)

    def ensures(self, I, g, r):
        n, ds, es, a, b, t = g
        ix, rng = idx_in(ds)
        x = R(a.at(*ix))
        if n == 0:
            yield "base-when-alone", z3.And(dims_are(r, ds), z3.Implies(rng, R(r.at(*ix)) == x))
            return
        if n == 2:
            yield "refuses-more-than-two-models", False
            return
        y = R(b.at(*ix))
        yield "sizes-agree", z3.And(*[p == q for p, q in zip(ds, es)])
        yield "shape", dims_are(r, ds)
        got = R(r.at(*ix))
        diff = absr(x - y)
        dd = z3.If(diff < R(1e-6), R(1e-6), diff)
        w = t / dd
        w = z3.If(w < 0, z3.RealVal(0), z3.If(w > 1, z3.RealVal(1), w))
        yield "interpolation-by-distance", z3.Implies(rng, got == w * y + (1 - w) * x)
        yield "near-values-are-swapped", z3.Implies(z3.And(rng, t > 0, diff <= t, R(1e-6) <= t), got == y)
        yield "never-moves-further-than-t", z3.Implies(z3.And(rng, t >= 0, diff > t, diff >= R(1e-6)), absr(got - x) == t)

    def raises(self, I, g, exc):
        n, ds, es = g[:3]
        if not isinstance(exc, RuntimeError) or n == 0:
            return None
        return True if n == 2 else z3.Not(z3.And(*[p == q for p, q in zip(ds, es)]))
