"""Contracts of the selection and geometric merge methods: Model Stock, NuSLERP, Arcee Fusion, RAM, SCE."""

import torch
import z3

import mergekit.merge_methods.arcee_fusion as AF
import mergekit.merge_methods.model_stock as MST
import mergekit.merge_methods.nuslerp as NS
from pyvc import lib, tmodel
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import SDict, SList, SObj
from pyvc.tmodel import STensor, num, sym_tensor

from .merge import RECT, rectify_contract, weight_info
from .util import *

MM = "mergekit.merge_methods."
UF = tmodel.uf


def tens(I, name, rank, tag="d"):
    ds = [z3.Int(f"{tag}{k}") for k in range(rank)]
    for d in ds:
        I.eng.assume(d >= 0)
    return sym_tensor(I.eng, name, ds)


def op(I, name, t, *a, **k):
    return tmodel.method(I, t, name, *a, **k)


def pw(I, f, *ts):
    return tmodel.pointwise(I, f, *ts)


# ---------------------------------------------------------------- Model Stock


@contract("P09")
class ModelStock(Contract):
    """w = t * mean + (1 - t) * base with t = N cos / (1 + (N-1) cos), cos the mean pairwise cosine of the offsets"""

    target = MM + "model_stock:ModelStockMergeTask.execute"
    cases = [(r, n, f, b) for r in (1, 2) for n in (2, 3) for f in (False, True) for b in ("first", "last")
             if (r, n, f) != (2, 3, False)] + [
        (1, 2, False, "none"), (1, 0, False, "first"), (1, 1, False, "first"), (1, 1, False, "optional")]
    timeout_ms = 20000
    bounded = "2 or 3 models besides the base, ranks 1 and 2 (sizes and values unbounded)"
    calls = {RECT + "rectify_embed_sizes": rectify_contract}

    def setup(self, I, case):
        rank, n, fw, where = case
        ms = [ModelO.const(f"m{k}") for k in range(n + 1)]
        base = ModelO.const("base")
        I.eng.assume(z3.Distinct(*ms, base))
        ts = [tens(I, f"t{k}", rank) for k in range(n)]
        tb = tens(I, "tb", rank)
        pairs = list(zip(ms, ts))
        if where in ("first", "optional"):
            pairs.insert(0, (base, tb))
        elif where == "last":
            pairs.append((base, tb))
        else:
            pairs.append((ms[n], tb))
        w = weight_info("w", False)
        w.fields["optional"] = where == "optional"
        self_ = SObj(MST.ModelStockMergeTask, {"base_model": base, "weight_info": w, "filter_wise": fw, "gather_tensors": None})
        return (self_, SDict(pairs=pairs)), {}, (case, ts, tb)

    def ensures(self, I, g, r):
        (rank, n, fw, where), ts, tb = g
        if where == "none":
            yield "needs-its-base", False
            return
        if n == 0:
            yield "base-alone-unchanged", r is tb
            return
        if n == 1:
            yield "optional-weight-left-out", z3.BoolVal(r is None and where == "optional")
            return
        yield "shape", dims_are(r, tb.dims)
        eng = I.eng
        ix, rng = idx_in(tb.dims)
        # one vector per row (filter-wise) or one for the whole tensor
        if fw and rank == 2:
            vec = lambda t: t
        else:
            vec = lambda t: op(I, "reshape", t, -1)
        vb = vec(tb)
        offs = [pw(I, lambda x, y: num(x) - num(y), vec(t), vb) for t in ts]
        red = lambda t: R(op(I, "sum", t, dim=-1).at(*([ix[0]] if fw and rank == 2 else [])))
        nrm = lambda t: R(op(I, "norm", t, dim=-1).at(*([ix[0]] if fw and rank == 2 else [])))
        coss = []
        for i in range(n):
            for j in range(i + 1, n):
                p = nrm(offs[i]) * nrm(offs[j])
                c = red(pw(I, lambda x, y: num(x) * num(y), offs[i], offs[j])) / z3.If(p < R(1e-6), R(1e-6), p)
                coss.append(z3.If(c < -1, z3.RealVal(-1), z3.If(c > 1, z3.RealVal(1), c)))
        cos = sum(coss[1:], coss[0]) / len(coss)
        avg = sum([R(t.at(*ix)) for t in ts[1:]], R(ts[0].at(*ix))) / n
        den = 1 + (n - 1) * cos
        t = n * cos / den
        yield "formula", z3.Implies(z3.And(rng, den != 0), R(r.at(*ix)) == t * avg + (1 - t) * R(tb.at(*ix)))

    def raises(self, I, g, exc):
        (rank, n, fw, where), ts, tb = g
        return z3.BoolVal(isinstance(exc, ValueError) and (where == "none" or (n == 1 and where != "optional")))


# ---------------------------------------------------------------- Arcee Fusion


@contract("P09")
class Fusion(Contract):
    """base plus the other model's difference, exactly where the mask is set; the mask is computed from the pair (other, base)"""

    target = MM + "arcee_fusion:ArceeFusionMergeTask.execute"
    cases = [(r, m) for r in (1, 2, 3) for m in ("first", "second")] + [(1, "one"), (1, "none"), (1, "three")]
    bounded = "tensor ranks 1 to 3 (sizes and values unbounded)"

    def __init__(self):
        self.calls = {RECT + "rectify_embed_sizes": rectify_contract,
                      MM + "arcee_fusion:ArceeFusionMergeTask._compute_importance": self.importance,
                      MM + "arcee_fusion:DynamicThresholdFusion.compute_fusion_mask": self.mask}

    def importance(self, I, self_, params, base, *a, **k):
        f = z3.Function(f"importance{len(params.dims)}", REAL, REAL, *[INT] * len(params.dims), REAL)
        p, b = tmodel.frozen(params), tmodel.frozen(base)
        r = STensor(list(p.dims), lambda *i: f(R(p.at(*i)), R(b.at(*i)), *[Z(x) for x in i]), p.dtype, p.device)
        return r

    def mask(self, I, self_, scores):
        thr = I.eng.fresh("threshold", REAL)
        s = tmodel.frozen(scores)
        I.state_g["mask"] = (s, thr)
        return (STensor(list(s.dims), lambda *i: z3.If(R(s.at(*i)) >= thr, z3.RealVal(1), z3.RealVal(0)), s.dtype, s.device),
                STensor([], lambda: thr, s.dtype, s.device))

    def setup(self, I, case):
        rank, mode = case
        a, b, c = ModelO.const("a"), ModelO.const("b"), ModelO.const("c")
        I.eng.assume(z3.Distinct(a, b, c))
        x, y, z = tens(I, "x", rank), tens(I, "y", rank), tens(I, "z", rank)
        pairs = {"first": [(a, x), (b, y)], "second": [(b, y), (a, x)], "one": [(b, y)], "none": [(b, y), (c, z)], "three": [(a, x), (b, y), (c, z)]}[mode]
        self_ = SObj(AF.ArceeFusionMergeTask, {"base_model": a, "weight_info": weight_info("w", False), "gather_tensors": None})
        g = dict(mode=mode, x=x, y=y, mask=None, xa=x.at, ya=y.at)
        I.state_g = g
        return (self_, SDict(pairs=pairs)), {}, g

    def ensures(self, I, g, r):
        x, y, mode = g["x"], g["y"], g["mode"]
        if mode in ("none", "three"):
            yield "refused", False
            return
        if mode == "one":
            yield "single-tensor-unchanged", r is y
            return
        yield "shape", dims_are(r, x.dims)
        ix, rng = idx_in(x.dims)
        f = z3.Function(f"importance{len(x.dims)}", REAL, REAL, *[INT] * len(x.dims), REAL)
        a, b = R(x.at(*ix)), R(y.at(*ix))
        s, thr = g["mask"]
        yield "importance-of-the-other-model-relative-to-the-base", z3.Implies(rng, R(s.at(*ix)) == f(b, a, *ix))
        yield "selected-or-base", z3.Implies(rng, R(r.at(*ix)) == z3.If(f(b, a, *ix) >= thr, b, a))
        yield "inputs-unchanged", z3.BoolVal(x.at is g["xa"] and y.at is g["ya"])

    def raises(self, I, g, exc):
        return z3.BoolVal(isinstance(exc, RuntimeError) and g["mode"] in ("none", "three"))


@contract("P09")
class FusionMask(Contract):
    """the mask is 1 exactly where the score reaches the threshold"""

    target = MM + "arcee_fusion:DynamicThresholdFusion.compute_fusion_mask"
    cases = [1, 2]
    bounded = "tensor ranks 1 and 2"

    def __init__(self):
        def thr(I, self_, scores):
            I.state_g["of"] = scores
            return STensor([], lambda: z3.Real("threshold"), scores.dtype, scores.device)

        self.calls = {MM + "arcee_fusion:DynamicThresholdFusion.calculate_dynamic_threshold": thr}

    def setup(self, I, rank):
        s = tens(I, "s", rank)
        I.state_g = dict(s=s, of=None)
        return (SObj(AF.DynamicThresholdFusion, {}), s), {}, I.state_g

    def ensures(self, I, g, r):
        m, thr = r
        s = g["s"]
        ix, rng = idx_in(s.dims)
        yield "shape", dims_are(m, s.dims)
        yield "of-these-scores", g["of"] is s
        yield "exactly-where-reached", z3.Implies(rng, R(m.at(*ix)) == z3.If(R(s.at(*ix)) >= z3.Real("threshold"), z3.RealVal(1), z3.RealVal(0)))


# ---------------------------------------------------------------- NuSLERP


@contract("P09")
class NuSlerpExecute(Contract):
    """interpolates the two models' tensors (differences to the base, added back) in order, with t = second weight / sum"""

    target = MM + "nuslerp:NuSlerpTask.execute"
    cases = [(r, m) for r in (1, 2) for m in ("plain", "base-first", "base-mid", "base-last")] + [(1, "one"), (1, "three"), (1, "base-two")]
    bounded = "tensor ranks 1 and 2 (sizes and values unbounded)"

    def __init__(self):
        self.calls = {RECT + "rectify_embed_sizes": rectify_contract, MM + "nuslerp:nuslerp": self.nuslerp}

    def nuslerp(self, I, t, v0, v1, dim=-1, eps=1e-8, flatten=False):
        f = z3.Function(f"nuslerp{len(v0.dims)}", REAL, REAL, REAL, BOOL, INT, *[INT] * len(v0.dims), REAL)
        v0, v1 = tmodel.frozen(v0), tmodel.frozen(v1)
        return STensor(list(v0.dims), lambda *i: f(R(t), R(v0.at(*i)), R(v1.at(*i)), B(flatten), Z(dim), *[Z(x) for x in i]), v0.dtype, v0.device)

    def setup(self, I, case):
        rank, mode = case
        a, b, c = ModelO.const("a"), ModelO.const("b"), ModelO.const("c")
        I.eng.assume(z3.Distinct(a, b, c))
        x, y, z = tens(I, "x", rank), tens(I, "y", rank), tens(I, "z", rank)
        wa, wb = z3.Real("wa"), z3.Real("wb")
        P = {"plain": [(a, x), (b, y)], "base-first": [(c, z), (a, x), (b, y)], "base-mid": [(a, x), (c, z), (b, y)],
             "base-last": [(a, x), (b, y), (c, z)], "one": [(a, x)], "three": [(a, x), (b, y), (c, z)], "base-two": [(a, x), (c, z)]}[mode]
        pm = imap(SDict(pairs=[(a, imap(SDict(pairs=[("weight", wa)]))), (b, imap(SDict(pairs=[("weight", wb)]))),
                               (c, imap(SDict(pairs=[("weight", z3.Real("wc"))])))]))
        rw, fl = z3.Bool("row_wise"), z3.Bool("flatten")
        self_ = SObj(NS.NuSlerpTask, {"gather_tensors": None, "tensor_parameters": pm, "weight_info": weight_info("w", False), "row_wise": rw,
                                      "flatten": fl, "base_model": c if mode.startswith("base") else None})
        return (self_, SDict(pairs=P)), {}, (mode, x, y, z, wa, wb, rw, fl)

    def ensures(self, I, g, r):
        mode, x, y, z, wa, wb, rw, fl = g
        if mode in ("three", "base-two"):
            yield "refused", False
            return
        if mode == "one":
            yield "single-tensor-unchanged", r is x
            return
        yield "shape", dims_are(r, x.dims)
        ix, rng = idx_in(x.dims)
        f = z3.Function(f"nuslerp{len(x.dims)}", REAL, REAL, REAL, BOOL, INT, *[INT] * len(x.dims), REAL)
        s = wa + wb
        t = z3.If(z3.And(s < R(1e-6), s > -R(1e-6)), R(0.5), wb / s)
        b = R(z.at(*ix)) if mode != "plain" else z3.RealVal(0)
        want = f(t, R(x.at(*ix)) - b, R(y.at(*ix)) - b, fl, z3.If(rw, 0, -1), *ix) + b
        yield "interpolation", z3.Implies(rng, R(r.at(*ix)) == want)

    def raises(self, I, g, exc):
        return z3.BoolVal(isinstance(exc, RuntimeError) and g[0] in ("three", "base-two"))


@contract("P09")
class NuSlerpFormula(Contract):
    """each vector (whole tensor, row or column): sin((1-t)θ)/sin θ · v0 + sin(tθ)/sin θ · v1, linear when parallel"""

    target = MM + "nuslerp:nuslerp"
    cases = [(1, True, -1), (1, False, -1), (1, False, 0), (2, True, -1), (2, True, 0), (2, False, -1), (2, False, 0)]
    bounded = "tensor ranks 1 and 2 (sizes and values unbounded)"

    def setup(self, I, case):
        rank, fl, dim = case
        x, y = tens(I, "x", rank), tens(I, "y", rank)
        return (z3.Real("t"), x, y), {"dim": dim, "flatten": fl}, (case, x, y)

    def ensures(self, I, g, r):
        (rank, fl, dim), x, y = g
        yield "shape", dims_are(r, x.dims)
        ix, rng = idx_in(x.dims)
        if fl:
            vec, jx = (lambda t: op(I, "reshape", t, -1)), []
        elif rank == 1:
            vec, jx = (lambda t: t), []
        elif dim == -1:
            vec, jx = (lambda t: t), [ix[0]]
        else:
            vec, jx = (lambda t: op(I, "t", t)), [ix[1]]
        vx, vy = vec(x), vec(y)
        clamp = lambda n: z3.If(n < R(1e-7), R(1e-7), n)
        nx, ny = op(I, "norm", vx, dim=-1, keepdim=True), op(I, "norm", vy, dim=-1, keepdim=True)
        ux, uy = pw(I, lambda p, q: R(p) / clamp(R(q)), vx, nx), pw(I, lambda p, q: R(p) / clamp(R(q)), vy, ny)
        c = R(op(I, "sum", pw(I, lambda p, q: num(p) * num(q), ux, uy), dim=-1).at(*jx))
        c = z3.If(c < -1, z3.RealVal(-1), z3.If(c > 1, z3.RealVal(1), c))
        th = UF("acos")(c)
        s = UF("sin")(th)
        t = z3.Real("t")
        a, b = R(x.at(*ix)), R(y.at(*ix))
        lin = z3.And(s < R(1e-8), s > -R(1e-8))
        got = R(r.at(*ix))
        yield "linear-when-parallel", z3.Implies(z3.And(rng, lin), got == (1 - t) * a + t * b)
        yield "spherical", z3.Implies(z3.And(rng, z3.Not(lin)), got == (UF("sin")((1 - t) * th) * a + UF("sin")(t * th) * b) / s)


# ---------------------------------------------------------------- RAM


def ram_spec(I, ts, base, eps, ix):
    """offset of each model, whether it changes the parameter, how many do"""
    off = [R(t.at(*ix)) - R(base.at(*ix)) for t in ts]
    act = [absr(o) > eps for o in off]
    cnt = sum([z3.If(a, 1, 0) for a in act[1:]], z3.If(act[0], 1, 0)) if act else z3.IntVal(0)
    return off, act, cnt


class _Ram(Contract):
    cases = [(r, n) for r in (1, 2) for n in (0, 1, 2, 3)]
    bounded = "at most 3 models, tensor ranks 1 and 2 (sizes and values unbounded)"

    def setup(self, I, case):
        rank, n = case
        ts, b = [tens(I, f"t{k}", rank) for k in range(n)], tens(I, "b", rank)
        eps = z3.Real("epsilon")
        I.eng.assume(eps > 0)
        return (SList(items=list(ts)), b), {"epsilon": eps, **self.extra()}, (case, ts, b, eps)

    def extra(self):
        return {}


@contract("P09")
class Ram(_Ram):
    """base + the only model's change, or the mean of the changes of the models that change the parameter"""

    target = MM + "ram:ram_merge"

    def ensures(self, I, g, r):
        (rank, n), ts, b, eps = g
        ix, rng = idx_in(b.dims)
        yield "shape", dims_are(r, b.dims)
        off, act, cnt = ram_spec(I, ts, b, eps, ix)
        tot = sum([z3.If(a, o, z3.RealVal(0)) for o, a in zip(off, act)], z3.RealVal(0))
        yield "mean-of-the-active-changes", z3.Implies(rng, R(r.at(*ix)) == R(b.at(*ix)) + z3.If(cnt > 0, tot / z3.ToReal(z3.If(cnt > 0, cnt, 1)), 0))


@contract("P09")
class RamPlus(_Ram):
    """as RAM, with a model's unshared changes scaled by 1 + r * clamp(shared/unshared, 0, alpha)"""

    target = MM + "ram:ramplus_tl_merge"

    def extra(self):
        return {"r": z3.Real("r"), "alpha": z3.Real("alpha")}

    def ensures(self, I, g, r):
        (rank, n), ts, b, eps = g
        ix, rng = idx_in(b.dims)
        yield "shape", dims_are(r, b.dims)
        if not n:
            yield "base-when-alone", z3.Implies(rng, R(r.at(*ix)) == R(b.at(*ix)))
            return
        off, act, cnt = ram_spec(I, ts, b, eps, ix)
        lam = []
        for k, t in enumerate(ts):
            def flag(pred):
                x = STensor(list(b.dims), lambda *i: (lambda s: z3.If(z3.And(s[1][k], pred(s[2])), 1, 0))(ram_spec(I, ts, b, eps, i)), tmodel.dt(torch.int64))
                return R(op(I, "sum", x).at())

            sh, un = flag(lambda c: c > 1), flag(lambda c: c == 1)
            rho = sh / z3.If(un < eps, eps, un)
            lo = z3.If(rho < 0, z3.RealVal(0), rho)
            al = z3.Real("alpha")
            lam.append(1 + z3.Real("r") * z3.If(lo > al, al, lo))
        tot = sum([z3.If(a, z3.If(cnt == 1, o * l, o / z3.ToReal(z3.If(cnt > 0, cnt, 1))), z3.RealVal(0)) for o, a, l in zip(off, act, lam)], z3.RealVal(0))
        yield "scaled-unshared-mean-shared", z3.Implies(rng, R(r.at(*ix)) == R(b.at(*ix)) + tot)


# ---------------------------------------------------------------- SCE


@contract("P09")
class Sce(Contract):
    """base + weighted mean of the (selected, sign-agreeing) differences with SCE's weights"""

    target = MM + "sce:sce_merge"
    cases = [(r, n, k) for r in (1, 2) for n in (0, 1, 2, 3) for k in ("all", "some")]
    bounded = "at most 3 models, tensor ranks 1 and 2 (sizes and values unbounded)"

    def __init__(self):
        self.calls = {MM + "sce:sce_mask": self.mask, MM + "sce:sce_weight": self.weight,
                      MM + "generalized_task_arithmetic:get_mask": self.signs}

    def mask(self, I, tvs, density, mask_dtype=None):
        rank = len(tvs.dims) - 1
        f = z3.Function(f"sce_selected{rank}", *[INT] * rank, BOOL)
        I.state_g["masked"] = density
        return STensor(tvs.dims[1:], lambda *i: z3.If(f(*[Z(x) for x in i]), z3.RealVal(1), z3.RealVal(0)), tvs.dtype)

    def weight(self, I, tvs):
        f = z3.Function("sce_weight_of", INT, REAL)
        I.state_g["weighted"] = tmodel.frozen(tvs)
        return STensor([tvs.dims[0]], lambda i: f(Z(i)), tvs.dtype)

    def signs(self, I, delta, method="sum", mask_dtype=None):
        rank = len(delta.dims) - 1
        f = z3.Function(f"sce_agrees{rank}", *[INT] * (rank + 1), BOOL)
        I.state_g["signs"] = (tmodel.frozen(delta), method)
        return STensor(list(delta.dims), lambda *i: z3.If(f(*[Z(x) for x in i]), z3.RealVal(1), z3.RealVal(0)), delta.dtype)

    def setup(self, I, case):
        rank, n, k = case
        ts, b = [tens(I, f"t{j}", rank) for j in range(n)], tens(I, "b", rank)
        d = z3.Real("select_topk")
        I.eng.assume(d >= 1 if k == "all" else d < 1)
        I.state_g = dict(case=case, ts=ts, b=b, d=d, masked=None, weighted=None, signs=None)
        return (SList(items=list(ts)), b), {"select_topk": d}, I.state_g

    def ensures(self, I, g, r):
        rank, n, k = g["case"]
        ts, b = g["ts"], g["b"]
        ix, rng = idx_in(b.dims)
        yield "shape", dims_are(r, b.dims)
        if n == 0:
            yield "base-when-alone", z3.Implies(rng, R(r.at(*ix)) == R(b.at(*ix)))
            return
        sel = z3.Function(f"sce_selected{rank}", *[INT] * rank, BOOL)(*ix) if k == "some" else z3.BoolVal(True)
        yield "selection-iff-below-one", z3.BoolVal((g["masked"] is not None) == (k == "some"))
        if k == "some":
            yield "requested-density", R(g["masked"]) == g["d"]
        tv = [z3.If(sel, R(t.at(*ix)) - R(b.at(*ix)), z3.RealVal(0)) for t in ts]
        for j in range(n):
            yield "weights-of-the-selected-differences", z3.Implies(rng, R(g["weighted"].at(j, *ix)) == tv[j])
            yield "signs-of-the-selected-differences", z3.Implies(rng, R(g["signs"][0].at(j, *ix)) == tv[j])
        yield "majority-by-sum", z3.BoolVal(g["signs"][1] == "sum")
        W = z3.Function("sce_weight_of", INT, REAL)
        A = z3.Function(f"sce_agrees{rank}", *[INT] * (rank + 1), BOOL)
        if n == 3:
            for j in range(n):
                I.eng.branch(A(j, *ix))
            I.eng.branch(sel)
        ws = [z3.If(A(j, *ix), W(z3.IntVal(j)), z3.RealVal(0)) for j in range(n)]
        num_, den = sum([w * t for w, t in zip(ws, tv)], z3.RealVal(0)), sum(ws, z3.RealVal(0))
        den = z3.If(den < R(1e-6), R(1e-6), den)
        yield "weighted-mean-of-agreeing-differences", z3.Implies(rng, R(r.at(*ix)) == R(b.at(*ix)) + num_ / den)


@contract("P09")
class SceWeight(Contract):
    """a model's weight is its mean squared difference over the sum of all; equal weights when all vanish"""

    target = MM + "sce:sce_weight"
    cases = [(r, n) for r in (1, 2, 3) for n in (1, 2, 3)]
    bounded = "at most 3 models, tensor ranks 1 to 3 (sizes and values unbounded)"

    def setup(self, I, case):
        rank, n = case
        ds = [z3.Int(f"d{k}") for k in range(rank)]
        for d in ds:
            I.eng.assume(d > 0)
        t = sym_tensor(I.eng, "tv", [z3.IntVal(n) if False else n] + ds)
        return (t,), {}, (case, t)

    def ensures(self, I, g, r):
        (rank, n), t = g
        yield "shape", dims_are(r, [n])
        ms = [R(op(I, "mean", pw(I, lambda x: num(x) * num(x), STensor(t.dims[1:], lambda *i, k=k: t.at(k, *i), t.dtype))).at()) for k in range(n)]
        tot = sum(ms[1:], ms[0])
        tiny = z3.And(tot < R(1e-6), tot > -R(1e-6))
        for k in range(n):
            yield "share-of-energy", R(r.at(k)) == z3.If(tiny, R(1) / n, ms[k] / tot)
        x = [z3.Real(f"share{k}") for k in range(n)]
        s = sum(x[1:], x[0])
        I.eng.prove("lemma:shares-sum-to-one", z3.Implies(s != 0, sum([v / s for v in x[1:]], x[0] / s) == 1), only=[])


# ---------------------------------------------------------------- Multi-SLERP, Karcher


def same_shape_call(I, tensors, name=None):
    """callee contract of check_same_shape: raises unless all sizes agree; keeps no reference to its arguments"""
    items = lib.b_list(I, tensors).items
    for t in items:
        tmodel.release_view(t)
    if any(len(t.dims) != len(items[0].dims) for t in items):
        raise PyRaise(RuntimeError("Tensor size mismatch"))
    if not I.eng.branch(z3.And(*[Z(p) == Z(q) for t in items[1:] for p, q in zip(items[0].dims, t.dims)])):
        raise PyRaise(RuntimeError("Tensor size mismatch"))


@contract("P09")
class MultiSlerp(Contract):
    """exponential map at the (unit) weighted mean of the weighted tangents, scaled to the weighted mean norm; relative to the base"""

    target = MM + "multislerp:multislerp"
    calls = {RECT + "check_same_shape": same_shape_call}
    cases = [(1, 1, b, True) for b in (False, True)] + [(r, n, b, w) for r in (1, 2) for n in (2, 3) for b in (False, True) for w in (False, True)
                                                       if n == 2 or (b != w)]
    bounded = "at most 3 models, tensor ranks 1 and 2 (sizes and values unbounded)"
    timeout_ms = 20000

    def setup(self, I, case):
        rank, n, b, norm = case
        ts = [tens(I, f"t{k}", rank) for k in range(n)]
        ws = [z3.Real(f"w{k}") for k in range(n)]
        tb = tens(I, "base", rank) if b else None
        eps = z3.Real("eps")
        I.eng.assume(eps > 0)
        return (SList(items=list(ts)), SList(items=list(ws))), {"base_tensor": tb, "normalize_weights": norm, "eps": eps}, (case, ts, ws, tb, eps, [t.at for t in ts])

    def ensures(self, I, g, r):
        (rank, n, b, norm), ts, ws, tb, eps, ats = g
        if n == 1:
            yield "single-tensor-unchanged", r is ts[0]
            return
        yield "shape", dims_are(r, ts[0].dims)
        yield "inputs-unchanged", z3.BoolVal(all(t.at is a for t, a in zip(ts, ats)))
        ix, rng = idx_in(ts[0].dims)
        tot = sum(ws[1:], ws[0])
        w = [x / tot for x in ws] if norm else ws
        xs = [pw(I, lambda p, q: num(p) - num(q), t, tb) if b else t for t in ts]
        flat = [op(I, "reshape", x, -1) for x in xs]
        nrm = [R(op(I, "norm", f, dim=-1).at()) for f in flat]
        unit = [pw(I, (lambda d: lambda p: num(p) / d)(q + eps), f) for f, q in zip(flat, nrm)]

        def wsum(vs):
            acc = pw(I, lambda p: num(p) * w[0], vs[0])
            for v, c in list(zip(vs, w))[1:]:
                acc = pw(I, (lambda c: lambda p, q: num(p) + num(q) * c)(c), acc, v)
            return acc

        mean = wsum(unit)
        mn = R(op(I, "norm", mean).at())
        back = lambda v: R(op(I, "reshape", v, *ts[0].dims).at(*ix)) if rank > 1 else R(v.at(*ix))
        off = R(tb.at(*ix)) if b else z3.RealVal(0)
        if I.eng.branch(mn < eps):
            yield "linear-when-balanced", z3.Implies(rng, R(r.at(*ix)) == sum([R(x.at(*ix)) * c for x, c in list(zip(xs, w))[1:]], R(xs[0].at(*ix)) * w[0]) + off)
            yield "only-two", n == 2
            return
        mean = pw(I, lambda p: num(p) / mn, mean)
        dots = [R(op(I, "sum", pw(I, lambda p, q: num(p) * num(q), u, mean), dim=-1).at()) for u in unit]
        tang = [pw(I, (lambda d: lambda p, q: num(p) - d * num(q))(d), u, mean) for u, d in zip(unit, dots)]
        tr = wsum(tang)
        tn = R(op(I, "norm", tr).at()) + eps
        avg = sum([q * c for q, c in list(zip(nrm, w))[1:]], nrm[0] * w[0])
        want = (back(mean) * UF("cos")(tn) + back(tr) * (UF("sin")(tn) / tn)) * avg + off
        yield "formula", z3.Implies(rng, R(r.at(*ix)) == want)

    def raises(self, I, g, exc):
        (rank, n, b, norm), ts, ws, tb, eps, _ = g
        same = lambda x, y: z3.And(*[Z(p) == Z(q) for p, q in zip(x.dims, y.dims)])
        if isinstance(exc, RuntimeError):
            return z3.Not(z3.And(*[same(ts[0], t) for t in ts[1:] + ([tb] if b else [])]))
        return z3.BoolVal(isinstance(exc, ValueError) and n > 2)


import mergekit.merge_methods.karcher as KA  # noqa: E402


@contract("P09")
class KarcherExecute(Contract):
    """all models' tensors, equally weighted, with the configured iteration limits; a single tensor unchanged"""

    target = MM + "karcher:KarcherTask.execute"
    cases = [(r, n) for r in (1, 2) for n in (1, 2, 3)]
    bounded = "at most 3 models, tensor ranks 1 and 2"

    def __init__(self):
        def merge(I, ts, alphas, max_iter=10, tol=1e-5):
            I.state_g["asked"] = (list(ts.items), list(alphas.items), max_iter, tol)
            return I.state_g["result"]

        self.calls = {RECT + "rectify_embed_sizes": rectify_contract, MM + "karcher:karcher_merge_tensors": merge}

    def setup(self, I, case):
        rank, n = case
        ms = [ModelO.const(f"m{k}") for k in range(n)]
        I.eng.assume(z3.Distinct(*ms) if n > 1 else z3.BoolVal(True))
        ts = [tens(I, f"t{k}", rank) for k in range(n)]
        self_ = SObj(KA.KarcherTask, {"gather_tensors": None, "weight_info": weight_info("w", False), "max_iter": z3.Int("max_iter"), "tol": z3.Real("tol")})
        I.state_g = dict(n=n, ts=ts, result=tens(I, "res", rank), asked=None)
        return (self_, SDict(pairs=list(zip(ms, ts)))), {}, I.state_g

    def ensures(self, I, g, r):
        n, ts = g["n"], g["ts"]
        if n == 1:
            yield "single-tensor-unchanged", r is ts[0]
            return
        yield "the-mean", r is g["result"]
        a, al, mi, tol = g["asked"]
        yield "all-tensors", z3.BoolVal(len(a) == n and all(x.at is t.at for x, t in zip(a, ts)))
        yield "equal-weights", z3.And(z3.BoolVal(len(al) == n), *[R(x) * n == 1 if is_z3(x) else z3.BoolVal(abs(x * n - 1) < 1e-9) for x in al])
        yield "configured-limits", z3.And(Z(mi) == z3.Int("max_iter"), R(tol) == z3.Real("tol"))
