"""Contracts of the task-arithmetic family (mergekit/merge_methods/generalized_task_arithmetic.py)."""

import torch
import z3

import mergekit.merge_methods.generalized_task_arithmetic as GT
from mergekit.sparsify import RescaleNorm, SparsificationMethod
from pyvc import lib, tmodel
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import SDict, SList, SObj, SSet
from pyvc.tmodel import STensor, num, sym_tensor

from .merge import weight_info
from .util import *

M = "mergekit.merge_methods.generalized_task_arithmetic:"


def sgn(x):
    return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))


def agrees(x, total):
    """the entry's sign is the majority sign (ties count as positive; a zero entry never agrees)"""
    return sgn(x) == z3.If(total >= 0, z3.RealVal(1), z3.RealVal(-1))


@contract("P07")
class GetMask(Contract):
    target = M + "get_mask"
    cases = [(r, m, d) for r in (1, 2, 3) for m in ("sum", "count", GT.ConsensusMethod.sum, GT.ConsensusMethod.count)
             for d in (None, torch.int8)]
    bounded = "tensor ranks 1 to 3 (models and sizes unbounded)"

    def setup(self, I, case):
        rank, method, dt = case
        n = z3.Int("n")
        I.eng.assume(n >= 1)
        ds = [z3.Int(f"d{k}") for k in range(rank)]
        for d in ds:
            I.eng.assume(d >= 0)
        t = sym_tensor(I.eng, "delta", [n, *ds])
        return (t,), dict(method=method, mask_dtype=dt), (t, t.at, n, ds, method)

    def ensures(self, I, g, r):
        t, at, n, ds, method = g
        yield "input-unchanged", t.at is at
        yield "shape", dims_are(r, [n, *ds])
        ix, inr = idx_in(ds)
        k = z3.Int("mk")
        val = lambda q: R(at(q, *ix))
        tot = msum(I, n, val if "sum" in str(method) else lambda q: sgn(val(q)))
        yield "mask-is-agreement-with-the-majority-sign", z3.Implies(
            z3.And(inr, k >= 0, k < n), B(r.at(k, *ix)) == agrees(val(k), tot))


def mask_contract(I, delta, method="sum", mask_dtype=None):
    if not isinstance(delta, STensor) or len(delta.dims) < 1:
        raise Unsupported("get_mask argument")
    d = tmodel.frozen(delta)
    n = d.dims[0]

    def at(k, *ix):
        val = lambda q: R(d.at(q, *ix))
        tot = msum(I, n, val if "sum" in str(method) else lambda q: sgn(val(q)))
        return agrees(R(d.at(k, *ix)), tot)

    return STensor(list(d.dims), at, torch.bool, d.device)


class _GTA(Contract):
    bounded = "1 to 3 models besides the base, tensor ranks 1 and 2 (sizes and values unbounded)"

    def models_of(self, I, n, rank, position):
        """base model + n others at the given position in the dict"""
        ms = [ModelO.const(f"m{k}") for k in range(n)]
        b = ModelO.const("base")
        if n:
            I.eng.assume(z3.Distinct(b, *ms))
        ds = [z3.Int(f"d{k}") for k in range(rank)]
        for d in ds:
            I.eng.assume(d >= 0)
        base = sym_tensor(I.eng, "base", ds)
        return b, ms, ds, base


@contract("P07", "P12")
class GetTaskVectors(_GTA):
    """(x - base) for every other model, in order, with its parameters; models whose tensor has another
    size are left out, embeddings are first cut to the base's size"""

    target = M + "get_task_vectors"
    cases = [(n, r, e, p) for n in (0, 1, 2) for r in (1, 2) for e in (False, True) for p in (0, n) if n or not p] + [
        (1, 3, True, 0), (3, 2, False, 1)]
    bounded = "0 to 3 models besides the base, tensor ranks 1 to 3 (sizes and values unbounded)"

    def setup(self, I, case):
        n, rank, embed, pos = case
        b, ms, ds, base = self.models_of(I, n, rank, pos)
        es = [[z3.Int(f"e{j}_{k}") for k in range(rank)] for j in range(n)]
        for e in es:
            for d in e:
                I.eng.assume(d >= 0)
        ts = [sym_tensor(I.eng, f"t{j}", es[j]) for j in range(n)]
        pairs = list(zip(ms, ts))
        pairs.insert(pos, (b, base))
        w = [z3.Real(f"w{j}") for j in range(n)]
        ps = SDict(pairs=[(m, imap(SDict(pairs=[("weight", w[j]), ("density", R(1))]))) for j, m in enumerate(ms)])
        info = weight_info("w", embed)
        g = dict(b=b, ms=ms, ds=ds, base=base, es=es, ts=ts, at=[t.at for t in ts], w=w, embed=embed, rank=rank, n=n)
        return (info, b, SDict(pairs=pairs), ps), {}, g

    def ensures(self, I, g, r):
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], SList) and r[0].concrete):
            raise Unsupported("result of get_task_vectors")
        tvs, base = r
        ix, inr = idx_in(g["ds"])
        yield "base-returned", base is g["base"]
        pos = 0
        for j in range(g["n"]):
            e, ds = g["es"][j], g["ds"]
            cut = g["embed"] and g["rank"] == 2
            fits = z3.And(*[(x >= d if cut else x == d) for x, d in zip(e, ds)])
            here = I.eng.branch(fits)
            entry = tvs.items[pos] if pos < len(tvs.items) else None
            is_j = entry is not None and lib.getitem(I, entry, "model") is g["ms"][j]
            yield f"model-{j}-used-iff-its-size-fits", is_j == here
            if not is_j:
                continue
            pos += 1
            d = lib.getitem(I, entry, "delta")
            yield f"shape-{j}", dims_are(d, ds)
            yield f"difference-to-the-base-{j}", z3.Implies(inr, R(d.at(*ix)) == R(g["at"][j](*ix)) - R(g["base"].at(*ix)))
            yield f"parameters-{j}", R(lib.getitem(I, entry, "weight")) == g["w"][j]
        yield "nothing-else", pos == len(tvs.items)


def sparsify_contract(I, tensor, density, method, gamma=0, rescale_norm=None, epsilon=0.15):
    """a tensor of the same size, an unknown function of the arguments"""
    f = tmodel.frozen(tensor)
    out = sym_tensor(I.eng, f"sparse{len(I.sparse_log)}", list(f.dims), f.dtype, f.device)
    I.sparse_log.append((f, density, method, gamma, rescale_norm, epsilon, out))
    return out


@contract("P07")
class GTAExecute(_GTA):
    target = M + "GTATask.execute"
    cases = [(n, r, c, sp, lam) for n in (0, 1, 2, 3) for r in ((1, 2) if n < 3 else (1,))
             for c, sp, lam in ((None, None, None), (GT.ConsensusMethod.sum, SparsificationMethod.magnitude, None),
                                (GT.ConsensusMethod.count, None, 1.0),
                                (GT.ConsensusMethod.sum, SparsificationMethod.magnitude_outliers, 1.0),
                                (None, SparsificationMethod.della_magprune, None))]
    calls = {M + "get_mask": mask_contract, "mergekit.sparsify:sparsify": sparsify_contract}

    def __init__(self):
        def tvs(I, info, base_model, tensors, tensor_parameters):
            g = I.gta
            I.eng.prove("get_task_vectors:call:arguments", z3.And(base_model == g["b"], z3.BoolVal(
                info is g["info"] and tensors is g["tensors"] and tensor_parameters is g["params"])))
            return (SList(items=[SDict(pairs=[("model", m), ("delta", x), ("weight", w), ("density", d),
                                              *g["extra"](j)])
                                 for j, (m, x, w, d) in enumerate(zip(g["ms"], g["deltas"], g["w"], g["den"]))]), g["base"])

        self.calls = {**self.calls, M + "get_task_vectors": tvs}

    def setup(self, I, case):
        n, rank, cons, sp, lam = case
        b, ms, ds, base = self.models_of(I, n, rank, 0)
        I.sparse_log = []
        deltas = [sym_tensor(I.eng, f"delta{j}", ds) for j in range(n)]
        norm, i8 = z3.Bool("normalize"), z3.Bool("int8_mask")
        lam = z3.Real("lambda") if lam is None else lam
        gam = [z3.Real(f"gamma{j}") for j in range(n)]
        ep = [z3.Real(f"eps{j}") for j in range(n)]

        def extra(j):
            if sp == SparsificationMethod.magnitude_outliers:
                return [("gamma", gam[j])]
            if sp == SparsificationMethod.della_magprune:
                return [("epsilon", ep[j])]
            return []

        tensors, params = SDict(pairs=[(b, base)]), SDict(pairs=[])
        info = weight_info("w", z3.Bool("is_embed"))
        meth = SObj(GT.GeneralizedTaskArithmeticMerge, {"consensus_method": cons, "sparsification_method": sp})
        rn = RescaleNorm.l1 if sp else None
        g = dict(b=b, ms=ms, ds=ds, base=base, deltas=deltas, w=[z3.Real(f"w{j}") for j in range(n)],
                 den=[z3.Real(f"den{j}") for j in range(n)], tensors=tensors, params=params, info=info, cons=cons,
                 sp=sp, norm=norm, lam=lam, extra=extra, n=n, gam=gam, ep=ep, rn=rn, bat=base.at)
        I.gta = g
        self_ = SObj(GT.GTATask, {"method": meth, "tensors": None, "base_model": b, "weight_info": info,
                                  "tensor_parameters": imap(params), "int8_mask": i8, "normalize": norm,
                                  "lambda_": lam, "rescale_norm": rn})
        return (self_, tensors), {}, g

    def ensures(self, I, g, r):
        n, ds = g["n"], g["ds"]
        ix, inr = idx_in(ds)
        bv = R(g["bat"](*ix))
        yield "shape", dims_are(r, ds)
        if n == 0:
            yield "base-when-nothing-to-merge", z3.Implies(inr, R(r.at(*ix)) == bv)
            return
        if g["sp"]:
            yield "each-task-vector-sparsified-once", len(I.sparse_log) == n
            if len(I.sparse_log) != n:
                return
            for j, (f, den, meth, gam, rn, ep, out) in enumerate(I.sparse_log):
                yield f"sparsify-arguments-{j}", z3.And(
                    z3.Implies(inr, R(f.at(*ix)) == R(g["deltas"][j].at(*ix))), R(den) == g["den"][j],
                    z3.BoolVal(meth == g["sp"] and rn is g["rn"]),
                    R(gam) == g["gam"][j] if g["sp"] == SparsificationMethod.magnitude_outliers else z3.BoolVal(True),
                    R(ep) == g["ep"][j] if g["sp"] == SparsificationMethod.della_magprune else z3.BoolVal(True))
            d = [R(x[-1].at(*ix)) for x in I.sparse_log]
        else:
            d = [R(x.at(*ix)) for x in g["deltas"]]
        wd = [g["w"][j] * d[j] for j in range(n)]
        add = lambda xs: z3.Sum(*xs) if len(xs) > 1 else xs[0]
        if g["cons"]:
            tot = add(wd) if g["cons"] == GT.ConsensusMethod.sum else add([sgn(x) for x in wd])
            keep = [agrees(x, tot) for x in wd]
            mixed = add([z3.If(k, x, z3.RealVal(0)) for k, x in zip(keep, wd)])
            div = add([z3.If(k, w, z3.RealVal(0)) for k, w in zip(keep, g["w"])])
            zero = div == 0
        else:
            mixed, div = add(wd), add(g["w"])
            zero = absr(div) < R(1e-8)
        lam = R(g["lam"])
        got = R(r.at(*ix))
        yield "base-plus-scaled-sum", z3.Implies(z3.And(inr, z3.Not(g["norm"])), got == bv + mixed * lam)
        yield "normalised-by-the-weights-used", z3.Implies(
            z3.And(inr, g["norm"], z3.Not(zero)), got == bv + mixed / div * lam)
        yield "no-division-by-zero-weight", z3.Implies(z3.And(inr, g["norm"], zero), got == bv + mixed * lam)
        yield "base-unchanged", g["base"].at is g["bat"]


@contract("P07")
class GTAExecuteAnyCount(Contract):
    """the mixing formula for any number of task vectors (no sparsification)"""

    target = M + "GTATask.execute"
    cases = [(r, c) for r in (1, 2, 3) for c in (None, GT.ConsensusMethod.sum, GT.ConsensusMethod.count)]
    bounded = "tensor ranks 1 to 3 (models, sizes and values unbounded)"

    def __init__(self):
        self.calls = {M + "get_mask": mask_contract,
                      M + "get_task_vectors": lambda I, *a, **k: (I.gta["tvs"], I.gta["base"])}

    def setup(self, I, case):
        rank, cons = case
        n = z3.Int("n")
        I.eng.assume(n >= 1)
        ds = [z3.Int(f"d{k}") for k in range(rank)]
        for d in ds:
            I.eng.assume(d >= 0)
        base = sym_tensor(I.eng, "base", ds)
        D = z3.Function("D", INT, *[INT] * rank, REAL)
        W = z3.Function("W", INT, REAL)
        mk = lambda i: SDict(pairs=[
            ("delta", STensor(list(ds), lambda *ix: D(Z(i), *[Z(x) for x in ix]), torch.float32, "cpu")), ("weight", W(Z(i)))])
        tvs = SList(n=n, get=mk)
        norm, i8, lam = z3.Bool("normalize"), z3.Bool("int8_mask"), z3.Real("lambda")
        meth = SObj(GT.GeneralizedTaskArithmeticMerge, {"consensus_method": cons, "sparsification_method": None})
        b = ModelO.const("base")
        self_ = SObj(GT.GTATask, {"method": meth, "tensors": None, "base_model": b, "weight_info": weight_info("w", False),
                                  "tensor_parameters": imap(SDict(pairs=[])), "int8_mask": i8, "normalize": norm,
                                  "lambda_": lam, "rescale_norm": None})
        I.gta = g = dict(tvs=tvs, base=base, n=n, ds=ds, D=D, W=W, norm=norm, lam=lam, cons=cons, bat=base.at)
        return (self_, SDict(pairs=[(b, base)])), {}, g

    def ensures(self, I, g, r):
        n, ds, D, W = g["n"], g["ds"], g["D"], g["W"]
        ix, inr = idx_in(ds)
        bv = R(g["bat"](*ix))
        yield "shape", dims_are(r, ds)
        wd = lambda k: D(k, *ix) * W(k)
        if g["cons"]:
            tot = msum(I, n, wd if g["cons"] == GT.ConsensusMethod.sum else lambda k: sgn(wd(k)))
            m01 = lambda k: z3.If(agrees(wd(k), tot), z3.RealVal(1), z3.RealVal(0))
            mixed = msum(I, n, lambda k: z3.If(agrees(wd(k), tot), wd(k), z3.RealVal(0)))
            div = msum(I, n, lambda k: z3.If(agrees(wd(k), tot), W(k), z3.RealVal(0)))
            zero = div == 0
        else:
            mixed, div = msum(I, n, wd), msum(I, n, W)
            zero = absr(div) < R(1e-8)
        got, lam = R(r.at(*ix)), g["lam"]
        yield "base-plus-scaled-sum", z3.Implies(z3.And(inr, z3.Not(g["norm"])), got == bv + mixed * lam)
        yield "normalised-by-the-weights-used", z3.Implies(
            z3.And(inr, g["norm"], z3.Not(zero)), got == bv + mixed / div * lam)
        yield "no-division-by-zero-weight", z3.Implies(z3.And(inr, g["norm"], zero), got == bv + mixed * lam)
        yield "base-unchanged", g["base"].at is g["bat"]
