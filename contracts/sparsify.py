"""Contracts of sparsification (mergekit/sparsify.py)."""

import torch
import z3

import mergekit.sparsify as SP
from pyvc import lib, tmodel
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import SDict, SList, SObj, SSet
from pyvc.tmodel import STensor, num, reduce_full, sqrt_term, sym_tensor

from .util import *

M = "mergekit.sparsify:"
NORMS = [None, SP.RescaleNorm.l1, SP.RescaleNorm.l2, SP.RescaleNorm.linf]
EPS = 1e-7


def tens(I, rank, name="t"):
    dtype, device = z3.Const("in_dtype", tmodel.DType), z3.Const("in_device", tmodel.Device)
    I.eng.assume(tmodel.is_float_dt(dtype))
    ds = [z3.Int(f"{name}_d{k}") for k in range(rank)]
    for d in ds:
        I.eng.assume(d >= 1)
    return sym_tensor(I.eng, name, ds, dtype, device)


def pw(t, f):
    return t.like(lambda *i: f(num(t.at(*i))))


def norm_of(I, t, norm):
    if norm == SP.RescaleNorm.l1:
        return reduce_full(I, pw(t, absr))
    if norm == SP.RescaleNorm.l2:
        return sqrt_term(I, reduce_full(I, pw(t, lambda x: x * x)))
    return reduce_full(I, pw(t, absr), "max")


@contract("P08")
class RescaledMasked(Contract):
    target = M + "rescaled_masked_tensor"
    cases = [(r, n) for r in (1, 2, 3) for n in NORMS]
    bounded = "tensor ranks 1 to 3 (dimensions and values unbounded)"

    def setup(self, I, case):
        rank, norm = case
        t = tens(I, rank)
        m = sym_tensor(I.eng, "m", t.dims, t.dtype, t.device)
        return (t, m, norm), {}, (norm, t, m, t.at, m.at)

    def ensures(self, I, g, r):
        norm, t, m, ta, ma = g
        yield "inputs-unchanged", t.at is ta and m.at is ma and r is not t and r is not m
        yield "shape", dims_are(r, t.dims)
        ix, inr = idx_in(t.dims)
        masked = t.like(lambda *i: num(ta(*i)) * num(ma(*i)))
        if norm is None:
            yield "kept-or-zero", z3.Implies(inr, R(r.at(*ix)) == R(masked.at(*ix)))
            return
        b, a = norm_of(I, t, norm), norm_of(I, masked, norm)
        tiny = z3.Or(b < R(EPS), a < R(EPS))
        yield "rescaled-to-the-norm", z3.Implies(z3.And(inr, z3.Not(tiny)), R(r.at(*ix)) == R(masked.at(*ix)) * (b / a))
        yield "kept-when-the-norm-vanishes", z3.Implies(z3.And(inr, tiny), R(r.at(*ix)) == R(masked.at(*ix)))


def rescaled_contract(I, tensor, mask, norm, eps=EPS):
    """result: the masked tensor times one positive factor (1 without a norm)"""
    if not (isinstance(tensor, STensor) and isinstance(mask, STensor)) or len(tensor.dims) != len(mask.dims):
        raise Unsupported("rescaled_masked_tensor arguments")
    if norm is None:
        c = z3.RealVal(1)
    else:
        c = I.eng.fresh("scale", REAL)
        I.eng.assume(c > 0)
    tf, mf = tmodel.frozen(tensor), tmodel.frozen(mask)
    r = tf.like(lambda *i: num(tf.at(*i)) * num(mf.at(*i)) * c)
    r.dtype = tmodel.promote(tf.dtype, mf.dtype)
    I.rescale = (tf, mf, norm, c)
    return r


CALLS = {M + "rescaled_masked_tensor": rescaled_contract}


def int_of(x):
    """int() of a nonnegative real"""
    return z3.ToInt(x)


class _Prune(Contract):
    cases = [(r, n) for r in (1, 2, 3) for n in (None, SP.RescaleNorm.l1)]
    bounded = "tensor ranks 1 to 3 (dimensions and values unbounded)"
    calls = CALLS
    desc = True

    def setup(self, I, case):
        rank, norm = case
        t = tens(I, rank)
        d = z3.Real("density")
        I.eng.assume(z3.And(d >= 0))
        kw = dict(density=d, rescale_norm=norm, **self.extra(I))
        return (t,), kw, dict(t=t, at=t.at, norm=norm, density=d, **self.extra(I))

    def extra(self, I):
        return {}

    def ensures(self, I, g, r):
        t = g["t"]
        yield "input-unchanged", t.at is g["at"]
        yield "shape", dims_are(r, t.dims)
        ix, inr = idx_in(t.dims, "a")
        jx, jnr = idx_in(t.dims, "b")
        if not hasattr(I, "rescale"):
            yield "only-full-density-skips-pruning", g["density"] >= 1
            yield "full-density-unchanged", z3.Implies(inr, R(r.at(*ix)) == R(g["at"](*ix)))
            return
        yield "density-below-one", g["density"] < 1
        tf, mf, norm, c = I.rescale
        yield "requested-norm", norm is g["norm"]
        yield "dtype-kept", r.dtype == t.dtype
        yield "of-the-input", z3.Implies(inr, R(tf.at(*ix)) == R(g["at"](*ix)))
        yield "kept-or-zero", z3.Implies(inr, R(r.at(*ix)) == R(g["at"](*ix)) * R(mf.at(*ix)) * c)
        yield from self.mask(I, g, mf, ix, inr, jx, jnr)

    def kept_ranks(self, g, n):
        """[lo, hi) of ascending ranks (0 = smallest) kept"""

    def mask(self, I, g, mf, ix, inr, jx, jnr):
        s = getattr(I.eng, "last_sort", None)
        if s is None:
            raise Unsupported("the mask does not come from one sort")
        p, q, n, w, desc = s
        t = g["t"]
        N = Z(tmodel.prod(t.dims))
        flat = (lambda *i: Z(i[0])) if len(t.dims) == 1 else (lambda *i: z3.Function(
            f"flat{len(t.dims)}", *[INT] * (2 * len(t.dims)), INT)(*[Z(x) for x in i], *[Z(d) for d in t.dims]))
        fi, fj = flat(*ix), flat(*jx)
        mention(I, fi, fj, z3.Select(q, fi), z3.Select(q, fj), z3.Select(p, z3.Select(q, fi)), z3.Select(p, z3.Select(q, fj)))
        asc = (lambda f: N - 1 - z3.Select(q, f)) if desc else (lambda f: z3.Select(q, f))
        lo, hi = self.kept_ranks(g, N)
        kept = z3.And(asc(fi) >= lo, asc(fi) < hi)
        yield "sorted-all-elements", n == N
        # asc is a bijection between the elements and 0..N-1 (sort contract), so exactly hi-lo elements are kept
        yield "exactly-the-elements-of-these-ranks", z3.Implies(inr, R(mf.at(*ix)) == z3.If(kept, R(1), R(0)))
        a = lambda i: absr(R(g["at"](*i)))
        yield "ranks-order-magnitudes", z3.Implies(z3.And(inr, jnr, asc(fi) < asc(fj)), a(ix) <= a(jx))


@contract("P08")
class Magnitude(_Prune):
    target = M + "magnitude"

    def kept_ranks(self, g, n):
        return n - int_of(g["density"] * z3.ToReal(n)), n

    def raises(self, I, g, exc):
        if isinstance(exc, AssertionError):
            n = Z(tmodel.prod(g["t"].dims))
            return z3.And(g["density"] < 1, int_of(g["density"] * z3.ToReal(n)) <= 0)
        return None


@contract("P08")
class MagnitudeOutliers(_Prune):
    target = M + "magnitude_outliers"

    def extra(self, I):
        gm = z3.Real("gamma")
        I.eng.assume(z3.And(gm >= 0, gm <= 1))
        return dict(gamma=gm)

    def kept_ranks(self, g, n):
        keep = int_of(g["density"] * z3.ToReal(n))
        top = int_of(g["gamma"] * z3.ToReal(n))
        top = z3.If(top > n - keep, n - keep, top)
        return n - top - keep, n - top


@contract("P08")
class Bernoulli(_Prune):
    target = M + "bernoulli"
    cases = [(r, n) for r in (1, 2, 3) for n in (None, SP.RescaleNorm.l1)]

    def mask(self, I, g, mf, ix, inr, jx, jnr):
        if len(I.bern_log) != 1:
            raise Unsupported("not one random draw")
        p, f = I.bern_log[0]
        yield "one-draw-per-element", dims_are(p, g["t"].dims)
        yield "kept-with-probability-density", z3.Implies(inr, R(p.at(*ix)) == g["density"])
        yield "mask-is-the-draw", z3.Implies(inr, R(mf.at(*ix)) == z3.If(f(*ix), R(1), R(0)))


@contract("P08")
class DellaMagprune(Contract):
    target = M + "della_magprune"
    cases = [(1, SP.RescaleNorm.l1), (2, None)]
    bounded = "tensor ranks 1 and 2 (dimensions and values unbounded)"
    calls = CALLS
    timeout_ms = 20000

    def setup(self, I, case):
        rank, norm = case
        t = tens(I, rank)
        d, e = z3.Reals("density epsilon")
        I.eng.assume(e >= 0)
        return (t,), dict(density=d, epsilon=e, rescale_norm=norm), (t, t.at, norm, d, e, list(t.dims))

    def ensures(self, I, g, r):
        t, at, norm, d, e, ds = g
        yield "input-unchanged", t.at is at
        yield "shape", dims_are(r, ds)
        ix, inr = idx_in(ds, "a")
        if not hasattr(I, "rescale"):
            yield "trivial-densities", z3.Or(d >= 1, d <= 0)
            yield "all-or-nothing", z3.Implies(inr, R(r.at(*ix)) == z3.If(d >= 1, R(at(*ix)), R(0)))
            return
        yield "density-proper", z3.And(d < 1, d > 0, d + e < 1, d - e > 0)
        tf, mf, nrm, c = I.rescale
        yield "requested-norm", nrm is norm
        rows = (lambda i: (z3.IntVal(0),) + tuple(i)) if len(ds) == 1 else tuple
        rx = rows(ix)
        yield "kept-or-zero", z3.Implies(inr, R(r.at(*ix)) == R(at(*ix)) * R(mf.at(*rx)) * c)
        if len(I.bern_log) != 1 or not hasattr(I.eng, "last_row_sort"):
            raise Unsupported("not one sort and one random draw")
        p, f = I.bern_log[0]
        P, Q, w, desc = I.eng.last_row_sort
        yield "ascending-magnitude-per-row", not desc
        jx, jnr = idx_in(ds, "b")
        n = Z(ds[-1])
        rank = Q(*[Z(x) for x in rx])
        mention(I, rank, P(rx[0], z3.IntVal(0)), Q(rx[0], P(rx[0], z3.IntVal(0))), P(rx[0], n - 1), Q(rx[0], P(rx[0], n - 1)))
        yield "mask-is-the-draw", z3.Implies(inr, R(mf.at(*rx)) == z3.If(f(*rx), R(1), R(0)))
        for row in ([rx[0]] if len(ds) == 1 or I.eng._feasible(Z(ds[0]) != 1) else [z3.IntVal(0)]):
            lo, hi = (tmodel.big_ext(I, ds[-1], lambda k: z3.ToReal(Q(row, Z(k))) + 1, mx) for mx in (False, True))
            mention(I, P(row, z3.IntVal(0)), Q(row, P(row, z3.IntVal(0))), P(row, n - 1), Q(row, P(row, n - 1)))
            yield "lemma-least-rank", z3.Implies(inr, lo == 1)
            yield "lemma-greatest-rank", z3.Implies(inr, hi == z3.ToReal(n))
        span = z3.If(n > 1, z3.ToReal(n - 1), R(1))
        want = (d - e) + 2 * e * (z3.ToReal(rank) / span)
        yield "probability-by-rank", z3.Implies(inr, R(p.at(*rx)) == want)
        same_row = z3.And(*[a == b for a, b in zip(ix[:-1], jx[:-1])]) if len(ds) > 1 else z3.BoolVal(True)
        a = lambda i: absr(R(at(*i)))
        mention(I, Q(*[Z(x) for x in rows(jx)]))
        yield "ranks-order-magnitudes", z3.Implies(z3.And(inr, jnr, same_row, rank < Q(*[Z(x) for x in rows(jx)])), a(ix) <= a(jx))

    def raises(self, I, g, exc):
        t, at, norm, d, e, ds = g
        if isinstance(exc, ValueError):
            return z3.And(d > 0, d < 1, z3.Or(d + e >= 1, d - e <= 0))
        return None


@contract("P08")
class SparsifyDispatch(Contract):
    target = M + "sparsify"
    cases = list(SP.SparsificationMethod)

    def __init__(self):
        def rec(name):
            def f(I, tensor, *a, **k):
                I.dispatch.append((name, tensor, a, k))
                return I.result
            return f
        self.calls = {M + n: rec(n) for n in ("magnitude", "bernoulli", "magnitude_outliers", "della_magprune")}

    def setup(self, I, case):
        I.dispatch = []
        t = tens(I, 2)
        I.result = tens(I, 2, "res")
        d, gm, e = z3.Reals("density gamma epsilon")
        nm = SP.RescaleNorm.l1
        return (t,), dict(density=d, method=case, gamma=gm, epsilon=e, rescale_norm=nm), (case, t, d, gm, e, nm)

    def ensures(self, I, g, r):
        case, t, d, gm, e, nm = g
        fn = {"magnitude": "magnitude", "random": "bernoulli", "magnitude_outliers": "magnitude_outliers",
              "della_magprune": "della_magprune"}[case.value]
        order = {"magnitude": ["density", "rescale_norm"], "bernoulli": ["density", "rescale_norm"],
                 "magnitude_outliers": ["density", "rescale_norm", "gamma"],
                 "della_magprune": ["density", "epsilon", "rescale_norm"]}[fn]
        yield "one-method", len(I.dispatch) == 1 and I.dispatch[0][0] == fn
        name, x, a, k = I.dispatch[0]
        k = {**dict(zip(order, a)), **k}
        yield "of-the-tensor", x is t
        yield "its-result", r is I.result
        want = {"density": d, "rescale_norm": nm, "gamma": gm, "epsilon": e}
        for p in order:
            yield f"{p}-passed", k.get(p) is want[p]
