"""Run-time contracts of the merge methods, against independent float64 oracles."""

import math

import numpy as np
import torch

from mergekit.architecture import WeightInfo
from mergekit.common import ImmutableMap, ModelReference
from mergekit.graph import Executor, Task
from mergekit.merge_methods import REGISTERED_MERGE_METHODS
from mergekit.merge_methods.base import TensorDictWrapper
from pyvc.rt import Skip, case

GTA = {  # name: (consensus, sparsification, normalize, rescale) -- from the documentation of the methods
    "task_arithmetic": (None, None, False, False),
    "ties": ("sum", "magnitude", True, False),
    "dare_ties": ("sum", "random", False, True),
    "dare_linear": (None, "random", False, True),
    "breadcrumbs": (None, "outliers", False, False),
    "breadcrumbs_ties": ("sum", "outliers", False, False),
    "della": ("sum", "della", True, True),
    "della_linear": (None, "della", False, True),
}


class Const(Task[torch.Tensor]):
    key: str

    def arguments(self):
        return {}

    def execute(self):
        return POOL[self.key]


POOL = {}


def ref(i):
    return ModelReference.parse(f"model-{i}")


def gather(models, tensors, tag):
    for m, t in zip(models, tensors):
        POOL[f"{tag}/{m}"] = t
    return TensorDictWrapper(tensors=ImmutableMap({m: Const(key=f"{tag}/{m}") for m in models}))


def method_task(name, models, tensors, base=None, params=None, tparams=None, weight=None, tag="t"):
    m = REGISTERED_MERGE_METHODS[name]
    p = {d.name: d.default_value for d in m.parameters() if not d.required}
    p.update(params or {})
    tp = {}
    for i, r in enumerate(models):
        d = {x.name: x.default_value for x in m.tensor_parameters() if not x.required}
        d.update((tparams or [{}] * len(models))[i])
        tp[r] = ImmutableMap(d)
    return m.make_task(
        output_weight=weight or WeightInfo(name="model.w"), tensors=gather(models, tensors, tag), base_model=base,
        parameters=ImmutableMap(p), tensor_parameters=ImmutableMap(tp))


def run_method(name, models, tensors, **kw):
    """through the executor, and check that nobody writes to the inputs"""
    before = [t.clone() for t in tensors]
    task = method_task(name, models, tensors, **kw)
    out = [v for _, v in Executor([task]).run(quiet=True)]
    for b, t in zip(before, tensors):
        assert torch.equal(b, t) or torch.isnan(b).any(), f"{name} changed one of its inputs"
    assert len(out) == 1
    return out[0]


def gen(rng):
    g = torch.Generator()
    g.manual_seed(rng.randrange(1 << 30))
    return g


def shape_of(rng, maxrank=3, lo=1):
    return [rng.randrange(1, 7) for _ in range(rng.randrange(lo, maxrank + 1))]


def fill(rng, g, shape, kind=None, dtype=torch.float32):
    kind = kind or rng.choice(["normal", "int", "sparse"])
    if kind == "normal":
        t = torch.randn(shape, generator=g)
    elif kind == "int":
        t = torch.randint(-4, 5, shape, generator=g).float()
    else:
        t = torch.randn(shape, generator=g) * (torch.rand(shape, generator=g) > 0.5)
    return t.to(dtype)


def D(t):
    return t.detach().double().numpy()


def close(got, want, dtype, scale=1.0, what=""):
    got = D(got)
    assert got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}"
    assert np.isfinite(want).all()
    tol = {torch.float64: 1e-9, torch.float32: 2e-5, torch.bfloat16: 0.05, torch.float16: 8e-3}[dtype]
    m = max(1.0, scale, float(np.abs(want).max()) if want.size else 1.0)
    err = np.abs(got - want)
    assert np.isfinite(got).all() and (err <= tol * m).all(), f"{what}: got {got.tolist()}, expected {want.tolist()}"


def pick_dtype(rng):
    return rng.choice([torch.float32, torch.float32, torch.float32, torch.float64, torch.bfloat16, torch.float16])


@case("P07", "1-5 models, shapes up to rank 3, float64/32/16/bf16", quick=400, deep=4000)
def linear_is_weighted_mean(rng, i, note):
    g = gen(rng)
    n = rng.randrange(1, 6)
    models = [ref(k) for k in range(n)]
    rng.shuffle(models)
    dt = pick_dtype(rng)
    shape = shape_of(rng)
    ts = [fill(rng, g, shape, dtype=dt) for _ in models]
    ws = [rng.choice([0.0, 0.25, 0.5, 1.0, 2.0, rng.uniform(0.1, 3), -0.5]) for _ in models]
    norm = rng.choice([None, True, False])
    if norm is not False and abs(sum(ws)) < 0.2:
        ws[0] += 1
        if abs(sum(ws)) < 0.2:
            ws[0] += 1
    note(dict(n=n, shape=shape, dtype=str(dt), weights=ws, normalize=norm, t=[t.tolist() for t in ts]))
    out = run_method("linear", models, ts, params={} if norm is None else {"normalize": norm},
                     tparams=[{"weight": w} for w in ws])
    want = sum(w * D(t) for w, t in zip(ws, ts))
    if norm is not False:
        want = want / sum(ws)
    assert out.dtype == dt
    close(out, want, dt, scale=sum(abs(w) for w in ws) * 5 / max(0.2, abs(sum(ws)) if norm is not False else 1), what="linear")


@case("P07", "one model, any scale; other model counts are refused", quick=100, deep=600)
def passthrough_copies_or_scales(rng, i, note):
    g = gen(rng)
    dt = pick_dtype(rng)
    t = fill(rng, g, shape_of(rng, lo=0), dtype=dt)
    sc = rng.choice([None, 0, 0.0, 1.0, 0.5, -2, 3])
    note(dict(scale=sc, t=t.tolist()))
    out = run_method("passthrough", [ref(0)], [t], tparams=[{"scale": sc}] if sc is not None else None)
    assert out.dtype == dt and out.shape == t.shape
    if sc is None:
        assert torch.equal(out, t), "passthrough without scale must copy"
    else:
        close(out, D(t) * sc, dt, what="passthrough")
    if rng.random() < 0.3:
        try:
            run_method("passthrough", [ref(0), ref(1)], [t, t])
        except RuntimeError:
            pass
        else:
            raise AssertionError("passthrough accepted two tensors")


def keep_top(d, density):
    """magnitude pruning of a task vector with distinct magnitudes"""
    if density >= 1:
        return d
    k = int(density * d.size)
    order = np.argsort(-np.abs(d).reshape(-1), kind="stable")
    m = np.zeros(d.size)
    m[order[:k]] = 1
    return d * m.reshape(d.shape)


def drop_outliers(d, density, gamma):
    if density >= 1:
        return d
    n = d.size
    target, top = int(density * n), int(gamma * n)
    bot = n - target - top
    if bot < 0:
        top, bot = top + bot, 0
    order = np.argsort(np.abs(d).reshape(-1), kind="stable")
    m = np.zeros(n)
    m[order[bot : n - top]] = 1
    return d * m.reshape(d.shape)


def rescale_l1(before, after):
    b, a = np.abs(before).sum(), np.abs(after).sum()
    return after if b < 1e-7 or a < 1e-7 else after * (b / a)


@case("P07", "1-4 task vectors, all eight methods, non-random sparsification (density 1 for random ones), shapes up "
      "to rank 3", quick=700, deep=8000)
def task_arithmetic_family_formula(rng, i, note):
    g = gen(rng)
    name = rng.choice(list(GTA))
    consensus, sp, dnorm, dresc = GTA[name]
    if name not in REGISTERED_MERGE_METHODS:
        raise AssertionError(f"merge method {name} is not registered")
    n = rng.randrange(0, 5)
    models = [ref(k) for k in range(n + 1)]
    rng.shuffle(models)
    base = models[0]
    order = list(models)
    rng.shuffle(order)
    shape = shape_of(rng)
    dt = rng.choice([torch.float32, torch.float32, torch.float64])
    density = [1.0] * (n + 1)
    if sp in ("magnitude", "outliers") and rng.random() < 0.7:
        density = [rng.choice([1.0, 0.5, 0.75, 0.34, 0.9]) for _ in range(n + 1)]
    kind = "normal" if any(d < 1 for d in density) else rng.choice(["normal", "int", "sparse"])
    ts = {m: fill(rng, g, shape, kind, dt) for m in order}
    size = int(np.prod(shape))
    density = [d if int(d * size) > 0 else 1.0 for d in density]
    ws = [rng.choice([1.0, 0.5, 2.0, 0.25, -1.0, 0.0]) for _ in order]
    gamma = rng.choice([None, 0.01, 0.2, 0.0])
    params = {}
    norm = rng.choice([None, True, False])
    resc = rng.choice([None, True, False])
    lam = rng.choice([None, 1.0, 0.5, 2.0, 0.0])
    if norm is not None:
        params["normalize"] = norm
    if resc is not None:
        params["rescale"] = resc
    if lam is not None:
        params["lambda"] = lam
    if rng.random() < 0.4:
        params["int8_mask"] = rng.choice([True, False])
    tps = []
    for m, w, d in zip(order, ws, density):
        p = {"weight": w, "density": d}
        if d == 1.0 and rng.random() < 0.5:
            del p["density"]
        if sp == "outliers" and gamma is not None:
            p["gamma"] = gamma
        tps.append(p)
    note(dict(method=name, params=params, tparams=tps, base=str(base), t={str(m): ts[m].tolist() for m in order}))
    out = run_method(name, order, [ts[m] for m in order], base=base, params=params, tparams=tps)
    b = D(ts[base])
    deltas, weights = [], []
    for m, w, d in zip(order, ws, density):
        if m == base:
            continue
        x = D(ts[m] - ts[base])
        if sp == "magnitude":
            y = keep_top(x, d)
        elif sp == "outliers":
            y = drop_outliers(x, d, 0.01 if gamma is None else gamma)
        else:
            y = x
        if d < 1 and (dresc if resc is None else resc):
            y = rescale_l1(x, y)
        deltas.append(y * w)
        weights.append(w)
    if not deltas:
        close(out, b, dt, what=name)
        return
    deltas = np.stack(deltas)
    W = np.array(weights).reshape([-1] + [1] * len(shape)) * np.ones_like(deltas)
    if consensus:
        total = deltas.sum(0)
        # an exact cancellation is only meaningful for exactly representable data
        if kind != "int" and (np.abs(total) < 1e-5 * (np.abs(deltas).sum(0))).any() and (np.abs(deltas).sum(0) > 0).any():
            amb = (np.abs(total) < 1e-5 * np.abs(deltas).sum(0)) & (np.abs(deltas).sum(0) > 0)
            if amb.any():
                raise Skip("sign election not decidable in floating point")
        maj = np.where(total >= 0, 1, -1)
        mask = np.sign(deltas) == maj
        mixed = (deltas * mask).sum(0)
        div = (W * mask).sum(0)
        div = np.where(div == 0, 1, div)
    else:
        mixed = deltas.sum(0)
        div = W.sum(0)
        div = np.where(np.abs(div) < 1e-8, 1, div)
    if dnorm if norm is None else norm:
        mixed = mixed / div
    want = b + mixed * (1.0 if lam is None else lam)
    assert out.dtype == dt
    close(out, want, dt, scale=10, what=name)


@case("P07", "two outputs of one graph that share the same inputs, with different parameters", quick=150, deep=1200)
def shared_inputs_do_not_interfere(rng, i, note):
    g = gen(rng)
    name = rng.choice(["linear", "task_arithmetic", "ties", "nuslerp", "slerp", "sce", "ram", "multislerp", "karcher",
                       "model_stock", "nearswap", "arcee_fusion"])
    n = {"slerp": 2, "nearswap": 2, "arcee_fusion": 2, "nuslerp": 3, "model_stock": 4}.get(name, rng.randrange(2, 5))
    models = [ref(k) for k in range(n)]
    shape = shape_of(rng, 2)
    ts = [fill(rng, g, shape, "normal") for _ in models]
    base = None if name in ("linear", "karcher") else models[rng.randrange(n)]

    def task(k):
        prm = {"t": 0.1 + 0.3 * k} if name in ("slerp", "nearswap") else ({"lambda": 1.0 + k} if name in ("ties", "task_arithmetic") else {})
        tp = [{"weight": 0.5 + j + k} for j in range(n)] if name not in ("slerp", "nearswap", "sce", "ram", "karcher", "model_stock", "arcee_fusion") else None
        return method_task(name, models, ts, base=base, params=prm, tparams=tp, weight=WeightInfo(name=f"w{k}"), tag="s")

    note(dict(method=name, base=str(base), t=[t.tolist() for t in ts]))
    tasks = [task(0), task(1), task(2)]
    got = [v for _, v in Executor(tasks).run(quiet=True)]
    got_by = dict(Executor(tasks).run(quiet=True))
    for t in tasks:
        alone = [v for _, v in Executor([t]).run(quiet=True)][0]
        assert torch.equal(alone, got_by[t]), f"{name}: result depends on what else is in the graph"
    assert len(got) == len(tasks)


# ------------------------------------------------------------------ P08 sparsification


def _sparsify():
    import mergekit.sparsify as sp

    return sp


@case("P08", "tensors up to 200 elements, ranks 1-3, float32/64/16/bf16, densities in (0,1], all norms", quick=500, deep=6000)
def deterministic_sparsification(rng, i, note):
    sp = _sparsify()
    g = gen(rng)
    shape = shape_of(rng)
    if rng.random() < 0.3:
        shape = [rng.randrange(1, 200)]
    dt = rng.choice([torch.float32, torch.float32, torch.float64, torch.float16, torch.bfloat16])
    t = fill(rng, g, shape, dtype=dt)
    method = rng.choice(["magnitude", "magnitude_outliers"])
    density = rng.choice([1.0, 0.5, 0.9, 0.1, 0.33, 1.5, rng.random()])
    gamma = rng.choice([0.0, 0.01, 0.1, 0.5, rng.random()])
    norm = rng.choice([None, "l1", "l2", "linf"])
    n = t.numel()
    k = int(density * n)
    if k == 0 and method == "magnitude":
        raise Skip("density keeps nothing")
    note(dict(method=method, density=density, gamma=gamma, norm=norm, t=t.tolist(), dtype=str(dt)))
    keep = t.clone()
    out = sp.sparsify(t, density=density, method=sp.SparsificationMethod(method), gamma=gamma,
                      rescale_norm=None if norm is None else sp.RescaleNorm(norm))
    assert torch.equal(t, keep), "input modified"
    assert out.shape == t.shape and out.dtype == t.dtype
    if density >= 1:
        assert torch.equal(out, t)
        return
    x, y = D(t).reshape(-1), D(out).reshape(-1)
    check_pruned(x, y, norm, dt)
    a = np.sort(np.abs(x))
    if method == "magnitude":
        lo, hi = n - k, n
    else:
        top = int(gamma * n)
        bot = n - k - top
        if bot < 0:
            top, bot = top + bot, 0
        lo, hi = bot, n - top
    # the kept values are, as a multiset of magnitudes, exactly ranks lo..hi of the sorted magnitudes
    kept = np.sort(np.abs(x[y != 0]))
    want = a[lo:hi]
    want = want[want > 0]
    if norm is not None and dt in (torch.float16, torch.bfloat16):
        assert len(kept) <= len(want)
    else:
        assert len(kept) == len(want) and (kept == want).all(), f"kept magnitudes {kept.tolist()}, expected {want.tolist()}"


def norm_of(v, norm):
    return {"l1": np.abs(v).sum(), "l2": math.sqrt((v * v).sum()), "linf": np.abs(v).max() if v.size else 0.0}[norm]


def check_pruned(x, y, norm, dt):
    """every output element is 0 or (common factor) * input; with a norm, the norm is that of the input"""
    nz = y != 0
    assert not (nz & (x == 0)).any(), "a zero became non-zero"
    if norm is None:
        assert (y[nz] == x[nz]).all(), "a kept value changed"
        return
    tol = {torch.float64: 1e-6, torch.float32: 1e-4, torch.float16: 0.02, torch.bfloat16: 0.1}[dt]
    if not nz.any():
        return
    before = norm_of(x, norm)
    surv = np.where(nz, x, 0)
    after = norm_of(surv, norm)
    if before < 1e-6 or after < 1e-6:
        return
    f = before / after
    assert np.abs(y[nz] - f * x[nz]).max() <= tol * max(1.0, np.abs(f * x).max()), "kept values not rescaled by the norm ratio"
    if dt in (torch.float64, torch.float32):
        assert abs(norm_of(y, norm) - before) <= 1e-3 * max(1, before), "norm not restored"


@case("P08", "tensors up to 4000 elements; random methods: support, rescaling, mean density within 6 sigma", quick=200, deep=2000)
def random_sparsification(rng, i, note):
    sp = _sparsify()
    g = gen(rng)
    torch.manual_seed(rng.randrange(1 << 30))
    shape = rng.choice([[rng.randrange(1, 50)], [rng.randrange(1, 40), rng.randrange(1, 100)], [20, 200], [3, 4, 5]])
    dt = rng.choice([torch.float32, torch.float32, torch.float64, torch.float16, torch.bfloat16])
    t = fill(rng, g, shape, "normal", dtype=dt)
    t[t == 0] = 1
    method = rng.choice(["random", "della_magprune"])
    density = rng.choice([1.0, 0.5, 0.9, 0.3, 0.7, 1.2])
    eps = rng.choice([0.0, 0.05, 0.09, 0.2])
    norm = rng.choice([None, "l1", "l2", "linf"])
    note(dict(method=method, density=density, eps=eps, norm=norm, shape=shape, dtype=str(dt)))
    keep = t.clone()
    try:
        out = sp.sparsify(t, density=density, method=sp.SparsificationMethod(method), epsilon=eps,
                          rescale_norm=None if norm is None else sp.RescaleNorm(norm))
    except ValueError:
        assert method == "della_magprune" and density < 1 and (density + eps >= 1 or density - eps <= 0), "refused valid input"
        return
    assert torch.equal(t, keep), "input modified"
    assert out.shape == t.shape and out.dtype == t.dtype
    if density >= 1:
        assert torch.equal(out, t)
        return
    x, y = D(t).reshape(-1), D(out).reshape(-1)
    check_pruned(x, y, norm, dt)
    if dt in (torch.float32, torch.float64):
        p = (y != 0).mean()
        sigma = math.sqrt(0.25 / x.size)
        dev = eps if method == "della_magprune" and len(shape) < 2 and x.size < 2 else 0.0
        if method == "della_magprune" and shape[-1] == 1 or (method == "della_magprune" and len(shape) == 3):
            dev = eps + 1e-9
        if method == "della_magprune" and len(shape) > 1 and shape[1] == 1:
            dev = eps + 1e-9
        assert abs(p - density) <= 6 * sigma + dev, f"kept fraction {p}, density {density}"


@case("P08", "40 rows x 400 columns: survival rises with magnitude rank within each row, density -/+ epsilon at the ends",
      quick=20, deep=200)
def della_prefers_large_magnitudes(rng, i, note):
    sp = _sparsify()
    g = gen(rng)
    torch.manual_seed(rng.randrange(1 << 30))
    rows, cols = 200, 100
    scale = torch.exp(torch.randn(rows, 1, generator=g) * 3)  # rows of very different size: ranking is per row
    t = torch.randn(rows, cols, generator=g) * scale
    density, eps = rng.choice([(0.5, 0.4), (0.3, 0.25), (0.7, 0.25)])
    note(dict(density=density, eps=eps, seed=i))
    out = sp.sparsify(t, density=density, method=sp.SparsificationMethod.della_magprune, epsilon=eps)
    order = t.abs().argsort(dim=1)
    kept = (out != 0).float().gather(1, order)
    for lo, hi in ((0, 25), (40, 60), (75, 100)):
        p = kept[:, lo:hi].mean().item()
        r = (lo + hi - 1) / 2 / (cols - 1)
        want = density - eps + 2 * eps * r
        sigma = math.sqrt(0.25 / (rows * (hi - lo)))
        assert abs(p - want) < 6 * sigma, f"ranks {lo}-{hi}: kept {p}, expected {want}"


@case("P07", "one task vector, random pruning: every element of the merged delta is 0 or the common multiple of the "
      "original", quick=150, deep=1500)
def random_pruned_methods(rng, i, note):
    g = gen(rng)
    torch.manual_seed(rng.randrange(1 << 30))
    name = rng.choice(["dare_linear", "dare_ties", "della", "della_linear"])
    shape = shape_of(rng, 2)
    base = torch.zeros(shape)
    d = fill(rng, g, shape, "normal")
    w = rng.choice([1.0, 0.5, 2.0])
    density = rng.choice([0.5, 0.7])
    resc = rng.choice([None, True, False])
    tps = [{"weight": 1.0}, {"weight": w, "density": density, **({"epsilon": 0.1} if name.startswith("della") else {})}]
    note(dict(method=name, d=d.tolist(), w=w, density=density, rescale=resc))
    out = run_method(name, [ref(0), ref(1)], [base, d], base=ref(0), params={} if resc is None else {"rescale": resc}, tparams=tps)
    x, y = D(d).reshape(-1), D(out).reshape(-1)
    if not GTA[name][2]:  # otherwise normalised: divided by the weight
        x = x * w
    if resc is None or resc:
        check_pruned(x, y, "l1", torch.float32)
    else:
        kept = y != 0
        assert np.allclose(x[kept], y[kept], atol=1e-5), f"{x.tolist()} became {y.tolist()}"


# ------------------------------------------------------------------ P09 geometric / selection methods


def o_slerp(t, a, b):
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    u, v = (a / na if na > 1e-8 else a), (b / nb if nb > 1e-8 else b)
    dot = float((u * v).sum())
    if abs(dot) > 0.9995:
        return (1 - t) * a + t * b
    th = math.acos(dot)
    return math.sin((1 - t) * th) / math.sin(th) * a + math.sin(t * th) / math.sin(th) * b


def pair(rng, g, shape, dt=torch.float32):
    a = fill(rng, g, shape, "normal", dt)
    k = rng.randrange(6)
    if k == 0:
        b = a * 1.5
    elif k == 1:
        b = torch.zeros(shape, dtype=dt)
    elif k == 2:
        b = a + 0.3 * fill(rng, g, shape, "normal", dt)
    else:
        b = fill(rng, g, shape, "normal", dt)
    return a, b, k


@case("P09", "two models, ranks 1-3, t in [0,1], colinear, zero and general position", quick=300, deep=3000)
def slerp_formula(rng, i, note):
    g = gen(rng)
    shape = shape_of(rng)
    a, b, k = pair(rng, g, shape)
    t = rng.choice([0.0, 1.0, 0.5, rng.random()])
    note(dict(t=t, a=a.tolist(), b=b.tolist()))
    if abs(abs(np.dot(D(a).ravel(), D(b).ravel()) / max(1e-9, np.linalg.norm(D(a)) * np.linalg.norm(D(b)))) - 0.9995) < 1e-4:
        raise Skip("at the threshold")
    if np.dot(D(a).ravel(), D(b).ravel()) < -0.99 * np.linalg.norm(D(a)) * np.linalg.norm(D(b)) and np.linalg.norm(D(b)) > 1e-6:
        raise Skip("nearly opposite: ill-conditioned in single precision")
    models = [ref(0), ref(1)]
    base = rng.randrange(2)
    out = run_method("slerp", models, [a, b], base=models[base], params={"t": t})
    x, y = (a, b) if base == 0 else (b, a)
    close(out, o_slerp(t, D(x), D(y)), torch.float32, scale=20, what="slerp")
    if t == 0.0:
        close(out, D(x), torch.float32, scale=5, what="slerp t=0 must be the base model")
    if t == 1.0:
        close(out, D(y), torch.float32, scale=5, what="slerp t=1 must be the other model")


def o_nuslerp(t, a, b, dim, flatten):
    shape = a.shape
    if flatten:
        a, b = a.reshape(1, -1), b.reshape(1, -1)
    else:
        a, b = np.swapaxes(a, dim, -1), np.swapaxes(b, dim, -1)
    a2, b2 = a.reshape(-1, a.shape[-1]), b.reshape(-1, b.shape[-1])
    out = np.empty_like(a2)
    for r in range(len(a2)):
        u = a2[r] / max(1e-7, np.linalg.norm(a2[r]))
        v = b2[r] / max(1e-7, np.linalg.norm(b2[r]))
        c = max(-1.0, min(1.0, float((u * v).sum())))
        if c < -0.995:
            raise Skip("antipodal")
        th = math.acos(c)
        if math.sin(th) < 2e-3:
            out[r] = (1 - t) * a2[r] + t * b2[r]  # slerp and lerp agree to rounding here
        else:
            out[r] = (math.sin((1 - t) * th) * a2[r] + math.sin(t * th) * b2[r]) / math.sin(th)
    out = out.reshape(a.shape)
    return out.reshape(shape) if flatten else np.swapaxes(out, dim, -1)


@case("P09", "two models with or without base, ranks 1-3, row-wise/column-wise/flattened", quick=300, deep=3000)
def nuslerp_formula(rng, i, note):
    g = gen(rng)
    shape = shape_of(rng)
    a, b, k = pair(rng, g, shape, torch.float64)
    withbase = rng.random() < 0.4
    c = fill(rng, g, shape, "normal", torch.float64) if withbase else torch.zeros(shape, dtype=torch.float64)
    w0, w1 = rng.choice([(0.3, 0.7), (1.0, 1.0), (0.0, 2.0), (3.0, 0.0), (1.0, -1.0), (0.5, 0.1)])
    row, flat = rng.random() < 0.5, rng.random() < 0.5
    note(dict(w=(w0, w1), row=row, flatten=flat, base=withbase, a=a.tolist(), b=b.tolist(), c=c.tolist()))
    t = 0.5 if abs(w0 + w1) < 1e-6 else w1 / (w0 + w1)
    want = D(c) + o_nuslerp(t, D(a - c), D(b - c), 0 if row else -1, flat)
    models = [ref(0), ref(1)] + ([ref(2)] if withbase else [])
    ts = [a, b] + ([c] if withbase else [])
    ws = [w0, w1] + ([9.0] if withbase else [])
    perm = list(range(len(models)))
    if withbase:
        at = rng.randrange(3)  # the base model may come anywhere among the inputs
        perm.remove(2)
        perm.insert(at, 2)
    out = run_method("nuslerp", [models[p] for p in perm], [ts[p] for p in perm], base=ref(2) if withbase else None,
                     params={"nuslerp_row_wise": row, "nuslerp_flatten": flat}, tparams=[{"weight": ws[p]} for p in perm])
    close(out, want, torch.float32, scale=20, what="nuslerp")


@case("P09", "base + one model, ranks 1-3", quick=200, deep=2000)
def nearswap_formula(rng, i, note):
    g = gen(rng)
    shape = shape_of(rng)
    a, b, k = pair(rng, g, shape)
    if rng.random() < 0.3:
        b = torch.where(torch.rand(shape, generator=g) > 0.5, a, b)
    t = rng.choice([0.0, 0.01, 0.3, 1.0, 5.0, 1e-4])
    note(dict(t=t, a=a.tolist(), b=b.tolist()))
    base = rng.randrange(2)
    out = run_method("nearswap", [ref(0), ref(1)], [a, b], base=ref(base), params={"t": t})
    x, y = (D(a), D(b)) if base == 0 else (D(b), D(a))
    w = np.clip(t / np.maximum(np.abs(x - y), 1e-6), 0, 1)
    close(out, w * y + (1 - w) * x, torch.float32, scale=5, what="nearswap")


@case("P09", "base + 2-5 models, ranks 1-3, whole-tensor and filter-wise", quick=200, deep=2000)
def model_stock_formula(rng, i, note):
    g = gen(rng)
    shape = shape_of(rng)
    n = rng.randrange(2, 6)
    fw = rng.random() < 0.5
    base = fill(rng, g, shape, "normal", torch.float64)
    common = fill(rng, g, shape, "normal", torch.float64)
    ws = [base + common + fill(rng, g, shape, "normal", torch.float64) * rng.choice([0.3, 1.0]) for _ in range(n)]
    models = [ref(k) for k in range(n + 1)]
    order = list(range(n + 1))
    rng.shuffle(order)
    note(dict(n=n, filter_wise=fw, base=base.tolist(), ws=[w.tolist() for w in ws]))
    all_ = [base] + ws
    out = run_method("model_stock", [models[k] for k in order], [all_[k] for k in order], base=models[0], params={"filter_wise": fw})
    w0, wn = D(base), [D(w) for w in ws]
    if not fw or len(shape) == 1:
        A, W = w0.reshape(1, -1), [w.reshape(1, -1) for w in wn]
    else:
        A, W = w0.reshape(-1, shape[-1]), [w.reshape(-1, shape[-1]) for w in wn]
    cs = []
    for p in range(n):
        for q in range(p + 1, n):
            x, y = W[p] - A, W[q] - A
            den = np.maximum(np.linalg.norm(x, axis=-1) * np.linalg.norm(y, axis=-1), 1e-6)
            cs.append(np.clip((x * y).sum(-1) / den, -1, 1))
    c = np.mean(cs, axis=0)[:, None]
    if (np.abs(1 + (n - 1) * c) < 0.05).any():
        raise Skip("degenerate angle")
    t = n * c / (1 + (n - 1) * c)
    want = (t * (sum(W) / n) + (1 - t) * A).reshape(shape)
    close(out, want, torch.float32, scale=50, what="model_stock")


def o_multislerp(ts, ws, base, normalize, eps=1e-8):
    X = np.stack(ts)
    if base is not None:
        X = X - base
    F = X.reshape(len(ts), -1)
    w = np.array(ws)
    if normalize:
        w = w / w.sum()
    nn = np.linalg.norm(F, axis=1)
    U = F / (nn + eps)[:, None]
    m = (U * w[:, None]).sum(0)
    mn = np.linalg.norm(m)
    if mn < 0.05:
        raise Skip("antipodal")
    m = m / mn
    T = ((U - (U * m).sum(1, keepdims=True) * m) * w[:, None]).sum(0)
    tn = np.linalg.norm(T) + eps
    r = m * math.cos(tn) + T * (math.sin(tn) / tn)
    r = (r * (nn * w).sum()).reshape(X.shape[1:])
    return r + base if base is not None else r


@case("P09", "1-4 models with or without base, ranks 1-3", quick=250, deep=2500)
def multislerp_formula(rng, i, note):
    g = gen(rng)
    shape = shape_of(rng)
    n = rng.randrange(1, 5)
    withbase = rng.random() < 0.5
    norm = rng.choice([None, True, False])
    ts = [fill(rng, g, shape, "normal", torch.float64) for _ in range(n)]
    base = fill(rng, g, shape, "normal", torch.float64) if withbase else None
    ws = [rng.choice([1.0, 0.5, 0.2, 2.0]) for _ in range(n)]
    models = [ref(k) for k in range(n + withbase)]
    at = rng.randrange(n + 1) if withbase else None
    order = list(range(n))
    note(dict(n=n, base=withbase, at=at, ws=ws, normalize=norm, t=[t.tolist() for t in ts], b=base.tolist() if withbase else None))
    T, W = list(ts), list(ws)
    if withbase:
        T.insert(at, base)
        W.insert(at, 7.0)
    if n == 1 and withbase:
        want = D(ts[0])
    elif n == 1:
        want = D(ts[0])
    else:
        want = o_multislerp([D(t) for t in ts], ws, D(base) if withbase else None, norm is not False)
    out = run_method("multislerp", models, T, base=models[at] if withbase else None,
                     params={} if norm is None else {"normalize_weights": norm}, tparams=[{"weight": w} for w in W])
    close(out, want, torch.float32, scale=20, what="multislerp")


@case("P09", "1-4 models, ranks 1-3: a fixed point of the Riemannian mean equations at the average norm, on the "
      "unit sphere scale", quick=200, deep=2000)
def karcher_is_riemannian_mean(rng, i, note):
    g = gen(rng)
    shape = shape_of(rng)
    n = rng.randrange(1, 5)
    common = fill(rng, g, shape, "normal", torch.float64)
    ts = [common * 1.5 + fill(rng, g, shape, "normal", torch.float64) for _ in range(n)]
    z = rng.random() < 0.2 and n > 1
    if z:
        ts[rng.randrange(n)] = torch.zeros(shape, dtype=torch.float64)
    note(dict(t=[t.tolist() for t in ts]))
    xs = [D(t).reshape(-1) for t in ts]
    norms = [np.linalg.norm(x) for x in xs]
    units = [x / m for x, m in zip(xs, norms) if m > 1e-5]
    if n > 1 and any(float(u @ v) < 0.2 for u in units for v in units):
        raise Skip("too spread out for a unique mean")
    out = run_method("karcher", [ref(k) for k in range(n)], ts, params={"max_iter": 60})
    y = D(out).reshape(-1)
    assert out.shape == ts[0].shape and out.dtype == ts[0].dtype
    if n == 1:
        close(out, D(ts[0]), torch.float32)
        return
    s = sum(norms) / n
    if not units:
        assert np.abs(y).max() == 0
        return
    assert abs(np.linalg.norm(y) - s) <= 1e-4 * max(1, s), f"norm {np.linalg.norm(y)}, average norm {s}"
    u = y / np.linalg.norm(y)
    grad = np.zeros_like(u)
    for v in units:
        d = max(-1.0, min(1.0, float(u @ v)))
        th = math.acos(d)
        if th > 1e-9:
            grad += th / math.sin(th) * (v - d * u)
    assert np.linalg.norm(grad) / len(units) < 1e-3, f"not a mean: residual {np.linalg.norm(grad)}"


@case("P09", "base + 0-4 models, ranks 1-3, select_topk in (0,1]", quick=300, deep=3000)
def sce_formula(rng, i, note):
    g = gen(rng)
    shape = shape_of(rng)
    n = rng.randrange(0, 5)
    dt = torch.float64
    base = fill(rng, g, shape, "normal", dt)
    ts = [base + fill(rng, g, shape, rng.choice(["normal", "sparse"]), dt) for _ in range(n)]
    topk = rng.choice([None, 1.0, 0.5, 0.25, 0.8, 0.01, 0.0])
    params = {} if topk is None else {"select_topk": topk}
    if rng.random() < 0.3:
        params["int8_mask"] = True
    note(dict(params=params, base=base.tolist(), t=[t.tolist() for t in ts]))
    at = rng.randrange(n + 1)
    T = list(ts)
    T.insert(at, base)
    out = run_method("sce", [ref(k) for k in range(n + 1)], T, base=ref(at), params=params)
    b = D(base)
    assert out.dtype == dt
    if not n:
        close(out, b, dt)
        return
    X = np.stack([D(t) for t in ts]) - b
    if topk is not None and topk < 1:
        var = X.var(axis=0)
        k = int((var != 0).sum() * topk)
        mask = np.zeros(var.size)
        mask[np.argsort(-var.reshape(-1), kind="stable")[:k]] = 1
        v = np.sort(var.reshape(-1))[::-1]
        if 0 < k < len(v) and v[k - 1] - v[k] < 1e-12:
            raise Skip("tie")
        X = X * mask.reshape(var.shape)
    tot = X.sum(0)
    if ((np.abs(tot) < 1e-9) & (np.abs(X).sum(0) > 1e-9)).any():
        raise Skip("sign tie")
    maj = np.where(tot >= 0, 1, -1)
    em = np.sign(X) == maj
    w = (X**2).reshape(n, -1).mean(1)
    w = np.ones(n) / n if abs(w.sum()) < 1e-6 else w / w.sum()
    ew = w.reshape([-1] + [1] * len(shape)) * em
    want = b + (X * ew).sum(0) / np.maximum(ew.sum(0), 1e-6)
    close(out, want, torch.float32, scale=5, what="sce")


@case("P09", "base + 0-4 models, ranks 1-3", quick=300, deep=3000)
def ram_formula(rng, i, note):
    g = gen(rng)
    shape = shape_of(rng)
    n = rng.randrange(0, 5)
    plus = rng.random() < 0.5
    dt = torch.float64
    base = fill(rng, g, shape, "normal", dt)
    ts = [base + fill(rng, g, shape, rng.choice(["sparse", "sparse", "int"]), dt) for _ in range(n)]
    params = {}
    r, alpha, eps = 0.1, 0.2, 1e-5
    if rng.random() < 0.5:
        eps = params["epsilon"] = rng.choice([1e-5, 0.5, 1e-3])
    if plus and rng.random() < 0.6:
        r = params["r"] = rng.choice([0.5, 1.0])
        alpha = params["alpha"] = rng.choice([0.1, 3.0])
    note(dict(plus=plus, params=params, base=base.tolist(), t=[t.tolist() for t in ts]))
    at = rng.randrange(n + 1)
    T = list(ts)
    T.insert(at, base)
    out = run_method("ramplus_tl" if plus else "ram", [ref(k) for k in range(n + 1)], T, base=ref(at), params=params)
    b = D(base)
    assert out.dtype == dt
    if not n:
        close(out, b, dt)
        return
    X = (np.stack([D(t) for t in ts]) - b).reshape(n, -1)
    if (np.abs(np.abs(X) - eps) < 1e-9).any():
        raise Skip("threshold")
    nz = np.abs(X) > eps
    cnt = nz.sum(0)
    Z = X * nz
    uniq, over = cnt == 1, cnt > 1
    lam = np.ones(n)
    if plus:
        sh, un = (nz & over).sum(1), (nz & uniq).sum(1)
        lam = 1 + r * np.clip(sh / np.maximum(un, eps), 0, alpha)
    want = (Z * uniq * lam[:, None] + Z * over / np.maximum(cnt, 1)).sum(0)
    close(out, b + want.reshape(shape), torch.float32, scale=5, what="ram")


@case("P09", "base + one model, ranks 1-2: every element comes from the base or the other model, the larger "
      "importance first", quick=150, deep=1500)
def arcee_fusion_selects(rng, i, note):
    g = gen(rng)
    shape = shape_of(rng, 2)
    a, b, k = pair(rng, g, shape, torch.float64)
    base = rng.randrange(2)
    note(dict(base=base, a=a.tolist(), b=b.tolist()))
    out = run_method("arcee_fusion", [ref(0), ref(1)], [a, b], base=ref(base))
    x, y = (D(a), D(b)) if base == 0 else (D(b), D(a))
    o = D(out)
    assert out.dtype == torch.float64 and o.shape == x.shape
    sm = lambda v: np.exp(v - v.max(-1, keepdims=True)) / np.exp(v - v.max(-1, keepdims=True)).sum(-1, keepdims=True)
    p, q = sm(y) + 1e-8, sm(x) + 1e-8
    imp = np.abs(y - x) * (p * np.log(p / q)).sum(-1)[..., None]
    s = np.sort(imp.reshape(-1))
    qt = lambda f: s[int(np.float32(f) * (len(s) - 1))]
    thr = qt(0.5) + 1.5 * (qt(0.75) - qt(0.25))
    if (np.abs(imp - thr) < 1e-9 * max(1e-30, np.abs(imp).max())).any() and len(s) > 1:
        raise Skip("threshold")
    want = np.where(imp >= thr, y, x)
    close(out, want, torch.float64, scale=5, what="arcee_fusion")


# ------------------------------------------------------------------ P12 mismatched sizes


@case("P12", "2-4 embedding matrices of different sizes, all methods that rectify", quick=250, deep=2500)
def embeddings_use_common_submatrix(rng, i, note):
    g = gen(rng)
    name = rng.choice(["linear", "slerp", "nuslerp", "model_stock", "karcher", "arcee_fusion", "task_arithmetic", "ties"])
    n = {"slerp": 2, "arcee_fusion": 2, "nuslerp": rng.choice([2, 3]), "model_stock": rng.choice([3, 4])}.get(name, rng.randrange(2, 5))
    rows, cols = rng.randrange(2, 6), rng.randrange(2, 6)
    vary_cols = rng.random() < 0.3
    ts = [fill(rng, g, [rows + rng.randrange(0, 3), cols + (rng.randrange(0, 3) if vary_cols else 0)], "normal") for _ in range(n)]
    models = [ref(k) for k in range(n)]
    base = None if name in ("linear", "karcher") or (name == "nuslerp" and n == 2) else models[rng.randrange(n)]
    r, c = min(t.shape[0] for t in ts), min(t.shape[1] for t in ts)
    if name in ("task_arithmetic", "ties"):
        bi = models.index(base)
        ts[bi] = ts[bi][:r, :c].contiguous()
    params = {"t": 0.3} if name == "slerp" else {}
    tps = [{"weight": 0.5 + k} for k in range(n)] if name in ("linear", "nuslerp", "task_arithmetic", "ties") else None
    note(dict(method=name, shapes=[list(t.shape) for t in ts], base=str(base)))
    w = WeightInfo(name="model.embed_tokens.weight", is_embed=True)
    out = run_method(name, models, ts, base=base, params=params, tparams=tps, weight=w)
    cut = [t[:r, :c].clone() for t in ts]
    want = run_method(name, models, cut, base=base, params=params, tparams=tps, weight=w)
    assert out.shape == (r, c), f"shape {tuple(out.shape)}, expected {(r, c)}"
    assert torch.allclose(out, want, atol=1e-5), f"{name}: not the merge of the common rows and columns"


@case("P12", "embeddings of any sizes (also smaller than the base, also single rows), task-vector methods", quick=120, deep=1200)
def task_vector_embeddings_follow_the_base(rng, i, note):
    g = gen(rng)
    name = rng.choice(["task_arithmetic", "ties", "breadcrumbs", "breadcrumbs_ties"])
    n = rng.randrange(2, 5)
    shapes = [[rng.randrange(1, 5), rng.randrange(1, 4)] for _ in range(n)]
    b = rng.randrange(n)
    if rng.random() < 0.5:
        for s in shapes:
            s[1] = shapes[b][1]
    ts = [fill(rng, g, s, "normal") for s in shapes]
    models = [ref(k) for k in range(n)]
    tps = [{"weight": 0.5 + k} for k in range(n)]
    note(dict(method=name, shapes=shapes, base=b))
    w = WeightInfo(name="model.embed_tokens.weight", is_embed=True)
    R_, C_ = shapes[b]
    keep = [k for k in range(n) if shapes[k][0] >= R_ and shapes[k][1] >= C_]
    want = run_method(name, [models[k] for k in keep], [ts[k][:R_, :C_].clone() for k in keep], base=models[b],
                      tparams=[tps[k] for k in keep], weight=w)
    out = run_method(name, models, ts, base=models[b], tparams=tps, weight=w)
    assert list(out.shape) == shapes[b], f"shape {tuple(out.shape)}, the base has {shapes[b]}"
    assert torch.allclose(out, want, atol=1e-5), f"{name}: not the merge of the base's rows and columns"


@case("P12", "weights that are not embeddings: a size mismatch is never silently truncated", quick=100, deep=800)
def other_mismatches_are_not_truncated(rng, i, note):
    g = gen(rng)
    gta = ("task_arithmetic", "ties", "breadcrumbs", "breadcrumbs_ties")
    name = rng.choice(["linear", "slerp", "karcher", "model_stock", "nuslerp", "arcee_fusion", "nearswap",
                       "multislerp", "sce", "ram", "ramplus_tl", *gta])
    n = {"slerp": 2, "arcee_fusion": 2, "nuslerp": rng.choice([2, 3]), "model_stock": 3, "nearswap": 2, "multislerp": 3}.get(
        name, rng.randrange(2, 4))
    rank = rng.choice([1, 2, 2, 3])
    dims = [rng.randrange(1, 5) for _ in range(rank)]
    shapes = [list(dims) for _ in range(n)]
    k = rng.randrange(n)
    ax = rng.randrange(rank)
    shapes[k][ax] += rng.randrange(1, 3)
    ts = [fill(rng, g, s, "normal") for s in shapes]
    models = [ref(j) for j in range(n)]
    base = None if name in ("linear", "karcher") or (name == "nuslerp" and n == 2) else models[0]
    if name == "multislerp" and rng.random() < 0.5:
        base = None
    params = {"t": 0.3} if name in ("slerp", "nearswap") else {}
    weighted = name in ("linear", "nuslerp", "multislerp", *gta)
    mk = lambda m: [{"weight": 1.0} for _ in range(m)] if weighted else None  # noqa: E731
    note(dict(method=name, shapes=shapes))
    # the same merge without the mismatch goes through
    run_method(name, models, [fill(rng, g, dims, "normal") for _ in range(n)], base=base, params=params, tparams=mk(n))
    try:
        out = run_method(name, models, ts, base=base, params=params, tparams=mk(n))
    except Exception:
        return  # refused: fine
    if name in gta:
        # documented: models whose tensor does not match the base are left out
        same = [j for j in range(n) if shapes[j] == shapes[0]]
        want = run_method(name, [models[j] for j in same], [ts[j] for j in same], base=base, params=params,
                          tparams=mk(len(same)))
        assert out.shape == want.shape and torch.allclose(out, want), "mismatched model was not left out"
        return
    raise AssertionError(f"{name} merged tensors of different sizes into {tuple(out.shape)}")
