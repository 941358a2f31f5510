"""Run-time contracts of mergekit/graph.py and mergekit/multigpu_executor.py."""

import contextlib
import gc
import threading
import weakref
from typing import Any, Dict, Optional, Tuple

import torch

import mergekit.graph as G
import mergekit.multigpu_executor as M
from pyvc.rt import Skip, case

LOG = []  # (task name, kwargs, thread)
TICK = []


class Box:
    """a result object whose lifetime can be observed"""

    __slots__ = ("v", "__weakref__")

    def __init__(self, v):
        self.v = v


class Node(G.Task[Any]):
    name: str
    deps: Tuple[Tuple[str, "Node"], ...] = ()
    prio: int = 0
    grp: Optional[str] = None
    acc: bool = False
    main: bool = False
    per_gpu: bool = False
    mode: str = "tuple"

    def arguments(self):
        return {k: v for k, v in self.deps}

    def priority(self):
        return self.prio

    def group_label(self):
        return self.grp

    def uses_accelerator(self):
        return self.acc

    def main_thread_only(self):
        return self.main

    def duplicate_per_gpu(self):
        return self.per_gpu

    def execute(self, **kw):
        LOG.append((self.name, dict(kw), threading.get_ident()))
        if TICK:
            TICK[0](self)
        if self.mode == "box":
            return Box((self.name, tuple(sorted((k, v.v) for k, v in kw.items()))))
        return (self.name, tuple(sorted(kw.items())))


Node.model_rebuild()


def mk_dag(rng, n, **extra):
    """n tasks; task i depends on earlier ones; deps may be *copies* (equal, not identical)"""
    nodes = []
    for i in range(n):
        k = rng.choice([0, 1, 1, 2, 3]) if i else 0
        deps = []
        for a in range(min(k, i)):
            j = rng.randrange(i)
            d = nodes[j]
            if rng.random() < 0.3:
                d = d.model_copy()  # equal task, different object
            deps.append((f"a{a}", d))
        kw = {kk: f(rng) for kk, f in extra.items()}
        nodes.append(Node(name=f"t{i}", deps=tuple(deps), prio=rng.choice([0, 0, 1, -5, 1000]),
                          grp=rng.choice([None, None, "a", "b"]), **kw))
    return nodes


def den(t, memo=None):
    return (t.name, tuple(sorted((k, den(d)) for k, d in t.deps)))


def closure(targets, stop=()):
    seen, todo = {}, list(targets)
    while todo:
        t = todo.pop()
        if t.name in seen:
            continue
        seen[t.name] = t
        if t.name in stop:
            continue
        todo += [d for _, d in t.deps]
    return seen


def show(nodes):
    return [dict(n=t.name, deps=[(k, d.name) for k, d in t.deps], prio=t.prio, grp=t.grp, acc=t.acc, main=t.main,
                 per_gpu=t.per_gpu) for t in nodes]


@case("P01", "random task graphs of up to 12 tasks, random priorities/groups/equal copies, optional cached results",
      quick=600, deep=6000, limit=40)
def execution_matches_denotation(rng, i, note):
    n = rng.randrange(1, 13)
    nodes = mk_dag(rng, n)
    targets = [rng.choice(nodes) for _ in range(rng.randrange(1, 5))]
    if rng.random() < 0.3:
        targets.append(targets[0].model_copy())
    use_cache = rng.random() < 0.4
    uni = G.TaskUniverse(targets)
    hs = [uni.add_task(t) for t in targets]
    needed = closure(targets)
    cached = {}
    if use_cache:
        for nm, t in needed.items():
            if rng.random() < 0.25:
                cached[uni.get_handle(t)] = den(t) if rng.random() < 0.8 else None
    cn = {h.task().name: v for h, v in cached.items()}
    note(dict(tasks=show(nodes), targets=[t.name for t in targets], cached=sorted(cn)))
    for t in needed.values():
        assert uni.get_handle(t) is not None and uni.get_handle(t).task() == t
        assert uni.get_handle(t) == uni.add_task(t.model_copy()), "equal tasks must share a handle"
        got = {k: h.task().name for k, h in uni.get_handle(t).arguments().items()}
        assert got == {k: d.name for k, d in t.deps}, ("argument handles", t.name, got)

    def exp(t):
        if t.name in cn:
            return cn[t.name]
        return (t.name, tuple(sorted((k, exp(d)) for k, d in t.deps)))

    LOG.clear()
    if use_cache:
        snapshot = dict(cached)
        ex = G.Executor(hs, cached_values=cached)
        out = [(h.task(), v) for h, v in ex._run(quiet=True)] if rng.random() < 0.5 else list(ex.run(quiet=True))
        assert cached == snapshot, "cached values changed by the run"
    else:
        ex = G.Executor(targets if rng.random() < 0.5 else hs)
        out = list(ex.run(quiet=True))
    runs = [nm for nm, _, _ in LOG]
    assert len(runs) == len(set(runs)), ("task executed twice", runs)
    live = set(closure([t for t in targets if t.name not in cn], stop=set(cn))) - set(cn)
    assert set(runs) == live, ("executed set", sorted(runs), sorted(live))
    for nm, kw, _ in LOG:
        t = needed[nm]
        assert kw == {k: exp(d) for k, d in t.deps}, ("arguments of", nm, kw)
    names = [t.name for t, _ in out]
    want = {t.name for t in targets if t.name not in cn}
    assert sorted(names) == sorted(want), ("yielded targets", names, want)
    for t, v in out:
        assert v == exp(needed[t.name]), ("value of", t.name)
    return show(nodes)


@case("P01", "random task graphs of up to 9 tasks: liveness of every intermediate observed by weak references",
      quick=300, deep=3000, limit=40)
def results_live_exactly_as_long_as_needed(rng, i, note):
    nodes = mk_dag(rng, rng.randrange(2, 10), mode=lambda r: "box")
    targets = [rng.choice(nodes) for _ in range(rng.randrange(1, 3))]
    note(dict(tasks=show(nodes), targets=[t.name for t in targets]))
    LOG.clear()
    refs, order = {}, []
    tnames = {t.name for t in targets}  # the consumer may hold a yielded result
    needed = closure(targets)
    ex = G.Executor(targets)
    sched = [h.task().name for h in ex.schedule.tasks]
    last = {}
    for pos, nm in enumerate(sched):
        last[nm] = max(last.get(nm, 0), pos)
        for _, d in needed[nm].deps:
            last[d.name] = max(last.get(d.name, 0), pos)
    bad = []

    def tick(task):
        pos = len(order)
        order.append(task.name)
        LOG.clear()
        for nm, r in refs.items():
            if nm not in tnames and last[nm] < pos and r() is not None:
                gc.collect()
                if r() is not None:
                    bad.append((nm, "still held when", task.name, "starts"))

    real = Node.execute

    def execute(self, **kw):
        tick(self)
        r = Box((self.name, tuple(sorted((k, v.v) for k, v in kw.items()))))
        refs[self.name] = weakref.ref(r)
        return r

    Node.execute = execute
    try:
        for t, v in ex.run(quiet=True):
            assert v.v == den(needed[t.name])
            del v
    finally:
        Node.execute = real
    assert not bad, bad
    return show(nodes)


@case("P01", "nested dict/list/tuple results holding tensors; math/storage device moves observed with the meta device",
      quick=60, deep=400, limit=30)
def device_moves_keep_structure(rng, i, note):
    def val(d):
        k = rng.randrange(6 if d else 3)
        if k == 0:
            return torch.randn(rng.randrange(1, 4), 2)
        if k == 1:
            return rng.choice([None, 3, "x", 2.5])
        if k == 2:
            return torch.arange(3)
        if k == 3:
            return {f"k{j}": val(d - 1) for j in range(rng.randrange(3))}
        if k == 4:
            return [val(d - 1) for j in range(rng.randrange(3))]
        return tuple(val(d - 1) for j in range(rng.randrange(3)))

    seen = {}

    class Src(G.Task[Any]):
        k: int

        def arguments(self):
            return {}

        def execute(self):
            return vals[self.k]

    class Use(G.Task[Any]):
        k: int
        acc: bool

        def arguments(self):
            return {"x": Src(k=self.k)}

        def uses_accelerator(self):
            return self.acc

        def execute(self, x):
            seen[(self.k, self.acc)] = x
            return 7

    vals = [val(3) for _ in range(3)]
    note(repr(vals)[:300])
    ts = [Use(k=k, acc=a) for k in range(3) for a in (False, True)]
    list(G.Executor(ts, math_device="meta", storage_device="cpu").run(quiet=True))

    def same(a, b, dev):
        if isinstance(a, torch.Tensor):
            assert isinstance(b, torch.Tensor) and b.shape == a.shape and b.dtype == a.dtype
            assert b.device.type == dev, (b.device, dev)
            assert dev == "meta" or torch.equal(a, b)
            return
        assert type(a) is type(b), (type(a), type(b))
        if isinstance(a, dict):
            assert list(a) == list(b)
            for k in a:
                same(a[k], b[k], dev)
        elif isinstance(a, (list, tuple)):
            assert len(a) == len(b)
            for x, y in zip(a, b):
                same(x, y, dev)
        else:
            assert a == b

    for (k, acc), x in seen.items():
        same(vals[k], x, "meta" if acc else "cpu")
    # storage device: results are handed on from there
    seen.clear()
    list(G.Executor([Use(k=k, acc=False) for k in range(3)], math_device="cpu", storage_device="meta").run(quiet=True))
    for (k, acc), x in seen.items():
        same(vals[k], x, "meta")
    return repr(vals)[:200]


# ------------------------------------------------------------------ multi GPU

@contextlib.contextmanager
def fake_accelerator(ngpu):
    """stand-ins for CUDA streams: no device is touched"""

    class S:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class Mod:
        @staticmethod
        def synchronize(device=None):
            return None

    saved = [(torch.cuda, "Stream"), (torch.cuda, "stream"), (M, "get_torch_accelerator_module"),
             (M, "get_torch_accelerator_type"), (M, "get_torch_accelerator_count")]
    old = [(o, n, getattr(o, n)) for o, n in saved if hasattr(o, n)]
    try:
        torch.cuda.Stream = S
        torch.cuda.stream = lambda s: S()
        M.get_torch_accelerator_module = lambda *a, **k: Mod
        M.get_torch_accelerator_type = lambda *a, **k: "cuda"
        M.get_torch_accelerator_count = lambda *a, **k: ngpu
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


def _mg_dag(rng):
    """layered graph in the shape mergekit plans: main-thread sources, parallel middle, main-thread sinks"""
    src = [Node(name=f"s{i}", main=rng.random() < 0.7, prio=rng.choice([0, 3])) for i in range(rng.randrange(1, 4))]
    if rng.random() < 0.5:
        src.append(Node(name="lead2", main=True, deps=tuple((f"a{j}", s) for j, s in enumerate(src) if s.main)[:2]))
    dup = [Node(name=f"d{i}", per_gpu=True, deps=tuple([("a", rng.choice(src))] if rng.random() < 0.5 else []))
           for i in range(rng.randrange(0, 3))]
    mid = []
    for i in range(rng.randrange(1, 9)):
        pool = src + dup + (mid if rng.random() < 0.6 else [])
        k = rng.randrange(0, min(3, len(pool)) + 1)
        mid.append(Node(name=f"m{i}", deps=tuple((f"a{j}", d) for j, d in enumerate(rng.sample(pool, k))),
                        grp=rng.choice([None, "g"]), acc=rng.random() < 0.5))
    sink = []
    for i in range(rng.randrange(0, 5)):
        pool = mid + src + dup
        k = rng.randrange(1, min(4, len(pool)) + 1)
        deps = [(f"a{j}", d) for j, d in enumerate(rng.sample(pool, k))]
        if sink and rng.random() < 0.5:
            deps.append(("w", rng.choice(sink)))
        sink.append(Node(name=f"w{i}", main=True, deps=tuple(deps)))
    return src, dup, mid, sink


@case("P02", "random layered graphs of up to ~20 tasks, 1-4 stubbed devices, real worker threads",
      quick=120, deep=1500, limit=60)
def parallel_run_delivers_every_target(rng, i, note):
    src, dup, mid, sink = _mg_dag(rng)
    allt = src + dup + mid + sink
    targets = list({t.name: t for t in (sink + [rng.choice(mid) for _ in range(rng.randrange(0, 4))])}.values())
    if not targets:
        targets = [rng.choice(mid)]
    ngpu = rng.randrange(1, 5)
    note(dict(tasks=show(allt), targets=[t.name for t in targets], gpus=ngpu))
    needed = closure(targets)
    main_id = threading.get_ident()
    with fake_accelerator(ngpu):
        try:
            ex = M.MultiGPUExecutor(targets, num_gpus=ngpu)
        except RuntimeError as e:
            if "ain-thread-only" in str(e) or "per-GPU" in str(e):
                raise Skip("graph rejected by design")
            raise
        LOG.clear()
        out = list(ex.run(quiet=True))
    got = {t.name: v for t, v in out}
    assert sorted(t.name for t, _ in out) == sorted(t.name for t in targets), (
        "targets yielded", sorted(t.name for t, _ in out), sorted(t.name for t in targets))
    for t in targets:
        assert got[t.name] == den(t), ("value of", t.name, got[t.name])
    counts = {}
    for nm, kw, th in LOG:
        counts[nm] = counts.get(nm, 0) + 1
        assert kw == {k: den(d) for k, d in needed[nm].deps}, ("arguments of", nm)
        if needed[nm].main:
            assert th == main_id, (nm, "main-thread-only task ran on a worker thread")
    assert set(counts) == set(needed), ("executed", sorted(counts), sorted(needed))

    def under_dup(t):  # reachable from a per-device duplicate
        return any(t.name in closure([d]) for d in needed.values() if d.per_gpu)

    for nm, c in counts.items():
        if not under_dup(needed[nm]):
            assert c == 1, (nm, "executed", c, "times")
    return show(allt)


@case("P02", "random layered graphs, 1-5 devices: partition examined before running", quick=300, deep=3000, limit=40)
def partition_is_complete_and_disjoint(rng, i, note):
    src, dup, mid, sink = _mg_dag(rng)
    targets = list({t.name: t for t in (sink + mid)}.values())
    ngpu = rng.randrange(1, 6)
    note(dict(tasks=show(src + dup + mid + sink), gpus=ngpu))
    needed = closure(targets)
    with fake_accelerator(ngpu):
        try:
            ex = M.MultiGPUExecutor(targets, num_gpus=ngpu)
        except RuntimeError as e:
            if "ain-thread-only" in str(e) or "per-GPU" in str(e):
                # by design: only when some main-thread task sits between parallel ones
                raise Skip("graph rejected by design")
            raise
    lead = [h.task().name for h in ex.leading_main_handles]
    trail = [h.task().name for h in ex.trailing_main_handles]
    per = [h.task().name for h in ex.per_gpu_tasks]
    dev = {}
    for d, hs in ex.gpu_assignments.items():
        assert 0 <= d.index < ngpu and d.type == "cuda"
        for h in hs:
            assert h.task().name not in dev, (h.task().name, "assigned to two devices")
            dev[h.task().name] = d.index
    assert len(set(lead)) == len(lead) and len(set(trail)) == len(trail)
    parts = set(lead) | set(trail) | set(per) | set(dev)
    assert parts == set(needed), ("not covered", sorted(set(needed) - parts), sorted(parts - set(needed)))
    assert not set(dev) & (set(lead) | set(trail) | set(per))
    for nm, t in needed.items():
        if t.main:
            assert nm in lead or nm in trail, nm
        else:
            assert nm not in lead and nm not in trail, nm
        for _, d in t.deps:
            if nm in lead:
                assert d.name in lead, (nm, "runs first but needs", d.name)
            if nm in dev and d.name in dev:
                assert dev[nm] == dev[d.name], (nm, d.name, "dependent tasks on different devices")
            if nm in dev or nm in per:
                assert d.name not in set(trail) - set(lead), (nm, "needs trailing", d.name)
    # every device receives work when there are at least as many islands as devices
    import networkx as nx

    g = nx.Graph()
    g.add_nodes_from(dev)
    g.add_edges_from((nm, d.name) for nm in dev for _, d in needed[nm].deps if d.name in dev)
    isl = nx.number_connected_components(g) if dev else 0
    assert len(set(dev.values())) == min(isl, ngpu), ("islands", isl, "devices used", sorted(set(dev.values())))
    return show(src + mid + sink)
