"""Contracts of the multi-GPU executor's split of a task graph (mergekit/multigpu_executor.py)."""

import networkx
import torch
import z3

import mergekit.graph as G
import mergekit.multigpu_executor as MG
from pyvc import lib
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import HDict, HList, HSet, LoopSpec, SDict, SList, SObj, SSet

from .util import BOOL, INT, STR
from .graph import ACC, CALLS, HARG, HTASK, HVAL, STRB, TArgMap, TaskO, TVal, Val, i_, j_, k_, q, x_, y_

X_ = "mergekit.multigpu_executor:MultiGPUExecutor."
BOOLS = z3.ArraySort(INT, BOOL)
MAIN = z3.Function("MAIN_ONLY", TaskO.sort, BOOL)
PERGPU = z3.Function("PER_GPU", TaskO.sort, BOOL)
TaskO.methods.setdefault("main_thread_only", lambda I, t: MAIN(t))
TaskO.methods.setdefault("duplicate_per_gpu", lambda I, t: PERGPU(t))
# x takes y's result as an argument (under the name WHY(x, y))
DEP = z3.Function("DEPENDS_ON", INT, INT, BOOL)
WHY = z3.Function("WHY", INT, INT, STR)


def main(x):
    return MAIN(HTASK(x))


class World:
    """the executor over an arbitrary acyclic task graph of n registered tasks"""

    def __init__(self, I):
        eng = I.eng
        self.n = n = z3.Int("ntasks")
        eng.assume(n >= 0)
        self.u = SObj(G.TaskUniverse, tag="world")
        self.TH = TRec(G.TaskHandle, {"_universe": TConst(self.u), "_index": TInt})
        dom, val = z3.Const("args_of", BOOLS), z3.Const("args", z3.ArraySort(INT, TArgMap.sort))
        eng.assume(z3.ForAll([x_], z3.Select(dom, x_) == z3.And(0 <= x_, x_ < n), patterns=[z3.Select(dom, x_)]))
        eng.assume(z3.ForAll([x_], z3.And(TArgMap.dom(z3.Select(val, x_)) == HARG(x_), TArgMap.val(z3.Select(val, x_)) == HVAL(x_)),
                             patterns=[z3.Select(val, x_)]))
        self.args = SDict(kt=TInt, vt=TArgMap, dom=dom, val=val)
        self.u.fields["task_arguments"] = self.args
        v = z3.Select(HVAL(x_), k_)
        eng.assume(z3.ForAll([x_, k_], z3.Implies(z3.And(0 <= x_, x_ < n, z3.Select(HARG(x_), k_)), z3.And(
            0 <= v, v < n, DEP(x_, v))), patterns=[v]))
        eng.assume(z3.ForAll([x_, y_], z3.Implies(DEP(x_, y_), z3.And(
            z3.Select(HARG(x_), WHY(x_, y_)), z3.Select(HVAL(x_), WHY(x_, y_)) == y_)), patterns=[DEP(x_, y_)]))

    def tasks(self, I, ordered=True):
        """the schedule: each task once, dependencies that are in it first"""
        n, arr = z3.Int("nsched"), z3.Const("sched", z3.ArraySort(INT, INT))
        pos, mem = z3.Const("pos", z3.ArraySort(INT, INT)), z3.Const("scheduled", BOOLS)
        eng = I.eng
        eng.assume(n >= 0)
        a = z3.Select(arr, i_)
        eng.assume(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(
            0 <= a, a < self.n, z3.Select(pos, a) == i_, z3.Select(mem, a))), patterns=[a]))
        p = z3.Select(pos, x_)
        eng.assume(z3.ForAll([x_], z3.Implies(z3.Select(mem, x_), z3.And(0 <= p, p < n, z3.Select(arr, p) == x_, 0 <= x_, x_ < self.n)),
                             patterns=[z3.Select(mem, x_)]))
        # everything a scheduled task needs is scheduled, and earlier
        eng.assume(z3.ForAll([x_, y_], z3.Implies(z3.And(z3.Select(mem, x_), DEP(x_, y_)), z3.And(
            z3.Select(mem, y_), z3.Select(pos, y_) < z3.Select(pos, x_))), patterns=[DEP(x_, y_)]))
        l = SList(n=n, t=self.TH, arr=arr)
        self.sn, self.sarr, self.pos, self.mem = n, arr, pos, mem
        return l


W = {}


class _WS(LoopSpec):
    """loop specs whose element types depend on the per-path world"""

    def __init__(self, inv, mods):
        super().__init__(inv, {})
        self._mods = mods

    @property
    def modifies(self):
        TH = W["w"].TH
        kinds = {"S": HSet(TH), "L": HList(TH), "D": HDict(TH, TSet(TH)), "E": HList(TTup(TInt, TInt))}
        return {k: kinds[v] for k, v in self._mods.items()}

    @modifies.setter
    def modifies(self, v):
        pass


def setof(s):
    return s.as_symbolic(W["w"].TH).dom


# ---------------------------------------------------------------- before the parallel part


def _lead_inv(c):
    w = W["w"]
    L = setof(c["leading_tasks"])
    yield "leading-so-far", z3.ForAll([x_], z3.Select(L, x_) == z3.And(
        z3.Select(w.mem, x_), z3.Select(w.pos, x_) < Z(c.i), main(x_),
        z3.ForAll([y_], z3.Implies(DEP(x_, y_), z3.Select(L, y_)))))


@contract("P02")
class FindLeading(Contract):
    """leading: exactly the main-thread tasks all of whose dependencies are leading"""

    target = X_ + "_find_leading_tasks"
    calls = CALLS
    timeout_ms = 20000
    loops = {("MultiGPUExecutor._find_leading_tasks", 0): _WS(_lead_inv, {"leading_tasks": "S"})}

    def setup(self, I, case):
        w = W["w"] = World(I)
        return (SObj(MG.MultiGPUExecutor, {"universe": w.u}), w.tasks(I)), {}, w

    def ensures(self, I, w, r):
        L = setof(r)
        yield "exactly-the-leading", z3.ForAll([x_], z3.Select(L, x_) == z3.And(z3.Select(w.mem, x_), main(x_), z3.ForAll(
            [y_], z3.Implies(DEP(x_, y_), z3.Select(L, y_)))))


# ---------------------------------------------------------------- after the parallel part


def users(D, y, x):
    """x is in dependants[y]"""
    return z3.Select(D(y), x)


def dmap(d):
    w = W["w"]
    t = TSet(w.TH)
    if d.concrete:
        d = d.as_symbolic(w.TH, t)
    no = z3.K(INT, z3.BoolVal(False))
    return lambda y: z3.If(z3.Select(d.dom, y), z3.Select(d.val, y), no)


def _users_inv(c):
    w = W["w"]
    D = dmap(c["dependants"])
    yield "users-are-users", z3.ForAll([x_, y_], z3.Implies(users(D, y_, x_), z3.And(
        0 <= x_, x_ < w.n, Z(c.seq.idx_of(x_)) < Z(c.i), DEP(x_, y_))))
    yield "users-so-far", z3.ForAll([x_, y_], users(D, y_, x_) == z3.And(
        0 <= x_, x_ < w.n, Z(c.seq.idx_of(x_)) < Z(c.i), DEP(x_, y_)), patterns=[DEP(x_, y_)])


def _users_inner(c):
    w = W["w"]
    D, D0, me = dmap(c["dependants"]), dmap(c.old["dependants"]), Z(c["task_idx"])
    yield "others-kept", z3.ForAll([x_, y_], z3.Implies(x_ != me, users(D, y_, x_) == users(D0, y_, x_)))
    yield "own-only", z3.ForAll([y_], z3.Implies(users(D, y_, me), DEP(me, y_)))
    yield "own-so-far", z3.ForAll([k_], z3.Implies(z3.And(z3.Select(HARG(me), k_), Z(c.seq.idx_of(k_)) < Z(c.i)),
                                                   users(D, z3.Select(HVAL(me), k_), me)))


def all_used_by(T, y):
    return z3.ForAll([x_], z3.Implies(z3.And(0 <= x_, x_ < W["w"].n, DEP(x_, y)), z3.Select(T, x_)))


def _trail_inv(c):
    w = W["w"]
    T, X = setof(c["trailing_tasks"]), setof(c["to_explore"])
    yield "trailing-are-sound", z3.ForAll([y_], z3.Implies(z3.Select(T, y_), z3.And(main(y_), all_used_by(T, y_))))
    yield "candidates-waiting", z3.ForAll([y_], z3.Implies(z3.And(
        z3.Select(w.mem, y_), main(y_), z3.Not(z3.Select(T, y_)), all_used_by(T, y_)), z3.Select(X, y_)))
    yield "known", z3.ForAll([y_], z3.Implies(z3.Or(z3.Select(T, y_), z3.Select(X, y_)), z3.And(0 <= y_, y_ < w.n)))


@contract("P02")
class FindTrailing(Contract):
    """trailing: main-thread tasks whose every user is trailing, and all of them"""

    target = X_ + "_find_trailing_tasks"
    calls = CALLS
    timeout_ms = 20000
    loops = {("MultiGPUExecutor._find_trailing_tasks", 0): _WS(_users_inv, {"dependants": "D"}),
             ("MultiGPUExecutor._find_trailing_tasks", 1): _WS(_users_inner, {"dependants": "D"}),
             ("MultiGPUExecutor._find_trailing_tasks", 2): _WS(_trail_inv, {"trailing_tasks": "S", "to_explore": "S"})}

    def setup(self, I, case):
        w = W["w"] = World(I)
        return (SObj(MG.MultiGPUExecutor, {"universe": w.u}), w.tasks(I)), {}, w

    def ensures(self, I, w, r):
        T = setof(r)
        y = z3.Int("some_task")
        I.eng.assume(z3.Select(w.mem, y))
        yield "exactly-the-trailing", z3.Select(T, y) == z3.And(main(y), all_used_by(T, y))


# ---------------------------------------------------------------- islands


class _Graph:
    pass


TE = TTup(TInt, TInt)


def _edge(a, b):
    return TE.sort.mk(a, b)


def _mem_of(c_or_l, t):
    return c_or_l.members(t)


def _isl_outer(c):
    w = W["w"]
    E = c["edge_list"].members(TE)
    e = _edge(x_, y_)
    yield "edges-are-dependencies", z3.ForAll([x_, y_], z3.Implies(z3.Select(E, e), z3.And(
        DEP(y_, x_), z3.Select(w.mem, x_), z3.Select(w.mem, y_))), patterns=[z3.Select(E, e)])
    yield "edges-so-far", z3.ForAll([x_, y_], z3.Implies(z3.And(
        DEP(y_, x_), z3.Select(w.mem, x_), z3.Select(w.mem, y_), z3.Select(w.pos, y_) < Z(c.i)), z3.Select(E, e)),
        patterns=[DEP(y_, x_)])


def _isl_inner(c):
    w = W["w"]
    E, E0 = c["edge_list"].members(TE), c.old["edge_list"].members(TE)
    me = Z(c["task_handle"].fields["_index"])
    e = _edge(x_, y_)
    yield "edges-are-dependencies", z3.ForAll([x_, y_], z3.Implies(z3.Select(E, e), z3.And(
        DEP(y_, x_), z3.Select(w.mem, x_), z3.Select(w.mem, y_))), patterns=[z3.Select(E, e)])
    yield "edges-kept", z3.ForAll([x_, y_], z3.Implies(z3.Select(E0, e), z3.Select(E, e)), patterns=[z3.Select(E, e)])
    v = z3.Select(HVAL(me), k_)
    yield "own-edges-so-far", z3.ForAll([k_], z3.Implies(z3.And(
        z3.Select(HARG(me), k_), Z(c.seq.idx_of(k_)) < Z(c.i), z3.Select(w.mem, v)), z3.Select(E, _edge(v, me))), patterns=[v])


def _add_nodes(I, g, nodes):
    I.state_g["nodes"] = nodes


def _add_edges(I, g, edges):
    I.state_g["edges"] = edges


def _components(I, g):
    """networkx.weakly_connected_components: the nodes, split so that no edge crosses"""
    s, w = I.state_g, W["w"]
    nodes, E = s["nodes"], s["edges"].members(TE)
    j = z3.Int("some_position")
    I.eng.prove("every-task-is-a-node", z3.And(Z(nodes.length()) == w.sn, z3.Implies(
        z3.And(0 <= j, j < w.sn), Z(nodes.get(j)) == z3.Select(w.sarr, j))))
    a, b = z3.Ints("some_dep some_user")
    I.eng.prove("every-dependency-is-an-edge", z3.Implies(z3.And(
        DEP(b, a), z3.Select(w.mem, a), z3.Select(w.mem, b)), z3.Select(E, _edge(a, b))))
    I.eng.prove("only-dependencies-are-edges", z3.Implies(z3.Select(E, _edge(a, b)), z3.And(
        DEP(b, a), z3.Select(w.mem, a), z3.Select(w.mem, b))))
    I.eng.assumptions.add("networkx.weakly_connected_components splits the nodes into sets no edge crosses")
    return SList(items=[SSet(items=list(x)) for x in s["islands"]])


@contract("P02")
class AssignIslands(Contract):
    """every parallel task goes to exactly one of the devices, whole islands together"""

    target = X_ + "_assign_islands_to_gpus"
    cases = [(1, ()), (1, (2, 1)), (2, (1,)), (2, (2, 1, 1)), (3, (1, 1)), (2, (0, 1))]
    bounded = "at most 3 islands of at most 2 tasks on at most 3 devices (the edge set: any number of tasks)"
    calls = CALLS
    loops = {("MultiGPUExecutor._assign_islands_to_gpus", 0): _WS(_isl_outer, {"edge_list": "E"}),
             ("MultiGPUExecutor._assign_islands_to_gpus", 1): _WS(_isl_inner, {"edge_list": "E"})}

    def __init__(self):
        self.models = {networkx.DiGraph: lambda I, *a: SObj(_Graph, {}), networkx.weakly_connected_components: _components,
                       (_Graph, "add_nodes_from"): _add_nodes, (_Graph, "add_edges_from"): _add_edges}

    def setup(self, I, case):
        gpus, sizes = case
        w = W["w"] = World(I)
        xs = [z3.Int(f"task{k}") for k in range(sum(sizes))]
        if len(xs) > 1:
            I.eng.assume(z3.Distinct(*xs))
        isl, k = [], 0
        for s in sizes:
            isl.append(xs[k:k + s])
            k += s
        g = dict(gpus=gpus, islands=isl, xs=xs, w=w)
        I.state_g = g
        tasks = w.tasks(I)
        I.eng.assume(z3.And(*[z3.Select(w.mem, x) for x in xs]))
        return (SObj(MG.MultiGPUExecutor, {"universe": w.u, "accelerator_type": "cuda"}), tasks, gpus), {}, g

    def ensures(self, I, g, r):
        devs = [torch.device(f"cuda:{k}") for k in range(g["gpus"])]
        yield "known-devices", z3.BoolVal(all(any(d == e for e in devs) for d, _ in r.pairs))
        where = []
        for j, (d, l) in enumerate(r.pairs):
            for h in l.items:
                where.append((Z(h.fields["_index"]), j))
        yield "nothing-else", z3.BoolVal(len(where) == len(g["xs"]))
        for isl in g["islands"]:
            for x in isl:
                yield "exactly-once", z3.Sum([z3.If(x == i, 1, 0) for i, _ in where] + [z3.IntVal(0)]) == 1
            if isl:
                yield "whole-islands", z3.Or(*[z3.And(*[z3.Or(*[x == i for i, k in where if k == j]) for x in isl])
                                               for j in range(len(r.pairs))])


# ---------------------------------------------------------------- the split


def _sched_post(I, w, targets, cached=None):
    """contract of build_schedule (BuildSchedule): each needed task once, dependencies first"""
    l = w.tasks(I)
    return SObj(G.ExecutionSchedule, {"tasks": l, "last_use_index": None})


def _tdeps_inv(c):
    w = W["w"]
    D = setof(c["self"].fields["trailing_dependencies"])
    yield "known", z3.ForAll([x_], z3.Implies(z3.Select(D, x_), z3.And(0 <= x_, x_ < w.n)))
    t = lambda j: Z(c.seq.get(j).fields["_index"])
    yield "dependencies-so-far", z3.ForAll([j_, y_], z3.Implies(z3.And(
        0 <= j_, j_ < Z(c.i), DEP(t(j_), y_)), z3.Select(D, y_)))


class _TD(_WS):
    @property
    def modifies(self):
        return {"self.trailing_dependencies": HSet(W["w"].TH)}

    @modifies.setter
    def modifies(self, v):
        pass


@contract("P02")
class Split(Contract):
    """every scheduled task is leading, trailing, per-device or parallel; the main thread keeps its own"""

    target = X_ + "__init__"
    cases = ["given", "all"]
    timeout_ms = 20000

    def __init__(self):
        import mergekit.common as MC

        self.loops = {("MultiGPUExecutor.__init__", 0): _TD(_tdeps_inv, {})}
        self.calls = {
            **CALLS, "mergekit.graph:build_schedule": lambda I, t, c=None: _sched_post(I, W["w"], t, c),
            "mergekit.common:get_torch_accelerator_type": lambda I: "cuda",
            "mergekit.common:get_torch_accelerator_count": lambda I, *a: z3.Int("devices"),
            "mergekit.graph:TaskUniverse.__init__": self.universe,
            "mergekit.graph:TaskUniverse.get_handle": self.handle,
            X_ + "_find_leading_tasks": self.leading, X_ + "_find_trailing_tasks": self.trailing,
            X_ + "_assign_islands_to_gpus": self.assign,
        }
        import queue
        import threading

        self.models = {queue.Queue: lambda I, *a: SObj(_Graph, {}), threading.Event: lambda I: SObj(_Graph, {})}

    def universe(self, I, self_, tasks=None):
        for k, v in W["w"].u.fields.items():
            I.setattr(self_, k, v)
        W["w"].u.fields = self_.fields
        W["w"].u = self_
        W["w"].TH = TRec(G.TaskHandle, {"_universe": TConst(self_), "_index": TInt})

    def handle(self, I, self_, t):
        i = z3.Function("handle_of", TaskO.sort, INT)(t)
        w = W["w"]
        I.eng.assume(z3.And(0 <= i, i < w.n))
        return w.TH.dec(i)

    def whole(self, w, tasks):
        return z3.BoolVal(tasks.arr is not None and tasks.arr.eq(w.sarr) and tasks.n.eq(w.sn))

    def leading(self, I, self_, tasks):
        """contract of _find_leading_tasks (FindLeading)"""
        w = W["w"]
        I.eng.prove("leading-among-all", self.whole(w, tasks))
        L = w.L = z3.Const("leading", BOOLS)
        I.eng.assume(z3.ForAll([x_], z3.Select(L, x_) == z3.And(z3.Select(w.mem, x_), main(x_), z3.ForAll(
            [y_], z3.Implies(DEP(x_, y_), z3.Select(L, y_)))), patterns=[z3.Select(L, x_)]))
        return SSet(t=w.TH, dom=L)

    def trailing(self, I, self_, tasks):
        """contract of _find_trailing_tasks (FindTrailing)"""
        w = W["w"]
        I.eng.prove("trailing-among-all", self.whole(w, tasks))
        T = w.T = z3.Const("trailing", BOOLS)
        I.eng.assume(z3.ForAll([y_], z3.Implies(z3.Select(T, y_), z3.And(main(y_), all_used_by(T, y_)))))
        return SSet(t=w.TH, dom=T)

    def assign(self, I, self_, tasks, num):
        w = W["w"]
        w.parallel, w.num = tasks, num
        return SObj(_Graph, {})

    def setup(self, I, case):
        w = W["w"] = World(I)
        n = z3.Int("ntargets")
        I.eng.assume(n >= 0)
        targets = SList(n=n, t=TOpaque(TaskO), arr=z3.Const("targets", z3.ArraySort(INT, TaskO.sort)))
        num = z3.Int("num_gpus") if case == "given" else None
        o = SObj(MG.MultiGPUExecutor, {})
        return (o, targets, num, None), {}, dict(o=o, num=num)

    def ensures(self, I, g, r):
        w, f = W["w"], g["o"].fields
        x = z3.Int("some_task")
        I.eng.assume(z3.Select(w.mem, x))
        par = w.parallel
        G_ = setof(f["per_gpu_tasks"])
        yield "leading-run-first", z3.BoolVal(f["leading_main_handles"].kept_of.arr.eq(w.sarr))
        li, ti, pi = (l.filter[1] for l in (f["leading_main_handles"], f["trailing_main_handles"], par))
        at = lambda l, t: z3.And(0 <= z3.Select(t, z3.Select(w.pos, x)), z3.Select(t, z3.Select(w.pos, x)) < Z(l.n),
                                 Z(l.get(z3.Select(t, z3.Select(w.pos, x))).fields["_index"]) == x)
        inl, int_, inp = at(f["leading_main_handles"], li), at(f["trailing_main_handles"], ti), at(par, pi)
        yield "leading", z3.Implies(z3.Select(w.L, x), inl)
        yield "trailing", z3.Implies(z3.Select(w.T, x), int_)
        yield "somewhere", z3.Or(inl, int_, z3.Select(G_, x), inp)
        yield "main-thread-kept", z3.Implies(main(x), z3.Or(inl, int_))
        j = z3.Int("some_index")
        I.eng.assume(z3.And(0 <= j, j < Z(par.n)))
        p = Z(par.get(j).fields["_index"])
        yield "parallel-may-leave-the-main-thread", z3.Not(main(p))
        yield "parallel-only-once", z3.Not(z3.Or(z3.Select(w.L, p), z3.Select(w.T, p), z3.Select(G_, p)))
        y = z3.Int("some_dependency")
        D = setof(f["trailing_dependencies"])
        yield "kept-for-the-trailing", z3.Implies(z3.And(z3.Select(w.T, x), DEP(x, y)), z3.Select(D, y))
        yield "devices", Z(w.num) == (g["num"] if g["num"] is not None else z3.Int("devices"))

    def raises(self, I, g, exc):
        if not isinstance(exc, RuntimeError):
            return False
        w = W["w"]
        # a main-thread task between parallel ones, or one that is also per-device
        return z3.Exists([x_], z3.And(z3.Select(w.mem, x_), main(x_), z3.Or(PERGPU(HTASK(x_)), z3.And(
            z3.Not(z3.Select(w.L, x_)), z3.Not(z3.Select(w.T, x_))))))
