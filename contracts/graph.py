"""Contracts for mergekit/graph.py: task registration, scheduling, execution."""

import z3

import mergekit.graph as G
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, S, Z
from pyvc.interp import HDict, HList, HSet, LoopSpec, ModelFn, Snapshot, SList, SDict, SSet, SObj
from pyvc import lib

Val = Opaque("Val")
TVal = TOpaque(Val)
_VT = z3.DeclareSort("PyType")
PyType = Opaque("PyTypeO")

TaskO = Opaque("TaskV", pyclass=G.Task)
TTask = TOpaque(TaskO)
STRB = z3.ArraySort(z3.StringSort(), z3.BoolSort())
ARGDOM = z3.Function("ARGDOM", TaskO.sort, STRB)
ARGVAL = z3.Function("ARGVAL", TaskO.sort, z3.ArraySort(z3.StringSort(), TaskO.sort))
TYPEOF = z3.Function("TYPEOF", TaskO.sort, PyType.sort)
IDVAL = z3.Function("IDVAL", z3.IntSort(), TaskO.sort)
GROUP = z3.Function("GROUP", TaskO.sort, z3.StringSort())
PRIO = z3.Function("PRIO", TaskO.sort, z3.IntSort())
ACC = z3.Function("ACC", TaskO.sort, z3.BoolSort())


def _task_arguments(I, t):
    return SDict(kt=TStr, vt=TTask, dom=ARGDOM(t), val=ARGVAL(t))


TaskO.methods.update(
    arguments=_task_arguments,
    priority=lambda I, t: PRIO(t),
    group_label=lambda I, t: GROUP(t),
    uses_accelerator=lambda I, t: ACC(t),
)

TIdKey = TTup(TOpaque(PyType), TInt)
TArgMap = TMap(TStr, TInt)


def _id_model(I, v):
    x = I.eng.fresh("pyid", z3.IntSort())
    I.eng.assumptions.add("id(): among live objects equal ids mean the same object")
    I.eng.assume(IDVAL(x) == v)
    return x


def _type_model(I, v):
    if is_z3(v) and v.sort() == TaskO.sort:
        return TYPEOF(v)
    return lib.b_type(I, v)


def mk_universe(eng, name="U"):
    n = z3.Int(f"{name}_n")
    eng.assume(n >= 0)
    u = SObj(G.TaskUniverse, tag=name)
    u.fields["tasks"] = SList(n=n, t=TTask, arr=z3.Const(f"{name}_tasks", z3.ArraySort(z3.IntSort(), TaskO.sort)))
    u.fields["task_to_index"] = SDict(
        kt=TTask, vt=TInt, dom=z3.Const(f"{name}_t2i_d", z3.ArraySort(TaskO.sort, z3.BoolSort())),
        val=z3.Const(f"{name}_t2i_v", z3.ArraySort(TaskO.sort, z3.IntSort())))
    u.fields["task_arguments"] = SDict(
        kt=TInt, vt=TArgMap, dom=z3.Const(f"{name}_ta_d", z3.ArraySort(z3.IntSort(), z3.BoolSort())),
        val=z3.Const(f"{name}_ta_v", z3.ArraySort(z3.IntSort(), TArgMap.sort)))
    u.fields["_type_id_to_index"] = SDict(
        kt=TIdKey, vt=TInt, dom=z3.Const(f"{name}_ti_d", z3.ArraySort(TIdKey.sort, z3.BoolSort())),
        val=z3.Const(f"{name}_ti_v", z3.ArraySort(TIdKey.sort, z3.IntSort())))
    return u


def snap(u):
    s = SObj(u.cls, tag="snap")
    s.fields = {k: Snapshot.of(v) for k, v in u.fields.items()}
    return s


def q(vs, body, pats=None):
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


i_, t_, k_ = z3.Int("qi"), z3.Const("qt", TaskO.sort), z3.Const("qk", z3.StringSort())
key_ = z3.Const("qkey", TIdKey.sort)


def wf(u):
    """registry representation invariant"""
    tasks, t2i, ti = (u.fields[x] for x in ("tasks", "task_to_index", "_type_id_to_index"))
    if tasks.concrete:
        tasks = SList(n=len(tasks.items), t=TTask, arr=tasks.as_array(TTask)[1])
    t2i = t2i.as_symbolic(TTask, TInt)
    ti = ti.as_symbolic(TIdKey, TInt)
    n, arr = Z(tasks.n), tasks.arr
    ai = z3.Select(arr, i_)
    return [
        ("tasks-indexed", q([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(
            z3.Select(t2i.dom, ai), z3.Select(t2i.val, ai) == i_)), [ai])),
        ("index-sound", q([t_], z3.Implies(z3.Select(t2i.dom, t_), z3.And(
            z3.Select(t2i.val, t_) >= 0, z3.Select(t2i.val, t_) < n,
            z3.Select(arr, z3.Select(t2i.val, t_)) == t_)), [z3.Select(t2i.dom, t_)])),
        ("identity-index-sound", q([key_], z3.Implies(z3.Select(ti.dom, key_), z3.And(
            z3.Select(ti.val, key_) >= 0, z3.Select(ti.val, key_) < n,
            z3.Select(arr, z3.Select(ti.val, key_)) == IDVAL(TIdKey.acc[1](key_)))),
            [z3.Select(ti.dom, key_)])),
    ]


def done(u, lo, hi):
    """argument table of tasks lo..hi-1 is exactly task.arguments()"""
    tasks, ta = u.fields["tasks"], u.fields["task_arguments"].as_symbolic(TInt, TArgMap)
    arr = tasks.arr
    m = z3.Select(ta.val, i_)
    d, v = z3.Select(TArgMap.dom(m), k_), z3.Select(TArgMap.val(m), k_)
    ai = z3.Select(arr, i_)
    return z3.And(
        q([i_], z3.Implies(z3.And(i_ >= lo, i_ < hi), z3.Select(ta.dom, i_))),
        q([i_, k_], z3.Implies(z3.And(i_ >= lo, i_ < hi), z3.And(
            d == z3.Select(ARGDOM(ai), k_),
            z3.Implies(d, z3.And(v >= 0, v < Z(tasks.n), z3.Select(arr, v) == z3.Select(ARGVAL(ai), k_)))))),
    )


def frame_prefix(u, old):
    n0, a0 = Z(old.fields["tasks"].n), old.fields["tasks"].arr
    n1, a1 = Z(u.fields["tasks"].n), u.fields["tasks"].arr
    return z3.And(n1 >= n0, q([i_], z3.Implies(z3.And(i_ >= 0, i_ < n0), z3.Select(a1, i_) == z3.Select(a0, i_)),
                              [z3.Select(a1, i_)]))


def frame_args(u, old, hi):
    a, b = u.fields["task_arguments"], old.fields["task_arguments"]
    a, b = a.as_symbolic(TInt, TArgMap), b.as_symbolic(TInt, TArgMap)
    return q([i_], z3.Implies(z3.And(i_ >= 0, i_ < hi), z3.And(
        z3.Select(a.dom, i_) == z3.Select(b.dom, i_), z3.Select(a.val, i_) == z3.Select(b.val, i_))))


def havoc_universe(I, u):
    eng = I.eng
    for name, spec in (("tasks", HList(TTask)), ("task_to_index", HDict(TTask, TInt)),
                       ("task_arguments", HDict(TInt, TArgMap)), ("_type_id_to_index", HDict(TIdKey, TInt))):
        o = u.fields[name]
        eng.note_mut(o)
        env = type("E", (), {})()
        env.vars, env.parent = {name: o}, None
        I.havoc(env, name, spec)


def add_task_post(u, old, task, res):
    t2i = u.fields["task_to_index"]
    return wf(u) + [
        ("existing-tasks-kept", frame_prefix(u, old)),
        ("existing-arguments-kept", frame_args(u, old, Z(old.fields["tasks"].n))),
        ("new-arguments-recorded", done(u, Z(old.fields["tasks"].n), Z(u.fields["tasks"].n))),
        ("handle-refers-to-task", z3.And(
            Z(res.fields["_index"]) >= 0, Z(res.fields["_index"]) < Z(u.fields["tasks"].n),
            z3.Select(u.fields["tasks"].arr, Z(res.fields["_index"])) == task)),
    ]


def add_task_contract(I, self, task, recursive=True):
    """callee contract of TaskUniverse.add_task (used for the recursive call)"""
    if recursive is not True:
        raise Unsupported("add_task(recursive=False)")
    for lab, g in wf(self):
        I.eng.prove(f"add_task:call:requires:{lab}", g)
    old = snap(self)
    havoc_universe(I, self)
    h = SObj(G.TaskHandle, {"_universe": self, "_index": I.eng.fresh("hidx", z3.IntSort())})
    for _, g in add_task_post(self, old, task, h):
        I.eng.assume(g)
    return h


def _inv_add(c):
    u = c["self"]
    index = Z(c["index"])
    task = c["task"]
    tasks = u.fields["tasks"]
    old = SObj(G.TaskUniverse, tag="old")
    old.fields = {"tasks": c.old["self.tasks"], "task_arguments": c.old["self.task_arguments"]}
    ta = u.fields["task_arguments"].as_symbolic(TInt, TArgMap)
    m = z3.Select(ta.val, index)
    d, v = z3.Select(TArgMap.dom(m), k_), z3.Select(TArgMap.val(m), k_)
    order = c.seq.idx_of
    yield from wf(u)
    yield "prefix", frame_prefix(u, old)
    yield "args-frame", frame_args(u, old, index)
    yield "own-entry", z3.And(z3.Select(ta.dom, index), index < Z(tasks.n), index >= 0,
                              z3.Select(tasks.arr, index) == task)
    yield "own-arguments-so-far", q([k_], z3.And(
        d == z3.And(z3.Select(ARGDOM(task), k_), order(k_) < Z(c.i)),
        z3.Implies(d, z3.And(v >= 0, v < Z(tasks.n), z3.Select(tasks.arr, v) == z3.Select(ARGVAL(task), k_)))))
    yield "nested-done", done(u, index + 1, Z(tasks.n))


@contract("P01")
class AddTask(Contract):
    target = "mergekit.graph:TaskUniverse.add_task"
    models = {id: _id_model, type: _type_model}
    calls = {"mergekit.graph:TaskUniverse.add_task": add_task_contract}
    loops = {("TaskUniverse.add_task", 0): LoopSpec(
        _inv_add, {"self.tasks": HList(TTask), "self.task_to_index": HDict(TTask, TInt),
                   "self.task_arguments": HDict(TInt, TArgMap), "self._type_id_to_index": HDict(TIdKey, TInt)})}
    trusted = ("task graphs are finite and acyclic (frozen pydantic values), so the recursion terminates",
               "Task.__eq__/__hash__ are structural: equal tasks are interchangeable")

    def setup(self, I, case):
        u = mk_universe(I.eng)
        for _, g in wf(u):
            I.eng.assume(g)
        t = TaskO.const("task")
        return (u, t), {}, (u, snap(u), t)

    def ensures(self, I, g, r):
        u, old, t = g
        if not isinstance(r, SObj) or r.fields.get("_universe") is not u:
            yield "returns-handle-of-this-universe", False
            return
        yield from add_task_post(u, old, t, r)


@contract("P01")
class HandleTask(Contract):
    target = "mergekit.graph:TaskHandle.task"

    def setup(self, I, case):
        u = mk_universe(I.eng)
        i = z3.Int("h")
        I.eng.assume(z3.And(i >= 0, i < Z(u.fields["tasks"].n)))
        return (SObj(G.TaskHandle, {"_universe": u, "_index": i}),), {}, (u, i)

    def ensures(self, I, g, r):
        u, i = g
        yield "the-registered-task", r == z3.Select(u.fields["tasks"].arr, i)


@contract("P01")
class HandleArguments(Contract):
    target = "mergekit.graph:TaskHandle.arguments"

    def setup(self, I, case):
        u = mk_universe(I.eng)
        i = z3.Int("h")
        I.eng.assume(z3.And(i >= 0, i < Z(u.fields["tasks"].n), z3.Select(u.fields["task_arguments"].dom, i)))
        return (SObj(G.TaskHandle, {"_universe": u, "_index": i}),), {}, (u, i)

    def ensures(self, I, g, r):
        u, i = g
        m = z3.Select(u.fields["task_arguments"].val, i)
        k = z3.Const("anyk", z3.StringSort())
        has = r.has(k) if not r.concrete else None
        if has is None:
            yield "dict", False
            return
        inn = z3.Select(TArgMap.dom(m), k)
        yield "same-names", has == inn
        I.eng.assume(inn)
        h = r.at(k)
        yield "same-universe", h.fields["_universe"] is u
        yield "same-index", Z(h.fields["_index"]) == z3.Select(TArgMap.val(m), k)


@contract("P01")
class HandleEq(Contract):
    target = "mergekit.graph:TaskHandle.__eq__"
    cases = ["same-universe", "other-universe", "not-a-handle"]

    def setup(self, I, case):
        u, v = SObj(G.TaskUniverse, tag="u"), SObj(G.TaskUniverse, tag="v")
        i, j = z3.Ints("i j")
        a = SObj(G.TaskHandle, {"_universe": u, "_index": i})
        b = {"same-universe": SObj(G.TaskHandle, {"_universe": u, "_index": j}),
             "other-universe": SObj(G.TaskHandle, {"_universe": v, "_index": j}),
             "not-a-handle": "x"}[case]
        return (a, b), {}, (case, i, j)

    def ensures(self, I, g, r):
        case, i, j = g
        yield "equal-iff-same-task", B(r) == (i == j if case == "same-universe" else z3.BoolVal(False))


@contract("P01")
class HandleHash(Contract):
    """equal handles hash equally (the hash depends on nothing but the index)"""

    target = "mergekit.graph:TaskHandle.__hash__"

    def setup(self, I, case):
        u = SObj(G.TaskUniverse, tag="u")
        i = z3.Int("i")
        I.eng.assume(i >= 0)
        return (SObj(G.TaskHandle, {"_universe": u, "_index": i}),), {}, (i, u)

    def ensures(self, I, g, r):
        i, u = g
        j = z3.Int("j")
        # evaluate again on an equal handle
        r2 = I.call(G.TaskHandle.__hash__, (SObj(G.TaskHandle, {"_universe": u, "_index": j}),))
        yield "equal-handles-hash-equally", z3.Implies(i == j, Z(r) == Z(r2))


# ---------------------------------------------------------------- scheduling

HARG = z3.Function("HARG", z3.IntSort(), STRB)  # argument names of handle
HVAL = z3.Function("HVAL", z3.IntSort(), z3.ArraySort(z3.StringSort(), z3.IntSort()))
HTASK = z3.Function("HTASK", z3.IntSort(), TaskO.sort)


class World:
    """a fixed, well-formed universe: handles are integers"""

    def __init__(self, eng):
        self.u = SObj(G.TaskUniverse, tag="world")
        self.TH = TRec(G.TaskHandle, {"_universe": TConst(self.u), "_index": TInt})

    def handle(self, i):
        return SObj(G.TaskHandle, {"_universe": self.u, "_index": i})


_world = {}


def H(I, o):
    return TRec(G.TaskHandle, {"_universe": TConst(o.fields["_universe"]), "_index": TInt})


def handle_arguments_contract(I, h):
    """contract of TaskHandle.arguments (proved above)"""
    i = Z(h.fields["_index"])
    return SDict(kt=TStr, vt=H(I, h), dom=HARG(i), val=HVAL(i))


def handle_task_contract(I, h):
    return HTASK(Z(h.fields["_index"]))


def dep(h, d):
    """d is a dependency of h"""
    k = z3.Const("dk", z3.StringSort())
    return z3.Exists([k], z3.And(z3.Select(HARG(h), k), z3.Select(HVAL(h), k) == d))


x_, y_, j_ = z3.Ints("qx qy qj")


def is_dep_all(h, pred, extra=()):
    """forall names k of h: pred(HVAL(h)[k])"""
    return z3.ForAll([k_] + list(extra), z3.Implies(z3.Select(HARG(h), k_), pred(z3.Select(HVAL(h), k_))),
                     patterns=[z3.Select(HVAL(h), k_)])


CALLS = {"mergekit.graph:TaskHandle.arguments": handle_arguments_contract,
         "mergekit.graph:TaskHandle.task": handle_task_contract}


class _Graph:
    def __init__(self, edges, TE):
        self.edges, self.TE = edges, TE


def _digraph(I, edges=None):
    if not isinstance(edges, SList):
        raise Unsupported("DiGraph argument")
    return SObj(_Graph, {"edges": edges})


def _topo(TH, TE):
    def f(I, graph, key=None):
        eng = I.eng
        edges = graph.fields["edges"]
        mem = edges.members(TE)
        I.eng.assumptions.add(
            "networkx.lexicographical_topological_sort(DiGraph(edges)) lists every node of the graph exactly once, "
            "each edge's source before its target (acyclic graphs)")
        # the key function must be defined on every node
        if key is not None:
            probe = eng.fresh("node", z3.IntSort())
            eng.sub_paths(lambda: I.call(key, (TH.dec(probe),)))
        n = eng.fresh("topo_n", z3.IntSort())
        arr = eng.fresh("topo", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        pos = eng.fresh("topo_pos", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        node = eng.fresh("is_node", z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        eng.assume(n >= 0)
        ai = z3.Select(arr, i_)
        eng.assume(q([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(z3.Select(pos, ai) == i_, z3.Select(node, ai))), [ai]))
        px = z3.Select(pos, x_)
        eng.assume(q([x_], z3.Implies(z3.Select(node, x_), z3.And(px >= 0, px < n, z3.Select(arr, px) == x_)), [px]))
        e = TE.sort.mk(x_, y_)
        eng.assume(q([x_, y_], z3.Implies(z3.Select(mem, e), z3.And(
            z3.Select(node, x_), z3.Select(node, y_), z3.Select(pos, x_) < z3.Select(pos, y_))), [z3.Select(mem, e)]))
        # only endpoints of edges are nodes
        oe = eng.fresh("node_edge", z3.ArraySort(z3.IntSort(), TE.sort))
        o = z3.Select(oe, x_)
        eng.assume(q([x_], z3.Implies(z3.Select(node, x_), z3.And(
            z3.Select(mem, o), z3.Or(TE.acc[0](o) == x_, TE.acc[1](o) == x_))), [z3.Select(node, x_)]))
        l = SList(n=n, t=TH, arr=arr)
        l.pos, l.node = pos, node
        eng.ghost_topo = l
        return l
    return f


class _Sched(Contract):
    pass


def _mk_build_schedule():
    # the handle type needs the concrete universe object of a path, so the
    # contract is built around a per-path world
    state = {}

    def edges_inv(c, E, X, mem, cached, TE):
        e = TE.sort.mk(x_, y_)
        yield "targets-reached", q([j_], z3.Implies(
            z3.And(j_ >= 0, j_ < state["tn"]),
            z3.Or(z3.Select(E, z3.Select(state["tarr"], j_)), z3.Select(X, z3.Select(state["tarr"], j_)))))
        yield "edges-are-dependencies", q([x_, y_], z3.Implies(z3.Select(mem, e), z3.And(
            z3.Select(E, y_), z3.Not(cached(y_)), x_ >= 0, y_ >= 0)), [z3.Select(mem, e)])
        yield "known-handles", q([x_], z3.Implies(z3.Or(z3.Select(E, x_), z3.Select(X, x_)), x_ >= 0))

    def closed(E, X, mem, cached, TE, skip=None):
        d = z3.Select(HVAL(y_), k_)
        body = z3.Implies(
            z3.And(z3.Select(E, y_), z3.Not(cached(y_)), z3.Select(HARG(y_), k_),
                   *( [y_ != skip] if skip is not None else [])),
            z3.And(z3.Or(z3.Select(E, d), z3.Select(X, d)), z3.Select(mem, TE.sort.mk(d, y_))))
        return q([y_, k_], body)

    def dom(s, TH):
        return s.as_symbolic(TH).dom

    def inv0(c):
        TH, TE = state["TH"], state["TE"]
        E, X = dom(c["explored"], TH), dom(c["to_explore"], TH)
        mem = c["edge_tups"].members(TE)
        yield from edges_inv(c, E, X, mem, state["cached"], TE)
        yield "explored-closed", closed(E, X, mem, state["cached"], TE)

    def inv1(c):
        TH, TE = state["TH"], state["TE"]
        E, X = dom(c["explored"], TH), dom(c["to_explore"], TH)
        mem = c["edge_tups"].members(TE)
        X0 = dom(c.old["to_explore"], TH)
        m0 = c.old["edge_tups"].members(TE)
        task = Z(c["task"].fields["_index"])
        yield from edges_inv(c, E, X, mem, state["cached"], TE)
        yield "others-closed", closed(E, X, mem, state["cached"], TE, skip=task)
        d = z3.Select(HVAL(task), k_)
        yield "own-deps-so-far", q([k_], z3.Implies(
            z3.And(z3.Select(HARG(task), k_), c.seq.idx_of(k_) < Z(c.i)),
            z3.And(z3.Or(z3.Select(E, d), z3.Select(X, d)), z3.Select(mem, TE.sort.mk(d, task)))))

    def inv2(c):
        TE = state["TE"]
        mem, m0 = c["edge_tups"].members(TE), c.old["edge_tups"].members(TE)
        e = TE.sort.mk(x_, y_)
        yield "edges-kept", q([x_, y_], z3.Implies(z3.Select(m0, e), z3.Select(mem, e)))
        tj = z3.Select(state["tarr"], j_)
        yield "targets-added", q([j_], z3.Implies(z3.And(j_ >= 0, j_ < Z(c.i)), z3.Select(mem, TE.sort.mk(z3.IntVal(-1), tj))))
        yield "only-root-edges-added", q([x_, y_], z3.Implies(z3.Select(mem, e), z3.Or(z3.Select(m0, e), x_ == -1)))

    def L_(c):
        d = c["last_use_index"].as_symbolic(state["TH"], TInt)
        return d.dom, d.val

    def sched_at(c, j):
        return Z(c["schedule"].get(j).fields["_index"])

    def last_use_facts(Ld, Lv, sch, lo, n):
        s = Z(sch.get(j_).fields["_index"])
        d = z3.Select(HVAL(s), k_)
        return z3.And(
            q([j_], z3.Implies(z3.And(j_ >= lo, j_ < n), z3.And(z3.Select(Ld, s), z3.Select(Lv, s) >= j_))),
            q([j_, k_], z3.Implies(z3.And(j_ >= lo, j_ < n, z3.Select(HARG(s), k_)),
                                   z3.And(z3.Select(Ld, d), z3.Select(Lv, d) >= j_))))

    def inv3(c):
        Ld, Lv = L_(c)
        n = Z(c["schedule"].length())
        yield "recent", q([x_], z3.Implies(z3.Select(Ld, x_), z3.Select(Lv, x_) >= n - Z(c.i)))
        yield "last-use-covers", last_use_facts(Ld, Lv, c["schedule"], n - Z(c.i), n)

    def inv4(c):
        Ld, Lv = L_(c)
        n = Z(c["schedule"].length())
        idx = Z(c["idx"])
        task = Z(c["task"].fields["_index"])
        yield "recent", q([x_], z3.Implies(z3.Select(Ld, x_), z3.Select(Lv, x_) >= idx))
        yield "last-use-covers", last_use_facts(Ld, Lv, c["schedule"], idx + 1, n)
        d = z3.Select(HVAL(task), k_)
        yield "own-deps", q([k_], z3.Implies(z3.And(z3.Select(HARG(task), k_), c.seq.idx_of(k_) < Z(c.i)),
                                             z3.And(z3.Select(Ld, d), z3.Select(Lv, d) >= idx)))

    def inv5(c):
        Ld, Lv = L_(c)
        o = c.old["last_use_index"].as_symbolic(state["TH"], TInt)
        n = Z(c["schedule"].length())
        yield "kept", q([x_], z3.Implies(z3.Select(o.dom, x_), z3.And(
            z3.Select(Ld, x_), z3.Select(Lv, x_) == z3.Select(o.val, x_))))
        if hasattr(c.seq, "idx_of"):
            yield "cached-covered", q([x_], z3.Implies(z3.And(state["cached"](x_), c.seq.idx_of(TIntH(x_)) < Z(c.i)),
                                                       z3.Select(Ld, x_)))

    def TIntH(x):
        return state["TH"].dec(x)

    def H_th(I, cur):
        raise AssertionError

    class LS(LoopSpec):
        """loop specs whose element types depend on the per-path world"""

        def __init__(self, inv, mods):
            super().__init__(inv, {})
            self._mods = mods

        @property
        def modifies(self):
            TH, TE = state["TH"], state["TE"]
            kinds = {"S": HSet(TH), "E": HList(TE), "D": HDict(TH, TInt)}
            return {k: kinds[v] for k, v in self._mods.items()}

        @modifies.setter
        def modifies(self, v):
            pass

    import networkx

    @contract("P01")
    class BuildSchedule(Contract):
        target = "mergekit.graph:build_schedule"
        cases = ["no-cache", "cache", "no-targets"]
        calls = CALLS
        timeout_ms = 20000
        budget_s = 60
        loops = {
            ("build_schedule", 0): LS(inv0, {"explored": "S", "to_explore": "S", "edge_tups": "E"}),
            ("build_schedule", 1): LS(inv1, {"to_explore": "S", "edge_tups": "E"}),
            ("build_schedule", 2): LS(inv2, {"edge_tups": "E"}),
            ("build_schedule", 3): LS(inv3, {"last_use_index": "D"}),
            ("build_schedule", 4): LS(inv4, {"last_use_index": "D"}),
            ("build_schedule", 5): LS(inv5, {"last_use_index": "D"}),
        }
        trusted = ("dependency graphs are acyclic", "argument handles of a registered task are registered")

        @property
        def models(self):
            return {networkx.DiGraph: _digraph,
                    networkx.lexicographical_topological_sort:
                        lambda I, g, key=None: _topo(state["TH"], state["TE"])(I, g, key)}

        def setup(self, I, case):
            w = World(I.eng)
            state["TH"] = w.TH
            state["TE"] = TTup(w.TH, w.TH)
            n = z3.Int("ntargets")
            I.eng.assume(n >= 0)
            arr = z3.Const("targets", z3.ArraySort(z3.IntSort(), z3.IntSort()))
            I.eng.assume(q([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.Select(arr, i_) >= 0)))
            I.eng.assume(q([x_, k_], z3.Implies(z3.And(x_ >= 0, z3.Select(HARG(x_), k_)), z3.Select(HVAL(x_), k_) >= 0)))
            if case == "no-targets":
                targets = SList()
            else:
                I.eng.assume(n > 0)
                targets = SList(n=n, t=w.TH, arr=arr)
            state["tn"], state["tarr"] = n, arr
            cd = z3.Const("cached_dom", z3.ArraySort(z3.IntSort(), z3.BoolSort()))
            cached = SDict(kt=w.TH, vt=TVal, dom=cd, val=z3.Const("cached_val", z3.ArraySort(z3.IntSort(), Val.sort)))
            if case == "cache":
                state["cached"] = lambda x: z3.Select(cd, x)
            else:
                state["cached"] = lambda x: z3.BoolVal(False)
            return (targets, cached if case == "cache" else None), {}, (case, w)

        def ensures(self, I, g, r):
            case, w = g
            sch, L = r.fields["tasks"], r.fields["last_use_index"].as_symbolic(w.TH, TInt)
            if case == "no-targets":
                yield "empty", sch.concrete and not sch.items
                return
            eng = I.eng
            n = Z(sch.length())
            a, b = z3.Ints("any_a any_b")
            k = z3.Const("any_k", z3.StringSort())
            at = lambda i: Z(sch.get(i).fields["_index"])
            yield "each-task-once", z3.Implies(z3.And(0 <= a, a < b, b < n), at(a) != at(b))
            yield "cached-not-recomputed", z3.Implies(z3.And(0 <= a, a < n), z3.And(z3.Not(state["cached"](at(a))), at(a) >= 0))
            sig, tau, _ = sch.filter
            topo = I.eng.ghost_topo
            where = lambda h: z3.Select(tau, z3.Select(topo.pos, h))  # position of h in the schedule
            t = z3.Select(state["tarr"], a)
            yield "every-target-scheduled", z3.Implies(
                z3.And(0 <= a, a < state["tn"], z3.Not(state["cached"](t))),
                z3.And(where(t) >= 0, where(t) < n, at(where(t)) == t))
            d = z3.Select(HVAL(at(a)), k)
            yield "dependencies-first", z3.Implies(
                z3.And(0 <= a, a < n, z3.Select(HARG(at(a)), k)),
                z3.Or(state["cached"](d), z3.And(where(d) >= 0, where(d) < a, at(where(d)) == d)))
            yield "kept-until-last-use", z3.Implies(
                z3.And(0 <= a, a < n, z3.Select(HARG(at(a)), k)),
                z3.And(z3.Select(L.dom, d), z3.Select(L.val, d) >= a))
            yield "own-entry", z3.Implies(z3.And(0 <= a, a < n), z3.And(z3.Select(L.dom, at(a)), z3.Select(L.val, at(a)) >= a))
            if case == "cache":
                yield "cached-have-entries", z3.Implies(state["cached"](a), z3.Select(L.dom, a))

    return BuildSchedule


BuildSchedule = _mk_build_schedule()
