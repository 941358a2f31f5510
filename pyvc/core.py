"""pyvc core: symbolic values, paths, proof obligations.

pyvc is a small deductive verifier for a subset of Python.  It parses the real
functions of /repo's working tree on every run, executes them symbolically
(loops over unbounded collections through contract invariants, calls through
callee contracts or by inlining the callee's current source) and hands each
proof obligation to an SMT solver.

Value representation
  * concrete Python objects stand for themselves;
  * z3 terms: Int (int), Real (float, mathematical reals), Bool, String,
    and terms of uninterpreted sorts (opaque objects, see ``Opaque``);
  * SList / SDict / SSet / SObj / tuple: containers and instances;
  * STensor (tmodel.py): tensors, one z3 term per generic element.

Paths are explored by re-execution: a path is a list of decisions, and every
path runs the function from the start on fresh symbolic inputs with
deterministic names.
"""

import fractions
import itertools
import re
import time

import z3

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


class Unsupported(Exception):
    """The function leaves the verifier's subset: undecided, never a violation."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(exc))

    @property
    def cls(self):
        return self.exc if isinstance(self.exc, type) else type(self.exc)


class PathEnd(Exception):
    """Ends a path early (an arbitrary loop iteration was checked; infeasible)."""


class Refuted(Exception):
    pass


# ---------------------------------------------------------------- z3 helpers


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def R(v):
    """to a z3 Real term"""
    if is_z3(v):
        if v.sort() == z3.RealSort():
            return v
        if v.sort() == z3.IntSort():
            return z3.ToReal(v)
        if v.sort() == z3.BoolSort():
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        raise Unsupported(f"cannot use {v.sort()} as a number")
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, (int, float, fractions.Fraction)):
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            raise Unsupported("non-finite float literal")
        f = fractions.Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    raise Unsupported(f"cannot use {type(v).__name__} as a number")


def Z(v):
    """to a z3 Int term"""
    if is_z3(v):
        if v.sort() == z3.IntSort():
            return v
        if v.sort() == z3.BoolSort():
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f"expected an integer term, got {v.sort()}")
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    raise Unsupported(f"expected an integer, got {type(v).__name__}")


def B(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if is_z3(v) and v.sort() == z3.BoolSort():
        return v
    raise Unsupported(f"expected a boolean term, got {v!r}")


def S(v):
    if isinstance(v, str):
        return z3.StringVal(v)
    if is_z3(v) and v.sort() == z3.StringSort():
        return v
    raise Unsupported(f"expected a string term, got {v!r}")


def is_num(v):
    if isinstance(v, (bool, int, float, fractions.Fraction)):
        return True
    return is_z3(v) and v.sort() in (z3.IntSort(), z3.RealSort(), z3.BoolSort())


def is_int(v):
    if isinstance(v, (bool, int)):
        return True
    return is_z3(v) and v.sort() in (z3.IntSort(), z3.BoolSort())


def And(*xs):
    xs = [B(x) for x in xs]
    return z3.And(xs) if xs else z3.BoolVal(True)


def Or(*xs):
    xs = [B(x) for x in xs]
    return z3.Or(xs) if xs else z3.BoolVal(False)


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    return z3.Implies(B(a), B(b))


_opaque_classes = {}


class Opaque:
    """An uninterpreted sort standing for instances of a Python class.

    attrs: name -> fn(engine, term) giving the attribute's value
    methods: name -> fn(engine, term, *args, **kw)
    """

    def __init__(self, name, pyclass=None, attrs=None, methods=None, truthy=True):
        self.name = name
        self.sort = z3.DeclareSort(name)
        self.pyclass = pyclass
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.truthy = truthy
        _opaque_classes[self.sort.name()] = self

    def const(self, name):
        return z3.Const(name, self.sort)


def opaque_of(term):
    if is_z3(term):
        return _opaque_classes.get(term.sort().name())
    return None


# ---------------------------------------------------------------- types
# Element types of unbounded containers: encode(value)->z3, decode(z3)->value


class T:
    sort = None

    def enc(self, v):
        raise NotImplementedError

    def dec(self, t):
        return t

    def fresh(self, eng, name):
        return self.dec(eng.fresh(name, self.sort))


class _TInt(T):
    sort = z3.IntSort()

    def enc(self, v):
        return Z(v)


class _TReal(T):
    sort = z3.RealSort()

    def enc(self, v):
        return R(v)


class _TBool(T):
    sort = z3.BoolSort()

    def enc(self, v):
        return B(v)


class _TStr(T):
    sort = z3.StringSort()

    def enc(self, v):
        return S(v)


TInt, TReal, TBool, TStr = _TInt(), _TReal(), _TBool(), _TStr()


class TOpaque(T):
    def __init__(self, op):
        self.op = op
        self.sort = op.sort

    def enc(self, v):
        if is_z3(v) and v.sort() == self.sort:
            return v
        raise Unsupported(f"expected {self.op.name}, got {v!r}")


class TConst(T):
    """Exactly one value (e.g. the universe every handle points to)."""

    sort = None

    def __init__(self, value):
        self.value = value


_dt_cache = {}


class TRec(T):
    """Instances of a class, as a record of the encodable fields."""

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields
        self.var = [(k, t) for k, t in fields.items() if not isinstance(t, TConst)]
        if len(self.var) == 1:
            self.sort = self.var[0][1].sort
            self.ctor = lambda x: x
            self.acc = [lambda x: x]
        else:
            key = (cls.__name__, tuple((k, t.sort.sexpr()) for k, t in self.var))
            if key not in _dt_cache:
                d = z3.Datatype(f"rec_{cls.__name__}_{len(_dt_cache)}")
                d.declare("mk", *[(f"f_{k}", t.sort) for k, t in self.var])
                _dt_cache[key] = d.create()
            dt = _dt_cache[key]
            self.sort = dt
            self.ctor = dt.mk
            self.acc = [getattr(dt, f"f_{k}") for k, _ in self.var]

    def enc(self, v):
        if not isinstance(v, SObj) or v.cls is not self.cls:
            raise Unsupported(f"expected {self.cls.__name__}, got {v!r}")
        for k, t in self.fields.items():
            if isinstance(t, TConst) and v.fields.get(k) is not t.value:
                raise Unsupported(f"{self.cls.__name__}.{k} is not the expected object")
        return self.ctor(*[t.enc(v.fields[k]) for k, t in self.var])

    def dec(self, term):
        o = SObj(self.cls)
        for k, t in self.fields.items():
            if isinstance(t, TConst):
                o.fields[k] = t.value
        for (k, t), a in zip(self.var, self.acc):
            o.fields[k] = t.dec(a(term))
        return o


class TTup(T):
    def __init__(self, *ts):
        self.ts = ts
        key = ("tup",) + tuple(t.sort.sexpr() for t in ts)
        if key not in _dt_cache:
            d = z3.Datatype(f"tup_{len(_dt_cache)}")
            d.declare("mk", *[(f"e{i}_{len(_dt_cache)}", t.sort) for i, t in enumerate(ts)])
            _dt_cache[key] = d.create()
        self.sort = _dt_cache[key]
        self.acc = [self.sort.accessor(0, i) for i in range(len(ts))]

    def enc(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.ts):
            raise Unsupported(f"expected a {len(self.ts)}-tuple, got {v!r}")
        return self.sort.mk(*[t.enc(x) for t, x in zip(self.ts, v)])

    def dec(self, term):
        return tuple(t.dec(a(term)) for t, a in zip(self.ts, self.acc))


class TMap(T):
    """A finite map stored inside another container (value type)."""

    def __init__(self, kt, vt):
        self.kt, self.vt = kt, vt
        key = ("map", kt.sort.sexpr(), vt.sort.sexpr())
        if key not in _dt_cache:
            d = z3.Datatype(f"map_{len(_dt_cache)}")
            d.declare(
                "mk",
                (f"dom_{len(_dt_cache)}", z3.ArraySort(kt.sort, z3.BoolSort())),
                (f"val_{len(_dt_cache)}", z3.ArraySort(kt.sort, vt.sort)),
            )
            _dt_cache[key] = d.create()
        self.sort = _dt_cache[key]
        self.dom = self.sort.accessor(0, 0)
        self.val = self.sort.accessor(0, 1)

    def enc(self, v):
        if not isinstance(v, SDict):
            raise Unsupported(f"expected a dict, got {v!r}")
        v = v.as_symbolic(self.kt, self.vt)
        return self.sort.mk(v.dom, v.val)

    def dec(self, term):
        return SDict(kt=self.kt, vt=self.vt, dom=self.dom(term), val=self.val(term))


class TSet(T):
    """A set stored inside another container (value type)."""

    def __init__(self, t):
        self.t = t
        self.sort = z3.ArraySort(t.sort, z3.BoolSort())

    def enc(self, v):
        if not isinstance(v, SSet):
            raise Unsupported(f"expected a set, got {v!r}")
        return v.as_symbolic(self.t).dom

    def dec(self, term):
        return SSet(t=self.t, dom=term)


class TOpt(T):
    def __init__(self, t):
        self.t = t
        key = ("opt", t.sort.sexpr())
        if key not in _dt_cache:
            d = z3.Datatype(f"opt_{len(_dt_cache)}")
            d.declare(f"none_{len(_dt_cache)}")
            d.declare(f"some_{len(_dt_cache)}", (f"v_{len(_dt_cache)}", t.sort))
            _dt_cache[key] = d.create()
        self.sort = _dt_cache[key]
        self.none = self.sort.constructor(0)()
        self.some = self.sort.constructor(1)
        self.is_none = self.sort.recognizer(0)
        self.v = self.sort.accessor(1, 0)

    def enc(self, v):
        if type(v) is Choice:
            return z3.If(v.c, self.enc(v.a), self.enc(v.b))
        if is_z3(v) and v.sort() == self.sort:
            return v
        return self.none if v is None else self.some(self.t.enc(v))

    def dec(self, term):
        eng = Engine.current
        if eng.branch(self.is_none(term)):
            return None
        return self.t.dec(self.v(term))


# ---------------------------------------------------------------- heap values


def _alloc(obj):
    if Engine.current is not None:
        Engine.current.note_alloc(obj)


class SObj:
    """An instance of a (native) class with engine-level fields."""

    def __init__(self, cls, fields=None, tag=None):
        self.cls = cls
        self.fields = dict(fields or {})
        self.tag = tag
        _alloc(self)

    def __repr__(self):
        return f"<{self.cls.__name__} {self.tag or ''}{self.fields}>"


class SList:
    """A Python list. Concrete (``items``) or symbolic (``n``, ``get``)."""

    def __init__(self, items=None, n=None, get=None, t=None, arr=None):
        self.items = items
        self.n = n
        self.t = t
        self.arr = arr
        if arr is not None and get is None:
            get = lambda i: t.dec(z3.Select(arr, Z(i)))
        self._get = get
        self.writeback = None
        self.mem = self.wit = None  # ghost: the set of elements, and an index for each
        if items is None and n is None:
            self.items = []
        _alloc(self)

    @property
    def concrete(self):
        return self.items is not None

    def length(self):
        return len(self.items) if self.concrete else self.n

    def get(self, i):
        if self.concrete:
            return self.items[i]
        return self._get(i)

    def as_array(self, t):
        """(n, arr) with elements encoded by t"""
        if not self.concrete and self.arr is not None and self.t is t:
            return Z(self.n), self.arr
        eng = Engine.current
        if self.concrete:
            arr = eng.fresh("lst", z3.ArraySort(z3.IntSort(), t.sort))
            for i, x in enumerate(self.items):
                arr = z3.Store(arr, i, t.enc(x))
            return z3.IntVal(len(self.items)), arr
        i = eng.fresh_bound("i", z3.IntSort())
        body = eng.generic(lambda: t.enc(self._get(i)), [i], [i >= 0, i < Z(self.n)])
        return Z(self.n), z3.Lambda([i], body)

    def members(self, t):
        """ghost element set: array t -> Bool"""
        if self.concrete:
            m = z3.K(t.sort, z3.BoolVal(False))
            for x in self.items:
                m = z3.Store(m, t.enc(x), True)
            return m
        if self.mem is None:
            raise Unsupported("list has no ghost element set")
        return self.mem

    def ghost_axioms(self, eng):
        """give an arbitrary array-backed list its ghost element set"""
        t, n, arr = self.t, Z(self.n), self.arr
        self.mem = eng.fresh("mem", z3.ArraySort(t.sort, z3.BoolSort()))
        self.wit = eng.fresh("wit", z3.ArraySort(t.sort, z3.IntSort()))
        i, k = z3.Int("gi"), z3.Const("gk", t.sort)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(self.mem, z3.Select(arr, i))),
                             patterns=[z3.Select(arr, i)]))
        w = z3.Select(self.wit, k)
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(self.mem, k), z3.And(
            w >= 0, w < n, z3.Select(arr, w) == k)), patterns=[z3.Select(self.mem, k)]))

    def __repr__(self):
        return f"SList({self.items if self.concrete else f'n={self.n}'})"


class SDict:
    """A Python dict.

    concrete: ``pairs`` [(key, value)] with pairwise distinct keys
    symbolic: ``dom``/``val`` arrays (insertion order in ``order`` if given:
              an (n, get, index) triple enumerating the domain)
    """

    def __init__(self, pairs=None, kt=None, vt=None, dom=None, val=None, order=None,
                 get=None, has=None):
        self.pairs = pairs
        self.kt, self.vt = kt, vt
        self.dom, self.val = dom, val
        self.order = order
        self._get = get
        self._has = has
        self.writeback = None
        self.factory = None  # of a defaultdict
        self.touched = [False]  # a missing key was read: which keys are present is unknown
        if pairs is None and dom is None and has is None:
            self.pairs = []
        _alloc(self)

    @property
    def concrete(self):
        return self.pairs is not None

    def as_symbolic(self, kt, vt):
        if not self.concrete:
            if self.dom is None:
                raise Unsupported("functional dict used as an array map")
            return self
        eng = Engine.current
        dom = z3.K(kt.sort, z3.BoolVal(False))
        val = eng.fresh("mapv", z3.ArraySort(kt.sort, vt.sort))
        for k, v in self.pairs:
            dom = z3.Store(dom, kt.enc(k), True)
            val = z3.Store(val, kt.enc(k), vt.enc(v))
        return SDict(kt=kt, vt=vt, dom=dom, val=val)

    def has(self, k):
        """z3 bool: k in dict (symbolic mode)"""
        if self.touched[0]:
            raise Unsupported("key test on a defaultdict whose missing keys were read")
        if self._has is not None:
            return self._has(k)
        return z3.Select(self.dom, self.kt.enc(k))

    def at(self, k):
        if self._get is not None:
            return self._get(k)
        v = self.vt.dec(z3.Select(self.val, self.kt.enc(k)))
        if isinstance(v, (SDict, SList, SSet)):
            key = self.kt.enc(k)

            def wb(new):
                Engine.current.note_mut(self)
                self.val = z3.Store(self.val, key, self.vt.enc(new))
                if self.writeback:
                    self.writeback(self)

            v.writeback = wb
            v.parent = self
        return v

    def or_default(self, k, v0):
        """self[k] of a symbolic defaultdict (v0: what the factory makes)"""
        if self.dom is None:
            raise Unsupported("functional defaultdict")
        self.touched[0], self.order = True, None
        key = self.kt.enc(k)
        v = self.vt.dec(z3.If(z3.Select(self.dom, key), z3.Select(self.val, key), self.vt.enc(v0)))
        if isinstance(v, (SDict, SList, SSet)):

            def wb(new):
                Engine.current.note_mut(self)
                self.dom = z3.Store(self.dom, key, True)
                self.val = z3.Store(self.val, key, self.vt.enc(new))
                if self.writeback:
                    self.writeback(self)

            v.writeback = wb
            v.parent = self
        return v

    def __repr__(self):
        return f"SDict({self.pairs if self.concrete else 'symbolic'})"


class SSet:
    def __init__(self, items=None, t=None, dom=None):
        self.items = items
        self.t = t
        self.dom = dom
        self.writeback = None
        if items is None and dom is None:
            self.items = []
        _alloc(self)

    @property
    def concrete(self):
        return self.items is not None

    def as_symbolic(self, t):
        if not self.concrete:
            return self
        dom = z3.K(t.sort, z3.BoolVal(False))
        for x in self.items:
            dom = z3.Store(dom, t.enc(x), True)
        return SSet(t=t, dom=dom)

    def has(self, v):
        return z3.Select(self.dom, self.t.enc(v))

    def __repr__(self):
        return f"SSet({self.items if self.concrete else 'symbolic'})"


# ---------------------------------------------------------------- big operators

_RA = z3.ArraySort(z3.IntSort(), z3.RealSort())
SUM = z3.Function("SUM", _RA, z3.IntSort(), z3.RealSort())
MAX = z3.Function("MAX", _RA, z3.IntSort(), z3.RealSort())
MIN = z3.Function("MIN", _RA, z3.IntSort(), z3.RealSort())
SQRT = z3.Function("sqrt_", z3.RealSort(), z3.RealSort())
_bigs = {"SUM", "MAX", "MIN"}


def collect_big(exprs):
    """every big-operator application without bound variables below exprs"""
    seen, out, memo = set(), {}, {}

    def has_var(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        if z3.is_var(e):
            r = True
        elif z3.is_quantifier(e):
            r = _free_above(e)
        else:
            r = any(has_var(c) for c in e.children())
        memo[k] = r
        return r

    stack = list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().name() in _bigs and not has_var(e):
                out[e.get_id()] = e
            stack.extend(e.children())
        elif z3.is_quantifier(e):
            stack.append(e.body())
    return list(out.values())


def _free_above(q):
    """does quantifier/lambda q contain de Bruijn variables free in q?"""

    def go(e, depth, seen):
        key = (e.get_id(), depth)
        if key in seen:
            return False
        seen.add(key)
        if z3.is_var(e):
            return z3.get_var_index(e) >= depth
        if z3.is_quantifier(e):
            return go(e.body(), depth + e.num_vars(), seen)
        return any(go(c, depth, seen) for c in e.children())

    return go(q, 0, set())


# ---------------------------------------------------------------- engine


class Obligation:
    __slots__ = ("name", "status", "detail", "backend", "time", "precise")

    def __init__(self, name, status, detail="", backend="z3", t=0.0, precise=True):
        self.name, self.status, self.detail = name, status, detail
        self.backend, self.time, self.precise = backend, t, precise


class _Sub:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.conds = []
        self.alts = []


class Engine:
    current = None

    uf_concat = False

    def __init__(self, timeout_ms=10000, log=None):
        self.timeout_ms = timeout_ms
        self.obligations = []
        self.assumptions = set()
        self.inlined = set()
        self.called_contracts = set()
        self._proved = set()
        self.solver_time = 0.0
        self.paths = 0
        self.log = log or (lambda *_: None)
        self.facts_hook = []

    # ---- path management
    def explore(self, fn, max_paths=400, deadline=None):
        """run fn once per feasible path"""
        stack = [[]]
        while stack:
            if self.paths >= max_paths:
                raise Unsupported(f"more than {max_paths} paths")
            if deadline and time.time() > deadline:
                raise Unsupported("time budget exhausted")
            prefix = stack.pop()
            self.paths += 1
            self._start(prefix)
            Engine.current = self
            try:
                fn()
            except PathEnd:
                pass
            stack.extend(self._alts)

    def _start(self, prefix):
        self.prefix = prefix
        self.taken = []
        self._alts = []
        self.pc = []
        self.counter = itertools.count()
        self.subs = []
        self.bound = []  # stack of (vars, guards)
        self.solver = z3.Solver()
        self.solver.set("timeout", 300)
        self.ob_ordinal = {}
        self.precise = True
        self.watch = []  # loop frames: (set of allowed ids, allocated after)
        self.trace = []
        self.interp_depth = 0

    def fresh(self, name, sort):
        n = f"{name}!{next(self.counter)}"
        if self.bound:
            vs = [v for b, _ in self.bound for v in b]
            f = z3.Function(n, *[v.sort() for v in vs], sort)
            return f(*vs)
        return z3.Const(n, sort)

    def fresh_bound(self, name, sort):
        return z3.Const(f"{name}?{next(self.counter)}", sort)

    def assume(self, fact):
        if isinstance(fact, bool):
            if not fact:
                raise PathEnd()
            return
        if self.bound:
            vs = [v for b, _ in self.bound for v in b]
            gs = [g for _, gg in self.bound for g in gg]
            gs += [c for s in self.subs for c in s.conds]
            fact = z3.Implies(And(*gs), fact)
            if vs:
                fact = z3.ForAll(vs, fact)
            self.pc.append(fact)
            self.solver.add(fact)
            return
        if self.subs:
            gs = [c for s in self.subs for c in s.conds]
            if gs:
                fact = z3.Implies(And(*gs), fact)
        self.pc.append(fact)
        self.solver.add(fact)

    def context(self):
        return (
            [g for _, gg in self.bound for g in gg]
            + [c for s in self.subs for c in s.conds]
        )

    def _feasible(self, cond):
        t = time.time()
        r = self.solver.check(*(self.context() + [cond]))
        self.solver_time += time.time() - t
        return r != z3.unsat

    def branch(self, cond):
        """decide a symbolic condition on this path"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.subs:
            s = self.subs[-1]
            if len(s.taken) < len(s.prefix):
                d = s.prefix[len(s.taken)]
                s.taken.append(d)
            else:
                ft = self._feasible(cond)
                ff = self._feasible(z3.Not(cond))
                if ft and ff:
                    s.alts.append(s.taken + [False])
                    s.taken.append(True)
                elif not ft and not ff:
                    raise PathEnd()
                else:
                    s.taken.append(ft)
                d = s.taken[-1]
            s.conds.append(cond if d else z3.Not(cond))
            return d
        if len(self.taken) < len(self.prefix):
            d = self.prefix[len(self.taken)]
            self.taken.append(d)
        else:
            ft = self._feasible(cond)
            ff = self._feasible(z3.Not(cond))
            if not ft and not ff:
                raise PathEnd()
            if ft and ff:
                self._alts.append(self.taken + [False])
                d = True
            else:
                d = ft
            self.taken.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """nondeterministic choice among n alternatives (top level only)"""
        if self.subs:
            raise Unsupported("loop over an unbounded collection inside an expression")
        if len(self.taken) < len(self.prefix):
            d = self.prefix[len(self.taken)]
            self.taken.append(d)
            return d
        for k in range(1, n):
            self._alts.append(self.taken + [k])
        self.taken.append(0)
        return 0

    def sub_paths(self, fn):
        """run a pure computation on all its internal paths: [(conds, value)]"""
        out, stack = [], [[]]
        while stack:
            pre = stack.pop()
            sub = _Sub(pre)
            self.subs.append(sub)
            self.watch.append({"ok": set(), "new": set(), "keep": [], "what": "expression"})
            try:
                v = fn()
                out.append((list(sub.conds), v))
            except PathEnd:
                pass
            except PyRaise as e:
                out.append((list(sub.conds), e))
            finally:
                self.subs.pop()
                w = self.watch.pop()
                for o in w["keep"]:
                    self.note_alloc(o)
            stack.extend(sub.alts)
            if len(out) > 64:
                raise Unsupported("too many paths in an expression")
        return out

    def merged(self, fn):
        """value of a pure computation, its internal paths joined by if-then-else"""
        if not self.subs and not self.bound:
            pass
        outs = self.sub_paths(fn)
        for conds, v in outs:
            if isinstance(v, PyRaise):
                if self._feasible(And(*conds)):
                    raise Unsupported(f"exception inside an expression: {v}")
        outs = [(c, v) for c, v in outs if not isinstance(v, PyRaise)]
        if not outs:
            raise PathEnd()
        res = outs[-1][1]
        for c, v in reversed(outs[:-1]):
            res = ite(And(*c), v, res)
        return res

    def generic(self, fn, vars_, guards):
        """evaluate fn under bound variables"""
        self.bound.append((vars_, guards))
        try:
            return self.merged(fn)
        finally:
            self.bound.pop()

    def forall(self, sorts, body, guard=None, patterns=None):
        vs = [self.fresh_bound("q", s) for s in sorts]
        g = guard(*vs) if guard else True
        b = self.generic(lambda: B(body(*vs)), vs, [] if g is True else [B(g)])
        q = z3.Implies(B(g), b)
        if patterns:
            return z3.ForAll(vs, q, patterns=[z3.MultiPattern(*patterns(*vs))])
        return z3.ForAll(vs, q)

    def exists(self, sorts, body):
        vs = [self.fresh_bound("e", s) for s in sorts]
        b = self.generic(lambda: B(body(*vs)), vs, [])
        return z3.Exists(vs, b)

    # ---- mutation tracking
    def note_alloc(self, obj):
        for w in self.watch:
            w["new"].add(id(obj))
            w["keep"].append(obj)

    def note_mut(self, obj):
        for w in self.watch:
            if id(obj) not in w["new"] and id(obj) not in w["ok"]:
                raise Unsupported(
                    f"{w['what']} changes a {type(obj).__name__} outside its frame"
                )

    # ---- obligations
    def big_lemmas(self, exprs, depth=3, cap=400):
        """extensionality instances for big operators (skolemised, valid)"""
        out, done, ones = [], set(), set()

        def single(a):
            """facts about one sum"""
            if a.get_id() in ones or a.decl().name() != "SUM":
                return
            ones.add(a.get_id())
            # a sum of nonnegative (all-zero) terms is nonnegative (zero)
            sk = z3.Const(f"nn!{len(ones)}", z3.IntSort())
            fa = z3.simplify(z3.Select(a.arg(0), sk))
            out.append(z3.Implies(z3.Implies(z3.And(sk >= 0, sk < a.arg(1)), fa >= 0), a >= 0))
            sk2 = z3.Const(f"zz!{len(ones)}", z3.IntSort())
            fa2 = z3.simplify(z3.Select(a.arg(0), sk2))
            out.append(z3.Implies(z3.Implies(z3.And(sk2 >= 0, sk2 < a.arg(1)), fa2 == 0), a == 0))
            # unfold sums of constant small length
            n = z3.simplify(a.arg(1))
            if z3.is_int_value(n) and 0 <= n.as_long() <= 8:
                tot = z3.RealVal(0)
                for i in range(n.as_long()):
                    tot = tot + z3.simplify(z3.Select(a.arg(0), z3.IntVal(i)))
                out.append(a == tot)

        def pair(a, b, d):
            if a.eq(b) or a.decl().name() != b.decl().name() or len(out) > cap:
                return
            key = tuple(sorted((a.get_id(), b.get_id())))
            if key in done:
                return
            na, nb = z3.simplify(a.arg(1)), z3.simplify(b.arg(1))
            if z3.is_int_value(na) and z3.is_int_value(nb) and na.as_long() != nb.as_long():
                return
            done.add(key)
            sk = z3.Const(f"ext!{len(done)}", z3.IntSort())
            fa = z3.simplify(z3.Select(a.arg(0), sk))
            fb = z3.simplify(z3.Select(b.arg(0), sk))
            lem = z3.Implies(
                z3.And(a.arg(1) == b.arg(1), z3.Implies(z3.And(sk >= 0, sk < a.arg(1)), fa == fb)), a == b)
            out.append(lem)
            keep.append((a, b, fa, fb))
            if d > 0:
                ia, ib = collect_big([fa]), collect_big([fb])
                for x in ia + ib:
                    keep.append(x)
                    if d == depth:
                        single(x)
                for x in ia:
                    for y in ib:
                        pair(x, y, d - 1)

        keep = []
        apps = collect_big(exprs)
        keep.append(apps)
        for a in apps:
            single(a)
        for a, b in itertools.combinations(apps, 2):
            pair(a, b, depth)
        self._keep_terms = keep
        return out

    def prove(self, name, goal, hints=(), only=None):
        """discharge an obligation under the current path condition (only: from these facts, which must hold here)"""
        if only is not None:
            for j, f in enumerate(only):
                if not any(f.eq(p) for p in self.pc):
                    self.prove(f"{name}:premise-{j}", f)
        ctx = self.context()
        k = self.ob_ordinal.get(name, 0)
        self.ob_ordinal[name] = k + 1
        key = (name, k, tuple(self.taken), tuple(c.get_id() if 0 else str(c) for c in ctx))
        if key in self._proved:
            if not isinstance(goal, bool):
                self.assume(goal)
            return True
        self._proved.add(key)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.bound:
            vs = [v for b, _ in self.bound for v in b]
            gs = [g for _, gg in self.bound for g in gg] + [c for s in self.subs for c in s.conds]
            goal_f = z3.Implies(And(*gs), goal)
            if vs:
                goal_f = z3.ForAll(vs, goal_f)
            ctx = []
        else:
            goal_f = goal
        lkey = None if only is None else tuple(sorted(f.sexpr() for f in only)) + (goal_f.sexpr(),)
        if lkey is not None and lkey in _lemma_cache:
            st, detail, backend, dt = _lemma_cache[lkey]
        else:
            st, detail, backend, dt = self.check((self.pc if only is None else list(only)) + ctx + list(hints), goal_f,
                                                 brief=_given_up.get(_label(name), 0) >= 2)
            if lkey is not None:
                _lemma_cache[lkey] = (st, detail, backend, 0.0)
        if only is not None and st == "refuted":
            st = "unknown"  # the chosen facts do not suffice; says nothing about the code
        self.solver_time += dt
        self.obligations.append(Obligation(name, st, detail, backend, dt, self.precise))
        if st == "proved":
            self.assume(goal)
            return True
        self.log(f"    obligation {name}: {st}")
        _given_up[_label(name)] = _given_up.get(_label(name), 0) + 1
        if sum(_given_up.values()) > 12:
            raise Unsupported("too many obligations left unproved")
        self.assume(goal)
        return False

    def check(self, facts, goal, brief=False):
        t0 = time.time()
        facts = [f for f in facts if not z3.is_true(f)]
        neg = z3.Not(goal)
        lem = self.big_lemmas(facts + [neg])
        s = z3.Solver()
        s.set("timeout", 700)
        s.add(*facts)
        s.add(*lem)
        s.add(neg)
        if s.check() == z3.unsat:
            return "proved", "", "z3", time.time() - t0
        # products and quotients of unknowns abstracted: unsat is conclusive
        ab = NLAbstract()
        afs = [ab(z3.simplify(f)) for f in facts + lem + [neg]]
        if ab.used:
            s = z3.Solver()
            s.set("timeout", min(3000, self.timeout_ms))
            s.add(*afs)
            s.add(*ab.ground_facts())
            if s.check() == z3.unsat:
                return "proved", "", "z3", time.time() - t0
        # a short round of every back end, then a long one
        why, r5, smt2 = "", "", None
        for ms in (2500,) if brief else (2500, self.timeout_ms):
            for mk in (z3.Solver, lambda: z3.Then("simplify", "propagate-values", "smt").solver()):
                s = mk()
                s.set("timeout", ms)
                s.add(*facts)
                s.add(*lem)
                s.add(neg)
                r = s.check()
                if r == z3.unsat:
                    return "proved", "", "z3", time.time() - t0
                if r == z3.sat:
                    return "refuted", str(s.model())[:4000], "z3", time.time() - t0
                why = s.reason_unknown()
            if smt2 is None:
                lf = LambdaLift()
                s5 = z3.Solver()
                s5.add(*[lf(f) for f in facts + lem + [neg]])
                s5.add(*lf.axioms)
                smt2 = s5.to_smt2()
            r5 = run_cvc5(smt2, ms)
            if r5 == "unsat":
                return "proved", "", "cvc5", time.time() - t0
        return "unknown", f"z3: {why}; cvc5: {r5}", "z3+cvc5", time.time() - t0

    def cover(self, name):
        """vacuity guard: the current path condition must not be refutable"""
        s = z3.Solver()
        s.set("timeout", min(self.timeout_ms, 4000))
        s.add(*self.pc)
        r = s.check()
        if r == z3.unsat:
            self.obligations.append(Obligation(name, "vacuous", "precondition is contradictory"))
            return False
        return True


_lemma_cache = {}
_given_up = {}  # obligations (without their case) that could not be proved in this contract


def _label(name):
    return re.sub(r"<.*>", "", name)


def _rebuild(e, f, memo):
    """apply f bottom-up (quantifier bodies included)"""
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    if z3.is_quantifier(e):
        vs = [z3.Const(f"{e.var_name(i)}~{next(_rb)}", e.var_sort(i)) for i in range(e.num_vars())]
        inst = lambda t: z3.substitute_vars(t, *reversed(vs))
        body = _rebuild(inst(e.body()), f, memo)
        if e.is_lambda():
            r = z3.Lambda(vs, body)
        else:
            pats = []
            for i in range(e.num_patterns()):
                pt = inst(e.pattern(i))
                ch = [_rebuild(c, f, memo) for c in pt.children()]
                pats.append(z3.MultiPattern(*ch))
            mk = z3.ForAll if e.is_forall() else z3.Exists
            try:
                r = mk(vs, body, patterns=pats) if pats else mk(vs, body)
            except z3.Z3Exception:
                r = mk(vs, body)
    elif z3.is_app(e) and e.num_args():
        ch = [_rebuild(c, f, memo) for c in e.children()]
        if any(not a.eq(b) for a, b in zip(ch, e.children())):
            e2 = _app(e, ch)
        else:
            e2 = e
        r = f(e2)
    else:
        r = e
    memo[k] = (r, e)
    return r


_rb = itertools.count()


def _app(e, ch):
    k = e.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*ch) if len(ch) > 1 else ch[0]
    if k == z3.Z3_OP_MUL:
        return z3.Product(*ch) if len(ch) > 1 else ch[0]
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return e.decl()(*ch)


def _has_tilde(e, memo):
    k = e.get_id()
    if k not in memo:
        if z3.is_quantifier(e):
            r = _has_tilde(e.body(), memo)
        elif z3.is_var(e):
            r = False
        elif e.num_args() == 0:
            r = "~" in e.decl().name()
        else:
            r = any(_has_tilde(c, memo) for c in e.children())
        memo[k] = r
    return memo[k]


def _skey(c):
    return re.sub(r"~\d+", "", c.sexpr())[:400]


class NLAbstract:
    """nonlinear products and quotients become uninterpreted (sound for proving)"""

    MUL = {s.name(): z3.Function(f"nlmul_{s.name()}", s, s, s) for s in (z3.RealSort(), z3.IntSort())}
    DIV = z3.Function("nldiv", z3.RealSort(), z3.RealSort(), z3.RealSort())

    def __init__(self):
        self.used = False
        self.memo = {}
        self.facts = []

    def __call__(self, e):
        return _rebuild(e, self.op, self.memo)

    def ground_facts(self):
        """elementary facts about the abstracted products without bound variables"""
        out, seen, memo = [], set(), {}
        for r, fs in self.facts:
            if r.get_id() in seen or _has_tilde(r, memo):
                continue
            seen.add(r.get_id())
            out += fs
            if len(out) > 800:
                break
        return out

    def op(self, e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            num = [c for c in e.children() if z3.is_rational_value(c) or z3.is_int_value(c)]
            rest = [c for c in e.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))]
            if len(rest) < 2:
                return e
            self.used = True
            rest.sort(key=_skey)
            f = self.MUL[e.sort().name()]
            r = rest[0]
            for c in rest[1:]:
                a, r = r, f(r, c)
                self.facts.append((r, [z3.Implies(a == 0, r == 0), z3.Implies(c == 0, r == 0),
                                       z3.Implies(a == 1, r == c), z3.Implies(c == 1, r == a)]))
            for c in num:
                r = c * r
            return r
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)):
            self.used = True
            a, b = e.arg(0), e.arg(1)
            r = self.DIV(a, b)
            m = self.MUL[e.sort().name()](*sorted([r, b], key=_skey))
            self.facts.append((r, [z3.Implies(b == 1, r == a), z3.Implies(z3.And(a == 0, b != 0), r == 0),
                                   z3.Implies(z3.And(a == b, b != 0), r == 1), z3.Implies(b != 0, m == a)]))
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
            self.used = True
            if e.arg(1).as_fraction() == 2:
                return self.MUL[e.sort().name()](e.arg(0), e.arg(0))
        return e


class LambdaLift:
    """closed lambdas become named arrays (cvc5 has no array lambdas)"""

    def __init__(self):
        self.axioms, self.memo, self.names = [], {}, {}

    def __call__(self, e):
        return self.go(e)

    def go(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][0]
        if z3.is_quantifier(e) and e.is_lambda() and not _free_above(e) and e.num_vars() == 1:
            v = z3.Const(f"ll~{next(_rb)}", e.var_sort(0))
            body = self.go(z3.substitute_vars(e.body(), v))
            a = z3.Const(f"lam~{next(_rb)}", e.sort())
            self.axioms.append(z3.ForAll([v], z3.Select(a, v) == body))
            r = a
        elif z3.is_quantifier(e):
            r = e
        elif z3.is_app(e) and e.num_args():
            ch = [self.go(c) for c in e.children()]
            r = _app(e, ch) if any(not a.eq(b) for a, b in zip(ch, e.children())) else e
        else:
            r = e
        self.memo[k] = (r, e)
        return r


def run_cvc5(smt2, timeout_ms):
    import subprocess

    if "Lambda" in smt2 or "(lambda" in smt2:
        # cvc5 needs HO logic for lambdas
        logic = "HO_ALL"
    else:
        logic = "ALL"
    try:
        p = subprocess.run(
            ["cvc5", "--lang=smt2", f"--tlimit={int(timeout_ms)}", f"--force-logic={logic}", "--strings-exp", "-"],
            input=smt2, capture_output=True, text=True, timeout=timeout_ms / 1000 + 5,
        )
        out = p.stdout.strip().splitlines()
        return out[-1] if out else "error"
    except Exception as e:  # not installed, timed out
        return f"error {type(e).__name__}"


# ---------------------------------------------------------------- joins


def ite(c, a, b):
    """structured if-then-else"""
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    from . import tmodel

    if isinstance(a, tmodel.STensor) and isinstance(b, tmodel.STensor):
        return tmodel.ite_tensor(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SObj) and isinstance(b, SObj) and a.cls is b.cls and set(a.fields) == set(b.fields):
        o = SObj(a.cls)
        o.fields = {k: ite(c, a.fields[k], b.fields[k]) for k in a.fields}
        return o
    if isinstance(a, (bool,)) or (is_z3(a) and a.sort() == z3.BoolSort()):
        if isinstance(b, bool) or (is_z3(b) and b.sort() == z3.BoolSort()):
            return z3.If(c, B(a), B(b))
    if is_num(a) and is_num(b):
        if is_int(a) and is_int(b):
            return z3.If(c, Z(a), Z(b))
        return z3.If(c, R(a), R(b))
    if isinstance(a, str) or (is_z3(a) and a.sort() == z3.StringSort()):
        if isinstance(b, str) or (is_z3(b) and b.sort() == z3.StringSort()):
            return z3.If(c, S(a), S(b))
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if a is None and b is None:
        return None
    try:
        if not is_z3(a) and not is_z3(b) and type(a) is type(b) and a == b:
            return a
    except Exception:
        pass
    return Choice(c, a, b)


class Choice:
    """a value that is one of two alternatives, decided when it is first looked at"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Choice({self.a!r}, {self.b!r})"


def force(v):
    while type(v) is Choice:
        v = v.a if Engine.current.branch(v.c) else v.b
    return v
