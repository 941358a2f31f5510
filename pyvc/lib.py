"""Models of Python built-ins and library calls used by interpreted code."""

import ast
import builtins
import collections
import enum
import fractions
import functools
import inspect
import math
import operator
import os
import re
import threading
import types

import z3

from .core import (
    Choice, force,
    And, B, Engine, Implies, Not, Or, PathEnd, PyRaise, R, S, SDict, SList, SObj, SSet,
    SUM, T, TBool, TInt, TReal, TStr, Unsupported, Z, is_int, is_num, is_z3, ite,
    opaque_of,
)
from . import tmodel
from .interp import Bound, Env, FuncVal, Interp, ModelFn, UNDEF, is_repo_cls, is_repo_fn

STensor = tmodel.STensor


def is_str(v):
    return isinstance(v, str) or (is_z3(v) and v.sort() == z3.StringSort())


def is_symbolic(v, depth=0):
    if is_z3(v) or isinstance(v, (SObj, SList, SDict, SSet, STensor, FuncVal, Bound, ModelFn)):
        return True
    if isinstance(v, (tuple, list)) and depth < 4:
        return any(is_symbolic(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 4:
        return any(is_symbolic(x, depth + 1) for x in v.values())
    if isinstance(v, slice):
        return any(is_symbolic(x) for x in (v.start, v.stop, v.step))
    return False


def to_native(v):
    """engine container of concrete values -> native value, or Unsupported"""
    if isinstance(v, SList) and v.concrete:
        return [to_native(x) for x in v.items]
    if isinstance(v, SDict) and v.concrete:
        return {to_native(k): to_native(x) for k, x in v.pairs}
    if isinstance(v, SSet) and v.concrete:
        return {to_native(x) for x in v.items}
    if isinstance(v, tuple):
        return tuple(to_native(x) for x in v)
    if is_symbolic(v):
        raise Unsupported("symbolic value passed to a native function")
    return v


# ------------------------------------------------------------ strings

_istr = z3.Function("int_str", z3.IntSort(), z3.StringSort())
_fmts = {}
_strs = {}


def to_str(I, x):
    if is_str(x):
        return x
    if is_z3(x):
        if x.sort() == z3.IntSort():
            I.eng.assumptions.add("str(int) is an injective function of the integer")
            r = _istr(x)
            inv = z3.Function("int_str_inv", z3.StringSort(), z3.IntSort())
            I.eng.assume(inv(r) == x)
            return r
        nm = x.sort().name()
        if nm not in _strs:
            _strs[nm] = z3.Function(f"str_{nm}", x.sort(), z3.StringSort())
        return _strs[nm](x)
    if isinstance(x, SObj):
        f = inspect.getattr_static(x.cls, "__str__", None)
        if isinstance(f, types.FunctionType) and is_repo_fn(f):
            return I.call(f, (x,))
        return f"<{x.cls.__name__}>"
    if isinstance(x, (SList, SDict, SSet, STensor)):
        return "<value>"  # only ever used in messages; see fmt assumption
    return str(x)


def fmt(I, x, spec):
    if not is_z3(x):
        return format(x, spec)
    key = (spec, x.sort().name())
    if key not in _fmts:
        _fmts[key] = z3.Function(f"fmt_{spec}_{x.sort().name()}", x.sort(), z3.StringSort())
    return _fmts[key](x)


def str_concat(parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif isinstance(p, str) and p == "":
            continue
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    if Engine.current is not None and Engine.current.uf_concat:
        # strings built from a template, as an uninterpreted function of its holes
        tpl = "cat/" + re.sub(r"[|\\]", "_", "/".join(p if isinstance(p, str) else "{}" for p in out))
        holes = [p for p in out if not isinstance(p, str)]
        return z3.Function(tpl, *[z3.StringSort()] * (len(holes) + 1))(*[S(h) for h in holes])
    return z3.Concat(*[S(p) for p in out])


# ------------------------------------------------------------ sequences


def to_seq(I, v):
    """view as SList"""
    if isinstance(v, SList):
        return v
    if isinstance(v, tuple):
        return SList(items=list(v))
    if isinstance(v, SDict):
        return dict_keys(I, v)
    if isinstance(v, SSet):
        if v.concrete:
            return SList(items=list(v.items))
        return set_enum(I, v)
    if isinstance(v, STensor):
        return tmodel.iter_tensor(I, v)
    if isinstance(v, range):
        return SList(items=list(v))
    if isinstance(v, SObj):
        it = inspect.getattr_static(v.cls, "__iter__", None)
        if isinstance(it, types.FunctionType) and is_repo_fn(it):
            return to_seq(I, I.call(it, (v,)))
        raise Unsupported(f"iteration over {v.cls.__name__}")
    if is_z3(v):
        raise Unsupported(f"iteration over {v.sort()}")
    if isinstance(v, (list, dict, set, frozenset, str)) or hasattr(v, "__iter__"):
        return SList(items=[I.lift(x) for x in v])
    if v is None or isinstance(v, (int, float)):
        raise PyRaise(TypeError("not iterable"))
    raise Unsupported(f"iteration over {type(v).__name__}")


def dict_order(I, d):
    """(n, get, idx): an enumeration of the symbolic dict's domain"""
    if d.order is not None:
        _check_distinct(I, d)
        return d.order
    eng = I.eng
    if d.dom is None:
        raise Unsupported("iteration over a functional dict")
    if d.touched[0]:
        raise Unsupported("iteration over a defaultdict whose missing keys were read")
    if d.dom.decl().kind() == z3.Z3_OP_ITE:
        dom = eng.fresh("ddom", d.dom.sort())
        eng.assume(dom == d.dom)
        d.dom = dom
    n = eng.fresh("dlen", z3.IntSort())
    keyf = eng.fresh("dkeys", z3.ArraySort(z3.IntSort(), d.kt.sort))
    idx = eng.fresh("didx", z3.ArraySort(d.kt.sort, z3.IntSort()))
    eng.assume(n >= 0)
    i = eng.fresh_bound("i", z3.IntSort())
    k = eng.fresh_bound("k", d.kt.sort)
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        z3.Select(d.dom, z3.Select(keyf, i)), z3.Select(idx, z3.Select(keyf, i)) == i)),
        patterns=[z3.Select(keyf, i)]))
    eng.assume(z3.ForAll([k], z3.Implies(z3.Select(d.dom, k), z3.And(
        z3.Select(idx, k) >= 0, z3.Select(idx, k) < n, z3.Select(keyf, z3.Select(idx, k)) == k)),
        patterns=[z3.Select(d.dom, k)]))
    d.order = (n, lambda i: d.kt.dec(z3.Select(keyf, Z(i))), lambda k: z3.Select(idx, d.kt.enc(k)))
    return d.order


def dict_keys(I, d):
    if d.concrete:
        return SList(items=[k for k, _ in d.pairs])
    n, get, idx = dict_order(I, d)
    r = SList(n=n, get=get)
    r.idx_of = idx
    return r


def dict_values(I, d):
    if d.concrete:
        return SList(items=[v for _, v in d.pairs])
    n, get, idx = dict_order(I, d)
    r = SList(n=n, get=lambda i: d.at(get(i)))
    r.idx_of = idx
    return r


def dict_items(I, d):
    if d.concrete:
        return SList(items=[(k, v) for k, v in d.pairs])
    n, get, idx = dict_order(I, d)
    r = SList(n=n, get=lambda i: (get(i), d.at(get(i))))
    r.idx_of = idx
    return r


def set_enum(I, s):
    d = SDict(kt=s.t, vt=TBool, dom=s.dom, val=s.dom)
    n, get, _ = dict_order(I, d)
    return SList(n=n, get=get)


def dict_nonempty(I, d):
    if d.order is not None:
        return Z(d.order[0]) > 0
    n, _, _ = dict_order(I, d)
    return n > 0


def set_nonempty(I, s):
    k = I.eng.fresh_bound("k", s.t.sort)
    return z3.Exists([k], z3.Select(s.dom, k))


def list_append(I, l, v):
    I.eng.note_mut(l)
    if l.concrete:
        l.items.append(v)
    else:
        if l.arr is None and parts_of(l):
            c = list_concat(I, l, SList(items=[v]))
            l.n, l._get, l.parts = c.n, c._get, c.parts
        elif l.arr is None:
            n0, g0 = l.n, l._get
            l._get = lambda i: ite(Z(i) == Z(n0), v, g0(i))
            l.n = Z(n0) + 1
        else:
            if l.mem is not None:
                l.mem = z3.Store(l.mem, l.t.enc(v), True)
                l.wit = z3.Store(l.wit, l.t.enc(v), Z(l.n))
            l.arr = z3.Store(l.arr, Z(l.n), l.t.enc(v))
            arr, t = l.arr, l.t
            l._get = lambda i: t.dec(z3.Select(arr, Z(i)))
            l.n = Z(l.n) + 1
    if l.writeback:
        l.writeback(l)


def list_extend(I, l, other):
    q = to_seq(I, other)
    if q.concrete:
        for x in q.items:
            list_append(I, l, x)
        return
    I.eng.note_mut(l)
    c = list_concat(I, l, q)
    l.items, l.n, l._get, l.t, l.arr = None, c.n, c._get, None, None


def list_concat(I, a, b):
    if a.concrete and b.concrete:
        return SList(items=a.items + b.items)
    if a.concrete and not a.items:
        return Snapshot_of(b)
    if b.concrete and not b.items:
        return Snapshot_of(a)
    a, b = Snapshot_of(a), Snapshot_of(b)
    na, nb = Z(a.length()), Z(b.length())

    def part(l, i):
        if not l.concrete:
            return l.get(i)
        for k, x in enumerate(l.items[:-1]):
            if I.eng.branch(Z(i) == k):
                return x
        return l.items[-1]

    def get(i):
        if I.eng.branch(Z(i) < na):
            return part(a, Z(i))
        return part(b, Z(i) - na)

    def mget(i):
        return I.eng.merged(lambda: get(i))

    r = SList(n=na + nb, get=mget)
    r.parts = (mget, (parts_of(a) or [a]) + (parts_of(b) or [b]))
    return r


def parts_of(l):
    """the lists a concatenation was made from, if it is unchanged since"""
    p = getattr(l, "parts", None)
    return list(p[1]) if p and p[0] is l._get and not l.concrete else None


def set_add(I, s, v):
    I.eng.note_mut(s)
    if s.concrete:
        for x in s.items:
            c = eq_val(I, x, v)
            if I.eng.branch(c if isinstance(c, bool) else c):
                return
        s.items.append(v)
    else:
        s.dom = z3.Store(s.dom, s.t.enc(v), True)
    if s.writeback:
        s.writeback(s)


def dict_update(I, d, src):
    if not src.concrete:
        if not d.concrete or d.writeback:
            raise Unsupported("dict update from an unbounded dict")
        I.eng.note_mut(d)
        base, src = list(d.pairs), Snapshot_of(src)

        def has(k):
            return z3.Or(B(src.has(k)), *[B(eq_val(I, x, k)) for x, _ in base])

        def get(k):
            def pick():
                if I.eng.branch(B(src.has(k))):
                    return src.at(k)
                for x, v in base[:-1]:
                    if I.eng.branch(B(eq_val(I, x, k))):
                        return v
                return base[-1][1] if base else src.at(k)
            return I.eng.merged(pick)

        d.pairs, d.dom, d.val, d.order, d._get, d._has = None, None, None, None, get, has
        return
    for k, v in src.pairs:
        setitem(I, d, k, v)


def Snapshot_of(v):
    from .interp import Snapshot

    w = Snapshot.of(v)
    for a in ("idx_of", "filter", "key_index", "key_fn", "src_n", "get_pair", "order_needs_distinct", "nonempty", "parts"):
        if hasattr(v, a):
            setattr(w, a, getattr(v, a))
    return w


def snap_env(env):
    """the environment as it is now: lazily evaluated bodies must not see later assignments"""
    if env is None:
        return None
    e = Env(snap_env(env.parent), env.globs)
    for k, v in env.vars.items():
        if isinstance(v, (SList, SDict, SSet)):
            v = Snapshot_of(v)
        elif isinstance(v, STensor):
            v = tmodel.frozen(v)
        e.vars[k] = v
    e.yields = None
    for a in ("fnode", "qualname"):
        if hasattr(env, a):
            setattr(e, a, getattr(env, a))
    return e


def comp_symbolic(I, src, g, env, elt, kind, node=None):
    eng = I.eng
    env = snap_env(env)

    def scope(x):
        sc = Env(env, env.globs)
        sc.fnode, sc.qualname = getattr(env, "fnode", None), getattr(env, "qualname", "")
        I.assign(g.target, x, sc)
        return sc

    n = Z(src.length())
    if not eng._feasible(n > 0):
        return []
    # check the body generically once (exceptions, unsupported constructs)
    if not g.ifs:
        def get(i):
            return eng.merged(lambda: elt(scope(src.get(i))))

        probe = eng.fresh("probe", z3.IntSort())
        outs = None
        saved = list(eng.pc)
        eng.bound.append(([], [probe >= 0, probe < n]))
        try:
            outs = eng.sub_paths(lambda: elt(scope(src.get(probe))))
        finally:
            eng.bound.pop()
        for conds, v in outs:
            if isinstance(v, PyRaise):
                # some element may raise: decide it at top level
                if not eng.subs and not eng.bound:
                    bad = And(probe >= 0, probe < n, *conds)
                    if eng.branch(bad):
                        raise v
                    raise Unsupported("comprehension body may raise")
                raise Unsupported("comprehension body may raise")
        if kind == "list":
            return SList(n=n, get=get)
        if kind == "set":
            return tmodel.LazySet(n, get)
        if kind == "dict":
            return comp_dict(I, src, get)
    if kind == "list" and g.ifs:
        # filtered subsequence: strictly increasing index map and its inverse
        sig = eng.fresh("sigma", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        tau = eng.fresh("tau", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        m = eng.fresh("flen", z3.IntSort())

        def cond(i):
            return eng.merged(
                lambda: B(And(*[B(I.truth_term(I.eval(c, scope(src.get(i))))) for c in g.ifs])))

        eng.assume(z3.And(m >= 0, m <= n))
        j = eng.fresh_bound("j", z3.IntSort())
        sj = z3.Select(sig, j)
        cj = eng.generic(lambda: cond(sj), [j], [j >= 0, j < m])
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(
            sj >= 0, sj < n, cj, z3.Select(tau, sj) == j)), patterns=[sj]))
        i = eng.fresh_bound("i", z3.IntSort())
        ti = z3.Select(tau, i)
        ci = eng.generic(lambda: cond(i), [i], [i >= 0, i < n])
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, ci), z3.And(
            ti >= 0, ti < m, z3.Select(sig, ti) == i)), patterns=[ti]))
        j2 = eng.fresh_bound("j2", z3.IntSort())
        eng.assume(z3.ForAll([j, j2], z3.Implies(
            z3.And(0 <= j, j < j2, j2 < m), z3.Select(sig, j) < z3.Select(sig, j2)),
            patterns=[z3.MultiPattern(z3.Select(sig, j), z3.Select(sig, j2))]))
        l = SList(n=m, get=lambda k: eng.merged(lambda: elt(scope(src.get(z3.Select(sig, Z(k)))))))
        l.filter = (sig, tau, cond)
        if isinstance(node, ast.Name) and isinstance(g.target, ast.Name) and node.id == g.target.id and src.t is not None:
            l.t, l.kept_of = src.t, src
        return l
    if kind == "dict" and g.ifs:
        inner = comp_symbolic(I, src, g, env, elt, "list")
        d = comp_dict(I, inner, inner.get)
        d.filter = inner.filter
        return d
    raise Unsupported(f"filtered {kind} comprehension over an unbounded sequence")


def comp_dict(I, src, get):
    """{key(i): value(i) for i}: requires distinct keys; functional dict"""
    eng = I.eng
    n = Z(src.length())
    probe = eng.fresh("kp", z3.IntSort())
    k0 = eng.generic(lambda: get(probe), [], [probe >= 0, probe < n])[0]
    ksort, kdec = _key_sort(I, k0)
    kf = z3.Function(f"ckey!{next(eng.counter)}", z3.IntSort(), ksort)
    idx = z3.Function(f"cidx!{next(eng.counter)}", ksort, z3.IntSort())
    i = eng.fresh_bound("i", z3.IntSort())
    ki = eng.generic(lambda: _enc_key(get(i)[0]), [i], [i >= 0, i < n])
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), kf(i) == ki), patterns=[kf(i)]))
    j = eng.fresh_bound("j", z3.IntSort())
    # later duplicates overwrite earlier ones: idx picks the LAST index with the key
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        idx(kf(i)) >= i, idx(kf(i)) < n, kf(idx(kf(i))) == kf(i))), patterns=[kf(i)]))
    has = lambda k: _has_key(k)

    def _has_key(k):
        kk = _enc_key(k)
        return z3.And(idx(kk) >= 0, idx(kk) < n, kf(idx(kk)) == kk)

    def at(k):
        kk = _enc_key(k)
        return eng.merged(lambda: get(idx(kk))[1])

    d = SDict(has=has, get=at)
    d.kt = None
    # insertion order is the source's only when keys are distinct (checked on first use)
    d.key_index = idx
    d.key_fn = kf
    d.src_n = n
    d.get_pair = get
    d.order = (n, lambda i: kf(Z(i)), lambda k: idx(_enc_key(k)))
    d.order_needs_distinct = True
    I.dict_log.append(d)
    return d


def _check_distinct(I, d):
    if not getattr(d, "order_needs_distinct", False):
        return
    eng = I.eng
    i, j = eng.fresh("d1", z3.IntSort()), eng.fresh("d2", z3.IntSort())
    st, *_ = eng.check(eng.pc + eng.context(), z3.Implies(
        z3.And(0 <= i, i < j, j < d.src_n), d.key_fn(i) != d.key_fn(j)))
    if st != "proved":
        raise Unsupported("iteration over a dict whose keys are not known to be distinct")
    a = eng.fresh_bound("d1", z3.IntSort())
    eng.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < d.src_n), d.key_index(d.key_fn(a)) == a),
                         patterns=[d.key_fn(a)]))
    d.order_needs_distinct = False


def _enc_key(k):
    if is_z3(k):
        return k
    if isinstance(k, str):
        return S(k)
    if isinstance(k, int):
        return Z(k)
    raise Unsupported(f"dict key of type {type(k).__name__} in an unbounded dict")


def _key_sort(I, k):
    kk = _enc_key(k)
    return kk.sort(), None


# ------------------------------------------------------------ item access


def norm_index(I, i, n):
    """Python index normalisation; raises IndexError out of range"""
    eng = I.eng
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise PyRaise(IndexError("index out of range"))
        return i % n if n else i
    zi, zn = Z(i), Z(n)
    if isinstance(i, int):
        if i < 0:
            if not eng.branch(zn >= -i):
                raise PyRaise(IndexError("index out of range"))
            return zn + i
        if not eng.branch(zn > i):
            raise PyRaise(IndexError("index out of range"))
        return zi
    if eng.branch(zi >= 0):
        if not eng.branch(zi < zn):
            raise PyRaise(IndexError("index out of range"))
        return zi
    if not eng.branch(zi + zn >= 0):
        raise PyRaise(IndexError("index out of range"))
    return zi + zn


def slice_bounds(I, sl, n):
    """normalised (start, stop) for step None/1"""
    if sl.step not in (None, 1):
        raise Unsupported("slice step")
    eng = I.eng

    def norm(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, int) and isinstance(n, int):
            return min(max(x + n if x < 0 else x, 0), n)
        zx, zn = Z(x), Z(n)
        y = z3.If(zx < 0, zx + zn, zx)
        y = z3.If(y < 0, z3.IntVal(0), z3.If(y > zn, zn, y))
        return z3.simplify(y)

    a = norm(sl.start, 0)
    b = norm(sl.stop, n)
    return a, b


def getitem(I, o, k):
    eng = I.eng
    if isinstance(o, STensor):
        return tmodel.getitem(I, o, k)
    if isinstance(o, tuple) and not is_symbolic(k):
        try:
            return o[k]
        except IndexError as e:
            raise PyRaise(e)
    if isinstance(o, tuple):
        o = SList(items=list(o))
    if isinstance(o, SList):
        if isinstance(k, slice):
            n = o.length()
            a, b = slice_bounds(I, k, n)
            if o.concrete and isinstance(a, int) and isinstance(b, int):
                return SList(items=o.items[a:b])
            ln = z3.simplify(z3.If(Z(b) > Z(a), Z(b) - Z(a), z3.IntVal(0)))
            return SList(n=ln, get=lambda i: _list_at(I, o, Z(i) + Z(a)))
        i = norm_index(I, k, o.length())
        return _list_at(I, o, i)
    if isinstance(o, SDict):
        if o.concrete:
            for kk, v in o.pairs:
                if I.truth(eq_val(I, kk, k)):
                    return v
            if o.factory is not None:
                v = I.call(o.factory, ())
                setitem(I, o, k, v)
                return v
            raise PyRaise(KeyError(str(k)))
        if o.factory is not None:
            return o.or_default(k, I.call(o.factory, ()))
        if not eng.branch(o.has(k)):
            raise PyRaise(KeyError(str(k)))
        return o.at(k)
    if isinstance(o, SObj):
        f = inspect.getattr_static(o.cls, "__getitem__", None)
        if isinstance(f, types.FunctionType):
            return I.call(f, (o, k))
        raise Unsupported(f"subscript of {o.cls.__name__}")
    if isinstance(o, LazyList):
        return o.at(k)
    if is_str(o):
        if isinstance(o, str) and not is_symbolic(k):
            return o[k]
        if isinstance(k, slice):
            n = z3.Length(S(o))
            a, b = slice_bounds(I, k, n)
            return z3.SubString(S(o), Z(a), z3.If(Z(b) > Z(a), Z(b) - Z(a), z3.IntVal(0)))
        i = norm_index(I, k, z3.Length(S(o)))
        return z3.SubString(S(o), Z(i), z3.IntVal(1))
    if is_z3(o):
        op = opaque_of(o)
        if op and "__getitem__" in op.methods:
            return op.methods["__getitem__"](I, o, k)
        raise Unsupported(f"subscript of {o.sort()}")
    if isinstance(o, dict) or not is_symbolic(k):
        try:
            return I.lift(o[k])
        except (KeyError, IndexError, TypeError) as e:
            raise PyRaise(e)
    raise Unsupported(f"subscript of {type(o).__name__}")


class LazyList:
    pass


def _list_at(I, o, i):
    if not o.concrete:
        return o.get(i)
    if isinstance(i, int):
        return o.items[i]
    i = z3.simplify(i)
    if z3.is_int_value(i):
        return o.items[i.as_long()]
    for j, x in enumerate(o.items):
        if I.eng.branch(i == j):
            return x
    raise PathEnd()


def setitem(I, o, k, v):
    eng = I.eng
    if isinstance(o, STensor):
        return tmodel.setitem(I, o, k, v)
    if isinstance(o, SList):
        eng.note_mut(o)
        o.mem = o.wit = None
        if isinstance(k, slice):
            raise Unsupported("slice assignment")
        i = norm_index(I, k, o.length())
        if o.concrete:
            if isinstance(i, int):
                o.items[i] = v
            else:
                i = z3.simplify(i)
                for j in range(len(o.items)):
                    if eng.branch(i == j):
                        o.items[j] = v
                        break
        elif o.arr is not None:
            o.arr = z3.Store(o.arr, Z(i), o.t.enc(v))
            arr, t = o.arr, o.t
            o._get = lambda q: t.dec(z3.Select(arr, Z(q)))
        else:
            g0 = o._get
            o._get = lambda q: ite(Z(q) == Z(i), v, g0(q))
        if o.writeback:
            o.writeback(o)
        return
    if isinstance(o, SDict):
        eng.note_mut(o)
        if o.concrete:
            for j, (kk, _) in enumerate(o.pairs):
                if I.truth(eq_val(I, kk, k)):
                    o.pairs[j] = (kk, v)
                    break
            else:
                o.pairs.append((k, v))
        else:
            if o.dom is None:
                raise Unsupported("update of a functional dict")
            key = o.kt.enc(k)
            o.dom = z3.Store(o.dom, key, True)
            o.val = z3.Store(o.val, key, o.vt.enc(v))
            o.order = None
        if o.writeback:
            o.writeback(o)
        return
    if isinstance(o, SObj):
        f = inspect.getattr_static(o.cls, "__setitem__", None)
        if isinstance(f, types.FunctionType):
            return I.call(f, (o, k, v))
    raise Unsupported(f"item assignment on {type(o).__name__}")


def delitem(I, o, k):
    eng = I.eng
    if isinstance(o, SDict):
        eng.note_mut(o)
        if o.concrete:
            for j, (kk, _) in enumerate(o.pairs):
                if I.truth(eq_val(I, kk, k)):
                    del o.pairs[j]
                    return
            raise PyRaise(KeyError(str(k)))
        if not eng.branch(o.has(k)):
            raise PyRaise(KeyError(str(k)))
        o.dom = z3.Store(o.dom, o.kt.enc(k), False)
        o.order = None
        if o.writeback:
            o.writeback(o)
        return
    if isinstance(o, SList) and o.concrete and isinstance(k, int):
        eng.note_mut(o)
        del o.items[k]
        return
    raise Unsupported("del item")


def contains(I, o, v):
    """term for v in o"""
    if isinstance(o, SDict):
        if o.concrete:
            return _or([eq_val(I, k, v) for k, _ in o.pairs])
        return o.has(v)
    if isinstance(o, SSet):
        if o.concrete:
            return _or([eq_val(I, x, v) for x in o.items])
        return o.has(v)
    if isinstance(o, tmodel.LazySet):
        j = I.eng.fresh_bound("m", z3.IntSort())
        b = I.eng.generic(lambda: B(eq_val(I, o.get(j), v)), [j], [j >= 0, j < Z(o.n)])
        return z3.Exists([j], z3.And(j >= 0, j < Z(o.n), b))
    if isinstance(o, (SList, tuple)):
        q = to_seq(I, o)
        if q.concrete:
            return _or([eq_val(I, x, v) for x in q.items])
        j = I.eng.fresh_bound("m", z3.IntSort())
        b = I.eng.generic(lambda: B(eq_val(I, q.get(j), v)), [j], [j >= 0, j < Z(q.n)])
        return z3.Exists([j], z3.And(j >= 0, j < Z(q.n), b))
    if is_str(o) and is_str(v):
        if isinstance(o, str) and isinstance(v, str):
            return v in o
        return z3.Contains(S(o), S(v))
    if isinstance(o, SObj):
        f = inspect.getattr_static(o.cls, "__contains__", None)
        if isinstance(f, types.FunctionType):
            return I.truth_term(I.call(f, (o, v)))
        return contains(I, to_seq(I, o), v)
    if is_z3(o):
        op = opaque_of(o)
        if op and "__contains__" in op.methods:
            return op.methods["__contains__"](I, o, v)
    if o is None:
        raise PyRaise(TypeError("argument of type 'NoneType' is not iterable"))
    if not is_symbolic(v):
        try:
            return v in o
        except TypeError as e:
            raise PyRaise(e)
    if isinstance(o, (list, set, frozenset, dict)):
        return _or([eq_val(I, x, v) for x in o])
    raise Unsupported(f"membership in {type(o).__name__}")


def _or(ts):
    if any(t is True for t in ts):
        return True
    ts = [t for t in ts if t is not False]
    if not ts:
        return False
    return Or(*ts)


def _and(ts):
    if any(t is False for t in ts):
        return False
    ts = [t for t in ts if t is not True]
    if not ts:
        return True
    return And(*ts)


# ------------------------------------------------------------ equality / operators


def eq_val(I, a, b):
    if a is b:
        return True
    if isinstance(a, STensor) or isinstance(b, STensor):
        return tmodel.compare(I, ast.Eq(), a, b)
    if isinstance(a, tmodel.SShape) or isinstance(b, tmodel.SShape):
        return tmodel.shape_eq(I, a, b)
    if is_z3(a) or is_z3(b):
        if a is None or b is None:
            return False
        if is_num(a) and is_num(b):
            if is_int(a) and is_int(b):
                return Z(a) == Z(b)
            return R(a) == R(b)
        if is_str(a) and is_str(b):
            return S(a) == S(b)
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a == b
        x = a if is_z3(a) else b
        y = b if is_z3(a) else a
        m = tmodel.enum_term(x.sort(), y)
        if m is not None:
            return x == m
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return _and([eq_val(I, x, y) for x, y in zip(a, b)])
    if isinstance(a, SObj) or isinstance(b, SObj):
        o, p = (a, b) if isinstance(a, SObj) else (b, a)
        f = inspect.getattr_static(o.cls, "__eq__", None)
        if isinstance(f, types.FunctionType) and is_repo_fn(f):
            return I.truth_term(I.call(f, (o, p)))
        if isinstance(p, SObj) and hasattr(o.cls, "model_fields"):
            if o.cls is not p.cls:
                return False
            return _and([eq_val(I, o.fields[k], p.fields.get(k)) for k in o.fields])
        return False
    if isinstance(a, SList) and isinstance(b, SList):
        if a.concrete and b.concrete:
            if len(a.items) != len(b.items):
                return False
            return _and([eq_val(I, x, y) for x, y in zip(a.items, b.items)])
        raise Unsupported("equality of unbounded lists")
    if isinstance(a, (SDict, SSet, SList)) or isinstance(b, (SDict, SSet, SList)):
        if type(a) is not type(b):
            if isinstance(a, (list, dict, set)) or isinstance(b, (list, dict, set)):
                raise Unsupported("container equality")
            return False
        raise Unsupported("container equality")
    try:
        return bool(a == b)
    except Exception as e:
        raise Unsupported(f"equality: {e}")


def compare(I, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        if a is None or b is None:
            r = (a is None) and (b is None)
        elif is_z3(a) and is_z3(b) and a.sort() == b.sort():
            r = a == b
        elif is_z3(a) or is_z3(b):
            x, y = (a, b) if is_z3(a) else (b, a)
            if isinstance(y, bool) and x.sort() == z3.BoolSort():
                r = x == y
            else:
                m = tmodel.enum_term(x.sort(), y)
                if m is None:
                    r = False
                else:
                    r = x == m
        else:
            r = a is b
        return r if isinstance(op, ast.Is) else Not(r)
    if isinstance(a, STensor) or isinstance(b, STensor):
        if not isinstance(op, (ast.In, ast.NotIn)):
            return tmodel.compare(I, op, a, b)
    if isinstance(op, ast.Eq):
        return eq_val(I, a, b)
    if isinstance(op, ast.NotEq):
        return Not(eq_val(I, a, b))
    if isinstance(op, ast.In):
        return contains(I, b, a)
    if isinstance(op, ast.NotIn):
        return Not(contains(I, b, a))
    if isinstance(a, SSet) and isinstance(b, SSet):
        raise Unsupported("set comparison")
    if is_num(a) and is_num(b):
        if not is_z3(a) and not is_z3(b):
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
                    ast.GtE: operator.ge}[type(op)](a, b)
        x, y = (Z(a), Z(b)) if is_int(a) and is_int(b) else (R(a), R(b))
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
    if a is None or b is None:
        raise PyRaise(TypeError("comparison with None"))
    if not is_symbolic(a) and not is_symbolic(b):
        return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
                ast.GtE: operator.ge}[type(op)](a, b)
    if is_str(a) and is_str(b):
        x, y = S(a), S(b)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x, ast.GtE: lambda: y <= x}[type(op)]()
    raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")


_NATIVE = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
    ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
    ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
    ast.MatMult: operator.matmul,
}


def binop(I, op, a, b):
    if isinstance(a, STensor) or isinstance(b, STensor):
        return tmodel.binop(I, op, a, b)
    if isinstance(a, tmodel.SShape) or isinstance(b, tmodel.SShape):
        raise Unsupported("shape arithmetic")
    if is_num(a) and is_num(b):
        if not is_z3(a) and not is_z3(b):
            try:
                r = _NATIVE[type(op)](a, b)
            except ZeroDivisionError as e:
                raise PyRaise(e)
            return r
        both_int = is_int(a) and is_int(b)
        x, y = (Z(a), Z(b)) if both_int else (R(a), R(b))
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            return x * y
        if isinstance(op, ast.Div):
            yy = R(b)
            if not I.eng.branch(yy != 0):
                raise PyRaise(ZeroDivisionError("division by zero"))
            return R(a) / yy
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and both_int:
            if not I.eng.branch(y != 0):
                raise PyRaise(ZeroDivisionError("division by zero"))
            if I.eng.branch(y > 0):
                return x / y if isinstance(op, ast.FloorDiv) else x % y
            # Python floors towards minus infinity
            return -((-x) / (-y)) if False else _neg_div(op, x, y)
        if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 4:
            r = z3.IntVal(1) if is_int(a) else z3.RealVal(1)
            for _ in range(b):
                r = r * x
            return r
        if isinstance(op, ast.Pow) and b == 0.5:
            return tmodel.sqrt_term(I, R(a))
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and is_z3(a) and a.sort() == z3.BoolSort():
            return z3.And(B(a), B(b)) if isinstance(op, ast.BitAnd) else z3.Or(B(a), B(b))
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and both_int:
            f = z3.Function(f"int_{type(op).__name__}", z3.IntSort(), z3.IntSort(), z3.IntSort())
            I.eng.assumptions.add("bitwise operators on integers: an uninterpreted function, nonnegative on nonnegative arguments")
            I.eng.assume(z3.Implies(z3.And(x >= 0, y >= 0), f(x, y) >= 0))
            return f(x, y)
        raise Unsupported(f"operator {type(op).__name__} on symbolic numbers")
    if isinstance(op, ast.Add) and is_str(a) and is_str(b):
        return str_concat([a, b])
    if isinstance(op, ast.Add) and isinstance(a, SList) and isinstance(b, SList):
        return list_concat(I, a, b)
    if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(op, ast.Add) and isinstance(a, (SList, tuple)) and isinstance(b, (SList, tuple)):
        raise PyRaise(TypeError("can only concatenate list to list / tuple to tuple"))
    if isinstance(op, ast.Mult) and isinstance(a, SList):
        if a.concrete and isinstance(b, int):
            return SList(items=a.items * b)
        if a.concrete and len(a.items) == 1 and is_int(b):
            x = a.items[0]
            return SList(n=z3.If(Z(b) > 0, Z(b), z3.IntVal(0)), get=lambda i: x)
    if isinstance(op, ast.Mod) and isinstance(a, str):
        return "<message>"
    if isinstance(a, SSet) and isinstance(b, SSet):
        return set_op(I, op, a, b)
    if not is_symbolic(a) and not is_symbolic(b):
        try:
            return _NATIVE[type(op)](a, b)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(op, ast.Add) and (isinstance(a, (SList, tuple)) or isinstance(b, (SList, tuple))):
        raise PyRaise(TypeError("unsupported operand types"))
    raise Unsupported(f"operator {type(op).__name__} on {type(a).__name__}, {type(b).__name__}")


def _neg_div(op, x, y):
    # y < 0: x // y == (-x) // (-y) ; x % y == x - y*(x//y); z3 int div floors for y>0
    q = (-x) / (-y)
    return q if isinstance(op, ast.FloorDiv) else x - y * q


def set_op(I, op, a, b):
    if a.concrete and b.concrete:
        out = SSet()
        if isinstance(op, ast.BitOr):
            for x in a.items + b.items:
                set_add(I, out, x)
            return out
        for x in a.items:
            inb = I.truth(contains(I, b, x))
            if inb == isinstance(op, ast.BitAnd):
                out.items.append(x)
        return out
    t = a.t or b.t
    a, b = a.as_symbolic(t), b.as_symbolic(t)
    k = I.eng.fresh_bound("k", t.sort)
    x, y = z3.Select(a.dom, k), z3.Select(b.dom, k)
    e = {ast.BitOr: z3.Or(x, y), ast.BitAnd: z3.And(x, y), ast.Sub: z3.And(x, z3.Not(y))}[type(op)]
    return SSet(t=t, dom=z3.Lambda([k], e))


# ------------------------------------------------------------ attributes

_LIST_M = {}
_DICT_M = {}
_SET_M = {}
_STR_M = {}


def _m(tab, *names):
    def deco(f):
        for n in names or (f.__name__.split("_", 1)[1],):
            tab[n] = f
        return f

    return deco


@_m(_LIST_M)
def l_append(I, l, v):
    list_append(I, l, v)


@_m(_LIST_M)
def l_extend(I, l, v):
    list_extend(I, l, v)


@_m(_LIST_M)
def l_copy(I, l):
    from .interp import Snapshot

    return Snapshot.of(l)


@_m(_LIST_M)
def l_clear(I, l):
    I.eng.note_mut(l)
    l.items, l.n, l._get, l.arr = [], None, None, None


@_m(_LIST_M)
def l_pop(I, l, i=-1):
    I.eng.note_mut(l)
    if l.concrete and isinstance(i, int):
        if not l.items:
            raise PyRaise(IndexError("pop from empty list"))
        return l.items.pop(i)
    if i == -1 and not l.concrete:
        if not I.eng.branch(Z(l.n) > 0):
            raise PyRaise(IndexError("pop from empty list"))
        v = l.get(Z(l.n) - 1)
        l.n = Z(l.n) - 1
        return v
    raise Unsupported("list.pop")


@_m(_LIST_M)
def l_insert(I, l, i, v):
    I.eng.note_mut(l)
    if l.concrete and isinstance(i, int):
        l.items.insert(i, v)
        return
    raise Unsupported("list.insert")


@_m(_LIST_M)
def l_remove(I, l, v):
    I.eng.note_mut(l)
    if not l.concrete:
        raise Unsupported("list.remove")
    for j, x in enumerate(l.items):
        if I.truth(eq_val(I, x, v)):
            del l.items[j]
            return
    raise PyRaise(ValueError("list.remove"))


@_m(_LIST_M)
def l_index(I, l, v):
    if not l.concrete:
        raise Unsupported("list.index")
    for j, x in enumerate(l.items):
        if I.truth(eq_val(I, x, v)):
            return j
    raise PyRaise(ValueError("list.index"))


@_m(_DICT_M)
def d_keys(I, d):
    return dict_keys(I, d)


@_m(_DICT_M)
def d_values(I, d):
    return dict_values(I, d)


@_m(_DICT_M)
def d_items(I, d):
    return dict_items(I, d)


@_m(_DICT_M)
def d_get(I, d, k, default=None):
    if d.concrete:
        for kk, v in d.pairs:
            if I.truth(eq_val(I, kk, k)):
                return v
        return default
    if I.eng.branch(d.has(k)):
        return d.at(k)
    return default


@_m(_DICT_M)
def d_setdefault(I, d, k, default=None):
    if d.concrete:
        for kk, v in d.pairs:
            if I.truth(eq_val(I, kk, k)):
                return v
    elif I.eng.branch(d.has(k)):
        return d.at(k)
    setitem(I, d, k, default)
    if not d.concrete:
        return d.at(k)
    return default


@_m(_DICT_M)
def d_update(I, d, other=None, **kw):
    if other is not None:
        dict_update(I, d, other)
    for k, v in kw.items():
        setitem(I, d, k, v)


@_m(_DICT_M)
def d_pop(I, d, k, *dflt):
    if not d.concrete:
        if I.eng.branch(d.has(k)):
            v = d.at(k)
            delitem(I, d, k)
            return v
    else:
        for j, (kk, v) in enumerate(d.pairs):
            if I.truth(eq_val(I, kk, k)):
                I.eng.note_mut(d)
                del d.pairs[j]
                return v
    if dflt:
        return dflt[0]
    raise PyRaise(KeyError(str(k)))


@_m(_DICT_M)
def d_copy(I, d):
    from .interp import Snapshot

    return Snapshot.of(d)


@_m(_SET_M)
def s_add(I, s, v):
    set_add(I, s, v)


@_m(_SET_M)
def s_pop(I, s):
    I.eng.note_mut(s)
    if s.concrete:
        if not s.items:
            raise PyRaise(KeyError("pop from an empty set"))
        if len(s.items) == 1:
            return s.items.pop()
        # any element may come out
        k = I.eng.choose(len(s.items))
        return s.items.pop(k)
    e = I.eng.fresh("popped", s.t.sort)
    if not I.truth(set_nonempty(I, s)):
        raise PyRaise(KeyError("pop from an empty set"))
    I.eng.assume(z3.Select(s.dom, e))
    s.dom = z3.Store(s.dom, e, False)
    return s.t.dec(e)


def set_union_seq(I, s, q):
    """s |= {elements of an unbounded sequence}"""
    eng = I.eng
    i = eng.fresh_bound("i", z3.IntSort())
    t = s.t or q.t
    if t is None:
        raise Unsupported("set.update of an untyped set with an unbounded sequence")
    body = eng.generic(lambda: t.enc(q.get(i)), [i], [i >= 0, i < Z(q.n)])
    old = s.as_symbolic(t).dom
    new = eng.fresh("updated", z3.ArraySort(t.sort, z3.BoolSort()))
    wit = eng.fresh("updwit", z3.ArraySort(t.sort, z3.IntSort()))
    k = eng.fresh_bound("k", t.sort)
    w = z3.Select(wit, k)
    eng.assume(z3.ForAll([k], z3.Implies(z3.Select(old, k), z3.Select(new, k)), patterns=[z3.Select(new, k), z3.Select(old, k)]
                         if z3.is_const(old) else [z3.Select(new, k)]))
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Z(q.n)), z3.Select(new, body))))
    at = z3.substitute(body, (i, w))
    eng.assume(z3.ForAll([k], z3.Implies(z3.And(z3.Select(new, k), z3.Not(z3.Select(old, k))), z3.And(
        w >= 0, w < Z(q.n), at == k)), patterns=[z3.Select(new, k)]))
    eng.note_mut(s)
    s.items, s.t, s.dom = None, t, new
    if s.writeback:
        s.writeback(s)


@_m(_SET_M)
def s_update(I, s, *others):
    for o in others:
        q = to_seq(I, o)
        if not q.concrete:
            set_union_seq(I, s, q)
            continue
        for x in q.items:
            set_add(I, s, x)


@_m(_SET_M)
def s_discard(I, s, v):
    I.eng.note_mut(s)
    if s.concrete:
        for j, x in enumerate(s.items):
            if I.truth(eq_val(I, x, v)):
                del s.items[j]
                return
    else:
        s.dom = z3.Store(s.dom, s.t.enc(v), False)


@_m(_STR_M)
def t_startswith(I, s, p):
    if isinstance(p, tuple):
        return _or([t_startswith(I, s, x) for x in p])
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    return z3.PrefixOf(S(p), S(s))


@_m(_STR_M)
def t_endswith(I, s, p):
    if isinstance(p, tuple):
        return _or([t_endswith(I, s, x) for x in p])
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p)
    return z3.SuffixOf(S(p), S(s))


@_m(_STR_M)
def t_join(I, s, parts):
    q = to_seq(I, parts)
    if not q.concrete:
        raise Unsupported("join of an unbounded list")
    out = []
    for i, x in enumerate(q.items):
        if i:
            out.append(s)
        out.append(x)
    return str_concat(out) if out else ""


@_m(_STR_M)
def t_replace(I, s, a, b):
    if not is_symbolic((s, a, b)):
        return s.replace(a, b)
    return z3.Function("str_replace_all", *[z3.StringSort()] * 4)(S(s), S(a), S(b))


@_m(_STR_M)
def t_format(I, s, *a, **k):
    if is_symbolic(a) or is_symbolic(k):
        raise Unsupported("str.format of symbolic values")
    return s.format(*a, **k)


def _flat_concat(s):
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for c in s.children() for y in _flat_concat(c)]
    return [s]


def _concat_of(parts):
    parts = [p for p in parts if not (z3.is_string_value(p) and p.as_string() == "")]
    if not parts:
        return z3.StringVal("")
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def _known_cut(I, s, sep):
    """first occurrence of sep decided from the parts of s; UNDEF when it is not known"""
    if not z3.is_string_value(sep):
        return UNDEF
    c = sep.as_string()
    parts = _flat_concat(s)
    for k, p in enumerate(parts):
        if z3.is_string_value(p):
            txt = p.as_string()
            if "\\u{" in txt:
                return UNDEF
            i = txt.find(c)
            if i >= 0:
                return (_concat_of(parts[:k] + [z3.StringVal(txt[:i])]),
                        _concat_of([z3.StringVal(txt[i + len(c):])] + parts[k + 1:]))
            continue
        free = z3.Not(z3.Contains(p, sep))
        if not any(f.eq(free) for f in I.eng.pc):
            return UNDEF
    return None


def _cut(I, s, sep):
    """s = a + sep + rest with the first occurrence of sep; None when sep does not occur"""
    s, sep = S(s), S(sep)
    key = ("cut", s.get_id(), sep.get_id())
    memo = I.__dict__.setdefault("_cuts", {})
    if key in memo:
        return memo[key][0]
    r = _known_cut(I, s, sep)
    if r is not UNDEF:
        pass
    elif not I.eng.branch(z3.Contains(s, sep)):
        r = None
    else:
        a, rest = I.eng.fresh("head", z3.StringSort()), I.eng.fresh("tail", z3.StringSort())
        I.eng.assume(s == z3.Concat(a, sep, rest))
        I.eng.assume(z3.Not(z3.Contains(a, sep)))
        r = (a, rest)
    memo[key] = (r, s, sep)
    return r


def _one_char(sep):
    if not isinstance(sep, str) or len(sep) != 1:
        raise Unsupported("separator of more than one character")


@_m(_STR_M)
def t_split(I, s, sep=None, maxsplit=-1):
    if not is_symbolic((s, sep)):
        return I.lift(s.split(sep, maxsplit))
    _one_char(sep)
    out, cur = [], s
    while maxsplit < 0 or len(out) < maxsplit:
        c = _cut(I, cur, sep)
        if c is None:
            break
        out.append(c[0])
        cur = c[1]
        if len(out) == 4:
            n = I.eng.fresh("nparts", z3.IntSort())
            I.eng.assume(n >= 5)
            arr = I.eng.fresh("parts", z3.ArraySort(z3.IntSort(), z3.StringSort()))
            return SList(n=n, t=TStr, arr=arr)
    return SList(items=out + [cur])


@_m(_STR_M)
def t_rsplit(I, s, sep=None, maxsplit=-1):
    if not is_symbolic((s, sep)):
        return I.lift(s.rsplit(sep, maxsplit))
    if maxsplit != 1:
        raise Unsupported("rsplit")
    _one_char(sep)
    if not I.eng.branch(z3.Contains(S(s), S(sep))):
        return SList(items=[s])
    a, rest = I.eng.fresh("head", z3.StringSort()), I.eng.fresh("tail", z3.StringSort())
    I.eng.assume(S(s) == z3.Concat(a, S(sep), rest))
    I.eng.assume(z3.Not(z3.Contains(rest, S(sep))))
    return SList(items=[a, rest])


@_m(_STR_M)
def t_partition(I, s, sep):
    if not is_symbolic((s, sep)):
        return s.partition(sep)
    _one_char(sep)
    c = _cut(I, s, sep)
    return (s, "", "") if c is None else (c[0], sep, c[1])


@_m(_STR_M)
def t_count(I, s, sep):
    if not is_symbolic((s, sep)):
        return s.count(sep)
    _one_char(sep)
    cur = s
    for k in range(4):
        c = _cut(I, cur, sep)
        if c is None:
            return k
        cur = c[1]
    n = I.eng.fresh("count", z3.IntSort())
    I.eng.assume(n >= 4)
    return n


@_m(_STR_M)
def t_encode(I, s, *a):
    if isinstance(s, str):
        return s.encode(*a)
    I.eng.assumptions.add("str.encode is injective (the text stands for its bytes)")
    return s


DIGITS = z3.Plus(z3.Range("0", "9"))


@_m(_STR_M)
def t_isnumeric(I, s):
    if isinstance(s, str):
        return s.isnumeric()
    I.eng.assumptions.add("str.isnumeric / isdigit: exactly the nonempty strings of the digits 0-9 (other numerals are not considered)")
    return z3.InRe(S(s), DIGITS)


_STR_M["isdigit"] = _STR_M["isdecimal"] = t_isnumeric


for _n in ("lower", "upper", "strip", "rstrip", "lstrip"):

    def _mk(n):
        def f(I, s, *a):
            if isinstance(s, str) and not is_symbolic(a):
                return getattr(s, n)(*a)
            if a:
                raise Unsupported(f"str.{n} with arguments")
            f = z3.Function(f"str_{n}", z3.StringSort(), z3.StringSort())
            if n in ("lower", "upper"):
                for c in "abcdefghijklmnopqrstuvwxyz":
                    lo, up = z3.StringVal(c), z3.StringVal(c.upper())
                    r = f(S(s))
                    one = z3.Or(S(s) == lo, S(s) == up)
                    # (characters of other scripts with such a case mapping are not considered)
                    I.eng.assume(one == (r == (lo if n == "lower" else up)))
            return f(S(s))

        return f

    _STR_M[_n] = _mk(_n)


def _model_dump(I, o, exclude=None, **k):
    """pydantic model_dump of a flat model"""
    if k or not hasattr(o.cls, "model_fields"):
        raise Unsupported("model_dump")
    drop = set(to_native(exclude)) if exclude is not None else set()
    if any(isinstance(v, SObj) for v in o.fields.values()):
        raise Unsupported("model_dump of a nested model")
    I.eng.assumptions.add("pydantic model_dump returns the fields")
    return SDict(pairs=[(f, o.fields[f]) for f in o.cls.model_fields if f in o.fields and f not in drop])


def getattr_(I, o, name):
    if isinstance(o, STensor):
        return tmodel.getattr_(I, o, name)
    for cls, tab in ((SList, _LIST_M), (SDict, _DICT_M), (SSet, _SET_M)):
        if isinstance(o, cls):
            if name in tab:
                return ModelFn(lambda I2, *a, **k: tab[name](I2, o, *a, **k), name)
            if name == "__iter__":
                return ModelFn(lambda I2: to_seq(I2, o), name)
            if name == "__len__":
                return ModelFn(lambda I2: b_len(I2, o), name)
            if name == "__getitem__":
                return ModelFn(lambda I2, k: getitem(I2, o, k), name)
            if name == "__contains__":
                return ModelFn(lambda I2, k: contains(I2, o, k), name)
            raise Unsupported(f"{cls.__name__}.{name}")
    if is_str(o) and name in _STR_M:
        return ModelFn(lambda I2, *a, **k: _STR_M[name](I2, o, *a, **k), name)
    if isinstance(o, SObj):
        if name in o.fields:
            return o.fields[name]
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return SDict(pairs=list(o.fields.items()))
        st = inspect.getattr_static(o.cls, name, UNDEF)
        if st is UNDEF and (o.cls, name) in I.models:
            m0 = I.models[(o.cls, name)]
            return ModelFn(lambda I2, *a, **k: m0(I2, o, *a, **k), name)
        if st is UNDEF:
            if o.tag and ("attr", name) in I.models:
                return I.models[("attr", name)](I, o)
            raise PyRaise(AttributeError(f"{o.cls.__name__}.{name}"))
        key = (o.cls, name)
        if key in I.models:
            m = I.models[key]
            if isinstance(st, property):
                return m(I, o)
            return ModelFn(lambda I2, *a, **k: m(I2, o, *a, **k), name)
        if isinstance(st, property):
            return I.call(st.fget, (o,))
        if isinstance(st, classmethod):
            return Bound(st.__func__, o.cls)
        if isinstance(st, staticmethod):
            return st.__func__
        if isinstance(st, functools.cached_property):
            return I.call(st.func, (o,))
        if isinstance(st, types.FunctionType) and not (name in ("model_dump", "model_copy") and not is_repo_fn(st)):
            return Bound(st, o)
        if name == "model_fields":
            return o.cls.model_fields
        if name == "model_dump":
            return ModelFn(lambda I2, **k: _model_dump(I2, o, **k), name)
        if name == "model_copy":
            raise Unsupported(name)
        return I.lift(st)
    if is_z3(o):
        if o.sort() == tmodel.Device and name == "type":
            return tmodel.device_type(I, o)
        op = opaque_of(o)
        if op is not None:
            if name in op.attrs:
                return op.attrs[name](I, o)
            if name in op.methods:
                return ModelFn(lambda I2, *a, **k: op.methods[name](I2, o, *a, **k), name)
            if op.pyclass is not None:
                st = inspect.getattr_static(op.pyclass, name, UNDEF)
                if isinstance(st, types.FunctionType):
                    return Bound(st, o)
        raise Unsupported(f"attribute {name} of {o.sort()}")
    if o is None:
        raise PyRaise(AttributeError(f"'NoneType' object has no attribute {name}"))
    if isinstance(o, tmodel.SShape):
        return tmodel.shape_attr(I, o, name)
    if isinstance(o, Bound) and name in ("__name__", "__qualname__"):
        return "method"
    if ("nattr", type(o), name) in I.models:
        return I.models[("nattr", type(o), name)](I, o)
    if isinstance(o, type) and is_repo_cls(o):
        st = inspect.getattr_static(o, name, UNDEF)
        if isinstance(st, classmethod):
            return Bound(st.__func__, o)
        if isinstance(st, (types.FunctionType,)):
            return st
    if isinstance(o, slice) and name in ("start", "stop", "step"):
        return getattr(o, name)
    try:
        return getattr(o, name)
    except AttributeError as e:
        raise PyRaise(e)


def setattr_(I, o, name, v):
    if isinstance(o, STensor):
        return tmodel.setattr_(I, o, name, v)
    raise Unsupported(f"attribute assignment on {type(o).__name__}")


# ------------------------------------------------------------ context managers


class ModelCM:
    """a modelled context manager: enter(I) -> value, exit(I, exception or None)"""

    def __init__(self, enter, exit=None):
        self.enter, self.exit = enter, exit


def cm_enter(I, cm):
    if isinstance(cm, ModelCM):
        return cm.enter(I)
    if isinstance(cm, SObj):
        f = inspect.getattr_static(cm.cls, "__enter__", None)
        if isinstance(f, types.FunctionType):
            return I.call(f, (cm,))
        if cm.tag == "lock":
            return cm
    if isinstance(cm, type(threading.RLock())) or type(cm).__name__ in ("lock", "RLock"):
        I.eng.assumptions.add("locks: single-threaded semantics (mutual exclusion itself is trusted)")
        return cm
    if ("cm", type(cm)) in I.models:
        return I.models[("cm", type(cm))](I, cm)
    raise Unsupported(f"with {type(cm).__name__}")


def cm_exit(I, cm, exc=None):
    if isinstance(cm, ModelCM):
        if cm.exit is not None:
            cm.exit(I, exc)
        return
    if isinstance(cm, SObj):
        f = inspect.getattr_static(cm.cls, "__exit__", None)
        if isinstance(f, types.FunctionType):
            r = I.call(f, (cm, None if exc is None else type(exc), exc, None))
            if exc is not None and I.truth(r):
                raise Unsupported("__exit__ swallows the exception")


# ------------------------------------------------------------ builtins

_MODELS = {}


def model(*objs):
    def deco(f):
        for o in objs:
            _MODELS[id(o)] = (o, f)
        return f

    return deco


def find_model(fn, extra):
    try:
        if fn in extra:
            return extra[fn]
    except TypeError:
        pass
    r = _MODELS.get(id(fn))
    if r is not None and r[0] is fn:
        return r[1]
    r = tmodel.MODELS.get(id(fn))
    if r is not None and r[0] is fn:
        return r[1]
    # bound builtin methods
    if isinstance(fn, types.BuiltinMethodType) and fn == dict.fromkeys:
        return b_fromkeys
    return None


def b_fromkeys(I, v, value=None):
    q = to_seq(I, v)
    if q.concrete:
        d = SDict()
        for k in q.items:
            setitem(I, d, k, value)
        return d
    return tmodel.LazySet(q.length(), q.get)


@model(len)
def b_len(I, v):
    if isinstance(v, SList):
        return v.length()
    if isinstance(v, SDict):
        if v.concrete:
            return len(v.pairs)
        return dict_order(I, v)[0]
    if isinstance(v, SSet):
        if v.concrete:
            return len(v.items)
        return set_enum(I, v).n
    if isinstance(v, tmodel.LazySet):
        return v.size(I)
    if isinstance(v, STensor):
        return v.dims[0]
    if isinstance(v, tmodel.SShape):
        return len(v.dims)
    if is_str(v) and is_z3(v):
        return z3.Length(v)
    if isinstance(v, SObj):
        f = inspect.getattr_static(v.cls, "__len__", None)
        if isinstance(f, types.FunctionType):
            return I.call(f, (v,))
        raise PyRaise(TypeError("len"))
    if is_z3(v):
        op = opaque_of(v)
        if op and "__len__" in op.methods:
            return op.methods["__len__"](I, v)
        raise PyRaise(TypeError("len"))
    try:
        return len(v)
    except TypeError as e:
        raise PyRaise(e)


def pyclass_of(v):
    import torch

    if is_z3(v):
        s = v.sort()
        if s == z3.IntSort():
            return int
        if s == z3.RealSort():
            return float
        if s == z3.BoolSort():
            return bool
        if s == z3.StringSort():
            return str
        op = opaque_of(v)
        if op is not None:
            return op.pyclass
        c = tmodel.enum_class(s)
        if c is not None:
            return c
        raise Unsupported(f"type of {s}")
    if isinstance(v, SObj):
        return v.cls
    if isinstance(v, SList):
        return list
    if isinstance(v, SDict):
        return dict
    if isinstance(v, SSet):
        return set
    if isinstance(v, STensor):
        return tmodel.tensor_class(v)
    if isinstance(v, tmodel.SShape):
        return torch.Size
    return type(v)


@model(isinstance)
def b_isinstance(I, v, c):
    cs = c if isinstance(c, tuple) else (c,)
    k = pyclass_of(v)
    if k is None:
        raise Unsupported("isinstance of an opaque value")
    out = False
    for x in cs:
        if x is fractions.Fraction:
            continue
        try:
            if issubclass(k, x):
                out = True
        except TypeError:
            raise Unsupported("isinstance class argument")
    return out


@model(type)
def b_type(I, v, *rest):
    if rest:
        raise Unsupported("type()")
    return pyclass_of(v)


@model(id)
def b_id(I, v):
    if is_z3(v):
        nm = v.sort().name()
        f = z3.Function(f"id_{nm}", v.sort(), z3.IntSort())
        return f(v)
    return id(v)


@model(range)
def b_range(I, *a):
    if not is_symbolic(a):
        return SList(items=list(range(*a)))
    if len(a) == 1:
        n = z3.If(Z(a[0]) > 0, Z(a[0]), z3.IntVal(0))
        return SList(n=n, get=lambda i: Z(i))
    if len(a) == 2 or (len(a) == 3 and a[2] == 1):
        lo, hi = Z(a[0]), Z(a[1])
        n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        return SList(n=n, get=lambda i: lo + Z(i))
    raise Unsupported("range with a symbolic step")


@model(enumerate)
def b_enumerate(I, v, start=0):
    q = to_seq(I, v)
    if q.concrete:
        return SList(items=[(i + start, x) for i, x in enumerate(q.items)])
    return SList(n=q.n, get=lambda i: (Z(i) + start, q.get(i)))


@model(zip)
def b_zip(I, *vs, strict=False):
    qs = [to_seq(I, v) for v in vs]
    if all(q.concrete for q in qs):
        return SList(items=list(zip(*[q.items for q in qs])))
    n = Z(qs[0].length())
    for q in qs[1:]:
        m = Z(q.length())
        n = z3.simplify(z3.If(m < n, m, n)) if not z3.eq(m, n) else n
    return SList(n=n, get=lambda i: tuple(_list_at_m(I, q, i) for q in qs))


def _list_at_m(I, q, i):
    if q.concrete:
        return I.eng.merged(lambda: _list_at(I, q, i))
    return q.get(i)


@model(reversed)
def b_reversed(I, v):
    q = to_seq(I, v)
    if q.concrete:
        return SList(items=list(reversed(q.items)))
    return SList(n=q.n, get=lambda i: q.get(Z(q.n) - 1 - Z(i)))


@model(list)
def b_list(I, v=None):
    if v is None:
        return SList()
    if isinstance(v, tmodel.LazySet):
        return v
    q = to_seq(I, v)
    if q.concrete:
        return SList(items=list(q.items))
    r = SList(n=q.n, get=q._get, t=q.t, arr=q.arr)
    if hasattr(q, "filter"):
        r.filter = q.filter
    return r


@model(iter)
def b_iter(I, v):
    return to_seq(I, v)


@model(next)
def b_next(I, v, *d):
    q = to_seq(I, v)
    if q.concrete:
        if q.items:
            return q.items[0]
    elif I.eng.branch(Z(q.n) > 0):
        return q.get(0)
    if d:
        return d[0]
    raise PyRaise(StopIteration())


@model(tuple)
def b_tuple(I, v=()):
    q = to_seq(I, v)
    if not q.concrete:
        return q  # immutable view; tuple-ness of unbounded sequences is not distinguished
    return tuple(q.items)


@model(collections.defaultdict)
def b_defaultdict(I, factory=None, *a, **kw):
    d = b_dict(I, *a, **kw)
    d.factory = factory
    return d


@model(dict)
def b_dict(I, v=None, **kw):
    d = SDict()
    if "**sym" in kw:
        if v is not None or len(kw) > 1:
            raise Unsupported("dict() with several sources")
        v = kw.pop("**sym")
    if v is not None:
        if isinstance(v, SDict):
            from .interp import Snapshot

            d = Snapshot.of(v)
        else:
            q = to_seq(I, v)
            if not q.concrete:
                return comp_dict(I, q, q.get)
            for p in q.items:
                k, x = to_seq(I, p).items
                setitem(I, d, k, x)
    for k, x in kw.items():
        setitem(I, d, k, x)
    return d


@model(set, frozenset)
def b_set(I, v=None):
    s = SSet()
    if v is not None:
        if isinstance(v, tmodel.LazySet):
            return v
        if isinstance(v, SSet):
            return SSet(items=list(v.items) if v.concrete else None, t=v.t, dom=v.dom)
        q = to_seq(I, v)
        if not q.concrete:
            if q.t is not None:
                return list_to_set(I, q, q.t)
            return tmodel.LazySet(q.n, q.get)
        for x in q.items:
            set_add(I, s, x)
    return s


def list_to_set(I, q, t):
    eng = I.eng
    dom = eng.fresh("setof", z3.ArraySort(t.sort, z3.BoolSort()))
    wit = eng.fresh("setwit", z3.ArraySort(t.sort, z3.IntSort()))
    i = eng.fresh_bound("i", z3.IntSort())
    k = eng.fresh_bound("k", t.sort)
    base = getattr(q, "kept_of", None)
    if base is not None and base.arr is not None:
        # the elements of base that pass the filter
        cond = q.filter[2]
        ci = eng.generic(lambda: cond(i), [i], [i >= 0, i < Z(base.n)])
        ai = z3.Select(base.arr, i)
        w = z3.Select(wit, k)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Z(base.n), ci), z3.Select(dom, ai)), patterns=[ai]))
        eng.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(
            w >= 0, w < Z(base.n), z3.Select(base.arr, w) == k, z3.substitute(ci, (i, w)))), patterns=[z3.Select(dom, k)]))
        return SSet(t=t, dom=dom)
    n, arr = q.as_array(t)
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(dom, z3.Select(arr, i))),
                         patterns=[z3.Select(arr, i)]))
    eng.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(
        z3.Select(wit, k) >= 0, z3.Select(wit, k) < n, z3.Select(arr, z3.Select(wit, k)) == k)),
        patterns=[z3.Select(dom, k)]))
    return SSet(t=t, dom=dom)


@model(all)
def b_all(I, v):
    q = to_seq(I, v)
    if parts_of(q):
        for p in parts_of(q):
            if not I.truth(b_all(I, p)):
                return False
        return True
    if q.concrete:
        for x in q.items:
            if not I.truth(x):
                return False
        return True
    if not I.eng._feasible(Z(q.n) > 0):
        return True
    i = I.eng.fresh_bound("a", z3.IntSort())
    b = I.eng.generic(lambda: B(I.truth_term(q.get(i))), [i], [i >= 0, i < Z(q.n)])
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return Z(q.n) <= 0
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Z(q.n)), b))


@model(any)
def b_any(I, v):
    q = to_seq(I, v)
    if parts_of(q):
        for p in parts_of(q):
            if I.truth(b_any(I, p)):
                return True
        return False
    if q.concrete:
        for x in q.items:
            if I.truth(x):
                return True
        return False
    if not I.eng._feasible(Z(q.n) > 0):
        return False
    i = I.eng.fresh_bound("a", z3.IntSort())
    b = I.eng.generic(lambda: B(I.truth_term(q.get(i))), [i], [i >= 0, i < Z(q.n)])
    return z3.Exists([i], z3.And(i >= 0, i < Z(q.n), b))


@model(sum)
def b_sum(I, v, start=0):
    q = to_seq(I, v)
    if q.concrete:
        r = start
        for x in q.items:
            r = binop(I, ast.Add(), r, x)
        return r
    x0 = q.get(I.eng.fresh("sp", z3.IntSort()))
    if isinstance(x0, STensor):
        return tmodel.sum_tensors(I, q, start)
    t = tmodel.big_sum(I, Z(q.n), lambda i: R(q.get(i)))
    if start != 0:
        t = t + R(start)
    return t


@model(min)
def b_min(I, *a, **kw):
    return _minmax(I, a, kw, True)


@model(max)
def b_max(I, *a, **kw):
    return _minmax(I, a, kw, False)


def _minmax(I, a, kw, is_min):
    if kw.get("key") is not None:
        q = to_seq(I, a[0]) if len(a) == 1 else SList(items=list(a))
        if not q.concrete:
            raise Unsupported("min/max with key over an unbounded sequence")
        if not q.items:
            if "default" in kw:
                return kw["default"]
            raise PyRaise(ValueError("min/max of empty sequence"))
        ks = [I.call(kw["key"], (x,)) for x in q.items]
        best = 0
        for j in range(1, len(ks)):
            # the first of equals wins
            if I.truth(compare(I, ast.Lt() if is_min else ast.Gt(), ks[j], ks[best])):
                best = j
        return q.items[best]
    if len(a) == 1:
        q = to_seq(I, a[0])
        if not q.concrete:
            n = Z(q.n)
            if not I.eng.branch(n > 0):
                if "default" in kw:
                    return kw["default"]
                raise PyRaise(ValueError("min/max of empty sequence"))
            x0 = I.eng.generic(lambda: q.get(I.eng.fresh("mp", z3.IntSort())), [], [])
            if not is_num(x0):
                raise Unsupported("min/max of non-numbers")
            conv = Z if is_int(x0) else R
            m = I.eng.fresh("ext", z3.IntSort() if is_int(x0) else z3.RealSort())
            w = I.eng.fresh("extw", z3.IntSort())
            I.eng.assume(z3.And(w >= 0, w < n, conv(q.get(w)) == m))
            i = I.eng.fresh_bound("i", z3.IntSort())
            b = I.eng.generic(lambda: (m <= conv(q.get(i))) if is_min else (m >= conv(q.get(i))), [i], [])
            I.eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), b)))
            return m
        items = q.items
    else:
        items = list(a)
    if not items:
        if "default" in kw:
            return kw["default"]
        raise PyRaise(ValueError("min/max of empty sequence"))
    r = items[0]
    for x in items[1:]:
        if not is_symbolic(x) and not is_symbolic(r):
            r = min(r, x) if is_min else max(r, x)
            continue
        c = compare(I, ast.Lt() if is_min else ast.Gt(), x, r)
        r = ite(c, x, r)
    return r


@model(int)
def b_int(I, v=0, *rest):
    if not is_symbolic(v):
        try:
            return int(v, *rest)
        except (ValueError, TypeError) as e:
            raise PyRaise(e)
    if is_int(v):
        return Z(v)
    if is_z3(v) and v.sort() == z3.RealSort():
        # truncation towards zero
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if isinstance(v, STensor):
        return b_int(I, tmodel.item(I, v))
    if is_str(v):
        # digits denote their decimal value; other notations either fail or denote some number
        if I.eng.branch(z3.InRe(v, DIGITS)):
            return z3.StrToInt(v)
        if I.eng.branch(z3.Function("int_notation", z3.StringSort(), z3.BoolSort())(v)):
            return z3.Function("int_of_text", z3.StringSort(), z3.IntSort())(v)
        raise PyRaise(ValueError("invalid literal for int()"))
    raise Unsupported("int()")


@model(float)
def b_float(I, v=0.0):
    if not is_symbolic(v):
        try:
            return float(v)
        except (ValueError, TypeError) as e:
            raise PyRaise(e)
    if is_num(v):
        return R(v)
    if isinstance(v, STensor):
        return R(tmodel.item(I, v))
    raise Unsupported("float()")


@model(bool)
def b_bool(I, v=False):
    return I.truth_term(v)


@model(str)
def b_str(I, v=""):
    return to_str(I, v)


@model(repr)
def b_repr(I, v):
    return to_str(I, v)


@model(abs)
def b_abs(I, v):
    if isinstance(v, STensor):
        return tmodel.method(I, v, "abs")
    if is_z3(v):
        return z3.If(v < 0, -v, v)
    return abs(v)


@model(print)
def b_print(I, *a, **k):
    return None


@model(hash)
def b_hash(I, v):
    if isinstance(v, SObj):
        f = inspect.getattr_static(v.cls, "__hash__", None)
        if isinstance(f, types.FunctionType) and is_repo_fn(f):
            return I.call(f, (v,))
    if is_z3(v):
        return z3.Function(f"hash_{v.sort().name()}", v.sort(), z3.IntSort())(v)
    if is_symbolic(v):
        raise Unsupported("hash")
    return hash(v)


@model(getattr)
def b_getattr(I, o, name, *d):
    try:
        return I.lift(getattr_(I, o, name))
    except PyRaise as e:
        if d and issubclass(e.cls, AttributeError):
            return d[0]
        raise


@model(setattr)
def b_setattr(I, o, name, v):
    if not isinstance(name, str):
        raise Unsupported("setattr with a symbolic name")
    I.setattr(o, name, v)


@model(hasattr)
def b_hasattr(I, o, name):
    try:
        getattr_(I, o, name)
        return True
    except PyRaise as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(sorted)
def b_sorted(I, v, key=None, reverse=False):
    q = to_seq(I, v)
    if not q.concrete:
        raise Unsupported("sorted of an unbounded sequence")
    ks = [I.call(key, (x,)) if key is not None else x for x in q.items]
    if any(is_symbolic(k) for k in ks):
        if len(ks) > 4:
            raise Unsupported("sorted of symbolic values")
        order = []
        for j, k in enumerate(ks):  # stable insertion
            p = len(order)
            while p > 0:
                a, b = (ks[order[p - 1]], k) if reverse else (k, ks[order[p - 1]])
                if not I.truth(compare(I, ast.Lt(), a, b)):
                    break
                p -= 1
            order.insert(p, j)
        return SList(items=[q.items[i] for i in order])
    order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=reverse)
    return SList(items=[q.items[i] for i in order])


@model(map)
def b_map(I, f, v):
    q = to_seq(I, v)
    if q.concrete:
        return SList(items=[I.call(f, (x,)) for x in q.items])
    return SList(n=q.n, get=lambda i: I.eng.merged(lambda: I.call(f, (q.get(i),))))


@model(round)
def b_round(I, v, n=None):
    if is_symbolic(v):
        raise Unsupported("round")
    return round(v) if n is None else round(v, n)


@model(math.prod)
def b_prod(I, v, start=1):
    q = to_seq(I, v)
    if not q.concrete:
        raise Unsupported("prod")
    r = start
    for x in q.items:
        r = binop(I, ast.Mult(), r, x)
    return r


@model(math.sqrt)
def b_sqrt(I, v):
    if not is_symbolic(v):
        return math.sqrt(v)
    return tmodel.sqrt_term(I, R(v))


@model(math.ceil)
def b_ceil(I, v):
    if not is_symbolic(v):
        return math.ceil(v)
    return -z3.ToInt(-R(v))


@model(math.floor)
def b_floor(I, v):
    if not is_symbolic(v):
        return math.floor(v)
    return z3.ToInt(R(v))


@model(os.path.join)
def b_pjoin(I, *a):
    if not is_symbolic(a):
        return os.path.join(*a)
    I.eng.assumptions.add("os.path.join(dir, name) is an injective function of name for a fixed dir")
    f = z3.Function("path_join", z3.StringSort(), z3.StringSort(), z3.StringSort())
    inv = z3.Function("path_base", z3.StringSort(), z3.StringSort())
    r = S(a[0])
    for x in a[1:]:
        r = f(r, S(x))
        I.eng.assume(inv(r) == S(x))
    return r


_SAFE_MODULES = {
    "builtins", "re", "math", "operator", "string", "fractions", "enum", "os.path", "posixpath",
    "typing", "itertools", "functools", "collections", "json",
}


def native_call(I, fn, args, kwargs):
    """concrete call of a pure library function"""
    import torch

    mod = getattr(fn, "__module__", None) or type(getattr(fn, "__self__", None)).__module__
    if isinstance(fn, type) and issubclass(fn, enum.Enum):
        try:
            return fn(*args, **kwargs)
        except ValueError as e:
            raise PyRaise(e)
    if fn is torch.device:
        return torch.device(*args, **kwargs)
    try:
        import tqdm

        if fn is tqdm.tqdm or getattr(fn, "__name__", "") in ("tqdm",):
            I.eng.assumptions.add("tqdm.tqdm(iterable) iterates exactly the given iterable")
            return args[0]
        if fn is tqdm.trange:
            I.eng.assumptions.add("tqdm.trange(...) iterates exactly range(...)")
            return I.call(range, list(args), {})
    except ImportError:
        pass
    if mod not in _SAFE_MODULES and not (mod or "").startswith(("re", "_sre")):
        self_ = getattr(fn, "__self__", None)
        if not (isinstance(self_, (str, re.Pattern, re.Match, int, tuple, frozenset)) ):
            raise Unsupported(f"call of {getattr(fn, '__qualname__', fn)!s} ({mod})")
    a = [to_native(x) for x in args]
    k = {n: to_native(x) for n, x in kwargs.items()}
    try:
        return I.lift(fn(*a, **k))
    except Exception as e:
        raise PyRaise(e)
