"""Symbolic tensors: assumed contracts of the torch / numpy operations.

A tensor is a list of dimensions (integers or terms) and a function from an
index tuple to a term for that element.  Element arithmetic is over the
mathematical reals.  Everything in this file is an assumed contract on a
dependency; every operation used by a run is listed in the evidence.
"""

import ast
import itertools

import numpy as np
import torch
import z3

from .core import (
    And, B, Engine, MAX, MIN, Not, Or, PathEnd, PyRaise, R, S, SDict, SList, SObj, SQRT,
    SSet, SUM, Unsupported, Z, is_int, is_num, is_z3, ite,
)

REAL, INT, BOOL = z3.RealSort(), z3.IntSort(), z3.BoolSort()

_dt_names = ["float16", "bfloat16", "float32", "float64", "int8", "int32", "int64", "uint8", "bool"]
DType, _dt_consts = z3.EnumSort("DType", _dt_names)
_dt_of = {getattr(torch, n): c for n, c in zip(_dt_names, _dt_consts)}
_dt_back = {c.decl().name(): getattr(torch, n) for n, c in zip(_dt_names, _dt_consts)}
Device = z3.DeclareSort("Device")
_devs = {}


def enum_term(sort, v):
    if sort == DType and isinstance(v, torch.dtype):
        return _dt_of.get(v)
    if sort == Device:
        return dev(v)
    return None


def enum_class(sort):
    if sort == DType:
        return torch.dtype
    if sort == Device:
        return torch.device
    return None


def dt(v):
    if is_z3(v):
        return v
    if v in _dt_of:
        return _dt_of[v]
    raise Unsupported(f"dtype {v}")


def dt_native(t):
    t = z3.simplify(t) if is_z3(t) else t
    if is_z3(t) and t.decl().name() in _dt_back and t.num_args() == 0:
        return _dt_back[t.decl().name()]
    return t


def dev(v):
    if is_z3(v):
        return v
    if v is None:
        v = "cpu"
    k = str(v)
    if k not in _devs:
        _devs[k] = z3.Const(f"device_{k}", Device)
    return _devs[k]


def device_type(I, d):
    f = z3.Function("device_type", Device, z3.StringSort())
    for k, c in _devs.items():
        if z3.eq(c, d):
            return k.split(":")[0]
        I.eng.assume(f(c) == z3.StringVal(k.split(":")[0]))
    return f(d)


def promote(a, b):
    a, b = dt(a), dt(b)
    if z3.eq(a, b):
        return a
    r = None
    for x in _dt_names:
        for y in _dt_names:
            if x == y:
                continue
            p = torch.promote_types(getattr(torch, x), getattr(torch, y))
            if p not in _dt_of:
                continue
            c = z3.And(a == _dt_of[getattr(torch, x)], b == _dt_of[getattr(torch, y)])
            r = z3.If(c, _dt_of[p], r) if r is not None else z3.If(c, _dt_of[p], a)
    return z3.simplify(r)


def is_float_dt(a):
    return z3.Or(*[dt(a) == _dt_of[t] for t in (torch.float16, torch.bfloat16, torch.float32, torch.float64)])


class SShape:
    def __init__(self, dims):
        self.dims = list(dims)

    def __iter__(self):
        return iter(self.dims)

    def __len__(self):
        return len(self.dims)

    def __getitem__(self, k):
        r = self.dims[k]
        return SShape(r) if isinstance(k, slice) else r

    def __repr__(self):
        return f"SShape{self.dims}"


class LazySet:
    """the set of values of an unbounded sequence"""

    def __init__(self, n, get):
        self.n, self.get = n, get
        self._size = None

    def size(self, I):
        if self._size is None:
            from . import lib

            eng = I.eng
            m = eng.fresh("distinct", INT)
            n = Z(self.n)
            if not eng._feasible(n > 0):
                self._size = 0
                return 0
            i = eng.fresh_bound("i", INT)
            allsame = z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < n),
                eng.generic(lambda: B(lib.eq_val(I, self.get(i), self.get(z3.IntVal(0)))), [i], [i >= 0, i < n])))
            eng.assume(z3.And(m >= 0, (m == 0) == (n <= 0), z3.Implies(n > 0, (m == 1) == allsame)))
            self._size = m
        return self._size


class STensor:
    def __init__(self, dims, at, dtype=torch.float32, device="cpu", kind="torch", nd=None, base=None,
                 contiguous=True):
        self.dims = list(dims)
        self.at = at
        self.dtype = dt(dtype)
        self.device = dev(device)
        self.kind = kind
        self.nd = nd  # the unflattened tensor, when this is a flat view of it
        self.base = base  # (tensor, writer) for aliasing views
        self.contiguous = contiguous
        if Engine.current is not None:
            Engine.current.note_alloc(self)

    def __repr__(self):
        return f"STensor{self.dims}"

    def like(self, at, dims=None, dtype=None):
        return STensor(self.dims if dims is None else dims, at, dtype if dtype is not None else self.dtype,
                       self.device, self.kind)


def frozen(t):
    """the same tensor, detached from later in-place updates"""
    if not isinstance(t, STensor):
        return t
    r = STensor.__new__(type(t))
    r.__dict__.update(t.__dict__)
    r.base = None
    if t.nd is not None:
        r.nd = frozen(t.nd)
    if Engine.current is not None:
        Engine.current.note_alloc(r)
    return r


def tensor_class(t):
    return torch.Tensor if t.kind == "torch" else np.ndarray


def sort_of(t):
    if not hasattr(t, "_sort"):
        e = t.at(*[z3.IntVal(0) for _ in t.dims])
        t._sort = e.sort() if is_z3(e) else (BOOL if isinstance(e, bool) else INT if isinstance(e, int) else REAL)
    return t._sort


def num(x):
    return R(x)


def use(I, op):
    I.eng.assumptions.add(f"torch/numpy contract: {op}")


def note_round(I):
    I.eng.assumptions.add("floating-point values are mathematical reals (no rounding, overflow, NaN)")


# ------------------------------------------------------------ helpers


def dims_equal(I, a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
        elif not (is_z3(x) and is_z3(y) and z3.eq(x, y)):
            cs.append(Z(x) == Z(y))
    return And(*cs) if cs else True


def shape_eq(I, a, b):
    da = a.dims if isinstance(a, SShape) else list(a) if isinstance(a, (tuple,)) else None
    db = b.dims if isinstance(b, SShape) else list(b) if isinstance(b, (tuple,)) else None
    if isinstance(b, torch.Size):
        db = list(b)
    if isinstance(a, torch.Size):
        da = list(a)
    if da is None or db is None:
        return False
    return dims_equal(I, da, db)


def shape_attr(I, s, name):
    from .interp import ModelFn

    if name == "numel":
        return ModelFn(lambda I2: prod(s.dims))
    raise Unsupported(f"Size.{name}")


def prod(dims):
    r = 1
    for d in dims:
        if isinstance(r, int) and isinstance(d, int):
            r = r * d
        else:
            r = Z(r) * Z(d) if not (isinstance(r, int) and r == 1) else d
    return r


def ite_tensor(c, a, b):
    if not isinstance(a, STensor) or not isinstance(b, STensor) or len(a.dims) != len(b.dims):
        raise Unsupported("join of tensors")
    dims = [x if (isinstance(x, int) and isinstance(y, int) and x == y) or (is_z3(x) and is_z3(y) and z3.eq(x, y))
            else z3.If(c, Z(x), Z(y)) for x, y in zip(a.dims, b.dims)]
    return STensor(dims, lambda *i: ite(c, a.at(*i), b.at(*i)),
                   a.dtype if z3.eq(a.dtype, b.dtype) else z3.If(c, a.dtype, b.dtype),
                   a.device if z3.eq(a.device, b.device) else z3.If(c, a.device, b.device), a.kind)


_LAM = z3.Const("lam_k", INT)


def canon_lambda(k, body):
    """lambdas that differ only in the name of their variable become one term"""
    return z3.Lambda([_LAM], z3.substitute(body, (k, _LAM)))


def big_sum(I, n, f):
    eng = I.eng
    if isinstance(n, int) and n <= 8:
        t = z3.RealVal(0)
        for i in range(n):
            t = t + num(f(i))
        return t
    k = eng.fresh_bound("k", INT)
    body = eng.generic(lambda: num(f(k)), [k], [k >= 0, k < Z(n)])
    return SUM(canon_lambda(k, body), Z(n))


def big_ext(I, n, f, is_max):
    eng = I.eng
    k = eng.fresh_bound("k", INT)
    body = eng.generic(lambda: num(f(k)), [k], [k >= 0, k < Z(n)])
    F = MAX if is_max else MIN
    lam = canon_lambda(k, body)
    r = F(lam, Z(n))
    w = eng.fresh("extw", INT)
    eng.assume(z3.Implies(Z(n) > 0, z3.And(w >= 0, w < Z(n), z3.Select(lam, w) == r)))
    i = eng.fresh_bound("i", INT)
    bi = z3.substitute(body, (k, i))
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Z(n)), bi <= r if is_max else bi >= r)))
    return r


def sqrt_term(I, x):
    r = SQRT(x)
    I.eng.assume(z3.And(r >= 0, z3.Implies(x >= 0, r * r == x), z3.Implies(x == 0, r == 0),
                        z3.Implies(x > 0, r > 0)))
    return r


def reduce_full(I, t, op="sum"):
    if t.nd is not None:
        t = t.nd
    if op == "sum":
        def rec(d, idx):
            if d == len(t.dims):
                return num(t.at(*idx))
            return big_sum(I, t.dims[d], lambda k: rec(d + 1, idx + [k]))
        return rec(0, [])
    if op in ("max", "min"):
        def rec(d, idx):
            if d == len(t.dims):
                return num(t.at(*idx))
            return big_ext(I, t.dims[d], lambda k: rec(d + 1, idx + [k]), op == "max")
        return rec(0, [])
    raise Unsupported(op)


def norm_dim(t, d):
    return d % len(t.dims) if t.dims else 0


def reduce_dim(I, t, dim, keepdim, op):
    """reduce over one dim (int) or several (tuple)"""
    t = frozen(t)
    ds = sorted({norm_dim(t, d) for d in ((dim,) if isinstance(dim, int) else tuple(dim))})
    if t.nd is not None:
        L = len(t.dims) - 1
        if L in ds:
            r = reduce_dim(I, t.nd, tuple([d for d in ds if d < L] + list(range(L, len(t.nd.dims)))), False, op)
            for d in ds if keepdim else ():
                r = (lambda r, d: r.like(lambda *i: r.at(*(i[:d] + i[d + 1:])), r.dims[:d] + [1] + r.dims[d:]))(r, d)
            return r
        return flatten(I, reduce_dim(I, t.nd, tuple(ds), keepdim, op), L if keepdim else L - len(ds))
    dims = [x for i, x in enumerate(t.dims) if i not in ds]
    kd = [1 if i in ds else x for i, x in enumerate(t.dims)]

    def at(*idx):
        if keepdim:
            idx = [x for i, x in enumerate(idx) if i not in ds]
        idx = list(idx)

        def rec(j, cur):
            if j == len(t.dims):
                return num(t.at(*cur))
            if j in ds:
                f = lambda k: rec(j + 1, cur + [k])
                if op == "sum":
                    return big_sum(I, t.dims[j], f)
                return big_ext(I, t.dims[j], f, op == "max")
            return rec(j + 1, cur + [idx[j - sum(1 for q in ds if q < j)]])

        return rec(0, [])

    return t.like(at, kd if keepdim else dims)


def as_tensor(I, v, like):
    if isinstance(v, STensor):
        return v
    if is_num(v):
        return STensor([], lambda: v, like.dtype, like.device, like.kind)
    raise Unsupported(f"tensor operand {type(v).__name__}")


def broadcast(I, a, b):
    """-> dims, index maps for both"""
    a, b = frozen(a), frozen(b)
    eng = I.eng
    n = max(len(a.dims), len(b.dims))
    da = [1] * (n - len(a.dims)) + a.dims
    db = [1] * (n - len(b.dims)) + b.dims
    dims, ma, mb = [], [], []
    for x, y in zip(da, db):
        if isinstance(x, int) and isinstance(y, int):
            if x == y:
                dims.append(x); ma.append(False); mb.append(False)
            elif x == 1:
                dims.append(y); ma.append(True); mb.append(False)
            elif y == 1:
                dims.append(x); ma.append(False); mb.append(True)
            else:
                raise PyRaise(RuntimeError("size mismatch"))
            continue
        if isinstance(x, int) and x == 1:
            dims.append(y); ma.append(True); mb.append(False); continue
        if isinstance(y, int) and y == 1:
            dims.append(x); ma.append(False); mb.append(True); continue
        if is_z3(x) and is_z3(y) and z3.eq(x, y):
            dims.append(x); ma.append(False); mb.append(False); continue
        if eng.branch(Z(x) == Z(y)):
            dims.append(x); ma.append(False); mb.append(False)
        elif eng.branch(Z(x) == 1):
            dims.append(y); ma.append(True); mb.append(False)
        elif eng.branch(Z(y) == 1):
            dims.append(x); ma.append(False); mb.append(True)
        else:
            raise PyRaise(RuntimeError("size mismatch"))

    def mk(t, m):
        off = n - len(t.dims)

        def at(*idx):
            return t.at(*[0 if m[j] else idx[j] for j in range(off, n)])

        return at

    return dims, mk(a, ma), mk(b, mb)


def result_dtype(I, a, b, av, bv):
    """torch type promotion: dimensioned operands win over 0-dim and scalars"""
    if not isinstance(av, STensor):
        return b.dtype
    if not isinstance(bv, STensor):
        return a.dtype
    if z3.eq(a.dtype, b.dtype):
        return a.dtype
    if bool(a.dims) == bool(b.dims):
        return promote(a.dtype, b.dtype)
    big, small = (a, b) if a.dims else (b, a)
    return z3.If(z3.Or(is_float_dt(big.dtype), z3.Not(is_float_dt(small.dtype))),
                 big.dtype, promote(a.dtype, b.dtype))


def select_mask(I, t, mask):
    """t[mask] for a boolean mask over t's leading dimensions: usable elementwise with selections by the same mask"""
    if len(mask.dims) > len(t.dims) or dims_equal(I, t.dims[:len(mask.dims)], mask.dims) is not True:
        raise Unsupported("mask shape")

    def at(*i):
        raise Unsupported("boolean-mask read")

    r = STensor([I.eng.fresh("selected", INT)] + t.dims[len(mask.dims):], at, t.dtype, t.device, t.kind)
    r.sel = (mask, t)
    return r


def same_mask(a, b):
    return a is b or a.at is b.at


def pointwise(I, f, *vs, dtype=None):
    """elementwise function of tensors/scalars"""
    vs = tuple(frozen(v) for v in vs)
    ts = [v for v in vs if isinstance(v, STensor)]
    sels = [v for v in ts if getattr(v, "sel", None)]
    if sels:
        m = sels[0].sel[0]
        if not all((getattr(v, "sel", None) and same_mask(v.sel[0], m)) or (not getattr(v, "sel", None) and not v.dims) for v in ts):
            raise Unsupported("selections by different masks")
        return select_mask(I, pointwise(I, f, *[v.sel[1] if getattr(v, "sel", None) else v for v in vs], dtype=dtype), m)
    flats = [t for t in ts if t.nd is not None]
    if flats:
        lead = max(len(t.dims) - 1 for t in ts if t.dims)
        tail = flats[0].nd.dims[len(flats[0].dims) - 1:]
        ok = all(dims_equal(I, t.nd.dims[len(t.dims) - 1:], tail) is True for t in flats)
        # others: constant along the flattened dimension
        ok = ok and all(t.nd is not None or not t.dims or (isinstance(t.dims[-1], int) and t.dims[-1] == 1) for t in ts)
        if ok:
            def unflat(v):
                if not isinstance(v, STensor) or not v.dims:
                    return v
                if v.nd is not None:
                    return v.nd
                n = len(v.dims) - 1
                return v.like(lambda *i: v.at(*i[:n], 0), v.dims[:-1] + [1] * len(tail))

            return flatten(I, pointwise(I, f, *[unflat(v) for v in vs], dtype=dtype), lead)
    if len(vs) == 1:
        t = ts[0]
        return t.like(lambda *i: f(t.at(*i)), dtype=dtype)
    if len(vs) == 2:
        a = as_tensor(I, vs[0], ts[0])
        b = as_tensor(I, vs[1], ts[0])
        dims, fa, fb = broadcast(I, a, b)
        d = dtype if dtype is not None else result_dtype(I, a, b, vs[0], vs[1])
        ref = a if isinstance(vs[0], STensor) and a.dims else b if isinstance(vs[1], STensor) else a
        return STensor(dims, lambda *i: f(fa(*i), fb(*i)), d, ref.device, ref.kind)
    raise Unsupported("pointwise arity")


def flatten(I, t, lead=0):
    """a view with the dimensions from `lead` on flattened into one"""
    if len(t.dims) == lead + 1:
        return t
    if t.nd is not None:
        if lead:
            raise Unsupported("reshape of a flattened tensor")
        return flatten(I, t.nd)
    if lead:
        tl = t.dims[lead:]
        fs = [z3.Function(f"unflat{len(tl)}_{i}", INT, *[INT] * len(tl), INT) for i in range(len(tl))]
        ds = [Z(d) for d in tl]
        t0 = frozen(t)
        t._viewed = True
        return STensor(t.dims[:lead] + [prod(tl)], lambda *i: t0.at(*i[:lead], *[f(Z(i[lead]), *ds) for f in fs]), t.dtype, t.device, t.kind, nd=t)
    n = prod(t.dims)
    fs = [z3.Function(f"unflat{len(t.dims)}_{i}", INT, *[INT] * len(t.dims), INT) for i in range(len(t.dims))]
    ds = [Z(d) for d in t.dims]

    t0 = frozen(t)
    t._flat_views = getattr(t, "_flat_views", 0) + 1

    def at(k):
        return t0.at(*[f(Z(k), *ds) for f in fs])

    r = STensor([n], at, t.dtype, t.device, t.kind, nd=t)
    return r


# ------------------------------------------------------------ operators


def _arith(op):
    if isinstance(op, ast.Add):
        return lambda x, y: num(x) + num(y)
    if isinstance(op, ast.Sub):
        return lambda x, y: num(x) - num(y)
    if isinstance(op, ast.Mult):
        return lambda x, y: _mul(x, y)
    if isinstance(op, ast.Div):
        return lambda x, y: num(x) / num(y)
    return None


def _mul(x, y):
    # masks: bool * real as a selection, which keeps the arithmetic linear
    if is_z3(x) and x.sort() == BOOL:
        return z3.If(x, num(y), z3.RealVal(0))
    if is_z3(y) and y.sort() == BOOL:
        return z3.If(y, num(x), z3.RealVal(0))
    return num(x) * num(y)


def binop(I, op, a, b):
    note_round(I)
    if a is None or b is None or isinstance(a, (SList, SDict, str)) or isinstance(b, (SList, SDict, str)):
        raise PyRaise(TypeError("unsupported operand type(s) with a tensor"))
    f = _arith(op)
    if f is not None:
        use(I, f"elementwise {type(op).__name__} with broadcasting")
        if isinstance(op, ast.Div):
            ts = [x for x in (a, b) if isinstance(x, STensor)]
            return pointwise(I, f, a, b)
        return pointwise(I, f, a, b)
    if isinstance(op, ast.Pow):
        if isinstance(b, int) and 0 <= b <= 4:
            def pw(x):
                r = num(x)
                for _ in range(b - 1):
                    r = r * num(x)
                return r if b else z3.RealVal(1)
            return pointwise(I, pw, a)
        if b == 0.5:
            return pointwise(I, lambda x: sqrt_term(I, num(x)), a)
    if isinstance(op, ast.BitAnd):
        return pointwise(I, lambda x, y: z3.And(B(x), B(y)), a, b, dtype=torch.bool)
    if isinstance(op, ast.BitOr):
        return pointwise(I, lambda x, y: z3.Or(B(x), B(y)), a, b, dtype=torch.bool)
    if isinstance(op, ast.MatMult):
        return matmul(I, a, b)
    raise Unsupported(f"tensor operator {type(op).__name__}")


def matmul(I, a, b):
    a, b = frozen(a), frozen(b)
    use(I, "matmul")
    if len(a.dims) == 2 and len(b.dims) == 2:
        return STensor([a.dims[0], b.dims[1]],
                       lambda i, j: big_sum(I, a.dims[1], lambda k: num(a.at(i, k)) * num(b.at(k, j))),
                       promote(a.dtype, b.dtype), a.device, a.kind)
    if len(a.dims) == 2 and len(b.dims) == 1:
        return STensor([a.dims[0]],
                       lambda i: big_sum(I, a.dims[1], lambda k: num(a.at(i, k)) * num(b.at(k))),
                       promote(a.dtype, b.dtype), a.device, a.kind)
    if len(a.dims) == 1 and len(b.dims) == 2:
        return STensor([b.dims[1]],
                       lambda j: big_sum(I, a.dims[0], lambda k: num(a.at(k)) * num(b.at(k, j))),
                       promote(a.dtype, b.dtype), a.device, a.kind)
    if len(a.dims) == 1 and len(b.dims) == 1:
        return STensor([], lambda: big_sum(I, a.dims[0], lambda k: num(a.at(k)) * num(b.at(k))),
                       promote(a.dtype, b.dtype), a.device, a.kind)
    raise Unsupported("matmul ranks")


def unary(I, op, a):
    if isinstance(op, ast.USub):
        return pointwise(I, lambda x: -num(x), a)
    if isinstance(op, ast.Invert):
        return pointwise(I, lambda x: z3.Not(B(x)), a)
    return a


def compare(I, op, a, b):
    if a is None or b is None:
        return isinstance(op, ast.NotEq)
    tab = {
        ast.Lt: lambda x, y: num(x) < num(y), ast.LtE: lambda x, y: num(x) <= num(y),
        ast.Gt: lambda x, y: num(x) > num(y), ast.GtE: lambda x, y: num(x) >= num(y),
        ast.Eq: lambda x, y: num(x) == num(y), ast.NotEq: lambda x, y: num(x) != num(y),
    }
    use(I, "elementwise comparison")
    return pointwise(I, tab[type(op)], a, b, dtype=torch.bool)


def inplace(I, op, cur, v):
    use(I, "in-place arithmetic keeps shape and dtype")
    r = binop(I, op, cur, v)
    I.eng.note_mut(cur)
    same = dims_equal(I, cur.dims, r.dims)
    if same is not True and not I.eng.branch(same):
        raise PyRaise(RuntimeError("in-place shape change"))
    write(I, cur, r.at, nd=r.nd if len(r.dims) == len(cur.dims) else None)
    return cur


def write(I, t, at, through_view=False, nd=None):
    I.eng.note_mut(t)
    if getattr(t, "_viewed", False) or getattr(t, "_flat_views", 0) > (1 if through_view else 0):
        raise Unsupported("in-place update of a tensor with views")
    t.at = at
    t.nd = nd
    if hasattr(t, "_sort"):
        del t._sort
    if t.base is not None:
        t.base[1](at)


def truth(I, t):
    if t.dims:
        one = prod(t.dims)
        if not (isinstance(one, int) and one == 1):
            raise Unsupported("truth of a tensor")
        x = t.at(*[0] * len(t.dims))
    else:
        x = t.at()
    if is_z3(x) and x.sort() == BOOL:
        return x
    return I.truth_term(x)


def item(I, t):
    use(I, "item()")
    return t.at(*[0] * len(t.dims))


def iter_tensor(I, t):
    return SList(n=t.dims[0], get=lambda i: select0(t, i)) if not isinstance(t.dims[0], int) else SList(
        items=[select0(t, i) for i in range(t.dims[0])])


def select0(t, i):
    t._viewed = True
    t = frozen(t)
    return t.like(lambda *idx: t.at(i, *idx), t.dims[1:])


# ------------------------------------------------------------ indexing


def getitem(I, t, k):
    from . import lib

    use(I, "indexing (integers, slices, masks, index tensors)")
    ks = k if isinstance(k, tuple) else (k,)
    if len(ks) == 1 and isinstance(ks[0], STensor) and sort_of(ks[0]) == BOOL:
        return select_mask(I, frozen(t), frozen(ks[0]))
    orig, was = t, getattr(t, "_viewed", False)
    t._viewed = True
    t = frozen(t)
    if len(ks) == 1 and isinstance(ks[0], (STensor, SList)):
        ix = ks[0]
        if isinstance(ix, SList):
            ix = from_list(I, ix, torch.int64)
        return STensor(ix.dims + t.dims[1:],
                       lambda *i: t.at(_toint(ix.at(*i[:len(ix.dims)])), *i[len(ix.dims):]),
                       t.dtype, t.device, t.kind)
    if Ellipsis in [x for x in ks if x is Ellipsis]:
        p = [i for i, x in enumerate(ks) if x is Ellipsis][0]
        fill = len(t.dims) - (len(ks) - 1)
        ks = ks[:p] + (slice(None),) * fill + ks[p + 1:]
    maps, dims, d = [], [], 0
    for x in ks:
        if x is None:
            dims.append(1); maps.append(("new",)); continue
        if d >= len(t.dims):
            raise PyRaise(IndexError("too many indices for tensor"))
        if isinstance(x, slice):
            a, b = lib.slice_bounds(I, x, t.dims[d])
            if isinstance(a, int) and isinstance(b, int):
                n = max(b - a, 0)
            elif isinstance(a, int) and a == 0:
                n = b
            else:
                n = z3.simplify(z3.If(Z(b) > Z(a), Z(b) - Z(a), z3.IntVal(0)))
            dims.append(n); maps.append(("sl", a))
        elif is_int(x):
            i = lib.norm_index(I, x, t.dims[d])
            maps.append(("ix", i))
        elif isinstance(x, STensor) and not x.dims:
            maps.append(("ix", _toint(x.at())))
        else:
            raise Unsupported("tensor index")
        d += 1
    rest = t.dims[d:]
    dims += rest

    def at(*idx):
        idx = list(idx)
        out = []
        for m in maps:
            if m[0] == "new":
                idx.pop(0)
            elif m[0] == "sl":
                j = idx.pop(0)
                out.append(j if isinstance(m[1], int) and m[1] == 0 else
                           (j + m[1] if isinstance(j, int) and isinstance(m[1], int) else Z(j) + Z(m[1])))
            else:
                out.append(m[1])
        return t.at(*out, *idx)

    r = STensor(dims, at, t.dtype, t.device, t.kind, contiguous=False)
    r._src = (orig, was)
    return r


# functions whose result never aliases their argument
PURE = {torch.mean, torch.sum, torch.norm, torch.clone, torch.abs, torch.std, torch.var, torch.max, torch.min}


def release_view(v):
    """the view is a temporary that nothing refers to any more"""
    src = getattr(v, "_src", None)
    if src is not None:
        src[0]._viewed = src[1]


def _toint(x):
    if is_z3(x) and x.sort() == REAL:
        return z3.ToInt(x)
    return x


def setitem(I, t, k, v):
    from . import lib

    use(I, "indexed assignment changes exactly the indexed elements")
    old = t.at
    if isinstance(k, STensor) and sort_of(k) == BOOL:
        if isinstance(v, STensor) and getattr(v, "sel", None):
            m, full = v.sel
            if not same_mask(m, k) or dims_equal(I, t.dims, full.dims) is not True or dims_equal(I, t.dims[:len(m.dims)], m.dims) is not True:
                raise Unsupported("masked assignment of a different selection")
            n = len(m.dims)
            nd = None
            if t.nd is not None and full.nd is not None and n < len(t.dims) and dims_equal(I, t.nd.dims, full.nd.dims) is True:
                tn, fn = frozen(t.nd), full.nd
                nd = t.nd.like(lambda *i: z3.If(B(m.at(*i[:n])), num(fn.at(*i)), num(tn.at(*i))))
            write(I, t, lambda *i: z3.If(B(m.at(*i[:n])), num(full.at(*i)), num(old(*i))), nd=nd)
            return
        if not is_num(v):
            raise Unsupported("masked assignment of a tensor")
        if dims_equal(I, t.dims, k.dims) is not True:
            raise Unsupported("mask shape")
        conv = (lambda x: B(x)) if sort_of(t) == BOOL else num
        write(I, t, lambda *i: z3.If(B(k.at(*i)), conv(v), conv(old(*i))))
        return
    if isinstance(k, STensor) and hasattr(k, "index_set"):
        # scatter of a scalar at an injective family of positions
        if not is_num(v):
            raise Unsupported("indexed assignment of a tensor")
        hit = k.index_set
        write(I, t, lambda i, *r: z3.If(hit(i), num(v), num(old(i, *r))))
        return
    ks = k if isinstance(k, tuple) else (k,)
    if all(is_int(x) or isinstance(x, slice) for x in ks):
        conds = []
        vmap = []
        dims = []
        for d, x in enumerate(ks):
            if isinstance(x, slice):
                a, b = lib.slice_bounds(I, x, t.dims[d])
                conds.append(lambda j, a=a, b=b: z3.And(Z(j) >= Z(a), Z(j) < Z(b)))
                vmap.append((d, a))
            else:
                i = lib.norm_index(I, x, t.dims[d])
                conds.append(lambda j, i=i: Z(j) == Z(i))
        for d in range(len(ks), len(t.dims)):
            vmap.append((d, 0))

        def at(*idx):
            c = And(*[f(j) for f, j in zip(conds, idx)])
            if isinstance(v, STensor):
                vi = [Z(idx[d]) - Z(a) for d, a in vmap]
                vi = vi[len(vi) - len(v.dims):]
                vi = [0 if isinstance(dd, int) and dd == 1 else q for dd, q in zip(v.dims, vi)]
                nv = v.at(*vi)
            else:
                nv = v
            return z3.If(c, num(nv), num(old(*idx)))

        write(I, t, at)
        return
    raise Unsupported("tensor item assignment")


# ------------------------------------------------------------ constructors / functions

MODELS = {}


def tm(*fns):
    def deco(f):
        for fn in fns:
            MODELS[id(fn)] = (fn, f)
        return f

    return deco


def from_list(I, l, dtype=None, device=None):
    from . import lib

    q = lib.to_seq(I, l)
    if q.concrete and q.items and isinstance(q.items[0], (SList, tuple)):
        raise Unsupported("nested list tensor")
    get = (lambda k: lib._list_at(I, q, k)) if q.concrete else q.get
    return STensor([q.length()], lambda k: I.eng.merged(lambda: get(k)), dtype if dtype is not None else torch.float32, device)


@tm(torch.tensor, torch.as_tensor)
def t_tensor(I, v, dtype=None, device=None):
    use(I, "torch.tensor")
    if isinstance(v, STensor):
        r = v.like(v.at)
        if dtype is not None:
            r.dtype = dt(dtype)
        return r
    if is_num(v):
        return STensor([], lambda: v, dtype if dtype is not None else (torch.float32 if not is_int(v) else torch.int64), device)
    return from_list(I, v, dtype, device)


@tm(torch.stack)
def t_stack(I, l, dim=0):
    from . import lib

    use(I, "torch.stack")
    if dim != 0:
        raise Unsupported("stack dim")
    q = lib.to_seq(I, l)
    if q.concrete:
        if not q.items:
            raise PyRaise(RuntimeError("stack expects a non-empty list"))
        t0 = q.items[0]
        for t in q.items[1:]:
            if not isinstance(t, STensor):
                raise PyRaise(TypeError("stack"))
            c = dims_equal(I, t0.dims, t.dims)
            if c is not True and not I.eng.branch(B(c)):
                raise PyRaise(RuntimeError("stack expects equal sizes"))
        items = list(q.items)
        ats = [t.at for t in items]

        def at(k, *idx):
            if isinstance(k, int):
                return ats[k](*idx)
            r = ats[-1](*idx)
            for j in range(len(ats) - 2, -1, -1):
                r = z3.If(Z(k) == j, num(ats[j](*idx)), num(r))
            return r

        d = items[0].dtype
        for t in items[1:]:
            d = promote(d, t.dtype)
        return STensor([len(items)] + t0.dims, at, d, t0.device)
    n = Z(q.n)
    if not I.eng.branch(n > 0):
        raise PyRaise(RuntimeError("stack expects a non-empty list"))
    t0 = q.get(z3.IntVal(0))
    i = I.eng.fresh_bound("i", INT)
    same = I.eng.generic(lambda: B(dims_equal(I, q.get(i).dims, t0.dims)), [i], [i >= 0, i < n])
    if not z3.is_true(z3.simplify(same)):
        if not I.eng.branch(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), same))):
            raise PyRaise(RuntimeError("stack expects equal sizes"))
    samedt = I.eng.generic(lambda: q.get(i).dtype == t0.dtype, [i], [i >= 0, i < n])
    if z3.is_true(z3.simplify(samedt)):
        d = t0.dtype
    else:
        if I.eng.branch(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), samedt))):
            d = t0.dtype
        else:
            d = I.eng.fresh("stackdt", DType)
    return STensor([n] + t0.dims, lambda k, *idx: q.get(k).at(*idx), d, t0.device)


@tm(torch.cat)
def t_cat(I, l, dim=0):
    from . import lib

    use(I, "torch.cat")
    q = lib.to_seq(I, l)
    if not q.concrete:
        raise Unsupported("cat of an unbounded list")
    ts = list(q.items)
    if not all(isinstance(t, STensor) for t in ts):
        raise Unsupported("cat element")
    dim = norm_dim(ts[0], dim)
    for t in ts[1:]:
        for d in range(len(ts[0].dims)):
            if d != dim:
                c = dims_equal(I, [ts[0].dims[d]], [t.dims[d]])
                if c is not True and not I.eng.branch(B(c)):
                    raise PyRaise(RuntimeError("cat sizes"))
    offs = [0]
    for t in ts:
        offs.append(offs[-1] + t.dims[dim] if isinstance(offs[-1], int) and isinstance(t.dims[dim], int)
                    else z3.simplify(Z(offs[-1]) + Z(t.dims[dim])))
    dims = list(ts[0].dims)
    dims[dim] = offs[-1]

    def at(*idx):
        r = None
        for j in range(len(ts) - 1, -1, -1):
            ii = list(idx)
            ii[dim] = Z(idx[dim]) - Z(offs[j])
            v = num(ts[j].at(*ii))
            r = v if r is None else z3.If(Z(idx[dim]) < Z(offs[j + 1]), v, r)
        return r

    d = ts[0].dtype
    for t in ts[1:]:
        d = promote(d, t.dtype)
    return STensor(dims, at, d, ts[0].device)


@tm(torch.zeros_like, np.zeros_like)
def t_zeros_like(I, t=None, dtype=None, input=None, **k):
    t = t if t is not None else input
    return t.like(lambda *i: z3.RealVal(0), dtype=dtype if dtype is None else dt(dtype))


@tm(torch.ones_like)
def t_ones_like(I, t=None, dtype=None, input=None, **k):
    t = t if t is not None else input
    return t.like(lambda *i: z3.RealVal(1), dtype=dtype if dtype is None else dt(dtype))


@tm(torch.full_like)
def t_full_like(I, input=None, fill_value=None, dtype=None, **k):
    return input.like(lambda *i: num(fill_value), dtype=dtype if dtype is None else dt(dtype))


def _dims_args(I, a):
    from . import lib

    if len(a) == 1 and not is_int(a[0]):
        x = a[0]
        if isinstance(x, SShape):
            return list(x.dims)
        q = lib.to_seq(I, x)
        if not q.concrete:
            raise Unsupported("shape")
        return list(q.items)
    return list(a)


@tm(torch.zeros, torch.empty)
def t_zeros(I, *a, dtype=None, device=None, **k):
    use(I, "torch.zeros / torch.empty")
    if "size" in k:
        a = (k.pop("size"),)
    return STensor(_dims_args(I, a), lambda *i: z3.RealVal(0), dtype if dtype is not None else torch.float32, device)


@tm(torch.ones)
def t_ones(I, *a, dtype=None, device=None, **k):
    return STensor(_dims_args(I, a), lambda *i: z3.RealVal(1), dtype if dtype is not None else torch.float32, device)


@tm(torch.full)
def t_full(I, size, fill_value, dtype=None, device=None, **k):
    return STensor(_dims_args(I, (size,)), lambda *i: num(fill_value), dtype if dtype is not None else torch.float32, device)


@tm(torch.where)
def t_where(I, c, a, b):
    use(I, "torch.where")
    r = pointwise(I, lambda x, y: (x, y), a, b) if isinstance(a, STensor) or isinstance(b, STensor) else None
    if r is None:
        return pointwise(I, lambda x: z3.If(B(x), num(a), num(b)), c)
    dims, fc, fr = broadcast(I, c, r)
    return STensor(dims, lambda *i: z3.If(B(fc(*i)), num(fr(*i)[0]), num(fr(*i)[1])), r.dtype, r.device)


_UF = {}


def uf(name, arity=1):
    if name not in _UF:
        _UF[name] = z3.Function(f"{name}_", *[REAL] * arity, REAL)
    return _UF[name]


def _ufn(name):
    def f(I, v, *a, **k):
        use(I, f"{name}: a function of its argument (uninterpreted)")
        if isinstance(v, STensor):
            return pointwise(I, lambda x: uf(name)(num(x)), v)
        if is_z3(v):
            return uf(name)(num(v))
        if isinstance(v, (int, float)):
            return getattr(np, {"acos": "arccos"}.get(name, name))(v)
        raise Unsupported(name)

    return f


for _n, _fs in {
    "sin": (torch.sin, np.sin), "cos": (torch.cos, np.cos), "acos": (torch.acos, torch.arccos, np.arccos),
    "exp": (torch.exp, np.exp), "log": (torch.log, np.log), "tanh": (torch.tanh, np.tanh),
}.items():
    tm(*_fs)(_ufn(_n))


@tm(torch.atan2)
def t_atan2(I, a, b):
    use(I, "atan2: a function of its arguments (uninterpreted)")
    return pointwise(I, lambda x, y: uf("atan2", 2)(num(x), num(y)), a, b)


def _delegate(name):
    def f(I, t, *a, **k):
        if not isinstance(t, STensor):
            if is_z3(t) and name == "abs":
                return z3.If(t < 0, -t, t)
            if is_z3(t) and name == "sqrt":
                return sqrt_term(I, R(t))
            raise Unsupported(f"torch.{name} of {type(t).__name__}")
        return method(I, t, name, *a, **k)

    return f


for _n in ("abs", "sum", "mean", "sqrt", "sign", "clamp", "norm", "argsort", "sort", "max", "min", "clone",
           "var", "flatten", "reshape", "unsqueeze", "squeeze", "any", "all", "logical_not"):
    if hasattr(torch, _n):
        tm(getattr(torch, _n))(_delegate(_n))
tm(np.sum)(_delegate("sum"))
tm(np.abs)(_delegate("abs"))
tm(np.copy)(_delegate("clone"))
tm(np.linalg.norm)(_delegate("norm"))
tm(torch.linalg.norm)(_delegate("norm"))
tm(torch.linalg.vector_norm)(_delegate("norm"))


@tm(torch.from_numpy)
def t_from_numpy(I, t):
    use(I, "from_numpy keeps values")
    if not isinstance(t, STensor):
        raise Unsupported("from_numpy")
    r = t.like(t.at)
    r.kind = "torch"
    return r


@tm(torch.is_tensor)
def t_is_tensor(I, v):
    return isinstance(v, STensor)


def sum_tensors(I, q, start=0):
    t0 = q.get(z3.IntVal(0))
    n = Z(q.n)
    i = I.eng.fresh_bound("i", INT)
    same = I.eng.generic(lambda: B(dims_equal(I, q.get(i).dims, t0.dims)), [i], [i >= 0, i < n])
    if not z3.is_true(z3.simplify(same)):
        raise Unsupported("sum of tensors of different shapes")
    r = STensor(t0.dims, lambda *idx: big_sum(I, n, lambda k: num(q.get(k).at(*idx))), t0.dtype, t0.device)
    return r if (isinstance(start, int) and start == 0) else binop(I, ast.Add(), r, start)


# ------------------------------------------------------------ methods


def getattr_(I, t, name):
    from .interp import ModelFn

    if name == "shape":
        return SShape(t.dims)
    if name == "dtype":
        return dt_native(t.dtype)
    if name == "device":
        return t.device
    if name == "T":
        return transpose(t, 0, 1) if len(t.dims) == 2 else t
    if name == "ndim":
        return len(t.dims)
    if name == "values" or name == "indices":
        if hasattr(t, "pair"):
            return t.pair[name]
    return ModelFn(lambda I2, *a, **k: method(I2, t, name, *a, **k), name)


def setattr_(I, t, name, v):
    raise Unsupported(f"tensor.{name} =")


def transpose(t, a, b):
    t._viewed = True
    t = frozen(t)
    a, b = norm_dim(t, a), norm_dim(t, b)
    dims = list(t.dims)
    dims[a], dims[b] = dims[b], dims[a]

    def at(*i):
        i = list(i)
        i[a], i[b] = i[b], i[a]
        return t.at(*i)

    return t.like(at, dims)


def cast(I, t, dtype):
    use(I, "dtype conversion keeps (real) values")
    d = dt(dtype)
    if sort_of(t) == BOOL:
        nd = dt_native(d)
        if nd is not torch.bool:
            return _keep_flat(I, t, lambda u: u.like(lambda *i: z3.If(B(u.at(*i)), z3.RealVal(1), z3.RealVal(0)), dtype=d))
    elif dt_native(d) is torch.bool:
        return _keep_flat(I, t, lambda u: u.like(lambda *i: num(u.at(*i)) != 0, dtype=d))
    return _keep_flat(I, t, lambda u: u.like(u.at, dtype=d))


def _keep_flat(I, t, f):
    if t.nd is not None:
        return flatten(I, f(t.nd), len(t.dims) - 1)
    return f(t)


def method(I, t, name, *a, **k):
    use(I, f"Tensor.{name}")
    eng = I.eng
    if name in ("detach", "contiguous", "requires_grad_", "pin_memory"):
        if name == "contiguous":
            r = t.like(t.at)
            r.nd = t.nd
            return r
        return t
    if name in ("clone", "copy"):
        r = t.like(t.at)
        r.nd = t.nd
        return r
    if name in ("cpu", "cuda"):
        r = t.like(t.at)
        r.nd = t.nd
        r.device = dev(name)
        return r
    if name == "numpy":
        r = t.like(t.at)
        r.kind = "numpy"
        return r
    if name in ("float", "double", "half", "bool", "long", "int", "bfloat16"):
        return cast(I, t, {"float": torch.float32, "double": torch.float64, "half": torch.float16,
                           "bool": torch.bool, "long": torch.int64, "int": torch.int32,
                           "bfloat16": torch.bfloat16}[name])
    if name in ("to", "type"):
        d = k.get("dtype")
        dv = k.get("device")
        for x in a:
            if isinstance(x, torch.dtype) or (is_z3(x) and x.sort() == DType):
                d = x
            elif isinstance(x, STensor):
                d, dv = x.dtype, x.device
            elif x is None or isinstance(x, (str, torch.device)) or (is_z3(x) and x.sort() == Device):
                dv = x if x is not None else dv
            else:
                raise Unsupported("Tensor.to")
        r = cast(I, t, d) if d is not None else _keep_flat(I, t, lambda u: u.like(u.at))
        if dv is not None:
            r.device = dev(dv)
        return r
    if name in ("abs", "absolute"):
        note_round(I)
        return pointwise(I, lambda x: z3.If(num(x) < 0, -num(x), num(x)), t)
    if name == "sign":
        return pointwise(I, lambda x: z3.If(num(x) > 0, z3.RealVal(1), z3.If(num(x) < 0, z3.RealVal(-1), z3.RealVal(0))), t)
    if name == "sqrt":
        return pointwise(I, lambda x: sqrt_term(I, num(x)), t)
    if name in ("square",):
        return pointwise(I, lambda x: num(x) * num(x), t)
    if name == "pow":
        return binop(I, ast.Pow(), t, a[0])
    if name in ("add", "sub", "mul", "div"):
        return binop(I, {"add": ast.Add(), "sub": ast.Sub(), "mul": ast.Mult(), "div": ast.Div()}[name], t, a[0])
    if name in ("add_", "sub_", "mul_", "div_"):
        return inplace(I, {"add_": ast.Add(), "sub_": ast.Sub(), "mul_": ast.Mult(), "div_": ast.Div()}[name], t, a[0])
    if name in ("eq", "ne", "lt", "le", "gt", "ge"):
        return compare(I, {"eq": ast.Eq(), "ne": ast.NotEq(), "lt": ast.Lt(), "le": ast.LtE(), "gt": ast.Gt(),
                           "ge": ast.GtE()}[name], t, a[0])
    if name in ("clamp", "clip"):
        lo = a[0] if len(a) > 0 else k.get("min")
        hi = a[1] if len(a) > 1 else k.get("max")

        def f(x):
            x = num(x)
            if lo is not None:
                x = z3.If(x < num(lo), num(lo), x)
            if hi is not None:
                x = z3.If(x > num(hi), num(hi), x)
            return x

        return pointwise(I, f, t)
    if name in ("sum", "mean"):
        note_round(I)
        dim = a[0] if a else k.get("dim", k.get("axis"))
        keep = k.get("keepdim", k.get("keepdims", False))
        if dim is None:
            s = reduce_full(I, t)
            if name == "mean":
                s = s / num(prod(t.dims))
            r = STensor([], lambda: s, t.dtype, t.device, t.kind)
        else:
            if isinstance(dim, SList):
                dim = tuple(dim.items)
            if not t.dims:
                return t
            r = reduce_dim(I, t, dim, keep, "sum")
            if name == "mean":
                ds = (dim,) if isinstance(dim, int) else dim
                cnt = prod([t.dims[norm_dim(t, d)] for d in ds])
                r2 = r
                r = r2.like(lambda *i: r2.at(*i) / num(cnt))
        if sort_of(t) == BOOL:
            r.dtype = dt(torch.int64)
        if k.get("dtype") is not None:
            r.dtype = dt(k["dtype"])
        return r
    if name == "norm":
        note_round(I)
        p = a[0] if a else k.get("p", k.get("ord", 2))
        dim = a[1] if len(a) > 1 else k.get("dim")
        if p not in (2, 2.0, None, "fro"):
            raise Unsupported("norm order")
        sq = pointwise(I, lambda x: num(x) * num(x), t)
        if dim is None:
            s = sqrt_term(I, reduce_full(I, sq))
            return STensor([], lambda: s, t.dtype, t.device, t.kind)
        if isinstance(dim, SList):
            dim = tuple(dim.items)
        r = reduce_dim(I, sq, dim, k.get("keepdim", False), "sum")
        return r.like(lambda *i: sqrt_term(I, r.at(*i)))
    if name in ("max", "min"):
        dim = a[0] if a else k.get("dim")
        if dim is None:
            s = reduce_full(I, t, name)
            return STensor([], lambda: s, t.dtype, t.device, t.kind)
        r = reduce_dim(I, t, dim, k.get("keepdim", False), name)
        r.pair = {"values": r}
        return r
    if name in ("numel", "nelement"):
        return prod(t.dims)
    if name in ("dim", "ndimension"):
        return len(t.dims)
    if name == "size":
        return SShape(t.dims) if not a else t.dims[norm_dim(t, a[0])]
    if name == "element_size":
        f = z3.Function("element_size", DType, INT)
        I.eng.assume(f(t.dtype) > 0)
        return f(t.dtype)
    if name == "is_contiguous":
        return I.eng.fresh("contig", BOOL)
    if name in ("view", "reshape"):
        dims = _dims_args(I, a)
        if len(dims) == 1 and isinstance(dims[0], int) and dims[0] == -1:
            r = flatten(I, t)
            if r is t:
                return t
            if name == "view":
                r.base = (t, lambda at: flat_write(I, t, at))
            return r
        if t.nd is not None and dims_equal(I, t.nd.dims, dims) is True:
            return t.nd
        if dims_equal(I, t.dims, dims) is True:
            return t
        if t.nd is not None:
            return method(I, t.nd, name, SShape(dims))
        if isinstance(dims[-1], int) and dims[-1] == -1 and len(dims) <= len(t.dims) and dims_equal(I, t.dims[:len(dims) - 1], dims[:-1]) is True:
            return flatten(I, t, len(dims) - 1)
        one = lambda d: isinstance(d, int) and d == 1
        unk = [j for j, d in enumerate(dims) if isinstance(d, int) and d == -1]
        if len(unk) == 1 and all(one(d) for j, d in enumerate(dims) if j not in unk):
            rest = [d for d in t.dims if not one(d)]
            if len(rest) <= 1:
                dims = [d if j not in unk else (rest[0] if rest else 1) for j, d in enumerate(dims)]
        if -1 not in [d for d in dims if isinstance(d, int)]:
            src, dst = [d for d in t.dims if not one(d)], [d for d in dims if not one(d)]
            if len(src) == len(dst) and (not src or dims_equal(I, src, dst) is True):
                t._viewed = True
                t0 = frozen(t)

                def at(*i):
                    vals = [x for x, d in zip(i, dims) if not one(d)]
                    out = []
                    for d in t0.dims:
                        out.append(0 if one(d) else vals.pop(0))
                    return t0.at(*out)

                return t.like(at, list(dims))
        raise Unsupported(f"reshape of {t.dims} nd {t.nd and t.nd.dims} to {dims}")
    if name == "view_as" or name == "reshape_as":
        return method(I, t, "view", SShape(a[0].dims))
    if name in ("flatten", "ravel"):
        return flatten(I, t)
    if name == "unsqueeze" or name == "unsqueeze_":
        d = a[0] if a else k["dim"]
        d = d + len(t.dims) + 1 if d < 0 else d
        old = t.at
        at = lambda *i: old(*(i[:d] + i[d + 1:]))
        dims = t.dims[:d] + [1] + t.dims[d:]
        if name == "unsqueeze":
            return t.like(at, dims)
        I.eng.note_mut(t)
        t.dims, t.at, t.nd = dims, at, None
        return t
    if name == "squeeze":
        if not a:
            raise Unsupported("squeeze of unknown dims")
        d = norm_dim(t, a[0])
        if not (isinstance(t.dims[d], int) and t.dims[d] == 1):
            if isinstance(t.dims[d], int):
                return t
            raise Unsupported("squeeze of a symbolic dimension")
        return t.like(lambda *i: t.at(*(i[:d] + (0,) + i[d:])), t.dims[:d] + t.dims[d + 1:])
    if name in ("t", "transpose"):
        return transpose(t, *(a or (0, 1)))
    if name == "permute":
        ps = list(a[0].items if isinstance(a[0], SList) else a[0]) if len(a) == 1 and not isinstance(a[0], int) else list(a)
        if not all(isinstance(p, int) for p in ps) or len(ps) != len(t.dims):
            raise Unsupported("permute arguments")
        ps = [norm_dim(t, p) for p in ps]
        if sorted(ps) != list(range(len(ps))):
            raise PyRaise(RuntimeError("permute: repeated dim"))
        t._viewed = True
        t = frozen(t)
        old = t.at
        return t.like(lambda *i: old(*[i[ps.index(d)] for d in range(len(ps))]), [t.dims[p] for p in ps])
    if name == "item":
        return item(I, t)
    if name in ("any", "all"):
        if a or k:
            raise Unsupported("any/all with dim")
        vs = [eng.fresh_bound("x", INT) for _ in t.dims]
        rng = And(*[z3.And(v >= 0, v < Z(d)) for v, d in zip(vs, t.dims)])
        b = eng.generic(lambda: B(t.at(*vs)) if sort_of(t) == BOOL else num(t.at(*vs)) != 0, vs, [rng])
        q = b if not vs else (z3.Exists(vs, z3.And(rng, b)) if name == "any" else z3.ForAll(vs, z3.Implies(rng, b)))
        return STensor([], lambda: q, torch.bool, t.device)
    if name == "logical_not":
        return unary(I, ast.Invert(), t)
    if name in ("argsort", "sort"):
        return sort_model(I, t, name, *a, **k)
    if name == "expand":
        raise Unsupported("expand")
    if name == "dot":
        return matmul(I, t, a[0])
    if name in ("zero_", "fill_"):
        v = 0 if name == "zero_" else a[0]
        write(I, t, lambda *i: num(v))
        return t
    if name in ("masked_fill_", "masked_fill"):
        m, v = a
        r = pointwise(I, lambda x, y: z3.If(B(y), num(v), num(x)), t, m)
        if name == "masked_fill":
            return r
        write(I, t, r.at)
        return t
    if name in ("zeros_like",):
        return t_zeros_like(I, t)
    if name == "new_zeros":
        return t_zeros(I, *a, dtype=t.dtype, device=t.device)
    raise Unsupported(f"Tensor.{name}")


def flat_write(I, t, at):
    """write through a flat view: element i of the base is element flat(i)"""
    nd = len(t.dims)
    ds = [Z(d) for d in t.dims]
    flat = z3.Function(f"flat{nd}", *[INT] * nd, *[INT] * nd, INT)
    fs = [z3.Function(f"unflat{nd}_{i}", INT, *[INT] * nd, INT) for i in range(nd)]
    eng = I.eng
    I.eng.assumptions.add("row-major flattening is a bijection between index tuples and [0, numel)")
    vs = [eng.fresh_bound("u", INT) for _ in range(nd)]
    rng = And(*[z3.And(v >= 0, v < d) for v, d in zip(vs, ds)])
    fk = flat(*vs, *ds)
    eng.assume(z3.ForAll(vs, z3.Implies(rng, And(
        fk >= 0, fk < Z(prod(t.dims)), *[f(fk, *ds) == v for f, v in zip(fs, vs)])), patterns=[fk]))
    k = eng.fresh_bound("k", INT)
    us = [f(k, *ds) for f in fs]
    eng.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Z(prod(t.dims))), And(
        flat(*us, *ds) == k, *[z3.And(u >= 0, u < d) for u, d in zip(us, ds)])), patterns=[us[0]]))
    t.flat = lambda *i: flat(*[Z(x) for x in i], *ds)
    write(I, t, lambda *i: at(flat(*[Z(x) for x in i], *ds)), through_view=True)


def sort_model(I, t, name, *a, **k):
    """argsort/sort of a 1-d tensor: a permutation ordering the values"""
    dim = k.get("dim", a[0] if a else -1)
    desc = k.get("descending", False)
    if len(t.dims) == 2 and norm_dim(t, dim) == 1 and name == "argsort":
        return argsort_rows(I, t, desc)
    if len(t.dims) != 1:
        raise Unsupported("sort of a multi-dimensional tensor")
    eng = I.eng
    t = frozen(t)
    n = Z(t.dims[0])
    p = eng.fresh("perm", z3.ArraySort(INT, INT))
    q = eng.fresh("rank", z3.ArraySort(INT, INT))
    i = eng.fresh_bound("i", INT)
    for f, g in ((p, q), (q, p)):
        fi = z3.Select(f, i)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
            fi >= 0, fi < n, z3.Select(g, fi) == i)), patterns=[fi]))
    j = eng.fresh_bound("j", INT)
    x, y = num(t.at(z3.Select(p, i))), num(t.at(z3.Select(p, j)))
    eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), x >= y if desc else x <= y),
                         patterns=[z3.MultiPattern(z3.Select(p, i), z3.Select(p, j))]))
    ix = PermTensor([t.dims[0]], lambda k_: z3.Select(p, Z(k_)), torch.int64, t.device)
    ix.perm, ix.rank, ix.n = p, q, n
    ix.lo, ix.hi = z3.IntVal(0), n
    eng.last_sort = (p, q, n, t, desc)
    if name == "argsort":
        return ix
    vals = t.like(lambda k_: t.at(z3.Select(p, Z(k_))))
    r = t.like(vals.at)
    r.pair = {"values": vals, "indices": ix}
    return r


def argsort_rows(I, t, desc):
    """argsort along the last of two dimensions: one permutation per row"""
    eng = I.eng
    if getattr(t, "row_perm", None) is not None and not desc:
        # sorting a permutation: its inverse
        p, q = t.row_perm
        r = t.like(lambda a, b: q(Z(a), Z(b)), dtype=dt(torch.int64))
        r.row_perm = (q, p)
        return r
    t = frozen(t)
    c = next(eng.counter)
    p, q = z3.Function(f"rperm!{c}", INT, INT, INT), z3.Function(f"rrank!{c}", INT, INT, INT)
    n = Z(t.dims[1])
    r_, i, j = (eng.fresh_bound(x, INT) for x in "rij")
    rows = z3.And(r_ >= 0, r_ < Z(t.dims[0]))
    for f, g in ((p, q), (q, p)):
        eng.assume(z3.ForAll([r_, i], z3.Implies(z3.And(rows, i >= 0, i < n), z3.And(
            f(r_, i) >= 0, f(r_, i) < n, g(r_, f(r_, i)) == i)), patterns=[f(r_, i)]))
    x, y = num(t.at(r_, i)), num(t.at(r_, j))
    lt = q(r_, i) <= q(r_, j)
    eng.assume(z3.ForAll([r_, i, j], z3.Implies(z3.And(rows, 0 <= i, i < n, 0 <= j, j < n, lt), x >= y if desc else x <= y),
                         patterns=[z3.MultiPattern(q(r_, i), q(r_, j))]))
    ix = t.like(lambda a, b: p(Z(a), Z(b)), dtype=dt(torch.int64))
    ix.row_perm = (p, q)
    eng.last_row_sort = (p, q, t, desc)
    return ix


class PermTensor(STensor):
    """indices[lo:hi] of a sort: the set of positions with rank in [lo, hi)"""

    def index_set(self, j):
        rk = z3.Select(self.rank, Z(j))
        return z3.And(rk >= self.lo, rk < self.hi)


_getitem0 = getitem


def getitem(I, t, k):  # noqa: F811
    if isinstance(t, PermTensor) and isinstance(k, slice):
        from . import lib

        a, b = lib.slice_bounds(I, k, z3.simplify(t.hi - t.lo))
        r = PermTensor([z3.simplify(z3.If(Z(b) > Z(a), Z(b) - Z(a), z3.IntVal(0)))],
                       lambda q: t.at(Z(q) + Z(a)), t.dtype, t.device)
        r.perm, r.rank, r.n = t.perm, t.rank, t.n
        r.lo, r.hi = t.lo + Z(a), t.lo + Z(b)
        return r
    return _getitem0(I, t, k)


@tm(torch.bernoulli)
def t_bernoulli(I, p):
    use(I, "torch.bernoulli yields 0/1 (1 only if p>0, 0 only if p<1)")
    f = z3.Function(f"bern!{next(I.eng.counter)}", *[INT] * len(p.dims), BOOL)
    p = frozen(p)
    I.bern_log.append((p, f))

    def at(*i):
        b = f(*[Z(x) for x in i])
        I.eng.assume(z3.And(z3.Implies(b, num(p.at(*i)) > 0), z3.Implies(z3.Not(b), num(p.at(*i)) < 1)))
        return z3.If(b, z3.RealVal(1), z3.RealVal(0))

    return p.like(at)


def sym_tensor(eng, name, dims, dtype=torch.float32, device="cpu", kind="torch"):
    """an arbitrary tensor with the given dimensions"""
    f = z3.Function(name, *[INT] * len(dims), REAL) if dims else None
    c = z3.Const(name, REAL) if not dims else None
    return STensor(dims, (lambda *i: f(*[Z(x) for x in i])) if dims else (lambda: c), dtype, device, kind)
