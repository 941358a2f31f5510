"""Symbolic interpreter for the Python subset (works on /repo's ASTs)."""

import ast
import dataclasses
import builtins
import enum
import functools
import inspect
import logging
import sys
import types

import z3

from .core import (
    Choice, force,
    And, B, Engine, Implies, Not, Opaque, Or, PathEnd, PyRaise, R, S, SDict, SList,
    SObj, SSet, SUM, T, TBool, TInt, TReal, TStr, Unsupported, Z, is_int, is_num,
    is_z3, ite, opaque_of,
)

REPO = "/repo"


class Undef:
    def __repr__(self):
        return "<undefined>"


UNDEF = Undef()


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class FuncVal:
    """A function of the interpreted program (closure)."""

    def __init__(self, node, env, globs, qualname, defaults=(), kwdefaults=None, is_gen=None):
        self.node, self.env, self.globs, self.qualname = node, env, globs, qualname
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.is_gen = is_gen


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class ModelFn:
    """A modelled callable: fn(interp, *args, **kw)"""

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name


class Env:
    def __init__(self, parent, globs):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.yields = None

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is UNDEF:
                    raise Unsupported(f"local {name} is read after the loop contract forgot it")
                return v
            e = e.parent
        if name in self.globs:
            return self.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))


# ------------------------------------------------------------ source access

_asts = {}


def module_ast(path):
    if path not in _asts:
        with open(path) as f:
            _asts[path] = ast.parse(f.read(), path)
    return _asts[path]


def find_node(tree, qualname):
    node = tree
    for part in qualname.split("."):
        if part == "<locals>":
            raise Unsupported(f"local function {qualname}")
        for c in node.body:
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == part:
                nxt = c  # last definition wins
                node_found = nxt
                break
        else:
            node_found = None
        if node_found is None:
            raise Unsupported(f"{qualname} not found in the source")
        node = node_found
    return node


def func_ast(fn):
    fn = inspect.unwrap(fn)
    mod = sys.modules.get(fn.__module__)
    if mod is None or not getattr(mod, "__file__", None):
        raise Unsupported(f"no source for {fn}")
    return find_node(module_ast(mod.__file__), fn.__qualname__), mod


def is_repo_fn(fn):
    return (
        isinstance(fn, types.FunctionType)
        and (fn.__module__ or "").split(".")[0] == "mergekit"
    )


def is_repo_cls(c):
    return isinstance(c, type) and (c.__module__ or "").split(".")[0] == "mergekit"


def stored_names(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    for n in nodes:
        V().visit(n)
    return out


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def loop_ordinals(fnode):
    """loops of a function in source order -> ordinal"""
    out = {}

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out[id(c)] = len(out)
            go(c)

    go(fnode)
    return out


class LoopSpec:
    """Loop contract: what the loop may change, and what stays true.

    modifies: {local or dotted path: type/havoc function}
    inv: fn(ctx) -> iterable of (label, term)
    """

    def __init__(self, inv, modifies=None, name=""):
        self.inv, self.modifies, self.name = inv, modifies or {}, name


class LoopCtx:
    def __init__(self, interp, env, i, seq, old):
        self.I, self.eng, self.env, self.i, self.seq, self.old = interp, interp.eng, env, i, seq, old

    def __getitem__(self, name):
        return self.I.lookup_path(self.env, name)

    @property
    def n(self):
        return self.seq.length()

    def item(self, j):
        return self.seq.get(j)


class Snapshot:
    """values of mutable containers at a moment (for old(...))"""

    @staticmethod
    def of(v):
        if isinstance(v, SList):
            r = SList(items=list(v.items) if v.concrete else None, n=v.n, get=v._get, t=v.t, arr=v.arr)
            r.mem, r.wit = v.mem, v.wit
            return r
        if isinstance(v, SDict):
            r = SDict(pairs=list(v.pairs) if v.concrete else None, kt=v.kt, vt=v.vt,
                      dom=v.dom, val=v.val, order=v.order, get=v._get, has=v._has)
            r.factory, r.touched = v.factory, v.touched
            return r
        if isinstance(v, SSet):
            return SSet(items=list(v.items) if v.concrete else None, t=v.t, dom=v.dom)
        return v


class HList:
    def __init__(self, t):
        self.t = t


class HSet:
    def __init__(self, t):
        self.t = t


class HDict:
    def __init__(self, kt, vt):
        self.kt, self.vt = kt, vt


def read_outside(fnode, loop):
    """is a variable of the loop's target read elsewhere in the function?"""
    names = stored_names([loop.target])
    inside = {id(x) for x in ast.walk(loop)}
    return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and id(x) not in inside for x in ast.walk(fnode))


class Interp:
    def __init__(self, eng, contracts=None, loops=None, models=None):
        self.eng = eng
        self.contracts = contracts or {}  # "mod:qual" -> fn(I, *args, **kw)
        self.loops = loops or {}  # (qualname, ordinal) -> LoopSpec
        self.models = models or {}
        self.depth = 0
        self.frames = []
        self.root = None
        self.bern_log = []  # ghost: probability tensors sampled from
        self.dict_log = []  # ghost: dict comprehensions met, in order

    # ------------------------------------------------------------ functions
    def call(self, fn, args=(), kwargs=None):
        kwargs = kwargs or {}
        eng = self.eng
        if isinstance(fn, ModelFn):
            return fn.fn(self, *args, **kwargs)
        if isinstance(fn, Bound):
            return self.call(fn.fn, (fn.self_,) + tuple(args), kwargs)
        if isinstance(fn, FuncVal):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, functools.partial):
            return self.call(fn.func, tuple(fn.args) + tuple(args), {**fn.keywords, **kwargs})
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, (fn.__self__,) + tuple(args), kwargs)
        from . import lib

        m = lib.find_model(fn, self.models)
        if m is not None:
            return m(self, *args, **kwargs)
        if is_repo_fn(fn):
            fn_u = inspect.unwrap(fn)
            key = f"{fn_u.__module__}:{fn_u.__qualname__}"
            if key in self.contracts and not (self.root == key and self.depth == 0):
                eng.called_contracts.add(key)
                return self.contracts[key](self, *args, **kwargs)
            node, mod = func_ast(fn)
            eng.inlined.add(key)
            dfl = fn_u.__defaults__ or ()
            return self.call_func(
                FuncVal(node, None, mod.__dict__, fn_u.__qualname__, dfl, fn_u.__kwdefaults__),
                args, kwargs,
            )
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, SObj):
            return self.call(self.getattr(fn, "__call__"), args, kwargs)
        return lib.native_call(self, fn, args, kwargs)

    def instantiate(self, cls, args, kwargs):
        from . import lib

        if issubclass(cls, BaseException):
            return self.make_exc(cls, args)
        if issubclass(cls, enum.Enum):
            return lib.native_call(self, cls, args, kwargs)
        if not is_repo_cls(cls):
            return lib.native_call(self, cls, args, kwargs)
        o = SObj(cls)
        if hasattr(cls, "model_fields") and "__init__" not in _own_dict(cls):
            self.eng.assumptions.add(
                "pydantic models: construction stores the given fields and defaults; validation and coercion are not modelled"
            )
            for name, f in cls.model_fields.items():
                if name in kwargs:
                    o.fields[name] = kwargs.pop(name)
                elif f.is_required():
                    raise PyRaise(TypeError(f"{cls.__name__}: missing field {name}"))
                else:
                    o.fields[name] = self.lift(f.get_default(call_default_factory=True))
            return o
        init = inspect.getattr_static(cls, "__init__")
        if dataclasses.is_dataclass(cls) and getattr(init, "__code__", None) is not None and init.__code__.co_filename == "<string>":
            try:
                b = inspect.signature(init).bind(o, *args, **kwargs).arguments
            except TypeError as e:
                raise PyRaise(e)
            for f in dataclasses.fields(cls):
                if f.name in b:
                    o.fields[f.name] = b[f.name]
                elif f.default is not dataclasses.MISSING:
                    o.fields[f.name] = self.lift(f.default)
                elif f.default_factory is not dataclasses.MISSING:
                    o.fields[f.name] = self.lift(f.default_factory())
            post = inspect.getattr_static(cls, "__post_init__", None)
            if isinstance(post, types.FunctionType):
                self.call(post, (o,))
            return o
        if isinstance(init, types.FunctionType):
            self.call(init, (o,) + tuple(args), kwargs)
            return o
        if args or kwargs:
            raise Unsupported(f"constructor of {cls.__name__}")
        return o

    def make_exc(self, cls, args):
        try:
            e = cls(*[a if isinstance(a, (str, int, float)) else repr(a)[:200] for a in args])
        except Exception:
            e = cls.__new__(cls)
        e.sym_args = tuple(args)
        return e

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        ndef = len(f.defaults)
        for i, name in enumerate(pos):
            if i < len(args):
                env[name] = args[i]
            elif name in kwargs:
                env[name] = kwargs.pop(name)
            elif i >= len(pos) - ndef:
                env[name] = self.lift(f.defaults[i - (len(pos) - ndef)])
            else:
                raise PyRaise(TypeError(f"{f.qualname}() missing argument {name}"))
        rest = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyRaise(TypeError(f"{f.qualname}() takes too many arguments"))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = self.lift(f.kwdefaults[x.arg])
            else:
                raise PyRaise(TypeError(f"{f.qualname}() missing keyword {x.arg}"))
        if a.kwarg:
            if "**sym" in kwargs:
                env[a.kwarg.arg] = kwargs.pop("**sym")
            else:
                env[a.kwarg.arg] = SDict(pairs=[(k, v) for k, v in kwargs.items()])
        elif kwargs:
            raise PyRaise(TypeError(f"{f.qualname}() unexpected keyword {list(kwargs)[0]}"))
        return env

    def call_func(self, f, args, kwargs):
        if self.depth > 60:
            raise Unsupported("call depth")
        env = Env(f.env, f.globs)
        env.vars.update(self.bind_args(f, args, kwargs))
        env.fnode = f.node
        env.qualname = f.qualname
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        gen = has_yield_cached(f.node)
        if gen:
            env.yields = SList()
        self.depth += 1
        self.frames.append(env)
        try:
            self.block(f.node.body, env)
            rv = None
        except Ret as r:
            rv = r.v
        finally:
            self.depth -= 1
            self.frames.pop()
        if gen:
            return env.yields
        return rv

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, env)

    def s_Expr(self, s, env):
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise Ret(self.eval(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cont()

    def s_Import(self, s, env):
        for a in s.names:
            mod = __import__(a.name)
            env.vars[(a.asname or a.name.split(".")[0])] = (
                sys.modules[a.name] if a.asname else mod
            )

    def s_ImportFrom(self, s, env):
        import importlib

        mod = importlib.import_module(s.module)
        for a in s.names:
            env.vars[a.asname or a.name] = getattr(mod, a.name)

    def s_Global(self, s, env):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s, env):
        env.nonlocals = getattr(env, "nonlocals", frozenset()) | set(s.names)

    def bind(self, env, name, v):
        if name in getattr(env, "nonlocals", ()):
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None or self.eng.watch:
                raise Unsupported(f"nonlocal {name}")
            env = e
        env.vars[name] = v

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise(AssertionError("assert"))

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(env, "handling", None)
            raise PyRaise(cur if cur is not None else RuntimeError("re-raise"))
        e = self.eval(s.exc, env)
        if isinstance(e, type):
            e = self.make_exc(e, ())
        raise PyRaise(e)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, env)
                        ok = issubclass(e.cls, t)
                    if ok:
                        if h.name:
                            env.vars[h.name] = e.exc
                        old = getattr(env, "handling", None)
                        env.handling = e.exc
                        self.block(h.body, env)
                        env.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (PathEnd, Unsupported):
            raise
        except BaseException:
            if s.finalbody:
                self.block(s.finalbody, env)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_With(self, s, env):
        exits = []
        for it in s.items:
            cm = self.eval(it.context_expr, env)
            v = self.enter(cm)
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.block(s.body, env)
        except (PathEnd, Unsupported):
            raise
        except BaseException as e:
            for cm in reversed(exits):
                self.exit(cm, e.exc if isinstance(e, PyRaise) else None)
            raise
        for cm in reversed(exits):
            self.exit(cm)

    def enter(self, cm):
        from . import lib

        return lib.cm_enter(self, cm)

    def exit(self, cm, exc=None):
        from . import lib

        return lib.cm_exit(self, cm, exc)

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = env.get(t.id)
            self.bind(env, t.id, self.inplace(s.op, cur, self.eval(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, cur, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, cur, self.eval(s.value, env)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, v):
        from . import lib, tmodel

        if isinstance(cur, SList) and isinstance(op, ast.Add):
            lib.list_extend(self, cur, v)
            return cur
        if isinstance(cur, tmodel.STensor):
            return tmodel.inplace(self, op, cur, v)
        if isinstance(cur, SSet) and isinstance(op, ast.BitOr):
            for x in lib.to_seq(self, v).items or []:
                lib.set_add(self, cur, x)
            return cur
        return self.binop(op, cur, v)

    def s_Delete(self, s, env):
        from . import lib

        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars:
                    raise PyRaise(NameError(t.id))
                del env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                lib.delitem(self, o, k)
            else:
                raise Unsupported("del target")

    def s_FunctionDef(self, s, env):
        dfl = [self.eval(d, env) for d in s.args.defaults]
        kwd = {
            a.arg: self.eval(d, env)
            for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)
            if d is not None
        }
        f = FuncVal(s, env, env.globs, getattr(env, "qualname", "") + "." + s.name, dfl, kwd)
        env.vars[s.name] = f

    def assign(self, t, v, env):
        from . import lib

        if isinstance(t, ast.Name):
            self.bind(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, tuple):
                items = list(v)
            else:
                q = lib.to_seq(self, v)
                if not q.concrete:
                    k = len(t.elts)
                    if any(isinstance(e, ast.Starred) for e in t.elts):
                        raise Unsupported("starred unpacking of an unbounded sequence")
                    if not self.truth(Z(q.n) == k):
                        raise PyRaise(ValueError("unpack"))
                    items = [q.get(i) for i in range(k)]
                else:
                    items = list(q.items)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                tail = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise(ValueError("unpack"))
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, SList(items=items[i:len(items) - tail]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - tail:]):
                    self.assign(e, x, env)
            else:
                if len(items) != len(t.elts):
                    raise PyRaise(ValueError("unpack"))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------ loops
    def lookup_path(self, env, path):
        if path == "__yield__":
            return env.yields
        parts = path.split(".")
        if parts[0] not in env.vars:
            e = env.parent
            while e is not None and parts[0] not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported(f"loop contract names {path}, which the function no longer has")
            v = e.vars[parts[0]]
        else:
            v = env.vars[parts[0]]
        if v is UNDEF:
            raise Unsupported(f"loop contract names {path}, undefined here")
        for p in parts[1:]:
            if not isinstance(v, SObj) or p not in v.fields:
                raise Unsupported(f"loop contract names {path}, which does not exist")
            v = v.fields[p]
        return v

    def havoc(self, env, name, spec):
        """forget a loop-modified variable; containers are forgotten in place"""
        eng = self.eng
        cur = None
        try:
            cur = self.lookup_path(env, name)
        except Unsupported:
            if "." in name or name == "__yield__":
                raise
        if callable(spec) and not isinstance(spec, T):
            new = spec(self, cur)
        elif isinstance(spec, HList):
            if not isinstance(cur, SList):
                raise Unsupported(f"{name} is not a list")
            n = eng.fresh(f"{name}_len", z3.IntSort())
            eng.assume(n >= 0)
            arr = eng.fresh(f"{name}_arr", z3.ArraySort(z3.IntSort(), spec.t.sort))
            cur.items, cur.n, cur.t, cur.arr = None, n, spec.t, arr
            cur._get = lambda i, arr=arr: spec.t.dec(z3.Select(arr, Z(i)))
            cur.ghost_axioms(eng)
            new = cur
        elif isinstance(spec, HSet):
            if not isinstance(cur, SSet):
                raise Unsupported(f"{name} is not a set")
            cur.items, cur.t = None, spec.t
            cur.dom = eng.fresh(f"{name}_dom", z3.ArraySort(spec.t.sort, z3.BoolSort()))
            new = cur
        elif isinstance(spec, HDict):
            if not isinstance(cur, SDict):
                raise Unsupported(f"{name} is not a dict")
            cur.pairs, cur.kt, cur.vt, cur.order = None, spec.kt, spec.vt, None
            cur._get = cur._has = None
            cur.dom = eng.fresh(f"{name}_dom", z3.ArraySort(spec.kt.sort, z3.BoolSort()))
            cur.val = eng.fresh(f"{name}_val", z3.ArraySort(spec.kt.sort, spec.vt.sort))
            new = cur
        elif isinstance(spec, T):
            new = spec.fresh(eng, name.replace(".", "_"))
        else:
            raise Unsupported("bad havoc spec")
        if name == "__yield__":
            env.yields = new
        elif "." in name:
            base, last = name.rsplit(".", 1)
            o = self.lookup_path(env, base)
            o.fields[last] = new
            return [o, new]
        else:
            e = env
            while e is not None and name not in e.vars:
                e = e.parent
            (e or env).vars[name] = new
        return [new]

    def find_loop(self, s, env):
        ords = loop_ordinals_cached(env.fnode)
        key = (env.qualname, ords.get(id(s)))
        return self.loops.get(key), key

    def run_loop(self, s, env, seq, guard):
        eng = self.eng
        spec, key = self.find_loop(s, env)
        if spec is None:
            raise Unsupported(f"loop {key} over an unbounded collection has no contract")
        label = f"{env.qualname}/loop{key[1]}"
        names = stored_names(s.body + ([s.target] if isinstance(s, ast.For) else []))
        for n in spec.modifies:
            if n.split(".")[0] not in env.vars and n != "__yield__":
                raise Unsupported(f"loop contract of {label} names {n}, which the function does not have")
        old = {}
        for n in list(env.vars):
            old[n] = Snapshot.of(env.vars[n])
        for n in spec.modifies:
            if "." in n or n == "__yield__":
                old[n] = Snapshot.of(self.lookup_path(env, n))
        pre_prec = eng.precise
        c0 = LoopCtx(self, env, z3.IntVal(0), seq, old)
        for lab, g in spec.inv(c0):
            eng.prove(f"{label}:{lab}:entry", g)
        mode = eng.choose(2)
        allowed = []
        before = dict(env.vars)
        for n, sp in spec.modifies.items():
            allowed += self.havoc(env, n, sp)
        for n in names:
            if n not in spec.modifies:
                env.vars[n] = UNDEF
        eng.precise = False
        if mode == 1:
            w = {"ok": {id(a) for a in allowed}, "new": set(), "keep": list(allowed), "what": f"loop {label}"}
            i = eng.fresh("it", z3.IntSort())
            if seq is not None:
                eng.assume(z3.And(i >= 0, i < Z(seq.length())))
            else:
                eng.assume(i >= 0)
            c = LoopCtx(self, env, i, seq, old)
            for lab, g in spec.inv(c):
                eng.assume(B(g))
            eng.watch.append(w)
            try:
                if seq is not None:
                    self.assign(s.target, seq.get(i), env)
                else:
                    if not self.truth(self.eval(guard, env)):
                        raise PathEnd()
                try:
                    self.block(s.body, env)
                except Cont:
                    pass
                except Brk:
                    return
            finally:
                eng.watch.remove(w)
            c1 = LoopCtx(self, env, i + 1, seq, old)
            for lab, g in spec.inv(c1):
                eng.prove(f"{label}:{lab}:preserved", g)
            raise PathEnd()
        i = Z(seq.length()) if seq is not None else eng.fresh("it", z3.IntSort())
        c = LoopCtx(self, env, i, seq, old)
        for lab, g in spec.inv(c):
            eng.assume(B(g))
        if seq is None:
            if self.truth(self.eval(guard, env)):
                raise PathEnd()
        elif read_outside(env.fnode, s) and not (stored_names(s.body) & stored_names([s.target])):
            # the loop variable keeps its last value (or the earlier one if nothing was iterated)
            if eng.branch(i > 0):
                self.assign(s.target, seq.get(i - 1), env)
            else:
                for n in stored_names([s.target]):
                    if n in before:
                        env.vars[n] = before[n]
                    else:
                        env.vars.pop(n, None)
        self.block(s.orelse, env)

    def s_For(self, s, env):
        from . import lib

        seq = lib.to_seq(self, self.eval(s.iter, env))
        if seq.concrete:
            broke = False
            # iterate over a snapshot of positions; list growth is not supported
            for x in list(seq.items):
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Cont:
                    continue
                except Brk:
                    broke = True
                    break
            if not broke:
                self.block(s.orelse, env)
            return
        self.run_loop(s, env, seq, None)

    def s_While(self, s, env):
        spec, key = self.find_loop(s, env)
        if spec is not None:
            return self.run_loop(s, env, None, s.test)
        n = 0
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > 64:
                raise Unsupported(f"while loop {key} without contract")
            try:
                self.block(s.body, env)
            except Cont:
                continue
            except Brk:
                return
        self.block(s.orelse, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        v = m(e, env)
        return force(v) if type(v) is Choice else v

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lift(env.get(e.id))

    def lift(self, v):
        """native containers read from the program become engine containers"""
        if type(v) is list:
            return SList(items=[self.lift(x) for x in v])
        if type(v) is dict:
            return SDict(pairs=[(k, self.lift(x)) for k, x in v.items()])
        if type(v) in (set, frozenset):
            return SSet(items=list(v))
        return v

    def e_Attribute(self, e, env):
        return self.lift(self.getattr(self.eval(e.value, env), e.attr))

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(
                self.eval(s.lower, env) if s.lower else None,
                self.eval(s.upper, env) if s.upper else None,
                self.eval(s.step, env) if s.step else None,
            )
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Call(self, e, env):
        from . import lib

        # logging is dropped: it has no effect on results
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
            if e.func.value.id in ("LOG", "logging", "logger", "warnings"):
                try:
                    base = env.get(e.func.value.id)
                except PyRaise:
                    base = None
                if isinstance(base, logging.Logger) or base is logging or getattr(base, "__name__", "") == "warnings":
                    self.eng.assumptions.add("logging and warnings calls have no effect on results")
                    return None
        fn = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                q = lib.to_seq(self, self.eval(a.value, env))
                if not q.concrete:
                    raise Unsupported("star-argument of unbounded length")
                args += q.items
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, SDict) and v.concrete:
                    for kk, vv in v.pairs:
                        kwargs[kk] = vv
                elif isinstance(v, SDict):
                    kwargs["**sym"] = v
                elif isinstance(v, SObj) and isinstance(v.fields.get("data"), SDict) and v.cls.__name__ == "ImmutableMap":
                    if v.fields["data"].concrete:
                        kwargs.update(v.fields["data"].pairs)
                    else:
                        kwargs["**sym"] = v.fields["data"]
                else:
                    raise Unsupported("** argument")
            else:
                kwargs[k.arg] = v
        r = self.call(fn, tuple(args), kwargs)
        if args and isinstance(e.args[0], ast.Subscript) and isinstance(fn, types.BuiltinFunctionType) and fn in lib.tmodel.PURE:
            lib.tmodel.release_view(args[0])
        return r

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def e_UnaryOp(self, e, env):
        from . import tmodel

        if isinstance(e.op, ast.Not):
            t = self.truth_term(self.eval(e.operand, env))
            return Not(t)
        v = self.eval(e.operand, env)
        if isinstance(v, tmodel.STensor):
            return tmodel.unary(self, e.op, v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and not is_z3(v):
            return ~v
        raise Unsupported("unary operator")

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if is_and and not t:
                return False if is_z3(v) and v.sort() == z3.BoolSort() else v
            if not is_and and t:
                return True if is_z3(v) and v.sort() == z3.BoolSort() else v
        return v

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return res

    def e_Lambda(self, e, env):
        dfl = [self.eval(d, env) for d in e.args.defaults]
        return FuncVal(e, env, env.globs, getattr(env, "qualname", "") + ".<lambda>", dfl)

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        return SList(items=self._elts(e.elts, env))

    def e_Set(self, e, env):
        from . import lib

        s = SSet()
        for x in self._elts(e.elts, env):
            lib.set_add(self, s, x)
        return s

    def _elts(self, elts, env):
        from . import lib

        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                q = lib.to_seq(self, self.eval(x.value, env))
                if not q.concrete:
                    raise Unsupported("star of unbounded length")
                out += q.items
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        from . import lib

        d = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                if not isinstance(src, SDict):
                    raise Unsupported("dict unpacking of a non-dict")
                lib.dict_update(self, d, src)
            else:
                lib.setitem(self, d, self.eval(k, env), self.eval(v, env))
        return d

    def e_JoinedStr(self, e, env):
        from . import lib

        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None:
                    fs = self.eval(v.format_spec, env)
                    parts.append(lib.fmt(self, x, fs))
                elif v.conversion == 114:
                    parts.append(repr(x) if not is_z3(x) else lib.to_str(self, x))
                else:
                    parts.append(lib.to_str(self, x))
        return lib.str_concat(parts)

    def e_FormattedValue(self, e, env):
        from . import lib

        return lib.to_str(self, self.eval(e.value, env))

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env.vars[e.target.id] = v
        return v

    def e_Yield(self, e, env):
        from . import lib

        v = self.eval(e.value, env) if e.value else None
        f = env
        while f is not None and f.yields is None:
            f = f.parent
        lib.list_append(self, f.yields, v)
        return None

    def _comp(self, e, env, elt, kind):
        """list/set/dict/generator comprehension"""
        from . import lib

        if len(e.generators) == 1:
            g = e.generators[0]
            src = lib.to_seq(self, self.eval(g.iter, env))
            if not src.concrete:
                parts = lib.parts_of(src) if kind == "list" else None
                if parts:
                    r = SList(items=[])
                    for p in parts:
                        x = self._comp_over(e, env, elt, kind, p)
                        r = lib.list_concat(self, r, SList(items=x) if isinstance(x, list) else x)
                    return r
                return lib.comp_symbolic(self, src, g, env, elt, kind, getattr(e, 'elt', None))
        return self._comp_nested(e, env, elt)

    def _comp_over(self, e, env, elt, kind, src):
        from . import lib

        if not src.concrete:
            return lib.comp_symbolic(self, src, e.generators[0], env, elt, kind, getattr(e, 'elt', None))
        return self._comp_nested(e, env, elt, src)

    def _comp_nested(self, e, env, elt, first=None):
        from . import lib

        out = []

        def rec(k, cur):
            if k == len(e.generators):
                out.append(elt(cur))
                return
            g = e.generators[k]
            src = first if k == 0 and first is not None else lib.to_seq(self, self.eval(g.iter, cur))
            if not src.concrete:
                raise Unsupported("nested comprehension over an unbounded sequence")
            for x in src.items:
                sc = Env(cur, env.globs)
                sc.fnode, sc.qualname = getattr(env, "fnode", None), getattr(env, "qualname", "")
                self.assign(g.target, x, sc)
                if all(self.truth(self.eval(c, sc)) for c in g.ifs):
                    rec(k + 1, sc)

        rec(0, env)
        return out

    def e_ListComp(self, e, env):
        r = self._comp(e, env, lambda sc: self.eval(e.elt, sc), "list")
        return SList(items=r) if isinstance(r, list) else r

    def e_GeneratorExp(self, e, env):
        r = self._comp(e, env, lambda sc: self.eval(e.elt, sc), "list")
        return SList(items=r) if isinstance(r, list) else r

    def e_SetComp(self, e, env):
        from . import lib

        r = self._comp(e, env, lambda sc: self.eval(e.elt, sc), "set")
        if not isinstance(r, list):
            return r
        s = SSet()
        for x in r:
            lib.set_add(self, s, x)
        return s

    def e_DictComp(self, e, env):
        from . import lib

        r = self._comp(
            e, env, lambda sc: (self.eval(e.key, sc), self.eval(e.value, sc)), "dict"
        )
        if not isinstance(r, list):
            return r
        d = SDict()
        for k, v in r:
            lib.setitem(self, d, k, v)
        return d

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    # ------------------------------------------------------------ operations
    def truth(self, v):
        return self.eng.branch(self.truth_term(v))

    def truth_term(self, v):
        from . import tmodel

        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if is_z3(v):
            if v.sort() == z3.BoolSort():
                return v
            if v.sort() == z3.IntSort() or v.sort() == z3.RealSort():
                return v != 0
            if v.sort() == z3.StringSort():
                return v != z3.StringVal("")
            op = opaque_of(v)
            if op is not None and op.truthy is True:
                return True
            if op is not None and callable(op.truthy):
                return op.truthy(v)
            raise Unsupported(f"truth of {v.sort()}")
        if isinstance(v, SList):
            n = v.length()
            return n > 0
        if isinstance(v, SDict):
            if v.concrete:
                return len(v.pairs) > 0
            if getattr(v, "nonempty", None) is not None:
                return v.nonempty
            from . import lib

            return lib.dict_nonempty(self, v)
        if isinstance(v, SSet):
            if v.concrete:
                return len(v.items) > 0
            from . import lib

            return lib.set_nonempty(self, v)
        if isinstance(v, tmodel.STensor):
            return tmodel.truth(self, v)
        if isinstance(v, SObj):
            for m in ("__bool__", "__len__"):
                f = inspect.getattr_static(v.cls, m, None)
                if isinstance(f, types.FunctionType):
                    return self.truth_term(self.call(f, (v,)))
            return True
        if isinstance(v, (FuncVal, Bound, ModelFn)):
            return True
        if isinstance(v, tuple):
            return len(v) > 0
        return bool(v)

    def getattr(self, o, name):
        from . import lib

        return lib.getattr_(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            self.eng.note_mut(o)
            st = inspect.getattr_static(o.cls, name, None)
            if isinstance(st, property):
                raise Unsupported("property setter")
            o.fields[name] = v
            return
        from . import lib

        lib.setattr_(self, o, name, v)

    def getitem(self, o, k):
        from . import lib

        return lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import lib

        return lib.setitem(self, o, k, v)

    def binop(self, op, a, b):
        from . import lib

        return lib.binop(self, op, a, b)

    def compare(self, op, a, b):
        from . import lib

        return lib.compare(self, op, a, b)

    def eq(self, a, b):
        from . import lib

        return lib.eq_val(self, a, b)


def _own_dict(cls):
    out = {}
    for c in cls.__mro__:
        if is_repo_cls(c):
            out.update(c.__dict__)
    return out


_hy, _lo = {}, {}


def has_yield_cached(node):
    k = id(node)
    if k not in _hy:
        r = False

        def go(n):
            nonlocal r
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    r = True
                go(c)

        go(node)
        _hy[k] = (r, node)
    return _hy[k][0]


def loop_ordinals_cached(node):
    k = id(node)
    if k not in _lo:
        _lo[k] = (loop_ordinals(node), node)
    return _lo[k][0]
