"""Contracts of the checkpoint writer (mergekit/io/tensor_writer.py), over a ghost file system.

The ghost file system maps a path to its state (0 absent, 1 handed to a writer
thread, 2 completely written) and its content (a shard: names and stored
tensors).  The writer's class invariant ties its fields to that file system
and to the ghost history of everything saved so far."""

import json
import os
import threading
from concurrent.futures import ThreadPoolExecutor

import safetensors
import safetensors.torch
import torch
import z3

import mergekit.io.tensor_writer as TW
from pyvc import lib
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import HDict, HList, LoopSpec, ModelFn, SDict, SList, SObj, SSet

from .util import *

M = "mergekit.io.tensor_writer:"
ContentS = z3.DeclareSort("Content")  # values, dtype and shape of a tensor
NUMEL = z3.Function("numel", ContentS, INT)
ESIZE = z3.Function("element_size", ContentS, INT)
TenO = Opaque("WTensor", pyclass=torch.Tensor)
CONTENT = z3.Function("content", TenO.sort, ContentS)
CONTIG = z3.Function("contiguous", TenO.sort, BOOL)
TTen = TOpaque(TenO)
ShardS = z3.DeclareSort("Shard")
SDOM = z3.Function("shard_names", ShardS, z3.ArraySort(STR, BOOL))
SCON = z3.Function("shard_content", ShardS, z3.ArraySort(STR, ContentS))
NAMES = z3.ArraySort(STR, BOOL)
TENS = z3.ArraySort(STR, TenO.sort)
SZ = z3.Function("bytes_of", NAMES, TENS, INT)  # sum of the tensors' sizes
CARD = z3.Function("count_of", NAMES, INT)
SSIZE = z3.Function("shard_bytes", ShardS, INT)
FutO = Opaque("WFuture")
FPATH = z3.Function("future_path", FutO.sort, STR)
TFut = TOpaque(FutO)
EMPTY = z3.K(STR, z3.BoolVal(False))


def tsize(t):
    return NUMEL(CONTENT(t)) * ESIZE(CONTENT(t))


def _fresh_like(I, t, contiguous=None):
    r = I.eng.fresh("copy", TenO.sort)
    I.eng.assume(CONTENT(r) == CONTENT(t))
    if contiguous is None:
        I.eng.assume(z3.Implies(CONTIG(t), CONTIG(r)))
    else:
        I.eng.assume(CONTIG(r))
    return r


TenO.methods.update({
    "is_contiguous": lambda I, t: CONTIG(t),
    "contiguous": lambda I, t: _fresh_like(I, t, True),
    "clone": lambda I, t: _fresh_like(I, t),
    "numel": lambda I, t: NUMEL(CONTENT(t)),
    "element_size": lambda I, t: ESIZE(CONTENT(t)),
})


# ---------------------------------------------------------------- ghost file system


def new_fs(I, tag="fs"):
    return SObj(object, {"state": z3.Const(tag + "_state", z3.ArraySort(STR, INT)),
                         "data": z3.Const(tag + "_data", z3.ArraySort(STR, ShardS)),
                         "index": None}, tag="fs")


def dv(d):
    """(names, tensors) of a dict"""
    if not isinstance(d, SDict):
        raise Unsupported("not a dict")
    if d.concrete:
        dom, val = EMPTY, z3.K(STR, z3.Const("no_tensor", TenO.sort))
        for k, v in d.pairs:
            dom, val = z3.Store(dom, S(k), True), z3.Store(val, S(k), v)
        return dom, val
    if d.dom is None:
        raise Unsupported("functional dict")
    return d.dom, d.val


def shard_of(I, d):
    """the content a file gets when this dict is written to it"""
    s = I.eng.fresh("shard", ShardS)
    k = z3.String("shk")
    if not d.concrete and d.dom is None:
        has = B(d.has(k))
        at = I.eng.generic(lambda: d.at(k), [k], [has])
        I.eng.assume(z3.ForAll([k], z3.Select(SDOM(s), k) == has, patterns=[z3.Select(SDOM(s), k)]))
        I.eng.assume(z3.ForAll([k], z3.Implies(has, z3.Select(SCON(s), k) == CONTENT(at)), patterns=[z3.Select(SCON(s), k)]))
        return s
    dom, val = dv(d)
    I.eng.assume(SDOM(s) == dom)
    I.eng.assume(z3.ForAll([k], z3.Select(SCON(s), k) == CONTENT(z3.Select(val, k)), patterns=[z3.Select(SCON(s), k)]))
    I.eng.assume(SSIZE(s) == SZ(dom, val))
    return s


def put(I, fs, path, state, data=None):
    I.setattr(fs, "state", z3.Store(fs.fields["state"], S(path), state))
    if data is not None:
        I.setattr(fs, "data", z3.Store(fs.fields["data"], S(path), data))


def all_contiguous(I, d):
    k = z3.String("ack")
    if not d.concrete and d.dom is None:
        has = B(d.has(k))
        return z3.ForAll([k], z3.Implies(has, CONTIG(I.eng.generic(lambda: d.at(k), [k], [has]))))
    dom, val = dv(d)
    return z3.ForAll([k], z3.Implies(z3.Select(dom, k), CONTIG(z3.Select(val, k))))


def _save_file(I, tensors, filename, metadata=None, **kw):
    """safetensors.torch.save_file: writes the whole dict, or fails leaving no complete file"""
    I.eng.prove("only-contiguous-tensors-are-written", all_contiguous(I, tensors))
    f = I.eng.choose(3)
    if f == 1:
        raise PyRaise(RuntimeError("Some tensors share memory, this will lead to duplicate memory on disk"))
    if f == 2:
        raise PyRaise(RuntimeError("disk full"))
    put(I, I.fs, filename, z3.IntVal(2), shard_of(I, tensors))


def _torch_save(I, obj, f, **kw):
    if I.eng.choose(2):
        raise PyRaise(RuntimeError("disk full"))
    put(I, I.fs, f, z3.IntVal(2), shard_of(I, obj))


IO_MODELS = {safetensors.torch.save_file: _save_file, torch.save: _torch_save}
TRUST = ("safetensors.torch.save_file / torch.save write exactly the given names and tensors or raise",
         "os.rename moves a file atomically", "the writer's lock gives mutual exclusion",
         "file names built from a template are distinct for distinct numbers (lemma checked on the string theory)")


# ---------------------------------------------------------------- names


def comps(case):
    base, safe = case[0], case[1]
    return (base or ("model" if safe else "pytorch_model")), ("safetensors" if safe else "bin")


def old_name(I, case, i):
    p, e = comps(case)
    return S(lib.str_concat([f"{p}-", lib.to_str(I, Z(i) + 1), f".{e}"]))


def fmt5(x):
    return lib.fmt(None, Z(x), "05d")


def new_name(I, case, i, n):
    p, e = comps(case)
    return S(lib.str_concat([f"{p}-", fmt5(Z(i) + 1), "-of-", fmt5(n), f".{e}"]))


def join(I, out, name):
    f = z3.Function("path_join", STR, STR, STR)
    return f(S(out), S(name))


def name_facts(I, case):
    """distinctness of the file names: proved once on real strings, then used as facts about the templates"""
    p, e = comps(case)
    eng = I.eng
    a, b, c = z3.Strings("digits_a digits_b digits_c")
    cat = lambda *x: z3.Concat(*[z3.StringVal(y) if isinstance(y, str) else y for y in x])
    dig = [z3.InRe(x, lib.DIGITS) for x in (a, b, c)]
    lemma = lambda lab, goal: eng.prove("lemma:" + lab, z3.Implies(z3.And(*dig), goal), only=[])  # noqa: E731
    lemma("shard-names-by-number", z3.Implies(cat(f"{p}-", a, f".{e}") == cat(f"{p}-", b, f".{e}"), a == b))
    lemma("temporary-and-final-names-differ",
          cat(f"{p}-", a, f".{e}") != cat(f"{p}-", b, "-of-", c, f".{e}"))
    lemma("final-names-by-number", z3.Implies(
        cat(f"{p}-", a, "-of-", c, f".{e}") == cat(f"{p}-", b, "-of-", c, f".{e}"), a == b))
    i, n = z3.Int("nfi"), z3.Int("nfn")
    kind = z3.Function("name_kind", STR, INT)
    num = z3.Function("name_number", STR, INT)
    o, w = old_name(I, case, i), new_name(I, case, i, n)
    inv = z3.Function("int_str_inv", STR, INT)
    eng.assume(z3.ForAll([i], z3.And(kind(o) == 0, num(o) == i), patterns=[o]))
    eng.assume(old_name(I, case, z3.IntVal(0)) == z3.StringVal(f"{p}-1.{e}"))
    eng.assume(z3.ForAll([i, n], z3.And(kind(w) == 1, num(w) == i), patterns=[w]))
    base = z3.Function("path_base", STR, STR)
    x, y = z3.Strings("pjx pjy")
    pj = z3.Function("path_join", STR, STR, STR)(x, y)
    eng.assume(z3.ForAll([x, y], base(pj) == y, patterns=[pj]))
    eng.assumptions.add("str(i) and format(i, '05d') consist of digits and are injective")
    eng.assumptions.add("os.path.join(dir, name) is an injective function of name for a fixed dir")


# ---------------------------------------------------------------- the class invariant


def fresh_writer(I, case, use_async):
    """a writer in an arbitrary state"""
    base, safe = case[0], case[1]
    I.fs = new_fs(I)
    cs = SDict(kt=TStr, vt=TTen, dom=z3.Const("cs_dom", NAMES), val=z3.Const("cs_val", TENS))
    wm = SDict(kt=TStr, vt=TStr, dom=z3.Const("wm_dom", NAMES), val=z3.Const("wm_val", z3.ArraySort(STR, STR)))
    w = SObj(TW.TensorWriter, {
        "out_path": z3.String("out"), "override_basename": base, "max_shard_size": z3.Int("max_size"),
        "safe_serialization": safe, "use_async": use_async, "shards_written": z3.Int("k"), "weight_map": wm,
        "current_shard": cs, "current_shard_size": z3.Int("cs_size"), "total_size": z3.Int("total"),
        "_lock": SObj(object, tag="lock"), "_write_futures": SList(n=z3.Int("n_fut"), t=TFut, arr=z3.Const("futs", z3.ArraySort(INT, FutO.sort))),
        "_executor": SObj(object, {}, tag="executor"), "__fs__": I.fs})
    gh = dict(saved=z3.Const("saved", NAMES), sv=z3.Const("saved_content", z3.ArraySort(STR, ContentS)),
              sh=z3.Const("shard_no", z3.ArraySort(STR, INT)), total=z3.Int("total_saved"), case=case, w=w)
    c = z3.Const("szc", ContentS)
    I.eng.assume(z3.ForAll([c], z3.And(NUMEL(c) >= 0, ESIZE(c) >= 1), patterns=[z3.MultiPattern(NUMEL(c), ESIZE(c))]))
    return w, gh


def state_of(w):
    f = w.fields
    return dict(out=f["out_path"], k=f["shards_written"], cs=f["current_shard"], wm=f["weight_map"], css=f["current_shard_size"],
                total=f["total_size"], max=f["max_shard_size"], fs=f["__fs__"], futs=f["_write_futures"], use_async=f["use_async"])


def wmv(d):
    if d.concrete:
        dom, val = EMPTY, z3.K(STR, z3.StringVal(""))
        for k, v in d.pairs:
            dom, val = z3.Store(dom, S(k), True), z3.Store(val, S(k), S(v))
        return dom, val
    return d.dom, d.val


def invariant(I, gh, w, tag=""):
    """the class invariant: yields (label, term)"""
    st, case = state_of(w), gh["case"]
    cd, cv = dv(st["cs"])
    wd, wv = wmv(st["wm"])
    k = Z(st["k"])
    n, i = z3.String("inm"), z3.Int("ish")
    fs = st["fs"].fields
    path = lambda x: join(I, st["out"], old_name(I, case, x))
    yield "shards-counted", k >= 0
    yield "every-saved-tensor-is-somewhere", z3.ForAll([n], z3.And(
        z3.Select(gh["saved"], n) == z3.Or(z3.Select(cd, n), z3.Select(wd, n)),
        z3.Not(z3.And(z3.Select(cd, n), z3.Select(wd, n)))), patterns=[z3.Select(gh["saved"], n)])
    yield "pending-tensors-are-the-saved-ones", z3.ForAll([n], z3.Implies(z3.Select(cd, n), z3.And(
        CONTENT(z3.Select(cv, n)) == z3.Select(gh["sv"], n), CONTIG(z3.Select(cv, n)))))
    yield "mapped-to-its-shard", z3.ForAll([n], z3.Implies(z3.Select(wd, n), z3.And(
        z3.Select(gh["sh"], n) >= 0, z3.Select(gh["sh"], n) < k,
        z3.Select(wv, n) == old_name(I, case, z3.Select(gh["sh"], n)))), patterns=[z3.Select(wv, n), z3.Select(wd, n)])
    yield "current-size", Z(st["css"]) == SZ(cd, cv)
    yield "total-size", Z(st["total"]) + Z(st["css"]) == gh["total"]
    yield "current-within-limit", z3.Implies(Z(st["max"]) > 0, z3.Or(Z(st["css"]) <= Z(st["max"]), CARD(cd) <= 1))
    data = z3.Select(fs["data"], path(i))
    ok = [1, 2] if st["use_async"] else [2]
    live = z3.And(i >= 0, i < k)
    yield "shards-are-on-their-way", z3.ForAll([i], z3.Implies(live, z3.Or(
        *[z3.Select(fs["state"], path(i)) == s for s in ok])), patterns=[path(i)])
    yield "shards-hold-their-tensors", z3.ForAll([i, n], z3.Implies(live, z3.And(
        z3.Select(SDOM(data), n) == z3.And(z3.Select(wd, n), z3.Select(gh["sh"], n) == i),
        z3.Implies(z3.Select(SDOM(data), n), z3.Select(SCON(data), n) == z3.Select(gh["sv"], n)))),
        patterns=[z3.MultiPattern(path(i), z3.Select(SDOM(data), n)), z3.MultiPattern(path(i), z3.Select(SCON(data), n))])
    yield "shards-within-limit", z3.ForAll([i], z3.Implies(z3.And(live, Z(st["max"]) > 0), z3.Or(
        SSIZE(data) <= Z(st["max"]), CARD(SDOM(data)) <= 1)), patterns=[SSIZE(data)])
    if st["use_async"]:
        fu = st["futs"]
        each = z3.And(*[FPATH(x) == path(j) for j, x in enumerate(fu.items)], True) if fu.concrete else z3.ForAll(
            [i], z3.Implies(live, FPATH(fu.get(i)) == path(i)))
        yield "one-write-per-shard", z3.And(Z(fu.length()) == k, each)


def assume_inv(I, gh, w):
    name_facts(I, gh["case"])
    for _, t in invariant(I, gh, w):
        I.eng.assume(t)


def sum_facts(I, cd, cv, name, t):
    """bytes_of / count_of are sums over the names"""
    I.eng.assume(z3.And(SZ(EMPTY, cv) == 0, CARD(EMPTY) == 0))
    I.eng.assume(z3.Implies(z3.Not(z3.Select(cd, name)), z3.And(
        SZ(z3.Store(cd, name, True), z3.Store(cv, name, t)) == SZ(cd, cv) + tsize(t), CARD(z3.Store(cd, name, True)) == CARD(cd) + 1)))


CASES = [(None, s, a) for s in (True, False) for a in (False, True)] + [("weights", True, True)]


# ---------------------------------------------------------------- _flush_current_shard


def _flush_inv(c):
    g = c.I.state_g
    wd, wv = wmv(c["self.weight_map"])
    od, ov = g["wm0"]
    nm, j = z3.String("flk"), z3.Int("flj")
    name = S(c["shard_name"])
    seen = z3.Exists([j], z3.And(0 <= j, j < Z(c.i), S(c.item(j)) == nm))
    if getattr(c.seq, "idx_of", None) is not None:
        ix = Z(c.seq.idx_of(nm))
        cd = g["cs0"][0]
        seen = z3.And(z3.Select(cd, nm), ix < Z(c.i))
    yield "mapped-so-far", z3.ForAll([nm], z3.And(
        z3.Select(wd, nm) == z3.Or(z3.Select(od, nm), seen),
        z3.Select(wv, nm) == z3.If(seen, name, z3.Select(ov, nm))), patterns=[z3.Select(wd, nm), z3.Select(wv, nm)])


def _submit(I, fn, *args, **kw):
    """ThreadPoolExecutor.submit: the call happens at some time before its future completes"""
    from pyvc.interp import Bound

    f = fn.fn if isinstance(fn, Bound) else None
    real = getattr(f, "__name__", None) or getattr(fn, "__name__", "")
    if real != "_write_shard_task":
        raise Unsupported("another task is submitted")
    names = ["shard_data", "shard_index", "shard_path"]
    a = dict(zip(names, args), **kw)
    put(I, I.fs, a["shard_path"], z3.IntVal(1), shard_of(I, a["shard_data"]))
    I.eng.prove("only-contiguous-tensors-are-written", all_contiguous(I, a["shard_data"]))
    fu = I.eng.fresh("future", FutO.sort)
    I.eng.assume(FPATH(fu) == S(a["shard_path"]))
    return fu


def _task_contract(I, self_, shard_data, shard_index, shard_path):
    """contract of _write_shard_task: writes the shard completely or raises"""
    I.eng.prove("only-contiguous-tensors-are-written", all_contiguous(I, shard_data))
    if I.eng.choose(2):
        raise PyRaise(RuntimeError("write failed"))
    put(I, I.fs, shard_path, z3.IntVal(2), shard_of(I, shard_data))


def only_new(I, g, fs0, k0):
    """no file but that of shard k0 was touched"""
    q = z3.String("onq")
    st, dt = I.fs.fields["state"], I.fs.fields["data"]
    p = join(I, g["w"].fields["out_path"], old_name(I, g["case"], k0))
    return z3.ForAll([q], z3.Implies(q != p, z3.And(z3.Select(st, q) == z3.Select(fs0[0], q), z3.Select(dt, q) == z3.Select(fs0[1], q))),
                     patterns=[z3.Select(st, q), z3.Select(dt, q)])


@contract("P03")
class FlushCurrentShard(Contract):
    """moves exactly the pending tensors into one new shard file and maps them to it"""

    target = M + "TensorWriter._flush_current_shard"
    cases = CASES
    uf_concat = True
    trusted = TRUST
    timeout_ms = 20000
    loops = {("TensorWriter._flush_current_shard", 0): LoopSpec(_flush_inv, {"self.weight_map": HDict(TStr, TStr)})}
    calls = {M + "TensorWriter._write_shard_task": _task_contract}

    def setup(self, I, case):
        w, g = fresh_writer(I, case, case[2])
        w.fields["_executor"].fields["submit"] = ModelFn(_submit, "submit")
        assume_inv(I, g, w)
        cd, cv = dv(w.fields["current_shard"])
        lib.dict_order(I, w.fields["current_shard"])
        I.eng.assume(z3.And(SZ(EMPTY, cv) == 0, CARD(EMPTY) == 0))
        x = z3.Const("anyt", TENS)
        I.eng.assume(z3.ForAll([x], SZ(EMPTY, x) == 0, patterns=[SZ(EMPTY, x)]))
        g["wm0"], g["cs0"], g["k0"] = wmv(w.fields["weight_map"]), (cd, cv), w.fields["shards_written"]
        g["fs0"] = (I.fs.fields["state"], I.fs.fields["data"])
        I.state_g = g
        return (w,), {}, g

    def ensures(self, I, g, r):
        w = g["w"]
        cd0, _ = g["cs0"]
        n = z3.String("enm")
        moved = Z(w.fields["shards_written"]) == g["k0"] + 1
        g["sh"] = z3.Lambda([n], z3.If(z3.Select(cd0, n), g["k0"], z3.Select(g["sh"], n)))
        yield "all-or-nothing", z3.Or(moved, z3.And(Z(w.fields["shards_written"]) == g["k0"], z3.ForAll(
            [n], z3.Not(z3.Select(cd0, n)))))
        yield "only-the-new-shard-file", only_new(I, g, g["fs0"], g["k0"])
        yield "nothing-pending", z3.ForAll([n], z3.Not(z3.Select(dv(w.fields["current_shard"])[0], n)))
        yield from invariant(I, g, w)

    def raises(self, I, g, exc):
        return isinstance(exc, RuntimeError)


# ---------------------------------------------------------------- save_tensor


def _flush_contract(I, self_):
    """contract of _flush_current_shard (proved above), as its callers see it"""
    g = I.state_g
    f = self_.fields
    eng = I.eng
    cd, cv = dv(f["current_shard"])
    n = z3.String("fcn")
    if not eng.branch(z3.Exists([n], z3.Select(cd, n))):
        return
    if eng.choose(2):
        raise PyRaise(RuntimeError("write failed"))
    sh0, k0, css = g["sh"], Z(f["shards_written"]), Z(f["current_shard_size"])
    g["sh"] = z3.Lambda([n], z3.If(z3.Select(cd, n), k0, z3.Select(sh0, n)))
    wm = SDict(kt=TStr, vt=TStr, dom=eng.fresh("wm_dom", NAMES), val=eng.fresh("wm_val", z3.ArraySort(STR, STR)))
    I.setattr(self_, "weight_map", wm)
    I.setattr(self_, "total_size", Z(f["total_size"]) + css)
    I.setattr(self_, "current_shard", SDict(pairs=[]))
    I.setattr(self_, "current_shard_size", 0)
    I.setattr(self_, "shards_written", k0 + 1)
    fu = f["_write_futures"]
    if f["use_async"]:
        I.setattr(self_, "_write_futures", SList(n=eng.fresh("n_fut", INT), t=TFut, arr=eng.fresh("futs", z3.ArraySort(INT, FutO.sort))))
    fs0 = (I.fs.fields["state"], I.fs.fields["data"])
    I.setattr(I.fs, "state", eng.fresh("fs_state", z3.ArraySort(STR, INT)))
    I.setattr(I.fs, "data", eng.fresh("fs_data", z3.ArraySort(STR, ShardS)))
    for _, t in invariant(I, g, self_):
        eng.assume(t)
    eng.assume(only_new(I, g, fs0, k0))


@contract("P03")
class SaveTensor(Contract):
    """saving one more tensor keeps the invariant and adds exactly that tensor"""

    target = M + "TensorWriter.save_tensor"
    cases = [c + (cl,) for c in CASES for cl in (False, True) if c[0] is None]
    uf_concat = True
    trusted = TRUST
    timeout_ms = 20000
    calls = {M + "TensorWriter._flush_current_shard": _flush_contract}

    def setup(self, I, case):
        w, g = fresh_writer(I, case, case[2])
        assume_inv(I, g, w)
        name, t = z3.String("name"), z3.Const("tensor", TenO.sort)
        I.eng.assume(z3.Not(z3.Select(g["saved"], name)))  # each name is saved once
        lib.dict_order(I, w.fields["current_shard"])
        x = z3.Const("anyt", TENS)
        I.eng.assume(z3.ForAll([x], SZ(EMPTY, x) == 0, patterns=[SZ(EMPTY, x)]))
        I.eng.assume(CARD(EMPTY) == 0)
        g["name"], g["t"] = name, t
        I.state_g = g
        return (w, name, t, case[3]), {}, g

    def ensures(self, I, g, r):
        w, name, t = g["w"], g["name"], g["t"]
        cd, cv = dv(w.fields["current_shard"])
        # the pending dict is some dict plus the new name: count_of / bytes_of over it
        before = z3.Store(cd, name, False)
        I.eng.assume(z3.Store(before, name, True) == z3.Store(cd, name, True))
        tt = z3.Select(cv, name)
        for d0, v0 in self.bases(I, cd, cv):
            I.eng.assume(z3.Implies(z3.Not(z3.Select(d0, name)), z3.And(
                SZ(z3.Store(d0, name, True), z3.Store(v0, name, tt)) == SZ(d0, v0) + tsize(tt),
                CARD(z3.Store(d0, name, True)) == CARD(d0) + 1)))
        g["saved"] = z3.Store(g["saved"], name, True)
        g["sv"] = z3.Store(g["sv"], name, CONTENT(t))
        g["total"] = g["total"] + tsize(t)
        yield from invariant(I, g, w)

    def bases(self, I, cd, cv):
        yield EMPTY, z3.K(STR, z3.Const("no_tensor", TenO.sort))
        yield z3.Const("cs_dom", NAMES), z3.Const("cs_val", TENS)

    def raises(self, I, g, exc):
        return isinstance(exc, RuntimeError)


# ---------------------------------------------------------------- writing one shard


@contract("P03")
class SaveSafetensors(Contract):
    """a return means the file holds exactly the given tensors; other errors are reported"""

    target = M + "TensorWriter._save_st"
    models = IO_MODELS
    trusted = TRUST[:1]

    def setup(self, I, case):
        I.fs = new_fs(I)
        d = SDict(kt=TStr, vt=TTen, dom=z3.Const("d_dom", NAMES), val=z3.Const("d_val", TENS))
        lib.dict_order(I, d)
        I.eng.assume(all_contiguous(I, d))
        w = SObj(TW.TensorWriter, {"__fs__": I.fs, "safe_serialization": True})
        return (w, d, z3.String("path")), {}, dict(ix=d.order[2], d=(d.dom, d.val), st=I.fs.fields["state"], dt=I.fs.fields["data"])

    def ensures(self, I, g, r):
        fs, p = I.fs.fields, z3.String("path")
        q, n = z3.String("qp"), z3.String("qn")
        s = z3.Select(fs["data"], p)
        dom, val = g["d"]
        yield "completely-written", z3.Select(fs["state"], p) == 2
        for d in I.dict_log:  # make the rewritten dict's enumeration visible at n
            if getattr(d, "key_fn", None) is not None:
                mention(I, d.key_fn(Z(g["ix"](n))))
        yield "exactly-the-names", z3.Select(SDOM(s), n) == z3.Select(dom, n)
        yield "exactly-the-tensors", z3.Implies(z3.Select(dom, n), z3.Select(SCON(s), n) == CONTENT(z3.Select(val, n)))
        yield "no-other-file-touched", z3.ForAll([q], z3.Implies(q != p, z3.And(
            z3.Select(fs["state"], q) == z3.Select(g["st"], q), z3.Select(fs["data"], q) == z3.Select(g["dt"], q))))

    def raises(self, I, g, exc):
        return z3.BoolVal(isinstance(exc, RuntimeError) and I.fs.fields["state"].eq(g["st"]))


def _st_contract(I, self_, shard_data, shard_path):
    if I.eng.choose(2):
        raise PyRaise(RuntimeError("write failed"))
    put(I, I.fs, shard_path, z3.IntVal(2), shard_of(I, shard_data))


@contract("P03")
class WriteShardTask(Contract):
    target = M + "TensorWriter._write_shard_task"
    cases = [True, False]
    models = IO_MODELS
    calls = {M + "TensorWriter._save_st": _st_contract}
    trusted = TRUST[:1]

    def setup(self, I, case):
        a, k, g = SaveSafetensors.setup(self, I, case)
        w, d, p = a
        w.fields["safe_serialization"] = case
        return (w, d, z3.Int("number"), p), {}, g

    ensures = SaveSafetensors.ensures
    raises = SaveSafetensors.raises


# ---------------------------------------------------------------- finalize


def _rename(I, old, new):
    fs = I.fs
    f = fs.fields
    I.eng.prove("only-completely-written-files-get-their-final-name", z3.Select(f["state"], S(old)) == 2)
    I.eng.prove("renaming-overwrites-no-shard", z3.Select(f["state"], S(new)) == 0)
    data = z3.Select(f["data"], S(old))
    put(I, fs, old, z3.IntVal(0))
    put(I, fs, new, z3.IntVal(2), data)


def _open(I, path, mode="r", *a, **kw):
    if mode != "w":
        raise Unsupported("open")
    return lib.ModelCM(lambda I: SObj(object, {"path": path}, tag="file"))


def _json_dump(I, obj, f, **kw):
    g = I.state_g
    wm = lib.getitem(I, obj, "weight_map")
    fs = I.fs.fields
    n = z3.String("jdn")
    wd, wv = wmv(wm)
    p = join(I, g["w"].fields["out_path"], z3.Select(wv, n))
    I.eng.prove("index-names-complete-files-only", z3.ForAll([n], z3.Implies(z3.Select(wd, n), z3.And(
        z3.Select(fs["state"], p) == 2, z3.Select(SDOM(z3.Select(fs["data"], p)), n)))))
    I.setattr(I.fs, "index", (f.fields["path"], (wd, wv), lib.getitem(I, lib.getitem(I, obj, "metadata"), "total_size")))


def _result(I, fu, *a):
    if I.eng.choose(2):
        raise PyRaise(RuntimeError("write failed"))
    put(I, I.fs, FPATH(fu), z3.IntVal(2))


FutO.methods["result"] = _result


def _paths(I, g, i, n=None):
    out = g["w"].fields["out_path"]
    return join(I, out, old_name(I, g["case"], i) if n is None else new_name(I, g["case"], i, n))


def _fin0(c):  # waiting for the writers
    g = c.I.state_g
    i = z3.Int("f0i")
    st = c["self.__fs__"].fields["state"]
    p = _paths(c.I, g, i)
    q = z3.String("f0q")
    yield "finished-so-far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(c.i)), z3.Select(st, p) == 2), patterns=[p])
    yield "only-shards-change", z3.ForAll([q], z3.Or(z3.Select(st, q) == z3.Select(g["st0"], q), z3.And(
        z3.Select(st, q) == 2, z3.Select(g["st0"], q) != 0)), patterns=[z3.Select(st, q)])


def _fin1(c):  # the table of final names
    g = c.I.state_g
    d = c["name_remap"]
    dom, val = wmv(d)
    nm, i = z3.String("f1n"), z3.Int("f1i")
    o = old_name(c.I, g["case"], i)
    num = z3.Function("name_number", STR, INT)
    k = Z(c["total_shards"])
    yield "each-shard-so-far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(c.i)), z3.And(
        z3.Select(dom, o), z3.Select(val, o) == new_name(c.I, g["case"], i, k))), patterns=[o])
    yield "nothing-else", z3.ForAll([nm], z3.Implies(z3.Select(dom, nm), z3.And(
        num(nm) >= 0, num(nm) < Z(c.i), nm == old_name(c.I, g["case"], num(nm)))), patterns=[z3.Select(dom, nm)])


def _fin2(c):  # renaming
    g = c.I.state_g
    fs = c["self.__fs__"].fields
    k = Z(c["total_shards"])
    i, q = z3.Int("f2i"), z3.String("f2q")
    o, po, pn = old_name(c.I, g["case"], i), _paths(c.I, g, i), _paths(c.I, g, i, k)
    done = Z(c.seq.idx_of(o)) < Z(c.i)
    d0 = g["dt1"]
    live = z3.And(0 <= i, i < k)
    yield "renamed-so-far", z3.ForAll([i], z3.Implies(live, z3.If(
        done, z3.And(z3.Select(fs["state"], pn) == 2, z3.Select(fs["state"], po) == 0, z3.Select(fs["data"], pn) == z3.Select(d0, po)),
        z3.And(z3.Select(fs["state"], po) == 2, z3.Select(fs["data"], po) == z3.Select(d0, po),
               z3.Select(fs["state"], pn) == 0))), patterns=[po, pn])


def _fin3(c):  # the index refers to the final names
    g = c.I.state_g
    wd, wv = wmv(c["self.weight_map"])
    od, ov = g["wm0"]
    n = z3.String("f3n")
    k = Z(c["total_shards"])
    done = z3.And(z3.Select(od, n), Z(c.seq.idx_of(n)) < Z(c.i))
    yield "mapped-so-far", z3.ForAll([n], z3.And(
        z3.Select(wd, n) == z3.Select(od, n),
        z3.Implies(z3.Select(od, n), z3.Select(wv, n) == z3.If(done, new_name(c.I, g["case"], z3.Select(g["sh"], n), k), z3.Select(ov, n)))),
        patterns=[z3.Select(wv, n), z3.Select(wd, n)])


def _fs_state(I, cur):
    return I.eng.fresh("fs_state", z3.ArraySort(STR, INT))


def _fs_data(I, cur):
    return I.eng.fresh("fs_data", z3.ArraySort(STR, ShardS))


@contract("P03")
class Finalize(Contract):
    """a finished checkpoint holds every saved tensor once, under the final names, with a matching index"""

    target = M + "TensorWriter.finalize"
    cases = CASES
    uf_concat = True
    trusted = TRUST
    timeout_ms = 20000
    calls = {M + "TensorWriter._flush_current_shard": lambda I, self_: _flush_then_note(I, self_)}
    models = {os.rename: _rename, open: _open, json.dump: _json_dump}
    loops = {("TensorWriter.finalize", 0): LoopSpec(_fin0, {"self.__fs__.state": _fs_state}),
             ("TensorWriter.finalize", 1): LoopSpec(_fin1, {"name_remap": HDict(TStr, TStr)}),
             ("TensorWriter.finalize", 2): LoopSpec(_fin2, {"self.__fs__.state": _fs_state, "self.__fs__.data": _fs_data}),
             ("TensorWriter.finalize", 3): LoopSpec(_fin3, {"self.weight_map": HDict(TStr, TStr)})}

    def setup(self, I, case):
        w, g = fresh_writer(I, case, case[2])
        w.fields["_executor"].fields["shutdown"] = ModelFn(lambda I, *a, **k: None, "shutdown")
        assume_inv(I, g, w)
        p, e = comps(case)
        # nothing else lives in the output directory under a final name
        i, n = z3.Int("sfi"), z3.Int("sfn")
        pn = _paths(I, dict(w=w, case=case), i, n)
        fs = I.fs.fields
        single = join(I, w.fields["out_path"], z3.StringVal(f"{p}.{e}"))
        g["clean"] = lambda st: z3.And(z3.ForAll([i, n], z3.Select(st, pn) == 0, patterns=[pn]), z3.Select(st, single) == 0)
        I.eng.assume(g["clean"](fs["state"]))
        kind = z3.Function("name_kind", STR, INT)
        I.eng.assume(kind(z3.StringVal(f"{p}.{e}")) == 2)
        g["single"] = single
        I.state_g = g
        self.note(I, g)
        return (w,), {}, g

    @staticmethod
    def note(I, g):
        w = g["w"]
        g["st0"], g["dt1"], g["wm0"], g["k"] = I.fs.fields["state"], I.fs.fields["data"], wmv(w.fields["weight_map"]), Z(w.fields["shards_written"])

    def ensures(self, I, g, r):
        w, fs = g["w"], I.fs.fields
        k = g["k"]
        n, i = z3.String("enn"), z3.Int("eni")
        sh = z3.Select(g["sh"], n)
        final = z3.If(k == 1, g["single"], _paths(I, g, sh, k))
        data = z3.Select(fs["data"], final)
        for lab, t in (("every-tensor-has-a-shard", z3.And(0 <= sh, sh < k)),
                       ("its-final-file-is-complete", z3.Select(fs["state"], final) == 2),
                       ("every-tensor-in-its-final-file", z3.Select(SDOM(data), n)),
                       ("with-its-exact-content", z3.Select(SCON(data), n) == z3.Select(g["sv"], n))):
            yield lab, z3.Implies(z3.Select(g["saved"], n), t)
        fp = z3.If(k == 1, g["single"], _paths(I, g, i, k))
        di = z3.Select(fs["data"], fp)
        yield "no-tensor-twice", z3.ForAll([i, n], z3.Implies(z3.And(0 <= i, i < k, z3.Select(SDOM(di), n)), z3.And(
            z3.Select(g["saved"], n), sh == i)))
        yield "numbered-consecutively", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(
            z3.Select(fs["state"], fp) == 2, z3.Select(fs["state"], _paths(I, g, i)) == 0)))
        yield "shards-within-limit", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k, Z(w.fields["max_shard_size"]) > 0), z3.Or(
            SSIZE(di) <= Z(w.fields["max_shard_size"]), CARD(SDOM(di)) <= 1)))
        if fs["index"] is None:
            yield "index-when-sharded", k <= 1
        else:
            path, (wd, wv), size = fs["index"]
            p, e = comps(g["case"])
            yield "index-only-when-sharded", k > 1
            yield "index-file-name", S(path) == join(I, w.fields["out_path"], f"{p}.{e}.index.json")
            yield "index-names-the-file", z3.ForAll([n], z3.And(z3.Select(wd, n) == z3.Select(g["saved"], n), z3.Implies(
                z3.Select(wd, n), join(I, w.fields["out_path"], z3.Select(wv, n)) == final)))
            yield "index-has-the-true-total", Z(size) == g["total"]

    def raises(self, I, g, exc):
        # a failed write is reported, and no index was written before
        return z3.BoolVal(isinstance(exc, RuntimeError) and I.fs.fields["index"] is None)


def _flush_then_note(I, self_):
    g = I.state_g
    n = z3.String("ftn")
    k0 = Z(self_.fields["shards_written"])
    _flush_contract(I, self_)
    if self_.fields["shards_written"].eq(k0):
        cd, cv = dv(self_.fields["current_shard"])
        I.eng.assume(z3.ForAll([n], z3.Not(z3.Select(cd, n))))
        I.eng.assume(z3.And(cd == EMPTY, SZ(EMPTY, cv) == 0))  # extensionality; an empty sum
    Finalize.note(I, g)


@contract("P03")
class NewWriter(Contract):
    """a new writer has saved nothing and is configured as asked"""

    target = M + "TensorWriter.__init__"
    cases = CASES
    uf_concat = True
    models = {os.makedirs: lambda I, *a, **k: None, threading.RLock: lambda I: SObj(object, tag="lock"),
              ThreadPoolExecutor: lambda I, *a, **k: SObj(object, tag="executor")}

    def setup(self, I, case):
        w = SObj(TW.TensorWriter, {"__fs__": new_fs(I)})
        I.fs = w.fields["__fs__"]
        name_facts(I, case)
        x = z3.Const("anyt", TENS)
        I.eng.assume(z3.ForAll([x], SZ(EMPTY, x) == 0, patterns=[SZ(EMPTY, x)]))
        I.eng.assume(CARD(EMPTY) == 0)
        gh = dict(saved=EMPTY, sv=z3.Const("saved_content", z3.ArraySort(STR, ContentS)),
                  sh=z3.Const("shard_no", z3.ArraySort(STR, INT)), total=z3.IntVal(0), case=case, w=w)
        out, mx = z3.String("out"), z3.Int("max_size")
        return (w, out), dict(max_shard_size=mx, safe_serialization=case[1], override_basename=case[0], use_async=case[2],
                              max_write_threads=z3.Int("threads")), gh

    def ensures(self, I, g, r):
        w, case = g["w"], g["case"]
        f = w.fields
        yield "as-asked", z3.And(S(f["out_path"]) == z3.String("out"), Z(f["max_shard_size"]) == z3.Int("max_size"), z3.BoolVal(
            f["safe_serialization"] == case[1] and f["override_basename"] == case[0] and f["use_async"] == case[2]))
        yield from invariant(I, g, w)


@contract("P03")
class ExitFinishes(Contract):
    """leaving the with block without an error finishes the checkpoint, and swallows no error"""

    target = M + "TensorWriter.__exit__"
    cases = [False, True]
    calls = {M + "TensorWriter.finalize": lambda I, self_: I.setattr(self_, "finished", True)}

    def setup(self, I, case):
        w = SObj(TW.TensorWriter, {"finished": False})
        e = ValueError("x") if case else None
        return (w, type(e) if case else None, e, None), {}, (w, case)

    def ensures(self, I, g, r):
        w, err = g
        yield "finished", z3.BoolVal(w.fields["finished"] is True or err)
        yield "errors-propagate", z3.BoolVal(not r)
