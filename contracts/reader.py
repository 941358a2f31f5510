"""Contracts of checkpoint reading (mergekit/io/lazy_tensor_loader.py, loader.py, lazy_unpickle.py).

A checkpoint on disk is ghost state: which files exist, and what tensor a file
holds under a name.  A torch archive entry is a sequence of storage elements."""

import json
import os
import pickle
import zipfile

import safetensors
import torch
import z3

import mergekit.io.lazy_tensor_loader as LT
import mergekit.io.lazy_unpickle as LU
import mergekit.io.loader as LO
from pyvc import lib
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import LoopSpec, SDict, SList, SObj

from .util import *

T_ = "mergekit.io.lazy_tensor_loader:"
U_ = "mergekit.io.lazy_unpickle:"
L_ = "mergekit.io.loader:"
TenO = Opaque("RTensor", pyclass=torch.Tensor)
VAL = z3.Function("value_of", TenO.sort, z3.DeclareSort("RValue"))  # dtype, shape and elements
STORED = z3.Function("stored", STR, STR, TenO.sort)  # file, name -> tensor
HOLDS = z3.Function("holds", STR, STR, BOOL)  # file, name
EXISTS = z3.Function("exists", STR, BOOL)
TDEV = z3.Function("on_device", TenO.sort, STR)
STRS = z3.ArraySort(STR, BOOL)


def _to(I, t, device=None, **kw):
    r = I.eng.fresh("moved", TenO.sort)
    I.eng.assume(z3.And(VAL(r) == VAL(t), TDEV(r) == S(device)))
    return r


TenO.methods["to"] = _to


def pjoin(I, a, b):
    """os.path.join of a directory and a relative file name (POSIX)"""
    a, b = S(a), S(b)
    return z3.If(z3.Or(a == z3.StringVal(""), z3.SuffixOf(z3.StringVal("/"), a)), z3.Concat(a, b),
                 z3.Concat(a, z3.StringVal("/"), b))


class _Shard:
    pass


def _shard_get(I, o, key):
    p = o.fields["path"]
    if not I.eng.branch(HOLDS(p, S(key))):
        raise PyRaise(KeyError("not in this shard"))
    return STORED(p, S(key))


# ---------------------------------------------------------------- LazyTensorLoader


def _open_shard(I, cls, shard_path, use_lazy_unpickle=False, device=None):
    """contract of TensorLoader.get: a loader of exactly that file, or an error"""
    if I.eng.choose(2):
        raise PyRaise(OSError("cannot open"))
    I.eng.prove("opened-as-configured", B(use_lazy_unpickle) == I.state_g["lazy"])
    return SObj(_Shard, {"path": S(shard_path)})


def fresh_loader(I, opened):
    paths = SDict(kt=TStr, vt=TStr, dom=z3.Const("tp_dom", STRS), val=z3.Const("tp_val", z3.ArraySort(STR, STR)))
    lazy = z3.Bool("lazy_unpickle")
    base = z3.String("base_path")
    ix = SObj(LT.ShardedTensorIndex, {"base_path": base, "is_safetensors": z3.Bool("is_st"), "tensor_paths": paths, "shards": None})
    cf = z3.String("current_file") if opened != "none" else None
    cs = SObj(_Shard, {"path": pjoin(I, base, cf)}) if opened == "open" else None
    w = SObj(LT.LazyTensorLoader, {"index": ix, "current_shard": cs, "current_shard_file": cf, "lazy_unpickle": lazy,
                                   "lock": SObj(object, tag="lock")})
    return w, dict(w=w, dom=paths.dom, val=paths.val, base=base, lazy=lazy)


def loader_inv(I, g):
    """the open shard is the file it is remembered to be"""
    f = g["w"].fields
    cs, cf = f["current_shard"], f["current_shard_file"]
    if cs is None:
        return z3.BoolVal(True)
    if cf is None:
        return z3.BoolVal(False)
    return cs.fields["path"] == pjoin(I, g["base"], cf)


def _alias_inv(c):
    g = c.I.state_g
    k = z3.Int("ali")
    yield "key-unchanged", S(c["key"]) == g["key"]
    yield "none-so-far", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(c.i)), z3.Not(
        z3.Select(g["dom"], z3.Select(g["al"], k)))), patterns=[z3.Select(g["al"], k)])


@contract("P04", "P15")
class GetTensor(Contract):
    """the tensor stored under the name, else under the first alias present; KeyError or None if absent"""

    target = T_ + "LazyTensorLoader.get_tensor"
    cases = [(o, a) for o in ("none", "closed", "open") for a in (False, True)]
    models = {os.path.join: pjoin, (_Shard, "get_tensor"): _shard_get,
              os.path.basename: lambda I, p: z3.Function("basename", STR, STR)(S(p)),
              os.path.dirname: lambda I, p: z3.Function("dirname", STR, STR)(S(p))}
    calls = {L_ + "TensorLoader.get": _open_shard}
    loops = {("LazyTensorLoader.get_tensor", 0): LoopSpec(_alias_inv, {"key": TStr})}

    def setup(self, I, case):
        o, a = case
        w, g = fresh_loader(I, o)
        g.update(key=z3.String("key"), dev=z3.String("device"), must=z3.Bool("raise_on_missing"),
                 al=z3.Const("aliases", z3.ArraySort(INT, STR)), na=z3.Int("n_aliases"), has=a)
        I.eng.assume(g["na"] >= 0)
        I.state_g = g
        al = SList(n=g["na"], t=TStr, arr=g["al"]) if a else None
        return (w, g["key"], g["dev"], al, g["must"]), {}, g

    def found(self, g):
        """(present, name) of the tensor asked for"""
        k = z3.Int("fnk")
        j = z3.Int("first_alias")
        here = z3.Select(g["dom"], g["key"])
        if not g["has"]:
            return here, g["key"], []
        alias = lambda x: z3.Select(g["dom"], z3.Select(g["al"], x))
        some = z3.Exists([k], z3.And(0 <= k, k < g["na"], alias(k)))
        first = [z3.Implies(some, z3.And(0 <= j, j < g["na"], alias(j))),
                 z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), z3.Not(alias(k))), patterns=[z3.Select(g["al"], k)])]
        return z3.Or(here, some), z3.If(here, g["key"], z3.Select(g["al"], j)), first

    def ensures(self, I, g, r):
        there, name, facts = self.found(g)
        for f in facts:
            I.eng.assume(z3.Implies(there, f))
        yield "open-shard-is-the-remembered-file", loader_inv(I, g)
        if r is None:
            yield "none-only-if-absent-and-allowed", z3.And(z3.Not(there), z3.Not(g["must"]))
            return
        p = pjoin(I, g["base"], z3.Select(g["val"], name))
        yield "present", there
        yield "the-stored-tensor", VAL(r) == VAL(STORED(p, name))
        yield "on-the-device", TDEV(r) == g["dev"]

    def raises(self, I, g, exc):
        there, name, facts = self.found(g)
        for f in facts:
            I.eng.assume(z3.Implies(there, f))
        I.eng.prove("consistent-after-an-error", loader_inv(I, g))
        if isinstance(exc, OSError):
            return z3.BoolVal(True)
        if isinstance(exc, KeyError):
            p = pjoin(I, g["base"], z3.Select(g["val"], name))
            return z3.Or(z3.And(z3.Not(there), g["must"]), z3.And(there, z3.Not(HOLDS(p, name))))
        return False


@contract("P04")
class Flush(Contract):
    target = T_ + "LazyTensorLoader.flush"
    cases = ["none", "closed", "open"]

    def setup(self, I, case):
        w, g = fresh_loader(I, case)
        return (w,), {}, g

    def ensures(self, I, g, r):
        f = g["w"].fields
        yield "nothing-open", z3.BoolVal(f["current_shard"] is None and f["current_shard_file"] is None)


# ---------------------------------------------------------------- ShardedTensorIndex


def _open(I, path, mode="r", *a, **kw):
    if mode not in ("r", "rt"):
        raise Unsupported("open")
    if not I.eng.branch(EXISTS(S(path))):
        raise PyRaise(FileNotFoundError(2, "no such file"))
    return lib.ModelCM(lambda I: SObj(_Shard, {"path": S(path)}, tag="file"))


def _json_load(I, fd, **kw):
    g = I.state_g
    g["read"] = fd.fields["path"]
    return SDict(pairs=[("metadata", SDict()), ("weight_map", SDict(pairs=list(g["wm"])))])


ONE = z3.StringVal("model.safetensors")
BIN = z3.StringVal("pytorch_model.bin")


@contract("P04")
class FromDisk(Contract):
    """safetensors before pickles, an index before a single file; every name is mapped to its file"""

    target = T_ + "ShardedTensorIndex.from_disk"
    cases = [0, 1, 2, 3]
    bounded = "up to 3 tensors in the index file (any shard names)"
    models = {os.path.join: pjoin, os.path.exists: lambda I, p: EXISTS(S(p)), open: _open, json.load: _json_load}
    calls = {T_ + "ShardedTensorIndex.from_file": lambda I, cls, path: SObj(_Shard, {"path": S(path)}, tag="from_file")}

    def setup(self, I, n):
        base = z3.String("base_path")
        wm = [(f"t{k}", z3.String(f"shard{k}")) for k in range(n)]
        g = dict(base=base, wm=wm, read=None)
        I.state_g = g
        return (LT.ShardedTensorIndex, base), {}, g

    def at(self, I, g, name, index=False):
        return EXISTS(z3.Concat(pjoin(I, g["base"], name), z3.StringVal(".index.json" if index else "")))

    def ensures(self, I, g, r):
        st = z3.Or(self.at(I, g, ONE), self.at(I, g, ONE, True))
        which = z3.If(st, ONE, BIN)
        single = pjoin(I, g["base"], which)
        index = z3.Concat(single, z3.StringVal(".index.json"))
        if r.cls is _Shard:
            yield "a-single-file-without-an-index", z3.And(EXISTS(single), z3.Not(EXISTS(index)), r.fields["path"] == single)
            return
        f = r.fields
        yield "the-index-of-the-preferred-format", z3.And(z3.BoolVal(g["read"] is not None), g["read"] == index)
        yield "base-path", S(f["base_path"]) == g["base"]
        yield "format", B(f["is_safetensors"]) == st
        tp = f["tensor_paths"].pairs
        yield "every-name-and-its-file", z3.And(z3.BoolVal([k for k, _ in tp] == [k for k, _ in g["wm"]]), *[
            S(a) == S(b) for (_, a), (_, b) in zip(tp, g["wm"])])
        sh = [s.fields for s in f["shards"].items]
        names = [S(s["filename"]) for s in sh]
        yield "shards-listed-once", z3.Distinct(*names) if len(names) > 1 else z3.BoolVal(True)
        yield "all-shards", z3.And(*[z3.Or(*[S(v) == x for x in names]) for _, v in g["wm"]], z3.BoolVal(len(sh) <= len(g["wm"])))
        for s in sh:
            held = s["contained_keys"].items
            yield "keys-of-the-shard", z3.And(*[(S(s["filename"]) == S(v)) == z3.BoolVal(k in held) for k, v in g["wm"]],
                                              z3.BoolVal(len(set(held)) == len(held)))

    def raises(self, I, g, exc):
        if isinstance(exc, RuntimeError):
            return z3.Not(z3.Or(*[self.at(I, g, n, i) for n in (ONE, BIN) for i in (False, True)]))
        return False


class _St:
    pass


@contract("P04")
class FromFile(Contract):
    target = T_ + "ShardedTensorIndex.from_file"
    cases = ["st", "plain", "state_dict"]
    models = {os.path.exists: lambda I, p: EXISTS(S(p)), os.path.dirname: lambda I, p: z3.Function("dirname", STR, STR)(S(p)),
              os.path.basename: lambda I, p: z3.Function("basename", STR, STR)(S(p)),
              safetensors.safe_open: lambda I, p, framework=None, device=None: lib.ModelCM(
                  lambda I: SObj(_St, {"path": S(p)})),
              (_St, "keys"): lambda I, o: SList(n=I.state_g["n"], t=TStr, arr=I.state_g["names"]),
              torch.load: lambda I, p, **kw: I.state_g["load"](I, p)}

    def setup(self, I, case):
        p = z3.String("file_path")
        n, names = z3.Int("n_names"), z3.Const("names", z3.ArraySort(INT, STR))
        I.eng.assume(n >= 0)
        i, j = z3.Ints("ffi ffj")
        I.eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(names, i) != z3.Select(names, j))))
        low = z3.Function("str_lower", STR, STR)(p)
        st = z3.SuffixOf(z3.StringVal(".safetensors"), low)
        I.eng.assume(st if case == "st" else z3.Not(st))
        dom = z3.Const("loaded_names", STRS)
        plain = SDict(kt=TStr, vt=TOpaque(TenO), dom=dom, val=z3.Const("loaded", z3.ArraySort(STR, TenO.sort)))
        g = dict(p=p, n=n, names=names, case=case, dom=dom,
                 load=lambda I, q: plain if case == "plain" else SDict(pairs=[("epoch", 3), ("state_dict", plain)]))
        if case == "plain":
            I.eng.assume(z3.Not(z3.Select(dom, z3.StringVal("state_dict"))))
        I.state_g = g
        return (LT.ShardedTensorIndex, p), {}, g

    def ensures(self, I, g, r):
        f = r.fields
        x, k = z3.String("ffx"), z3.Int("ffk")
        name = z3.Function("basename", STR, STR)(g["p"])
        tp = f["tensor_paths"]
        has = B(lib.contains(I, tp, x))
        if g["case"] == "st":
            yield "every-name-of-the-file", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g["n"]), B(lib.contains(I, tp, z3.Select(g["names"], k)))))
            yield "no-other-name", z3.Implies(has, z3.Exists([k], z3.And(0 <= k, k < g["n"], z3.Select(g["names"], k) == x)))
        else:
            yield "only-names-of-the-file", z3.Implies(has, z3.Select(g["dom"], x))
            yield "every-name-of-the-file", z3.Implies(z3.Select(g["dom"], x), has)
        if I.eng.branch(has):
            yield "in-this-file", S(lib.getitem(I, tp, x)) == name
        yield "base", S(f["base_path"]) == z3.Function("dirname", STR, STR)(g["p"])
        yield "format", B(f["is_safetensors"]) == z3.BoolVal(g["case"] == "st")
        sh = f["shards"].items
        yield "one-shard", z3.And(z3.BoolVal(len(sh) == 1), S(sh[0].fields["filename"]) == name)

    def raises(self, I, g, exc):
        if isinstance(exc, FileNotFoundError):
            return z3.Not(EXISTS(g["p"]))
        return False


# ---------------------------------------------------------------- choice of loader


@contract("P04")
class LoaderFor(Contract):
    """safetensors files are never unpickled; pickles go through the restricted or the weights-only unpickler"""

    target = L_ + "TensorLoader.get"
    models = {safetensors.safe_open: lambda I, p, framework=None, device=None: SObj(_St, {"path": S(p), "device": device})}

    def __init__(self):
        self.calls = {L_ + "LazyPickleLoader.__init__": self.ctor, L_ + "DumbPytorchLoader.__init__": self.ctor}

    def ctor(self, I, o, path, device=None):
        I.setattr(o, "path", path)
        I.setattr(o, "device", device)

    def setup(self, I, case):
        p, lazy = z3.String("shard_path"), z3.Bool("lazy")
        return (LO.TensorLoader, p, lazy, z3.String("device")), {}, (p, lazy)

    def ensures(self, I, g, r):
        p, lazy = g
        st = z3.SuffixOf(z3.StringVal(".safetensors"), z3.Function("str_lower", STR, STR)(p))
        yield "loader", {_St: st, LO.LazyPickleLoader: z3.And(z3.Not(st), lazy),
                         LO.DumbPytorchLoader: z3.And(z3.Not(st), z3.Not(lazy))}.get(r.cls, z3.BoolVal(False))
        yield "of-this-file", S(r.fields["path"]) == p


# ---------------------------------------------------------------- restricted unpickler

SAFE = {("torch._utils", "_rebuild_tensor_v2"), ("collections", "OrderedDict"), ("numpy.core.multiarray", "scalar"),
        ("numpy", "dtype"), ("_codecs", "encode")} | {("torch", n + "Storage") for n in (
            "Double", "Float", "Half", "Long", "Int", "Short", "Char", "Byte", "Bool", "BFloat16")}


@contract("P04")
class FindClass(Contract):
    """no global outside the fixed list of tensor-rebuilding types is ever resolved, whatever the file names"""

    target = U_ + "LazyTorchUnpickler.find_class"

    def setup(self, I, case):
        m, n = z3.Strings("module name")
        return (SObj(LU.LazyTorchUnpickler, {}), m, n), {}, (m, n)

    def ensures(self, I, g, r):
        m, n = g
        hit = [(a, b) for (a, b) in sorted(SAFE)]
        yield "only-listed-globals", z3.Or(*[z3.And(m == z3.StringVal(a), n == z3.StringVal(b)) for a, b in hit])
        safe = [getattr(torch, b) for a, b in SAFE if a == "torch"] + [
            torch._utils._rebuild_tensor_v2, LU.collections.OrderedDict, LU.codecs.encode,
            LU.numpy.core.multiarray.scalar, LU.numpy.dtype]
        yield "only-harmless-objects", z3.BoolVal(any(r is x for x in safe))
        for a, b in hit:
            if a == "torch":
                yield "the-named-storage", z3.Implies(z3.And(m == z3.StringVal(a), n == z3.StringVal(b)),
                                                      z3.BoolVal(r is getattr(torch, b)))

    def raises(self, I, g, exc):
        m, n = g
        if isinstance(exc, pickle.UnpicklingError):
            return z3.Not(z3.Or(*[z3.And(m == z3.StringVal(a), n == z3.StringVal(b)) for a, b in SAFE]))
        return False


# ---------------------------------------------------------------- archive entries


class _Zip:
    pass


class _Entry:
    pass


def _zip_open(I, o, name, mode="r"):
    """ZipFile.open: a handle at the start of the entry, or KeyError"""
    if not I.eng.branch(z3.Function("entry_exists", STR, BOOL)(S(name))):
        raise PyRaise(KeyError("no such entry"))
    return SObj(_Entry, {"name": S(name), "pos": z3.IntVal(0), "open": True})


def _tell(I, o):
    if not o.fields["open"]:
        raise PyRaise(ValueError("tell on closed file."))
    return o.fields["pos"]


def _seek(I, o, off, whence=0):
    if whence != os.SEEK_CUR:
        I.setattr(o, "pos", Z(off))
    else:
        I.setattr(o, "pos", o.fields["pos"] + Z(off))


@contract("P04")
class OpenFile(Contract):
    """a handle on the named storage, positioned exactly at the offset, whatever was read before"""

    target = U_ + "TorchArchiveReader.open_file"
    cases = [False, True]
    models = {(_Zip, "open"): _zip_open, (_Entry, "tell"): _tell, (_Entry, "seek"): _seek,
              (_Entry, "close"): lambda I, o: I.setattr(o, "open", False)}

    def setup(self, I, case):
        root = z3.String("root")
        cur = z3.String("current_name") if case else None
        pos = z3.Int("pos")
        I.eng.assume(pos >= 0)
        g = dict(root=root, name=z3.String("file_name"), off=z3.Int("offset"), cur=cur)
        I.eng.assume(g["off"] >= 0)
        self.entry = lambda n: (z3.Concat(z3.StringVal("archive/data/"), n), z3.Concat(root, z3.StringVal("/data/"), n))
        f = None
        if case:
            a, b = self.entry(cur)
            ex = z3.Function("entry_exists", STR, BOOL)
            f = SObj(_Entry, {"name": z3.If(ex(a), a, b), "pos": pos, "open": True})
        r = SObj(LU.TorchArchiveReader, {"archive": SObj(_Zip, {}), "archive_name": root, "file_name": cur, "file": f})
        g["r"] = r
        return (r, g["name"], g["off"]), {}, g

    def ensures(self, I, g, h):
        a, b = self.entry(g["name"])
        ex = z3.Function("entry_exists", STR, BOOL)
        yield "the-named-storage", h.fields["name"] == z3.If(ex(a), a, b)
        yield "at-the-offset", z3.And(h.fields["pos"] == g["off"], z3.BoolVal(h.fields["open"]))
        f = g["r"].fields
        yield "remembered", z3.And(z3.BoolVal(f["file"] is h), S(f["file_name"]) == g["name"])

    def raises(self, I, g, exc):
        a, b = self.entry(g["name"])
        ex = z3.Function("entry_exists", STR, BOOL)
        if isinstance(exc, KeyError):
            return z3.Not(z3.Or(ex(a), ex(b)))
        return False


# ---------------------------------------------------------------- deferred tensors

DtO = Opaque("RDtype", pyclass=torch.dtype)
ISZ = z3.Function("itemsize", DtO.sort, INT)
DtO.attrs["itemsize"] = lambda I, t: ISZ(t)
ELS = z3.Function("stored_element", STR, INT, REAL)  # archive entry, element index
BYTES = z3.Function("entry_bytes", STR, INT)


class _Raw:
    pass


class _Ten:
    pass


def _execute_open(I, self_, file_name, offset=0):
    """contract of TorchArchiveReader.open_file (OpenFile)"""
    I.eng.prove("offset-in-range", Z(offset) >= 0)
    return SObj(_Entry, {"name": S(file_name), "pos": Z(offset), "open": True})


def _read(I, o, n):
    n, p = Z(n), o.fields["pos"]
    I.eng.prove("reads-within-the-entry", z3.And(n >= 0, p + n <= BYTES(o.fields["name"])))
    return SObj(_Raw, {"name": o.fields["name"], "start": p, "len": n})


def _from_buffer(I, cls_or_buf, *a, **kw):
    buf = cls_or_buf if isinstance(cls_or_buf, SObj) else a[0]
    dt = kw.get("dtype")
    f = buf.fields
    return SObj(_Raw, dict(f, dtype=dt, device="cpu"), tag="storage")


def _set(I, o, storage, off, shape, stride):
    f = storage.fields
    I.setattr(o, "storage", storage)
    I.setattr(o, "off", off)
    I.setattr(o, "shape", shape)
    I.setattr(o, "stride", stride)


@contract("P04")
class Execute(Contract):
    """a deferred tensor reads exactly its view of the storage: every element, nothing out of range"""

    target = U_ + "DeferredLoad.execute"
    cases = [0, 1, 2, 3]
    calls = {U_ + "TorchArchiveReader.open_file": _execute_open}
    timeout_ms = 20000

    def __init__(self):
        self.models = {(_Entry, "read"): _read, torch.UntypedStorage.from_buffer: _from_buffer,
                       torch.serialization._get_restore_location: lambda I, loc: ("restore", loc),
                       torch.tensor: lambda I, d, dtype=None, device=None: SObj(_Ten, {"dtype": dtype}),
                       (_Ten, "set_"): _set}

    def setup(self, I, rank):
        from pyvc.interp import ModelFn

        self.models[torch.serialization._get_restore_location] = lambda I, loc: ModelFn(lambda I, st, l: st)
        dims = [z3.Int(f"dim{k}") for k in range(rank)]
        strides = [z3.Int(f"stride{k}") for k in range(rank)]
        dt = z3.Const("dtype", DtO.sort)
        off = z3.Int("first_element")
        name = z3.String("storage_name")
        for d in dims + strides + [off]:
            I.eng.assume(d >= 0)
        I.eng.assume(ISZ(dt) >= 1)
        # the checkpoint is well formed: every element of the view lies within its storage
        self.last = [d - 1 for d in dims]
        at = lambda ix: off + sum((i * s for i, s in zip(ix, strides)), z3.IntVal(0))
        nonempty = z3.And(*[d > 0 for d in dims], True)
        I.eng.assume(z3.And(BYTES(name) >= 0, off * ISZ(dt) <= BYTES(name)))
        I.eng.assume(z3.Implies(nonempty, (at(self.last) + 1) * ISZ(dt) <= BYTES(name)))
        o = SObj(LU.DeferredLoad, {"name": name, "location": z3.String("location"), "dtype": dt, "file_offset": off * ISZ(dt),
                                   "shape": tuple(dims), "stride": tuple(strides), "requires_grad": False,
                                   "_backward_hooks": None})
        g = dict(dims=dims, strides=strides, dt=dt, off=off, name=name, at=at, nonempty=nonempty)
        return (o, SObj(LU.TorchArchiveReader, {}), None), {}, g

    def ensures(self, I, g, r):
        f = r.fields
        st = f["storage"].fields
        yield "shape", z3.BoolVal(len(f["shape"]) == len(g["dims"]) and all(a is b for a, b in zip(f["shape"], g["dims"])))
        yield "dtype", z3.And(f["dtype"] == g["dt"], st["dtype"] == g["dt"])
        yield "its-own-storage", st["name"] == g["name"]
        idx = [z3.Int(f"ix{k}") for k in range(len(g["dims"]))]
        rng = z3.And(*[z3.And(0 <= i, i < d) for i, d in zip(idx, g["dims"])], True)
        I.eng.assume(rng)
        inner = Z(f["off"]) + sum((i * Z(s) for i, s in zip(idx, f["stride"])), z3.IntVal(0))
        for i, d, s in zip(idx, g["dims"], g["strides"]):
            yield "lemma:monotone", (d - 1 - i) * s >= 0
            I.eng.assume((d - 1 - i) * s >= 0)
            I.eng.assume(i * s >= 0)
        yield "element-by-element", st["start"] + inner * ISZ(g["dt"]) == g["at"](idx) * ISZ(g["dt"])
        sp, sz = self.span(g), ISZ(g["dt"])
        yield "lemma:within-the-span", z3.And(inner - Z(f["off"]) >= 0, inner - Z(f["off"]) + 1 <= sp)
        I.eng.assume(z3.And(inner - Z(f["off"]) + 1 <= sp))
        yield "no-element-out-of-range", z3.And(inner >= 0, (inner + 1) * sz <= st["len"])

    def span(self, g):
        return 1 + sum(((d - 1) * s for d, s in zip(g["dims"], g["strides"])), z3.IntVal(0))


@contract("P04")
class Rebuild(Contract):
    """the view's position is recorded in bytes of its own dtype"""

    target = U_ + "DeferredLoad.rebuild"

    def setup(self, I, case):
        dt = z3.Const("dtype", DtO.sort)
        o = SObj(LU.DeferredLoad, {"name": z3.String("n"), "location": z3.String("l"), "dtype": dt, "file_offset": None,
                                   "shape": None, "stride": None, "requires_grad": False})
        sh, st = (z3.Int("a"), z3.Int("b")), (z3.Int("c"), z3.Int("d"))
        return (o, z3.Int("offset"), sh, st), {}, (o, dt, sh, st)

    def ensures(self, I, g, r):
        o, dt, sh, st = g
        f = r.fields
        yield "same-object", z3.BoolVal(r is o)
        yield "view", z3.BoolVal(f["shape"] == sh and f["stride"] == st)
        yield "bytes", Z(f["file_offset"]) == z3.Int("offset") * ISZ(dt)


@contract("P04")
class LazyGet(Contract):
    """a name of the file yields its own deferred tensor, read from this file's archive"""

    target = L_ + "LazyPickleLoader.get_tensor"

    def __init__(self):
        self.calls = {U_ + "DeferredLoad.execute": self.ex}

    def ex(self, I, o, reader, map_location=None):
        return SObj(_Ten, {"of": o, "reader": reader, "loc": map_location})

    def setup(self, I, case):
        ld = [SObj(LU.DeferredLoad, {"name": str(k)}) for k in range(2)]
        rd = SObj(LU.TorchArchiveReader, {})
        o = SObj(LO.LazyPickleLoader, {"zip_reader": rd, "index": SDict(pairs=[("a", ld[0]), ("b", ld[1])]), "device": z3.String("dev")})
        k = z3.String("key")
        return (o, k), {}, (k, ld, rd)

    def ensures(self, I, g, r):
        k, ld, rd = g
        f = r.fields
        yield "its-own-tensor", z3.And(z3.BoolVal(f["reader"] is rd), z3.If(
            k == z3.StringVal("a"), z3.BoolVal(f["of"] is ld[0]), z3.And(k == z3.StringVal("b"), z3.BoolVal(f["of"] is ld[1]))))
        yield "on-the-device", S(f["loc"]) == z3.String("dev")

    def raises(self, I, g, exc):
        return z3.And(g[0] != z3.StringVal("a"), g[0] != z3.StringVal("b")) if isinstance(exc, KeyError) else False
