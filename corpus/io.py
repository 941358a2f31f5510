"""Run-time contracts of mergekit/io: writing, reading, tensor tasks."""

import contextlib
import json
import os
import pickle
import shutil
import tempfile
import threading

import safetensors.torch
import torch

from mergekit.io.lazy_tensor_loader import LazyTensorLoader, ShardedTensorIndex
from mergekit.io.tensor_writer import TensorWriter
from pyvc.rt import Skip, case

DTYPES = [torch.float32, torch.float16, torch.bfloat16, torch.int64, torch.uint8, torch.bool, torch.float64]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vfio")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rand_tensor(rng, g, views=True):
    shape = [rng.randrange(1, 6) for _ in range(rng.randrange(0, 4))]
    if rng.random() < 0.05:
        shape = shape + [0]
    dt = rng.choice(DTYPES)
    t = (torch.randn(shape, generator=g) * 50)
    t = (t > 0) if dt == torch.bool else (t.abs().to(dt) if dt == torch.uint8 else t.to(dt))
    if views and t.dim() >= 2:
        k = rng.randrange(4)
        if k == 1:
            t = t.transpose(0, 1)
        elif k == 2:
            t = t[:, : max(1, t.shape[1] - 1)]
        elif k == 3:
            t = t[::2]
    return t


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and torch.equal(a.cpu(), b.cpu())


def nbytes(t):
    return t.numel() * t.element_size()


def read_file(path):
    if path.endswith(".safetensors"):
        return safetensors.torch.load_file(path)
    return torch.load(path, weights_only=True)


def gen(rng):
    g = torch.Generator()
    g.manual_seed(rng.randrange(1 << 30))
    return g


@case("P03", "up to 14 tensors of up to 3 dims, shard limits from 0 bytes up, sync/async with 1-3 writer threads, "
      "safetensors and .bin", quick=400, deep=4000, limit=60)
def written_checkpoint_is_complete(rng, i, note):
    g = gen(rng)
    n = rng.randrange(0, 15)
    safe = rng.random() < 0.6
    tensors = {f"layer.{k}.w" if rng.random() < 0.8 else f"x{k}": rand_tensor(rng, g) for k in range(n)}
    limit = rng.choice([0, -1, 1, 64, 200, 500, 2000, 10**9, None])
    if limit is None and tensors:
        limit = nbytes(next(iter(tensors.values()))) + nbytes(list(tensors.values())[-1])
    elif limit is None:
        limit = 10
    base = rng.choice([None, None, "custom", "model-1"])
    use_async = rng.random() < 0.5
    clone = rng.random() < 0.5
    alias = None
    if len(tensors) > 1 and rng.random() < 0.2:  # shared memory
        names = list(tensors)
        tensors[names[-1]] = tensors[names[0]]
        alias = (names[0], names[-1])
    note(dict(sizes={k: nbytes(t) for k, t in tensors.items()}, limit=limit, safe=safe, base=base, use_async=use_async,
              clone=clone, alias=alias))
    with scratch() as d:
        out = os.path.join(d, "out", "deep")
        kw = dict(max_shard_size=limit, safe_serialization=safe, override_basename=base, use_async=use_async,
                  max_write_threads=rng.randrange(1, 4))
        w = TensorWriter(out, **kw)
        order = list(tensors)
        if rng.random() < 0.3 and use_async:
            ths = [threading.Thread(target=lambda ks=order[k::3]: [w.save_tensor(x, tensors[x], clone=clone) for x in ks])
                   for k in range(3)]
            [t.start() for t in ths]
            [t.join() for t in ths]
        else:
            for k in order:
                w.save_tensor(k, tensors[k], clone=clone)
                if clone and rng.random() < 0.2 and tensors[k].dtype.is_floating_point and not alias:
                    # a cloned tensor is captured at the time of the call
                    keep = tensors[k].clone()
                    tensors[k].zero_()
                    tensors[k] = keep
        if rng.random() < 0.5:
            w.finalize()
        else:
            with w:
                pass
        prefix = base or ("model" if safe else "pytorch_model")
        ext = "safetensors" if safe else "bin"
        files = sorted(os.listdir(out))
        if not tensors:
            assert not [f for f in files if f.endswith("." + ext)], files
            return "empty"
        index = f"{prefix}.{ext}.index.json"
        if index in files:
            with open(os.path.join(out, index)) as f:
                idx = json.load(f)
            shards = sorted(f for f in files if f.endswith("." + ext))
            k = len(shards)
            assert k > 1, "an index for a single shard"
            assert shards == [f"{prefix}-{j + 1:05d}-of-{k:05d}.{ext}" for j in range(k)], shards
            assert set(files) == set(shards) | {index}, ("stray files", files)
            wm = idx["weight_map"]
            assert set(wm) == set(tensors), ("index names", set(wm) ^ set(tensors))
            assert idx["metadata"]["total_size"] == sum(nbytes(t) for t in tensors.values()), (
                "total_size", idx["metadata"]["total_size"], sum(nbytes(t) for t in tensors.values()))
            found = {}
            for s in shards:
                data = read_file(os.path.join(out, s))
                assert data, ("empty shard", s)
                size = sum(nbytes(t) for t in data.values())
                assert limit > 0 and (size <= limit or len(data) == 1), ("shard over the limit", s, size, limit)
                for nme, t in data.items():
                    assert nme not in found, (nme, "written twice")
                    assert wm[nme] == s, (nme, "is in", s, "but indexed in", wm[nme])
                    found[nme] = t
        else:
            assert files == [f"{prefix}.{ext}"], files
            found = read_file(os.path.join(out, files[0]))
            tot = sum(nbytes(t) for t in tensors.values())
            assert limit <= 0 or tot <= limit or len(tensors) == 1, ("single shard over the limit", tot, limit)
        assert set(found) == set(tensors), ("tensors on disk", set(found) ^ set(tensors))
        for nme, t in tensors.items():
            assert same(found[nme], t), (nme, "content differs")
            assert found[nme].is_contiguous()
        # and mergekit reads back what it wrote
        if base is None:
            ld = LazyTensorLoader.from_disk(out, lazy_unpickle=rng.random() < 0.5)
            for nme in rng.sample(order, len(order)):
                assert same(ld.get_tensor(nme), tensors[nme]), (nme, "reads back differently")
    return [limit, safe, n]


@case("P03", "names saved again before or after their shard was written, shard limits of 1-4 tensors", deep=600)
def last_saved_value_wins(rng, i, note):
    names = [rng.choice("abcdef") for _ in range(rng.randrange(1, 12))]
    limit = rng.choice([8, 16, 24, 32, 1000])
    safe, use_async = rng.random() < 0.6, rng.random() < 0.4
    note(dict(names=names, limit=limit, safe=safe, use_async=use_async))
    with scratch() as d:
        w = TensorWriter(d, max_shard_size=limit, safe_serialization=safe, use_async=use_async)
        want = {}
        for k, n in enumerate(names):
            want[n] = torch.full((2,), float(k))
            w.save_tensor(n, want[n])
        w.finalize()
        ld = LazyTensorLoader.from_disk(d, lazy_unpickle=rng.random() < 0.5)
        assert set(ld.index.tensor_paths) == set(want), ("names", sorted(ld.index.tensor_paths))
        for n, t in want.items():
            assert same(ld.get_tensor(n), t), (n, "is not the value saved last")


@case("P03", "up to 6 tensors; the background or foreground write of one shard fails", quick=60, deep=400, limit=30)
def failed_write_is_reported(rng, i, note):
    g = gen(rng)
    tensors = {f"t{k}": torch.randn(4, generator=g) for k in range(rng.randrange(2, 7))}
    use_async = rng.random() < 0.6
    safe = rng.random() < 0.5
    bad = rng.randrange(len(tensors))
    note(dict(n=len(tensors), use_async=use_async, bad=bad, safe=safe))
    count = [0]
    real_st, real_t = safetensors.torch.save_file, torch.save

    partial = rng.random() < 0.6  # the failed write leaves part of its file behind

    class DiskFull(Exception):
        pass

    def failing(real):
        def f(obj, path, *a, **k):
            count[0] += 1
            if count[0] == bad + 1:
                if partial:
                    with open(path, "wb") as fh:
                        fh.write(b"\0" * 9)
                raise DiskFull("disk full (injected)")
            return real(obj, path, *a, **k)
        return f

    with scratch() as d:
        raised = False
        safetensors.torch.save_file, torch.save = failing(real_st), failing(real_t)
        try:
            w = TensorWriter(d, max_shard_size=16, safe_serialization=safe, use_async=use_async)
            try:
                for k, t in tensors.items():
                    w.save_tensor(k, t)
                w.finalize()
            except DiskFull:
                raised = True
            except OSError:
                raised = not partial
        finally:
            for t in threading.enumerate():  # writers still busy with later shards
                if t is not threading.current_thread() and t.name.startswith("ThreadPoolExecutor"):
                    getattr(getattr(w, "_executor", None), "shutdown", lambda: None)()
                    break
            safetensors.torch.save_file, torch.save = real_st, real_t
        assert count[0] > bad, "every shard is written through the library"
        assert raised, "a shard write failed and the writer reported success"
        assert not [f for f in os.listdir(d) if f.endswith(".index.json")], "an index was written after a failed shard"


def write_checkpoint(rng, g, d, names=None):
    """an independent writer: reference checkpoints for the readers"""
    n = rng.randrange(1, 10)
    fmt = rng.choice(["safetensors", "bin"])
    tensors = {k: rand_tensor(rng, g, views=fmt == "bin") for k in (names or [f"m.{j}.weight" for j in range(n)])}
    stem = "model" if fmt == "safetensors" else "pytorch_model"
    ks = list(tensors)
    sharded = rng.random() < 0.6
    shards = max(1, min(len(ks), rng.randrange(1, 4))) if sharded else 1
    stale = {}
    wm = {}

    def save(path, data):
        if fmt == "safetensors":
            safetensors.torch.save_file({k: t.contiguous().clone() for k, t in data.items()}, path)
        else:
            torch.save(data, path)

    if not sharded:
        data = dict(tensors)
        if fmt == "bin" and rng.random() < 0.3:
            data = {"state_dict": data}
        save(os.path.join(d, f"{stem}.{fmt}"), data)
        for k in ks:
            wm[k] = f"{stem}.{fmt}"
    else:
        groups = [ks[j::shards] for j in range(shards)]
        folders = rng.random() < 0.25  # shards in folders of their own, under one name
        for j, gr in enumerate(groups):
            fn = f"{stem}-{j + 1:05d}-of-{shards:05d}.{fmt}"
            if folders:
                fn = f"part{j}/{stem}.{fmt}"
                os.makedirs(os.path.join(d, f"part{j}"), exist_ok=True)
            data = {k: tensors[k] for k in gr}
            if rng.random() < 0.3:  # left-over copy the index does not point at
                k = rng.choice(ks)
                if k not in data:
                    data[k] = torch.full((2,), -99.0)
            save(os.path.join(d, fn), data)
            for k in gr:
                wm[k] = fn
        with open(os.path.join(d, f"{stem}.{fmt}.index.json"), "w") as f:
            json.dump({"metadata": {}, "weight_map": wm}, f)
    return tensors, wm, fmt


@case("P04", "checkpoints of up to 9 tensors in 1-3 files, some in folders (safetensors/.bin, wrapped state_dict, strided views, shared "
      "storage, all dtypes), random access order", quick=500, deep=5000, limit=60)
def lazy_reading_equals_stored(rng, i, note):
    g = gen(rng)
    with scratch() as d:
        tensors, wm, fmt = write_checkpoint(rng, g, d)
        lazy = rng.random() < 0.6
        note(dict(shapes={k: (tuple(t.shape), str(t.dtype), t.stride()) for k, t in tensors.items()}, weight_map=wm, lazy=lazy))
        ld = LazyTensorLoader.from_disk(d, lazy_unpickle=lazy)
        assert dict(ld.index.tensor_paths) == wm, "index"
        assert ld.index.is_safetensors == (fmt == "safetensors")
        got = {}
        for s in ld.index.shards:
            for k in s.contained_keys:
                assert k not in got and wm[k] == s.filename, ("shard listing", k)
                got[k] = s.filename
        assert got == wm
        order = [rng.choice(list(tensors)) for _ in range(3 * len(tensors))]
        for k in order:
            t = ld.get_tensor(k)
            assert same(t, tensors[k]), (k, "lazy load differs", t, tensors[k])
            r = rng.random()
            if r < 0.15:
                assert ld.get_tensor("absent", raise_on_missing=False) is None
            elif r < 0.3:
                try:
                    ld.get_tensor("absent", aliases=["nope"])
                except KeyError:
                    pass
                else:
                    raise AssertionError("missing tensor did not raise")
            elif r < 0.45:
                other = rng.choice(list(tensors))
                assert same(ld.get_tensor("absent", aliases=["nope", other, k]), tensors[other]), "alias order"
                assert same(ld.get_tensor(k, aliases=[other]), tensors[k]), "alias used although the name exists"
            elif r < 0.55:
                ld.flush()
    return [sorted(wm.values()), lazy]


@case("P04", "views of one shared storage with random offsets/strides saved in one .bin file", quick=200, deep=2000, limit=40)
def shared_storage_views(rng, i, note):
    g = gen(rng)
    base = torch.randn(rng.randrange(6, 40), generator=g).to(rng.choice([torch.float32, torch.bfloat16]))
    views = {}
    for k in range(rng.randrange(1, 6)):
        nd = rng.randrange(0, 3)
        size = [rng.randrange(0 if rng.random() < .1 else 1, 4) for _ in range(nd)]
        stride = [rng.randrange(0, 5) for _ in range(nd)]
        span = 1 + sum((s - 1) * t for s, t in zip(size, stride)) if all(size) else 0
        if span > base.numel():
            continue
        off = rng.randrange(0, base.numel() - span + 1)
        views[f"v{k}"] = base.as_strided(size, stride, off)
    note({k: (tuple(v.shape), v.stride(), v.storage_offset()) for k, v in views.items()})
    if not views:
        raise Skip("no view")
    with scratch() as d:
        torch.save(views, os.path.join(d, "pytorch_model.bin"))
        ld = LazyTensorLoader.from_disk(d, lazy_unpickle=True)
        for k in rng.sample(list(views) * 2, 2 * len(views)):
            assert same(ld.get_tensor(k), views[k]), (k, ld.get_tensor(k), views[k])
    return [(tuple(v.shape), v.stride(), v.storage_offset()) for v in views.values()]


class _Evil:
    def __reduce__(self):
        return (eval, ("__import__('corpus.io', fromlist=['HIT']).HIT.append(1)",))


class _Evil2:
    def __reduce__(self):
        return (HIT.append, (2,))


HIT = []


@case("P04", "pickles that name a callable outside the tensor-rebuilding set (8 payload kinds x nesting)", quick=24, deep=48, limit=30)
def foreign_callables_are_refused(rng, i, note):
    import functools
    import subprocess

    class Red:
        def __init__(self, fn, args):
            self.r = (fn, args)

        def __reduce__(self):
            return self.r

    marker = tempfile.mktemp(prefix="vfio_mark")
    payloads = [Red(eval, (f"open({marker!r},'w').close()",)), Red(os.system, (f"touch {marker}",)),
                Red(exec, (f"open({marker!r},'w').close()",)), Red(subprocess.call, (["touch", marker],)),
                Red(open, (marker, "w")), Red(functools.partial, (os.mkdir, marker)), Red(os.mkdir, (marker,)),
                Red(getattr, (torch.Tensor, "numpy"))]
    p = payloads[i % len(payloads)]
    where = (i // len(payloads)) % 3
    obj = {"x": torch.ones(2)}
    if where == 0:
        obj["evil"] = p
    elif where == 1:
        obj["nested"] = {"a": [p]}
    else:
        obj = {"state_dict": obj, "opt": (p,)}
    note(dict(payload=repr(p.r)[:120], where=where))
    with scratch() as d:
        fn = os.path.join(d, "pytorch_model.bin")
        torch.save(obj, fn)
        from mergekit.io.loader import TensorLoader

        for lazy in (True, False):
            try:
                TensorLoader.get(fn, use_lazy_unpickle=lazy)
            except Exception as e:
                pass
            else:
                raise AssertionError("a checkpoint naming a foreign callable was loaded")
            finally:
                hit = os.path.exists(marker)
                if hit:
                    shutil.rmtree(marker, ignore_errors=True)
                    with contextlib.suppress(OSError):
                        os.unlink(marker)
            assert not hit, "code in the checkpoint was executed"
    import pickle as pk

    assert pk.Unpickler.__module__ == "_pickle", "pickle left patched after a refused load"
