"""Contracts of model references, small notations and the adapter merge cache (mergekit/common.py)."""

import binascii
import os
import tempfile

import torch
import z3

import mergekit.common as MC
from pyvc import lib, tmodel
from pyvc.contract import Contract, contract, resolve
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import ModelFn, SDict, SList, SObj, SSet

from .util import *

M = "mergekit.common:"
has = lambda s, c: z3.Contains(s, z3.StringVal(c))


def dget(I, d, k, dflt=None):
    return lib.d_get(I, d, k, dflt)


# ------------------------------------------------------------------ text of references


def path_term(name, rev, no_plus=True):
    """an unambiguous path (no '@', no '+') and revision (nonempty)"""
    p, r = z3.String(name), z3.String(name + "_rev")
    cs = [z3.Not(has(p, "@")), z3.Not(has(r, "@")), r != ""]
    if no_plus:
        cs += [z3.Not(has(p, "+")), z3.Not(has(r, "+"))]
    return p, (r if rev else None), cs


def opt_eq(I, a, b):
    if a is None or b is None:
        return a is None and b is None
    return S(a) == S(b)


def path_obj(p, r):
    return SObj(MC.ModelPath, {"path": p, "revision": r})


def read_path(I, v):
    """what pydantic builds from the validator's result: (path, revision)"""
    d = I.call(resolve(M + "ModelPath.validate_string"), (MC.ModelPath, v))
    if not (isinstance(d, SDict) and d.concrete):
        raise Unsupported("ModelPath validator result")
    return dget(I, d, "path"), dget(I, d, "revision"), len(d.pairs)


class _Ref(Contract):
    trusted = ("pydantic: a before-validator's dict becomes the model's fields; nested models are validated from their value",)


@contract("P11")
class ModelPathRoundTrip(_Ref):
    """validate_string(str(p)) denotes p"""

    target = M + "ModelPath.validate_string"
    cases = [False, True]

    def setup(self, I, rev):
        p, r, cs = path_term("p", rev, no_plus=False)
        for c in cs:
            I.eng.assume(c)
        text = I.call(resolve(M + "ModelPath.__str__"), (path_obj(p, r),))
        return (MC.ModelPath, text), {}, (p, r)

    def ensures(self, I, g, d):
        p, r = g
        yield "same-path", S(dget(I, d, "path")) == p
        yield "same-revision", opt_eq(I, dget(I, d, "revision"), r)


@contract("P11")
class ModelPathText(_Ref):
    """every text: at most one '@'; path and revision are the parts around it"""

    target = M + "ModelPath.validate_string"

    def setup(self, I, case):
        return (MC.ModelPath, z3.String("v")), {}, z3.String("v")

    def ensures(self, I, v, d):
        p, r = dget(I, d, "path"), dget(I, d, "revision")
        if r is None:
            yield "no-revision", z3.And(z3.Not(has(v, "@")), S(p) == v)
        else:
            yield "split-at-the-at-sign", z3.And(v == z3.Concat(S(p), z3.StringVal("@"), S(r)),
                                                 z3.Not(has(S(p), "@")), z3.Not(has(S(r), "@")))

    def raises(self, I, v, exc):
        # refused only when ambiguous
        i = z3.IndexOf(v, z3.StringVal("@"), z3.IntVal(0))
        return z3.And(has(v, "@"), has(z3.SubString(v, i + 1, z3.Length(v)), "@")) if isinstance(exc, RuntimeError) else None


@contract("P11")
class ModelReferenceRoundTrip(_Ref):
    """reading str(ref) gives the same model, revision, adapter and adapter revision"""

    target = M + "ModelReference.validate_string"
    cases = [(r, l, lr) for r in (False, True) for l, lr in ((False, False), (True, False), (True, True))]

    def setup(self, I, case):
        rev, lora, lrev = case
        p, r, c1 = path_term("p", rev)
        q, s, c2 = path_term("q", lrev)
        for c in c1 + c2:
            I.eng.assume(c)
        ref = SObj(MC.ModelReference, {"model": path_obj(p, r), "lora": path_obj(q, s) if lora else None,
                                       "override_architecture": None})
        text = I.call(resolve(M + "ModelReference.__str__"), (ref,))
        return (MC.ModelReference, text), {}, (p, r, lora, q, s)

    def ensures(self, I, g, d):
        p, r, lora, q, s = g
        mp, mr, _ = read_path(I, dget(I, d, "model"))
        yield "same-model", S(mp) == p
        yield "same-revision", opt_eq(I, mr, r)
        yield "no-override", dget(I, d, "override_architecture") is None
        lv = dget(I, d, "lora")
        if not lora:
            yield "no-adapter", lv is None
            return
        yield "adapter-kept", lv is not None
        if lv is None:
            return
        lp, lr, _ = read_path(I, lv)
        yield "same-adapter", S(lp) == q
        yield "same-adapter-revision", opt_eq(I, lr, s)


@contract("P11")
class ModelReferenceText(_Ref):
    """more than one '+' is refused; otherwise the parts around it are model and adapter"""

    target = M + "ModelReference.validate_string"

    def setup(self, I, case):
        return (MC.ModelReference, z3.String("v")), {}, z3.String("v")

    def ensures(self, I, v, d):
        m, l = dget(I, d, "model"), dget(I, d, "lora")
        if l is None:
            yield "no-adapter", z3.And(z3.Not(has(v, "+")), S(m) == v)
        else:
            yield "split-at-the-plus", z3.And(v == z3.Concat(S(m), z3.StringVal("+"), S(l)),
                                              z3.Not(has(S(m), "+")), z3.Not(has(S(l), "+")))

    def raises(self, I, v, exc):
        i = z3.IndexOf(v, z3.StringVal("+"), z3.IntVal(0))
        return z3.And(has(v, "+"), has(z3.SubString(v, i + 1, z3.Length(v)), "+")) if isinstance(exc, RuntimeError) else None


@contract("P11")
class ReferenceSerialize(_Ref):
    """written as text only when the text carries everything"""

    target = M + "ModelReference.serialize"
    cases = [(l, o) for l in (False, True) for o in (False, True)]

    def setup(self, I, case):
        lora, over = case
        m, l = path_obj(z3.String("p"), None), path_obj(z3.String("q"), z3.String("qr"))
        ref = SObj(MC.ModelReference, {"model": m, "lora": l if lora else None,
                                       "override_architecture": z3.String("arch") if over else None})
        text = I.call(resolve(M + "ModelReference.__str__"), (ref,))
        return (ref,), {}, (ref, text)

    def ensures(self, I, g, r):
        ref, text = g
        f = ref.fields
        if isinstance(r, SDict):
            yield "all-fields-kept", z3.And(z3.BoolVal(dget(I, r, "model") is f["model"] and dget(I, r, "lora") is f["lora"]),
                                            B(opt_eq(I, dget(I, r, "override_architecture"), f["override_architecture"])))
        else:
            yield "text-only-without-override", f["override_architecture"] is None
            yield "text-is-str", S(r) == S(text)


# ------------------------------------------------------------------ notations

DTYPES = {"bfloat16": torch.bfloat16, "float16": torch.float16, "float32": torch.float32, "int64": torch.int64}


@contract("P11")
class DtypeFromName(Contract):
    target = M + "dtype_from_name"
    cases = ["any", None]

    def setup(self, I, case):
        v = z3.String("name") if case else None
        return (v,), {}, v

    def ensures(self, I, v, r):
        if v is None:
            yield "none-for-none", r is None
            return
        full = lambda n: z3.Or(v == z3.StringVal(n), v == z3.StringVal("torch." + n))
        if r is None:
            yield "none-only-for-empty", v == ""
            return
        for n, d in DTYPES.items():
            yield f"denotes-{n}", full(n) == z3.BoolVal(r is d) if not is_z3(r) else full(n) == (r == tmodel.dt(d))

    def raises(self, I, v, exc):
        if v is None or not isinstance(exc, RuntimeError):
            return None
        return z3.And(*[z3.And(v != z3.StringVal(n), v != z3.StringVal("torch." + n)) for n in DTYPES])


@contract("P11")
class ParseKmb(Contract):
    target = M + "parse_kmb"
    cases = ["int", "digits", "k", "K", "m", "M", "b", "B", "other"]
    trusted = ("int(text) of a text that is not all digits is left open",)

    def setup(self, I, case):
        if case == "int":
            v = z3.Int("v")
            return (v,), {}, (case, v, None)
        d = z3.String("d")
        if case == "other":
            last = z3.SubString(d, z3.Length(d) - 1, 1)
            I.eng.assume(z3.And(z3.Length(d) > 0, z3.Not(z3.InRe(d, lib.DIGITS)),
                                *[last != z3.StringVal(c) for c in "kKmMbB"]))
            return (d,), {}, (case, d, None)
        I.eng.assume(z3.InRe(d, lib.DIGITS))
        v = d if case == "digits" else z3.Concat(d, z3.StringVal(case))
        return (v,), {}, (case, v, d)

    def ensures(self, I, g, r):
        case, v, d = g
        if case == "int":
            yield "numbers-unchanged", Z(r) == v
            return
        if case == "other":
            yield "other-suffixes-refused", False
            return
        f = {"k": 10 ** 3, "m": 10 ** 6, "b": 10 ** 9}.get(case.lower(), 1)
        yield "decimal-multiple", Z(r) == z3.StrToInt(d) * f

    def raises(self, I, g, exc):
        return True if g[0] == "other" and isinstance(exc, ValueError) else None


# ------------------------------------------------------------------ nested configuration keys


class _Cfg:
    """a configuration object with arbitrary attributes"""


def cfg_tree(depth, width=2):
    """nested objects a, a.a, ...; leaves are unknown integers"""
    o = SObj(_Cfg, tag="cfg")
    for k in range(width):
        n = "ab"[k]
        o.fields[n] = cfg_tree(depth - 1) if depth > 1 else z3.FreshInt("leaf")
    return o


def walk(o, key):
    for part in key.split("."):
        if not isinstance(o, SObj) or part not in o.fields:
            return None, False
        o = o.fields[part]
    return o, True


def dump(o):
    return {k: dump(v) if isinstance(v, SObj) else v for k, v in o.fields.items()}


KEYS = ["a", "b", "c", "a.b", "b.a", "a.c", "c.a", "a.b.a", "a.b.c", "a.c.b", "b.b.b"]


@contract("P11")
class GetConfigValue(Contract):
    target = M + "get_config_value"
    cases = KEYS
    bounded = "keys of at most three components"

    def setup(self, I, key):
        o = cfg_tree(3)
        return (o, key), {}, (o, key, dump(o))

    def ensures(self, I, g, r):
        o, key, before = g
        v, ok = walk(o, key)
        yield "addressed-value", ok and (r is v)
        yield "unchanged", dump(o) == before

    def raises(self, I, g, exc):
        return isinstance(exc, RuntimeError) and not walk(g[0], g[1])[1]


@contract("P11")
class SetConfigValue(Contract):
    target = M + "set_config_value"
    cases = KEYS
    bounded = "keys of at most three components"

    def setup(self, I, key):
        o = cfg_tree(3)
        v = z3.Int("new")
        return (o, key, v), {}, (o, key, v, dump(o))

    def ensures(self, I, g, r):
        o, key, v, before = g
        parts = key.split(".")
        want = dump_copy(before)
        d = want
        for p in parts[:-1]:
            if not isinstance(d, dict) or p not in d:
                yield "no-such-object", False
                return
            d = d[p]
        d[parts[-1]] = v
        yield "only-the-addressed-value-changes", same_tree(dump(o), want)

    def raises(self, I, g, exc):
        o, key, v, before = g
        return isinstance(exc, RuntimeError) and "." in key and not walk(o, key.rsplit(".", 1)[0])[1]


def dump_copy(d):
    return {k: dump_copy(v) if isinstance(v, dict) else v for k, v in d.items()}


def same_tree(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_tree(a[k], b[k]) for k in a)
    return a is b or (is_z3(a) and is_z3(b) and a.eq(b))


# ------------------------------------------------------------------ adapter merge cache (P18)

CRC = z3.Function("crc32", STR, INT)
CRC_INV = z3.Function("crc32_inv", INT, STR)
BASENAME = z3.Function("basename", STR, STR)
EXISTS = z3.Function("exists", STR, BOOL)
PJOIN = z3.Function("path_join", STR, STR, STR)
PDIR = z3.Function("path_dir", STR, STR)


class _Auto:
    pass


class _Model:
    pass


class _ConfigStub:
    pass


def _crc(I, b, *rest):
    if not is_z3(b):
        b = S(b) if isinstance(b, str) else None
    if b is None:
        raise Unsupported("crc32 argument")
    r = CRC(b)
    I.eng.assume(r >= 0)
    I.eng.assume(CRC_INV(r) == b)
    I.eng.assume(z3.InRe(lib._istr(r), lib.DIGITS))
    return r


def _join(I, *a):
    r = S(a[0])
    inv = z3.Function("path_base", STR, STR)
    for x in a[1:]:
        d, r = r, PJOIN(r, S(x))
        I.eng.assume(inv(r) == S(x))
        I.eng.assume(PDIR(r) == d)
    return r


def _fallible(I, what):
    if I.eng.branch(I.eng.fresh("fails_" + what, BOOL)):
        raise PyRaise(OSError(f"{what} failed"))


def _tmpdir(I, suffix=None, prefix=None, dir=None, **k):
    t = I.eng.fresh("tmpdir", STR)
    if dir is None:
        raise Unsupported("temporary directory outside the cache")
    I.eng.assume(z3.And(PDIR(t) == S(dir), t != S(dir), z3.Not(EXISTS(t))))
    x = z3.String("tmpx")
    I.eng.assume(z3.ForAll([x], t != PJOIN(S(dir), x), patterns=[PJOIN(S(dir), x)]))
    I.eng.assumptions.add("names of temporary directories differ from cached names")

    def leave(I2, exc):
        I2.ev.append(("rmtree", t, None))

    return lib.ModelCM(lambda I2: t, leave)


def _from_pretrained(I, self_, path, revision=None, torch_dtype=None, **k):
    _fallible(I, "load")
    return SObj(_Model, {"what": ("base", path, revision, k.get("dtype", torch_dtype))}, tag="model")


def _peft(I, cls, model, path, revision=None, **k):
    _fallible(I, "adapter")
    return SObj(_Model, {"what": ("peft", model.fields["what"], path, revision)}, tag="model")


def _merge_unload(I, m, *a, **k):
    _fallible(I, "merge")
    return SObj(_Model, {"what": ("merged", m.fields["what"])}, tag="model")


def _save(I, m, path, **k):
    # part of the files may be there when it fails
    I.ev.append(("partial", S(path), None))
    _fallible(I, "save")
    I.ev.append(("saved", S(path), m.fields["what"]))


def _rename(I, a, b, **k):
    _fallible(I, "rename")
    I.ev.append(("rename", S(a), S(b)))


def ref_obj(p, r, q, s, lora=True):
    return SObj(MC.ModelReference, {"model": path_obj(p, r), "lora": path_obj(q, s) if lora else None,
                                    "override_architecture": None})


class _Merged(Contract):
    target = M + "ModelReference.merged"
    trusted = ("crc32 of different reference texts differs (no collisions)", "os.rename is atomic",
               "transformers/peft: from_pretrained, merge_and_unload, save_pretrained do what they say or raise",
               "a path that exists under the final name was put there by an earlier call of merged()")

    def __init__(self):
        self.calls = {
            M + "ModelReference.config": lambda I, self_, trc=False: SObj(
                _ConfigStub, {"architectures": SList(items=[z3.String("arch")])}, tag="config"),
            M + "get_auto_cls": lambda I, a: SObj(_Auto, tag="auto"),
            M + "dtype_from_name": lambda I, n: ("dtype", n),
        }
        import peft

        self.models = {
            (_Auto, "from_pretrained"): _from_pretrained,
            (_Model, "merge_and_unload"): _merge_unload,
            (_Model, "save_pretrained"): _save,
            peft.PeftModel.from_pretrained.__func__: _peft,
            binascii.crc32: _crc,
            os.path.basename: lambda I, p: BASENAME(S(p)),
            os.path.join: _join,
            os.path.exists: lambda I, p: EXISTS(S(p)),
            os.makedirs: lambda I, *a, **k: None,
            os.rename: _rename,
            os.replace: _rename,
            tempfile.TemporaryDirectory: _tmpdir,
        }


@contract("P18")
class MergedWrites(_Merged):
    """what appears under the cached name, at every moment and whatever fails"""

    cases = [(a, b, d) for a in (False, True) for b in (False, True) for d in (False, True)]

    def setup(self, I, case):
        rev, lrev, dt = case
        p, r, c1 = path_term("p", rev)
        q, s, c2 = path_term("q", lrev)
        I.ev = []
        dtype = z3.String("dtype") if dt else None
        if dt:
            I.eng.assume(dtype != "")
        cache = z3.String("cache")
        I.eng.assume(cache != "")
        g = dict(p=p, r=r, q=q, s=s, dt=dtype, cache=cache)
        return (ref_obj(p, r, q, s), cache, z3.Bool("trust"), dtype), {}, g

    def _events(self, I, g, final):
        """every write concerns another name than the final one, except moving a completely saved model there"""
        saved = {}
        for k, (op, a, b) in enumerate(I.ev):
            if op in ("partial", "rmtree"):
                yield f"nothing-partial-under-the-cached-name-{k}", a != final
                saved = {kk: v for kk, v in saved.items() if not (op == "partial" and kk.eq(a))}
            elif op == "saved":
                saved[a] = b
            elif op == "rename":
                whole = [w for kk, w in saved.items() if kk.eq(a)]
                yield f"only-complete-models-are-moved-{k}", bool(whole)
                if whole:
                    yield f"content-{k}", self._content(whole[0], g)

    def _content(self, w, g):
        want = ("merged", ("peft", ("base", g["p"], g["r"], ("dtype", g["dt"])), g["q"], g["s"]))

        def same(a, b):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            if is_z3(a) and is_z3(b):
                return a.eq(b)
            return not is_z3(a) and not is_z3(b) and a == b

        return same(w, want)

    def _final(self, I):
        rn = [e for e in I.ev if e[0] == "rename"]
        return rn[-1][2] if rn else None

    def ensures(self, I, g, r):
        path = S(r.fields["model"].fields["path"])
        yield "plain-model-returned", r.fields["lora"] is None and r.fields["model"].fields["revision"] is None
        yield from self._events(I, g, path)
        rn = [e for e in I.ev if e[0] == "rename"]
        yield "cached-or-newly-moved-there", z3.Or(EXISTS(path), *[e[2] == path for e in rn])
        yield "never-replaces-a-cached-model", z3.Implies(EXISTS(path), z3.BoolVal(not rn))

    def raises(self, I, g, exc):
        if not isinstance(exc, OSError):
            return None
        # failed: nothing was moved to a final name
        return not any(e[0] == "rename" for e in I.ev)


@contract("P18")
class MergedNoAdapter(_Merged):
    cases = ["no-adapter", "no-cache"]

    def setup(self, I, case):
        I.ev = []
        p, r, _ = path_term("p", True)
        q, s, _ = path_term("q", True)
        o = ref_obj(p, r, q, s, lora=case == "no-cache")
        return (o, None if case == "no-cache" else z3.String("cache")), {}, (case, o)

    def ensures(self, I, g, r):
        yield "resolves-to-itself", g[0] == "no-adapter" and r is g[1]
        yield "no-writes", not I.ev

    def raises(self, I, g, exc):
        return g[0] == "no-cache" and isinstance(exc, RuntimeError) and not I.ev


@contract("P18")
class MergedPathIdentifies(_Merged):
    """two requests share a cached model only if base, adapter and dtype are the same"""

    cases = [(a, b, d) for a in (False, True) for b in (False, True) for d in ((False, False), (True, True), (False, True))]
    timeout_ms = 20000

    def setup(self, I, case):
        rev, lrev, (d1, d2) = case
        I.ev = []
        out = []
        for t, d in (("1", d1), ("2", d2)):
            p, r, c1 = path_term("p" + t, rev)
            q, s, c2 = path_term("q" + t, lrev)
            dt = z3.String("dt" + t) if d else None
            if d:
                # dtype names: not a number, no underscore
                for c in (dt != "", z3.Not(has(dt, "_")), z3.Not(z3.InRe(dt, lib.DIGITS))):
                    I.eng.assume(c)
            for c in c1 + c2:
                I.eng.assume(c)
            out.append((p, r, q, s, dt))
        cache = z3.String("cache")
        I.eng.assume(cache != "")
        x = z3.String("anypath")
        I.eng.assume(z3.ForAll([x], EXISTS(x), patterns=[EXISTS(x)]))
        a = out[0]
        return (ref_obj(*a[:4]), cache, False, a[4]), {}, (out, cache)

    def ensures(self, I, g, r):
        (a, b), cache = g
        r2 = I.call(resolve(self.target), (ref_obj(*b[:4]), cache, False, b[4]))
        n1, n2 = (S(x.fields["model"].fields["path"]) for x in (r, r2))
        if not all(n.decl().eq(PJOIN) and n.arg(0).eq(cache) for n in (n1, n2)):
            raise Unsupported("cached path is not a name inside the cache directory")
        e1, e2 = (lib._flat_concat(n.arg(1)) for n in (n1, n2))
        base = z3.Function("path_base", STR, STR)
        eng = I.eng
        same = n1.arg(1) == n2.arg(1)
        eng.prove("cache-name-from-path", z3.Implies(n1 == n2, same), only=[base(n1) == n1.arg(1), base(n2) == n2.arg(1)])
        # peel the name from the right: "<rest>_<number or dtype>"
        if not eng.branch(same):
            yield "different-names", n1 != n2
            return
        eqs = []
        for x, y in zip(a, b):
            if x is None and y is None:
                continue
            eqs.append(z3.BoolVal(False) if x is None or y is None else x == y)
        peel_ids(I, e1, e2, a, b)
        yield "same-cache-entry-same-request", z3.And(*eqs)


def peel_ids(I, e1, e2, a, b):
    """consequences of two equal names, piece by piece from the right (each step is an obligation)"""
    eng = I.eng
    texts = [((a[2], a[3]), (b[2], b[3])), ((a[0], a[1]), (b[0], b[1]))]
    for dt in (a[4], b[4]):
        if dt is not None:
            eng.prove("dtype-name-premise", z3.Not(has(dt, "_")))
    if a[4] is not None and b[4] is not None:
        e1, e2 = last_component(eng, e1, e2, "_")
    for (x, y) in texts:
        # <basename>_<checksum of the text>
        c1, c2 = e1[-1], e2[-1]
        e1, e2 = last_component(eng, e1, e2, "_")
        if a[4] is None and b[4] is not None:
            return  # a checksum cannot be a dtype name
        t1, t2 = ref_text(*x), ref_text(*y)
        if not (c1.eq(lib._istr(CRC(t1))) and c2.eq(lib._istr(CRC(t2)))):
            us = [c.arg(0).arg(0) for c in (c1, c2) if z3.is_app(c) and c.num_args() == 1 and c.eq(lib._istr(c.arg(0)))
                  and z3.is_app(c.arg(0)) and c.arg(0).decl().eq(CRC)]
            for uu, xs in zip(us, (x, y)) if len(us) == 2 else ():
                if any(q is not None and not occurs(q, uu) for q in xs):
                    # a checksum of a text that leaves part of the reference out
                    eng.prove("checksum-covers-the-reference", z3.Implies(us[0] == us[1], z3.And(*[
                        p == q for p, q in zip(x, y) if p is not None])), only=[])
            raise Unsupported("the name's number is not the checksum of the reference")
        inv = z3.Function("int_str_inv", STR, INT)
        eng.prove("same-checksum-same-text", t1 == t2, only=[
            c1 == c2, inv(c1) == CRC(t1), inv(c2) == CRC(t2), CRC_INV(CRC(t1)) == t1, CRC_INV(CRC(t2)) == t2])
        if x[1] is not None:
            last_component(eng, [x[0], z3.StringVal("@"), x[1]], [y[0], z3.StringVal("@"), y[1]], "@")
        b1, b2 = e1[-1], e2[-1]
        eng.prove("same-basename", b1 == b2, only=[x[0] == y[0]])
        s1, s2 = lib._concat_of(e1), lib._concat_of(e2)
        u, v, w = z3.Strings("lemma_u lemma_v lemma_w")
        eng.prove("lemma-cancel-right", z3.Implies(z3.Concat(u, w) == z3.Concat(v, w), u == v), only=[])
        e1, e2 = e1[:-1], e2[:-1]
        if not e1 or not e2:
            break
        eng.prove("rest-equal", s1 == s2)
        r1, r2 = lib._concat_of(e1), lib._concat_of(e2)
        eng.assume(z3.Implies(z3.And(s1 == s2, b1 == b2), r1 == r2))
        eng.assume(z3.Implies(r1 == r2, lib._concat_of(e1[:-1]) == lib._concat_of(e2[:-1])))
        e1, e2 = e1[:-1], e2[:-1]  # the underscore between the two identifiers


def occurs(x, t):
    return x.eq(t) or any(occurs(x, c) for c in t.children())


def ref_text(p, r):
    return p if r is None else z3.Concat(p, z3.StringVal("@"), r)


def last_component(eng, e1, e2, sep):
    """lemma: x+sep+u == y+sep+v with no sep in u, v gives x == y and u == v; instantiated for these names"""
    sp = z3.StringVal(sep)
    for e in (e1, e2):
        if len(e) < 3 or not (z3.is_string_value(e[-2]) and e[-2].as_string() == sep):
            raise Unsupported("shape of the cached name")
    x, y, u, v = z3.Strings("lemma_x lemma_y lemma_u lemma_v")
    eng.prove("lemma-last-component", z3.Implies(z3.And(
        z3.Not(z3.Contains(u, sp)), z3.Not(z3.Contains(v, sp)), z3.Concat(x, sp, u) == z3.Concat(y, sp, v)),
        z3.And(x == y, u == v)), only=[])
    c1, c2 = e1[-1], e2[-1]
    for c in (c1, c2):
        f, d = z3.Not(z3.Contains(c, sp)), z3.InRe(c, lib.DIGITS)
        if any(d.eq(p) for p in eng.pc):
            eng.prove("digits-have-no-separator", f, only=[d])
        elif not any(f.eq(p) for p in eng.pc):
            raise Unsupported("component may contain the separator")
    s1, s2 = lib._concat_of(e1), lib._concat_of(e2)
    eng.prove("names-equal", s1 == s2)
    eng.assume(z3.And(lib._concat_of(e1[:-2]) == lib._concat_of(e2[:-2]), c1 == c2))
    return e1[:-2], e2[:-2]
