"""Contracts of multi-document merges (mergekit/scripts/multimerge.py)."""

import os

import yaml
import z3

import mergekit.common as MC
import mergekit.config as CF
import mergekit.scripts.multimerge as MM
from pyvc import lib
from pyvc.contract import Contract, contract
from pyvc.core import *
from pyvc.core import B, R, S, Z
from pyvc.interp import SDict, SList, SObj, SSet

from .util import *

M = "mergekit.scripts.multimerge:"
EXISTS = z3.Function("exists", STR, BOOL)
PJ = z3.Function("path_join", STR, STR, STR)
FILES = ("model.safetensors", "pytorch_model.bin", "model.safetensors.index.json", "pytorch_model.bin.index.json")


def pj(a, b):
    return PJ(S(a), S(b))


class _Cfg:
    pass


# ---------------------------------------------------------------- running one recipe


@contract("P14")
class RunRecipe(Contract):
    """a recipe runs once into its own directory; it is skipped only when lazy and a complete model is there"""

    target = M + "MergeModelTask.execute"

    def __init__(self):
        self.models = {
            os.path.exists: lambda I, p: EXISTS(S(p)), os.path.join: lambda I, a, b: pj(a, b),
            yaml.safe_load: lambda I, s: SObj(_Cfg, {"yaml": s}),
            CF.MergeConfiguration.model_validate.__func__: lambda I, cls, d: SObj(_Cfg, {"of": d}),
        }
        self.calls = {"mergekit.merge:run_merge": self.run}

    def run(self, I, merge_config, out_path, options=None, config_source=None):
        if I.eng.choose(2):
            raise PyRaise(RuntimeError("merge failed"))
        I.state_g["ran"].append((merge_config, out_path, options))

    def setup(self, I, case):
        y, out, lazy = z3.String("config_yaml"), z3.String("out_path"), z3.Bool("lazy")
        opt = SObj(_Cfg, {}, tag="options")
        o = SObj(MM.MergeModelTask, {"config_yaml": y, "name": z3.String("name"), "input_merges": None, "options": opt,
                                     "out_path": out, "lazy": lazy})
        g = dict(y=y, out=out, lazy=lazy, opt=opt, ran=[])
        I.state_g = g
        return (o,), {"dep": z3.String("dep_path")}, g

    def ensures(self, I, g, r):
        there = z3.And(EXISTS(pj(g["out"], "config.json")), z3.Or(*[EXISTS(pj(g["out"], f)) for f in FILES]))
        skip = z3.And(g["lazy"], there)
        yield "its-own-directory", S(r) == g["out"]
        yield "runs-unless-complete", z3.BoolVal(len(g["ran"]) <= 1)
        yield "skipped-only-if-complete", z3.BoolVal(len(g["ran"]) == 0) == skip
        for c, p, o in g["ran"]:
            yield "its-own-recipe", S(c.fields["of"].fields["yaml"]) == g["y"]
            yield "into-its-own-directory", S(p) == g["out"]
            yield "with-its-options", z3.BoolVal(o is g["opt"])

    def raises(self, I, g, exc):
        return z3.BoolVal(isinstance(exc, RuntimeError))


@contract("P14")
class RecipeInputs(Contract):
    """a recipe waits for every recipe it uses"""

    target = M + "MergeModelTask.arguments"
    cases = [0, 1, 3]

    def setup(self, I, n):
        ps = [(f"m{k}", SObj(MM.MergeModelTask, {}, tag=f"task{k}")) for k in range(n)]
        o = SObj(MM.MergeModelTask, {"input_merges": SObj(MC.ImmutableMap, {"data": SDict(pairs=list(ps))})})
        return (o,), {}, ps

    def ensures(self, I, g, r):
        yield "all-inputs", z3.BoolVal([v for _, v in r.pairs] == [v for _, v in g] or all(a is b for (_, a), (_, b) in zip(r.pairs, g)) and len(r.pairs) == len(g))


# ---------------------------------------------------------------- the dependency graph

NAMES3 = ["a", "b", None]


def _cyclic(deps, roots):
    state = {}

    def visit(x):
        if state.get(x) == 1:
            return True
        if state.get(x) == 2:
            return False
        state[x] = 1
        c = any(visit(y) for y in deps[x])
        state[x] = 2
        return c

    return any(visit(r) for r in roots)


@contract("P14")
class MakeTasks(Contract):
    """one task per recipe, linked exactly as the recipes use each other; cycles are refused"""

    target = M + "make_tasks"
    cases = [("a", "b"), ("a", None), ("a", "b", None), (None,)]
    bounded = "up to 3 recipes, every dependency relation between them"
    max_paths = 3000

    def __init__(self):
        self.models = {os.path.join: lambda I, a, b: pj(a, b), (_Cfg, "to_yaml"): lambda I, o: o.fields["yaml"]}

    def setup(self, I, names):
        cfgs = {n: SObj(_Cfg, {"yaml": z3.String(f"yaml_{n}")}) for n in names}
        deps = {}
        for n in names:
            # nothing can refer to the unnamed recipe
            deps[n] = [m for m in names if m is not None and I.eng.branch(z3.Bool(f"uses_{n}_{m}"))]
        has_out = I.eng.branch(z3.Bool("out_path_given"))
        out = z3.String("out_path") if has_out else None
        if has_out:
            I.eng.assume(out != z3.StringVal(""))
        opt, lazy, inter = SObj(_Cfg, {}, tag="options"), z3.Bool("lazy"), z3.String("intermediate_dir")
        g = dict(names=list(names), cfgs=cfgs, deps=deps, out=out, opt=opt, lazy=lazy, inter=inter)
        args = (SDict(pairs=[(n, cfgs[n]) for n in names]), SDict(pairs=[(n, SSet(items=list(deps[n]))) for n in names]),
                opt, inter, out, lazy)
        return args, {}, g

    def wanted(self, g):
        return [n for n in g["names"] if n is not None or g["out"] is not None]

    def ensures(self, I, g, r):
        want = self.wanted(g)
        yield "no-cycle", z3.BoolVal(not _cyclic(g["deps"], want))
        ts = r.items
        yield "one-task-each", z3.BoolVal(len(ts) == len(want))
        task = dict(zip(want, ts))
        for n, t in task.items():
            f = t.fields
            yield "its-own-recipe", S(f["config_yaml"]) == z3.String(f"yaml_{n}")
            yield "its-own-directory", S(f["out_path"]) == (g["out"] if n is None else pj(g["inter"], n))
            yield "laziness-and-options", z3.And(B(f["lazy"]) == g["lazy"], z3.BoolVal(f["options"] is g["opt"]))
            ins = f["input_merges"].fields["data"].pairs
            yield "exactly-its-inputs", z3.BoolVal(len(ins) == len(g["deps"][n]) and {k for k, _ in ins} == set(g["deps"][n])
                                                   and all(v is task[k] for k, v in ins))

    def raises(self, I, g, exc):
        return z3.BoolVal(isinstance(exc, ValueError) and _cyclic(g["deps"], self.wanted(g)))
