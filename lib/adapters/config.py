"""Adapter of spec/Config.tla: configuration objects, what the simulator is given of them, and who shares them."""
import copy
import dataclasses
import enum
import json
import os
import re

import torch
from torch import nn

from aihwkit.nn import AnalogLinear
from aihwkit.nn.conversion import convert_to_analog
from aihwkit.simulator.configs.helpers import build_config
from aihwkit.simulator.parameters.enums import RPUDataType
from aihwkit.simulator.parameters.helpers import parameters_to_bindings
from aihwkit.exceptions import ConfigError

import importlib

MODS = [importlib.import_module("aihwkit.simulator." + m) for m in (
    "parameters.io", "parameters.training", "parameters.inference", "parameters.mapping", "parameters.pre_post",
    "parameters.runtime", "configs.devices", "configs.compounds", "configs.configs", "presets.devices",
    "presets.utils", "presets.compounds", "presets.configs", "presets.inference")]
SCHEMA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "spec", "ConfigSchema.tla")


def cls_of(name):
    for m in MODS:
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def schema():
    """Fields and references of the classes as the specification has them."""
    text = open(SCHEMA).read()
    f, r, base = {}, {}, {}
    for k, d in (("F", f), ("R", r)):
        for m in re.finditer(r"^%s_(\w+) ==\s((?:(?!^[FR]_|^FieldsOf).*\n)+?)(?=^[FR]_|^\s*\n)" % k, text, re.M):
            v = m.group(2).strip()
            if v.startswith(k + "_"):
                d[m.group(1)] = d[v[2:]]
            else:
                d[m.group(1)] = json.loads(v.replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false"))
    t = text[text.index("BaseOf == ["):]
    for m in re.finditer(r'(\w+) \|-> "(\w+)"', t[:t.index("]")]):
        base[m.group(1)] = m.group(2)
    return f, r, base


FIELDS, REFS, BASE = schema()
CELLS = ["VectorUnitCell", "ReferenceUnitCell", "OneSidedUnitCell", "TransferCompound", "BufferedTransferCompound",
         "ChoppedTransferCompound", "DynamicTransferCompound"]
RPUS = ["FloatingPointRPUConfig", "InferenceRPUConfig", "SingleRPUConfig", "UnitCellRPUConfig",
        "DigitalRankUpdateRPUConfig", "TorchInferenceRPUConfig"]
PULSED = ["ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice", "SoftBoundsReferenceDevice", "ExpStepDevice",
          "PowStepDevice", "PowStepReferenceDevice", "PiecewiseStepDevice"]
DEVCLS = [n for n in BASE if BASE[n] in PULSED]
IOCLS = [n for n in BASE if BASE[n] == "IOParameters"]
UPCLS = [n for n in BASE if BASE[n] == "UpdateParameters"]
BINDABLE = [n for n in BASE if BASE[n] in ["WeightModifierParameter", "WeightClipParameter", "WeightRemapParameter",
                                           "DriftParameter", "SimpleDriftParameter", "IOParametersIRDropT"] + PULSED + CELLS
            + ["IOParameters", "UpdateParameters", "FloatingPointDevice", "IdealDevice", "MixedPrecisionCompound"]]
ALGS = {"sgd": ["sgd"], "tt": ["tt", "tiki-taka", "ttv1", "TT"], "ttv2": ["ttv2"], "c-ttv2": ["c-ttv2", "ttv3", "chopped-ttv2"],
        "agad": ["agad", "ttv4"], "mp": ["mp", "mixed-precision"]}
#: fields whose values do not matter for the creation of a layer
SAFE = {"IOParameters": ["inp_res", "out_res", "inp_bound", "out_bound", "out_noise", "inp_noise", "w_noise", "is_perfect"],
        "UpdateParameters": ["desired_bl", "fixed_bl", "update_management", "update_bl_management", "sto_round"],
        "ConstantStepDevice": ["dw_min", "up_down", "lifetime", "diffusion", "construction_seed"],
        "WeightModifierParameter": ["std_dev", "res", "pdrop", "enable_during_test"],
        "WeightClipParameter": ["sigma", "fixed_value"], "WeightRemapParameter": ["remapped_wmax"],
        "MappingParameter": ["digital_bias", "learn_out_scaling"]}


def canon(v):
    if isinstance(v, enum.Enum):
        return str(v.value)
    if type(v).__name__ in ("AnalogMVType",) or hasattr(type(v), "__members__"):
        return v.name
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return str(v)
    if isinstance(v, (list, tuple)):
        return ",".join(canon(x) for x in v)
    if isinstance(v, (int, float)):
        return "%.5g" % float(v)
    return "?" + type(v).__name__


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.objs, self.keep = [], []
        for n in c["roots"]:
            self.add(cls_of(n)())
        self.out = self.blank()

    @staticmethod
    def blank():
        return dict(err="", b=[], eq="", sh=[])

    # ------------------------------------------------------------ objects
    def idx(self, x):
        for i, o in enumerate(self.objs):
            if o is x:
                return i + 1
        return 0

    def add(self, x):
        """Register x and what it refers to (what is known stays known)."""
        if self.idx(x):
            return
        self.objs.append(x)
        for n, _ in REFS.get(type(x).__name__, []):
            self.add(getattr(x, n))
        for y in getattr(x, "unit_cell_devices", []):
            self.add(y)

    def fresh(self, x):
        """Register the new root x: it may share objects with nothing else (they would keep their old numbers)."""
        if self.idx(x):
            self.objs.append(None)
        else:
            self.add(x)

    def arg(self, a):
        return self.objs[a["o"] - 1] if a["o"] else cls_of(a["cls"])

    def value(self, o, a):
        v, k = a["v"], a["k"]
        y = getattr(type(o)(), a["f"])
        if canon(y) == v and k != "s":
            return y
        if k == "f":
            return float(v)
        if k == "i":
            return int(v)
        if k == "b":
            return v == "True"
        if k == "l":
            return [float(x) for x in v.split(",")] if v else []
        if k == "e":
            return type(getattr(type(o)(), a["f"]))(v)
        return v

    # ------------------------------------------------------------ actions
    def step(self, a):
        op = a["op"]
        self.out = self.blank()
        o = self.objs[a["o"] - 1] if "o" in a else None
        if op == "new":
            self.fresh(cls_of(a["cls"])())
        elif op == "set":
            setattr(o, a["f"], self.value(o, a))
        elif op == "attach":
            setattr(o, a["f"], self.objs[a["p"] - 1])
        elif op == "devs":
            o.unit_cell_devices = [self.objs[i - 1] for i in a["d"]]
        elif op == "extra":
            setattr(o, self.extra_name(o), 1.0)
        elif op == "unextra":
            o.__dict__.pop(self.extra_name(o), None)
        elif op == "bind":
            try:
                self.out["b"] = [self.bound(o, self.bindings(o))]
            except ConfigError:
                self.out["err"] = "ConfigError"
            except Exception as e:  # any other refusal is not the documented one
                self.out["err"] = type(e).__name__
        elif op == "copy":
            self.fresh(copy.deepcopy(o))
        elif op == "tile":
            try:
                for cfg in self.layers(o, a):
                    self.fresh(cfg)
            except ConfigError:
                self.out["err"] = "ConfigError"
            except Exception as e:
                self.out["err"] = type(e).__name__
        elif op == "eq":
            self.out["eq"] = "yes" if o == self.objs[a["p"] - 1] else "no"
        elif op == "show":
            self.out["sh"] = re.findall(r"(?:\(|, |,\n|\n)\s*(\w+)=", str(o))
        elif op == "build":
            kw = dict(n_devices=a["n"], construction_seed=int(a["seed"]))
            self.fresh(build_config(a.get("name", a["alg"]), self.arg(a["dev"]), self.arg(a["io"]), self.arg(a["up"]), **kw))
        else:
            raise ValueError(op)

    @staticmethod
    def extra_name(o):
        return "inp_resolution" if hasattr(o, "inp_res") else "dw_minimum"

    def layers(self, o, a):
        """Layers with configuration o; their configurations."""
        if a["how"] == "convert":
            net = convert_to_analog(nn.Sequential(*[nn.Linear(2, 2) for _ in range(a["n"])]), o)
            ls = list(net)
        else:
            ls = [AnalogLinear(2, 2, True, o) for _ in range(a["n"])]
        self.keep.append(ls)
        tiles = [next(iter(x.analog_tiles())) for x in ls]
        return [t.rpu_config for t in tiles]

    @staticmethod
    def bindings(o):
        if BASE[type(o).__name__] in RPUS:
            return o.as_bindings()
        if hasattr(o, "as_bindings"):
            return o.as_bindings(RPUDataType.FLOAT)
        return parameters_to_bindings(o, RPUDataType.FLOAT)

    @staticmethod
    def given(v, b):
        """What the simulator got for the value v (which has other names or types for the same value)."""
        if isinstance(v, enum.Enum) and hasattr(type(b), v.value) and getattr(type(b), v.value) == b:
            return canon(v)
        if isinstance(v, bool) and isinstance(b, float) and b in (0., 1.):
            return canon(bool(b))
        return canon(b)

    def bound(self, o, b):
        n = type(o).__name__
        m = {"forward": "forward_io", "backward": "backward_io"} if BASE[n] in RPUS else {}
        return dict(f=[self.given(getattr(o, f), getattr(b, f)) if bd else "-" for f, _, bd in FIELDS[n]],
                    r=[self.bound(getattr(o, f), getattr(b, m.get(f, f))) for f, bd in REFS[n] if bd])

    def obs(self):
        out = []
        for o in self.objs:
            n = type(o).__name__
            if o is None or n not in FIELDS:
                out.append(dict(cls=n, f=[], r=[], d=[], x=-1))
                continue
            names = {f.name for f in dataclasses.fields(o)}
            out.append(dict(cls=n, f=[canon(getattr(o, f)) for f, _, _ in FIELDS[n]],
                            r=[self.idx(getattr(o, f)) for f, _ in REFS[n]],
                            d=[self.idx(y) for y in getattr(o, "unit_cell_devices", [])],
                            x=len([k for k in o.__dict__ if k not in names])))
        return dict(objs=out, out=dict(self.out))

    # ------------------------------------------------------------ random
    @staticmethod
    def random_cfg(rng, tier):
        rpus = [n for n in BASE if BASE[n] in RPUS]
        u = rng.random()
        if u < .25:
            roots = [rng.choice(RPUS + ["SingleRPUConfig", "InferenceRPUConfig"])]
        elif u < .4:
            roots = [rng.choice(rpus)]
        elif u < .75:
            roots = [rng.choice([n for n in BASE if BASE[n] in CELLS + ["MixedPrecisionCompound"]]), rng.choice(DEVCLS)]
        else:
            roots = [rng.choice(DEVCLS), rng.choice(IOCLS), rng.choice(UPCLS)]
        if rng.random() < .7:
            roots.append(rng.choice(BINDABLE))
        if rng.random() < .5:
            roots.append(rng.choice(IOCLS))
        return dict(roots=roots)

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(4, 14)

    def random_act(self, rng):
        N = len(self.objs)
        name = [type(o).__name__ for o in self.objs]
        ids = range(1, N + 1)
        of = lambda cl: [i for i in ids if BASE.get(name[i - 1]) in cl]
        clean = lambda i: not self.dirty(self.objs[i - 1])
        w = [("set", 8), ("bind", 7), ("show", 1), ("eq", 2), ("attach", 2), ("extra", .7), ("unextra", .7)]
        if N < 60:
            w += [("new", 1), ("copy", 1.5), ("tile", 3)]
            if of(PULSED) and of(["IOParameters"]):
                w.append(("build", 3))
        if of(CELLS):
            w.append(("devs", 3))
        op = rng.choices([x for x, _ in w], [y for _, y in w])[0]
        if op == "new":
            return dict(op=op, cls=rng.choice(BINDABLE + RPUS))
        if op == "set":
            i = rng.choice([i for i in ids if FIELDS[name[i - 1]]])
            return self.random_set(rng, i, name[i - 1])
        if op == "bind":
            return dict(op=op, o=rng.choice([i for i in ids if name[i - 1] in BINDABLE or
                                             BASE[name[i - 1]] in RPUS and BASE[name[i - 1]] != "FloatingPointRPUConfig"] or [None])) \
                if any(name[i - 1] in BINDABLE for i in ids) else dict(op="new", cls="IOParameters")
        if op in ("extra", "unextra"):
            return dict(op=op, o=rng.choice([i for i in ids if BASE[name[i - 1]] not in RPUS]))
        if op == "show":
            q = of(["IOParameters", "UpdateParameters"])
            q = [i for i in q if clean(i)]
            return dict(op=op, o=rng.choice(q)) if q else dict(op="new", cls="IOParameters")
        if op == "eq":
            q = [i for i in ids if BASE[name[i - 1]] not in RPUS and clean(i)]
            if not q:
                return dict(op="new", cls="IOParameters")
            o = rng.choice(q)
            return dict(op=op, o=o, p=rng.choice([i for i in q if name[i - 1] == name[o - 1]] + [rng.choice(q)]))
        if op == "attach":
            q = []
            for i in ids:
                for f, _ in REFS[name[i - 1]]:
                    for p in ids:
                        if p == i or self.reaches(p, i):
                            continue
                        b, t = BASE[name[p - 1]], f
                        if (f in ("forward", "backward", "refresh_forward", "transfer_forward") and b == "IOParameters"
                                or f in ("update", "transfer_update", "refresh_update") and b == "UpdateParameters"
                                or f == "device" and b in PULSED and BASE[name[i - 1]] in ("SingleRPUConfig", "MixedPrecisionCompound")
                                or f == "device" and b in CELLS and BASE[name[i - 1]] == "UnitCellRPUConfig"
                                or f == "device" and b == "MixedPrecisionCompound" and BASE[name[i - 1]] == "DigitalRankUpdateRPUConfig"
                                or f in ("modifier", "clip", "remap") and b.lower() == "weight%sparameter" % f):
                            q.append((i, f, p))
            if not q:
                return dict(op="new", cls=rng.choice(["IOParameters", "UpdateParameters"]))
            i, f, p = rng.choice(q)
            return dict(op=op, o=i, f=f, p=p)
        if op == "devs":
            o, q = rng.choice(of(CELLS)), of(PULSED)
            if not q:
                return dict(op="new", cls=rng.choice(DEVCLS))
            d = [rng.choice(q) for _ in range(rng.choice([0, 1, 2, 2, 2, 3]))]
            if rng.random() < .5:
                d = d[:1] * len(d)
            return dict(op=op, o=o, d=d)
        if op == "copy":
            return dict(op=op, o=rng.choice(list(ids)))
        if op == "tile":
            q = [i for i in of(RPUS) if self.safe(i)]
            if not q:
                return dict(op="new", cls=rng.choice(RPUS))
            return dict(op=op, o=rng.choice(q), n=rng.choice([1, 1, 2]), how=rng.choice(["layer", "convert"]))
        if op == "build":
            pick = lambda q, cl: dict(o=rng.choice(q), cls="") if q and rng.random() < .8 else dict(o=0, cls=rng.choice(cl))
            cl = lambda kinds: [i for i in of(kinds) if clean(i) and not self.extras(i)]
            al = rng.choice(list(ALGS))
            return dict(op=op, alg=al, name=rng.choice(ALGS[al]), dev=pick(cl(PULSED), DEVCLS), io=pick(cl(["IOParameters"]), IOCLS),
                        up=pick(cl(["UpdateParameters"]), UPCLS), n=rng.choice([1, 1, 2, 3]), seed=str(rng.choice([0, 3, 11])))
        return None

    def reaches(self, p, i):
        seen, todo = set(), [self.objs[p - 1]]
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            todo += [getattr(x, f) for f, _ in REFS.get(type(x).__name__, [])] + list(getattr(x, "unit_cell_devices", []))
        return id(self.objs[i - 1]) in seen

    def under(self, o):
        out, todo = [], [o]
        while todo:
            x = todo.pop()
            out.append(x)
            todo += [getattr(x, f) for f, _ in REFS.get(type(x).__name__, [])] + list(getattr(x, "unit_cell_devices", []))
        return out

    def extras(self, i):
        return any(k not in {f.name for f in dataclasses.fields(x)} for x in self.under(self.objs[i - 1]) for k in x.__dict__)

    def dirty(self, o):
        """Whether some field has a value of a wrong type."""
        ok = dict(f=(int, float), i=int, b=bool, e=enum.Enum, l=list)
        for x in self.under(o):
            for f, k, _ in FIELDS.get(type(x).__name__, []):
                v = getattr(x, f)
                if not isinstance(v, ok[k]) or k in "fi" and isinstance(v, bool):
                    return True
        return False

    def safe(self, i):
        """Whether layers can be created from it, whatever has been changed (or the creation must be refused)."""
        for x in self.under(self.objs[i - 1]):
            n = type(x).__name__
            y = type(x)()
            for f, k, _ in FIELDS[n]:
                if canon(getattr(x, f)) != canon(getattr(y, f)) and f not in SAFE.get(BASE[n], []):
                    return False
            if n == "RuntimeParameter" or BASE[n] in CELLS + ["MixedPrecisionCompound"] and len(getattr(x, "unit_cell_devices", [0])) == 0:
                if BASE[n] in CELLS:
                    return False
        d = self.objs[i - 1].device
        return BASE.get(type(d).__name__) not in ("UnitCell", "DigitalRankUpdateCell")

    def random_set(self, rng, i, n):
        f, k, _ = rng.choice([x for x in FIELDS[n] if x[0] in SAFE.get(BASE[n], [x[0]])] if rng.random() < .5 and BASE[n] in SAFE
                             else FIELDS[n])
        o = self.objs[i - 1]
        if f == "data_type":  # only one is built
            return dict(op="copy", o=i)
        if rng.random() < .06:
            bad = dict(f=["s", "b"], i=["f", "s"], b=["i", "f", "s"], e=["s", "i"], l=["f", "s"])[k]
            bk = rng.choice(bad)
            return dict(op="set", o=i, f=f, k=bk, v=dict(s="abc", b="True", f="0.375", i="1")[bk])
        if rng.random() < .15:  # back to the default
            y = getattr(type(o)(), f)
            return dict(op="set", o=i, f=f, k=k, v=canon(y))
        if k == "f" and rng.random() < .3:
            return dict(op="set", o=i, f=f, k="i", v=str(rng.randint(0, 9)))
        if k == "e":
            v = rng.choice(list(type(getattr(type(o)(), f)))).value
        else:
            v = dict(f=canon(rng.choice([.5, .25, .125, .75, .0625, .03125]) * rng.choice([1, 1, 3])), i=str(rng.randint(0, 9)),
                     b=rng.choice(["True", "False"]), l=",".join(canon(rng.choice([.5, .25, 1, 2, -1])) for _ in range(rng.randint(1, 3))))[k]
        return dict(op="set", o=i, f=f, k=k, v=v)
