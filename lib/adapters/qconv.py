"""Adapter of spec/QConv.tla: conversion of models to quantized ones."""
from collections import OrderedDict

import torch
from torch import nn

from aihwkit.nn import AnalogLinear
from aihwkit.nn.low_precision_conversion import convert_to_quantized
from aihwkit.nn.low_precision_modules import quantization_states as qs
from aihwkit.nn.low_precision_modules.quantized_base_modules import QuantBatchNorm2d, QuantLinear
from aihwkit.nn.low_precision_modules.quantized_input_module import QuantizedInputModule
from aihwkit.simulator.configs import IOParameters, TorchInferenceRPUConfig
from aihwkit.simulator.parameters.quantization import ActivationQuantConfig, QuantizationConfig, QuantizationMap, QuantizedModuleConfig, WeightQuantConfig

from common import qv

TYPES = dict(lin=nn.Linear, ana=AnalogLinear, act=nn.ReLU, id=nn.Identity, seq=nn.Sequential)
NAMES = {v: k for k, v in TYPES.items()}
NAMES.update({QuantLinear: "ql", QuantBatchNorm2d: "qb", QuantizedInputModule: "qi"})

NUMS = ["0", "1", "2", "3"]
# names that are prefixes or suffixes of each other
LETTERS = ["a", "aa", "b", "ba"]


def quantized(*args, **kwargs):
    """Quantized counterpart of linear layers, wrapper of others."""
    return QuantBatchNorm2d(*args, **kwargs) if args else QuantLinear(**kwargs)


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.pars = {}
        self.org = self.build(1, {})
        self.org.train()
        self.new = convert_to_quantized(self.org, QuantizationMap())
        self.y = []

    def build(self, k, memo):
        if k in memo:
            return memo[k]
        n = self.c["nodes"][k - 1]
        t = n["t"]
        if t == "seq":
            m = nn.Sequential(OrderedDict((self.c["names"][j], self.build(i, memo)) for j, i in enumerate(n["ch"])))
        elif t in ("lin", "ana"):
            p = self.c["P"][n["p"] - 1]
            bias = p["b"] != []
            if t == "ana":
                rc = TorchInferenceRPUConfig(forward=IOParameters(is_perfect=True))
                rc.mapping.weight_scaling_omega = 0.0
                m = AnalogLinear(2, 2, bias=bias, rpu_config=rc)
                m.set_weights(torch.tensor(p["W"]).float(), torch.tensor(p["b"]).float() if bias else None)
            else:
                m = nn.Linear(2, 2, bias=bias)
                if n["p"] in self.pars:
                    m.weight = self.pars[n["p"]].weight
                    if bias:
                        m.bias = self.pars[n["p"]].bias
                else:
                    self.pars[n["p"]] = m
                    with torch.no_grad():
                        m.weight.copy_(torch.tensor(p["W"]))
                        if bias:
                            m.bias.copy_(torch.tensor(p["b"]))
                    for x in m.parameters():
                        x.requires_grad_(not p["fz"])
        else:
            m = TYPES[t]()
        memo[k] = m
        return m

    @staticmethod
    def walk(m, pre=""):
        r = [(pre, m)]
        t = type(m)
        if t is nn.Sequential:
            ch = m._modules.items()
        elif t in (QuantBatchNorm2d, QuantizedInputModule):
            ch = [("module", m.module)]
        else:
            ch = []
        for n, x in ch:
            r += Adapter.walk(x, n if not pre else pre + "." + n)
        return r

    @staticmethod
    def bits(m):
        t = type(m)
        if t is QuantLinear:
            assert m._quant_w == (m.weight_quantizer.n_bits > 0) and m._quant_a == (m.activation_quantizer.n_bits > 0)
            return m.weight_quantizer.n_bits, m.activation_quantizer.n_bits
        if t in (QuantBatchNorm2d, QuantizedInputModule):
            z = m.act_bn_quantizer if t is QuantBatchNorm2d else m.input_quantizer
            assert z._quant_a == (z.activation_quantizer.n_bits > 0)
            return 0, z.activation_quantizer.n_bits
        return 0, 0

    @staticmethod
    def shape(model):
        wk = Adapter.walk(model)
        objs = [m for _, m in wk]
        par = [getattr(m, "weight", None) if not isinstance(m, AnalogLinear) else None for m in objs]
        r = []
        for i, (p, m) in enumerate(wk):
            ana = isinstance(m, AnalogLinear)
            w, a = Adapter.bits(m)
            d = dict(p=p, t=NAMES[type(m)], wb=w, ab=a, obj=next(j for j, o in enumerate(objs) if o is m) + 1, par=0, W=[], b=[], fz=False)
            if ana:
                W, b = m.get_weights()
                d.update(par=d["obj"], W=qv(W), b=qv(b) if b is not None else [])
            elif par[i] is not None:
                d.update(par=next(j for j, o in enumerate(par) if o is m.weight) + 1, W=qv(m.weight), b=qv(m.bias) if m.bias is not None else [],
                         fz=not m.weight.requires_grad)
                assert m.bias is None or m.bias.requires_grad == m.weight.requires_grad
            r.append(d)
        return r

    def qmap(self, a):
        conf = lambda e: QuantizationConfig(ActivationQuantConfig(e["ab"]), WeightQuantConfig(e["wb"]))
        qm = QuantizationMap()
        for e in a["mods"]:
            qm.module_qconfig_map[TYPES[e["t"]]] = QuantizedModuleConfig(quantized, conf(e))
        for e in a["inst"]:
            qm.instance_qconfig_map[e["p"]] = QuantizedModuleConfig(quantized, conf(e))
        qm.excluded_modules += a["ex"]
        for e in a["inp"]:
            qm.input_activation_qconfig_map[e["p"]] = ActivationQuantConfig(e["ab"])
        return qm

    def step(self, a):
        self.y = []
        if a["op"] == "conv":
            src = getattr(self, a["src"])
            qm = self.qmap(a)
            keep = str(qm)
            self.new = convert_to_quantized(src, qm)
            assert str(qm) == keep, "map changed"
        elif a["op"] == "edit":
            m = self.walk(getattr(self, a["on"]))[a["i"] - 1][1]
            W = torch.tensor(a["W"]).float()
            if isinstance(m, AnalogLinear):
                m.set_weights(W, m.get_weights()[1])
            else:
                with torch.no_grad():
                    m.weight.copy_(W)
        elif a["op"] == "fwd":
            m = getattr(self, a["on"])
            qs.set_quant_state(m, False, False)
            self.y = qv(m(torch.tensor([a["x"]]).float())[0])
            qs.enable_quant_states(m)

    def obs(self):
        return dict(org=self.shape(self.org), new=self.shape(self.new), y=self.y)

    # ------------------------------------------------------------ random
    @staticmethod
    def random_cfg(rng, tier):
        P, nodes = [], []
        for _ in range(rng.randint(1, 3)):
            P.append(dict(W=[[rng.randint(-3, 3) for _ in range(2)] for _ in range(2)], b=rng.choice([[], [rng.randint(-3, 3), rng.randint(-3, 3)]]), fz=rng.random() < .3))
        own = len(P)

        def leaf():
            t = rng.choice(["lin", "lin", "lin", "act", "id", "ana"])
            if t == "ana":
                P.append(dict(W=[[rng.randint(-3, 3) for _ in range(2)] for _ in range(2)], b=[1, -2], fz=False))
            return dict(t=t, ch=[], p=0 if t in ("act", "id") else len(P) if t == "ana" else rng.randint(1, own))

        if rng.random() < .05:
            return dict(P=P, names=NUMS, nodes=[leaf()])
        nodes.append(dict(t="seq", ch=[], p=0))
        free = []

        def fill(k, depth):
            for _ in range(rng.randint(1, 3)):
                if free and rng.random() < .3:
                    nodes[k]["ch"].append(rng.choice(free))
                    continue
                sub = depth < 2 and rng.random() < .35
                nodes.append(dict(t="seq", ch=[], p=0) if sub else leaf())
                i = len(nodes)
                nodes[k]["ch"].append(i)
                if sub:
                    fill(i - 1, depth + 1)
                free.append(i)
        fill(0, 0)
        return dict(P=P, names=rng.choice([NUMS, LETTERS]), nodes=nodes)

    def random_act(self, rng):
        op = rng.choice(["conv", "conv", "conv", "fwd", "edit"])
        on = rng.choice(["org", "new"])
        if op == "fwd":
            return dict(op=op, on=on, x=[rng.randint(-2, 2), rng.randint(-2, 2)])
        wk = self.walk(getattr(self, on))
        if op == "edit":
            k = [i for i, (_, m) in enumerate(wk) if isinstance(m, (nn.Linear, AnalogLinear))]
            if not k:
                return dict(op="fwd", on=on, x=[1, 1])
            return dict(op=op, on=on, i=rng.choice(k) + 1, W=[[rng.randint(-3, 3) for _ in range(2)] for _ in range(2)])
        if on == "new" and len(wk) > 14:
            on = "org"
            wk = self.walk(self.org)
        paths = [p for p, _ in wk]
        bits = lambda: rng.choice([0, 2, 4, 6, 8])
        some = lambda pr: [p for p in dict.fromkeys(paths) if rng.random() < pr]
        mods = [dict(t=t, wb=bits(), ab=bits()) for t in ("lin", "ana", "act", "id") if rng.random() < (.7 if t == "lin" else .4)]
        return dict(op=op, src=on, mods=mods, inst=[dict(p=p, wb=bits(), ab=bits()) for p in some(.2)], ex=[p for p in some(.2) if p] if rng.random() < .5 else [],
                    inp=[dict(p=p, ab=rng.choice([2, 4, 6])) for p in some(.2)])

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(2, 7)
