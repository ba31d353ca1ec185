"""Adapter of spec/Convert.tla: conversion of models between digital and analog."""
import copy
import io

import torch
from torch import nn

from aihwkit.nn import AnalogLinear, AnalogSequential
from aihwkit.nn.conversion import convert_to_analog, convert_to_digital
from aihwkit.nn.modules.base import AnalogLayerBase
from aihwkit.nn.modules.container import AnalogWrapper
from aihwkit.simulator.configs import FloatingPointRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig, IOParameters

from common import T, qv

LETTERS = ["fa", "fb", "fc", "fd", "fe", "ff"]


class Sub(nn.Linear):
    """A user's layer."""


def make_net(neg):
    """Two classes of the same name."""
    class Net(nn.Module):
        def __init__(self, mods):
            super().__init__()
            for n, m in zip(LETTERS, mods):
                setattr(self, n, m)

        def forward(self, x):
            for n in LETTERS:
                m = getattr(self, n, None)
                if m is None:
                    break
                for l in (m if isinstance(m, nn.ModuleList) else [m]):
                    x = l(x)
            return -x if neg else x
    return Net


NET, NGT = make_net(False), make_net(True)


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.nodes = c["nodes"]
        memo = {}
        self.m = self.build(1, memo)
        self.old, self.same, self.calls, self.k = None, True, [], 0
        self.rc = [FloatingPointRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig][c.get("rc", 0)]()
        if c.get("rc", 0):
            self.rc.forward = IOParameters(is_perfect=True)
            self.rc.mapping.weight_scaling_omega = 0.0
        self.rcs = str(self.rc)

    def build(self, k, memo):
        if k in memo:
            return memo[k]
        n = self.nodes[k - 1]
        t = n["t"]
        if t in ("lin", "sub"):
            m = (Sub if t == "sub" else nn.Linear)(len(n["W"][0]), len(n["W"]), n["bias"])
            with torch.no_grad():
                m.weight.copy_(T(n["W"]))
                if n["bias"]:
                    m.bias.copy_(T(n["b"]))
        elif t == "act":
            m = nn.ReLU()
        else:
            ch = [self.build(x, memo) for x in n["ch"]]
            m = nn.Sequential(*ch) if t == "seq" else nn.ModuleList(ch) if t == "ml" else (NGT if t == "ngt" else NET)(ch)
        memo[k] = m
        return m

    def names(self, k=1, pre=""):
        """All paths (name, node)."""
        out = [(pre, k)]
        for j, x in enumerate(self.nodes[k - 1]["ch"]):
            nm = LETTERS[j] if self.nodes[k - 1]["t"] in ("net", "ngt") else str(j)
            out += self.names(x, pre + "." + nm if pre else nm)
        return out

    @staticmethod
    def walk(m, pre=""):
        """All paths (name, module), shared modules repeatedly."""
        out = [(pre, m)]
        if isinstance(m, AnalogLinear):
            return out
        for n, x in m._modules.items():
            out += Adapter.walk(x, pre + "." + n if pre else n)
        return out

    def by_node(self, m=None):
        w = dict(self.walk(self.m if m is None else m))
        res = {}
        for nm, k in self.names():
            res.setdefault(k, w[nm])
        return res

    @staticmethod
    def ana(m):
        return isinstance(m, AnalogLinear)

    def view(self, m):
        """Everything observable of a model."""
        w = self.walk(m)
        seen, share, paths = {}, [], []
        for i, (nm, x) in enumerate(w):
            share.append(seen.setdefault(id(x), i + 1))
            cl = type(x)
            if isinstance(x, AnalogWrapper):
                cl = cl.__bases__[1]
            nm2 = cl.__name__
            if cl is AnalogLinear:
                om = {t.rpu_config.mapping.weight_scaling_omega for t in x.analog_tiles()}
                nm2 += {(0.0,): "1", (0.5,): "2"}.get(tuple(om), "?")
            if cl in (NET, NGT) and [cl is NGT] != [self.nodes[k - 1]["t"] == "ngt" for n3, k in self.names() if n3 == nm]:
                nm2 = "other class"
            tr = {y.training for y in x.modules()} if cl is AnalogLinear else {x.training}
            paths.append([nm, nm2, "t" if tr == {True} else "e" if tr == {False} else "?"])
        W, b = [], []
        by = dict((k, x) for (n, k), (n2, x) in zip(self.names(), w))
        for k, n in enumerate(self.nodes):
            if n["t"] in ("lin", "sub"):
                x = by[k + 1]
                ww, bb = x.get_weights() if self.ana(x) else (x.weight, x.bias)
                W.append(qv(ww))
                b.append(qv(bb) if bb is not None else [])
        with torch.no_grad():
            y = qv(m(T([self.c["x"]])))[0]
        keys = []
        ra = isinstance(m, AnalogLayerBase)
        if ra and not self.ana(m):
            for nm in m.get_weights():
                keys.append(nm[:-len(".analog_module")] if nm.endswith(".analog_module") else nm + "?")
            if keys != [n for n, _ in m.named_analog_layers()] or m.analog_tile_count() < 0:
                keys = ["layers differ"]
        return dict(paths=paths, share=share, W=W, b=b, y=y, keys=keys,
                    root="wrapped" if isinstance(m, AnalogWrapper) else "analog" if ra else "plain")

    def step(self, a):
        op = a["op"]
        self.calls, self.same = [], True
        self.k += 1
        if op in ("ana", "dig"):
            before = None if a["inp"] else self.view(self.m)
            old = self.m
            self.m = self.to_ana(a) if op == "ana" else convert_to_digital(
                self.m, conversion_set={AnalogLinear} if a["map"] == "lin" else None, inplace=a["inp"])
            self.old = None
            if before is not None:
                self.old = old
                self.same = self.view(old) == before
            self.same = self.same and str(self.rc) == self.rcs
        elif op == "add":
            v = float(a["v"])
            f = lambda w, b: (w + v, None if b is None else b + v)
            if isinstance(self.m, AnalogLayerBase) and not self.ana(self.m):
                d = self.m.get_weights()
                self.m.set_weights({n: f(*x) for n, x in d.items()})
            else:
                for x in self.m.modules():
                    if self.ana(x):
                        x.set_weights(*f(*x.get_weights()))
        elif op in ("dadd", "mutold"):
            m = self.m if op == "dadd" else self.old
            with torch.no_grad():
                for x in m.modules() if m is not None else []:
                    if isinstance(x, nn.Linear) and not self.ana(x):
                        for p in x.parameters():
                            p.add_(float(a.get("v", 3)))
                    elif self.ana(x) and op == "mutold":
                        w, b = x.get_weights()
                        x.set_weights(w + 3.0, None if b is None else b + 3.0)
            if op == "mutold" and m is not None:
                m.train(not m.training)
        elif op == "mode":
            self.by_node()[a["k"]].train(a["tr"])
        elif op == "copy":
            self.m = copy.deepcopy(self.m)
        elif op == "reload":
            buf = io.BytesIO()
            torch.save(self.m.state_dict(), buf)
            buf.seek(0)
            new = copy.deepcopy(self.m)
            with torch.no_grad():
                for x in new.modules():
                    if self.ana(x):
                        w, b = x.get_weights()
                        x.set_weights(w * 0.0, None if b is None else b * 0.0)
                    elif isinstance(x, nn.Linear):
                        x.weight.zero_()
            new.load_state_dict(torch.load(buf, weights_only=False))
            self.m = new
        else:
            raise ValueError(op)

    def to_ana(self, a):
        kw = {}
        if a["map"] != "all":
            kw["conversion_map"] = {nn.Linear: AnalogLinear}
            if a["map"] == "sub":
                kw["conversion_map"].update({Sub: AnalogLinear, nn.Sequential: AnalogSequential})
        sp = {nm for nm, k in self.names() if k in a["sp"]}

        def fun(name, module, cfg):
            self.calls.append(name)
            if name in sp and isinstance(module, nn.Linear):
                cfg.mapping.weight_scaling_omega = 0.5
            return cfg
        return convert_to_analog(self.m, self.rc, specific_rpu_config_fun=fun, inplace=a["inp"],
                                 exclude_modules=[nm for nm, k in self.names() if k in a["ex"]] or None, **kw)

    def obs(self):
        return dict(self.view(self.m), calls=self.calls, old="same" if self.same else "changed")

    @staticmethod
    def random_cfg(rng, tier):
        n = rng.randint(1, 3)
        nodes = [dict(t=rng.choice(["seq", "net", "ngt"]), ch=[], bias=False, W=[], b=[])]
        uses = [0]

        def fill(k, depth):
            leaf = 0
            for _ in range(rng.randint(1, 4)):
                t = rng.choice(["lin", "lin", "lin", "sub", "act", "act", "old", "seq", "net", "ngt", "ml"])
                if nodes[k]["t"] not in ("net", "ngt") and t == "ml" or depth > 1 and t in ("seq", "net", "ngt", "ml"):
                    t = "lin"
                if t in ("lin", "sub") and uses[0] >= 5:
                    t = "act"
                if t == "old":
                    # register a module once more
                    old = [i for i, x in enumerate(nodes) if i and not x["ch"] and x["t"] in ("lin", "sub", "act")]
                    if not old or uses[0] >= 5:
                        continue
                    i = rng.choice(old)
                    uses[0] += nodes[i]["t"] != "act"
                    nodes[k]["ch"].append(i + 1)
                    continue
                leaf = len(nodes)
                nodes.append(dict(t=t, ch=[], bias=t in ("lin", "sub") and rng.random() < .6, W=[], b=[]))
                nodes[k]["ch"].append(leaf + 1)
                if t in ("lin", "sub"):
                    uses[0] += 1
                    nodes[leaf]["W"] = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)]
                    nodes[leaf]["b"] = [rng.randint(-2, 2) for _ in range(n)]
                elif t != "act":
                    fill(leaf, depth + 1)
            if not nodes[k]["ch"]:
                nodes.append(dict(t="act", ch=[], bias=False, W=[], b=[]))
                nodes[k]["ch"].append(len(nodes))
        fill(0, 0)
        if not any(x["t"] == "lin" for x in nodes):
            nodes.append(dict(t="lin", ch=[], bias=True, W=[[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)],
                              b=[1] * n))
            nodes[0]["ch"].append(len(nodes))
        if rng.random() < .4:
            # a container registered twice
            cand = [i for i in nodes[0]["ch"] if nodes[i - 1]["t"] in ("seq", "net", "ngt")]
            if cand and uses[0] <= 3 and len(nodes[0]["ch"]) < 6:
                nodes[0]["ch"].append(rng.choice(cand))
        return dict(nodes=nodes, x=[rng.randint(-2, 2) for _ in range(n)], rc=rng.choice([0, 1, 2]))

    def under(self, k):
        return {k}.union(*[self.under(x) for x in self.nodes[k - 1]["ch"]])

    def reach(self, ex, k=1):
        return set() if k == ex else {k}.union(*[self.reach(ex, x) for x in self.nodes[k - 1]["ch"]])

    def random_act(self, rng):
        op = rng.choice(["ana", "ana", "ana", "dig", "dig", "add", "dadd", "mutold", "mode", "copy", "reload"])
        a = dict(op=op)
        if op == "ana":
            ex = [k for k in range(2, len(self.nodes) + 1) if not self.under(k) & self.reach(k)]
            a["ex"] = [rng.choice(ex)] if ex and rng.random() < .5 else []
            a["map"] = rng.choice(["all", "all", "noseq", "sub"])
            a["sp"] = [k + 1 for k in range(len(self.nodes)) if rng.random() < .3]
            a["inp"] = rng.random() < .5
        elif op == "dig":
            a["map"], a["inp"] = rng.choice(["all", "lin"]), rng.random() < .5
        elif op in ("add", "dadd"):
            a["v"] = rng.choice([1, -1])
            o = self.view(self.m)["W"]
            if max(abs(x + a["v"]) for w in o for r in w for x in r) > 3:
                return dict(op="copy")
        elif op == "mode":
            a["k"], a["tr"] = rng.randint(1, len(self.nodes)), rng.random() < .5
        return a
