"""Adapter of spec/Tiling.tla: layers on arrays of tiles."""
import copy
import io
import pickle

import torch

from aihwkit.nn import AnalogLinear, AnalogLinearMapped
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.tiles.array import TileModuleArray
from aihwkit.simulator.tiles.custom import CustomRPUConfig
from aihwkit.simulator.configs import IOParameters

import mapping
from common import T, qv


def rpu(c):
    if c["kind"] == "custom":
        p = IOParameters(is_perfect=True)
        r = CustomRPUConfig(forward=p, backward=IOParameters(is_perfect=True), mapping=mapping.rpu(dict(c, kind="fp")).mapping)
    else:
        r = mapping.rpu(c)
    r.mapping.max_input_size, r.mapping.max_output_size = c["maxin"], c["maxout"]
    return r


class Adapter(mapping.Adapter):
    """Executes actions in the real code."""

    def clear(self):
        self.y, self.gx, self.gb = [], [], []

    def make(self):
        return (AnalogLinearMapped if self.c["mapped"] else AnalogLinear)(self.n, self.m, self.c["bias"] > 0, rpu(self.c))

    def grid(self):
        am = self.layer.analog_module
        return [list(r) for r in am.array] if isinstance(am, TileModuleArray) else [[am]]

    def bias_param(self):
        return self.layer.analog_module.bias

    def shape(self, x, a):
        """The batch in one of its forms."""
        form = a.get("form", 2)
        return x[0] if form == 1 and len(x) == 1 else x.view(-1, 1, x.shape[-1]) if form == 3 else x

    def step(self, a):
        op = a["op"]
        if op in ("set", "setom", "copy", "reload", "pickle"):
            super().step(a)
            return
        self.clear()
        if op == "setraw":
            self.fz = False
            self.layer.set_weights(T(a["w"]), self.bias(a["b"]), apply_weight_scaling=False)
        elif op == "remap":
            self.layer.remap_analog_weights(None if a["om"] < 0 else 1.0 / a["om"] if a["om"] else 0.0)
        elif op == "program":
            self.fz = True
            self.layer.eval()
            for t in self.layer.analog_tiles():
                t.program_weights(learning_rate=0.5, tolerance=None, max_iter=60)
            self.layer.train()
        elif op == "train":
            self.train(a)
        elif op == "fwd":
            with torch.no_grad():
                self.y = qv(self.layer(self.shape(T(a["x"]), a)).view(-1, self.m))
        elif op == "read":
            self.layer.get_weights()
        elif op == "replace":
            self.layer.replace_rpu_config(rpu(self.c))
        else:
            t = self.grid()[a["p"] - 1][a["q"] - 1]
            if op == "tset":
                t.set_weights(T(a["w"]))
            elif op == "tremap":
                t.remap_weights(None if a["om"] < 0 else 1.0 / a["om"] if a["om"] else 0.0)
            elif op == "tscale":
                sc = t.get_scales()
                t.set_scales((torch.ones(1) if sc is None else sc.detach().clone()) * a["k"])
            elif op == "tlearn":
                r = T(a["r"])[:None if self.c["learn"] == 2 else 1]
                t.set_learned_out_scales(t.get_learned_out_scales().detach().view(-1) * r)
            else:
                raise ValueError(op)

    def train(self, a):
        self.fz = True
        g, layer = self.grid(), self.layer
        fr = {tuple(f) for f in a["fr"]}
        layer.train()
        for p, r in enumerate(g):
            for q, t in enumerate(r):
                for n, v in t.named_parameters():
                    if n.split(".")[-1] not in ("out_scaling_alpha", "bias"):
                        v.requires_grad_((p + 1, q + 1) not in fr)
        if self.bias_param() is not None:
            self.bias_param().requires_grad_(not a["fb"])
        # (the learned scales are not trained)
        opt = AnalogSGD([v for n, v in layer.named_parameters() if n.split(".")[-1] != "out_scaling_alpha"], lr=float(a["lr"]))
        opt.zero_grad()
        x = T(a["x"]).requires_grad_(True)
        y = layer(self.shape(x, a))
        (y.view(-1, self.m) * T(a["g"])).sum().backward()
        if self.bias_param() is not None and not a["fb"]:
            self.gb = qv(self.bias_param().grad)
        opt.step()
        opt.zero_grad()
        for n, v in layer.named_parameters():
            v.requires_grad_(True)
        self.y, self.gx = qv(y.view(-1, self.m)), qv(x.grad)

    def tscales(self, t):
        sc = t.get_scales()
        return torch.ones(t.out_size) * (1.0 if sc is None else sc.detach().cpu())

    def obs(self):
        w, b = self.layer.get_weights()
        g = self.grid()
        mu = [[t.get_mapping_scales() for t in r] for r in g]
        return dict(L=qv(w), b=qv(b) if b is not None else [], y=self.y, gx=self.gx, gb=self.gb,
                    tl=[[qv(t.get_weights()[0]) for t in r] for r in g],
                    mu=[[qv(torch.ones(t.out_size) * (1.0 if m is None else m)) for t, m in zip(*z)] for z in zip(g, mu)],
                    sc=[[qv(self.tscales(t)) for t in r] for r in g], raw=self.raw(g))

    def raw(self, g):
        """Weights of the layer as they are on the tiles, times the scales of these."""
        w, _ = self.layer.get_weights(apply_weight_scaling=False)
        w = w.detach().clone()
        i = 0
        for r in g:
            j = 0
            for t in r:
                w[j:j + t.out_size, i:i + t.in_size] *= self.tscales(t).view(-1, 1)
                j += t.out_size
            i += r[0].in_size
        return qv(w)

    @staticmethod
    def random_cfg(rng, tier):
        c = dict(mapping.Adapter.random_cfg(rng, tier), K=1)
        m, n = rng.randint(1, 5), rng.randint(1, 5)
        c.update(kind=rng.choice(["fp", "ideal", "inf", "tinf", "custom"]), bias=rng.choice([0, 2, 2]), mapped=rng.random() < .4,
                 maxin=rng.choice([0, 1, 2, 2, 3, 4]), maxout=rng.choice([0, 1, 2, 2, 3, 4]), **Adapter.rw(rng, m, n))
        return c

    def random_act(self, rng):
        c, m, n = self.c, self.m, self.n
        o = self.obs()
        g = self.grid()
        P, Q = len(g), len(g[0])
        p, q = rng.randrange(P), rng.randrange(Q)
        big = max(abs(v) for r in o["L"] for v in r) > 300 or max(v for r in o["sc"] for t in r for v in t) > 64 \
            or max(map(abs, o["b"] or [0])) > 300
        w = self.rw(rng, m, n, ("w", "b"))
        if big:
            return dict(op="set", **w)
        ops = ["set", "setom", "setraw", "remap", "tremap", "tset", "tscale", "train", "train", "train", "fwd", "read",
               "copy", "reload", "pickle", "replace"]
        if c["learn"]:
            ops += ["tlearn"] * 2
        if c["kind"] in ("fp", "ideal", "custom"):
            ops += ["program"] * 2
        if self.fz:
            # (zeros of floating point arithmetic)
            zero = [not any(r) if c["cw"] else not any(map(any, t)) for z in o["tl"] for t in z for r in t]
            if any(zero):
                ops = [x for x in ops if x not in ("remap", "tremap")]
        op = rng.choice(ops)
        a = dict(op=op)
        if op in ("set", "setom", "setraw"):
            a.update(w)
            if op == "setom":
                a["om"] = rng.choice([0, 1, 2])
        elif op in ("remap", "tremap"):
            a["om"] = rng.choice([-1, 0, 1, 1, 2])
        elif op in ("train", "fwd"):
            k = rng.randint(1, 3)
            a["form"] = rng.choice([1, 2, 2, 3])
            a["x"] = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(k)]
            if op == "train":
                a["g"] = [[rng.randint(-1, 1) for _ in range(m)] for _ in range(k)]
                a["lr"] = rng.choice([0, 1, 1])
                a["fr"] = [[i + 1, j + 1] for i in range(P) for j in range(Q)] if rng.random() < .1 else \
                    [[i + 1, j + 1] for i in range(P) for j in range(Q) if rng.random() < .15]
                a["fb"] = bool(rng.random() < .2)
        if op[0] == "t" and op != "train":
            a.update(p=p + 1, q=q + 1)
            bm, bn = len(o["tl"][p][q]), len(o["tl"][p][q][0])
            if op == "tset":
                a["w"] = self.rw(rng, bm, bn)["W0"]
            elif op == "tscale":
                a["k"] = rng.choice([1, 2])
            elif op == "tlearn":
                r = [rng.choice([1, 2]) for _ in range(bm)]
                a["r"] = r if c["learn"] == 2 else [r[0]] * bm
        return a
