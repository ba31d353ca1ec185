"""Adapter of spec/Train.tla: two layer model under an analog-aware optimizer."""
import copy
import io

import torch
from torch.nn import Linear, Sequential

from aihwkit.nn import AnalogLinear, AnalogLinearMapped, AnalogSequential
from aihwkit.optim import AnalogSGD, AnalogAdam, AnalogOptimizer
from aihwkit.simulator.configs import (
    FloatingPointRPUConfig, SingleRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig, IdealDevice,
    ConstantStepDevice)
from aihwkit.simulator.configs import MappingParameter, PulseType, IOParameters, UpdateParameters

from common import T, qv

TYPE_A = ("fp", "ideal", "map", "const")


def mapping(bias, **kw):
    return MappingParameter(digital_bias=bias == 2, weight_scaling_omega=0.0, learn_out_scaling=False,
                            out_scaling_columnwise=False, **kw)


def rpu(kind, bias):
    io = dict(forward=IOParameters(is_perfect=True), backward=IOParameters(is_perfect=True))
    if kind == "fp":
        return FloatingPointRPUConfig(mapping=mapping(bias))
    if kind == "map":
        return FloatingPointRPUConfig(mapping=mapping(bias, max_input_size=2, max_output_size=2))
    if kind == "ideal":
        return SingleRPUConfig(device=IdealDevice(), mapping=mapping(bias),
                               update=UpdateParameters(pulse_type=PulseType.NONE), **io)
    if kind == "inf":
        c = InferenceRPUConfig(mapping=mapping(bias), **{"forward": io["forward"]})
        return c
    if kind == "tinf":
        return TorchInferenceRPUConfig(mapping=mapping(bias), forward=io["forward"])
    raise ValueError(kind)


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        # scale of the gradients and its inverse of the learning rates (powers of two: exact),
        # as small learning rates are to be applied like large ones
        k = c.get("S", (0, 12, -6)[(sum(c["bias"]) + sum(c["lr"]) + len(c["kinds"][0])) % 3])
        self.scale = 2.0**k
        self.build()
        self.y, self.gx = [], []
        for i in range(2):
            self.set(i, c["W0"][i], c["B0"][i])

    def build(self):
        c = self.c
        layers = []
        for i, kind in enumerate(c["kinds"]):
            n_out, n_in, bias = len(c["W0"][i]), len(c["W0"][i][0]), c["bias"][i]
            if kind == "dig":
                layers.append(Linear(n_in, n_out, bool(bias)))
            else:
                cls = AnalogLinearMapped if kind == "map" else AnalogLinear
                layers.append(cls(n_in, n_out, bool(bias), rpu(kind, bias)))
        self.layers = layers
        self.model = (AnalogSequential if c.get("seq") else Sequential)(*layers)
        groups = [{"params": list(l.parameters()), "lr": c["lr"][i] / self.scale} for i, l in enumerate(layers)]
        opt = c["opt"]
        if opt == "sgd":
            self.opt = AnalogSGD(groups, lr=7.0)
        elif opt == "wrap":
            self.opt = AnalogOptimizer(torch.optim.SGD, groups, lr=7.0)
        elif opt == "adam":
            self.opt = AnalogAdam(groups, lr=7.0)
        else:
            self.opt = AnalogOptimizer(torch.optim.AdamW, groups, lr=7.0)
        self.model.train()
        self.opt.zero_grad()
        self.regrouped = False

    def set(self, i, w, b):
        layer = self.layers[i]
        bb = T(b) if self.c["bias"][i] else None
        if self.c["kinds"][i] == "dig":
            with torch.no_grad():
                layer.weight.copy_(T(w))
                if bb is not None:
                    layer.bias.copy_(bb)
        else:
            layer.set_weights(T(w), bb)

    def shape(self, x):
        x = T(x)
        sh = self.c["sh"]
        if sh == 1:
            return x[None]
        if sh == 2:
            return x[:, None, :]
        if sh == 3:
            return x.t().contiguous().t()
        return x

    def unshape(self, t):
        return qv(t.reshape(-1, t.shape[-1]))

    def fwd(self, x, grad=False):
        x = self.shape(x)
        if grad:
            x.requires_grad_(True)
        return x, self.model(x)

    def step(self, a):
        op = a["op"]
        self.y, self.gx = [], []
        if op in ("fb", "fbfb"):
            pairs = [(*self.fwd(a["x"], a["xg"]), self.shape(a["g"]) * self.scale)]
            if op == "fbfb":
                pairs.append((*self.fwd(a["x2"], a["xg"]), self.shape(a["g2"]) * self.scale))
                sum((y * g).sum() for _, y, g in pairs).backward()
            else:
                (pairs[0][1] * pairs[0][2]).sum().backward()
            x, y, _ = pairs[-1]
            self.y = self.unshape(y)
            self.gx = self.unshape(x.grad / self.scale) if a["xg"] else []
        elif op == "fwd":
            with torch.no_grad():
                self.y = self.unshape(self.fwd(a["x"])[1])
        elif op == "step":
            self.opt.step()
        elif op == "cstep":
            def closure():
                self.opt.zero_grad()
                loss = (self.fwd(a["x"])[1] * self.shape(a["g"])).sum() * self.scale
                loss.backward()
                return loss
            self.opt.step(closure)
        elif op == "zero":
            self.opt.zero_grad()
        elif op == "lr":
            ids = {id(p) for p in self.layers[a["i"] - 1].parameters()}
            for g in self.opt.param_groups:
                if any(id(p) in ids for p in g["params"]):
                    g["lr"] = a["v"] / self.scale
        elif op == "lrall":
            if hasattr(self.opt, "set_learning_rate"):
                self.opt.set_learning_rate(a["v"] / self.scale)
        elif op == "mode":
            self.model.train(a["v"])
        elif op == "freeze":
            self.layers[a["i"] - 1].requires_grad_(not a["v"])
        elif op == "set":
            self.set(a["i"] - 1, a["w"], a["b"])
        elif op == "regroup":
            self.opt.regroup_param_groups()
            self.regrouped = True
        elif op == "reload":
            flags = [next(l.parameters()).requires_grad for l in self.layers]
            buf = io.BytesIO()
            regroup = self.regrouped
            lrs = []
            for layer in self.layers:
                ids = {id(p) for p in layer.parameters()}
                lrs.append([g["lr"] for g in self.opt.param_groups if any(id(p) in ids for p in g["params"])][0])
            torch.save(dict(m=self.model.state_dict(), o=self.opt.state_dict()), buf)
            training = self.model.training
            self.build()
            buf.seek(0)
            d = torch.load(buf, weights_only=False)
            self.model.load_state_dict(d["m"])
            if not regroup:
                self.opt.load_state_dict(d["o"])
            else:
                for layer, lr in zip(self.layers, lrs):
                    ids = {id(p) for p in layer.parameters()}
                    for g in self.opt.param_groups:
                        if any(id(p) in ids for p in g["params"]):
                            g["lr"] = lr
            self.model.train(training)
            for layer, f in zip(self.layers, flags):
                layer.requires_grad_(f)
        else:
            raise ValueError(op)

    def weights(self, i):
        layer = self.layers[i]
        if self.c["kinds"][i] == "dig":
            return layer.weight, layer.bias
        return layer.get_weights()

    def obs(self):
        ws = [self.weights(i) for i in range(2)]
        return dict(W=[qv(w) for w, _ in ws], b=[qv(b) if b is not None else [] for _, b in ws],
                    y=self.y, gx=self.gx, tr=self.model.training)

    # ------------------------------------------------------------ random
    @staticmethod
    def random_cfg(rng, tier):
        opt = rng.choice(["sgd", "sgd", "sgd", "wrap", "adam", "adamw"])
        kinds = ["fp", "fp", "ideal", "map"] + ([] if opt in ("adam", "adamw") else ["inf", "tinf", "dig"])
        k = [rng.choice(kinds), rng.choice(kinds)]
        b = [rng.choice([0, 1, 2] if kk in ("fp", "ideal", "map") and opt not in ("adam", "adamw")
                        else [0, 1] if opt in ("adam", "adamw") else [0, 1, 2]) for kk in k]
        for i in range(2):
            if b[i] == 1 and k[i] in ("map", "tinf", "tinfmap", "infmap"):
                b[i] = 2 if opt not in ("adam", "adamw") else 0
        n = [rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 4)]
        r = lambda: rng.randint(-2, 2)
        return dict(kinds=k, bias=b, opt=opt, sh=rng.choice([0, 0, 0, 1, 2, 3]), seq=rng.random() < .5,
                    W0=[[[r() for _ in range(n[i])] for _ in range(n[i + 1])] for i in range(2)],
                    B0=[[r() for _ in range(n[i + 1])] for i in range(2)],
                    S=rng.choice([0, 0, 12, -6]), lr=[rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 1, 2])])

    def random_act(self, rng):
        c = self.c
        n_in, n_out = len(c["W0"][0][0]), len(c["W0"][1])
        ws = [max(abs(v) for row in self.obs()["W"][i] for v in row) for i in range(2)]
        pend = any(hasattr(p, "has_gradient") and p.has_gradient() for p in self.model.parameters())
        big = [i for i in range(2) if ws[i] > 12]
        if big:
            i = big[0]
            n = len(c["W0"][i][0])
            if pend and rng.random() < .5:
                return dict(op="step") if max(ws) < 3000 else None
            if max(ws) > 3000:
                return None
            return dict(op="set", i=i + 1, w=[[rng.randint(-2, 2) for _ in range(n)] for _ in c["W0"][i]],
                        b=[rng.randint(-1, 1) for _ in c["W0"][i]])

        def batch():
            k = rng.randint(1, 3)
            return ([[rng.randint(-2, 2) for _ in range(n_in)] for _ in range(k)],
                    [[rng.randint(-1, 1) for _ in range(n_out)] for _ in range(k)])

        op = rng.choice(["fb"] * 6 + ["fbfb", "fwd", "cstep", "zero", "lr", "lrall", "mode", "freeze",
                                      "regroup", "reload", "set"] + ["step"] * 5)
        frozen = [not next(l.parameters()).requires_grad for l in self.layers]
        if op in ("fb", "fbfb", "cstep", "fwd"):
            x, g = batch()
            a = dict(op=op, x=x)
            if op == "fwd":
                return a
            a["g"] = g
            if op != "cstep":
                a["xg"] = rng.random() < .5
            if op == "fbfb":
                a["x2"], a["g2"] = batch()
            return a
        if op == "lr":
            return dict(op=op, i=rng.randint(1, 2), v=rng.choice([0, 1, 1, 2]))
        if op == "lrall":
            return dict(op=op, v=rng.choice([0, 1, 2]))
        if op == "mode":
            return dict(op=op, v=rng.random() < .5)
        if op == "freeze":
            i = rng.randint(1, 2)
            v = not frozen[i - 1]
            if v and frozen[2 - i]:
                return dict(op="step")
            return dict(op=op, i=i, v=v)
        if op == "reload":
            t_pend = any(not hasattr(p, "has_gradient") and p.grad is not None and bool((p.grad != 0).any())
                         for p in self.model.parameters())
            if pend or t_pend:
                return dict(op="step")
            return dict(op=op)
        if op == "set":
            i = rng.randint(0, 1)
            n = len(c["W0"][i][0])
            return dict(op="set", i=i + 1, w=[[rng.randint(-2, 2) for _ in range(n)] for _ in c["W0"][i]],
                        b=[rng.randint(-1, 1) for _ in c["W0"][i]])
        return dict(op=op)
