"""Adapter of spec/Mapping.tla: weight mapping of one analog layer."""
import copy
import io
import pickle

import torch

from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import (
    FloatingPointRPUConfig, SingleRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig, IdealDevice,
    FloatingPointDevice, MappingParameter, PulseType, IOParameters, UpdateParameters)

from common import T, qv


def rpu(c):
    m = MappingParameter(digital_bias=c["bias"] == 2, weight_scaling_omega=1.0 / c["om"] if c["om"] else 0.0,
                         weight_scaling_columnwise=c["cw"], learn_out_scaling=c["learn"] > 0,
                         out_scaling_columnwise=c["learn"] == 2, weight_scaling_lr_compensation=c["comp"])
    p = IOParameters(is_perfect=True)
    k = c["kind"]
    if k == "fp":
        return FloatingPointRPUConfig(device=FloatingPointDevice(), mapping=m)
    if k == "ideal":
        return SingleRPUConfig(device=IdealDevice(), mapping=m, forward=p, backward=p,
                               update=UpdateParameters(pulse_type=PulseType.NONE))
    if k == "inf":
        return InferenceRPUConfig(mapping=m, forward=p)
    if k == "tinf":
        return TorchInferenceRPUConfig(mapping=m, forward=p)
    raise ValueError(k)


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.m, self.n = len(c["W0"]), len(c["W0"][0])
        self.layer = self.make()
        self.clear()
        self.fz = False
        self.layer.set_weights(self.U(c["W0"]), self.bias(c["B0"]))

    def make(self):
        return AnalogLinear(self.n, self.m, self.c["bias"] > 0, rpu(self.c))

    def U(self, w):
        """Weights are multiples of 1/K."""
        return T(w, self.c.get("K", 1))

    def bias(self, b):
        return self.U(b) if self.c["bias"] else None

    def clear(self):
        self.y, self.gx, self.rd = [], [], []

    @property
    def tile(self):
        return self.layer.analog_module

    def weight_params(self):
        return [p for n, p in self.layer.named_parameters() if n.split(".")[-1] not in ("out_scaling_alpha", "bias")]

    def step(self, a):
        op = a["op"]
        self.clear()
        t, K = self.tile, self.c.get("K", 1)
        self.fz = op in ("train", "program") or self.fz and op not in ("set", "setom", "setraw")
        if op == "set":
            self.layer.set_weights(self.U(a["w"]), self.bias(a["b"]))
        elif op == "setom":
            self.layer.set_weights(self.U(a["w"]), self.bias(a["b"]),
                                   weight_scaling_omega=1.0 / a["om"] if a["om"] else 0.0)
        elif op == "setraw":
            t.set_weights(T(a["w"]), (self.bias(a["b"]) if self.c["bias"] == 2 else T(a["b"])) if self.c["bias"] else None,
                          apply_weight_scaling=False)
        elif op == "remap":
            t.remap_weights(None if a["om"] < 0 else 1.0 / a["om"] if a["om"] else 0.0)
        elif op == "learn":
            al = t.get_learned_out_scales()
            r = T(a["r"]) if self.c["learn"] == 2 else T(a["r"])[:1]
            t.set_learned_out_scales(al.detach().view(-1) * r)
        elif op == "scale":
            sc = t.get_scales()
            new = (torch.ones(1) if sc is None else sc.detach().clone()) * a["k"]
            if a["f"]:
                t.set_scales(float(new[0]))
            else:
                t.set_scales(new)
        elif op == "train":
            self.layer.train()
            opt = AnalogSGD(self.weight_params(), lr=float(a["lr"]))
            opt.zero_grad()
            x = T(a["x"]).requires_grad_(True)
            y = self.layer(x)
            (y * self.U(a["g"])).sum().backward()
            opt.step()
            opt.zero_grad()
            self.y, self.gx = qv(y, K), qv(x.grad, K * K)
        elif op == "fwd":
            with torch.no_grad():
                self.y = qv(self.layer(T(a["x"])), K)
        elif op == "read":
            kw = {}
            if a["x"]:
                kw["x_values"] = torch.cat([torch.eye(self.n), torch.ones(1, self.n), torch.eye(self.n) * 2], 0)
            w, b = t.read_weights(apply_weight_scaling=a["sc"], **kw)
            if not a["sc"]:
                sc = self.scales()
                w = w * sc.view(-1, 1)
                b = b * sc if self.c["bias"] == 1 else b
            self.rd = qv(w, K, tol=2e-2) + ([qv(b, K, tol=2e-2)] if self.c["bias"] else [])
        elif op == "program":
            kw = {}
            n = self.n + (1 if self.c["bias"] == 1 else 0)
            if a["x"]:
                kw["x_values"] = 1.0 * torch.eye(n).flip(0)
            t.program_weights(from_reference=a["fromref"], learning_rate=0.5, tolerance=None, max_iter=60, **kw)
        elif op == "dtype":
            self.layer.to(torch.float32)
        elif op == "copy":
            self.layer = copy.deepcopy(self.layer)
        elif op == "pickle":
            self.layer = pickle.loads(pickle.dumps(self.layer))
        elif op == "reload":
            buf = io.BytesIO()
            torch.save(self.layer.state_dict(), buf)
            buf.seek(0)
            self.layer = self.make()
            self.layer.load_state_dict(torch.load(buf, weights_only=False))
        elif op == "replace":
            t.to(rpu(self.c))
        else:
            raise ValueError(op)

    def scales(self):
        sc = self.tile.get_scales()
        return torch.ones(self.m) * (1.0 if sc is None else sc.detach().cpu())

    def obs(self):
        t = self.tile
        w, b = self.layer.get_weights()
        raw, _ = t.get_weights(apply_weight_scaling=False)
        mu, sc = t.get_mapping_scales(), self.scales()
        mu = torch.ones(self.m) * (1.0 if mu is None else mu)
        K = self.c.get("K", 1)
        return dict(L=qv(w, K), b=qv(b, K) if b is not None else [], mu=qv(mu, K), sc=qv(sc, K),
                    w=qv(raw * sc.view(-1, 1), K), y=self.y, gx=self.gx, rd=self.rd)

    @staticmethod
    def random_cfg(rng, tier):
        k = rng.choice(["fp", "ideal", "inf", "tinf"])
        b = rng.choice([0, 2] if k == "tinf" else [0, 1, 2])
        m, n = rng.randint(1, 4), rng.randint(1, 4)
        cw = rng.random() < .5
        return dict(kind=k, bias=b, om=rng.choice([0, 1, 1, 2, 4]), cw=cw, learn=rng.choice([0, 1, 2]),
                    comp=rng.random() < .3, K=rng.choice([1, 1, 1, 1024]), **Adapter.rw(rng, m, n))

    @staticmethod
    def rw(rng, m, n, names=("W0", "B0")):
        v = [-4, -2, -1, 0, 0, 1, 2, 4]
        return {names[0]: [[rng.choice(v) for _ in range(n)] for _ in range(m)],
                names[1]: [rng.choice(v) for _ in range(m)]}

    def random_act(self, rng):
        c, m, n = self.c, self.m, self.n
        o = self.obs()
        big = max(abs(v) for r in o["L"] for v in r) > 300 or max(o["sc"]) > 64 * c.get("K", 1) or max(map(abs, o["b"] or [0])) > 300
        w = self.rw(rng, m, n, ("w", "b"))
        if big:
            return dict(op="set", **w)
        ops = ["set", "setom", "setraw", "remap", "remap", "scale", "train", "train", "train", "fwd", "read", "read", "dtype",
               "copy", "reload", "pickle", "replace"]
        if c["learn"]:
            ops += ["learn"] * 3
        if c["kind"] in ("fp", "ideal"):
            ops += ["program"] * 3
        zero = [not any(r) and not (c["bias"] == 1 and b) for r, b in zip(o["L"], o["b"] or [0] * m)]
        if self.fz and (any(zero) if c["cw"] else all(zero)):
            ops = [x for x in ops if x != "remap"]
        op = rng.choice(ops)
        a = dict(op=op)
        if op in ("set", "setom", "setraw"):
            a.update(w)
            if op == "setom":
                a["om"] = rng.choice([0, 1, 2])
        elif op == "remap":
            a["om"] = rng.choice([-1, 0, 1, 1, 2])
        elif op == "learn":
            r = [rng.choice([1, 2]) for _ in range(m)]
            a["r"] = r if c["learn"] == 2 else [r[0]] * m
        elif op == "scale":
            a["k"] = rng.choice([1, 2])
            a["f"] = rng.random() < .5 and len(set(o["sc"])) == 1
        elif op in ("train", "fwd"):
            k = rng.randint(1, 3)
            a["x"] = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(k)]
            if op == "train":
                a["g"] = [[rng.randint(-1, 1) for _ in range(m)] for _ in range(k)]
                a["lr"] = rng.choice([0, 1, 1])
        elif op == "read":
            a["x"], a["sc"] = rng.random() < .5, rng.random() < .5
        elif op == "program":
            a["fromref"], a["x"] = rng.random() < .6, rng.random() < .4
        return a
