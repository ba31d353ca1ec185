"""Adapter of spec/HwTrain.tla: weight modifiers, clipping and remapping in hardware-aware training."""
import copy
import io
import pickle

import torch

from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import (
    InferenceRPUConfig, TorchInferenceRPUConfig, IOParameters, MappingParameter, WeightModifierParameter,
    WeightModifierType as M, WeightClipParameter, WeightClipType, WeightRemapParameter, WeightRemapType)
from aihwkit.inference import PCMLikeNoiseModel  # noqa: F401

from common import T, qv, OFF

U = 64.0


def rpu(c):
    P = IOParameters(is_perfect=True)
    cpp = c["tile"] == "cpp"
    kw = dict(forward=P, mapping=MappingParameter(digital_bias=True, weight_scaling_omega=0.0), drift_compensation=None)
    cfg = InferenceRPUConfig(**kw) if cpp else TorchInferenceRPUConfig(**kw)
    m = c["mod"]
    mk = dict(pdrop=0.0)
    if cpp:
        mk.update(copy_last_column=c["cl"], enable_during_test=c["et"])
    else:
        mk.update(per_batch_sample=c["pbs"])
    if m == "none":
        mk["type"] = M.NONE if c["X"] % 2 else M.COPY
    elif m in ("abs", "rel"):
        # (the torch tile counts its steps from minus the maximum to the maximum, rpucuda from zero)
        mk.update(type=M.DISCRETIZE if not cpp or c["D"] % 2 else M.DISCRETIZE_ADD_NORMAL, std_dev=0.0, res=.25 if cpp else .125,
                  rel_to_actual_wmax=m == "rel", assumed_wmax=1.0)
    elif m == "drop":
        mk.update(type=M.COPY if c["D"] % 2 else M.DROP_CONNECT, pdrop=1.0)
    elif m == "zero":
        mk.update(type=[M.ADD_NORMAL, M.MULT_NORMAL][c["X"] % 2], std_dev=0.0, rel_to_actual_wmax=bool(c["D"] % 2))
    elif m == "add":
        mk.update(type=M.ADD_NORMAL, std_dev=.3, rel_to_actual_wmax=False)
    elif m == "mult":
        mk.update(type=M.MULT_NORMAL, std_dev=.3, rel_to_actual_wmax=False)
    cfg.modifier = WeightModifierParameter(**mk)
    if c["clip"] != "none":
        cfg.clip = WeightClipParameter(type=dict(fix=WeightClipType.FIXED_VALUE, avg=WeightClipType.AVERAGE_CHANNEL_MAX)[c["clip"]],
                                       fixed_value=c["cv"] / U if c["cv"] else -1.0)
    if c["remap"] != "none":
        cfg.remap = WeightRemapParameter(
            type=dict(layer=WeightRemapType.LAYERWISE_SYMMETRIC, chan=WeightRemapType.CHANNELWISE_SYMMETRIC)[c["remap"]],
            remapped_wmax=1.0 / c["wm"], max_scale_range=float(c["rng"]), max_scale_ref=c["ref"] / U)
    return cfg


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.layer = AnalogLinear(c["X"], c["D"], False, rpu(c))
        self.layer.set_weights(T(c["W0"], U))
        self.last, self.np, self.st, self.post = None, 0, False, None
        self.out()
        self.mkopt()

    def out(self, y=(), gx=(), same="-"):
        self.y, self.gx, self.same = list(y), list(gx), same

    @property
    def tile(self):
        return self.layer.analog_module

    def mkopt(self):
        self.opt = AnalogSGD(self.layer.parameters(), lr=self.c["lr"] / U)

    def forget(self):
        """Drop the gradients of passes without update."""
        self.opt.zero_grad()
        for p in self.layer.parameters():
            if hasattr(p, "reset"):
                p.reset()

    def noisy(self, mode):
        c = self.c
        if c["mod"] not in ("add", "mult"):
            return False
        return mode == "train" if c["tile"] == "torch" else bool(self.np_all) and (mode == "train" or c["et"])

    np_all = 0  # ends of updates so far

    def passes(self, a, mode):
        self.layer.train(mode == "train")
        x = T(a["x"])
        if mode == "eval":
            with torch.no_grad():
                return self.layer(x), None, None
        x.requires_grad_(True)
        y = self.layer(x)
        return y, x, T(a["d"])

    def step(self, a):
        op, c = a["op"], self.c
        self.out()
        self.st = op == "set" or (self.st and op not in ("post", "train"))
        if op == "fwd":
            y, x, d = self.passes(a, a["mode"])
            gx = torch.autograd.grad(y, x, d)[0] if x is not None else None
            self.forget()
            if not self.noisy(a["mode"]):
                self.out(qv(y.detach(), 4 * U), qv(gx, 4 * U) if gx is not None else ())
        elif op == "train":
            self.forget()
            n = self.noisy("train")
            y, x, d = self.passes(a, "train")
            y.backward(d)
            self.opt.step()
            self.np, self.np_all = self.np + 1, self.np_all + 1
            self.post = self.raw()
            if not n:
                self.out(qv(y.detach(), 4 * U), qv(x.grad, 4 * U))
        elif op == "post":
            self.tile.post_update_step()
            self.np, self.np_all = self.np + 1, self.np_all + 1
            self.post = self.raw()
        elif op == "look":
            self.look()
        elif op == "set":
            self.layer.set_weights(T(a["w"], U))
            self.np = 0
        elif op == "copy":
            if a["how"] == "deepcopy":
                self.layer = copy.deepcopy(self.layer)
            elif a["how"] == "pickle":
                self.layer = pickle.loads(pickle.dumps(self.layer))
            else:
                buf = io.BytesIO()
                torch.save(self.layer.state_dict(), buf)
                buf.seek(0)
                if a["how"] == "sd":
                    self.layer = AnalogLinear(c["X"], c["D"], False, rpu(c))
                self.layer.load_state_dict(torch.load(buf, weights_only=False))
            self.mkopt()
        else:
            raise ValueError(op)

    def look(self):
        c = self.c
        if not self.noisy("train"):
            return
        eye = torch.eye(c["X"])
        self.layer.train()
        x = eye.clone().requires_grad_(True)
        y = self.layer(x)
        Wm = y.detach().T
        d = T([[(i * 2 + j) % 5 - 2 for j in range(c["D"])] for i in range(c["X"])])
        gx = torch.autograd.grad(y, x, d)[0]
        self.forget()
        raw = self.post if c["tile"] == "cpp" else self.raw()  # the weights which were modified
        now = self.in_raw(Wm)
        n = c["X"] - 1 if c["cl"] else c["X"]
        ok = torch.allclose(gx, d @ Wm, atol=1e-4) or (c["pbs"] and c["tile"] == "torch")
        ok &= torch.allclose(now[:, n:], raw[:, n:], atol=1e-5) and bool((now[:, :n] - raw[:, :n]).abs().max() > 1e-5)
        if c["et"]:
            self.layer.eval()
            with torch.no_grad():
                ok &= torch.allclose(self.layer(eye).T, Wm, atol=1e-6)
        same = "first" if self.last is None else "yes" if torch.allclose(self.last, now, atol=1e-5) else "no"
        self.last = now
        self.out((), (), same if ok else "bad")

    def in_raw(self, w):
        """Logical weights on the scale of the tile."""
        sc = self.tile.get_scales()
        return w if sc is None else w / sc.detach().view(-1, 1)

    def raw(self):
        return self.in_raw(self.layer.get_weights()[0])

    def obs(self):
        c = self.c
        w = qv(self.layer.get_weights()[0], U, 5e-3)
        sc = self.tile.get_scales()
        lam = [64] * c["D"] if sc is None else qv(sc.detach().expand(c["D"]), U, 5e-3)
        return dict(y=self.y, gx=self.gx, W=w, lam=lam, same=self.same)

    @staticmethod
    def rand_w(c, rng):
        r = lambda: rng.choice([-1, 1]) * rng.randrange(1, 90, 2)
        if c["clip"] == "avg":
            r = lambda: 32 * rng.randint(-5, 5)
        W = [[r() for _ in range(c["X"])] for _ in range(c["D"])]
        if (c["remap"] != "none" or c["mod"] in ("none", "zero", "drop")) and c["mod"] not in ("add", "mult") and rng.random() < .25:
            W[rng.randrange(c["D"])] = [0] * c["X"]
        return W

    @staticmethod
    def random_cfg(rng, tier):
        tile = rng.choice(["cpp", "cpp", "torch"])
        cpp = tile == "cpp"
        remap = rng.choice(["none", "none", "layer", "chan"])
        c = dict(name="r", tile=tile, X=rng.randint(1, 4), D=rng.randint(1, 4),
                 mod=rng.choice(["none", "abs", "abs", "rel", "zero", "add", "mult"] + (["drop"] if cpp else [])), cl=False, et=False,
                 clip=rng.choice(["none", "fix"]), cv=0, remap=remap, wm=1, rng=0, ref=0, lr=2, pbs=not cpp and rng.random() < .3)
        if cpp and c["mod"] != "none":
            c["cl"], c["et"] = rng.random() < .3, rng.random() < .3
        if c["mod"] == "rel" and remap != "none":
            c["mod"] = "abs"
        if cpp and remap == "none" and rng.random() < .15:
            c.update(clip="avg", D=rng.randint(1, 2), mod="none", lr=32, cl=False, et=False)
        c["cv"] = 64 if remap != "none" and c["clip"] == "fix" else rng.randrange(5, 80, 2) if c["clip"] == "fix" else \
            rng.choice([0, 96]) if c["clip"] == "avg" else 0
        if cpp and remap == "chan" and c["clip"] == "none" and rng.random() < .5:
            c.update(rng=rng.choice([2, 4]), ref=rng.choice([0, 0, 15, 33]))
        elif cpp and remap != "none" and c["clip"] == "none" and rng.random() < .3:
            c.update(wm=2, mod="none", cl=False, et=False)
        if c["pbs"] and c["mod"] in ("none", "zero"):
            c["pbs"] = False
        c["W0"] = Adapter.rand_w(c, rng)
        return c

    def random_act(self, rng):
        c = self.c
        for _ in range(30):
            op = rng.choice(["fwd", "fwd", "fwd", "train", "train", "train", "post", "set", "copy", "look", "look"])
            a = dict(op=op)
            if op == "train" and (c["remap"] != "none" or c["clip"] == "avg" and self.np >= 4):
                continue
            if op == "post" and c["clip"] == "avg" and self.np >= 4:
                continue
            if op == "look" and (c["mod"] not in ("add", "mult") or c["cl"] and c["X"] == 1):
                continue
            if op == "fwd":
                a["mode"] = rng.choice(["train", "train", "eval"])
                if c["remap"] != "none" and self.st and self.np_all and (a["mode"] == "train" or c["et"]) and not (
                        c["mod"] in ("abs", "drop") and not c["cl"]):
                    continue
            if op in ("fwd", "train"):
                B = rng.randint(1, 3)
                a["x"] = [[rng.randint(-3, 3) for _ in range(c["X"])] for _ in range(B)]
                a["d"] = [[rng.randint(-3, 3) for _ in range(c["D"])] for _ in range(B)]
            elif op == "set":
                a["w"] = self.rand_w(c, rng)
            elif op == "copy":
                a["how"] = rng.choice(["deepcopy", "pickle", "sd", "same"])
            return a
        return None

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(5, 30 if tier == "thorough" else 16)
