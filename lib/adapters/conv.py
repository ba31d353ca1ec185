"""Adapter of spec/Conv.tla: analog convolutions over histories of image shapes."""
import copy
import io
import pickle

import torch

from aihwkit.nn import (AnalogConv1d, AnalogConv2d, AnalogConv3d, AnalogConv1dMapped, AnalogConv2dMapped, AnalogConv3dMapped)
from aihwkit.nn.conversion import convert_to_analog, convert_to_digital
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import (
    FloatingPointRPUConfig, SingleRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig, IdealDevice,
    MappingParameter, PulseType, IOParameters, UpdateParameters)

from common import T, qv

CLS = {("conv1d", False): AnalogConv1d, ("conv2d", False): AnalogConv2d, ("conv3d", False): AnalogConv3d,
       ("conv1d", True): AnalogConv1dMapped, ("conv2d", True): AnalogConv2dMapped, ("conv3d", True): AnalogConv3dMapped}


def rpu(c):
    mp = MappingParameter(digital_bias=c["bias"] == 2, weight_scaling_omega=0.0, learn_out_scaling=False,
                          max_input_size=c["maxin"] if c["array"] else 0, max_output_size=c["maxout"] if c["array"] else 0)
    perfect = IOParameters(is_perfect=True)
    if c["kind"] == "fp":
        return FloatingPointRPUConfig(mapping=mp)
    if c["kind"] == "ideal":
        return SingleRPUConfig(device=IdealDevice(), mapping=mp, forward=perfect, backward=perfect,
                               update=UpdateParameters(pulse_type=PulseType.NONE))
    return (InferenceRPUConfig if c["kind"] == "inf" else TorchInferenceRPUConfig)(forward=perfect, mapping=mp)


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.nd = int(c["cls"][4])
        self.layer = self.make()
        self.layer.set_weights(T(c["W0"]), T(c["B0"]) if c["bias"] else None)
        self.mkopt()
        self.y, self.gx = [], []

    def make(self):
        c = self.c
        n = self.nd
        kw = {} if c["cls"] != "conv2d" else dict(use_indexed=c["idx"])
        return CLS[(c["cls"], c["mapped"])](
            c["C"], c["O"], tuple(c["k"][-n:]), stride=tuple(c["s"][-n:]), padding=tuple(c["p"][-n:]),
            dilation=tuple(c["dil"][-n:]), bias=bool(c["bias"]), rpu_config=rpu(c), **kw)

    def roundtrip(self, layer):
        """To digital, and to analog again."""
        n, c = self.nd, self.c
        cls = [torch.nn.Conv1d, torch.nn.Conv2d, torch.nn.Conv3d][n - 1]
        dig = convert_to_digital(layer)
        if type(dig) is not cls:
            raise AssertionError("not converted")
        # (image just large enough for some outputs)
        x = torch.arange(1.0, 1 + c["C"] * 8 ** n).reshape(1, c["C"], *[8] * n) % 5 - 2.0
        with torch.no_grad():
            if qv(dig(x)) != qv(layer(x)):
                raise AssertionError("digital layer computes something else")
        return convert_to_analog(dig, rpu(c), conversion_map={cls: CLS[(c["cls"], c["mapped"])]})

    def mkopt(self):
        self.opt = AnalogSGD(self.layer.parameters(), lr=1.0)

    def img(self, x, sh, grad=False):
        t = T(x).reshape(len(x), self.c["C"], *sh[-self.nd:]).contiguous()
        return t.requires_grad_(grad)

    @staticmethod
    def gout(y, g):
        return T(g).reshape(y.shape)

    @staticmethod
    def flat(y):
        return qv(y.reshape(y.size(0), -1))

    def step(self, a):
        op, L, c = a["op"], self.layer, self.c
        self.y, self.gx = [], []
        if op == "fb":
            L.train()
            x = self.img(a["x"], a["sh"], a["xg"])
            y = L(x[0]).unsqueeze(0) if a.get("ub") else L(x)
            self.y = self.flat(y.detach())
            y.backward(self.gout(y, a["g"]))
            if a["xg"]:
                self.gx = self.flat(x.grad)
        elif op == "fbfb":
            L.train()
            x1, x2 = self.img(a["x"], a["sh"], True), self.img(a["x2"], a["sh2"], True)
            y1, y2 = L(x1), L(x2)
            y1.backward(self.gout(y1, a["g"]))
            y2.backward(self.gout(y2, a["g2"]))
            self.y = self.flat(y1.detach()) + self.flat(y2.detach())
            self.gx = self.flat(x1.grad) + self.flat(x2.grad)
        elif op == "fwd":
            L.train(a["mode"] == "train")
            with torch.no_grad():
                self.y = self.flat(L(self.img(a["x"], a["sh"])))
        elif op == "step":
            self.opt.step()
        elif op == "zero":
            self.opt.zero_grad()
        elif op == "set":
            L.set_weights(T(a["w"]), T(a["b"]) if c["bias"] else None)
        elif op == "read":
            L.get_weights(realistic=True)
        elif op == "copy":
            if a["how"] == "deepcopy":
                self.layer = copy.deepcopy(L)
            elif a["how"] == "pickle":
                self.layer = pickle.loads(pickle.dumps(L))
            elif a["how"] == "dig":
                self.layer = self.roundtrip(L)
            else:
                buf = io.BytesIO()
                torch.save(L.state_dict(), buf)
                buf.seek(0)
                if a["how"] == "sd":
                    self.layer = self.make()
                self.layer.load_state_dict(torch.load(buf, weights_only=False))
            self.mkopt()
        else:
            raise ValueError(op)

    def obs(self):
        W, b = self.layer.get_weights()
        W = W.reshape(self.c["O"], -1)
        tiles = [[t.in_size, t.out_size] for t in self.layer.analog_tiles()]
        return dict(W=qv(W), b=qv(b) if b is not None else [], y=self.y, gx=self.gx, tiles=tiles)

    # ------------------------------------------------------------- random
    @staticmethod
    def random_cfg(rng, tier):
        cls = rng.choice(["conv1d", "conv2d", "conv2d", "conv3d"])
        n = int(cls[4])

        def dims(f, d):
            return [d] * (3 - n) + [f() for _ in range(n)]
        c = dict(name="r", cls=cls, C=rng.randint(1, 3), O=rng.randint(1, 3), maxin=0, maxout=0,
                 k=dims(lambda: rng.randint(1, 3 if n < 3 else 2), 1), s=dims(lambda: rng.choice([1, 1, 1, 2, 3]), 1),
                 p=dims(lambda: rng.choice([0, 0, 1, 2]), 0), dil=[1, 1, 1], mapped=False, array=False, idx=True)
        if cls == "conv2d":
            c["dil"] = dims(lambda: rng.choice([1, 1, 2]), 1)
            c["idx"] = rng.random() < .4
            c["kind"] = rng.choice(["fp", "ideal", "inf", "tinf"])
            if c["kind"] == "tinf":
                c["idx"] = False
        else:
            c["kind"] = rng.choice(["fp", "ideal", "inf"])
        K = c["k"][0] * c["k"][1] * c["k"][2]
        r = rng.random()
        if r < .35:
            c.update(mapped=True, array=True, maxin=rng.choice([K, K + 1, 2 * K, 0]), maxout=rng.choice([0, 1, 2]))
        elif r < .5 and cls == "conv2d":
            c.update(array=True, maxin=rng.choice([1, 2, 3, 5, 8]), maxout=rng.choice([1, 2, 0]))
            if not (c["maxin"] < c["C"] * K or c["maxout"] < c["O"]):
                c.update(array=False)
        c["bias"] = rng.choice([0, 2]) if c["array"] or c["kind"] == "tinf" else rng.choice([0, 1, 2])
        if c["kind"] == "inf" and c["bias"] == 1:
            c["bias"] = 2
        if c["array"] and not c["mapped"]:
            c["idx"] = False
        c["W0"] = [[rng.randint(-3, 3) for _ in range(c["C"] * K)] for _ in range(c["O"])]
        c["B0"] = [rng.randint(-3, 3) for _ in range(c["O"])]
        return c

    def shape(self, rng):
        c = self.c
        last = getattr(self, "lastsh", None)
        for _ in range(50):
            sh = [1] * (3 - self.nd) + [rng.randint(1, {1: 9, 2: 6, 3: 4}[self.nd]) for _ in range(self.nd)]
            if last and rng.random() < .5:  # same number of pixels as before, or the same shape
                sh = rng.choice([list(last), [1] * (3 - self.nd) + rng.sample(last[-self.nd:], self.nd)])
            out = [(sh[i] + 2 * c["p"][i] - c["dil"][i] * (c["k"][i] - 1) - 1) // c["s"][i] + 1 for i in range(3)]
            if all(sh[i] + 2 * c["p"][i] >= c["dil"][i] * (c["k"][i] - 1) + 1 for i in range(3)) and out[0] * out[1] * out[2] <= 30:
                self.lastsh = sh
                return sh, out[0] * out[1] * out[2]
        return None, 0

    def random_act(self, rng):
        c = self.c
        op = rng.choice(["fb", "fb", "fb", "fbfb", "fwd", "fwd", "step", "step", "zero", "set", "copy", "read"])
        a = dict(op=op)

        def pair(B):
            sh, n = self.shape(rng)
            if sh is None:
                return None
            x = [[rng.randint(-2, 2) for _ in range(c["C"] * sh[0] * sh[1] * sh[2])] for _ in range(B)]
            g = [[rng.choice([-1, 0, 0, 1]) for _ in range(c["O"] * n)] for _ in range(B)]
            return sh, x, g
        if op in ("fb", "fwd"):
            B = rng.choice([1, 1, 2, 3])
            p = pair(B)
            if p is None:
                return dict(op="step")
            a.update(sh=p[0], x=p[1])
            if op == "fb":
                a.update(g=p[2], xg=rng.random() < .7)
                if B == 1 and c["cls"] == "conv2d" and not c["idx"] and not c["mapped"]:
                    a["ub"] = rng.random() < .3
            else:
                a["mode"] = rng.choice(["train", "eval"])
        elif op == "fbfb":
            p1, p2 = pair(rng.choice([1, 2])), pair(rng.choice([1, 2]))
            if p1 is None or p2 is None:
                return dict(op="step")
            a.update(sh=p1[0], x=p1[1], g=p1[2], sh2=p2[0], x2=p2[1], g2=p2[2])
        elif op == "set":
            a.update(w=[[rng.randint(-3, 3) for _ in r] for r in c["W0"]], b=[rng.randint(-3, 3) for _ in c["B0"]])
        elif op == "copy":
            if getattr(self, "pend", False):
                a = dict(op="step")
            else:
                a["how"] = rng.choice(["sd", "sd", "deepcopy", "pickle", "same", "dig", "dig"])
        # (copies only without pending gradients)
        dig = c["kind"] in ("inf", "tinf") or c["bias"] == 2
        if a["op"] in ("fb", "fbfb"):
            self.pend_a, self.pend_t = c["kind"] in ("fp", "ideal"), dig
        elif a["op"] == "step":
            self.pend_a = False
        elif a["op"] == "zero":
            self.pend_t = False
        self.pend = getattr(self, "pend_a", False) or getattr(self, "pend_t", False)
        return a
