"""Adapter of spec/MixedPrec.tla: mixed precision compound."""
import torch

from aihwkit.nn import AnalogLinear
from aihwkit.simulator.configs import (
    DigitalRankUpdateRPUConfig, ConstantStepDevice, MixedPrecisionCompound, MappingParameter, PulseType, IOParameters,
    UpdateParameters)

from common import T, qv

U = 64.0


def rpu(c):
    dev = ConstantStepDevice(dw_min=1 / U, dw_min_dtod=0.0, dw_min_std=0.0, up_down=0.0, up_down_dtod=0.0, w_max=c["bnd"] / U,
                             w_min=-c["bnd"] / U, w_max_dtod=0.0, w_min_dtod=0.0, reset_std=0.0, reset_dtod=0.0)
    cmp = MixedPrecisionCompound(
        device=dev, transfer_every=c["te"], n_rows_per_transfer=c["nr"], random_row=c["rnd"],
        granularity=c["g"] / U if c["gs"] else 0.0, transfer_lr=float(c["t"]), n_x_bins=2 * c["hx"], n_d_bins=2 * c["hd"],
        stoc_round_x=c["sx"], stoc_round_d=c["sd"])
    return DigitalRankUpdateRPUConfig(
        device=cmp, forward=IOParameters(is_perfect=True), backward=IOParameters(is_perfect=True),
        update=UpdateParameters(pulse_type=PulseType.DETERMINISTIC_IMPLICIT, desired_bl=1024),
        mapping=MappingParameter(digital_bias=False, weight_scaling_omega=0.0))


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.layer = AnalogLinear(c["X"], c["D"], False, rpu(c))
        self.tile = self.layer.analog_module
        self.tile.set_learning_rate(c["K"] / U)
        self.y = []
        self.layer.set_weights(T(c["W0"], U))

    def step(self, a):
        op = a["op"]
        self.y = []
        if op == "update":
            self.tile.update(T(a["x"]), T(a["d"]))
        elif op == "lr":
            self.tile.set_learning_rate(a["v"] / U)
        elif op == "set":
            self.layer.set_weights(T(a["w"], U))
        elif op == "fwd":
            with torch.no_grad():
                self.y = qv(self.tile.forward(T(a["x"])), U)
        else:
            raise ValueError(op)

    def obs(self):
        c = self.c
        hp = self.tile.get_hidden_parameters()
        w, _ = self.layer.get_weights()
        return dict(W=qv(w, U), chi=qv(hp["hidden_weights_chi"], U * max(c["hx"], 1) * max(c["hd"], 1)), y=self.y)

    @staticmethod
    def random_cfg(rng, tier):
        big = 5 if tier == "thorough" else 4
        x, d = rng.randint(1, big), rng.randint(1, big)
        hx, hd = rng.choice([0, 0, 1, 2, 4]), rng.choice([0, 0, 1, 2, 4])
        gs = rng.random() < .6
        sto = rng.random() < .15
        if sto:
            x, d = min(x, 2), min(d, 2)
        c = dict(name="r", X=x, D=d, bnd=rng.choice([6, 20, 60]), hx=hx, hd=hd, sx=sto and rng.random() < .7,
                 sd=sto and rng.random() < .7, te=rng.choice([0, 1, 1, 1, 2, 3]), nr=rng.choice([-1, -1, 0, 1, 2, 3, 7]),
                 rnd=rng.random() < .15, g=rng.choice([1, 2, 3, 4]) if gs else 1, gs=gs, t=rng.choice([0, 1, 1, 1, 2, 3]),
                 K=rng.choice([1, 2, 4]), W0=[])
        c["W0"] = [[rng.randint(-c["bnd"] - 3, c["bnd"] + 3) for _ in range(x)] for _ in range(d)]
        return c

    def random_act(self, rng):
        c = self.c
        x, d = c["X"], c["D"]
        p = rng.random()
        if p < .08:
            return dict(op="lr", v=rng.choice([0, 1, 2, 4]))
        if p < .14:
            return dict(op="set", w=[[rng.randint(-c["bnd"] - 3, c["bnd"] + 3) for _ in range(x)] for _ in range(d)])
        if p < .22:
            return dict(op="fwd", x=[[rng.randint(-2, 2) for _ in range(x)] for _ in range(rng.randint(1, 2))])
        b = 1 if c["sx"] or c["sd"] else rng.choice([1, 1, 2, 3])
        m = lambda n: [rng.randint(-3, 3) * (rng.random() < .8) for _ in range(n)]
        return dict(op="update", x=[m(x) for _ in range(b)], d=[m(d) for _ in range(b)])

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(6, 30 if tier == "thorough" else 18)
