"""Adapter of spec/UnitCell.tla: vector, reference and one-sided unit cells."""
import torch

from aihwkit.nn import AnalogLinear
from aihwkit.simulator.configs import (
    UnitCellRPUConfig, ConstantStepDevice, VectorUnitCell, ReferenceUnitCell, OneSidedUnitCell, MappingParameter, PulseType,
    IOParameters, UpdateParameters, VectorUnitCellUpdatePolicy as P)

from common import T, qv

U = 64.0
POL = dict(all=P.ALL, fixed=P.SINGLE_FIXED, seq=P.SINGLE_SEQUENTIAL, rand=P.SINGLE_RANDOM)


def upd():
    return UpdateParameters(pulse_type=PulseType.DETERMINISTIC_IMPLICIT, desired_bl=64, update_bl_management=False,
                            update_management=False)


def rpu(c):
    devs = [ConstantStepDevice(dw_min=u / U, dw_min_dtod=0.0, dw_min_std=0.0, up_down=0.0, up_down_dtod=0.0, w_max=h / U,
                               w_min=lo / U, w_max_dtod=0.0, w_min_dtod=0.0, reset_std=0.0, reset_dtod=0.0)
            for u, lo, h in zip(c["u"], c["lo"], c["hi"])]
    k = c["kind"]
    if k == "one":
        dev = OneSidedUnitCell(unit_cell_devices=devs, refresh_every=c["re"], units_in_mbatch=c["mb"],
                               refresh_upper_thres=c["up4"] / 4.0, refresh_lower_thres=c["lo4"] / 4.0,
                               refresh_forward=IOParameters(is_perfect=True), refresh_update=upd(), copy_inverted=c["inv"])
    elif k == "ref":
        dev = ReferenceUnitCell(unit_cell_devices=devs)
    else:
        kw = {} if c["gd"] > 1 else dict(gamma_vec=[float(g) for g in c["gam"]])
        dev = VectorUnitCell(unit_cell_devices=devs, update_policy=POL[c["pol"]], first_update_idx=c["first"], **kw)
    return UnitCellRPUConfig(device=dev, forward=IOParameters(is_perfect=True), backward=IOParameters(is_perfect=True),
                             update=upd(), mapping=MappingParameter(digital_bias=False, weight_scaling_omega=0.0))


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.g = sum(c["u"]) / len(c["u"])
        self.layer = AnalogLinear(c["X"], c["D"], False, rpu(c))
        self.tile = self.layer.analog_module
        self.tile.set_learning_rate(c["K"] * self.g / U)
        self.y = []
        self.layer.set_weights(T(c["W0"], U))

    def step(self, a):
        op = a["op"]
        self.y = []
        if op == "update":
            self.tile.update(T(a["x"]), T(a["d"]))
        elif op == "lr":
            self.tile.set_learning_rate(a["v"] * self.g / U)
        elif op == "set":
            self.layer.set_weights(T(a["w"], U))
        elif op == "idx":
            self.tile.set_hidden_update_index(a["v"])
        elif op == "reset":
            self.tile.reset_columns(a["from"], a["n"])
        elif op in ("fwd", "bwd"):
            with torch.no_grad():
                self.y = qv(self.tile.forward(T(a["x"])) if op == "fwd" else self.tile.backward(T(a["d"])), U * self.c["gd"])
        else:
            raise ValueError(op)

    def obs(self):
        hp = self.tile.get_hidden_parameters()
        w, _ = self.layer.get_weights()
        return dict(W=qv(w, U * self.c["gd"]), A=[qv(hp[f"hidden_weights_{k}"], U) for k in range(len(self.c["gam"]))],
                    idx=self.tile.get_hidden_update_index(), y=self.y)

    @staticmethod
    def random_cfg(rng, tier):
        k = rng.choice(["vec", "vec", "vec", "ref", "one", "one"])
        big = 4 if tier == "thorough" else 3
        x, d = rng.randint(1, big), rng.randint(1, big)
        n = rng.choice([1, 2, 2, 3, 4]) if k == "vec" else 2
        pol = rng.choice(["all", "fixed", "seq", "rand"]) if k == "vec" else "fixed" if k == "ref" else "all"
        gd = rng.choice([1, n]) if k == "vec" and n in (1, 2, 4) else 1
        gam = [1] * n if gd > 1 else [rng.randint(-2, 3) for _ in range(n)] if k == "vec" else [1, -1] if k == "ref" else [-1, 1]
        lo, hi = [-rng.randint(5, 30) for _ in range(n)], [rng.randint(5, 30) for _ in range(n)]
        u = [rng.choice([1, 1, 2, 3]) for _ in range(n)]
        inv = k == "one" and rng.random() < .4
        if k == "one":
            # both devices are made from the first one; the refresh writes multiples of the step
            u, b = [u[0]] * 2, u[0]
            hi = [hi[0] - hi[0] % b] * 2
            lo = [-hi[0]] * 2 if inv else [lo[0]] * 2
        c = dict(name="r", kind=k, X=x, D=d, gam=gam, gd=gd, u=u, lo=lo, hi=hi, pol=pol,
                 first=rng.randrange(n) if k == "vec" else 0,
                 re=rng.choice([0, 1, 2, 3, 5]) if k == "one" else 0, up4=rng.randint(1, 3), lo4=rng.randint(0, 1),
                 mb=k == "one" and rng.random() < .5, inv=inv, K=rng.choice([1, 2, 4]),
                 W0=[])
        c["W0"] = Adapter.rand_w(c, rng)
        return c

    @staticmethod
    def rand_w(c, rng):
        m = c["u"][0] if c["kind"] == "one" else 1
        return [[m * rng.randint(-40 // m, 40 // m) if rng.random() < .3 else m * rng.randint(-6 // m, 6 // m)
                 for _ in range(c["X"])] for _ in range(c["D"])]

    def random_act(self, rng):
        c = self.c
        x, d = c["X"], c["D"]
        p = rng.random()
        if p < .08:
            return dict(op="lr", v=rng.choice([0, 1, 2, 4]))
        if p < .14:
            return dict(op="set", w=self.rand_w(c, rng))
        if p < .2:
            return dict(op="reset", n=rng.randint(1, x), **{"from": rng.randrange(x)})
        if p < .26:
            return dict(op="idx", v=rng.randrange(len(c["gam"])))
        if p < .32:
            return dict(op="fwd", x=[[rng.randint(-2, 2) for _ in range(x)] for _ in range(rng.randint(1, 2))])
        if p < .38:
            return dict(op="bwd", d=[[rng.randint(-2, 2) for _ in range(d)] for _ in range(rng.randint(1, 2))])
        b = rng.choice([1, 1, 2, 3]) if c["pol"] != "rand" else rng.choice([1, 1, 2])
        m = lambda n: [rng.choice([0, 1, -1, 2, -2]) for _ in range(n)]
        return dict(op="update", x=[m(x) for _ in range(b)], d=[m(d) for _ in range(b)])

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(6, 30 if tier == "thorough" else 18)
