"""Adapter of spec/Transfer.tla: transfer compounds (Tiki-Taka)."""
import torch

from aihwkit.nn import AnalogLinear
from aihwkit.simulator.configs import (
    UnitCellRPUConfig, ConstantStepDevice, TransferCompound, BufferedTransferCompound, ChoppedTransferCompound,
    DynamicTransferCompound, MappingParameter, PulseType, IOParameters, UpdateParameters)

from common import T, qv

U = 64.0


def upd(bl=64):
    return UpdateParameters(pulse_type=PulseType.DETERMINISTIC_IMPLICIT, desired_bl=bl, update_bl_management=False,
                            update_management=False)


def dev(c):
    return ConstantStepDevice(dw_min=1 / U, dw_min_dtod=0.0, dw_min_std=0.0, up_down=0.0, up_down_dtod=0.0, w_max=c["bnd"] / U,
                              w_min=-c["bnd"] / U, w_max_dtod=0.0, w_min_dtod=0.0, reset_std=0.0, reset_dtod=0.0)


def rpu(c):
    hidden = all(g == 0 for g in c["gam"][:-1]) and c["gam"][-1] == 1
    k = c["kind"]
    # transfer_lr is scaled with the learning rate K / 64 (and divided by it again when corrected)
    lr = float(c["L"] * (64 if c["scaleL"] and not c["corr"] else 1))
    flr = float(c["F"]) if c["scaleF"] else c["F"] / U
    te = c["te2"] / 2.0
    kw = dict(unit_cell_devices=[dev(c) for _ in range(c["n"])], transfer_every=-te if c["aev"] else te,
              transfer_every_vec=[v / 2.0 for v in c["ev2"]], no_self_transfer=c["noself"], units_in_mbatch=c["mb"],
              n_reads_per_transfer=c["nr"], transfer_columns=c["cols"], transfer_lr=lr, scale_transfer_lr=c["scaleL"],
              fast_lr=flr, scale_fast_lr=c["scaleF"], transfer_forward=IOParameters(is_perfect=True), transfer_update=upd(256 if k == "plain" else 64))
    if hidden:
        kw["gamma"] = 0.0
    else:
        kw["gamma_vec"] = [float(g) for g in c["gam"]]
    if k in ("plain", "buffered"):
        kw.update(with_reset_prob=1.0 if c["reset"] else 0.0, random_selection=c["rsel"])
    if k != "plain":
        kw.update(step=float(c["st"]), momentum=c["mom2"] / 2.0, forget_buffer=c["forget"])
    if k == "plain":
        cmp = TransferCompound(**kw)
    elif k == "buffered":
        cmp = BufferedTransferCompound(thres_scale=float(c["G"]), **kw)
    else:
        kw.update(in_chop_prob={0: 0.0, 1: 1.0, 2: 1.0 / c["ns"], 3: 0.5}[c["pin"]], in_chop_random=c["pin"] in (1, 3),
                  correct_gradient_magnitudes=c["corr"], auto_scale=c["ascale"])
        in_size = c["X"] if c["cols"] else c["D"]
        if c["auto"]:
            kw.update(auto_granularity=c["G"] * in_size * te, buffer_granularity=1.0)
        else:
            kw.update(buffer_granularity=float(c["G"]))
        if k == "chopped":
            cmp = ChoppedTransferCompound(no_buffer=c["nobuf"], out_chop_prob={0: 0.0, 1: 1.0, 2: .5}[c["pout"]],
                                          auto_momentum=0.0, **kw)
        else:
            cmp = DynamicTransferCompound(experimental_correct_accumulation=c["cacc"], buffer_cap=c["cap"] / 64.0,
                                          tail_weightening=c["ns"] / float(c["sm"]), **kw)
    return UnitCellRPUConfig(device=cmp, forward=IOParameters(is_perfect=True), backward=IOParameters(is_perfect=True),
                             update=upd(), mapping=MappingParameter(digital_bias=False, weight_scaling_omega=0.0))


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.layer = AnalogLinear(c["X"], c["D"], False, rpu(c))
        self.tile = self.layer.analog_module
        self.tile.set_learning_rate(c["K"] / U)
        self.lr = c["K"]
        self.count = 0
        self.y = []
        self.layer.set_weights(T(c["W0"], U))

    def step(self, a):
        op = a["op"]
        self.y = []
        if op == "update":
            self.tile.update(T(a["x"]), T(a["d"]))
            self.count += len(a["x"])
        elif op == "lr":
            self.tile.set_learning_rate(a["v"] / U)
            self.lr = a["v"]
        elif op == "set":
            self.layer.set_weights(T(a["w"], U))
        elif op == "fwd":
            with torch.no_grad():
                self.y = qv(self.tile.forward(T(a["x"])), U)
        else:
            raise ValueError(op)

    def obs(self):
        c = self.c
        w, _ = self.layer.get_weights()
        hp = self.tile.get_hidden_parameters()
        n = len(c["gam"]) - (1 if all(g == 0 for g in c["gam"][:-1]) and c["gam"][-1] == 1 else 0)
        a = [qv(hp[f"hidden_weights_{k}"], U) for k in range(n)]
        ms, g, buf, mean, past = c["ms"], c["G"], [], [], []
        if c["kind"] == "buffered":
            buf = [qv(hp[f"buffered_FP_weight_{k}"], U) for k in range(c["n"] - 1)]
        elif c["kind"] == "chopped":
            buf = [qv(hp["buffered_FP_weight_0"], g)]
        elif c["kind"] == "dynamic":
            buf = [qv(hp["buffered_FP_weight"], g * ms, tol=2e-2)]
            mean, past = qv(hp["running_mean_weight"], U * ms, tol=1e-2), qv(hp["past_mean_weight"], U * ms, tol=1e-2)
        return dict(W=qv(w, U), A=a, buf=buf, mean=mean, past=past, y=self.y)

    @staticmethod
    def random_cfg(rng, tier):
        k = rng.choice(["plain", "buffered", "chopped", "dynamic"])
        chop = k in ("chopped", "dynamic")
        n = 2 if chop else rng.choice([2, 2, 3, 4])
        big = 4 if tier == "thorough" else 3
        x, d = rng.randint(1, big), rng.randint(1, big)
        cols = rng.random() < .6
        in_size = x if cols else d
        hid = rng.random() < .4
        gl = rng.choice([1, 1, 2])
        gam = [0] * (n - 1) + [1] if hid else sorted([gl * rng.choice([0, 1, 2]) for _ in range(n - 1)], reverse=True) + [gl]
        if not hid and k != "plain":
            # ratios of consecutive gammas are integers
            gam = [gl * g for g in ([[2, 1], [1, 1], [0, 1]] if n == 2 else [[2, 2, 1], [4, 2, 1], [0, 1, 1], [1, 1, 1]]
                                    if n == 3 else [[4, 2, 1, 1], [2, 2, 2, 1], [0, 0, 1, 1]])[rng.randrange(3)]]
        sl = rng.random() < .4
        sf = rng.random() < .3
        corr = chop and rng.random() < .3
        ascale = k == "chopped" and not corr and rng.random() < .3
        forget = rng.random() < .5
        mom2 = rng.choice([0, 2] if forget else [0, 1, 2])
        if corr:
            sl = True
        c = dict(name="r", kind=k, n=n, X=x, D=d, bnd=rng.choice([6, 20, 40, 60]), gam=gam, te2=rng.choice([1, 2, 2, 3, 4, 6]),
                 ev2=[], noself=rng.random() < .7, mb=rng.random() < .4, nr=1 if chop else rng.choice([1, 1, 2, 3]), cols=cols,
                 L=rng.choice([1, 1, 2, 3]), scaleL=sl, F=rng.choice([0, 0, 1, 2, 4]), scaleF=sf,
                 reset=k == "plain" and cols and rng.random() < .3, rsel=not chop and n == 2 and rng.random() < .2,
                 G=rng.choice([2, 4, 8] if chop else [2, 4, 6, 12]), mom2=mom2, forget=forget, st=rng.choice([1, 1, 4]), pin=0, ns=2, pout=0,
                 nobuf=k == "chopped" and rng.random() < .2, corr=corr, auto=False, ascale=ascale, aev=False, cap=0, sm=1, ms=1,
                 cacc=False, K=rng.choice([1, 2, 4]), W0=[[0] * x for _ in range(d)])
        c["nr"] = min(c["nr"], in_size)
        if chop:
            c["noself"] = rng.random() < .7
        if k == "plain" and sl:
            c["L"] = 1  # the pulse train of the transfer holds four times the full range
        if corr:
            c["F"] = 0
        if ascale and c["F"] == 0:
            c["F"] = 3
        if rng.random() < .4 and not chop:
            c["ev2"] = [rng.choice([0, 1, 2, 3, 4, 5, 6]) for _ in range(n)]
        if chop:
            c["pin"] = rng.choice([0, 1, 2, 2, 3] if k == "chopped" else [1, 2, 2, 3])
            c["ns"] = rng.choice([2, 3, 4])
            if c["pin"] == 1:
                c["ns"] = 2
            if c["pin"] == 3:
                c["ns"] = 2
            c["auto"] = rng.random() < .3
            if k == "chopped":
                c["pout"] = rng.choice([0, 0, 1, 2])
                if rng.random() < .1:
                    c["aev"] = True
                    c["auto"] = False
            else:
                if rng.random() < .4:
                    c["sm"], c["ms"] = 2, 256
                if rng.random() < .3 and c["ns"] == 2:
                    c["cacc"] = True
                    c["ms"] *= 2
                if not c["forget"]:
                    c["cap"] = rng.choice([0, 0, 1, 3])
        c["W0"] = [[gam[-1] * rng.randint(-c["bnd"] - 3, c["bnd"] + 3) for _ in range(x)] for _ in range(d)]
        return c

    def random_act(self, rng):
        c = self.c
        x, d = c["X"], c["D"]
        if c["sm"] > 1 and self.count >= 8:
            return None
        p = rng.random()
        if p < .08:
            return dict(op="lr", v=rng.choice([0, 1, 2, 4]))
        if p < .12:
            return dict(op="set", w=[[c["gam"][-1] * rng.randint(-c["bnd"] - 3, c["bnd"] + 3) for _ in range(x)]
                                     for _ in range(d)])
        if p < .2:
            return dict(op="fwd", x=[[rng.randint(-2, 2) for _ in range(x)] for _ in range(rng.randint(1, 2))])
        b = rng.choice([1, 1, 2, 3, 4])
        if c["ascale"] or c["sm"] > 1 or c["pin"] == 3 or c["pout"] == 2 or c["rsel"]:
            b = 1
        hi = 2 if c["K"] * max(c["F"], 1) <= 8 and not c["ascale"] else 1
        m1, m2 = rng.randint(1, hi), rng.randint(1, hi)
        v = (lambda n, m: [rng.choice([0, m, -m, m, -m]) for _ in range(n)]) if c["ascale"] else \
            (lambda n, m: [rng.randint(-m, m) for _ in range(n)])
        return dict(op="update", x=[v(x, m1) for _ in range(b)], d=[v(d, m2) for _ in range(b)])

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(8, 30 if tier == "thorough" else 22)
