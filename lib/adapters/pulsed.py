"""Adapter of spec/Pulsed.tla: pulsed update of single devices."""
from math import isqrt

import torch

from aihwkit.nn import AnalogLinear
from aihwkit.simulator import configs as C
from aihwkit.simulator.configs import (
    SingleRPUConfig, MappingParameter, PulseType, IOParameters, UpdateParameters)

from common import T, qv

ONE = 1 << 20
M = ONE // 64
PT = dict(det=PulseType.DETERMINISTIC_IMPLICIT, mean=PulseType.MEAN_COUNT, sto=PulseType.STOCHASTIC,
          stoc=PulseType.STOCHASTIC_COMPRESSED, none=PulseType.NONE, nonedev=PulseType.NONE_WITH_DEVICE)
NOISY = dict(
    const=lambda: C.ConstantStepDevice(dw_min=0.01, dw_min_std=0.0),
    lin=lambda: C.LinearStepDevice(dw_min=0.01, dw_min_std=0.0, gamma_up=0.3, gamma_down=0.4, mean_bound_reference=False),
    linadd=lambda: C.LinearStepDevice(dw_min=0.02, dw_min_std=0.0, gamma_up=0.2, gamma_down=0.5, mult_noise=False,
                                      mean_bound_reference=False),
    soft=lambda: C.SoftBoundsDevice(dw_min=0.05, dw_min_std=0.0),
    pmax=lambda: C.SoftBoundsPmaxDevice(dw_min_std=0.0, p_max=50),
    ref=lambda: C.SoftBoundsReferenceDevice(dw_min=0.05, dw_min_std=0.0, subtract_symmetry_point=True, reference_std=0.05),
    exp=lambda: C.ExpStepDevice(dw_min=0.01, dw_min_std=0.0),
    pow=lambda: C.PowStepDevice(dw_min=0.05, dw_min_std=0.0),
    powref=lambda: C.PowStepReferenceDevice(dw_min=0.05, dw_min_std=0.0),
    piece=lambda: C.PiecewiseStepDevice(dw_min=0.02, dw_min_std=0.0, piecewise_up=[1.0, 2.0, 0.5], piecewise_down=[0.5, 1.0, 1.5]),
)


def device(c):
    if c["dev"] == "noisy":
        return NOISY[c["preset"]]()
    up, dn = c["up"] / ONE, c["dn"] / ONE
    kw = dict(dw_min=max(up, dn), up_down=1 - dn / up if up >= dn else up / dn - 1, dw_min_dtod=0.0, dw_min_std=0.0,
              up_down_dtod=0.0, w_max=c["hi"] / ONE, w_min=c["lo"] / ONE, w_max_dtod=0.0, w_min_dtod=0.0, reset_std=0.0,
              reset_dtod=0.0)
    if c["dev"] == "const":
        return C.ConstantStepDevice(**kw)
    if c["dev"] == "lin":
        if c["g"] == 4 and c["name"] != "lin":
            return C.SoftBoundsDevice(**kw)
        return C.LinearStepDevice(gamma_up=c["g"] / 4.0, gamma_down=c["g"] / 4.0, gamma_up_dtod=0.0, gamma_down_dtod=0.0, **kw)
    if c["dev"] == "pow":
        return C.PowStepDevice(pow_gamma=float(c["g"]), pow_gamma_dtod=0.0, **kw)
    if c["dev"] == "piece":
        return C.PiecewiseStepDevice(piecewise_up=[float(v) for v in c["pu"]], piecewise_down=[float(v) for v in c["pd"]], **kw)
    return C.SoftBoundsReferenceDevice(reference_mean=(c["r"] - c["sp"]) / ONE, subtract_symmetry_point=c["sp"] != 0, **kw)


def rpu(c):
    pr = 0.0 if c["rx"] == 0 else 1.0 / c["rx"]
    dr = 0.0 if c["rd"] == 0 else 1.0 / c["rd"]
    if c["name"].endswith("n"):  # given as number of steps
        pr, dr = float(c["rx"]), float(c["rd"])
    up = UpdateParameters(
        pulse_type=PT[c["pt"]], desired_bl=c["BL"], update_management=c["um"], update_bl_management=c["ublm"],
        fixed_bl=c["fixed"], um_grad_scale=c["an"] / 2.0, sto_round=False,
        **(dict(x_res_implicit=pr, d_res_implicit=dr) if c["pt"] == "det" else dict(res=pr)))
    return SingleRPUConfig(device=device(c), forward=IOParameters(is_perfect=True), backward=IOParameters(is_perfect=True),
                           update=up, mapping=MappingParameter(digital_bias=False, weight_scaling_omega=0.0))


def issq(n):
    return isqrt(n) ** 2 == n


def applies(c, k, x, d):
    """The pulse numbers are exactly known."""
    xm, dm = max(abs(v) for v in x), max(abs(v) for v in d)
    if c["pt"] in ("none", "nonedev") or c["dev"] == "noisy" or xm == 0 or dm == 0 or k == 0:
        return True
    kk, short = k * xm * dm, k * c["h"] ** 2 <= c["BL"]
    if c["pt"] == "det" and not c["rx"] and not c["rd"] and c["an"] == 2:
        if c["um"] or c["ublm"]:
            if kk <= c["BL"] and (c["ublm"] or short):
                return True
        elif k * xm * xm <= c["BL"] and k * dm * dm <= c["BL"] and short:
            return True
    if c["ublm"]:
        return kk * c["an"] % 2 == 0
    if c["um"]:
        return c["an"] == 2 and (c["fixed"] or short) and (kk >= c["BL"] or issq(kk * c["BL"]))
    return issq(k * c["BL"]) or (not c["fixed"] and not short)


def length(c, k, x, d):
    xm, dm = max(abs(v) for v in x), max(abs(v) for v in d)
    if c["ublm"]:
        return min(-(-k * xm * dm * c["an"] // 2), c["BL"])
    return c["BL"] if c["fixed"] or k * c["h"] ** 2 <= c["BL"] else k * c["h"] ** 2


def budget(c):
    """Pulses of one entry whose result is exactly representable."""
    if c["dev"] in ("const", "noisy"):
        return 10 ** 9
    if c["dev"] == "piece":
        return 2
    if c["dev"] == "pow" and c["g"] == 2:
        return 1
    return 4 if c["up"] == c["dn"] else 2


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.dw = c["dw"] / ONE
        self.noisy = c["dev"] == "noisy"
        cfg = rpu(c)
        if self.noisy:
            self.dw = cfg.device.as_bindings(cfg.runtime.data_type).dw_min
        self.layer = AnalogLinear(c["X"], c["D"], False, cfg)
        self.tile = self.layer.analog_module
        self.lr(c["K"])
        self.y = []
        self.dir = [[0] * c["X"] for _ in range(c["D"])]
        self.layer.set_weights(T(c["W0"], 64.0))
        self.used = 0
        self.moved = torch.zeros(c["D"], c["X"]) > 0

    def lr(self, k):
        self.k = k
        self.tile.set_learning_rate(k * self.c["h"] ** 2 * self.dw)

    def step(self, a):
        op, c = a["op"], self.c
        self.y = []
        w0, _ = self.layer.get_weights()
        w0 = w0.clone()
        self.dir = [[0] * c["X"] for _ in range(c["D"])]
        self.moved = torch.zeros_like(w0) > 0
        if op == "update":
            self.tile.update(T(a["x"], float(c["h"])), T(a["d"], float(c["h"])))
            for x, d in zip(a["x"], a["d"]):
                self.used += self.pulses(x, d)
            self.moved = self.layer.get_weights()[0] != w0
            if self.noisy:
                hp = self.tile.get_hidden_parameters()
                v = w0 + hp.get("reference", torch.zeros_like(w0))  # (writing may leave w + reference out of bounds)
                ok = (v <= hp["max_bound"]) & (v >= hp["min_bound"])
                self.dir = qv(10 * torch.sign(self.layer.get_weights()[0] - w0) * ok)
        elif op == "lr":
            self.lr(a["v"])
        elif op == "set":
            self.layer.set_weights(T(a["w"], 64.0))
            self.used = 0
        elif op == "fwd":
            with torch.no_grad():
                self.y = qv(self.tile.forward(T(a["x"])), ONE) if not self.noisy else []
        else:
            raise ValueError(op)

    def pulses(self, x, d):
        if not self.k:
            return 0
        return max(self.k * max(map(abs, x)) * max(map(abs, d)) if self.c["pt"] == "det" else 0, length(self.c, self.k, x, d))

    def obs(self):
        w, _ = self.layer.get_weights()
        inb = True
        if self.c["pt"] != "none":
            hp = self.tile.get_hidden_parameters()
            ref = hp.get("reference")
            v, chk = (w, torch.ones_like(w) > 0) if ref is None else (w + ref, self.moved)
            inb = bool((v <= hp["max_bound"] + 1e-6)[chk].all() and (v >= hp["min_bound"] - 1e-6)[chk].all())
        return dict(W=self.dir if self.noisy else qv(w, ONE), inb=inb, y=self.y)

    @staticmethod
    def random_cfg(rng, tier):
        big = 4 if tier == "thorough" else 3
        x, d = rng.randint(1, big), rng.randint(1, big)
        dev = rng.choice(["const"] * 6 + ["lin", "lin", "pow", "piece", "ref", "noisy", "noisy"])
        um = rng.random() < .7
        c = dict(name="r", X=x, D=d, h=rng.choice([1, 1, 2]), pt=rng.choice(["det", "det", "mean", "sto", "stoc", "none", "nonedev"]),
                 BL=rng.choice([1, 2, 3, 4, 8, 9, 16, 31, 64]), um=um, ublm=um and rng.random() < .7, fixed=rng.random() < .3,
                 an=rng.choice([2, 2, 1]), rx=0, rd=0, dev=dev, up=M, dn=M, dw=M, g=4, r=0, sp=0, pu=[], pd=[],
                 lo=-M * rng.randint(5, 60), hi=M * rng.randint(5, 60), K=rng.choice([1, 1, 2, 4]), W0=[], preset="")
        if dev not in ("const", "noisy"):
            c.update(pt=rng.choice(["det", "sto", "mean"]), ublm=True, um=True, fixed=False, an=2, K=1, h=1, lo=-ONE, hi=ONE,
                     BL=rng.choice([1, 2, 31]))
            st = ONE // rng.choice([4, 8] if dev != "piece" else [16])
            c.update(up=st, dn=st, dw=st)
            if dev == "lin":
                c["g"] = rng.choice([4, 4, 2])
                c["name"] = rng.choice(["r", "lin"])
                c["lo"], c["hi"] = -ONE // rng.choice([1, 2]), ONE // rng.choice([1, 2])
                if rng.random() < .3:
                    c[rng.choice(["up", "dn"])] //= 2
            elif dev == "pow":
                c["g"] = rng.choice([1, 2])
                c["dw"] = st // 2 ** c["g"]
            elif dev == "piece":
                c["pu"], c["pd"] = [rng.randint(0, 3), rng.randint(1, 3), rng.randint(0, 3)], [rng.randint(0, 3) for _ in range(3)]
                c["dw"] = st * c["pu"][1]
            elif dev == "ref":
                c["r"] = ONE // 8 * rng.randint(-3, 3)
                if rng.random() < .5:
                    c.update(sp=ONE // 4, lo=-ONE // 2, up=ONE // 4, dn=ONE // 8, dw=ONE // 4)
        elif dev == "const":
            if rng.random() < .3:
                c[rng.choice(["up", "dn"])] //= 2
            if rng.random() < .3:
                if c["pt"] == "det":
                    c["rx"], c["rd"] = rng.choice([0, 2, 3, 4, 8]), rng.choice([0, 2, 3, 4, 8])
                else:
                    c["rx"] = c["rd"] = rng.choice([2, 3, 4, 8])
                if c["rx"] and c["rd"] and rng.random() < .5:
                    c["name"] = "rn"
        else:
            c.update(preset=rng.choice(sorted(NOISY)), pt=rng.choice(["det", "mean", "sto", "stoc"]), lo=-ONE, hi=ONE)
            c["X"], c["D"] = min(x, 3), min(d, 2)
        if c["pt"] in ("sto", "stoc"):
            c["X"], c["D"] = min(c["X"], 2), min(c["D"], 2)
        c["W0"] = Adapter.rand_w(c, rng)
        return c

    @staticmethod
    def rand_w(c, rng):
        m = 1 if c["dev"] == "const" else 16 if c["dev"] == "pow" and c["g"] == 2 else 8
        return [[m * rng.randint(-64 // m, 64 // m) if rng.random() < .4 else m * rng.randint(-16 // m, 16 // m)
                 for _ in range(c["X"])] for _ in range(c["D"])]

    def random_act(self, rng):
        c = self.c
        x, d = c["X"], c["D"]
        p = rng.random()
        if p < .1:
            return dict(op="lr", v=rng.choice([0, 1, 1, 2, 4]) if c["dev"] in ("const", "noisy") else rng.choice([0, 1, 1]))
        if p < .2:
            return dict(op="set", w=self.rand_w(c, rng))
        if p < .28:
            return dict(op="fwd", x=[[rng.randint(-2, 2) for _ in range(x)] for _ in range(rng.randint(1, 2))])
        for _ in range(20):
            sto = c["pt"] in ("sto", "stoc") and not self.noisy
            b = 1 if sto or self.noisy or c["dev"] != "const" or c["rx"] or c["rd"] or c["pt"] == "mean" else rng.choice([1, 1, 2])
            hi = rng.choice([1, 2, 2, 4])
            xs = [[rng.choice([0, hi, -hi, rng.randint(-hi, hi)]) for _ in range(x)] for _ in range(b)]
            ds = [[rng.choice([0, hi, -hi, rng.randint(-hi, hi)]) for _ in range(d)] for _ in range(b)]
            if not all(applies(c, self.k, u, v) for u, v in zip(xs, ds)):
                continue
            if sto and self.k:
                n = sum(0 < abs(v) < 99 for v in xs[0] + ds[0])
                full = all(abs(v) in (0, hi) for v in xs[0] + ds[0]) and c["ublm"] and c["an"] == 2
                if length(c, self.k, xs[0], ds[0]) * n > 10 and not full:
                    continue
                if full and (max(map(abs, xs[0])) != hi or max(map(abs, ds[0])) != hi):
                    continue
            if self.used + sum(self.pulses(u, v) for u, v in zip(xs, ds)) > budget(c):
                continue
            return dict(op="update", x=xs, d=ds)
        return dict(op="set", w=self.rand_w(c, rng))

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(6, 30 if tier == "thorough" else 16)
