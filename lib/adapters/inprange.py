"""Adapter of spec/InputRange.tla: input ranges from data, from gradients and from calibration."""
import copy
import io
import math
import pickle
import warnings
from fractions import Fraction as Fr

import torch

from aihwkit.exceptions import ConfigError
from aihwkit.inference.calibration import InputRangeCalibrationType as CT, calibrate_input_ranges
from aihwkit.nn import AnalogLinear, AnalogSequential
from aihwkit.simulator.configs import (
    InferenceRPUConfig, TorchInferenceRPUConfig, SingleRPUConfig, IOParameters, MappingParameter, ConstantStepDevice,
    QuantizedTorchInferenceRPUConfig, BoundManagementType, NoiseManagementType)

from common import T, qv, q, OFF

warnings.filterwarnings("ignore")
U = 12.0
CLS = dict(cpp=InferenceRPUConfig, torch=TorchInferenceRPUConfig, quant=QuantizedTorchInferenceRPUConfig, single=SingleRPUConfig)
TYPE = dict(max=CT.MAX, cache=CT.CACHE_QUANTILE, mstd=CT.MOVING_STD, mq=CT.MOVING_QUANTILE)


def rpu(c, k, en, lrn):
    cfg = CLS[c["tile"]]()
    if c["tile"] == "single":
        cfg.device = ConstantStepDevice(w_max=20., w_min=-20., w_max_dtod=0., w_min_dtod=0.)
        cfg.backward = IOParameters(is_perfect=True)
    elif c["tile"] == "cpp":
        cfg.drift_compensation = None
    cfg.mapping.weight_scaling_omega = 0.0
    cfg.mapping.digital_bias = True
    cfg.forward = IOParameters(
        is_perfect=c["perf"], inp_bound=1. if c["nm"] else 1000., inp_res=-1, out_res=-1, inp_noise=0., out_noise=0., w_noise=0.,
        out_bound=float(c["ob"]) if c["ob"] else -1.,
        noise_management=NoiseManagementType.ABS_MAX if c["nm"] else NoiseManagementType.NONE,
        bound_management=BoundManagementType.NONE)
    p = cfg.pre_post.input_range
    p.enable, p.learn_input_range, p.init_value = en, lrn, c["init"] / U
    p.init_from_data, p.init_std_alpha = c["ifd"], float(c["alpha"])
    p.decay, p.input_min_percentage = c["dec"] / 4, c["pct"] / 4
    p.manage_output_clipping, p.output_min_percentage = c["moc"] and c["en"][k], c["opct"] / 4
    p.gradient_scale, p.gradient_relative = c["gs"] / 4, c["rel"]
    return cfg


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.mini = Mini(c)
        self.net = self.new()
        self.out()

    def new(self, en=None, lrn=None):
        c = self.c
        en, lrn = en or c["en"], lrn or [c["learn"]] * len(c["W"])
        net = AnalogSequential(*[AnalogLinear(len(w[0]), len(w), False, rpu(c, k, en[k], lrn[k])) for k, w in enumerate(c["W"])])
        for l, w in zip(net, c["W"]):
            l.set_weights(T(w))
        return self.modes(net)

    def modes(self, net):
        net.train()
        if self.c["evl"]:
            net[0].eval()
        return net

    def out(self, y=(), gx=(), gw=(), err=False):
        self.y, self.gx, self.gw, self.err = list(y), list(gx), list(gw), err

    @property
    def tiles(self):
        return [l.analog_module for l in self.net]

    def forget(self):
        """Drop the gradients of all but the input ranges."""
        for n, p in self.net.named_parameters():
            if hasattr(p, "reset"):
                p.reset()
            if not n.endswith("input_range"):
                p.grad = None

    def step(self, a):
        op, c = a["op"], self.c
        self.out()
        try:
            self.mini.step(a)
        except Inexact:  # replayed behaviours are bounded by the specification
            pass
        if op == "pass":
            x = T(a["x"], U)
            if a["mode"] == "eval":
                self.net.eval()
                with torch.no_grad():
                    y = self.net(x)
                self.modes(self.net)
                return self.out(qv(y, U))
            self.forget()
            y = self.net(x.requires_grad_(True))
            y.backward(T(a["d"]))
            gw = []
            for t in self.tiles:
                if c["tile"] != "single":
                    w = t.shared_weights if c["tile"] == "cpp" else t.tile.weight
                    f = t.input_range.item() if c["tile"] == "cpp" and t.input_range is not None else 1.
                    gw.append(qv(w.grad * f, U))
            self.out(qv(y.detach(), U), qv(x.grad), gw)
        elif op == "opt":
            ps = [t.input_range for t in self.tiles if isinstance(t.input_range, torch.nn.Parameter)]
            if ps:
                opt = torch.optim.SGD(ps, lr=4. / c["ls"])
                opt.step()
                opt.zero_grad()
        elif op == "set":
            try:
                v = a["v"] / U
                self.tiles[a["k"] - 1].set_input_range(v if a["v"] % 2 else torch.tensor([v]))
            except ConfigError:
                self.err = True
        elif op == "cal":
            data = iter([((T(b, U),), {}) for b in a["B"]])
            try:
                calibrate_input_ranges(self.net, TYPE[a["type"]], data, quantile=a["q"] / 4, max_samples=a["ms"],
                                       std_alpha=float(a["alpha"]) if a["alpha"] else None, force_all_layers=a["force"])
            except ConfigError:
                self.err = True
        elif op == "copy":
            for p in self.net.parameters():
                p.grad = None
            self.forget()
            if a["how"] == "deepcopy":
                self.net = copy.deepcopy(self.net)
            elif a["how"] == "pickle":
                self.net = pickle.loads(pickle.dumps(self.net))
            else:
                buf = io.BytesIO()
                torch.save(self.net.state_dict(), buf)
                buf.seek(0)
                if a["how"] == "sd":
                    o = self.obs()
                    self.net = self.new(o["en"], o["lrn"])
                self.net.load_state_dict(torch.load(buf, weights_only=False))
        else:
            raise ValueError(op)

    def obs(self):
        ts = self.tiles
        irp = [t.rpu_config.pre_post.input_range for t in ts]
        par = [isinstance(t.input_range, torch.nn.Parameter) for t in ts]
        hooks = any(t._forward_pre_hooks for t in ts)
        return dict(
            y=self.y, gx=self.gx, gw=self.gw, err=self.err,
            ir=[0 if t.input_range is None else OFF if t.input_range.numel() != 1 else q(t.input_range.item(), U) for t in ts],
            idx=[0 if t.input_range is None else q(t.input_range_update_idx.item()) for t in ts],
            g=[q(t.input_range.grad.item(), 48.) if p and t.input_range.grad is not None else 0 for t, p in zip(ts, par)],
            en=[p.enable for p in irp], pf=[t.rpu_config.forward.is_perfect for t in ts],
            nm=[t.rpu_config.forward.noise_management != NoiseManagementType.NONE for t in ts],
            inf=["hooks" if hooks else p.calibration_info or "-" for p in irp], iv=[q(p.init_value, U) for p in irp],
            lrn=par, modes=[m.training for m in [self.net] + list(self.net)])

    # ------------------------------------------------------------ random
    @staticmethod
    def random_cfg(rng, tier):
        tile = rng.choice(["cpp", "cpp", "torch", "single", "quant"])
        cpp = tile in ("cpp", "single")
        n = rng.choice([1, 1, 2])
        dims = [rng.randint(1, 4) for _ in range(n + 1)]
        W = [[[rng.randint(-2, 2) for _ in range(dims[k])] for _ in range(dims[k + 1])] for k in range(n)]
        if n == 2 and rng.random() < .6:  # keeps the patterns with an integer deviation
            dims[0] = dims[1] = 3
            s, p = rng.choice([1, -1, 2]), rng.sample(range(3), 3)
            W = [[[s if j == p[i] else 0 for j in range(3)] for i in range(3)], [[rng.randint(-2, 2) for _ in range(3)] for _ in range(dims[2])]]
        en = [rng.random() < .75 for _ in range(n)]
        c = dict(name="r", tile=tile, W=W, en=en, learn=rng.random() < .75, init=12 * rng.randint(1, 5), ifd=rng.choice([0, 0, 1, 2, 3]),
                 alpha=rng.randint(1, 3), dec=rng.choice([0, 0, 1, 2]), pct=rng.choice([2, 3]), rel=rng.random() < .6, gs=rng.choice([4, 4, 2, 8]),
                 perf=rng.random() < .6, ob=0, moc=False, opct=rng.choice([2, 3, 4]), nm=False, evl=rng.random() < .25, ls=rng.choice([4, 4, 1]))
        if not c["perf"] and cpp and rng.random() < .7:
            c.update(ob=rng.randint(1, 3), moc=all(en) and rng.random() < .7)
        elif not c["perf"] and rng.random() < .5:
            c["nm"] = True
        return c

    def batch(self, rng):
        X = len(self.c["W"][0][0])
        if X == 3 and rng.random() < .5:
            v = 12 * rng.randint(1, 8)
            if rng.random() < .8:
                r = [v, -v, 0]
                rng.shuffle(r)
                return [r]
            r = [v, -v] * 4 + [0]
            rng.shuffle(r)
            return [r[:3], r[3:6], r[6:]]
        return [[12 * rng.randint(-8, 8) if rng.random() < .8 else 0 for _ in range(X)] if rng.random() < .85 else [0] * X
                for _ in range(rng.randint(1, 3))]

    def random_act(self, rng):
        c = self.c
        for _ in range(60):
            op = rng.choice(["pass"] * 6 + ["opt"] * 2 + ["set", "cal", "cal", "copy"])
            a = dict(op=op)
            if op == "pass":
                a["mode"] = rng.choice(["train", "train", "eval"])
                a["x"] = self.batch(rng)
                a["d"] = [[rng.randint(-3, 3) for _ in c["W"][-1]] for _ in a["x"]]
            elif op == "set":
                a["k"] = rng.randint(1, len(c["W"]))
                a["v"] = rng.choice([-1, 1]) * rng.randint(1, 72)
            elif op == "cal":
                a.update(type=rng.choice(["max", "cache", "mstd", "mq"]), B=[self.batch(rng) for _ in range(rng.randint(1, 4))],
                         q=rng.choice([2, 3, 3, 4]), alpha=rng.choice([0, 0, 1, 2]), force=rng.random() < .6, ms=rng.choice([1, 2, 3]))
                if a["type"] == "cache":
                    a["ms"] = 20
            elif op == "copy":
                a["how"] = rng.choice(["deepcopy", "pickle", "sd", "same"])
            m = self.mini.copy()
            try:
                m.step(a)
                m.fine(a)
            except Inexact:
                continue
            return a
        return None

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(5, 30 if tier == "thorough" else 16)


class Inexact(Exception):
    """The result is not an integer of the specification."""


def exact(v):
    if Fr(v).denominator != 1:
        raise Inexact()
    return int(v)


class Mini:
    """Evolution of the ranges, only used to generate actions with exactly representable results."""

    def __init__(self, c):
        self.c, n = c, len(c["W"])
        self.en, self.lrn, self.ifd, self.al = list(c["en"]), [c["learn"]] * n, [c["ifd"]] * n, [c["alpha"]] * n
        self.ir = [c["init"] if e else 0 for e in self.en]
        self.iv, self.idx, self.g, self.nm, self.pf = [c["init"]] * n, [0] * n, [0] * n, [c["nm"]] * n, [c["perf"]] * n
        self.fz = [False] * n

    def copy(self):
        return copy.deepcopy(self)

    def fine(self, a):
        for k in range(len(self.ir)):
            if not 0 <= self.ir[k] < 1000 or (self.en[k] and self.ir[k] == 0) or abs(self.g[k]) >= 100000 or self.iv[k] >= 1000:
                raise Inexact()
            if a["op"] == "pass" and self.c["ob"] * (self.ir[k] or 12) >= 900:
                raise Inexact()

    def std(self, X):
        f = [v for r in X for v in r]
        n = len(f)
        if n == 1:
            return 0
        v = n * sum(x * x for x in f) - sum(f) ** 2
        v = exact(Fr(v, n * (n - 1)))
        r = math.isqrt(v)
        if r * r != v or r > 1500 or v * n * n > 2 ** 30:
            raise Inexact()
        return r

    def quant(self, X, k):
        m = sorted(abs(v) for r in X for v in r)
        p = k * (len(m) - 1)
        i, r = p // 4, p % 4
        return m[i] if r == 0 else exact(m[i] + Fr(r * (m[i + 1] - m[i]), 4))

    def lay(self, k, X, pf=None):
        ir, ob = self.ir[k], self.c["ob"]
        if ir:
            X = [[max(-ir, min(ir, v)) for v in r] for r in X]
        Y = [[sum(x * w for x, w in zip(r, ws)) for ws in self.c["W"][k]] for r in X]
        if ob and not self.pf[k]:
            o = ob * (ir or 12)
            Y = [[max(-o, min(o, v)) for v in r] for r in Y]
        return Y

    def avg(self, k, v):
        self.ir[k] = exact(Fr(self.ir[k] * self.idx[k] + v, self.idx[k] + 1))
        self.idx[k] += 1
        self.fz[k] = True

    def step(self, a):
        c, op, n = self.c, a["op"], len(self.ir)
        if op == "pass":
            xs = [a["x"]]
            if c["nm"] and any(self.nm) and a["mode"] == "train":
                raise Inexact()
            for k in range(n):
                if a["mode"] == "train" and not (c["evl"] and k == 0) and self.en[k] and self.idx[k] < self.ifd[k]:
                    sd = self.std(xs[-1])
                    if sd:
                        self.avg(k, self.al[k] * sd)
                xs.append(self.lay(k, xs[-1]))
            if a["mode"] == "train":
                for k in range(n):
                    if self.ir[k] and (k or self.fz[k] or self.ir[k] % 12) and any(abs(v) == self.ir[k] for r in xs[k] for v in r):
                        raise Inexact()
                G = a["d"]
                for k in reversed(range(n)):
                    X, Y, ir, W = xs[k], xs[k + 1], self.ir[k], c["W"][k]
                    o = c["ob"] * (ir or 12)
                    hit = [[bool(c["ob"]) and not self.pf[k] and abs(v) >= o for v in r] for r in Y]
                    G = [[0 if h else g for h, g in zip(hr, gr)] for hr, gr in zip(hit, G)]
                    D = [[sum(g * w[j] for g, w in zip(r, W)) for j in range(len(W[0]))] for r in G]
                    if ir and self.lrn[k]:
                        pairs = [(x, d) for xr, dr in zip(X, D) for x, d in zip(xr, dr)]
                        g = sum(min(0, d) for x, d in pairs if x >= ir) - sum(max(0, d) for x, d in pairs if x <= -ir)
                        g *= c["gs"] * (ir if c["rel"] else 12)
                        if 4 * sum(abs(x) < ir for x, _ in pairs) > c["pct"] * len(pairs):
                            g += c["dec"] * ir
                        no, cl = len(Y) * len(Y[0]), sum(map(sum, hit))
                        if c["moc"] and 4 * (no - cl) < c["opct"] * no:
                            g -= exact(Fr(4 * cl * ir, no))
                        self.g[k] += g
                    if c["tile"] in ("torch", "quant") and ir:
                        D = [[0 if abs(x) > ir else d for x, d in zip(xr, dr)] for xr, dr in zip(X, D)]
                    G = D
        elif op == "opt":
            for k in range(n):
                if self.ir[k] and self.lrn[k]:
                    self.ir[k] -= exact(Fr(self.g[k], c["ls"]))
                    if self.ir[k] <= 0:
                        raise Inexact()
            self.fz = [f or g != 0 for f, g in zip(self.fz, self.g)]
            self.g = [0] * n
        elif op == "set":
            if self.en[a["k"] - 1]:
                self.ir[a["k"] - 1] = abs(a["v"])
                self.fz[a["k"] - 1] = False
        elif op == "copy":
            self.g = [0] * n
        elif op == "cal":
            if not a["force"] and any(e and m for e, m in zip(self.en, self.nm)):
                return
            pf, ty = list(self.pf), a["type"]
            cal = [a["force"] or e for e in self.en]
            seen = [[] for _ in range(n)]
            for k in range(n):
                if cal[k]:
                    if not self.en[k]:
                        self.en[k], self.lrn[k], self.ir[k] = True, False, self.iv[k]
                    self.idx[k], self.ifd[k], self.al[k], self.nm[k] = 0, 0, a["alpha"] or self.al[k], False
                    self.pf[k] |= ty in ("max", "cache")
            for X in a["B"]:
                for k in range(n):
                    R = [r for r in X if any(r)]
                    seen[k] += R
                    if cal[k] and R and (ty == "mq" or ty == "mstd" and self.idx[k] < a["ms"]):
                        v = self.quant(R, a["q"]) if ty == "mq" else self.al[k] * self.std(R)
                        if v:
                            self.avg(k, v)
                    X = self.lay(k, X)
            for k in range(n):
                if cal[k] and ty in ("max", "cache") and seen[k]:
                    self.ir[k] = self.quant(seen[k], 4 if ty == "max" else a["q"])
                    if not self.ir[k]:
                        raise Inexact()
                if cal[k] and (self.idx[k] or ty in ("max", "cache") and seen[k]):
                    self.iv[k] = self.ir[k]
                self.fz[k] |= cal[k] and not (ty == "max" and k == 0)
            self.pf = pf
