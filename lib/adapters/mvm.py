"""Adapter of spec/Mvm.tla: analog matrix-vector product with its periphery."""
import copy
import io
import math
import pickle
from dataclasses import dataclass
from fractions import Fraction as Fr

import torch

from aihwkit.simulator.configs import (
    SingleRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig, IdealDevice, IOParameters, MappingParameter, UpdateParameters,
    PulseType, BoundManagementType as B, NoiseManagementType as N)
from aihwkit.simulator.parameters.enums import AnalogMVType as MV
from aihwkit.simulator.tiles.custom import CustomRPUConfig

from common import T, qv

NM = dict(none=N.NONE, absmax=N.ABS_MAX, const=N.CONSTANT, max=N.MAX, npsum=N.ABS_MAX_NP_SUM, avg=N.AVERAGE_ABS_MAX)
BM = dict(none=B.NONE, iter=B.ITERATIVE, worst=B.ITERATIVE_WORST_CASE)
MVT = dict(one=MV.ONE_PASS, pns=MV.POS_NEG_SEPARATE, pnd=MV.POS_NEG_SEPARATE_DIGITAL_SUM, ideal=MV.IDEAL)


@dataclass
class IO(IOParameters):
    """With the parameters of rpucuda which have no field in python."""

    nm_decay: float = 1e-3
    nm_assumed_wmax: float = 0.6


def ioparams(c, p, n_in):
    u = c["u"]
    if p["mv"] == "ideal":
        return IOParameters(is_perfect=True) if n_in % 2 or c["kind"] not in ("cpp", "inf") else IOParameters(mv_type=MV.IDEAL)
    par = dict(
        mv_type=MVT[p["mv"]], noise_management=NM[p["nm"]], nm_thres=float(p["th"]), inp_noise=0., out_noise=0., w_noise=0.,
        inp_bound=p["ib"] / u if p["ib"] else -1., out_bound=p["ob"] / u if p["ob"] else -1.,
        inp_res=res(p["iq"], p["ib"], c["st"]), out_res=res(p["oq"], p["ob"], c["st"]), inp_asymmetry=p["ia"] / 4, out_asymmetry=p["oa"] / 4,
        bound_management=BM[p["bm"]], max_bm_factor=p["mf"], max_bm_res=p["mr"] / u, bm_test_negative_bound=p["ng"], out_scale=float(p["os"]))
    # stochastic rounding keeps what is on the grid
    if c["kind"] not in ("cpp", "inf"):
        return IOParameters(**par)
    par.update(nm_decay=p["dc"] / 4, nm_assumed_wmax=p["wx"] / 4)
    if p["v"]:
        par.update(v_offset_std=1e-6, v_offset_w_min=-float(p["wm"]))
    if p["wa"]:
        par.update(w_read_asymmetry_dtod=1e-6)
    if p["nl"]:
        par.update(out_nonlinearity=p["nl"] / 4, slope_calibration=p["sl"] / 4)
    if p["ir"]:
        par.update(ir_drop=1., ir_drop_g_ratio=2. * n_in)
    return IO(**par)


def res(q, b, st):
    """Resolution, or the number of states."""
    if not q:
        return -1.
    return 2. * b / q if st and 2 * b > q else q / 2. / b


def rpu(c):
    m, n = len(c["W0"]), len(c["W0"][0])
    f, b = ioparams(c, c["f"], n), ioparams(c, c["b"], m)
    mp = MappingParameter(weight_scaling_omega=0.)
    k = c["kind"]
    if k == "cpp":
        return SingleRPUConfig(device=IdealDevice(), forward=f, backward=b, mapping=mp, update=UpdateParameters(pulse_type=PulseType.NONE))
    if k == "custom":
        return CustomRPUConfig(forward=f, backward=b, mapping=mp)
    if k == "inf":
        return InferenceRPUConfig(forward=f, mapping=mp, drift_compensation=None)
    return TorchInferenceRPUConfig(forward=f, mapping=mp, drift_compensation=None)


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.m, self.n = len(c["W0"]), len(c["W0"][0])
        self.mini = Mini(c)
        self.tile = self.new()
        self.tile.set_weights(T(c["W0"]))
        self.vectors()
        self.clear()

    def new(self):
        r, tr = rpu(self.c), self.c["tr"]
        return r.tile_class(self.m, self.n, r, False, **(dict(in_trans=True, out_trans=True) if tr else {}))

    def vectors(self):
        """The variations of the instance, which are random otherwise."""
        ex = {}
        for k, p in (("fwd", self.c["f"]), ("bwd", self.c["b"])):
            if p["v"]:
                ex[k + ".v_offset"] = [x / 4 for x in p["v"]]
            if p["wa"]:
                w = p["wa"] if k == "fwd" else [list(r) for r in zip(*p["wa"])]
                ex[k + ".w_asymmetry"] = [x / 2 for r in w for x in r]
        if not ex:
            return
        ext = self.tile.tile.dump_extra()
        for k, v in ex.items():
            keys = [x for x in ext if x.endswith(k)]
            assert len(keys) == 1 and len(ext[keys[0]]) == len(v), keys
            ext[keys[0]] = v
        self.tile.tile.load_extra(ext, True)

    def clear(self):
        self.y, self.gx, self.gw = [], [], []

    def step(self, a):
        op, t, u, tr = a["op"], self.tile, float(self.c["u"]), self.c["tr"]
        self.clear()
        try:
            self.mini.step(a)
        except Inexact:  # replayed behaviours are bounded by the specification
            pass
        o = lambda x: x.t().contiguous() if tr else x
        if op == "set":
            t.set_weights(T(a["w"]))
        elif op == "fwd":
            with torch.no_grad():
                x = T(a["x"])
                k = x.clone()
                y = t.forward(o(x)) if self.c["kind"] == "torch" else t.tile.forward(o(x), False, tr, tr, len(a["x"]) % 2 == 0)
                assert torch.equal(x, k), "input changed"
                self.y = qv(o(y) * u, tol=2e-2)
        elif op == "bwd":
            d = T(a["d"])
            k = d.clone()
            y = t.tile.backward(o(d), False, tr, tr)
            assert torch.equal(d, k), "input changed"
            self.gx = qv(o(y) * u, tol=2e-2)
        elif op == "grad":
            x = T(a["x"]).requires_grad_(True)
            t.tile.weight.grad = None
            y = t.forward(x)
            gx, gw = torch.zeros_like(x), torch.zeros(self.m, self.n)
            if y.requires_grad:
                y.backward(T(a["d"]))
                gx = gx if x.grad is None else x.grad
                gw = t.tile.weight.grad
            nm = self.c["f"]["nm"] in ("absmax", "max") and self.c["f"]["mv"] != "ideal"
            zero = not y.requires_grad
            self.y, self.gx = qv(y.detach() * u, tol=2e-2), [] if nm and not zero else qv(gx * 16., tol=2e-2)
            self.gw = qv(gw * 4. * u, tol=5e-2)
        elif op == "copy":
            if a["how"] == "deepcopy":
                self.tile = copy.deepcopy(t)
            elif a["how"] == "pickle":
                self.tile = pickle.loads(pickle.dumps(t))
            else:
                buf = io.BytesIO()
                torch.save(torch.nn.ModuleList([t]).state_dict(), buf)
                buf.seek(0)
                self.tile = self.new()
                torch.nn.ModuleList([self.tile]).load_state_dict(torch.load(buf, weights_only=False))
        else:
            raise ValueError(op)

    def obs(self):
        return dict(W=qv(self.tile.get_weights()[0]), y=self.y, gx=self.gx, gw=self.gw)

    # ------------------------------------------------------------ random
    @staticmethod
    def random_cfg(rng, tier):
        kind = rng.choice(["cpp", "cpp", "cpp", "inf", "torch", "custom"])
        cpp = kind in ("cpp", "inf")
        m, n = rng.randint(1, 4), rng.randint(1, 4)
        fx = rng.random() < .15 and cpp  # IR drop
        u = 8 if fx else rng.choice([64, 64, 256])
        wmax = 2 if fx else 3

        def par(no, ni, back):
            p = dict(mv="one", nm="none", th=0, ib=0, ob=0, iq=0, oq=0, ia=0, oa=0, bm="none", mf=8, mr=9999, ng=True, os=1, wx=4, v=[],
                     wm=1, wa=[], nl=0, sl=0, ir=False, dc=2)
            if rng.random() < .08:
                p["mv"] = "ideal"
                return p
            if cpp:
                p["mv"] = rng.choice(["one", "one", "pns", "pnd"])
            if fx:
                p.update(ir=True, ib=64, iq=rng.choice([2, 4, 8]), ob=rng.choice([32, 64]), oq=rng.choice([2, 4]))
            else:
                nms = ["none", "absmax", "absmax", "const", "max"] + (["npsum", "avg", "avg"] if cpp else [])
                p["nm"] = rng.choice(nms)
                p["ib"] = u if p["nm"] != "none" else rng.choice([0, 2 * u, 8 * u])
                if p["ib"] and rng.random() < .7:
                    p["iq"] = rng.choice([u // 16, u // 8, u // 4])
                if p["nm"] != "none" and rng.random() < .4 or p["nm"] == "const":
                    p["th"] = rng.choice([0, 1, 2, 4, 3])
                if rng.random() < .8:
                    p["ob"] = rng.choice([u // 2, u, 2 * u, 4 * u])
                    if rng.random() < .7:
                        p["oq"] = rng.choice([u // 16, u // 8, u // 4])
            if p["ob"] and not back:
                p["bm"] = rng.choice(["none", "iter", "iter"] + (["worst"] if cpp else []))
            if rng.random() < .3:
                p["ia"], p["oa"] = rng.choice([0, 1, 2, -1]), rng.choice([0, 1, 2])
            if rng.random() < .3 and p["bm"] != "none":
                p["mf"] = rng.choice([0, 1, 2, 4, 3])
            if rng.random() < .3 and p["iq"]:
                p["mr"] = rng.choice([p["iq"] * 4, p["iq"] * 2, p["iq"] * 4 - 1, u // 2])
            p["ng"] = rng.random() < .6 or not cpp
            p["os"] = rng.choice([1, 1, 2, 3])
            p["wx"] = rng.choice([2, 4, 8])
            p["dc"] = rng.choice([1, 2, 2, 4])
            if cpp and not fx and rng.random() < .2:
                p["v"], p["wm"] = [rng.choice([-1, 0, 1, 2]) for _ in range(no)], rng.choice([0, 1])
            if cpp and not fx and p["mv"] in ("pns", "pnd") and rng.random() < .4:
                p["wa"] = [[rng.choice([1, 2, 3, 4]) for _ in range(ni)] for _ in range(no)]
            if cpp and p["oq"] and not fx and not p["v"] and rng.random() < .25:
                p["nl"], p["sl"] = rng.randint(1, 4), rng.choice([0, 0, 1, 2])
            return p

        W = [[rng.randint(-wmax, wmax) for _ in range(n)] for _ in range(m)]
        f, b = par(m, n, False), par(n, m, True)
        if kind in ("inf", "torch"):
            b = dict(f, mv="ideal", bm="none", v=[], wa=[])
        return dict(kind=kind, tr=kind == "cpp" and rng.random() < .4, st=rng.random() < .5, u=u, W0=W, f=f, b=b)

    def random_act(self, rng):
        c = self.c
        ops = ["fwd"] * 6 + ["set", "copy"] + (["grad"] * 4 if c["kind"] == "torch" else []) + (["bwd"] * 4 if c["kind"] in ("cpp", "custom") else [])
        mx = 2 if c["u"] == 8 else 8

        def batch(n):
            X = [[rng.randint(-mx, mx) if rng.random() < .8 else 0 for _ in range(n)] if rng.random() < .9 else [0] * n for _ in range(rng.randint(1, 4))]
            if rng.random() < .6:  # a scale without rounding
                for r in X:
                    r[rng.randrange(n)] = rng.choice([-1, 1]) * mx
            return X
        for _ in range(60):
            op = rng.choice(ops)
            a = dict(op=op)
            if op in ("fwd", "grad"):
                a["x"] = batch(self.n)
            if op == "bwd":
                a["d"] = batch(self.m)
            if op == "grad":
                a["d"] = [[rng.randint(-3, 3) for _ in range(self.m)] for _ in a["x"]]
            if op == "set":
                w = 2 if c["u"] == 8 else 3
                a["w"] = [[rng.randint(-w, w) for _ in range(self.n)] for _ in range(self.m)]
            if op == "copy":
                a["how"] = rng.choice(["deepcopy", "pickle", "sd"])
            try:
                copy.deepcopy(self.mini).step(a)
            except Inexact:
                continue
            return a
        return dict(op="copy", how="sd")

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(5, 30 if tier == "thorough" else 16)


class Inexact(Exception):
    """The result depends on the rounding of floats."""


def p2(n):
    return n > 0 and n & (n - 1) == 0


def integer(v):
    if v.denominator != 1 or abs(v) > 10 ** 6:
        raise Inexact()
    return v


def small(v):
    if abs(v) >= 2 ** 30:
        raise Inexact()


class Mini:
    """The product, only used to generate actions with exactly representable results."""

    def __init__(self, c):
        self.c, self.W, self.ax = c, c["W0"], [None, None]

    def step(self, a):
        c = self.c
        if a["op"] == "set":
            self.W = a["w"]
        elif a["op"] in ("fwd", "grad"):
            self.mm(c["f"], self.W, a["x"], 0)
        elif a["op"] == "bwd":
            self.mm(c["b"], [list(r) for r in zip(*self.W)], a["d"], 1)

    def discr(self, v, q, ex):
        if abs(v.numerator) > 2 ** 24 or v.denominator > 2 ** 20:
            raise Inexact()
        if not q:
            if not ex:
                raise Inexact()
            return integer(v)
        t = v / q
        r = abs(t) - math.floor(abs(t))
        if not (ex and p2(v.denominator)) and abs(r - Fr(1, 2)) < Fr(1, 200):
            raise Inexact()
        return q * Fr(round(t))

    def nm(self, p, nm, x, k):
        am = max(map(abs, x))
        th = lambda v: min(v, p["th"]) if p["th"] > 0 else v
        if nm == "none":
            return Fr(1)
        if nm == "absmax":
            return Fr(th(am))
        if nm == "const":
            return Fr(p["th"] if p["th"] > 0 else 1)
        if nm == "max":
            return Fr(th(max(x)))
        if nm == "avg":
            old = self.ax[k]
            v = Fr(am) if old is None else old + (am - old) * Fr(p["dc"], 4)
            if (16 * v).denominator != 1:
                raise Inexact()
            self.ax[k] = v
            return v
        s = Fr(max(sum(max(v, 0) for v in x), sum(max(-v, 0) for v in x)) * p["wx"] * self.c["u"], 4 * (p["ob"] or self.c["u"]))
        if p["iq"]:
            s = min(s, Fr(th(am) * p["mr"], p["iq"]))
        return max(s, Fr(th(am)))

    def analog(self, p, W, x, nm, red):
        u = self.c["u"]
        z = []
        for v in x:
            w = Fr(v * u) / nm / red
            w = self.discr(w, p["iq"], p2((nm * red).numerator))
            if p["ib"]:
                w = Fr(max(-p["ib"], min(p["ib"], w)))
            if w < 0:
                w = integer(w * (4 - p["ia"]) / 4)
            z.append(w)

        def one(W, z):
            n, r = len(z), []
            for i, w in enumerate(W):
                y = Fr(sum(a * b for a, b in zip(w, z)))
                if p["ir"]:
                    a = Fr(sum(abs(a * b) for a, b in zip(w, z)), 2 * u)
                    y -= a * (a * (a / 20 - Fr(1, 5)) + Fr(1, 2)) * sum(w[j] * z[j] * (1 - Fr(n - j, n) ** 2) for j in range(n))
                if p["v"]:
                    y = y * Fr(4 - p["v"][i], 4) - Fr(p["v"][i] * p["wm"], 2) * sum(z)
                r.append(Fr(y))
            return r

        def fin(r):
            y, ok, ob = [], True, p["ob"]
            for v in r:
                if p["nl"]:
                    small(v.numerator * 8 * (ob or u))
                    v = v * (1 + Fr(p["nl"] * p["sl"], 16)) ** 2 / (1 + abs(v) * Fr(p["nl"], 4 * (ob or u)))
                if v < 0:
                    v = v * (4 - p["oa"]) / 4
                v = self.discr(v, p["oq"], not p["nl"] and not p["ir"])
                if ob:
                    ok &= not (v > ob or v < -ob and p["ng"])
                    v = Fr(max(-ob, min(ob, v)))
                y.append(v)
            return y, ok
        if p["mv"] == "one":
            return fin(one(W, z))
        Wn = [[a * Fr(b, 2) for a, b in zip(w, s)] for w, s in zip(W, p["wa"])] if p["wa"] else W
        pos, neg = one(W, [max(v, 0) for v in z]), one(Wn, [min(v, 0) for v in z])
        if p["mv"] == "pns":
            return fin([a + b for a, b in zip(pos, neg)])
        (a, k), (b, l) = fin(pos), fin(neg)
        return [s + t for s, t in zip(a, b)], k and l

    def mm(self, p, W, X, k):
        if p["mv"] == "ideal":
            return
        cpp = self.c["kind"] in ("cpp", "inf")
        stop = lambda red: p["bm"] == "none" or red > p["mf"] or p["iq"] > 0 and red * p["iq"] > p["mr"]
        groups = [[x] for x in X] if cpp else [X]
        for g in groups:
            nm = [self.nm(p, p["nm"], x, k) for x in g]
            if cpp and nm[0] <= 0:
                continue
            if not cpp and p["nm"] in ("absmax", "max") and all(v == 0 for v in nm):
                continue
            nm = [v if v > 0 else Fr(1) for v in nm]
            red, rnd = 1, 0
            while True:
                r = [self.analog(p, W, x, v, red) for x, v in zip(g, nm)]
                if all(ok for _, ok in r) or stop(red):
                    break
                if rnd == 0 and cpp and p["bm"] == "worst" and p["nm"] != "npsum":
                    nm = nm if p["nm"] == "none" else [self.nm(p, "npsum", g[0], k)]
                else:
                    red *= 2
                rnd = 1
            for (y, _), v in zip(r, nm):
                for w in y:
                    small(w * p["os"] * red * v.numerator)
                    integer(w * p["os"] * red * v)
