"""Adapter of spec/Maintain.tla: decay, drift, diffusion, clipping, column reset, hidden parameters."""
import copy
import io
import pickle

import torch

from aihwkit.nn import AnalogLinear
from aihwkit.simulator import configs as C
from aihwkit.simulator.configs import (
    SingleRPUConfig, UnitCellRPUConfig, FloatingPointRPUConfig, FloatingPointDevice, IdealDevice, ConstantStepDevice, LinearStepDevice,
    VectorUnitCell, MappingParameter, PulseType, IOParameters, UpdateParameters, WeightClipParameter, WeightClipType)
from aihwkit.simulator.parameters.helpers import parameters_to_bindings

from common import T, qv

U = 16384.0
PAR = dict(hi="max_bound", lo="min_bound", sc="decay_scales", rb="reset_bias", df="diffusion_rates")


def rpu(c):
    P = IOParameters(is_perfect=True)
    mp = MappingParameter(digital_bias=False, weight_scaling_omega=0.0)
    life, df = float(c["L"]), 0.01 if c["df"] else 0.0
    if c["kind"] == "fp":
        dr = dict(drift=C.SimpleDriftParameter(nu=1.0, t_0=float(c["t0"]), reset_tol=1e-5)) if c["drift"] else {}
        return FloatingPointRPUConfig(device=FloatingPointDevice(lifetime=life, diffusion=df, **dr), mapping=mp)
    if c["kind"] == "ideal":
        return SingleRPUConfig(device=IdealDevice(lifetime=life, diffusion=df), forward=P, backward=P,
                               update=UpdateParameters(pulse_type=PulseType.NONE), mapping=mp)
    up = UpdateParameters(pulse_type=PulseType.DETERMINISTIC_IMPLICIT, desired_bl=64, update_bl_management=False,
                          update_management=False)
    dr = dict(drift=C.DriftParameter(nu=1.0, t_0=float(c["t0"]), reset_tol=1e-5, w_offset=c["off"] / U)) if c["drift"] else {}
    noisy = dict(write_noise_std=.05, gamma_up_dtod=0.0, gamma_down_dtod=0.0, mult_noise=False) if c["wn"] else {}
    devs = [(LinearStepDevice if c["wn"] else ConstantStepDevice)(**noisy, dw_min=c["u"] / U, dw_min_dtod=0.0, dw_min_std=0.0, up_down=0.0, up_down_dtod=0.0, w_max=h / U,
                               w_min=lo / U, w_max_dtod=0.0, w_min_dtod=0.0, reset_std=0.0, reset_dtod=0.0, reset=c["rb"] / U,
                               lifetime=life, lifetime_dtod=0.0, diffusion=df, diffusion_dtod=0.0, **dr)
            for lo, h in zip(c["lo"], c["hi"])]
    if c["kind"] == "const":
        return SingleRPUConfig(device=devs[0], forward=P, backward=P, update=up, mapping=mp)
    return UnitCellRPUConfig(device=VectorUnitCell(unit_cell_devices=devs, gamma_vec=[1.0, 1.0]), forward=P, backward=P,
                             update=up, mapping=mp)


class Shadow:
    """The specified state: which crosspoints are known, and which actions stay on the grid."""

    def __init__(self, c):
        self.c, self.float = c, c["kind"] in ("fp", "ideal")
        self.idx = [(k, i, j) for k in range(c["n"]) for i in range(c["D"]) for j in range(c["X"])]
        sc = {0: 2, 1: 0}.get(c["L"], 1)
        self.hp = {e: dict(hi=c["hi"][e[0]], lo=c["lo"][e[0]], sc=sc, rb=c["rb"], df=int(c["df"])) for e in self.idx}
        self.t = -1
        self.dr = {}
        self.set(c["W0"])

    def bd(self, e, w):
        return w if self.float else max(self.hp[e]["lo"], min(self.hp[e]["hi"], w))

    def set(self, w):
        self.A = {e: self.bd(e, w[e[0]][e[1]][e[2]]) for e in self.idx}
        self.un = {e: False for e in self.idx}

    def quart(self, e, a2):
        if self.float:
            return 4 if self.c["L"] <= 1 else 4 - a2
        return 4 + a2 * (self.hp[e]["sc"] - 2)

    def rb(self, e):
        return 0 if self.float else self.hp[e]["rb"]

    def fresh(self, e):
        return self.t >= 0 and self.dr[e][2] != self.A[e]

    def ok(self, a):
        op = a["op"]
        if op == "decay" or (op == "post" and self.c["L"]):
            return all(self.un[e] or (self.A[e] - self.rb(e)) * self.quart(e, a.get("v", 2)) % 4 == 0 for e in self.idx)
        if op == "drift" and self.c["drift"]:
            t = max(self.t, 0) + a["v"]
            for e in self.idx:
                ti, w0, _ = self.dr[e] if self.t >= 0 else (0, self.A[e], 0)
                if self.un[e] or not (self.fresh(e) or (w0 + self.c["off"]) % max(t - ti, 1) == 0):
                    return False
        if op in ("reset", "hp"):
            return not self.float
        return True

    def decay(self, a2):
        for e in self.idx:
            qu, r = self.quart(e, a2), self.rb(e)
            self.A[e] = self.bd(e, (self.A[e] - r) * qu // 4 + r)
            self.un[e] &= qu != 0

    def diffuse(self):
        for e in self.idx:
            if self.c["df"] if self.float else self.hp[e]["df"]:
                self.un[e] = True

    def step(self, a):
        op, c = a["op"], self.c
        if op == "set":
            self.set(a["w"])
        elif op == "upd":
            for e in self.idx:
                if e[1:] == (a["i"] - 1, a["j"] - 1):
                    self.A[e] = self.bd(e, self.A[e] + a["v"] * c["u"])
        elif op == "decay":
            self.decay(a["v"])
        elif op == "diffuse":
            self.diffuse()
        elif op == "post":
            if c["df"]:
                self.diffuse()
            if c["L"]:
                self.decay(2)
        elif op == "drift" and c["drift"]:
            if self.t < 0:
                self.t, self.dr = 0, {e: (0, self.A[e], self.A[e]) for e in self.idx}
            self.t += a["v"]
            for e in self.idx:
                ti, w0, _ = self.dr[e]
                if self.fresh(e):
                    self.A[e] = w = self.A[e]
                    self.dr[e] = (self.t, w, w)
                else:
                    self.A[e] = self.bd(e, int((w0 + c["off"]) / max(self.t - ti, 1)) - c["off"])
                    self.dr[e] = (ti, w0, self.A[e])
        elif op == "reset" and a["p"]:
            n = c["X"] if a["n"] < 0 else a["n"]
            cols = {(a["from"] + m) % c["X"] for m in range(n)}
            for e in self.idx:
                if e[2] in cols:
                    self.A[e], self.un[e] = self.bd(e, self.hp[e]["rb"]), False
        elif op == "clip":
            for e in self.idx:
                self.A[e] = self.bd(e, max(-a["v"], min(a["v"], self.A[e])))
        elif op == "hp":
            self.hp[(a["k"] - 1, a["i"] - 1, a["j"] - 1)][a["what"]] = a["v"]
            for e in self.idx:
                self.A[e] = self.bd(e, self.A[e])


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.sh, self.stale = Shadow(c), False
        self.layer = AnalogLinear(c["X"], c["D"], False, rpu(c))
        self.lr()
        self.set(c["W0"])

    @property
    def tile(self):
        return self.layer.analog_module

    def lr(self):
        self.tile.set_learning_rate(self.c["u"] / U)

    def set(self, w):
        if self.c["kind"] == "vec":
            h = self.tile.get_hidden_parameters()
            for k, m in enumerate(w):
                h[f"hidden_weights_{k}"] = T(m, U)
            self.tile.set_hidden_parameters(h)
        else:
            self.layer.set_weights(T(w[0], U))

    def step(self, a):
        op, c = a["op"], self.c
        t = self.tile
        self.sh.step(a)
        # (the seen weights may lag behind parameter changes until they are written)
        self.stale = op == "hp" or (self.stale and not (op in ("set", "clip") or (op == "reset" and a["p"])))
        if op == "set":
            self.set(a["w"])
        elif op == "upd":
            x, d = torch.zeros(1, c["X"]), torch.zeros(1, c["D"])
            x[0, a["j"] - 1], d[0, a["i"] - 1] = 1.0, -float(a["v"])
            t.update(x, d)
        elif op == "decay":
            t.tile.decay_weights(a["v"] / 2.0)
        elif op == "drift":
            t.tile.drift_weights(float(a["v"] * c["t0"]))
        elif op == "diffuse":
            t.tile.diffuse_weights()
        elif op == "post":
            t.post_update_step()
        elif op == "reset":
            t.reset_columns(a["from"], a["n"], float(a["p"]))
        elif op == "clip":
            t.tile.clip_weights(parameters_to_bindings(
                WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=a["v"] / U), t.get_data_type()))
        elif op == "hp":
            h = t.get_hidden_parameters()
            n = PAR[a["what"]] + (f"_{a['k'] - 1}" if c["kind"] == "vec" else "")
            v = h[n].clone()
            v[a["i"] - 1, a["j"] - 1] = a["v"] / 2.0 if a["what"] == "sc" else a["v"] * .01 if a["what"] == "df" else a["v"] / U
            h[n] = v
            t.set_hidden_parameters(h)
        elif op == "copy":
            if a["how"] == "deepcopy":
                self.layer = copy.deepcopy(self.layer)
            elif a["how"] == "pickle":
                self.layer = pickle.loads(pickle.dumps(self.layer))
            else:
                buf = io.BytesIO()
                torch.save(self.layer.state_dict(), buf)
                buf.seek(0)
                if a["how"] == "sd":
                    self.layer = AnalogLinear(c["X"], c["D"], False, rpu(c))
                self.layer.load_state_dict(torch.load(buf, weights_only=False))
            self.lr()
        else:
            raise ValueError(op)

    def obs(self):
        c, sh = self.c, self.sh
        w = self.layer.get_weights()[0]
        inb = True
        if sh.float:
            A = [w]
        else:
            h = self.tile.get_hidden_parameters()
            A = [h[f"hidden_weights_{k}"] for k in range(2)] if c["kind"] == "vec" else [w]
            if c["wn"]:
                p = h["persistent_weights"]
                w = p if self.stale else torch.where((w - p).abs() <= 8 * .05 * c["u"] / U, p, w)
                A = [p]
            for k in range(c["n"]):
                s = f"_{k}" if c["kind"] == "vec" else ""
                inb &= bool(((A[k] <= h["max_bound" + s] + 1e-6) & (A[k] >= h["min_bound" + s] - 1e-6)).all())
        A, w = [qv(m, U, .05) for m in A], qv(w, U, .05)
        for k, i, j in sh.idx:
            if sh.un[(k, i, j)]:
                A[k][i][j] = w[i][j] = 0
        return dict(A=A, W=w, inb="yes" if inb else "no")

    @staticmethod
    def random_cfg(rng, tier):
        k = rng.choice(["const", "const", "const", "vec", "fp", "ideal"])
        n = 2 if k == "vec" else 1
        fl = k in ("fp", "ideal")
        drift = k != "ideal" and rng.random() < .8
        off = rng.choice([0, 0, 840, 1680]) if not fl and drift else 0
        c = dict(name="r", kind=k, X=rng.randint(1, 4), D=rng.randint(1, 3), n=n, lo=[-840 * rng.randint(3, 12) for _ in range(n)],
                 hi=[840 * rng.randint(3, 12) for _ in range(n)], L=rng.choice([0, 1, 2, 2]) if not fl else rng.choice([0, 1, 2, 2]),
                 drift=drift, wn=k == "const" and rng.random() < .4, off=off, t0=rng.choice([1, 2]), rb=0 if fl else rng.choice([0, 0, 840, -1680]), df=rng.random() < .2,
                 u=840)
        if off and rng.random() < .5:
            # (drift beyond the bounds)
            c["lo"] = [-420 * rng.randint(0, 2) for _ in range(n)]
        c["W0"] = Adapter.rand_w(c, rng)
        return c

    @staticmethod
    def rand_w(c, rng):
        return [[[840 * rng.randint(-14, 14) for _ in range(c["X"])] for _ in range(c["D"])] for _ in range(c["n"])]

    def random_act(self, rng):
        c = self.c
        for _ in range(40):
            e = dict(k=rng.randint(1, c["n"]), i=rng.randint(1, c["D"]), j=rng.randint(1, c["X"]))
            op = rng.choice(["set", "upd", "upd", "upd", "decay", "decay", "drift", "drift", "drift", "drift", "drift", "diffuse",
                             "post", "reset", "clip", "hp", "hp", "copy"])
            a = dict(op=op)
            if op == "set":
                a["w"] = self.rand_w(c, rng)
            elif op == "upd":
                a.update(i=e["i"], j=e["j"], v=rng.choice([1, -1, 2, -2, 3]))
            elif op == "decay":
                a["v"] = rng.choice([0, 1, 2, 2])
            elif op == "drift":
                a["v"] = rng.choice([0, 1, 1, 1, 2, 3, 4])
            elif op == "diffuse" and rng.random() < .5:
                continue
            elif op == "reset":
                n = rng.choice([-1] + list(range(c["X"] + 1)))
                a.update(n=n, p=rng.choice([0, 1, 1, 1]), **{"from": rng.randrange(c["X"]) if n >= 0 else 0})
            elif op == "clip":
                a["v"] = 840 * rng.randint(1, 10)
            elif op == "hp":
                w = rng.choice(["hi", "lo", "sc", "rb", "df", "df"])
                a.update(what=w, v=840 * rng.randint(1, 9) if w == "hi" else -840 * rng.choice([1, 2, 5, 8, 9]) if w == "lo" else
                         rng.randint(0, 2) if w == "sc" else 840 * rng.randint(-2, 2) if w == "rb" else
                         rng.choice([0, 0, 0, 1]), **e)
            elif op == "copy":
                a["how"] = rng.choice(["deepcopy", "pickle", "sd", "same"])
            if self.sh.ok(a):
                return a
        return None

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(6, 34 if tier == "thorough" else 20)
