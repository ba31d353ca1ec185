"""Adapter of spec/Inference.tla: programming, drift and compensation of inference tiles."""
import copy
import io
import pickle

import torch

from aihwkit.exceptions import ModuleError
from aihwkit.inference import (
    GlobalDriftCompensation, drift_analog_weights, program_analog_weights)
from aihwkit.inference.compensation.drift import GlobalDriftCompensationWithExactReference, PerColumnDriftCompensation
from aihwkit.inference.converter.conductance import (
    SinglePairConductanceConverter, NPairConductanceConverter, DualPairConductanceConverter, CustomPairConductanceConverter,
    SingleDeviceConductanceConverter)
from aihwkit.inference.noise.custom import StateIndependentNoiseModel
from aihwkit.inference.noise.pcm import CustomDriftPCMLikeNoiseModel
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import InferenceRPUConfig, TorchInferenceRPUConfig, IOParameters, MappingParameter

from common import T, qv

U = 2048.0


class HalfNoiseModel(StateIndependentNoiseModel):
    """Every conductance is programmed to half of its target."""

    def apply_programming_noise_to_conductance(self, g_target):
        return g_target * .5


def converter(v):
    k, f = v["kind"], [float(x) for x in v["f"]]
    r = dict(g_max=float(v["gmax"]), g_min=float(v["gmin"]))
    if k == "single":
        return SinglePairConductanceConverter(**r)
    if k == "dev":
        return SingleDeviceConductanceConverter(**r)
    if k == "npair":
        return (DualPairConductanceConverter if len(f) == 2 and f[1] == 3 else NPairConductanceConverter)(f_lst=f, **r)
    return CustomPairConductanceConverter(f_lst=f, g_lst=[[float(x) for x in g] for g in v["g"]], **r)


def model(c, nm):
    g = converter(c["conv"])
    if nm in ("lo", "hi"):
        m = c["conv"]["gmax"]
        return CustomDriftPCMLikeNoiseModel(
            dict(g_lst=[0.0, m / 2.0, float(m)], nu_mean_lst=[0.0, 1.0, 0.0] if nm == "lo" else [0.0, 0.0, 1.0],
                 nu_std_lst=[0.0, 0.0, 0.0]), g_converter=g, prog_noise_scale=0.0, read_noise_scale=0.0, t_0=1.0)
    return (HalfNoiseModel if nm == "half" else StateIndependentNoiseModel)(
        g_converter=g, prog_noise_scale=1.0 if nm == "rand" else 0.0, drift_nu_mean=1.0, drift_nu_std=0.0, read_noise_scale=0.0,
        t_0=1.0)


def rpu(c):
    comp = dict(none=lambda: None, exact=GlobalDriftCompensationWithExactReference, column=PerColumnDriftCompensation)
    comp["global"] = GlobalDriftCompensation
    return (InferenceRPUConfig if c["tile"] == "cpp" else TorchInferenceRPUConfig)(
        forward=IOParameters(is_perfect=True), mapping=MappingParameter(digital_bias=True, weight_scaling_omega=0.0),
        noise_model=model(c, c["nm"]), drift_compensation=comp[c["comp"]]())


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.layer = AnalogLinear(c["X"], c["D"], False, rpu(c))
        self.layer.set_weights(T(c["W0"], U))
        self.y, self.G, self.r = [], [], "-"
        self.den = [0] * c["D"]
        self.rnd = self.prnd = False  # weights / programmed weights are random
        self.nm, self.t, self.lastprog = c["nm"], 0, None
        self.mkopt()

    @property
    def tile(self):
        return self.layer.analog_module

    def mkopt(self):
        self.opt = AnalogSGD(self.layer.parameters(), lr=self.c["lr"] / U)

    def w(self):
        return self.layer.get_weights()[0]

    def programmed(self, nm):
        self.nm = nm
        self.rnd = self.prnd = nm == "rand"
        self.t = 0
        self.den = [0] * self.c["D"]

    def step(self, a):
        op, c, L = a["op"], self.c, self.layer
        self.y, self.G, self.r = [], [], "-"
        L.eval()
        if op == "set":
            L.set_weights(T(a["w"], U), **(dict(realistic=True) if a["real"] else {}))
            self.rnd = False
            if a["real"]:
                self.programmed(self.nm)
        elif op == "train":
            L.train()
            self.opt.zero_grad()
            L(T(a["x"])).backward(T(a["d"]))
            self.opt.step()
        elif op == "program":
            nm = model(c, a["nm"]) if a["nm"] else None
            if a["how"] == "layer":
                L.program_analog_weights(nm) if nm is not None else L.program_analog_weights()
            elif a["how"] == "utils":
                program_analog_weights(L, nm)
            else:
                self.tile.program_weights(from_reference=a["fr"], **(dict(noise_model=nm) if nm is not None else {}))
            self.programmed(a["nm"] or self.nm)
        elif op == "drift":
            if self.tile.programmed_weights is None:
                self.programmed(self.nm)
            how = a.get("how", "layer")
            if how == "utils":
                drift_analog_weights(L, float(a["t"]))
            elif how == "tile":
                self.tile.drift_weights(float(a["t"]))
            else:
                L.drift_analog_weights(float(a["t"]))
            self.rnd, self.t = self.prnd, a["t"]
            w = self.w().abs()
            self.den = (w.sum(1) if c["comp"] == "column" else w.sum().expand(c["D"])).mul(U).round().long().tolist()
        elif op == "fwd":
            L.train(a["mode"] == "train")
            with torch.no_grad():
                y = L(T(a["x"]))
            if not self.rnd:
                self.y = qv(y / (self.tile.alpha if a["mode"] == "eval" and c["comp"] != "none" else 1.0), U, .1)
        elif op == "refuse":
            L.train()
            try:
                (L.drift_analog_weights if a["what"] == "drift" else L.program_analog_weights)()
            except ModuleError:
                self.r = "refused"
            L.eval()
        elif op == "conv":
            g = converter(c["conv"])
            w = T(a["w"], U)
            G, par = g.convert_to_conductances(w)
            ints = torch.tensor(a["w"])
            gs = int(ints.max() - ints.min()) if c["conv"]["kind"] == "dev" else int(ints.abs().max()) * self.prod()
            if gs:
                self.G = [qv(m * gs, 1.0, .1) for m in (G if isinstance(G, list) else [G])]
            self.y = qv(g.convert_back_to_weights(G, par), U, .01)
        elif op == "copy":
            if a["how"] == "deepcopy":
                self.layer = copy.deepcopy(L)
            elif a["how"] == "pickle":
                self.layer = pickle.loads(pickle.dumps(L))
            else:
                buf = io.BytesIO()
                torch.save(L.state_dict(), buf)
                buf.seek(0)
                if a["how"] == "sd":
                    self.layer = AnalogLinear(c["X"], c["D"], False, rpu(c))
                self.layer.load_state_dict(torch.load(buf, weights_only=False))
            self.mkopt()
        else:
            raise ValueError(op)

    def prod(self):
        p = 1
        for f in self.c["conv"]["f"]:
            p *= f
        return p

    def rel(self):
        """Relations of random weights."""
        if not self.prnd:
            return "-"
        t, c = self.tile, self.c
        P, R = t.programmed_weights, t.reference_combined_weights
        ok = True
        if R is not None:  # (the reference is forgotten when weights are set)
            s = R.abs().max() * .2 / (c["conv"]["gmax"] - c["conv"]["gmin"])
            ok &= bool((P != R).any()) and bool(((P - R).abs() < 20 * s).all())
        if self.rnd:
            W = self.w()
            ok &= torch.allclose(W, P / (self.t + 1), atol=1e-6)
            if c["comp"] in ("global", "column"):
                # (not for outputs whose readout is below the minimal readout)
                big = (P.abs().mean(1) if c["comp"] == "column" else P.abs().mean()) > 1e-3 * (self.t + 1) * c["X"] * c["D"]
                ok &= bool(((t.alpha - self.t - 1).abs() < 1e-3).logical_or(~big).all())
            elif c["comp"] == "exact" and R is not None and any(self.den) and W.abs().mean() > 1e-3:
                ok &= torch.allclose(t.alpha, R.abs().mean() / W.abs().mean(), rtol=1e-3)
        return "ok" if ok else "bad"

    def obs(self):
        c = self.c
        al = []
        if c["comp"] != "none" and not self.prnd:
            al = self.tile.alpha.detach().expand(c["D"]) * torch.tensor([d or 7 for d in self.den])
            al = qv(torch.where(al < 3, torch.zeros_like(al), al), 1.0, .2)
            # (readouts that drift from or to zero are limited to the minimal readout)
            al = [a if d or a < 7000 else 7 for a, d in zip(al, self.den)]
        return dict(W=[] if self.rnd else qv(self.w(), U, .01), y=self.y, G=self.G, r=self.r, al=al, rel=self.rel())

    @staticmethod
    def rand_w(c, rng, m=None):
        m = m or 480
        lohi = c["nm"] in ("lo", "hi")
        k = rng.choice([1, 2, 3])
        if lohi:
            return [[m * k * rng.choice([-2, -1, 0, 1, 2]) for _ in range(c["X"])] for _ in range(c["D"])]
        W = [[m * rng.randint(-6, 6) for _ in range(c["X"])] for _ in range(c["D"])]
        if c["nm"] != "rand" and c["conv"]["kind"] != "dev" and rng.random() < .2:
            W[rng.randrange(c["D"])] = [0] * c["X"]
        if not any(x for r in W for x in r) or c["conv"]["kind"] == "dev":
            W[0][0], W[-1][-1] = 2 * m, -m
        return W

    @staticmethod
    def random_cfg(rng, tier):
        k = rng.choice(["single", "single", "single", "npair", "table", "dev"])
        v = dict(kind=k, gmin=0, gmax=24, f=[1], g=[])
        if k == "single":
            v.update(gmin=rng.choice([0, 0, 4]), gmax=rng.choice([24, 30]))
        elif k == "npair":
            v.update(gmin=rng.choice([0, 2]), gmax=20, f=rng.choice([[1, 2], [1, 3], [2, 1], [1, 1, 2], [2]]))
        elif k == "table":
            f, g, lo = rng.choice([([1], [[0, 0, 20], [20, 0, 0]], 0), ([2], [[4, 4, 24], [24, 4, 4]], 4),
                                   ([1], [[0, 0, 0, 12, 24], [24, 12, 0, 0, 0]], 0),
                                   ([1, 1], [[0, 0, 0, 20, 20], [20, 20, 0, 0, 0], [0, 0, 0, 0, 20], [20, 0, 0, 0, 0]], 0)])
            v.update(f=f, g=g, gmin=lo, gmax=max(map(max, g)))
        elif k == "dev":
            v.update(zip(("gmin", "gmax"), rng.choice([(0, 24), (8, 24), (12, 24)])))
        c = dict(name="r", tile=rng.choice(["cpp", "torch"]), X=rng.randint(1, 4), D=rng.randint(1, 3), conv=v, lr=480,
                 comp=rng.choice(["none", "global", "exact", "column"]), nm="uni")
        c["nm"] = rng.choice(["uni", "half"] + (["rand"] if k == "single" else []) +
                             (["lo", "hi", "lo", "hi"] if k == "single" and not v["gmin"] else []))
        if k == "dev" and c["X"] * c["D"] < 2:
            c["X"] = 2
        c["W0"] = Adapter.rand_w(c, rng)
        return c

    def random_act(self, rng):
        c = self.c
        for _ in range(40):
            op = rng.choice(["set", "train", "program", "program", "drift", "drift", "drift", "drift", "fwd", "fwd", "fwd", "refuse",
                             "conv", "copy"])
            a = dict(op=op)
            if op == "set":
                a.update(w=self.rand_w(c, rng), real=rng.random() < .4)
                if a["real"] and not self.prog_ok(T(a["w"], U), self.nm):
                    continue
            elif op == "train":
                if self.rnd:
                    continue
                B = rng.randint(1, 2)
                a.update(x=[[rng.randint(-1, 1) for _ in range(c["X"])] for _ in range(B)],
                         d=[[rng.randint(-1, 1) for _ in range(c["D"])] for _ in range(B)])
            elif op == "program":
                a.update(how=rng.choice(["layer", "tile", "tile", "utils"]), nm="", fr=True)
                if rng.random() < .2:
                    a["nm"] = rng.choice(["uni", "half"] + (["rand"] if c["conv"]["kind"] == "single" else []))
                if a["how"] == "tile":
                    a["fr"] = rng.random() < .5
                if not self.target_ok(a["fr"], a["nm"] or self.nm):
                    continue
            elif op == "drift":
                a.update(t=rng.choice([0, 1, 1, 2, 3, 4]), how=rng.choice(["layer", "tile", "utils"]))
                if self.tile.programmed_weights is None:
                    if not self.target_ok(True, self.nm):
                        continue
                    ref = self.tile.reference_combined_weights
                    w = ref if ref is not None else self.w()
                    if self.nm == "half":
                        w = w / 2
                    rnd = self.nm == "rand"
                else:
                    w, rnd = self.tile.programmed_weights, self.prnd
                if not rnd and not self.quot_ok(w, a["t"] + 1):
                    continue
            elif op == "fwd":
                a.update(mode=rng.choice(["eval", "eval", "train"]),
                         x=[[rng.randint(-3, 3) for _ in range(c["X"])] for _ in range(rng.randint(1, 3))])
            elif op == "refuse":
                a["what"] = rng.choice(["drift", "program"])
            elif op == "conv":
                a["w"] = [[rng.randint(-20, 20) for _ in range(c["X"])] for _ in range(c["D"])]
                fl = [x for r in a["w"] for x in r]
                if c["conv"]["kind"] == "dev" and max(fl) == min(fl):
                    continue
            elif op == "copy":
                a["how"] = rng.choice(["deepcopy", "pickle", "sd", "same"])
            return a
        return None

    # which actions stay on the integer grid (as in the specification)
    def quot_ok(self, w, q):
        v = self.c["conv"]
        w = (w * U).round().long()
        if v["kind"] != "dev":
            return bool((w % q == 0).all())
        dl = int(w.max() - w.min())
        return dl != 0 and bool(((w - w.min()) % q == 0).all()) and (v["gmin"] * (dl // q)) % (v["gmax"] - v["gmin"]) == 0 \
            and dl % q == 0

    def prog_ok(self, w, nm):
        k = self.c["conv"]["kind"]
        wi = (w * U).round().long()
        mx = int(wi.abs().max())
        if nm in ("lo", "hi") and not all(abs(x) in (0, mx) or 2 * abs(x) == mx for x in wi.flatten().tolist()):
            return False
        if k == "dev" and (nm == "rand" or int(wi.max()) == int(wi.min())):
            return False
        if nm == "half" and not self.quot_ok(w, 2):
            return False
        return nm != "rand" or mx > 0

    def target_ok(self, fr, nm):
        ref = self.tile.reference_combined_weights
        if fr and ref is not None:
            return self.prog_ok(ref, nm)
        return not self.rnd and self.prog_ok(self.w(), nm)

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(6, 34 if tier == "thorough" else 18)
