"""Adapter of spec/Quant.tla: quantized layers."""
import copy
import io

import torch
from torch import nn

from aihwkit.inference.calibration.calibration import calibrate_quantization_ranges
from aihwkit.nn.low_precision_conversion import convert_to_quantized
from aihwkit.nn.low_precision_modules import quantization_states as qs
from aihwkit.nn.low_precision_modules.conversion_utils import append_default_conversions
from aihwkit.nn.low_precision_modules.quantized_base_modules import QuantizedActivation
from aihwkit.simulator.digital_low_precision.config_utils import CurrentMinMaxEstimatorParams, RunningMinMaxEstimatorParams
from aihwkit.simulator.digital_low_precision.range_estimators import RangeEstimators
from aihwkit.simulator.parameters.quantization import ActivationQuantConfig, QuantizationConfig, QuantizationMap, WeightQuantConfig

from common import T, qv, OFF

EST = dict(cur=RangeEstimators.current_minmax, all=RangeEstimators.allminmax, run=RangeEstimators.running_minmax)
ST = dict(estimate_ranges="est", estimate_ranges_train="tr", fix_ranges="fix", learn_ranges="learn")


def params(est, pct=False):
    return dict(cur=CurrentMinMaxEstimatorParams(25. if pct else None), all=None, run=RunningMinMaxEstimatorParams(.5))[est]


def manager_obs(m, unit):
    z = m.quantizer
    ready = bool(z.is_initialized)
    e = m.range_estimator
    flat = lambda t: qv(t.detach().reshape(-1), unit) if t is not None else []
    sym = z.symmetric
    sg = sym and z._signed is not None and bool(z._signed)
    return dict(st=ST[m.state.name], d=flat(z._delta) if ready else [], z=qv(torch.round(z._zero_float.detach()).reshape(-1)) if ready and not sym else [],
                sg=sg, xn=flat(e.current_xmin), xx=flat(e.current_xmax),
                tr=bool(z._delta.requires_grad) if sym or z._zero_float.requires_grad == z._delta.requires_grad else OFF)


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.plan = []
        self.xu = 16 if c["ib"] else 1
        self.au = 16 if c["ab"] else 1
        self.dtype = torch.float64 if c["f64"] else torch.float32
        self.net = self.new()
        self.put(c["W0"], c["b0"])
        self.ck = None
        self.n = dict(w=0, a=0, i=0)
        self.clear()

    def ten(self, x):
        return torch.tensor(x, dtype=self.dtype)

    def new(self):
        c = self.c
        bias, W = c["b0"] != [], c["W0"]
        if c["kind"] == "lin":
            m = nn.Linear(len(W[0]), len(W), bias=bias)
        elif c["kind"] == "conv":
            m = nn.Conv2d(1, len(W), (1, len(W[0])), stride=(1, c["s"]), padding=(0, c["p"]), bias=bias, padding_mode=c["pm"])
        elif c["kind"] == "emb":
            m = nn.Embedding(len(W), len(W[0]))
        else:
            m = nn.LayerNorm(2, eps=0., elementwise_affine=W != [])
        net = nn.Sequential(m.to(self.dtype))
        qm = QuantizationMap()
        qm.default_qconfig = QuantizationConfig(
            ActivationQuantConfig(c["ab"], c["as"], EST[c["ae"]], params(c["ae"])),
            WeightQuantConfig(c["wb"], c["ws"], c["pc"], EST[c["we"]], params(c["we"], c["pct"])))
        append_default_conversions(qm)
        if c["ib"]:
            qm.input_activation_qconfig_map["0"] = ActivationQuantConfig(c["ib"], c["is"], EST[c["ie"]], params(c["ie"]))
        return convert_to_quantized(net, qm).to(self.dtype)

    @property
    def lay(self):
        return self.net[0].module if self.c["ib"] else self.net[0]

    def put(self, W, b):
        with torch.no_grad():
            if W:
                self.lay.weight.copy_(self.ten(W).view(self.lay.weight.shape))
            if b:
                self.lay.bias.copy_(self.ten(b))

    def clear(self):
        self.y, self.gx, self.gw, self.gb, self.gd, self.err = [], [], [], [], [], False

    def managers(self):
        c = self.c
        r = {}
        if c["ib"]:
            r["i"] = self.net[0].input_quantizer.activation_quantizer
        if c["wb"]:
            r["w"] = self.lay.weight_quantizer
        if c["ab"] and c["kind"] != "emb":
            r["a"] = self.lay.activation_quantizer
        return r

    def inp(self, x):
        k = self.c["kind"]
        if k == "emb":
            return torch.tensor(x)
        t = self.ten(x)
        return t.view(len(x), 1, 1, -1) if k == "conv" else t

    def forward(self, a):
        c = self.c
        x = self.inp(a["x"])
        if c["kind"] != "emb":
            x.requires_grad_(True)
        keep = x.detach().clone()
        for p in self.net.parameters():
            p.grad = None
        try:
            y = self.net(x)
        except Exception as e:  # pylint: disable=broad-except
            if isinstance(e, AssertionError) or type(e).__name__ == "QuantizerNotInitializedError":
                self.err = True
                return
            raise
        assert torch.equal(x.detach(), keep), "input changed"
        assert y.dtype == self.dtype
        n = len(a["x"])
        u = 16 * self.xu
        self.y = qv(y.detach().reshape(n, -1), u * self.au)
        if a["g"] == []:
            return
        loss = (y.reshape(n, -1) * self.ten(a["g"])).sum()
        if loss.requires_grad:
            loss.backward()
        z = lambda t: torch.zeros_like(t) if t.grad is None else t.grad
        if c["kind"] not in ("emb", "ln"):
            self.gx = qv(z(x).reshape(n, -1), 16)
        # parameters are not part of the graph when the cached ones are used
        W, b = self.lay.weight, getattr(self.lay, "bias", None)
        if c["W0"]:
            if W.grad is not None:
                self.gw = qv(W.grad.reshape(W.shape[0], -1), self.xu)
        if c["b0"] and b.grad is not None:
            self.gb = qv(b.grad)
        ms = self.managers()
        used = dict(i=bool(c["ib"]) and self.net[0].input_quantizer._quant_a, w=bool(c["W0"]) and self.lay._quant_w and not (c["W0"] and W.grad is None),
                    a=self.lay._quant_a)
        for k, v in (("i", 1), ("w", 1), ("a", self.au)):
            if k not in ms or not used[k]:
                self.gd.append([])
                continue
            qz = ms[k].quantizer
            gr = []
            if qz._delta.requires_grad:
                gr.append(qv((z(qz._delta) * qz._delta.detach()).reshape(-1), u * v))
                gr.append(qv(z(qz._zero_float).reshape(-1), u * v) if not qz.symmetric else [])
            else:
                gr = [[], []]
            self.gd.append(gr)

    def count(self, a):
        """Number of range estimates, an upper bound."""
        for k, m in self.managers().items():
            if m.state.name == "estimate_ranges" or (m.state.name == "estimate_ranges_train" and m.training):
                self.n[k] += 1

    def step(self, a):
        op = a["op"]
        self.clear()
        net = self.net
        if op == "fwd":
            self.count(a)
            self.forward(a)
        elif op == "mode":
            net.train(a["tm"])
        elif op == "state":
            name = dict(est="estimate_ranges", tr="estimate_ranges_train", fix="fix_ranges", learn="learn_ranges")[a["st"]]
            if a["which"] != "all":
                name = name.replace("_ranges", {"w": "_weight_ranges", "a": "_act_ranges"}[a["which"]])
            getattr(qs, name)(net)
        elif op == "reset":
            qs.reset_act_ranges(net)
            self.n["a"] = self.n["i"] = 0
        elif op == "quant":
            qs.set_quant_state(net, a["w"], a["a"])
        elif op == "enable":
            qs.enable_quant_states(net)
        elif op == "freeze":
            for p in (self.lay.weight, getattr(self.lay, "bias", None)):
                if p is not None:
                    p.requires_grad_(not a["on"])
        elif op == "cache":
            self.lay.caching = a["on"]
        elif op == "setw":
            self.put(a["W"], a["b"])
        elif op == "nudge":
            with torch.no_grad():
                for m in self.managers().values():
                    for p in m.quantizer.parameters():
                        if p.requires_grad:
                            p.mul_(2.)
        elif op == "save":
            self.ck = {k: v.detach().clone() for k, v in net.state_dict().items()}
            self.ckn = dict(self.n)
        elif op == "load":
            net.load_state_dict(self.ck)
            self.n = dict(self.ckn)
        elif op == "reload":
            buf = io.BytesIO()
            torch.save(net.state_dict(), buf)
            buf.seek(0)
            self.net = self.new()
            self.net.load_state_dict(torch.load(buf, weights_only=False))
        elif op == "copy":
            if a["how"] == "pickle":
                buf = io.BytesIO()
                torch.save(net, buf)
                buf.seek(0)
                self.net = torch.load(buf, weights_only=False)
            else:
                self.net = copy.deepcopy(net)
        elif op == "twin":
            t = self.new()
            t.load_state_dict(net.state_dict())
            o = self.new()
            x = self.inp(a["x"])
            t(x)
            o(x)
            if t.state_dict().keys() == o.state_dict().keys():
                t.load_state_dict(o.state_dict())
        elif op == "calib":
            data = [(self.inp(x), 0) for x in a["xs"]]
            for _ in range(min(a["n"], len(data))):
                for k in self.n:
                    self.n[k] += 1
            calibrate_quantization_ranges(net, data, a["n"])
        else:
            raise ValueError(op)

    def obs(self):
        c = self.c
        W = self.lay.weight
        ms = self.managers()
        units = dict(w=16, i=16, a=16 * self.xu * self.au)
        return dict(fz=bool(c["W0"]) and not W.requires_grad, W=qv(W.detach().reshape(W.shape[0], -1), 16) if c["W0"] else [], b=qv(self.lay.bias.detach()) if c["b0"] else [],
                    q={k: manager_obs(ms[k], units[k]) if k in ms else [] for k in "wai"},
                    y=self.y, gx=self.gx, gw=self.gw, gb=self.gb, gd=self.gd if c["f64"] else [], err=self.err)

    # ------------------------------------------------------------ random
    @staticmethod
    def rand_w(rng, m, n, full, pos):
        """Extremes of every row are multiples of 21, positive maximum if pos."""
        r = []
        for _ in range(m):
            lo, hi = sorted([rng.randint(-2, 2) * 21, rng.randint(-2, 2) * 21])
            if pos:
                hi = max(hi, 21)
            row = [hi, lo] + [rng.randint(lo, hi) if not full else rng.randint(-3, 3) * 21 for _ in range(n - 2)]
            row = row[:n]
            w = sorted(row)
            if not (w[len(w) // 4] or w[len(w) - 1 - len(w) // 4]):
                row = [21] * n
            rng.shuffle(row)
            r.append(row)
        return r

    @staticmethod
    def weights(rng, c, m, n):
        W = Adapter.rand_w(rng, m, n, c["pct"], c["f64"] and not c["ws"])
        b = [rng.randint(-2, 2) * 21 for _ in range(m)]
        return W, b

    @staticmethod
    def random_cfg(rng, tier):
        kind = rng.choice(["lin"] * 3 + ["conv"] * 2 + ["emb", "ln"])
        B = lambda p=.5: rng.random() < p
        est = lambda: rng.choice(["cur", "all", "run"])
        c = dict(kind=kind, wb=rng.choice([0, 2, 3, 3]), ab=rng.choice([2, 3]), ib=0, ws=B(), **{"as": B(), "is": B()}, we=est(), ae=est(), ie=est(), pc=B(),
                 pct=False, pm="zeros", p=0, s=1, f64=B(.5))
        if kind in ("lin", "conv") and B(.3):
            c.update(ib=rng.choice([2, 3]), ab=0, wb=rng.choice([2, 3]))
        if kind in ("emb", "ln"):
            c.update(ab=0, wb=rng.choice([2, 3]))
        m, n = rng.randint(1, 3), rng.randint(2, 4)
        if kind == "lin" and c["wb"] and B(.2):
            n, c["pct"], c["we"], c["f64"] = 5, True, "cur", c["f64"] and c["ws"]
            if not c["pc"]:
                m = 1
        if kind == "conv":
            n = rng.randint(2, 3)
            c.update(pm=rng.choice(["zeros", "circular", "reflect", "replicate"]), p=rng.randint(0, n - 1), s=rng.randint(1, 2))
        if kind == "ln":
            m, n = 2, 1
        W, b = Adapter.weights(rng, c, m, n)
        if kind == "ln" and B(.3):
            W, b = [], []
        c["W0"], c["b0"] = W, [] if kind == "emb" or kind != "ln" and B(.3) else b
        return c

    def batch(self, rng):
        c = self.c
        n = rng.randint(1, 3)
        if c["kind"] == "emb":
            k = rng.randint(1, 3)
            return [[rng.randrange(len(c["W0"])) for _ in range(k)] for _ in range(n)]
        if c["kind"] == "ln":
            r = [rng.choice([-1, 1]) * rng.randint(1, 9) for _ in range(n)]
            return [[v, -v] for v in r]
        k = len(c["W0"][0]) if c["kind"] == "lin" else rng.randint(4, 5)
        lim = rng.randint(1, 3)
        x = [[rng.randint(-lim, lim) * 21 for _ in range(k)] for _ in range(n)]
        if rng.random() < .25:
            x = [[abs(v) for v in r] for r in x]
        if c["ib"] and rng.random() < .5:
            v = sorted(v for r in x for v in r)
            i, j = rng.randrange(n), rng.randrange(k)
            if v[0] < x[i][j] < v[-1]:
                x[i][j] += rng.randint(-10, 10)
        return x

    def nout(self, x):
        c = self.c
        if c["kind"] == "conv":
            return len(c["W0"]) * ((len(x[0]) + 2 * c["p"] - len(c["W0"][0])) // c["s"] + 1)
        return len(x[0]) * len(c["W0"][0]) if c["kind"] == "emb" else 2 if c["kind"] == "ln" else len(c["W0"])

    def random_act(self, rng):
        c = self.c
        ms = self.managers()
        run = dict(w=c["we"] == "run", a=c["ae"] == "run", i=c["ie"] == "run")
        room = 5 - max([self.n[k] for k in ms if run[k]] or [0])
        cached = not self.net.training and self.lay.cached_params is not None
        if not self.plan and rng.random() < .08:
            # what an evaluation leaves behind
            self.plan = ["freeze+"] * (rng.random() < .5) + ["eval", "fwd", "train", rng.choice(["setw", "setw", "nudge", "load", "state"]), "eval", "fwd"]
        for _ in range(50):
            op = self.plan.pop(0) if self.plan else None
            if op in ("eval", "train"):
                return dict(op="mode", tm=op == "train")
            if op == "freeze+":
                return dict(op="freeze", on=True)
            op = op or rng.choice(["fwd"] * 10 + ["mode"] * 4 + ["state"] * 5 + ["reset", "quant", "enable", "cache", "freeze", "setw", "setw", "nudge", "save", "load", "load", "reload", "copy", "twin", "calib"])
            a = dict(op=op)
            if op == "fwd":
                if room < 1:
                    continue
                a["x"] = self.batch(rng)
                a["g"] = [] if rng.random() < .4 else [[rng.randint(-2, 2) for _ in range(self.nout(a["x"]))] for _ in a["x"]]
            elif op == "mode":
                a["tm"] = rng.random() < .5
            elif op == "state":
                a["st"] = rng.choice(["est", "fix", "learn", "tr"])
                w = ["all"] * 2 + ["a"] * (a["st"] in ("est", "fix")) + ["w"] * (a["st"] == "fix")
                a["which"] = rng.choice(w)
            elif op == "quant":
                a.update(w=bool(c["wb"]) and rng.random() < .7, a=bool(c["ab"]) and rng.random() < .6)
            elif op in ("cache", "freeze"):
                a["on"] = rng.random() < .6
            elif op == "setw":
                if cached or not c["W0"]:
                    continue
                a["W"], a["b"] = self.weights(rng, c, len(c["W0"]), len(c["W0"][0]))
                if not c["b0"]:
                    a["b"] = []
            elif op == "nudge":
                if cached or any(m.quantizer.is_initialized and m.quantizer._delta.requires_grad and
                                 float((m.quantizer._delta.detach() * (2 ** m.n_bits - 1)).max()) > 1e4 for m in ms.values()):
                    continue
                if self.nudges(ms) > 2:
                    continue
            elif op == "load":
                if self.ck is None or set(self.ck) != set(self.net.state_dict()):
                    continue
            elif op == "copy":
                a["how"] = rng.choice(["pickle", "deepcopy"])
            elif op == "twin":
                a["x"] = self.batch(rng)
            elif op == "calib":
                a.update(xs=[self.batch(rng) for _ in range(rng.randint(1, 3))], n=rng.randint(1, 3))
                if room < min(a["n"], len(a["xs"])):
                    continue
            return a
        return None

    @staticmethod
    def nudges(ms):
        """How often the steps were doubled since the last estimate."""
        r = 0
        for m in ms.values():
            z, e = m.quantizer, m.range_estimator
            if z.is_initialized and e.current_xmin is not None and z._delta.requires_grad:
                full = max(float(e.current_xmax.max()), -float(e.current_xmin.min()), 1e-3) * 2
                k, d = 0, float(z._delta.detach().max()) * (2 ** (m.n_bits - 1) - 1)
                while d > full:
                    d, k = d / 2, k + 1
                r = max(r, k)
        return r

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(4, 30 if tier == "thorough" else 16)
