"""Adapter of spec/TorchTransfer.tla: transfer tile implemented in python."""
import copy
import io
import pickle
from collections import OrderedDict

import torch

from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import ChoppedTransferCompound, DynamicTransferCompound, IOParameters, MappingParameter, UnitCellRPUConfig
from aihwkit.simulator.tiles.transfer import TorchTransferTile

from common import T, qv
from transfer import U, dev, upd


def rpu(c):
    slow = dev(c)
    slow.dw_min = c["r"] / U
    te = c["te2"] / 2.0
    fast = dev(c)
    for d in (fast, slow):
        d.lifetime = 2.0 if c["au"] > 1 else 0.0
    kw = dict(unit_cell_devices=[fast, slow], transfer_every=te, units_in_mbatch=c["mb"], transfer_columns=c["cols"], fast_lr=c["F"] / U, auto_scale=c["as"],
              transfer_forward=IOParameters(is_perfect=True), transfer_update=upd(c["bl"]), step=float(c["st"]), momentum=c["mom2"] / 2.0, forget_buffer=c["forget"],
              in_chop_prob={0: 0.0, 1: 1.0, 2: 1.0 / c["ns"], 3: 0.5}[c["pin"]], in_chop_random=c["pin"] in (1, 3), correct_gradient_magnitudes=c["corr"])
    if c["auto"]:
        kw.update(auto_granularity=c["G"] * (c["X"] if c["cols"] else c["D"]) * float(-(-c["te2"] // 2)), buffer_granularity=1.0)
    else:
        kw.update(buffer_granularity=float(c["G"]))
    if c["dyn"]:
        per = 1 if c["pin"] == 0 else round(1 / kw["in_chop_prob"])
        cmp = DynamicTransferCompound(tail_weightening=per / float(c["sm"]), **kw)
    else:
        cmp = ChoppedTransferCompound(**kw)
    cmp.auto_momentum = 0.0
    return UnitCellRPUConfig(device=cmp, forward=IOParameters(is_perfect=True), backward=IOParameters(is_perfect=True), update=upd(),
                             mapping=MappingParameter(digital_bias=False, weight_scaling_omega=0.0), tile_class=TorchTransferTile)


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.L = c["L0"]
        self.model = self.new()
        self.put(T(c["W0"], U), torch.zeros(c["D"], c["X"]), None)
        self.optim()
        self.ck = None
        self.count = self.reads = 0
        self.y, self.g = [], []

    def new(self):
        return torch.nn.Sequential(AnalogLinear(self.c["X"], self.c["D"], False, rpu(self.c)))

    def rate(self):
        return self.L / U if self.c["corr"] else float(self.L)

    def optim(self):
        self.opt = AnalogSGD(self.model.parameters(), lr=self.rate())
        self.opt.regroup_param_groups(self.model)

    @property
    def tile(self):
        return self.model[0].analog_module

    def put(self, W, A, H):
        hp = self.tile.get_hidden_parameters()
        new = OrderedDict((k, v.clone()) for k, v in hp.items())
        new["slow_weight"], new["fast_weight"] = W, A
        if H is not None:
            new["hidden_weight"] = H
        self.tile.set_hidden_parameters(new)

    def thr(self):
        c = self.c
        return c["ms"] * c["G"] * (c["F"] * c["r"] if c["corr"] else 1)

    def step(self, a):
        op, c = a["op"], self.c
        self.y, self.g = [], []
        if op == "train":
            x = T(a["x"])
            keep = x.clone()
            xin = x.requires_grad_()
            self.model.train()
            self.opt.zero_grad()
            y = self.model(xin)
            d = T(a["d"])
            y.backward(d)
            self.opt.step()
            assert torch.equal(x.detach(), keep) and torch.equal(d, T(a["d"])), "input changed"
            self.y, self.g = qv(y, U * c["au"]), qv(x.grad, U * c["au"])
            self.count += len(x) if self.L else 0
            self.reads += 1
        elif op == "fwd":
            self.model.eval()
            with torch.no_grad():
                self.y = qv(self.model(T(a["x"])), U * c["au"])
        elif op == "lr":
            self.L = a["v"]
            self.opt.set_learning_rate(self.rate())
        elif op == "set":
            self.model[0].set_weights(T(a["w"], U))
        elif op == "put":
            H = T(a["H"], float(self.thr()))
            self.put(T(a["w"], U), T(a["A"], U), H.T if c["cols"] else H)
        elif op == "save":
            f = io.BytesIO()
            torch.save(self.model.state_dict(), f)
            self.ck, self.ckn = f, self.count
        elif op == "load":
            self.ck.seek(0)
            self.model = self.new()
            self.optim()
            self.model.load_state_dict(torch.load(self.ck, weights_only=False))
            self.count = self.ckn
        elif op == "copy" and a["how"] == "extra":
            self.tile.tile.load_extra(self.tile.tile.dump_extra(), True)
        elif op == "copy":
            self.model = copy.deepcopy(self.model) if a["how"] == "deepcopy" else pickle.loads(pickle.dumps(self.model))
            self.optim()
        else:
            raise ValueError(op)

    def obs(self):
        c = self.c
        W, _ = self.model[0].get_weights()
        hp = self.tile.get_hidden_parameters()
        assert torch.equal(W, hp["slow_weight"])
        tr = lambda m: m.T if c["cols"] else m
        r = dict(W=qv(W, U * c["au"]), A=qv(hp["fast_weight"], U * c["au"]), H=qv(tr(hp["hidden_weight"]), self.thr(), tol=1e-2), ch=qv(self.tile.tile.chopper), y=self.y, g=self.g, past=[], ref=[])
        if c["dyn"]:
            r.update(past=qv(tr(hp["past_mean_weight"]), U * c["ms"], tol=1e-2), ref=qv(tr(hp["reference_weight"]), U * c["ms"], tol=1e-2))
        return r

    # ------------------------------------------------------------ random
    @staticmethod
    def random_cfg(rng, tier):
        big = 4 if tier == "thorough" else 3
        B = lambda p=.5: rng.random() < p
        x, d, cols, dyn, forget = rng.randint(1, big), rng.randint(1, big), B(.6), B(.4), B()
        c = dict(name="r", dyn=dyn, X=x, D=d, bnd=rng.choice([6, 20, 40, 60]), cols=cols, te2=rng.choice([0, 1, 2, 2, 2, 3, 4, 6]), mb=B(.4), F=rng.choice([1, 2, 4]),
                 G=rng.choice([2, 4, 8]), auto=False, corr=B(.3), mom2=rng.choice([0, 1, 2]), forget=forget, st=rng.choice([1, 1, 4]),
                 bl=rng.choice([1, 64, 4096]), pin=rng.choice([0, 1, 2, 2, 3]), ns=rng.randint(1, 3), sm=1, ms=1, au=1, r=rng.choice([1, 1, 2]), L0=rng.choice([1, 1, 2, 3]),
                 W0=[[0] * x for _ in range(d)], **{"as": B(.25)})
        if c["bl"] == 1:
            c["st"] = 1
        if dyn and B():
            c["sm"], c["ms"] = 2, 256
        if forget and c["mom2"] == 1:
            c["ms"] = 256
        if B(.15) and c["sm"] == 1:
            c["au"], c["ms"] = 64, 256
            if forget and c["mom2"] == 1:
                c["mom2"] = 0
        if not c["mb"]:
            c["auto"] = c["te2"] > 0 and B(.3)
        c["W0"] = [[rng.randint(-c["bnd"] - 3, c["bnd"] + 3) for _ in range(x)] for _ in range(d)]
        return c

    def can(self, b):
        te = -(-self.c["te2"] * (b if self.c["mb"] else 1) // 2)
        return te == 0 or self.count % te + b < 2 * te

    def random_act(self, rng):
        c = self.c
        x, d, m = c["X"], c["D"], c["bnd"]
        if c["ms"] > 1 and self.reads >= (6 if c["au"] > 1 else 8):
            return None
        mat = lambda m, i, j: [[rng.randint(-m, m) for _ in range(j)] for _ in range(i)]
        op = rng.choice(["train"] * 14 + ["fwd", "lr", "set", "put", "save", "load", "copy"])
        if op == "load" and self.ck is None:
            op = "save"
        if op == "fwd":
            return dict(op=op, x=mat(2, rng.randint(1, 2), x))
        if op == "lr":
            return dict(op=op, v=rng.choice([0, 1, 2, 3]))
        if op == "set":
            return dict(op=op, w=mat(m + 3, d, x))
        if op == "put":
            n = (x, d) if c["cols"] else (d, x)
            k = self.thr()
            return dict(op=op, A=mat(m, d, x), w=mat(m, d, x), H=[[v * c["ms"] for v in r] for r in mat(k // c["ms"], *n)])
        if op in ("save", "load"):
            return dict(op=op)
        if op == "copy":
            return dict(op=op, how=rng.choice(["deepcopy", "pickle", "extra"]))
        b = rng.choice([1, 1, 2, 3, 4])
        if c["as"] or c["pin"] == 3:
            b = 1
        if not self.can(b):
            b = 1
        m1, m2 = rng.randint(1, 2), rng.randint(1, 2)
        v = (lambda n, m: [rng.choice([0, m, -m, m, -m]) for _ in range(n)]) if c["as"] else (lambda n, m: [rng.randint(-m, m) for _ in range(n)])
        return dict(op="train", x=[v(x, m1) for _ in range(b)], d=[v(d, m2) for _ in range(b)])

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(8, 30 if tier == "thorough" else 20)
