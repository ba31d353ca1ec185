"""Adapter of spec/Rnn.tla: recurrent networks."""
import copy
import io
import warnings

import torch
from torch.utils._python_dispatch import TorchDispatchMode

from aihwkit.nn import AnalogRNN, AnalogVanillaRNNCell, AnalogLSTMCell, AnalogLSTMCellCombinedWeight, AnalogGRUCell
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import FloatingPointRPUConfig, TorchInferenceRPUConfig, IOParameters, MappingParameter

from common import T, qv

CELL = dict(van=AnalogVanillaRNNCell, lstm=AnalogLSTMCell, lstmc=AnalogLSTMCellCombinedWeight, gru=AnalogGRUCell)
NGATES = dict(van=1, lstm=4, lstmc=4, gru=3)


class Activations(TorchDispatchMode):
    """tanh is the sign, the sigmoid sign + 1, derivatives are 1, whatever they are called from."""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        name = func.overloadpacket.__name__
        if name in ("tanh", "sigmoid", "tanh_", "sigmoid_"):
            r = torch.sign(args[0]) + (1. if name.startswith("sig") else 0.)
            return args[0].copy_(r) if name.endswith("_") else r
        if name in ("tanh_backward", "sigmoid_backward"):
            return args[0].clone()
        return func(*args, **(kwargs or {}))


def rpu(kind):
    mp = MappingParameter(weight_scaling_omega=0., digital_bias=kind == "torch")
    if kind == "fp":
        return FloatingPointRPUConfig(mapping=mp)
    if kind == "torch":
        return TorchInferenceRPUConfig(forward=IOParameters(is_perfect=True), drift_compensation=None, mapping=mp)
    return None


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.mini = Mini(c)
        self.net = self.new()
        for l, dirs in enumerate(c["W0"]):
            for d, w in enumerate(dirs):
                self.put(l, d, w)
        self.st = None
        self.clear()

    def new(self):
        c = self.c
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return AnalogRNN(CELL[c["cell"]], c["I"], c["H"], c["bias"], rpu(c["kind"]), None, False, len(c["W0"]), c["bd"], 1. if c["dr"] else 0.)

    def cell(self, l, d):
        lay = self.net.rnn.layers[l]
        return (lay.directions[d] if self.c["bd"] else lay).cell

    def put(self, l, d, w):
        def one(lin, m, b):
            m, b = T(m), T(b) if self.c["bias"] else None
            if hasattr(lin, "set_weights"):
                lin.set_weights(m, b)
            else:
                with torch.no_grad():
                    lin.weight.copy_(m)
                    if b is not None:
                        lin.bias.copy_(b)
        cell = self.cell(l, d)
        if self.c["cell"] == "lstmc":
            one(cell.weight, [a + b for a, b in zip(w["wi"], w["wh"])], w["bi"])
        else:
            one(cell.weight_ih, w["wi"], w["bi"])
            one(cell.weight_hh, w["wh"], w["bh"])

    def get(self, l, d):
        def one(lin):
            m, b = lin.get_weights() if hasattr(lin, "get_weights") else (lin.weight, lin.bias)
            return qv(m.detach()), qv(b.detach()) if b is not None else []
        cell = self.cell(l, d)
        if self.c["cell"] == "lstmc":
            m, b = one(cell.weight)
            n = len(m[0]) - self.c["H"]
            return dict(wi=[r[:n] for r in m], wh=[r[n:] for r in m], bi=b, bh=[])
        wi, bi = one(cell.weight_ih)
        wh, bh = one(cell.weight_hh)
        return dict(wi=wi, wh=wh, bi=bi, bh=bh)

    def clear(self):
        self.y, self.gx = [], []

    def dirs(self, s):
        return s if self.c["bd"] else [s]

    def flat(self, st):
        return [t for s in st for q in self.dirs(s) for t in (q if isinstance(q, tuple) else (q,))]

    def detach(self, st):
        f = lambda q: type(q)(*[t.detach() for t in q]) if hasattr(q, "_fields") else tuple(t.detach() for t in q) if isinstance(q, tuple) else q.detach()
        return [[f(q) for q in s] if self.c["bd"] else f(s) for s in st]

    def step(self, a):
        op = a["op"]
        self.clear()
        try:
            self.mini.step(a)
        except OverflowError:  # replayed behaviours are bounded by the specification
            pass
        if op in ("fwd", "train"):
            x = T(a["x"]).requires_grad_(op == "train")
            k = x.detach().clone()
            st = self.detach(self.st) if a["carry"] else None
            old = [t.clone() for t in self.flat(st)] if a["carry"] else []
            self.net.train(op == "train" or a["tm"])
            with Activations():
                if op == "fwd":
                    with torch.no_grad():
                        y, new = self.net(x, st)
                else:
                    opt = AnalogSGD(self.net.parameters(), lr=1.)
                    opt.zero_grad()
                    y, new = self.net(x, st)
                    loss = (y * T(a["d"])).sum() + a["e"] * sum(t.sum() for t in self.flat(new))
                    if loss.requires_grad:
                        loss.backward()
                        opt.step()
            self.y = qv(y.detach())
            if op == "train":
                self.gx = qv(torch.zeros_like(x) if x.grad is None else x.grad)
            assert torch.equal(x.detach(), k), "input changed"
            assert all(torch.equal(p, q) for p, q in zip(old, self.flat(st) if a["carry"] else [])), "state changed"
            self.st = new
        elif op == "set":
            self.put(a["l"] - 1, a["d"] - 1, a["w"])
        elif op == "copy":
            if a["how"] == "deepcopy":
                self.net = copy.deepcopy(self.net)
            else:
                buf = io.BytesIO()
                torch.save(self.net.state_dict(), buf)
                buf.seek(0)
                self.net = self.new()
                self.net.load_state_dict(torch.load(buf, weights_only=False))
        else:
            raise ValueError(op)

    def obs(self):
        c = self.c
        W = [[self.get(l, d) for d in range(len(r))] for l, r in enumerate(c["W0"])]
        st = []
        for s in self.st or []:
            st.append([])
            for q in self.dirs(s):
                h, k = (qv(q[0].detach()), qv(q[1].detach())) if isinstance(q, tuple) else (qv(q.detach()), None)
                st[-1].append([dict(h=h[b], c=k[b] if k else []) for b in range(len(h))])
        return dict(W=W, st=st, y=self.y, gx=self.gx)

    # ------------------------------------------------------------ random
    @staticmethod
    def wts(rng, c, l):
        m, n = NGATES[c["cell"]] * c["H"], c["I"] if l == 0 else (2 if c["bd"] else 1) * c["H"]
        v = lambda k: [rng.randint(-2, 2) for _ in range(k)]
        return dict(wi=[v(n) for _ in range(m)], wh=[v(c["H"]) for _ in range(m)], bi=v(m) if c["bias"] else [],
                    bh=v(m) if c["bias"] and c["cell"] != "lstmc" else [])

    @staticmethod
    def random_cfg(rng, tier):
        cell = rng.choice(["van", "lstm", "lstm", "lstmc", "gru", "gru"])
        c = dict(cell=cell, kind=rng.choice(["fp", "torch"] + ([] if cell == "gru" else ["dig"])), bias=rng.random() < .6, bd=rng.random() < .5,
                 dr=rng.random() < .2, I=rng.randint(1, 3), H=rng.randint(1, 3))
        c["W0"] = [[Adapter.wts(rng, c, l) for _ in range(2 if c["bd"] else 1)] for l in range(rng.randint(1, 3))]
        return c

    def random_act(self, rng):
        c, m = self.c, self.mini
        for _ in range(30):
            op = rng.choice(["fwd"] * 4 + ["train"] * 3 + ["copy", "set"] + ["set"] * 5 * m.large())
            if op == "set":
                l = rng.randrange(len(c["W0"]))
                a = dict(op=op, l=l + 1, d=rng.randrange(len(c["W0"][0])) + 1, w=self.wts(rng, c, l))
            elif op == "copy":
                a = dict(op=op, how=rng.choice(["sd", "deepcopy"]))
            else:
                carry = m.age > 0 and m.age < 6 and rng.random() < .6
                n = rng.randint(1, min(6 - m.age, 4) if carry else 4)
                B = m.B if carry else rng.randint(1, 3)
                a = dict(op=op, carry=carry, x=[[[rng.randint(-2, 2) for _ in range(c["I"])] for _ in range(B)] for _ in range(n)])
                if op == "train":
                    a["d"] = [[[rng.randint(-1, 1) for _ in range(c["H"] * (2 if c["bd"] else 1))] for _ in range(B)] for _ in range(n)]
                    a["e"] = rng.choice([0, 0, 1, -1])
                else:
                    a["tm"] = rng.random() < .4
            t = copy.deepcopy(m)
            try:
                t.step(a)
            except OverflowError:
                continue
            return a
        return dict(op="copy", how="sd")

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(4, 24 if tier == "thorough" else 12)


class STE(torch.autograd.Function):
    """Sign with derivative 1."""

    @staticmethod
    def forward(ctx, x):
        return torch.sign(x)

    @staticmethod
    def backward(ctx, g):
        return g


class Mini:
    """The network on plain tensors, only used to select actions without overflow."""

    def __init__(self, c):
        self.c, self.age, self.B, self.st = c, 0, 0, None
        self.W = [[self.ten(w) for w in r] for r in c["W0"]]

    @staticmethod
    def ten(w):
        return {k: torch.tensor(v, dtype=torch.float64) for k, v in w.items()}

    def large(self):
        return max(float(t.abs().max()) for r in self.W for w in r for t in w.values() if t.numel()) > 4

    def cell(self, w, x, h, k):
        lin = lambda m, b, v: v @ m.t() + (b if b.numel() else 0.)
        gi, gh = lin(w["wi"], w["bi"], x), lin(w["wh"], w["bh"], h)
        th, sg = STE.apply, lambda v: STE.apply(v) + 1.
        cell = self.c["cell"]
        if cell == "van":
            return th(gi + gh), k
        if cell == "gru":
            (a, b, e), (p, q, r) = gi.chunk(3, 1), gh.chunk(3, 1)
            n = th(e + sg(a + p) * r)
            return n + sg(b + q) * (h - n), k
        i, f, g, o = (gi + gh).chunk(4, 1)
        k = sg(f) * k + sg(i) * th(g)
        return sg(o) * th(k), k

    def step(self, a):
        c = self.c
        if a["op"] == "set":
            self.W[a["l"] - 1][a["d"] - 1] = self.ten(a["w"])
        if a["op"] not in ("fwd", "train"):
            return
        self.age = (self.age if a["carry"] else 0) + len(a["x"])
        self.B = len(a["x"][0])
        train = a["op"] == "train"
        if self.age > 6 or train and self.large():
            raise OverflowError()
        W = [[{k: t.clone().requires_grad_(train) for k, t in w.items()} for w in r] for r in self.W]
        x = torch.tensor(a["x"], dtype=torch.float64, requires_grad=train)
        z = torch.zeros(self.B, c["H"], dtype=torch.float64)
        st = self.st if a["carry"] else [[(z, z) for _ in r] for r in W]
        new, y, big = [], x, [x]
        for l, r in enumerate(W):
            if l and c["dr"] and (train or a["tm"]):
                y = y * 0.
            outs = []
            new.append([])
            for d, w in enumerate(r):
                h, k = st[l][d]
                o = []
                for v in y.flip(0) if d else y:
                    h, k = self.cell(w, v, h, k)
                    o.append(h)
                outs.append(torch.stack(o[::-1] if d else o))
                new[-1].append((h, k))
                big += [h, k]
            y = torch.cat(outs, -1)
        if train:
            loss = (y * torch.tensor(a["d"], dtype=torch.float64)).sum()
            for r in new:
                for h, k in r:
                    loss = loss + a["e"] * (h.sum() + (k.sum() if c["cell"] in ("lstm", "lstmc") else 0.))
            loss.backward()
            for r, q in zip(self.W, W):
                for d, w in enumerate(q):
                    for k, t in w.items():
                        if t.grad is not None:
                            big.append(t.grad)
                            r[d][k] = r[d][k] - t.grad
            big.append(x.grad)
        if any(t.numel() and float(t.abs().max()) > 2e4 for t in big):
            raise OverflowError()
        self.st = [[(h.detach(), k.detach()) for h, k in r] for r in new]
