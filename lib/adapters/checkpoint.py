"""Adapter of spec/Checkpoint.tla: saving, restoring, copying and loading of models of all kinds."""
import copy
import io
import pickle

import torch

from aihwkit.nn import AnalogLinear, AnalogLinearMapped, AnalogConv2d, AnalogRNN, AnalogSequential
from aihwkit.nn.modules.rnn.cells import AnalogLSTMCell, AnalogGRUCell
from aihwkit.optim import AnalogSGD

from zoo import ZOO

LR = [0.0, 0.1, 0.3]
# (kinds whose tiles do not support the architecture)
NO_CONV_MAPPED = ()
DRIFT = ("fpdrift", "constdrift")       # with drift parameters (other devices do not drift)


def make(c):
    """A model whose initial state only depends on the configuration."""
    torch.manual_seed(11)
    rpu = ZOO[c["kind"]]()
    arch = c["arch"]
    if arch == "linear":
        m = AnalogLinear(3, 2, True, rpu)
        x = [torch.tensor([[1.0, -0.5, 0.5], [0.2, 0.4, -1.0]]), torch.tensor([[-0.5, 0.75, 1.0]])]
    elif arch == "seq":
        m = AnalogSequential(AnalogLinear(3, 2, True, rpu), torch.nn.Tanh(), AnalogLinear(2, 2, True, rpu))
        x = [torch.tensor([[1.0, -0.5, 0.5], [0.2, 0.4, -1.0]]), torch.tensor([[-0.5, 0.75, 1.0]])]
    elif arch == "mapped":
        rpu.mapping.max_input_size = 2
        rpu.mapping.max_output_size = 2
        rpu.mapping.digital_bias = True
        m = AnalogLinearMapped(4, 3, True, rpu)
        x = [torch.tensor([[1.0, -0.5, 0.5, .25], [0.2, 0.4, -1.0, -.5]]), torch.tensor([[-0.5, 0.75, 1.0, .5]])]
    elif arch == "conv":
        m = AnalogConv2d(2, 2, 2, padding=1, rpu_config=rpu)
        g = torch.Generator().manual_seed(5)
        x = [torch.rand(2, 2, 3, 3, generator=g) - .5, torch.rand(1, 2, 3, 3, generator=g) - .5]
    else:
        m = AnalogRNN(AnalogLSTMCell if arch == "rnn" else AnalogGRUCell, 2, 2, rpu_config=rpu, bias=True)
        g = torch.Generator().manual_seed(6)
        x = [torch.rand(3, 2, 2, generator=g) - .5, torch.rand(2, 1, 2, generator=g) - .5]
    # weights as given (the constructor draws tile numbers in other places)
    torch.manual_seed(12)
    for t in m.analog_tiles():
        w, b = t.get_weights()
        t.set_weights(torch.rand(w.shape) - .5, None if b is None else torch.rand(b.shape) - .5)
    return m, x


class Copy:
    """A model with its optimizer."""

    def __init__(self, c, lr=1):
        self.m, self.x = make(c)
        self.lr = lr
        self.optim()

    def optim(self):
        self.opt = AnalogSGD(self.m.parameters(), lr=LR[self.lr])

    def set_lr(self, v):
        self.lr = v
        for g in self.opt.param_groups:
            g["lr"] = LR[v]

    def out(self, x):
        y = self.m(x)
        return y[0] if isinstance(y, tuple) else y

    def do(self, e):
        k, lr = e
        torch.manual_seed(77)
        if k > 0:
            assert lr == self.lr
            self.m.train()
            self.opt.zero_grad()
            y = self.out(self.x[k - 1])
            g = torch.linspace(-1, 1, y.numel()).reshape(y.shape)
            (y * g).sum().backward()
            self.opt.step()
            self.opt.zero_grad()
        elif k == -1:
            self.m.eval()
            with torch.no_grad():
                self.out(self.x[0])
        else:
            tiles = list(self.m.analog_tiles())
            if k == -2:
                self.m.eval()
                self.m.program_analog_weights() if hasattr(self.m, "program_analog_weights") else \
                    [t.program_weights() for t in tiles]
            elif k == -3:
                self.m.eval()
                for t in tiles:
                    t.drift_weights(100.0)
            elif k == -4:
                for t in tiles:
                    t.remap_weights()
            elif k <= -5:       # maintenance of the devices
                for t in tiles:
                    if k == -5:
                        t.tile.drift_weights(2.0)
                    elif k == -6:
                        t.tile.decay_weights(0.5)
                    elif k == -7:
                        t.post_update_step()

    def digest(self):
        """All a user can see, as exact floats."""
        res = {}
        for i, t in enumerate(self.m.analog_tiles()):
            w, b = t.get_weights()
            res[f"{i}.w"], res[f"{i}.b"] = w, b
            w, _ = t.get_weights(apply_weight_scaling=False)
            res[f"{i}.raw"] = w
            if hasattr(t, "get_hidden_parameters"):
                for n, v in t.get_hidden_parameters().items():
                    res[f"{i}.h.{n}"] = v
            for n in ("input_range", "out_scaling_alpha", "mapping_scales", "drift_baseline", "programmed_weights",
                      "input_range_update_idx"):
                res[f"{i}.{n}"] = getattr(t, n, None)
        for n, p in self.m.named_parameters():
            if "analog_ctx" not in n and "shared" not in n:
                res["p." + n] = p
        training = self.m.training
        self.m.eval()
        torch.manual_seed(78)
        with torch.no_grad():
            res["y"] = self.out(self.x[1])
        self.m.train(training)
        return {k: None if v is None else torch.as_tensor(v).detach().clone().float().flatten() for k, v in res.items()}


def same(a, b):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            if not (x is None and y is None):
                return "differs in " + k
        elif x.shape != y.shape or not torch.allclose(x, y, rtol=1e-4, atol=1e-5, equal_nan=True):
            return "differs in " + k
    return "same"


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.cp = [Copy(c)]
        self.hist = [[]]
        self.res = "none"

    def put(self, j, cp, hist):
        if j < len(self.cp):
            self.cp[j], self.hist[j] = cp, hist
        else:
            self.cp.append(cp)
            self.hist.append(hist)

    def step(self, a):
        op = a["op"]
        self.res = "none"
        i = a["i"] - 1
        src = self.cp[i]
        if op in ("train", "eval", "extra"):
            e = (a["k"], src.lr) if op == "train" else (-1, 0) if op == "eval" else (-1 - a["k"], 0)
            for _ in range(a.get("r", 1)):
                src.do(e)
                self.hist[i] = self.hist[i] + [e]
        elif op == "fresh":
            self.put(a["j"] - 1, Copy(self.c), [])
        elif op == "lr":
            src.set_lr(a["v"])
        elif op == "copy":
            how = a["how"]
            if how == "joint":
                new = copy.deepcopy(src)
            elif how in ("deepcopy", "pickle"):
                new = Copy.__new__(Copy)
                new.x, new.lr = src.x, src.lr
                new.m = copy.deepcopy(src.m) if how == "deepcopy" else pickle.loads(pickle.dumps(src.m))
                new.optim()
            else:
                buf = io.BytesIO()
                torch.save((src.m.state_dict(), src.opt.state_dict()), buf)
                new = Copy(self.c, src.lr)
                if how == "sdopt":
                    new.set_lr(2)
                buf.seek(0)
                sd, osd = torch.load(buf, weights_only=False)
                new.m.load_state_dict(sd)
                if how == "sdopt":
                    new.opt.load_state_dict(osd)
                    new.lr = src.lr
            self.put(a["j"] - 1, new, list(self.hist[i]))
        elif op == "load":
            buf = io.BytesIO()
            torch.save(src.m.state_dict(), buf)
            buf.seek(0)
            self.cp[a["j"] - 1].m.load_state_dict(torch.load(buf, weights_only=False))
            self.hist[a["j"] - 1] = list(self.hist[i])
        elif op == "cmp":
            self.res = same(src.digest(), self.cp[a["j"] - 1].digest())
        elif op == "witness":
            w = Copy(self.c)
            for e in self.hist[i]:
                if e[0] > 0:
                    w.set_lr(e[1])
                w.do(e)
            self.res = same(src.digest(), w.digest())
        else:
            raise ValueError(op)

    def obs(self):
        lrs = []
        for cp in self.cp:
            v = {g["lr"] for g in cp.opt.param_groups}
            lrs.append(LR.index(v.pop()) if len(v) == 1 else -1)
        return dict(n=[len(h) for h in self.hist], lr=lrs, res=self.res)

    @staticmethod
    def random_cfg(rng, tier):
        kind = rng.choice(list(ZOO))
        archs = ["linear", "linear", "seq", "conv", "rnn", "gru", "mapped"]
        return dict(kind=kind, arch=rng.choice(archs))

    def extras(self):
        kind = self.c["kind"]
        if kind.startswith(("inf", "tinf")):
            return [1, 2, 3, 6]
        return [4, 5, 6] if kind in DRIFT else [5, 6]

    def random_act(self, rng):
        n = len(self.cp)
        if n > 1 and rng.random() < .3:
            for _ in range(4):
                i, j = rng.randrange(n), rng.randrange(n)
                if i != j and self.hist[i] == self.hist[j]:
                    return dict(op="cmp", i=i + 1, j=j + 1)
        i = rng.randrange(n)
        op = rng.choice(["train"] * 6 + ["eval", "lr", "copy", "copy", "copy", "load", "witness"]
                        + (["extra"] if self.extras() else []))
        if op == "load" and n < 2:
            op = "copy"
        if op == "train":
            # the same operation on a copy of equal history is the interesting case
            if n > 1 and self.hist[i]:
                for j in range(n):
                    h = self.hist[j]
                    if (j != i and len(h) > len(self.hist[i]) and h[:len(self.hist[i])] == self.hist[i]
                            and h[len(self.hist[i])][0] > 0 and rng.random() < .8):
                        e = h[len(self.hist[i])]
                        if e[1] != self.cp[i].lr:
                            return dict(op="lr", i=i + 1, v=e[1])
                        return dict(op="train", i=i + 1, k=e[0], r=1)
            return dict(op=op, i=i + 1, k=rng.randint(1, 2), r=rng.choice([1, 1, 2, 3]))
        if op == "eval" or op == "witness":
            return dict(op=op, i=i + 1)
        if op == "extra":
            return dict(op=op, i=i + 1, k=rng.choice(self.extras()))
        if op == "lr":
            return dict(op=op, i=i + 1, v=rng.randint(0, 2))
        if op == "copy":
            j = n + 1 if n < 3 else rng.choice([x for x in range(1, 4) if x != i + 1])
            return dict(op=op, i=i + 1, j=j, how=rng.choice(["deepcopy", "pickle", "joint", "sd", "sdopt"]))
        j = rng.choice([x for x in range(1, n + 1) if x != i + 1])
        return dict(op="load", i=i + 1, j=j)
