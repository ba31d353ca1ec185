"""Adapter of spec/QTile.tla: analog layers with quantized periphery."""
import copy
import io

import torch

from aihwkit.nn import AnalogConv2d, AnalogLinear
from aihwkit.nn.low_precision_modules import quantization_states as qs
from aihwkit.simulator.configs import IOParameters, QuantizedTorchInferenceRPUConfig
from aihwkit.simulator.parameters.quantization import ActivationQuantConfig

from common import qv, OFF
from quant import EST, params, manager_obs


class Adapter:
    """Executes actions in the real code."""

    def __init__(self, c):
        self.c = c
        self.au = 16 if c["ab"] else 1
        self.net = self.new()
        self.set(self.net, c["W0"], c["b0"])
        self.n = 0
        self.ck = None
        self.clear()

    def clear(self):
        self.y, self.gx, self.gb, self.ga, self.err = [], [], [], [], False

    def new(self):
        c = self.c
        rc = QuantizedTorchInferenceRPUConfig(forward=IOParameters(is_perfect=True))
        m = rc.mapping
        m.weight_scaling_omega, m.weight_scaling_columnwise = 1.0, True
        m.learn_out_scaling, m.out_scaling_columnwise = c["ls"], True
        no, ni = len(c["W0"]), len(c["W0"][0])
        m.max_input_size, m.max_output_size = (ni // c["ni"], no // c["no"])
        p = rc.pre_post
        p.periph_quant.n_bits, p.periph_quant.symmetric = c["nb"], c["sym"]
        p.periph_quant.learn_quant_params, p.periph_quant.init_learning_after = c["learn"], c["after"]
        p.input_range.enable = c["ir"] > 0
        p.input_range.init_value, p.input_range.init_from_data = float(c["ir"] or 1), 0
        rc.act_quant_config = ActivationQuantConfig(c["ab"], c["as"], EST[c["ae"]], params(c["ae"])) if c["ab"] or no % 2 else None
        bias = c["b0"] != []
        if c["conv"]:
            return AnalogConv2d(ni, no, 1, bias=bias, rpu_config=rc)
        return AnalogLinear(ni, no, bias=bias, rpu_config=rc)

    def set(self, net, W, b):
        W = torch.tensor(W).float()
        net.set_weights(W, torch.tensor(b).float() if b else None)

    def tiles(self):
        m = self.net.analog_module
        return [t for r in m.array for t in r] if self.c["arr"] else [m]

    def forward(self, a):
        c = self.c
        x = torch.tensor(a["x"]).float()
        n = len(a["x"])
        x.requires_grad_(True)
        for p in self.net.parameters():
            p.grad = None
        keep = x.detach().clone()
        try:
            if c["conv"]:
                y = self.net(x.t().reshape(1, -1, 1, n)).reshape(-1, n).t()
            else:
                y = self.net(x)
        except Exception as e:  # pylint: disable=broad-except
            if isinstance(e, AssertionError) or type(e).__name__ == "QuantizerNotInitializedError":
                self.err = True
                return
            raise
        assert torch.equal(x.detach(), keep), "input changed"
        self.y = qv(y.detach(), self.au)
        if a["g"] == []:
            return
        (y * torch.tensor(a["g"]).float()).sum().backward()
        if not c["ir"]:
            self.gx = qv(x.grad)
        if c["b0"]:
            self.gb = qv(self.bias.grad)
        if c["ls"]:
            self.ga = [qv(t.out_scaling_alpha.grad.reshape(-1)) for t in self.tiles()]

    def stored(self):
        buf = io.BytesIO()
        torch.save(self.net.state_dict(), buf)
        self.keys = set(self.net.state_dict())
        return buf

    @property
    def bias(self):
        return self.net.analog_module.bias

    def step(self, a):
        op = a["op"]
        net = self.net
        self.clear()
        if op == "fwd":
            self.n += 1
            self.forward(a)
        elif op == "mode":
            net.train(a["tm"])
        elif op == "state":
            getattr(qs, dict(est="estimate_ranges", tr="estimate_ranges_train", fix="fix_ranges", learn="learn_ranges")[a["st"]])(net)
        elif op == "quant":
            (qs.quantized_acts if a["on"] else qs.full_precision_acts)(net)
        elif op == "nudge":
            with torch.no_grad():
                for n, p in net.named_parameters():
                    if p.requires_grad and ("_delta" in n or "_zero_float" in n):
                        p.mul_(2.)
        elif op == "setb":
            with torch.no_grad():
                self.bias.copy_(torch.tensor(a["b"]))
        elif op == "setw":
            self.set(net, a["W"], a["b"])
        elif op == "seta":
            with torch.no_grad():
                p = self.tiles()[a["j"] - 1].out_scaling_alpha
                p.copy_(torch.tensor(a["al"]).view(p.shape))
        elif op == "save":
            self.ck = self.stored()
            self.ckn, self.ckk = self.n, self.keys
        elif op == "load":
            self.ck.seek(0)
            net.load_state_dict(torch.load(self.ck, weights_only=False))
            self.n = max(self.n, self.ckn)
        elif op == "reload":
            buf = self.stored()
            buf.seek(0)
            self.net = self.new()
            self.net.load_state_dict(torch.load(buf, weights_only=False))
        elif op == "copy":
            self.net = copy.deepcopy(net)
        else:
            raise ValueError(op)

    def obs(self):
        c = self.c
        m = self.net.analog_module
        T = []
        for t in self.tiles():
            d = dict(s=manager_obs(t.scale_quantizer, 1) if c["nb"] else [], k=int(t.scale_quant_update_idx) if c["nb"] and c["learn"] else 0,
                     o=manager_obs(t.out_quantizer.activation_quantizer, self.au) if c["ab"] else [], al=qv(t.out_scaling_alpha.reshape(-1)) if c["ls"] else [])
            T.append(d)
        hb = c["nb"] and c["b0"]
        many = c["arr"] and len(T) > 1
        return dict(t=T, b=manager_obs(m.bias_quantizer, 1) if hb else [], k=int(m.bias_quant_update_idx) if hb and c["learn"] else 0,
                    m=manager_obs(m.module_out_quantizer.activation_quantizer, self.au) if c["ab"] and many else [], bv=qv(self.bias) if c["b0"] else [],
                    y=self.y, gx=self.gx, gb=self.gb, ga=self.ga, err=self.err)

    # ------------------------------------------------------------ random
    @staticmethod
    def rand_w(rng, no, ni, nt):
        """Every row of every tile has entries zero or plus or minus its scale."""
        W = []
        for _ in range(no):
            r = []
            for _ in range(nt):
                s = rng.randint(1, 5) * 21
                k = [rng.choice([-s, 0, s]) for _ in range(ni // nt)]
                if not any(k):
                    k[0] = s
                r += k
            W.append(r)
        return W

    @staticmethod
    def random_cfg(rng, tier):
        B = lambda p=.5: rng.random() < p
        arr = B()
        c = dict(arr=arr, ni=rng.randint(1, 2) if arr else 1, no=rng.randint(1, 2) if arr else 1, nb=rng.choice([0, 2, 3, 3]), sym=B(), ab=rng.choice([0, 2, 3]),
                 **{"as": B()}, ae=rng.choice(["cur", "all", "run"]), learn=B(), after=rng.randint(1, 3), ls=B(.3), ir=rng.choice([0, 0, 21]), conv=B(.3))
        c["arr"] = c["no"] * c["ni"] > 1
        if c["arr"] and c["ab"]:
            # values of the whole array are multiples of its steps
            c["ae"] = "all" if c["ae"] == "run" else c["ae"]
            c["ir"] *= 21
        no, ni = c["no"] * rng.randint(1, 2), c["ni"] * rng.randint(1, 2)
        c["W0"] = Adapter.rand_w(rng, no, ni, c["ni"])
        c["b0"] = [] if B(.3) else [rng.randint(-2, 2) * 441 for _ in range(no)]
        return c

    def random_act(self, rng):
        c = self.c
        no, ni = len(c["W0"]), len(c["W0"][0])
        for _ in range(50):
            op = rng.choice(["fwd"] * 10 + ["mode"] * 4 + ["state"] * 2 + ["quant", "nudge", "setb", "setw", "seta", "save", "load", "load", "reload", "copy"])
            a = dict(op=op)
            if op == "fwd":
                if c["ae"] == "run" and c["ab"] and self.n >= 5:
                    continue
                u = c["ir"] or (441 if c["arr"] and c["ab"] else 21)
                n = rng.randint(1, 3)
                a["x"] = [[rng.randint(-2, 2) * u for _ in range(ni)] for _ in range(n)]
                a["g"] = [] if rng.random() < .4 else [[rng.randint(-2, 2) for _ in range(no)] for _ in range(n)]
            elif op == "mode":
                a["tm"] = rng.random() < .5
            elif op == "state":
                a["st"] = rng.choice(["est", "fix", "learn", "tr"])
            elif op == "quant":
                a["on"] = rng.random() < .6
            elif op == "nudge":
                ok = True
                for m in self.managers():
                    z, e = m.quantizer, m.range_estimator
                    if z.is_initialized and z._delta.requires_grad and e.current_xmin is not None:
                        full = max(float(e.current_xmax.max()), -float(e.current_xmin.min()), 1e-3)
                        ok = ok and float(z._delta.detach().max()) < 2 * full
                if not ok:
                    continue
            elif op in ("setb", "setw"):
                if op == "setb" and not c["b0"] or op == "setw" and c["ls"]:
                    continue
                a["b"] = [rng.randint(-2, 2) * 441 for _ in range(no)] if c["b0"] else []
                if op == "setw":
                    a["W"] = self.rand_w(rng, no, ni, c["ni"])
            elif op == "seta":
                if not c["ls"]:
                    continue
                a.update(j=rng.randint(1, len(self.tiles())), al=[rng.choice([-1, 1, 2]) for _ in range(no // c["no"])])
            elif op == "load":
                if self.ck is None or self.ckk != set(self.net.state_dict()):
                    continue
            return a
        return None

    def managers(self):
        return [m for m in self.net.modules() if type(m).__name__ == "QuantizationManager"]

    @staticmethod
    def random_len(rng, tier):
        return rng.randint(4, 30 if tier == "thorough" else 16)
