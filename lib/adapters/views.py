"""Adapter of spec/Views.tla: modes of the analog parameter, tensors given to and taken from the layer."""
import copy

import torch

from aihwkit.simulator.configs import SingleRPUConfig, ConstantStepDevice, IOParameters, UpdateParameters, PulseType

from aihwkit.simulator.parameters.enums import WeightClipType, WeightRemapType
from aihwkit.simulator.configs import WeightClipParameter, WeightRemapParameter

import mapping
import tiling
from common import T, qv

MODES = ["placeholder", "data_view", "buffer"]

REMAP = [WeightRemapType.NONE, WeightRemapType.LAYERWISE_SYMMETRIC, WeightRemapType.CHANNELWISE_SYMMETRIC]


def rpu(c):
    r = rpu1(c)
    r.mapping.max_input_size = r.mapping.max_output_size = 1 if c["arr"] else 512
    return r


def rpu1(c):
    if c["kind"] == "const":
        p = IOParameters(is_perfect=True)
        return SingleRPUConfig(mapping=mapping.rpu(dict(c, kind="fp")).mapping, forward=p, backward=p, device=ConstantStepDevice(
            w_max=1000.0, w_min=-1000.0, w_max_dtod=0.0, w_min_dtod=0.0, dw_min=.001))
    if c["kind"] == "custom":
        return tiling.rpu(dict(c, maxin=0, maxout=0))
    return mapping.rpu(c)


class Adapter(mapping.Adapter):
    """Executes actions in the real code."""

    def __init__(self, c):
        self.hw = self.hb = self.ho = self.hob = None
        self.err, self.k = False, 0
        super().__init__(c)

    def make(self):
        if self.c["arr"]:
            return tiling.AnalogLinearMapped(self.n, self.m, self.c["bias"] > 0, rpu(self.c))
        return mapping.AnalogLinear(self.n, self.m, self.c["bias"] > 0, rpu(self.c))

    @property
    def parts(self):
        """The tiles of the layer."""
        return list(self.layer.analog_tiles())

    @property
    def ctx(self):
        return self.tile.analog_ctx

    def step(self, a):
        op = a["op"]
        self.err = False
        self.k += 1
        if op in ("set", "setraw", "setom"):
            # (the tensors given are kept, and the layer is given memory of all kinds)
            self.clear()
            self.fz = False
            w = T(a["w"])
            w = w.t().contiguous().t() if self.k % 2 else w
            kw = dict(apply_weight_scaling=False) if op == "setraw" else \
                dict(weight_scaling_omega=1.0 / a["om"] if a["om"] else 0.0) if op == "setom" else {}
            self.ho, self.hob = w, self.bias(a["b"])
            (self.tile if self.k % 3 else self.layer).set_weights(w, self.hob, **kw)
        elif op == "replace":
            self.clear()
            self.tile.to(rpu(self.c))
            self.ctx.data_view_mode = MODES[a["mode"]]
        elif op in ("copy", "reload", "pickle"):
            super().step(a)
            if not self.c["arr"]:
                self.ctx.data_view_mode = MODES[a["mode"]]
        elif op == "mode":
            self.clear()
            m = a["mode"]
            if self.k % 2:
                self.ctx.data_view_mode = MODES[m]
            else:
                [self.ctx.enable_placeholder, self.ctx.enable_data_view, self.ctx.enable_buffer][m]()
        elif op == "write":
            self.clear()
            try:
                self.write(float(a["v"]))
            except RuntimeError:
                self.err = True
        elif op == "snap":
            self.clear()
            self.hw, self.hb = (self.layer if self.k % 2 else self.tile).get_weights()
        elif op == "mut":
            self.clear()
            for x in (self.hw, self.hb, self.ho, self.hob):
                if x is not None:
                    x += a["v"]
        elif op == "mutother":
            self.clear()
            self.mutother()
        elif op == "post":
            self.clear()
            self.fz = True
            t = self.tile
            r, keep = t.rpu_config, (t.rpu_config.clip, t.rpu_config.remap)
            r.clip = WeightClipParameter(type=WeightClipType.FIXED_VALUE if a["v"] else WeightClipType.NONE, fixed_value=float(a["v"]))
            r.remap = WeightRemapParameter(type=REMAP[a["r"]])
            t._tmp = {}
            t.post_update_step()
            r.clip, r.remap = keep
            t._tmp = {}
        elif op == "move":
            self.clear()
            if self.k % 2:
                self.layer.cpu()
            else:
                self.layer.to(torch.device("cpu"))
        elif op == "setheld":
            self.clear()
            self.fz = False
            self.ho = self.hw.clone()
            self.layer.set_weights(self.ho, self.hb)
        else:
            super().step(a)

    def write(self, v):
        """In-place writes of all kinds."""
        x, k = self.ctx, self.k % 6
        with torch.no_grad():
            if k == 0:
                x.add_(v)
            elif k == 1:
                x.data.add_(v)
            elif k == 2:
                x.copy_(x.data + v) if self.ctx.data_view_mode.value == "buffer" else x.copy_(torch.ones(self.m, self.n))
            elif k == 3:
                torch.add(torch.full((self.m, self.n), v), x.data if self.ctx.data_view_mode.value == "buffer" else torch.zeros(self.m, self.n),
                          out=x.data)
            elif k == 4:
                d = x.data
                d[:, :] = d + v if self.ctx.data_view_mode.value == "buffer" else v
            else:
                x.sub_(-v)

    def mutother(self):
        """Changes everything else which reads give to the user."""
        for t in self.parts:
            self.mutone(t)

    def mutone(self, t):
        for get in (lambda: t.get_hidden_parameters().values(), lambda: [t.tile.get_weights()], lambda: [t.read_weights()[0]],
                    lambda: [t.get_weights(apply_weight_scaling=False)[0]]):
            for v in get():
                with torch.no_grad():
                    v.mul_(0.0).add_(77.0)
        if not self.k % 2:
            t.analog_ctx.requires_grad_(False)
            t.analog_ctx.requires_grad_(True)

    def obs(self):
        if self.c["arr"]:
            return self.both(0, [], [self.m, self.n])
        x = self.ctx
        mode = [m for m, n in enumerate(MODES) if x.data_view_mode.value == n][0]
        view = []
        if mode:
            view = qv(x.data if self.k % 2 else x.get_data())
            # all reads agree
            if abs(float(x.sum()) - float(sum(map(sum, view)))) > 1e-2 or qv(x + 0.0) != view or qv(x.T.t()) != view:
                view = [["reads differ"]]
        else:
            for f in (lambda: x.norm(), lambda: x + 1, lambda: x.data.sum(), lambda: x.get_data(), lambda: x.T, lambda: x.tolist(), lambda: x[0, 0].item()):
                try:
                    f()
                    view = [["readable"]]
                except RuntimeError:
                    pass
        size = list(x.shape)
        if size != list(x.size()) or size != list(x.data.shape) or x.dim() != 2 or x.numel() != self.m * self.n:
            size = [-1, -1]
        return self.both(mode, view, size)

    def both(self, mode, view, size):
        c, err = self.c, self.err
        w, b = self.layer.get_weights()
        f = lambda v: [] if v is None else qv(v)
        return dict(L=qv(w), b=qv(b) if b is not None else [], y=self.y, err="yes" if err else "no", mode=mode, view=view, size=size,
                    hw=f(self.hw), hb=f(self.hb) if c["bias"] else [], ho=f(self.ho))

    @staticmethod
    def random_cfg(rng, tier):
        c = dict(mapping.Adapter.random_cfg(rng, tier), K=1)
        c["comp"] = False
        c["kind"] = rng.choice(["fp", "ideal", "inf", "tinf", "custom", "const"])
        if c["kind"] in ("custom", "tinf"):
            c["bias"] = rng.choice([0, 2, 2])
        c["arr"] = rng.random() < .2
        if c["arr"]:
            c.update(bias=rng.choice([0, 2, 2]), om=0, learn=0, cw=False)
        return c

    def scales(self):
        return torch.ones(self.m) if self.c["arr"] else super().scales()

    def random_act(self, rng):
        c = self.c
        if not c["arr"] and c["kind"] in ("inf", "tinf") and rng.random() < .15:
            w, b = self.layer.get_weights()
            b = b.tolist() if c["bias"] == 1 else [0.0] * self.m
            ok = c["om"] and c["cw"] and (not self.fz or all(max(max(map(abs, r)), abs(b[i])) > .5 for i, r in enumerate(w.tolist())))
            a = dict(op="post", v=rng.choice([0, 0, 1, 2]), r=rng.choice([0, 1, 2]) if ok else 0)
            if a["r"] == 1:
                # (all scales are multiplied with the largest weight on the tile, and have to stay integers)
                q = [round(v) for v in self.scales().tolist()]
                top = [max(max(round(abs(v)) for v in r), round(abs(b[i]))) for i, r in enumerate(w.tolist())]
                k = max(range(self.m), key=lambda i: top[i] / q[i])
                a["v"] = 0
                if any(q[i] * top[k] % q[k] for i in range(self.m)):
                    a["r"] = 0
            return a
        if rng.random() < .45:
            a = dict(op=rng.choice(([] if c["arr"] else ["mode", "mode", "write", "write"]) + ["snap", "snap", "mut", "mut", "setheld", "mutother", "move"]))
            if a["op"] == "mode":
                a["mode"] = rng.choice([0, 1, 1, 1, 2, 2])
            elif a["op"] in ("write", "mut"):
                a["v"] = rng.randint(1, 3)
            if a["op"] in ("mut", "setheld") and self.hw is None:
                a = dict(op="snap")
            return a
        o = self.layer.get_weights()
        sc = self.scales()
        rd = super().random_act
        # (the helper only needs these observations)
        keep = self.obs
        try:
            self.obs = lambda: dict(L=qv(o[0]), b=qv(o[1]) if o[1] is not None else [], sc=qv(sc))
            while True:
                a = rd(rng)
                if a["op"] in ("read",) or (a["op"] in ("train", "program") and self.c["kind"] == "const"):
                    continue
                if self.c["arr"] and a["op"] not in ("set", "train", "fwd", "copy", "reload", "pickle"):
                    continue
                break
        finally:
            self.obs = keep
        if a["op"] in ("copy", "reload", "pickle", "replace"):
            a["mode"] = 0 if c["arr"] else rng.choice([0, 1, 1, 2])
        return a
