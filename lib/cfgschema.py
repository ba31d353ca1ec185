"""Writes spec/ConfigSchema.tla: the documented fields (type, default, whether the simulator gets it) of the
configuration classes.  Used once, when the specification was written; the checks use the committed module."""
import dataclasses
import enum
import importlib
import inspect
import sys
import typing

from aihwkit.simulator import rpu_base  # noqa: F401
from aihwkit.simulator.parameters.enums import RPUDataType
from aihwkit.simulator.parameters.helpers import get_bindings_class

PAR = ["IOParameters", "IOParametersIRDropT", "UpdateParameters", "WeightModifierParameter", "WeightClipParameter",
       "WeightRemapParameter", "SimpleDriftParameter", "DriftParameter", "MappingParameter", "InputRangeParameter",
       "PrePostProcessingParameter", "RuntimeParameter"]
DEV = ["FloatingPointDevice", "IdealDevice", "ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice",
       "SoftBoundsReferenceDevice", "ExpStepDevice", "PowStepDevice", "PowStepReferenceDevice", "PiecewiseStepDevice"]
CMP = ["UnitCell", "VectorUnitCell", "DigitalRankUpdateCell", "ReferenceUnitCell", "OneSidedUnitCell", "TransferCompound", "BufferedTransferCompound",
       "ChoppedTransferCompound", "DynamicTransferCompound", "MixedPrecisionCompound"]
RPU = ["FloatingPointRPUConfig", "InferenceRPUConfig", "SingleRPUConfig", "UnitCellRPUConfig",
       "DigitalRankUpdateRPUConfig", "TorchInferenceRPUConfig"]
MODS = ["aihwkit.simulator.parameters.io", "aihwkit.simulator.parameters.training",
        "aihwkit.simulator.parameters.inference", "aihwkit.simulator.parameters.mapping",
        "aihwkit.simulator.parameters.pre_post", "aihwkit.simulator.parameters.runtime",
        "aihwkit.simulator.configs.devices", "aihwkit.simulator.configs.compounds",
        "aihwkit.simulator.configs.configs", "aihwkit.simulator.presets.devices", "aihwkit.simulator.presets.utils",
        "aihwkit.simulator.presets.compounds", "aihwkit.simulator.presets.configs",
        "aihwkit.simulator.presets.inference"]


def find(name):
    for m in MODS:
        o = getattr(importlib.import_module(m), name, None)
        if o is not None:
            return o
    raise KeyError(name)


def presets():
    out = []
    for m in ("utils", "devices", "compounds", "inference", "configs"):
        mod = importlib.import_module("aihwkit.simulator.presets." + m)
        out += [n for n, o in vars(mod).items()
                if inspect.isclass(o) and o.__module__ == mod.__name__ and dataclasses.is_dataclass(o)]
    return out


def canon(v):
    if isinstance(v, enum.Enum):
        return str(v.value)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return str(v)
    if isinstance(v, (list, tuple)):
        return ",".join(canon(x) for x in v)
    return "%.5g" % float(v)


def kind(tp, v):
    o = typing.get_origin(tp) or tp
    if isinstance(v, enum.Enum):
        return "e"
    if isinstance(v, bool):
        return "b"
    if isinstance(v, list):
        return "l"
    if o is float and isinstance(v, (int, float)):
        return "f"
    if o is int and isinstance(v, int):
        return "i"
    return None


def layout(cls):
    x = cls()
    f, r, d = [], [], False
    for fl in dataclasses.fields(cls):
        v = getattr(x, fl.name)
        if fl.name == "unit_cell_devices":
            d = True
        elif dataclasses.is_dataclass(v) and not isinstance(v, type):
            r.append(fl.name)
        else:
            k = kind(fl.type, v)
            if k:
                f.append((fl.name, k))
    return x, f, r, d


def bound(cls, x, names):
    bc = get_bindings_class(x, RPUDataType.FLOAT)
    if bc is None:
        return {n: False for n in names}
    b, ign = bc(), getattr(cls, "bindings_ignore", [])
    m = {"forward": "forward_io", "backward": "backward_io"} if cls.__name__.endswith("RPUConfig") else {}
    return {n: hasattr(b, m.get(n, n)) and n not in ign for n in names}


def tree(x, names):
    """TLA+ expression of the default tree of object x."""
    cls = type(x).__name__
    _, f, r, d = layout(type(x))
    base = type(x)()
    o = "Def." + cls if False else "D_" + cls
    out = o
    for n, _k in f:
        if canon(getattr(x, n)) != canon(getattr(base, n)):
            out = 'SetF(%s, "%s", "%s")' % (out, n, canon(getattr(x, n)))
    for n in r:
        if repr(getattr(x, n)) != repr(getattr(base, n)):
            out = 'SetR(%s, "%s", %s)' % (out, n, tree(getattr(x, n), names))
    if d and repr(x.unit_cell_devices) != repr(base.unit_cell_devices):
        out = "SetD(%s, <<%s>>)" % (out, ", ".join(tree(y, names) for y in x.unit_cell_devices))
    return out


def seq(xs):
    return "<<" + ", ".join(xs) + ">>"


def wrap(s, ind="    "):
    out, line = [], ""
    for w in s.split(" "):
        if len(line) + len(w) > 110:
            out.append(line)
            line = ind
        line += w + " "
    return "\n".join(out + [line]).rstrip()


def main():
    names, todo, defs, rows = [], PAR + DEV + CMP + RPU + presets(), [], []
    for n in todo:
        cls = find(n)
        x, f, r, d = layout(cls)
        bf, br = bound(cls, x, [a for a, _ in f]), bound(cls, x, r)
        parent = [c.__name__ for c in cls.__mro__[1:] if c.__name__ in names]
        par = parent[0] if parent else None
        px = find(par)() if par else None
        pl = layout(find(par)) if par else None
        if par and [a for a, _ in pl[1]] == [a for a, _ in f] and pl[2] == r:
            e = 'Rename(D_%s, "%s")' % (par, n)
            for a, _ in f:
                if canon(getattr(x, a)) != canon(getattr(px, a)):
                    e = 'SetF(%s, "%s", "%s")' % (e, a, canon(getattr(x, a)))
            for a in r:
                if repr(getattr(x, a)) != repr(getattr(px, a)):
                    e = 'SetR(%s, "%s", %s)' % (e, a, tree(getattr(x, a), names))
            if d and repr(x.unit_cell_devices) != repr(px.unit_cell_devices):
                e = "SetD(%s, %s)" % (e, seq(tree(y, names) for y in x.unit_cell_devices))
            rows.append((n, 'SAME', par))
        else:
            rows.append((n, seq('<<"%s", "%s", %s>>' % (a, k, str(bf[a]).upper()) for a, k in f),
                         seq('<<"%s", %s>>' % (a, str(br[a]).upper()) for a in r)))
            e = '[cls |-> "%s", f |-> %s, r |-> %s, d |-> %s]' % (
                n, seq('"%s"' % canon(getattr(x, a)) for a, _ in f), seq(tree(getattr(x, a), names) for a in r),
                seq(tree(y, names) for y in x.unit_cell_devices) if d else "<<>>")
        names.append(n)
        defs.append("D_%s ==\n    %s" % (n, wrap(e)))
    w = sys.stdout.write
    w("---------------------------- MODULE ConfigSchema ----------------------------\n")
    w("(* The fields of the configuration classes: <<name, type, given to the simulator>>, the fields holding other *)\n"
      "(* configurations: <<name, given to the simulator>>, and the documented defaults.  Type: f(loat), i(nt),     *)\n"
      "(* b(ool), e(num), l(ist).  Written by lib/cfgschema.py and reviewed against the documentation.              *)\n")
    w("EXTENDS Integers, Sequences\n\n")
    for n, a, b in rows:
        if a == "SAME":
            w("F_%s == F_%s\nR_%s == R_%s\n" % (n, b, n, b))
        else:
            w("F_%s ==\n    %s\nR_%s ==\n    %s\n" % (n, wrap(a), n, wrap(b)))
    w("\nFieldsOf == [\n  %s]\n" % ",\n  ".join("%s |-> F_%s" % (n, n) for n in names))
    w("RefsOf == [\n  %s]\n" % ",\n  ".join("%s |-> R_%s" % (n, n) for n in names))
    bs = ['"%s"' % next(c.__name__ for c in find(n).__mro__ if not c.__module__.startswith("aihwkit.simulator.presets"))
          for n in names]
    w("\\* the class a preset specializes\nBaseOf == [\n  %s]\n" % ",\n  ".join("%s |-> %s" % z for z in zip(names, bs)))
    w("""
FIdx(cls, n) == CHOOSE i \\in 1..Len(FieldsOf[cls]) : FieldsOf[cls][i][1] = n
RIdx(cls, n) == CHOOSE i \\in 1..Len(RefsOf[cls]) : RefsOf[cls][i][1] = n
SetF(t, n, v) == [t EXCEPT !.f[FIdx(t.cls, n)] = v]
SetR(t, n, u) == [t EXCEPT !.r[RIdx(t.cls, n)] = u]
SetD(t, us) == [t EXCEPT !.d = us]
Rename(t, n) == [t EXCEPT !.cls = n]

""")
    w("\n".join(defs) + "\n")
    w("\nDef == [\n  %s]\n" % ",\n  ".join("%s |-> D_%s" % (n, n) for n in names))
    w("=============================================================================\n")


if __name__ == "__main__":
    main()
