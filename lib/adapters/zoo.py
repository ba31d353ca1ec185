"""Deterministic (noise free) analog configurations with device-to-device variations."""
from aihwkit.simulator.configs import (
    FloatingPointRPUConfig, SingleRPUConfig, UnitCellRPUConfig, DigitalRankUpdateRPUConfig, InferenceRPUConfig,
    TorchInferenceRPUConfig, QuantizedTorchInferenceRPUConfig,
    FloatingPointDevice, IdealDevice, ConstantStepDevice, LinearStepDevice, SoftBoundsDevice,
    SoftBoundsReferenceDevice, ExpStepDevice, PowStepDevice, PowStepReferenceDevice, PiecewiseStepDevice,
    VectorUnitCell, ReferenceUnitCell, OneSidedUnitCell, TransferCompound, BufferedTransferCompound,
    ChoppedTransferCompound, DynamicTransferCompound, MixedPrecisionCompound, VectorUnitCellUpdatePolicy,
    MappingParameter, PulseType, IOParameters, UpdateParameters, WeightClipParameter, WeightClipType,
    DriftParameter, SimpleDriftParameter, WeightModifierParameter, WeightModifierType, WeightRemapParameter, WeightRemapType)
from aihwkit.simulator.parameters import PrePostProcessingParameter, InputRangeParameter

SEED = 123


def perfect():
    return IOParameters(is_perfect=True)


def upd(bl=31):
    return UpdateParameters(pulse_type=PulseType.DETERMINISTIC_IMPLICIT, desired_bl=bl,
                            update_bl_management=False, update_management=False)


def dev(cls=SoftBoundsDevice, **kw):
    kw = {"dw_min": 0.01, "dw_min_std": 0.0, "reset_std": 0.0, "construction_seed": SEED, **kw}
    return cls(**kw)


def single(device, bias=False, **kw):
    return SingleRPUConfig(device=device, forward=perfect(), backward=perfect(), update=upd(),
                           mapping=MappingParameter(digital_bias=bias), **kw)


def cell(device, bias=False, **kw):
    return UnitCellRPUConfig(device=device, forward=perfect(), backward=perfect(), update=upd(),
                             mapping=MappingParameter(digital_bias=bias), **kw)


def transfer(cls=TransferCompound, n=2, **kw):
    kw = {"unit_cell_devices": [dev(SoftBoundsDevice, w_min=-1.0, w_max=1.0) for _ in range(n)], "transfer_forward": perfect(),
          "transfer_update": upd(), "construction_seed": SEED, "units_in_mbatch": False, "transfer_every": 2.0,
          "fast_lr": 0.5, **kw}
    return cls(**kw)


ZOO = {
    "fp": lambda: FloatingPointRPUConfig(mapping=MappingParameter(digital_bias=False)),
    "fpdecay": lambda: FloatingPointRPUConfig(device=FloatingPointDevice(lifetime=10.0),
                                              mapping=MappingParameter(digital_bias=True, weight_scaling_omega=.5,
                                                                       learn_out_scaling=True, out_scaling_columnwise=True)),
    "fpdrift": lambda: FloatingPointRPUConfig(
        device=FloatingPointDevice(lifetime=20.0, drift=SimpleDriftParameter(nu=.5, t_0=1.0, reset_tol=1e-7)),
        mapping=MappingParameter(digital_bias=False)),
    "constdrift": lambda: single(dev(ConstantStepDevice, drift=DriftParameter(
        nu=.5, nu_dtod=.2, nu_std=0.0, t_0=1.0, reset_tol=1e-7), lifetime=30.0, lifetime_dtod=.2)),
    "ideal": lambda: SingleRPUConfig(device=IdealDevice(), forward=perfect(), backward=perfect(),
                                     update=UpdateParameters(pulse_type=PulseType.NONE),
                                     mapping=MappingParameter(weight_scaling_omega=0.5, weight_scaling_columnwise=True)),
    "const": lambda: single(dev(ConstantStepDevice, lifetime=50.0, lifetime_dtod=0.1)),
    "linear": lambda: single(dev(LinearStepDevice, gamma_up=.1, gamma_down=.1), bias=True),
    "soft": lambda: single(dev()),
    "softref": lambda: single(dev(SoftBoundsReferenceDevice, reference_std=.1)),
    "exp": lambda: single(dev(ExpStepDevice)),
    "pow": lambda: single(dev(PowStepDevice), bias=True),
    "powref": lambda: single(dev(PowStepReferenceDevice, reference_std=.1)),
    "piece": lambda: single(dev(PiecewiseStepDevice, piecewise_up=[1.0, .5, 1.2], piecewise_down=[.5, 1.0, 1.2])),
    "vecall": lambda: cell(VectorUnitCell(unit_cell_devices=[dev(ConstantStepDevice), dev(SoftBoundsDevice)],
                                          construction_seed=SEED)),
    "vecseq": lambda: cell(VectorUnitCell(unit_cell_devices=[dev(ConstantStepDevice), dev(SoftBoundsDevice)],
                                          construction_seed=SEED,
                                          update_policy=VectorUnitCellUpdatePolicy.SINGLE_SEQUENTIAL)),
    "ref": lambda: cell(ReferenceUnitCell(unit_cell_devices=[dev(SoftBoundsDevice), dev(SoftBoundsDevice)],
                                          construction_seed=SEED)),
    "oneside": lambda: cell(OneSidedUnitCell(unit_cell_devices=[dev(SoftBoundsDevice)], refresh_every=3,
                                             refresh_upper_thres=.3, refresh_lower_thres=.1,
                                             refresh_forward=perfect(), refresh_update=upd(),
                                             units_in_mbatch=False, construction_seed=SEED)),
    "transfer": lambda: cell(transfer()),
    "transfer3": lambda: cell(transfer(n=3, transfer_columns=False, gamma=.5, units_in_mbatch=True), bias=True),
    "buffered": lambda: cell(transfer(BufferedTransferCompound, thres_scale=.1)),
    "chopped": lambda: cell(transfer(ChoppedTransferCompound, in_chop_prob=.5, in_chop_random=False, buffer_granularity=.1)),
    "dynamic": lambda: cell(transfer(DynamicTransferCompound, in_chop_prob=.5, in_chop_random=False, buffer_granularity=.1)),
    "mixed": lambda: DigitalRankUpdateRPUConfig(
        device=MixedPrecisionCompound(device=dev(SoftBoundsDevice), transfer_every=2, n_rows_per_transfer=1,
                                      granularity=0.02, construction_seed=SEED),
        forward=perfect(), backward=perfect(), update=upd(), mapping=MappingParameter(digital_bias=False)),
    "inf": lambda: InferenceRPUConfig(forward=perfect(), mapping=MappingParameter(
        weight_scaling_omega=1.0, learn_out_scaling=True, digital_bias=True),
        clip=WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=.9)),
    "infremap": lambda: InferenceRPUConfig(forward=perfect(), mapping=MappingParameter(
        weight_scaling_omega=1.0, weight_scaling_columnwise=True, digital_bias=True),
        remap=WeightRemapParameter(type=WeightRemapType.CHANNELWISE_SYMMETRIC)),
    "infmod": lambda: InferenceRPUConfig(forward=perfect(), mapping=MappingParameter(digital_bias=True),
        modifier=WeightModifierParameter(type=WeightModifierType.DISCRETIZE, res=.25, rel_to_actual_wmax=False,
                                         assumed_wmax=1.0, enable_during_test=True)),
    "infmodw": lambda: InferenceRPUConfig(forward=perfect(), mapping=MappingParameter(
        digital_bias=False, weight_scaling_omega=.5),
        modifier=WeightModifierParameter(type=WeightModifierType.DISCRETIZE, res=.25, rel_to_actual_wmax=True)),
    "tinfmod": lambda: TorchInferenceRPUConfig(forward=perfect(), mapping=MappingParameter(digital_bias=True),
        modifier=WeightModifierParameter(type=WeightModifierType.DISCRETIZE, res=.25, rel_to_actual_wmax=False,
                                         assumed_wmax=1.0)),
    "infrange": lambda: InferenceRPUConfig(forward=IOParameters(is_perfect=True), mapping=MappingParameter(
        digital_bias=True), pre_post=PrePostProcessingParameter(input_range=InputRangeParameter(
            enable=True, learn_input_range=True, init_value=2.0, init_from_data=2, init_std_alpha=2.0, decay=0.1))),
    "tinf": lambda: TorchInferenceRPUConfig(forward=perfect(), mapping=MappingParameter(
        weight_scaling_omega=1.0, weight_scaling_columnwise=True, digital_bias=True),
        clip=WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=.8)),
    "tinfremap": lambda: TorchInferenceRPUConfig(forward=perfect(), mapping=MappingParameter(
        weight_scaling_omega=1.0, weight_scaling_columnwise=False, digital_bias=True, learn_out_scaling=True),
        remap=WeightRemapParameter(type=WeightRemapType.CHANNELWISE_SYMMETRIC)),
    "tinfrange": lambda: TorchInferenceRPUConfig(forward=perfect(), mapping=MappingParameter(
        digital_bias=True), pre_post=PrePostProcessingParameter(input_range=InputRangeParameter(
            enable=True, learn_input_range=True, init_value=2.0, init_from_data=2, init_std_alpha=2.0, decay=0.1))),
}
