"""Which specifications (suites) decide which property."""

SUITES = {
    "train": dict(spec="Train", adapter="train",
                  quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=250),
                  thorough=dict(explore=[dict(cfgs="Cfgs0", depth=5), dict(cfgs="Cfgs1", depth=12, simulate=3000, all=False)],
                                traces=6000)),
    "mapping": dict(spec="Mapping", adapter="mapping",
                    quick=dict(explore=[dict(cfgs="Cfgs0", depth=3, limit=1500)], traces=300),
                    thorough=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=20000),
                                           dict(cfgs="Cfgs1", depth=12, simulate=3000, all=False)], traces=6000)),
    "checkpoint": dict(spec="Checkpoint", adapter="checkpoint",
                       quick=dict(explore=[dict(cfgs="CfgsPlan", depth=7), dict(cfgs="Cfgs0", depth=4, limit=800)], traces=400),
                       thorough=dict(explore=[dict(cfgs="CfgsPlan", depth=7),
                                              dict(cfgs="Cfgs0", depth=5, limit=40000)], traces=8000)),
    "transfer": dict(spec="Transfer", adapter="transfer",
                     quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=600),
                     thorough=dict(explore=[dict(cfgs="Cfgs0", depth=5, limit=30000),
                                            dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=12000)),
    "unitcell": dict(spec="UnitCell", adapter="unitcell",
                     quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=600),
                     thorough=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=30000),
                                            dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=12000)),
    "mixedprec": dict(spec="MixedPrec", adapter="mixedprec",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=600),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=5, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=12000)),
    "pulsed": dict(spec="Pulsed", adapter="pulsed",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=600),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=12000)),
    "maintain": dict(spec="Maintain", adapter="maintain",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=600),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=12000)),
    "hwtrain": dict(spec="HwTrain", adapter="hwtrain",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=600),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=5, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=12000)),
    "inference": dict(spec="Inference", adapter="inference",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=600),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=5, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=12000)),
    "tiling": dict(spec="Tiling", adapter="tiling",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=400),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=5, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=8000)),
    "convert": dict(spec="Convert", adapter="convert",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=400),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=5, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=8000)),
    "inprange": dict(spec="InputRange", adapter="inprange",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=3, limit=1500)], traces=400),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=8000)),
    "mvm": dict(spec="Mvm", adapter="mvm",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=2, limit=1500)], traces=400),
                thorough=dict(explore=[dict(cfgs="Cfgs1", depth=3, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=8000)),
    "rnn": dict(spec="Rnn", adapter="rnn",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=2, limit=1000)], traces=240),
                thorough=dict(explore=[dict(cfgs="Cfgs1", depth=2, limit=30000),
                                       dict(cfgs="Cfgs1", depth=12, simulate=4000, all=False)], traces=8000)),
    "quant": dict(spec="Quant", adapter="quant",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=3, limit=2000)], traces=600),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=400, all=False)], traces=12000)),
    "torchtransfer": dict(spec="TorchTransfer", adapter="torchtransfer",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=600),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=5, limit=30000),
                                       dict(cfgs="Cfgs1", depth=20, simulate=4000, all=False)], traces=12000)),
    "qconv": dict(spec="QConv", adapter="qconv",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=2, limit=1000)], traces=300),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=2, limit=30000)], traces=8000)),
    "config": dict(spec="Config", adapter="config",
                   quick=dict(explore=[dict(cfgs="Cfgs0", depth=3, limit=1200)], traces=350),
                   thorough=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=20000)], traces=8000)),
    "qtile": dict(spec="QTile", adapter="qtile",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=3, limit=1500)], traces=400),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=30000),
                                       dict(cfgs="Cfgs1", depth=14, simulate=400, all=False)], traces=8000)),
    "views": dict(spec="Views", adapter="views",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=400),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=5, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=8000)),
    "conv": dict(spec="Conv", adapter="conv",
                quick=dict(explore=[dict(cfgs="Cfgs0", depth=4, limit=1500)], traces=400),
                thorough=dict(explore=[dict(cfgs="Cfgs0", depth=5, limit=30000),
                                       dict(cfgs="Cfgs1", depth=16, simulate=4000, all=False)], traces=8000)),
}

PROPS = {
    "C18": dict(suites=["quant", "qconv", "qtile"], assumptions=[]),
    "C19": dict(suites=["config"], assumptions=[]),
    "C17": dict(suites=["rnn"], assumptions=[]),
    "C16": dict(suites=["mvm"], assumptions=[]),
    "C15": dict(suites=["inprange"], assumptions=[]),
    "C13": dict(suites=["convert"], assumptions=[]),
    "C14": dict(suites=["views"], assumptions=[]),
    "C11": dict(suites=["tiling"], assumptions=[]),
    "C12": dict(suites=["conv"], assumptions=[]),
    "C09": dict(suites=["inference"], assumptions=[]),
    "C10": dict(suites=["hwtrain"], assumptions=[]),
    "C08": dict(suites=["maintain"], assumptions=[]),
    "C07": dict(suites=["pulsed"], assumptions=[]),
    "C06": dict(suites=["mixedprec"], assumptions=[]),
    "C05": dict(suites=["unitcell"], assumptions=[]),
    "C04": dict(suites=["transfer", "torchtransfer"], assumptions=[]),
    "C01": dict(suites=["train"], assumptions=[]),
    "C03": dict(suites=["checkpoint"], assumptions=[]),
    "C02": dict(suites=["mapping"], assumptions=[]),
}
