"""Text of DESIGN.md which is not in proptext.py."""

HEAD = """# Model-based verification of aihwkit

*(written by `lib/gen.py` from `lib/designtext.py`, `lib/proptext.py`, `known_findings.json` and `seeded/`)*

## Approach

The specification is written in **TLA+** and checked with **TLC**. TLA+ rather than Quint because the state of an analog
layer is best written as nested sequences of integers with partial functions, because TLC explores such models explicitly
without type annotations or bounds on the encoding, dumps the state graph and evaluates the same operators on recorded
executions. Quint's verifier goes through Apalache (SMT), for which integer matrix products are the worst case.

aihwkit is numerical and random. Three observations make it a state machine which can be compared exactly:

* every documented source of randomness and every analog non-ideality can be switched off or made deterministic by the
  configuration (zero noise, zero device-to-device variation, fully determined pulse trains, perfect or noise-free I/O);
* with small integer (or dyadic) weights, inputs, gradients and step sizes, float32 arithmetic is exact, so that the
  specification can use integers in units of a configuration-dependent quantum and equality is meaningful;
* what remains random on purpose (stochastic refresh, order of random columns, dropout) is specified as nondeterminism,
  and a recorded execution is accepted if some behaviour of the specification explains it.

Each property has one specification module `spec/X.tla` with a common interface: `InitSt(c)`, `Step(c, s, a)` (the *set*
of next states), `Obs(c, s)` (what can be observed), `Inv(c, s)`, `StepOk(c, s, a, n)` (the property as invariants and
step properties of the specification), `Cfgs*`, `Acts(c, s)` (bounded model). `Explore.tla` is the state machine over this
interface; `TraceCheck.tla` the acceptor of recorded executions.

A check (`check.sh ID quick|thorough`, `lib/vk.py`)

1. builds aihwkit from the present working tree of /repo: C++ sources are compiled only where they differ from the
   build which is already there (`lib/build.py`, by the hashes of all sources and headers, else a full compile of the
   affected objects in a scratch folder); Python is used from /repo/src;
2. *model check*: TLC checks `Inv` and `StepOk` on the bounded model and dumps its state graph;
3. *spec → code*: behaviours (paths of the state graph; all edges of the graph are covered first, then evenly spread
   paths, then, thorough, random simulation of larger configurations) are executed in the real code through
   `lib/adapters/x.py`, and every observation is compared with the one of the specification;
4. *code → spec*: random executions (random configuration, sizes, values, operations; far outside the bounded model) are
   recorded from the code and each is checked by TLC against the specification (`TraceCheck`);
5. *self test*: recorded integers are corrupted and have to be rejected, so that an acceptor which accepts everything
   is noticed in the run itself;
6. writes `evidence/ID.json`: states, edges, behaviours, traces, coverage of actions and configurations.

A divergence, a rejected trace, an exception or a crash of the process is a violation, written to
`evidence/replay-ID-k.json`; `check.sh replay FILE` executes it again. Random choices depend on `VERIF_SEED` only.

Why this reaches what unit tests cannot: the unit tests of aihwkit set up one configuration and look at one operation.
The guarantees are about histories: a gradient not cleared, a pointer which restarts, a scale which two operations treat
differently, a cached size. All orders of operations to the given depth are enumerated in the model, and executed.

What it cannot decide: statistical statements (noise strengths, distributions of devices), CUDA (not in this build),
floating-point accuracy, and behaviour outside of the bounds explored (sampled by recorded executions, not proved).
"""

PER = dict(
    C01=dict(
        spec="`Train.tla`: weights, gradient traces, parameter groups, modes of several layers (analog of several kinds, mapped, "
             "digital, frozen); forward, backward, step, closure step, zero_grad, regroup, set learning rate, freeze, copy, reload.",
        limits="Deep copies of optimizers with momentum; `zero_grad` does not clear the trace of analog layers (the step does): "
               "specified as it is."),
    C02=dict(
        spec="`Mapping.tla`: logical weights L = tile weights x mapping scale x learned scale, bias in the tile or digital; set, raw "
             "set, remap, re-scale, learn, train, forward, read_weights, program_weights, cast, copy, reload, replace configuration.",
        limits="`read_weights` and `program_weights` are compared with a tolerance; maps which depend on rounding (rows which float "
               "arithmetic left close to zero) are avoided."),
    C03=dict(
        spec="`Checkpoint.tla`: save, load, pickle, copy, continue on two instances, over all device/compound kinds of the zoo "
             "(`adapters/zoo.py`); `CfgsPlan` enumerates all plans (before, after, kind of restore).",
        limits="State of the random generators is not saved by design; the runs compared are deterministic."),
    C04=dict(
        spec="`Transfer.tla`: fast and slow weights, transfer counters, column or row pointers, chopper signs, buffer, read-out "
             "vectors of TransferCompound, BufferedTransfer, ChoppedTransfer and DynamicTransfer. `TorchTransfer.tla`: the tile in Python (TorchTransferTile): fast and slow weights, buffer, choppers and counters of the chosen rows or columns, AGAD means with their past, schedule, decay and post updates; checkpoints, state dicts and copies at any point.",
        limits="Random column selection and random choppers as nondeterminism; quantities of DynamicTransfer at rounding borders "
               "are avoided."),
    C05=dict(
        spec="`UnitCell.tla`: reference, one-sided, vector, weighted cells: hidden weights, which device receives which pulse, "
             "refresh of saturated devices.",
        limits="Refresh readout noise zero; `copy_inverted` of OneSided unasserted."),
    C06=dict(
        spec="`MixedPrec.tla`: digital accumulator chi, quantised activations, row pointer, transferred pulses.",
        limits="Stochastic rounding off."),
    C07=dict(
        spec="`Pulsed.tla`: per cross point bounds, step size laws (constant, linear, soft bounds, exponential, power, piecewise), "
             "number of coincidences per update scheme (deterministic implicit, mean count, none), update management.",
        limits="Stochastic trains are replaced by deterministic ones, whose counts are specified; distributions unasserted."),
    C08=dict(
        spec="`Maintain.tla`: decay, diffusion off, drift, reset, clipping to bounds, and their counters and reset biases; "
             "constraints of persistent weights.",
        limits="Diffusion, reset and drift noise magnitudes are unasserted."),
    C09=dict(
        spec="`Inference.tla`: programmed weights, drift time since programming, drift coefficients, global drift compensation "
             "baseline and factor; program, drift, eval/train, set weights, copy, reload; drift of PCM-like and other models.",
        limits="Read noise, magnitude of programming noise, read-outs at the 1e-4 clamp are unasserted."),
    C10=dict(
        spec="`HwTrain.tla`: weights and modified weights; when a modified copy is created, which pass uses which, what the update "
             "changes, clipping and remapping after it; C++ and torch inference tiles.",
        limits="The discretisation step of the torch tile is half as fine as that of the C++ tile for the same parameter (unasserted "
               "documentation discrepancy). LAYER_GAUSSIAN, DOREFA and noise strengths unasserted."),
    C11=dict(
        spec="`Tiling.tla`: composition of one `Mapping` machine per tile of a mapped layer; split of inputs, concatenation and sum "
             "of outputs, digital bias at the layer, frozen tiles, batch shapes of one to three dimensions.",
        limits="Global maximum tile sizes at most 4 in the model, 7 in recorded executions."),
    C12=dict(
        spec="`Conv.tla`: convolution as matrix product over index maps, over histories of image sizes; 1-3 dimensions, stride, "
             "padding, dilation, groups; indexed or unfolded.",
        limits="Unbatched images only where the code supports them."),
    C13=dict(
        spec="`Convert.tla`: a model as graph of modules (types, children, sharing), digital or analog per node, modes, weights; "
             "convert with map, exclusions and per-name configurations, convert back, add to all analog or digital weights, "
             "mutate the model before conversion, modes, copy, reload. Two user classes of the same name. Convolutions are converted "
             "there and back in `Conv.tla`.",
        limits="Excluding a name of a module which is also registered under a name not excluded; hooks and `requires_grad` of "
               "replaced layers; string paddings of convolutions (`same`, `valid`), which fail in the forward pass."),
    C14=dict(
        spec="`Views.tla` composes `Mapping`: mode of the analog parameter (placeholder, data view, buffer), tensors given to and "
             "taken from the layer, in-place writes to each of them, clip/remap after updates.",
        limits="Device moves only to the CPU (no CUDA here)."),
    C15=dict(
        spec="`InputRange.tla`: one or two layers; per layer range, number of averaged batches, enabled, learned, forward mode, noise "
             "management, gradient; passes, optimizer steps, calibrations over sequences of batches, copies. Ranges are integers "
             "(1/12), gradients 1/48; only actions with exactly representable results are explored (a mini model in the adapter "
             "selects the random ones; the expected values always come from the specification).",
        limits="Calibrations with more rows than max_samples (random choice) and quantiles of zero are excluded. As is: rpucuda tiles "
               "pass gradients of clipped inputs on (straight through) and see inputs divided by the range in the update, "
               "torch tiles differentiate the clipping."),
    C16=dict(
        spec="`Mvm.tla`: the analog product as a function of weights, inputs, parameters and the running averages; noise management "
             "(7 kinds), discretization (half to even), bounds, asymmetries, pos/neg separated passes with weight asymmetry, voltage "
             "offsets, output nonlinearity with calibration, IR drop, iterative and worst case bound management with both limits, "
             "output scale, transposed inputs; gradients of the torch tile. Analog values are integers in units 1/64 or 1/256, "
             "intermediate ones rationals; results depending on float rounding (inexact values near a tie) are excluded from "
             "exploration.",
        limits="Noise sources, series resistance and stochastic rounding of values off the grid are excluded. As is: torch tiles always test "
               "both bounds, apply the bound management to the whole batch and treat worst case as iterative; input asymmetry also "
               "acts in one-pass products; rpucuda applies the output scale to perfect products."),
    C17=dict(
        spec="`Rnn.tla`: the four cells with their backward pass, sequences, both directions, stacked layers, states, back-propagation "
             "through time and the update, over histories of sequences. The execution runs with integer activations (sign, sign + 1, "
             "derivative 1) put in at the dispatcher of torch, so that any implementation by tanh and sigmoid gives exact results.",
        limits="Dropout with probabilities between 0 and 1; what tanh and sigmoid compute (torch)."),
    C18=dict(
        spec="`Qmgr.tla`: one quantizer with its range estimator (extremes of the current, all or averaged data, quartiles), its four states, "
             "grid, gradients and copy semantics. `Quant.tla`: quantized linear, convolution (padding modes), embedding and layer norm "
             "layers with cached weights, calibration and checkpoints. `QConv.tla`: conversion of module graphs (shared modules, tied "
             "parameters, analog layers) by a map. `QTile.tla`: single analog tiles and arrays with quantized scales, bias and outputs. Ranges are "
             "multiples of 21 so that every step of 2 and 3 bits is exact.",
        limits="More than 3 bits (same code); percentiles other than quartiles and MSE ranges (range search is a heuristic); range learning "
               "is observed by its gradients, the optimizer is torch."),
    C19=dict(
        spec="`Config.tla`: a heap of configuration objects (106 classes, presets included) with values, references and attributes which are "
             "no fields; the objects of the execution are matched with those of the model by identity, so that every unwanted copy or "
             "sharing shows. What the simulator is given is read back from the bindings objects. `ConfigSchema.tla` lists the documented "
             "fields, their types, whether the simulator gets them, and the defaults (written down once from the documented classes with "
             "lib/cfgschema.py, not regenerated by the checks).",
        limits="Noise models, drift compensations and quantization configurations as fields; SoftBoundsPmaxDevice (computed fields); the "
               "devices inside of the bindings objects of compounds cannot be read back (their effect is decided by C04-C07); data types "
               "other than float are not built here."),
)

TAIL = """## Not applicable

None of the listed properties; statistical properties of noise models were not listed, because a state machine with exact
observations cannot decide them.

## Notes on what the specification says where the code surprises

* The C++ inference tile creates the modified weights only at the end of an update step (after clip, then remap), uses
  them in train mode until the next step (even after `set_weights`), and never in eval mode unless enabled; the torch tile
  creates them in each training forward.
* Drift time is counted from programming; the first drift programs; setting weights clears the compensation reference.
* The first update of the mixed precision compound does not transfer. BufferedTransfer forgets its buffer by default.
* Unbatched images work for non-indexed, non-mapped 2D convolutions only.
* The data view is read only; the buffer mode starts with zeros and is lost when the mode is set again.

## False alarms met and removed

* C02: remap of rows which float arithmetic left near zero: such remaps are excluded (`Shaky`).
* C03: stochastic compounds compared after different numbers of random draws: only deterministic configurations.
* C10: torch DISCRETIZE step compared with the C++ definition: unasserted, see above.
* C12: unbatched indexed convolutions: not supported by the code, excluded.
"""

CAUGHT = {"frozen-keeps-cache": "C18 (missed at first; frozen parameters and sequences around evaluations with cached parameters were added)", "exclude-prefix": "C18 (missed at first; modules whose names are prefixes of each other were added)", "array-bias-alias": "C14 (missed at first; layers on arrays of tiles and the bias given to them were added)", "drift-restart-at-bound": "C08 (missed at first; configurations saturating near the drift target were added)"}
