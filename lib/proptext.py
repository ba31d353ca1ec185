"""Text of the properties (source of properties.jsonl and MANIFEST.json)."""

NOTE = ("Exhaustive over the bounded model of the specification; the code is bound to it by replaying every explored "
        "behaviour (or a seeded sample) and by validating recorded random executions. Trusted: TLC, the adapter which "
        "maps actions to API calls, exact small-integer float32 arithmetic. Beyond the bounds: sampled, not proved.")

PROPTEXT = [
    dict(
        id="C01", title="Training applies exactly the accumulated gradients, once, and nothing else",
        statement="For any sequence of forward and backward passes, optimizer steps (also with closures), learning rate "
                  "changes, freezing, mode switches, regrouping and reloading, a step changes the weights of every analog "
                  "layer by exactly the learning rate of its parameter group times the gradients accumulated since its "
                  "last step, and clears them. Nothing else changes weights: not forward or backward passes in any mode, "
                  "not a step with zero learning rate or without gradients; frozen layers accumulate nothing while still "
                  "passing gradients through. Outputs and input gradients are those of the current weights.",
        over=["histories", "inputs", "configurations"],
        text="All histories of training operations over models mixing analog (floating point, ideal, inference, mapped) "
             "and digital layers, all batch shapes, biases, optimizers and parameter groups.",
        why="The unit tests run one forward, backward and step per configuration; the order of operations, accumulation "
            "over several passes, zero learning rates, freezing and reloading in between are not enumerated.",
        files=["src/aihwkit/optim/analog_optimizer.py", "src/aihwkit/optim/context.py",
               "src/aihwkit/simulator/tiles/functions.py", "src/aihwkit/simulator/tiles/base.py"],
        mechanism=[("gradient trace of the analog context", "src/aihwkit/simulator/tiles/functions.py"),
                   ("optimizer step", "src/aihwkit/optim/analog_optimizer.py")],
        observe=["layer weights after each operation", "outputs", "input gradients"],
        specs=["Train"], note=NOTE),
    dict(
        id="C02", title="Weight scaling, setting, reading and remapping keep the logical weights",
        statement="Whatever scales a layer carries (mapping, learned or remapped; per layer or per column), the weights a "
                  "user sets are the weights the layer computes with and the weights it returns, until something "
                  "documented changes them. Forward outputs, input gradients and learned-scale gradients are those of the "
                  "logical weights, a training step moves them by the documented multiple of the gradient, and clipping, "
                  "remapping, re-scaling, programming and data type changes alter only what they document.",
        over=["histories", "configurations", "inputs"],
        text="All histories of setting, reading, scaling, remapping, programming, training and casting over the tile kinds "
             "and mapping options (omega, columnwise, learned scales, analog or digital bias).",
        why="The tests compare one write with one read per configuration; scales interact over several operations "
            "(remap after learning, set without scaling after set with scaling), which no sample of pairs covers.",
        files=["src/aihwkit/simulator/tiles/periphery.py", "src/aihwkit/simulator/tiles/inference.py",
               "src/aihwkit/simulator/tiles/inference_torch.py", "src/aihwkit/simulator/tiles/module.py"],
        mechanism=[("scales of the tile periphery", "src/aihwkit/simulator/tiles/periphery.py"),
                   ("compensation of the scales in the gradient", "src/aihwkit/simulator/tiles/inference_torch.py")],
        observe=["logical weights and bias", "outputs", "gradients", "scales"],
        specs=["Mapping"], note=NOTE),
    dict(
        id="C03", title="Saved, copied and reloaded models are indistinguishable from the original",
        statement="A model saved and restored at any point of its life (by deepcopy, pickle, state_dict into a fresh or a "
                  "used model, alone or with its optimizer) is in the same observable state as the original and as a model "
                  "that went through the same history without being saved: weights, hidden device parameters, scales, "
                  "counters, drift references and outputs. Both continue identically under the same operations and "
                  "neither affects the other.",
        over=["histories", "crash_points", "configurations"],
        text="All histories of training, evaluation, programming, saving, copying and loading over 27 kinds of analog "
             "configurations and seven layer types.",
        why="The tests save once right after construction or a single step and compare weights; hidden state shows up only "
            "some steps after restoring, and aliasing only when one copy keeps training.",
        files=["src/aihwkit/simulator/tiles/base.py", "src/aihwkit/simulator/tiles/module.py",
               "src/aihwkit/optim/context.py", "src/rpucuda/rpu_transfer_device.cpp", "src/rpucuda/rpu_vector_device.cpp"],
        mechanism=[("analog state", "src/aihwkit/simulator/tiles/base.py"),
                   ("dumpExtra / loadExtra of the devices", "src/rpucuda/rpu_pulsed_device.h")],
        observe=["all readable tile state", "outputs", "state after further identical operations"],
        specs=["Checkpoint"], note=NOTE),
    dict(
        id="C04", title="Tiki-Taka compounds transfer gradients as documented",
        statement="In every transfer compound (plain, buffered, chopped, dynamic) a gradient update changes only the fast "
                  "device, by its documented learning rate; every transfer_every updates the next column or row, in cyclic "
                  "order, is read and moved towards the next device by exactly the transfer rule (rates, buffer threshold, "
                  "momentum, reset, choppers and their reference), and each entry exactly once. The effective weight is "
                  "always the gamma-weighted sum of the devices with the choppers undone, within the device bounds, and "
                  "zero learning rate changes nothing. The transfer tile implemented in python follows the same rules, leaves its inputs "
                  "alone, and continues them alike after checkpoints and copies.",
        over=["histories", "configurations", "inputs"],
        text="All sequences of updates with any batch split, learning rate changes and weight writes, over device counts, "
             "sizes, read counts, columns or rows, scalings, buffer and chopper settings (deterministic steps).",
        why="The tests check that a compound trains; which column is transferred when, with which sign and what remains in "
            "the buffer, depends on the whole schedule of updates and batch sizes.",
        files=["src/rpucuda/rpu_transfer_device.cpp", "src/rpucuda/rpu_buffered_transfer_device.cpp",
               "src/rpucuda/rpu_chopped_transfer_device.cpp", "src/rpucuda/rpu_dynamic_transfer_device.cpp",
               "src/aihwkit/simulator/tiles/transfer.py",
               "src/aihwkit/simulator/configs/compounds.py"],
        mechanism=[("transfer schedule and reads", "src/rpucuda/rpu_transfer_device.cpp"),
                   ("buffer and choppers", "src/rpucuda/rpu_chopped_transfer_device.cpp"),
                   ("transfer tile in python", "src/aihwkit/simulator/tiles/transfer.py")],
        observe=["weights", "hidden weights of every device", "buffers", "chopper references", "outputs"],
        specs=["Transfer", "TorchTransfer"], note=NOTE),
    dict(
        id="C05", title="Multi-device unit cells update the right device and sum to the weight",
        statement="In vector, reference and one-sided unit cells every update changes exactly the devices which the update "
                  "policy selects (all, the fixed one, the next in turn, one at random), each by its own step and within its "
                  "own bounds, and the effective weight is always the weighted sum of the devices. Writing weights reaches "
                  "exactly the selected devices. One-sided pairs only ever increase by updates, and a due refresh rewrites "
                  "exactly the saturated pairs without changing the weight.",
        over=["histories", "configurations", "inputs"],
        text="All sequences of updates in any batch split, weight writes, column resets and index changes, over device counts, "
             "policies, weightings, bounds, steps and refresh schedules (deterministic steps).",
        why="The tests train a unit cell for one step and look at the sum; which device holds what depends on the update "
            "order, saturation and the refresh schedule over many updates.",
        files=["src/rpucuda/rpu_vector_device.cpp", "src/rpucuda/rpu_onesided_device.cpp",
               "src/rpucuda/rpu_weight_updater.cpp", "src/aihwkit/simulator/configs/compounds.py"],
        mechanism=[("update policies and reduction", "src/rpucuda/rpu_vector_device.cpp"),
                   ("one-sided update and refresh", "src/rpucuda/rpu_onesided_device.cpp")],
        observe=["weights", "hidden weights of every device", "hidden update index", "outputs"],
        specs=["UnitCell"], note=NOTE),
    dict(
        id="C06", title="Mixed precision accumulates digitally and transfers exactly",
        statement="In the mixed precision compound every update adds learning rate times the outer product of the (quantized) "
                  "activations and errors to the digital accumulator and leaves the analog weight alone. Every transfer_every "
                  "updates the next rows, in cyclic order and all of them in turn, are moved: the weight changes by whole "
                  "granularity steps and exactly that amount leaves the accumulator, so nothing is lost or counted twice. "
                  "Writing weights empties the accumulator and zero learning rate changes nothing.",
        over=["histories", "configurations", "inputs"],
        text="All sequences of updates in any batch split, weight writes and learning rate changes, over sizes, bin counts, "
             "granularities, transfer intervals, rows per transfer and transfer learning rates.",
        why="The tests train one layer and check that it learns; the remainder kept per entry, the row order and the bin "
            "combinations need whole schedules.",
        files=["src/rpucuda/rpu_mixedprec_device.cpp", "src/rpucuda/rpu_mixedprec_device_base.cpp",
               "src/aihwkit/simulator/configs/compounds.py"],
        mechanism=[("rank update and quantization", "src/rpucuda/rpu_mixedprec_device.cpp"),
                   ("transfer schedule", "src/rpucuda/rpu_mixedprec_device_base.cpp")],
        observe=["weights", "digital accumulator", "outputs"],
        specs=["MixedPrec"], note=NOTE),
    dict(
        id="C07", title="Pulsed updates apply exactly the coincidences their device model prescribes",
        statement="A pulsed update moves each crosspoint by the number of pulse coincidences that the pulse type, pulse train "
                  "length, update management, resolution and learning rate prescribe for its inputs, up for negative and down "
                  "for positive products, each pulse by the step of the device model at the present weight (constant, linear, "
                  "soft bounds, power, piecewise, reference), never beyond the bounds of the device. Stochastic pulse trains "
                  "give at most the train length of coincidences in the right direction and are exact where the probabilities "
                  "are zero or one; no other crosspoint changes.",
        over=["inputs", "configurations", "histories"],
        text="All update sequences (values, signs, zeros, saturation) over pulse types, pulse train lengths, management "
             "switches, resolutions, device models and their parameters, learning rates and weight writes.",
        why="The tests compare one average update with a tolerance; wrong counts, signs or step sizes for particular "
            "magnitudes, bounds or settings stay below it.",
        files=["src/rpucuda/rpu_weight_updater.cpp", "src/rpucuda/dense_bit_line_maker.cpp",
               "src/rpucuda/sparse_bit_line_maker.cpp", "src/rpucuda/rpu_pulsed_meta_parameter.cpp",
               "src/rpucuda/rpu_constantstep_device.cpp", "src/rpucuda/rpu_linearstep_device.cpp",
               "src/rpucuda/rpu_powstep_device.cpp", "src/rpucuda/rpu_piecewisestep_device.cpp",
               "src/rpucuda/rpu_softbounds_reference_device.cpp", "src/aihwkit/simulator/configs/devices.py"],
        mechanism=[("pulse trains", "src/rpucuda/dense_bit_line_maker.cpp"),
                   ("pulse trains, sparse", "src/rpucuda/sparse_bit_line_maker.cpp"),
                   ("device response", "src/rpucuda/rpu_linearstep_device.cpp")],
        observe=["weights", "hidden parameters"],
        specs=["Pulsed"], note=NOTE),
    dict(
        id="C08", title="Decay, drift, diffusion, clipping and reset follow the device parameters",
        statement="Decay shrinks each weight towards its reset value by the decay rate of its crosspoint, power-law drift "
                  "follows the time since the weight was last changed from the value it had then, diffusion moves only "
                  "crosspoints with a diffusion rate, clipping and column resets change exactly the addressed weights, and "
                  "no operation leaves the device bounds. The end of an update step applies diffusion and then decay, if configured. "
                  "Per-crosspoint (hidden) parameters can be read and written at any time, take effect from then on and change "
                  "nothing else (the persistent weights of devices with write noise included), and copies continue alike.",
        over=["inputs", "configurations", "histories"],
        text="All sequences of updates, weight writes, decay, drift, diffusion, clipping, column resets (wrapping around), hidden "
             "parameter writes and copies, over floating point, ideal, pulsed and vector devices with their parameters.",
        why="Drift and decay depend on when each weight was last changed and on parameters per crosspoint; the tests call each "
            "operation once on fresh tiles.",
        files=["src/rpucuda/rpu_pulsed_device.cpp", "src/rpucuda/rpu_simple_device.cpp", "src/rpucuda/weight_drifter.cpp",
               "src/rpucuda/rpu_vector_device.cpp", "src/rpucuda/rpu.cpp", "src/rpucuda/rpu_pulsed.cpp",
               "src/aihwkit/simulator/tiles/rpucuda.py"],
        mechanism=[("decay and drift", "src/rpucuda/rpu_pulsed_device.cpp"), ("drift clock", "src/rpucuda/weight_drifter.cpp")],
        observe=["weights", "hidden parameters"],
        specs=["Maintain"], note=NOTE),
    dict(
        id="C09", title="Programming, drift and drift compensation of inference tiles",
        statement="Programming writes the reference weights (or the present ones) through the conductance converter and the noise "
                  "model, remembers them, and restarts drift and compensation; later drifts are always counted from the programmed "
                  "weights, so they never accumulate, and program first if needed. In evaluation (only) the outputs are multiplied "
                  "with the ratio of baseline and present readout of the compensation in use (global, exact reference, per output); "
                  "uniform drift is compensated completely. Converters keep conductances in their range and give the weights back, "
                  "programming and drifting is refused in training mode, and copies and checkpoints continue alike.",
        over=["histories", "configurations", "inputs"],
        text="All sequences of weight writes, training, programming, drifts to any time, forward passes in both modes, mode changes "
             "and copies over converters, noise models, compensations, C++ and torch tiles.",
        why="The tests drift once after programming once, with random noise, and compare shapes; what the second programming or "
            "drift starts from, and with which baseline, is not tested.",
        files=["src/aihwkit/simulator/tiles/inference.py", "src/aihwkit/inference/noise/base.py", "src/aihwkit/inference/noise/pcm.py",
               "src/aihwkit/inference/converter/conductance.py", "src/aihwkit/inference/compensation/drift.py",
               "src/aihwkit/inference/utils.py", "src/aihwkit/nn/modules/base.py"],
        mechanism=[("programming and drift", "src/aihwkit/simulator/tiles/inference.py"),
                   ("conductance converters", "src/aihwkit/inference/converter/conductance.py"),
                   ("drift compensation", "src/aihwkit/inference/compensation/drift.py")],
        observe=["weights", "outputs", "conductances", "alpha"],
        specs=["Inference"], note=NOTE),
    dict(
        id="C10", title="Hardware-aware training modifies, clips and remaps weights exactly as configured",
        statement="After each update step the weights of an inference tile are clipped, then remapped (into the output scales, "
                  "leaving the logical weights unchanged) and then the modified copy is drawn from the result. Forward and backward "
                  "in training use the modified weights until the next step (the torch tile redraws in every forward pass); "
                  "evaluation uses the unmodified ones unless enabled for tests, and the updates always go to the unmodified weights. "
                  "The modification itself is the configured one (discretization, additive or multiplicative noise, dropped connections), "
                  "relative to the actual or assumed maximum weight and leaves the last column alone if asked to.",
        over=["histories", "configurations", "inputs"],
        text="All sequences of training steps, weight writes, forward passes in both modes and copies over modifier types and "
             "their switches, clip and remap types, tile kinds and weight values including zero rows.",
        why="The tests compare random modifications with tolerances after one step; the order of the operations at the end of the "
            "step and which weights are used when needs histories.",
        files=["src/aihwkit/simulator/tiles/inference.py", "src/aihwkit/simulator/tiles/inference_torch.py",
               "src/aihwkit/simulator/tiles/torch_tile.py", "src/rpucuda/weight_modifier.cpp", "src/rpucuda/weight_remapper.cpp",
               "src/rpucuda/weight_clipper.cpp", "src/aihwkit/simulator/parameters/inference.py"],
        mechanism=[("end of the update step", "src/aihwkit/simulator/tiles/inference.py"),
                   ("modifier", "src/rpucuda/weight_modifier.cpp"), ("torch modifier", "src/aihwkit/simulator/tiles/torch_tile.py")],
        observe=["weights", "outputs", "mapping scales", "gradients"],
        specs=["HwTrain"], note=NOTE),
    dict(
        id="C11", title="A layer mapped onto several tiles is the layer of its assembled weights",
        statement="The weight matrix is divided into balanced blocks that respect the maximum tile sizes and hold every weight exactly "
                  "once; forward, input gradients, updates and the digital bias of the array are those of the assembled matrix. "
                  "Every tile keeps its own mapping scales, learned scales, programming reference and frozen state: writing, remapping, "
                  "scaling or freezing one tile does not reach another one, and only weight writes, scalings and training change "
                  "what the layer computes. Copies, checkpoints and replaced configurations continue alike.",
        over=["histories", "configurations", "inputs"],
        text="All sequences of weight writes (layer or single tile), remapping, scaling, programming, training with frozen tiles, "
             "forward passes with any batch shape and copies over layer sizes, tile sizes and tile classes.",
        why="The tests of mapped layers compare one forward pass with a few sizes; divisions with remainders, scales that differ "
            "between tiles and operations on single tiles are not reached.",
        files=["src/aihwkit/simulator/tiles/array.py", "src/aihwkit/nn/modules/linear.py", "src/aihwkit/nn/modules/linear_mapped.py",
               "src/aihwkit/nn/modules/base.py", "src/aihwkit/simulator/parameters/mapping.py",
               "src/aihwkit/simulator/tiles/custom.py", "src/aihwkit/simulator/tiles/periphery.py"],
        mechanism=[("tile arrays", "src/aihwkit/simulator/tiles/array.py"),
                   ("operations on all tiles", "src/aihwkit/nn/modules/base.py")],
        observe=["outputs", "gradients", "weights per tile", "scales per tile", "bias"],
        specs=["Tiling", "Mapping"], note=NOTE),
    dict(
        id="C12", title="Analog convolutions compute, differentiate and update as convolutions",
        statement="For every channel number, kernel, stride, padding, dilation, bias kind and sequence of batch and image sizes, the "
                  "analog convolutions (1d, 2d, 3d; unfolded or indexed; single tile or mapped onto several tiles) give the outputs, "
                  "input gradients, bias gradients and weight updates of the convolution with their logical weights. This holds with "
                  "several autograd graphs alive at once, gradients accumulated over different image sizes, frozen parts, mode changes "
                  "and copies. The tiles of mapped layers respect the maximum sizes and together hold every weight exactly once.",
        over=["histories", "configurations", "inputs"],
        text="All sequences of forward passes with changing image and batch sizes, backward passes in any order, optimizer steps, "
             "weight writes and reads and copies over the convolution classes and geometries, in exact integer arithmetic.",
        why="The tests compare a few fixed geometries with torch within tolerances, with one image size per layer and one graph at "
            "a time; the index tables of the indexed convolutions are state that only histories of shapes exercise.",
        files=["src/aihwkit/nn/modules/conv.py", "src/aihwkit/nn/modules/conv_mapped.py", "src/aihwkit/simulator/tiles/functions.py",
               "src/aihwkit/simulator/tiles/periphery.py", "src/aihwkit/simulator/tiles/base.py", "src/aihwkit/optim/analog_optimizer.py",
               "src/aihwkit/optim/context.py"],
        mechanism=[("unfolding and index tables", "src/aihwkit/nn/modules/conv.py"),
                   ("mapped convolutions", "src/aihwkit/nn/modules/conv_mapped.py"),
                   ("indexed tile calls", "src/aihwkit/simulator/tiles/periphery.py")],
        observe=["outputs", "gradients", "weights", "bias", "split sizes"],
        specs=["Conv"], note=NOTE),
    dict(
        id="C16", title="Analog products follow the configured periphery exactly",
        statement="A noise-free analog product (forward or backward) is exactly what its parameters define: inputs scaled by the noise "
                  "management, discretized, bounded; one pass or separate passes for positive and negative inputs with the configured "
                  "non-idealities; outputs discretized and bounded; repeated with reduced inputs while an output is clipped, up to the "
                  "limits of the bound management; scaled back digitally. Perfect products are exact. A running average of the noise "
                  "management belongs to its own direction and survives copies and reloads; otherwise no product depends on what was "
                  "computed before or on other vectors of the batch (rpucuda).",
        over=["histories", "configurations", "inputs"],
        text="All histories of forward and backward products, torch gradients, weight changes, copies and reloads over all "
             "combinations of periphery parameters of rpucuda, torch and custom tiles.",
        why="The tests run products with noise and compare loosely or check shapes; which vector of a batch is reduced, which "
            "output fails the bound test, ties, thresholds and limits need particular numbers in particular combinations.",
        files=["src/rpucuda/rpu_forward_backward_pass.cpp", "src/rpucuda/rpu_forward_backward_pass.h",
               "src/aihwkit/simulator/tiles/analog_mvm.py", "src/aihwkit/simulator/parameters/io.py"],
        mechanism=[("rpucuda analog product", "src/rpucuda/rpu_forward_backward_pass.cpp"),
                   ("torch analog product", "src/aihwkit/simulator/tiles/analog_mvm.py")],
        observe=["outputs", "input gradients", "weight gradients (torch)", "weights"],
        specs=["Mvm"], note=NOTE),
    dict(
        id="C15", title="Input ranges: clipping, learning from data, gradients and calibration",
        statement="With an input range a layer computes with its inputs clipped to the range, independent of the scale of the "
                  "range; the first training batches define it (running average of a multiple of the standard deviation), "
                  "evaluation never changes it, and its gradient is the documented one (pulled outwards by clipped inputs, decay "
                  "if nearly nothing is clipped, growth if too many outputs are clipped). A calibration sets the range of the "
                  "requested layers to what its type defines over the inputs these layers see (maximum, quantile of the "
                  "magnitudes, moving averages; zero rows do not count), whatever was trained or calibrated before. Everything "
                  "else stays as it was: other layers, forward mode, training modes and hooks, also if it is refused.",
        over=["histories", "configurations", "inputs"],
        text="All histories of training and evaluation passes, optimizer steps, set ranges, calibrations of every type, copies and "
             "reloads over networks of one or two layers of the tile kinds and all input range options.",
        why="The tests calibrate with random data and compare the result with itself; which batches count, what is left behind in "
            "the tiles and how calibrations compose with training needs particular data and a history.",
        files=["src/aihwkit/simulator/tiles/periphery.py", "src/aihwkit/inference/calibration/calibration.py",
               "src/aihwkit/simulator/tiles/inference_torch.py", "src/aihwkit/simulator/parameters/pre_post.py"],
        mechanism=[("input range processing and gradient", "src/aihwkit/simulator/tiles/periphery.py"),
                   ("gradient of torch tiles", "src/aihwkit/simulator/tiles/inference_torch.py"),
                   ("calibration", "src/aihwkit/inference/calibration/calibration.py")],
        observe=["outputs and gradients", "ranges and their gradients", "configuration of the tiles", "training modes and hooks"],
        specs=["InputRange"], note=NOTE),
    dict(
        id="C14", title="Weight views are current, read-only as documented, and copies are copies",
        statement="The analog parameter shows what its mode says in every history: as placeholder only metadata, as data view "
                  "the present logical weights (after training, scaling, clipping, remapping, copying, reloading), as buffer a "
                  "tensor of its own; in-place writes to the first two are refused and change nothing. Tensors given to "
                  "set_weights or returned by get_weights, read_weights and get_hidden_parameters belong to the user: the layer "
                  "never changes them, and changing them never changes the layer.",
        over=["histories", "configurations", "inputs"],
        text="All histories of mode changes, writes, reads, mutations of user tensors, training, weight operations, copies and "
             "reloads over the tile kinds, bias placements and scaling options.",
        why="The tests look at one mode of one tile kind right after construction; a view that goes stale needs an operation "
            "which replaces memory in between, an alias needs a mutation after a read.",
        files=["src/aihwkit/optim/context.py", "src/aihwkit/simulator/tiles/base.py",
               "src/aihwkit/simulator/tiles/periphery.py", "src/aihwkit/simulator/tiles/torch_tile.py",
               "src/aihwkit/simulator/tiles/custom.py"],
        mechanism=[("view modes and write guard", "src/aihwkit/optim/context.py"),
                   ("shared weight memory", "src/aihwkit/simulator/tiles/base.py")],
        observe=["analog parameter", "get_weights", "tensors held by the user"],
        specs=["Views", "Mapping"], note=NOTE),
    dict(
        id="C13", title="Converting models to analog and back keeps function and structure",
        statement="A converted model computes the same function with the same structure, names, weights, shared modules and "
                  "train/eval modes; exactly the modules of the conversion map which are not excluded by name become analog, "
                  "each with the configuration given for its name, and converting back gives the digital classes with the "
                  "present weights. Conversions not in place leave the given model untouched and share nothing with it, the "
                  "configuration given is never modified, and containers read and write the weights of all analog layers by "
                  "name. This holds for any order of conversions, exclusions, weight changes, copies and reloads.",
        over=["histories", "inputs", "configurations"],
        text="All module graphs (nested containers, user classes, modules registered repeatedly) and all histories of "
             "conversions with different maps, exclusions and configurations.",
        why="The tests convert a few fixed networks once; repeated modules, partial conversions in several rounds, classes "
            "of the same name and mode preservation are combinations no test builds.",
        files=["src/aihwkit/nn/conversion.py", "src/aihwkit/nn/modules/container.py", "src/aihwkit/nn/modules/linear.py",
               "src/aihwkit/nn/modules/base.py"],
        mechanism=[("recursive replacement", "src/aihwkit/nn/conversion.py"),
                   ("analog containers and wrappers", "src/aihwkit/nn/modules/container.py")],
        observe=["class, name, identity and mode of each module", "weights", "outputs", "names given to the configuration function"],
        specs=["Convert"], note=NOTE),
    dict(
        id="C17", title="Recurrent networks compute and train their recurrences over every sequence",
        statement="A recurrent network computes, for every sequence, batch, number of layers and direction, the recurrence of its cell "
                  "(vanilla, LSTM, LSTM with combined weight, GRU) with its weights: the reverse direction sees the reversed sequence, "
                  "returned states continue a sequence exactly (in pieces or in one go), samples of a batch do not see each other, and "
                  "dropout acts only between layers in training. Training through time changes every weight by the gradient over all "
                  "time steps, analog layers like digital ones. Neither inputs nor given states are changed, and copies and reloads go "
                  "on alike.",
        over=["histories", "inputs", "configurations"],
        text="All histories of forward passes and training steps on sequences of different length and batch size, with states carried "
             "or not, weight changes, copies and reloads over cells, layers, directions and tile kinds.",
        why="The tests check shapes and that a loss decreases, or compare one cell with torch for one sequence; order, states and "
            "gradients of stacked bidirectional layers over particular sequences are not reached.",
        files=["src/aihwkit/nn/modules/rnn/rnn.py", "src/aihwkit/nn/modules/rnn/layers.py", "src/aihwkit/nn/modules/rnn/cells.py"],
        mechanism=[("cells", "src/aihwkit/nn/modules/rnn/cells.py"), ("layers over sequences", "src/aihwkit/nn/modules/rnn/layers.py"),
                   ("stacked layers and states", "src/aihwkit/nn/modules/rnn/rnn.py")],
        observe=["outputs", "returned states", "input gradients", "weights after training"],
        specs=["Rnn"], note=NOTE),
    dict(
        id="C18", title="Quantized layers compute the original model on their low precision grids",
        statement="A model converted to low precision has quantizers exactly where the conversion map puts them (types, names, exclusions, "
                  "shared modules), keeps the parameters and the function of the original when they are off, and otherwise computes with "
                  "weights, activations, inputs and the digital periphery of analog tiles rounded and clipped to grids (per tensor or channel, "
                  "symmetric or not) of the range of the data seen so far, as the estimator prescribes. Ranges change only in the states, modes "
                  "and number of batches meant for it; learned steps and zero points get the gradient of the rounding, values pass gradients "
                  "straight through inside of the range only. Cached weights, checkpoints, copies, resets and calibration do not change what is "
                  "computed, and neither inputs nor the original model are changed.",
        over=["histories", "inputs", "configurations"],
        text="All histories of forward and backward passes, training and evaluation, quantization states, weight changes, caching, saving, "
             "loading, copying, resetting and calibrating of quantized layers and tiles, and all conversion maps over module trees.",
        why="The tests convert a few models and check that a forward pass runs; when ranges are estimated or frozen, what the cache holds and "
            "which gradients flow depends on the history of states and modes.",
        files=["src/aihwkit/nn/low_precision_conversion.py", "src/aihwkit/nn/low_precision_modules/quantized_base_modules.py",
               "src/aihwkit/simulator/digital_low_precision/quantization_manager.py",
               "src/aihwkit/simulator/digital_low_precision/quantizers.py", "src/aihwkit/simulator/digital_low_precision/range_estimators.py",
               "src/aihwkit/simulator/digital_low_precision/hijacker.py", "src/aihwkit/simulator/tiles/quantized_inference_torch.py",
               "src/aihwkit/simulator/tiles/array.py"],
        mechanism=[("grids and gradients", "src/aihwkit/simulator/digital_low_precision/quantizers.py"),
                   ("when ranges are estimated", "src/aihwkit/simulator/digital_low_precision/quantization_manager.py"),
                   ("cached quantized parameters", "src/aihwkit/simulator/digital_low_precision/hijacker.py"),
                   ("conversion map", "src/aihwkit/nn/low_precision_conversion.py"),
                   ("periphery of tiles", "src/aihwkit/simulator/tiles/quantized_inference_torch.py")],
        observe=["outputs", "gradients", "ranges, steps and zero points", "module tree after conversion"],
        specs=["Qmgr", "Quant", "QConv", "QTile"], note=NOTE),
    dict(
        id="C19", title="Configurations reach the simulator as written and are never shared or changed",
        statement="What the simulator is given for a configuration (tile, input-output, update, modifier, clipping, device and compound "
                  "parameters, presets included) is exactly the value of every documented field, defaults where nothing was set; unknown "
                  "attributes, values of a wrong type and unit cells with a wrong number of devices are refused with a ConfigError. "
                  "Binding, printing, comparing and copying configurations, creating or converting layers and build_config leave the given "
                  "objects as they are, and no two layers, copies, built configurations or default-constructed objects share a "
                  "configuration object with each other or with what they were made from; build_config yields the documented configuration "
                  "of each algorithm.",
        over=["histories", "configurations", "inputs"],
        text="All histories of creating, changing, sharing, copying, comparing, printing and binding configuration objects of all classes and "
             "presets, of creating layers with them and of building configurations for all algorithms from objects or classes.",
        why="The tests create configurations once and use them; a field which is lost, mixed up or shared only shows for particular "
            "fields, classes and sequences of changes, copies and layers.",
        files=["src/aihwkit/simulator/parameters/helpers.py", "src/aihwkit/simulator/parameters/io.py",
               "src/aihwkit/simulator/parameters/training.py", "src/aihwkit/simulator/parameters/inference.py",
               "src/aihwkit/simulator/configs/devices.py", "src/aihwkit/simulator/configs/compounds.py",
               "src/aihwkit/simulator/configs/configs.py", "src/aihwkit/simulator/configs/helpers.py",
               "src/aihwkit/simulator/presets/configs.py", "src/aihwkit/simulator/presets/devices.py",
               "src/aihwkit/simulator/tiles/base.py", "src/aihwkit/simulator/rpu_base_src/rpu_base_devices.cpp"],
        mechanism=[("translation of the fields", "src/aihwkit/simulator/parameters/helpers.py"),
                   ("parameters of the simulator", "src/aihwkit/simulator/rpu_base_src/rpu_base_devices.cpp"),
                   ("unit cells and their devices", "src/aihwkit/simulator/configs/compounds.py"),
                   ("build_config", "src/aihwkit/simulator/configs/helpers.py"),
                   ("own copies of the tiles", "src/aihwkit/simulator/tiles/base.py")],
        observe=["fields of configuration objects and who shares them", "values held by the bindings objects", "errors", "printed fields"],
        specs=["Config", "ConfigSchema"], note=NOTE),
]
