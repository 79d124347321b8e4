"""The property register: emits properties.jsonl and MANIFEST.json.

    python tools/props.py            # rewrite both files
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None,
         observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, state=state,
                  observe=observe))


ENUM = "bounded exhaustive model checking of the implementation: "

prop("P01", "Streaming snapshots equal windows of the uninterrupted stream",
     "However a multichannel stream is cut into updates, each snapshot returned while streaming is the window of the whole stream (preceded by a zero history) ending at that stride, in order, with channels split as requested. The returned state is exactly the latest samples needed by the next update, so streams fed through one shared module never influence each other.",
     ["histories", "inputs"], "every sequence of updates of one to three strides and every interleaving of two streams, for every small snapshot/stride/channel geometry",
     "The tests feed one stream with one fixed update size; an off-by-one in the carried state shows only for other chunkings or geometries.",
     ["ml4gw/nn/streaming/snapshotter.py", "ml4gw/utils/slicing.py"],
     [("append update to carried state and unfold", "ml4gw/nn/streaming/snapshotter.py:forward")],
     ENUM + "all update sequences and stream interleavings up to the bound against a reference model that slices the whole stream",
     "Complete within the listed geometry and history bounds; sample values are exactly representable position labels, so every misplaced sample is visible.",
     observe=["returned snapshots", "returned state"])

prop("P02", "Online averaging equals the offline mean of overlapping predictions",
     "When overlapping predictions are streamed, each emitted block of samples is the mean over the configured number of most recent predictions that cover it (absent early ones count as zero), after discarding the requested number of samples from the future edge. The result does not depend on how the predictions are batched into updates, and the state handed back carries everything the next update needs.",
     ["histories", "inputs"], "every chunking of a prediction stream into batches and every interleaving of two streams, for all small update sizes, averaging depths, offsets and channel counts",
     "Tests check a few fixed batch sizes against a similar implementation; errors in weighting depend on the ratio of batch size to averaging depth and on the history.",
     ["ml4gw/nn/streaming/online_average.py", "ml4gw/utils/slicing.py"],
     [("in-batch weighted averaging and split", "ml4gw/nn/streaming/online_average.py:forward")],
     ENUM + "all chunkings and interleavings up to the bound against a direct double-precision mean",
     "Complete within bounds; float32 comparisons to 3e-6.",
     observe=["returned average", "returned state"])

prop("P03", "Unfolding and slicing return exactly the requested windows",
     "Unfolding a one to three dimensional timeseries yields, in order, every full window at the given stride together with the exact unused remainder. Slicing at given start indices yields exactly those samples of the right channel and batch element, whatever the memory layout; shapes that do not match raise a value error.",
     ["inputs", "configurations"], "all lengths, window sizes, strides and dimensionalities up to the bound, and all index tuples for short series",
     "Tests use a handful of sizes; index arithmetic fails at particular combinations of window, stride, length and dimensionality.",
     ["ml4gw/utils/slicing.py"],
     [("strided unfold", "ml4gw/utils/slicing.py:unfold_windows"), ("index gather", "ml4gw/utils/slicing.py:slice_kernels")],
     ENUM + "every size/stride/index combination up to the bound against direct slicing",
     "Complete within the listed sizes; larger sizes only at listed spot geometries.")

prop("P04", "Random kernel sampling is in range for every random outcome",
     "For every outcome of the random draws, each sampled kernel is a contiguous slice of the input that starts at the reported index, uses one index for all channels when coincident and one per channel otherwise, and respects the requested offset from the centre. Every start position the offset rule allows can be drawn, each equally likely.",
     ["inputs", "configurations"], "every sequence of random answers for short series; answer patterns incl. extremes for larger ones; all kernel sizes, offsets, dimensionalities",
     "Tests draw a few random samples, and extremes of the range are drawn with negligible probability.",
     ["ml4gw/utils/slicing.py"],
     [("random index range and slicing", "ml4gw/utils/slicing.py:sample_kernels")],
     ENUM + "the random generator is an environment whose every answer is enumerated depth-first; each execution is compared with direct slicing",
     "Complete over all random answers for listed small sizes. The exclusive upper end of the sampling range (the last start index is never drawn) is recorded as a known finding.")

prop("P05", "In-memory dataset visits exactly the promised windows",
     "Without a batch limit, one pass over an in-memory dataset yields each strided window exactly once, in time order or in the shuffled order, in full batches and then one remainder, with targets sliced identically; with a batch limit it yields exactly that many full batches, without repeats when coincident. Its length equals the number of batches produced, separate or concurrent iterators do not affect each other, and unsatisfiable requests raise a value error at construction.",
     ["inputs", "configurations", "histories"], "all small dataset geometries, every permutation/index draw for small window counts, interleaved iterators over several epochs",
     "Tests check a few configurations with one random draw each.",
     ["ml4gw/dataloading/in_memory_dataset.py", "ml4gw/utils/slicing.py"],
     [("index initialisation and iteration", "ml4gw/dataloading/in_memory_dataset.py:init_indices,__iter__")],
     ENUM + "all configurations times all random index draws (or all permutations), plus all two-iterator interleavings, against a multiset-of-windows model",
     "Complete within bounds.")

prop("P06", "Chunked dataset draws every batch from the current chunk only",
     "Each pass yields the configured number of batches per chunk, in chunk order, and every window is a contiguous in-bounds slice of one row of the current chunk, from one start for all channels when coincident and independently otherwise. Any start position up to the last one can be drawn; chunks may differ in shape; a chunk shorter than the window raises a value error.",
     ["inputs", "configurations", "histories"], "every random answer for small chunks, every sequence of up to three chunk shapes, interleaved iterators",
     "Tests use equal-size chunks and random draws; wrong flattening offsets only show for other shapes or extreme draws.",
     ["ml4gw/dataloading/chunked_dataset.py"],
     [("flattened index arithmetic", "ml4gw/dataloading/chunked_dataset.py:__iter__")],
     ENUM + "all random answers and chunk sequences up to the bound; samples carry their own (chunk,row,channel,time) label",
     "Complete within bounds.")

prop("P07", "HDF5 dataset windows come from the right file, channel and time",
     "For every random outcome, each window of a batch is a contiguous in-bounds slice of the named dataset of one file; channels share file and start when fully coincident, share only the file in file-coincident mode, and are independent otherwise, with at most the configured number of distinct files per batch. Every window of every file can be drawn, files are weighted by their length, and the workers of a loader together yield exactly the configured number of batches per epoch, each worker and each epoch drawing anew.",
     ["inputs", "configurations", "histories"], "every random answer for small file sets; all coincidence modes, files-per-batch limits and worker counts",
     "Tests check shapes and a few draws; mapping errors between file, channel and batch element need particular draws.",
     ["ml4gw/dataloading/hdf5_dataset.py"],
     [("file sampling and index mapping", "ml4gw/dataloading/hdf5_dataset.py:sample_fnames,sample_batch")],
     ENUM + "all numpy random answers up to the bound on real HDF5 files whose samples carry (file,channel,time) labels; all worker splits",
     "Complete within bounds; the h5py library itself is trusted.")

prop("P08", "Fitted transforms refuse use until fit and track the latest fit",
     "A transform that must be fit raises when called before a successful fit or load, and afterwards always applies the parameters of the latest successful fit or load, whatever sequence of fits, loads, failed loads and calls came before. A failed or incomplete load never makes an unfit transform usable, and scaling followed by its reverse restores the input.",
     ["histories"], "all sequences of fit/load/failed load/call operations up to the depth bound for every fitted transform",
     "Tests exercise one fit then one call; stale or partially updated state needs a longer history.",
     ["ml4gw/transforms/transform.py", "ml4gw/transforms/scaler.py", "ml4gw/transforms/whitening.py", "ml4gw/transforms/snr_rescaler.py"],
     [("fit bookkeeping", "ml4gw/transforms/transform.py:build,_load_from_state_dict"), ("fit", "ml4gw/transforms/scaler.py:fit")],
     ENUM + "breadth-first exploration of operation histories on the real objects against a model that remembers the latest successful fit",
     "Complete to the depth bound over the listed operations.")

prop("P09", "Batch elements and channels are processed independently",
     "For every component that accepts a batch or channels, the result for one element equals the result of processing that element alone, whatever the other elements contain, however many there are, and in whichever order they come.",
     ["inputs", "configurations"], "all components, all single-element perturbations, permutations and sub-batches up to the bound",
     "Tests use one batch and aggregate comparison; leakage between elements needs a differential oracle over compositions.",
     ["ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/transforms", "ml4gw/waveforms", "ml4gw/augmentations.py", "ml4gw/nn"],
     [("broadcast over leading dims", "ml4gw/transforms/*.py, ml4gw/waveforms/cbc/*.py")],
     ENUM + "every permutation and every sub-batch of a small batch of deliberately different elements, differential oracle on the real code",
     "Complete over sub-batches/permutations of batches up to 4; float tolerance for reductions.")

prop("P10", "Results depend only on arguments and inputs are never modified",
     "Calling a fitted or stateless component again with the same arguments gives the same result whatever other calls came between, and a later call never changes a result already handed out. Inputs are left unmodified, except by the sign and time flips, which work in place.",
     ["histories"], "all call sequences up to depth three over a menu of different shapes, dtypes and overrides, for every component",
     "Tests call a component once with fresh inputs; caches and in-place operations only show across calls.",
     ["ml4gw/transforms", "ml4gw/waveforms", "ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/nn"],
     [("cached grids, kernels, buffers", "ml4gw/transforms/*.py")],
     ENUM + "all call histories up to depth three over a menu per component, compared bitwise with a fresh object's answer",
     "Complete over the menus and depth.")

prop("P11", "Saving and restoring parameters reproduces the component",
     "For every component with parameters, loading a saved state into a freshly built object of the same configuration reproduces its outputs exactly, including parameters learned by fitting, and moving between precisions leaves it usable.",
     ["histories", "configurations"], "all components times save/load/copy/pickle/precision-change histories up to depth three",
     "Tests rarely save and restore; a tensor that is not registered is silently lost.",
     ["ml4gw/transforms", "ml4gw/waveforms", "ml4gw/nn"],
     [("registered buffers and parameters", "ml4gw/transforms/*.py, ml4gw/nn/**/*.py")],
     ENUM + "all save/load/copy/cast histories up to the depth bound, differential oracle against the original object",
     "Complete over the listed operations.")

prop("P12", "Whitening divides by the background amplitude spectrum",
     "Whitening a timeseries equals removing its mean, applying the zero-phase filter given by the inverse amplitude spectrum of the background (truncated to the requested duration and high-passed below or low-passed above the requested frequencies), and cropping half the filter duration from each end. White noise drawn from the fitted background comes out with unit variance density.",
     ["inputs", "configurations"], "all combinations of small durations, sample rates, filter durations, cut-offs, background shapes and batch layouts in the bound",
     "Tests compare statistics for one geometry; cropping and truncation errors show at other sizes.",
     ["ml4gw/spectral.py", "ml4gw/transforms/whitening.py"],
     [("inverse spectrum truncation and whitening", "ml4gw/spectral.py:truncate_inverse_power_spectrum,whiten")],
     ENUM + "every configuration of the grid against an independent double-precision numpy reference",
     "Complete over the grid; float tolerance.")

prop("P13", "Spectral density estimates agree with Welch's method",
     "The estimated (cross) spectral density of any batch of timeseries equals Welch's estimate for the same segment length, overlap, window and averaging, for every bin whose value does not depend on detrending; the fast path agrees from the third bin on. Requests that are too short raise a value error.",
     ["inputs", "configurations"], "all combinations of lengths, segment lengths, overlaps, windows, averages and input dimensionalities in the bound",
     "Tests compare a few sizes; averaging and scaling errors appear for odd lengths, median of an even count, or two-sided bins.",
     ["ml4gw/spectral.py", "ml4gw/transforms/spectral.py"],
     [("fast and exact spectral density", "ml4gw/spectral.py:fast_spectral_density,spectral_density")],
     ENUM + "every configuration of the grid against scipy's csd/welch and a direct numpy reference",
     "Complete over the grid; scipy trusted as oracle.")

prop("P14", "Signal-to-noise ratios match their definition and reweighting hits its target",
     "The matched-filter signal-to-noise ratio of each interferometer is the discretised inner-product integral over the requested band, and the network value is the root sum of squares. Rescaled waveforms keep their shape and have exactly the requested network ratio, for whatever order the targets come in.",
     ["inputs", "configurations"], "all combinations of batch, interferometers, lengths, spectrum shapes, cut-offs, layouts and target permutations in the bound",
     "Tests use one shape and random values.",
     ["ml4gw/gw.py", "ml4gw/transforms/snr_rescaler.py"],
     [("snr integral and weights", "ml4gw/gw.py:compute_ifo_snr,reweight_snrs")],
     ENUM + "every configuration against a direct numpy sum, with target permutations enumerated",
     "Complete over the grid.")

prop("P15", "Projected responses equal antenna pattern times delayed polarizations",
     "The response of each interferometer is the sum over polarizations of the antenna factor for the given sky position and polarization angle times that polarization, delayed by the light travel time to the detector, for any subset and order of interferometers and any batch. Delays shift circularly by the whole number of samples they contain (truncated toward zero), in either direction.",
     ["inputs", "configurations"], "all ordered subsets of detectors, a grid of sky angles including poles and wrap-around, polarization subsets, sample rates",
     "Tests compare a few random skies for one detector network.",
     ["ml4gw/gw.py", "ml4gw/utils/interferometer.py"],
     [("antenna responses, shifts", "ml4gw/gw.py:compute_antenna_responses,shift_responses,compute_observed_strain")],
     ENUM + "all detector orderings times a sky grid against an independent numpy/lal reference",
     "Complete over the grid.")

prop("P16", "Waveform sampling keeps parameters and polarizations together",
     "For every random outcome, each sampled waveform comes from a single row of the stored set for every polarization and parameter, projected waveforms use the sky parameters returned with them, rows are drawn independently with replacement from the whole set, and asking for all waveforms yields each exactly once in stored order. Asking for more than are stored raises a value error.",
     ["inputs", "configurations"], "every permutation draw for small banks, both sampling modes, several polarizations",
     "Tests draw once; mispairing between polarizations needs labelled rows.",
     ["ml4gw/transforms/waveforms.py", "ml4gw/gw.py"],
     [("row sampling", "ml4gw/transforms/waveforms.py:forward")],
     ENUM + "every random answer enumerated on labelled banks",
     "Complete within bounds.")

prop("P17", "Decimation keeps the scheduled samples of each segment",
     "The decimated series is, segment by segment of the schedule, every n-th sample of the input from that segment's own start, concatenated, where n is the ratio of input to segment rate; segments can also be returned separately. Invalid schedules or input lengths raise a value error.",
     ["inputs", "configurations"], "all schedules of up to three segments with small rates and durations, contiguous or with gaps",
     "Tests use one schedule; index errors show for other segment combinations.",
     ["ml4gw/transforms/decimator.py"],
     [("index construction", "ml4gw/transforms/decimator.py:build_variable_indices")],
     ENUM + "every schedule up to the bound against direct slicing",
     "Complete within bounds.")

prop("P18", "Integrators follow their per-sample recurrences",
     "Leaky integration starts from zero and at each sample adds one (count mode) or the input (score mode) where the input is at least the threshold, else subtracts the decay, never going below its lower bound. Top-hat integration is the causal moving average over rate times window length plus one samples, with zeros before the start. Both treat every row alone.",
     ["inputs", "histories"], "every above/below-threshold sequence up to the bound, all parameter settings",
     "Tests run a few sequences.",
     ["ml4gw/transforms/integrator.py"],
     [("recurrence", "ml4gw/transforms/integrator.py:forward")],
     ENUM + "every input word over a small alphabet up to the length bound against the scalar recurrence",
     "Complete over all words up to the bound.")

prop("P19", "Sliding correlation equals Pearson's coefficient at each shift",
     "The result for each shift up to the maximum in both directions, in order, is the Pearson correlation coefficient of the second series with the first one moved by that many samples and zero-padded, so it is invariant to positive scale of either series and at most one in magnitude.",
     ["inputs", "configurations"], "all lengths, shift ranges and batch shapes in the bound",
     "Tests use one shape.",
     ["ml4gw/transforms/pearson.py"],
     [("shifted correlation", "ml4gw/transforms/pearson.py:forward")],
     ENUM + "every geometry against numpy's correlation coefficient",
     "Complete within bounds.")

prop("P20", "Spline interpolation matches the natural reference at any grid",
     "One and two dimensional spline interpolation equals the interpolating (or smoothing) tensor-product B-spline for the stated knots and order, passing through the data nodes when unsmoothed, on any increasing grid of sufficient size and for any output coordinates. Output coordinates given at call time affect that call only.",
     ["inputs", "configurations", "histories"], "all grid sizes, orders, smoothing factors and output grids in the bound, and call histories with overrides",
     "Tests compare one grid with scipy.",
     ["ml4gw/transforms/spline_interpolation.py"],
     [("knots, basis and solve", "ml4gw/transforms/spline_interpolation.py")],
     ENUM + "every configuration against an independent B-spline reference (scipy basis on the same knots); all override histories to depth three",
     "Complete over the grid.")

prop("P21", "Heterodyning removes the chirp phase of the given chirp mass",
     "The heterodyned spectrum is the spectrum of the input (scaled by the sample interval) multiplied by exp(3i/128 (pi Mc f)^(-5/3)) for each requested chirp mass, with a zero constant bin, on the frequency grid of the configured duration; the heterodyned series is its inverse transform. This holds for every channel, for odd or even lengths, and for each returned form.",
     ["inputs", "configurations"], "all combinations of sample rates, durations, bands, chirp masses and batch shapes in the bound",
     "Tests use one geometry.",
     ["ml4gw/transforms/heterodyne.py"],
     [("phase multiply", "ml4gw/transforms/heterodyne.py:forward")],
     ENUM + "every configuration against a direct numpy computation",
     "Complete over the grid.")

prop("P22", "Digital filtering equals the designed filter's difference equation",
     "Filtering a batch applies the requested filter design (type, order, band, sample rate) to every row as the standard difference equation, run forward and then backward in time from rest, with the same coefficients a reference design gives.",
     ["inputs", "configurations"], "all designs, orders, bands and band types in the bound with several input shapes",
     "Tests sample some designs.",
     ["ml4gw/transforms/iirfilter.py"],
     [("design and apply", "ml4gw/transforms/iirfilter.py")],
     ENUM + "every design of the grid against scipy's design and lfilter",
     "Complete over the grid.")

prop("P23", "Q-transform tiles measure windowed energy at their frequency",
     "Each tile series is the energy of the input in the tile's bisquare band, normalised by its median (or mean) when asked; interpolation places tiles at their own time and frequency; and a scan returns the plane of the Q value whose loudest tile in the requested range is the loudest of all.",
     ["inputs", "configurations"], "all combinations of durations, sample rates, ranges, mismatches, normalisations and batch shapes in the bound",
     "Tests compare one configuration with gwpy.",
     ["ml4gw/transforms/qtransform.py"],
     [("tile transform and scan", "ml4gw/transforms/qtransform.py")],
     ENUM + "every configuration against an independent numpy Q-tile reference; every planted-burst position on a grid for selection",
     "Complete over the grid.")

prop("P24", "Combined spectrogram takes the maximum over aligned resolutions",
     "The multi-resolution spectrogram equals, at each output time-frequency pixel, the maximum over the configured resolutions of the normalised spectrogram pixel that covers it, whatever order the resolutions are given in and however long the input is.",
     ["inputs", "configurations"], "all small sets of resolutions and lengths in the bound",
     "Tests use one list of resolutions.",
     ["ml4gw/transforms/spectrogram.py"],
     [("resize and max", "ml4gw/transforms/spectrogram.py:forward")],
     ENUM + "all resolution combinations and orders against per-resolution reference spectrograms",
     "Complete over the grid.")

prop("P25", "Distributions sample by exact inverse CDF and normalise their density",
     "For every underlying uniform draw, a sample is the quantile of the stated distribution at that draw and lies inside its stated support (cosmological distributions up to their grid spacing); the log density is normalised, is the density of those samples, and is minus infinity or an error outside the support.",
     ["inputs", "configurations"], "a fine enumeration of uniform draws including both ends, all distributions and a grid of their parameters",
     "Tests compare histograms of random samples, which cannot see edges or small biases.",
     ["ml4gw/distributions.py"],
     [("rsample/log_prob", "ml4gw/distributions.py")],
     ENUM + "the uniform generator's answers are enumerated on a grid including both ends; each sample is compared with the analytic quantile",
     "Complete over the answer grid and parameters.")

prop("P26", "Augmentations flip exactly the selected samples and channels",
     "For every outcome of the random selection, sign inversion negates and time reversal reverses exactly the selected rows and leaves all others bit-identical; probability zero selects none and one selects all.",
     ["inputs", "configurations"], "every selection mask for small batches, all probabilities in the menu, all layouts",
     "Tests patch the generator with one draw.",
     ["ml4gw/augmentations.py"],
     [("mask and flip", "ml4gw/augmentations.py")],
     ENUM + "every random mask enumerated",
     "Complete within bounds.")

prop("P27", "Time-domain generation conditions and places the coalescence consistently",
     "Generated time-domain polarizations have the configured duration and sample rate, put the coalescence the configured number of seconds before the end, are the conditioned inverse transform of the underlying frequency-domain model, are conditioned with the same bounds on frequency and duration as LAL, and do not depend on the other batch elements.",
     ["inputs", "configurations"], "all combinations of durations, sample rates, minimum frequencies, right pads and approximants in the bound",
     "Tests compare a few random parameters with LAL at one geometry.",
     ["ml4gw/waveforms/generator.py"],
     [("conditioning and padding", "ml4gw/waveforms/generator.py:forward")],
     ENUM + "every generator configuration times a grid of physical parameters, compared with an independent reference pipeline",
     "Complete over the grid.")

prop("P28", "Frequency-domain approximants depend on each frequency and source alone",
     "Every frequency-domain waveform agrees with the LAL implementation of the same approximant, its value at a frequency does not depend on which other frequencies or sources are requested, amplitude scales inversely with distance, and the inclination factors give the correct polarization ratio.",
     ["inputs", "configurations"], "a grid of masses, spins, distances, phases and inclinations covering every model branch, all sub-grids of a frequency grid",
     "Tests compare random parameter draws with LAL on one grid.",
     ["ml4gw/waveforms/cbc"],
     [("phase and amplitude ansatz", "ml4gw/waveforms/cbc/phenom_d.py, phenom_p.py, taylorf2.py")],
     ENUM + "every point of a physical parameter grid, all frequency sub-grids, against lalsimulation and differential oracles",
     "Complete over the grid; lalsimulation trusted.")

prop("P29", "Parameter conversions are consistent and invertible",
     "Chirp mass and mass ratio convert to component masses with the primary at least as heavy and back to the same values; spin-angle conversion matches the reference for every angle including degenerate ones; each element converts alone.",
     ["inputs"], "a grid covering every branch (zero spins, aligned, anti-aligned, equal masses) and batch shapes",
     "Tests use random draws that never hit the degenerate branches.",
     ["ml4gw/waveforms/conversion.py"],
     [("conversions", "ml4gw/waveforms/conversion.py")],
     ENUM + "every point of the grid against bilby/lal formulas",
     "Complete over the grid.")

prop("P30", "Ad hoc bursts follow their closed forms",
     "Sine-Gaussian and ringdown waveforms equal their closed-form expressions sample by sample at the configured rate and duration, scale linearly with amplitude, and treat every source alone.",
     ["inputs", "configurations"], "all combinations of durations, rates and a parameter grid",
     "Tests compare a few draws.",
     ["ml4gw/waveforms/adhoc"],
     [("closed forms", "ml4gw/waveforms/adhoc/*.py")],
     ENUM + "every grid point against a direct numpy evaluation",
     "Complete over the grid.")

prop("P31", "Residual networks and group norm compute their definition for any size",
     "Group normalisation equals its definition for any channel/group split; residual networks accept every documented configuration, produce one output per class for any input length, give evaluation results that ignore the rest of the batch, and train every parameter.",
     ["inputs", "configurations"], "all small configurations of layers, kernel sizes, block types, strides/dilations, norms and lengths",
     "Tests check output shape for a few configurations.",
     ["ml4gw/nn/norm.py", "ml4gw/nn/resnet"],
     [("normalisation", "ml4gw/nn/norm.py"), ("layer construction", "ml4gw/nn/resnet/resnet_1d.py:_make_layer")],
     ENUM + "every configuration in the bound, definition-based reference and differential oracles",
     "Complete over the grid.")

prop("P32", "State-space layers are causal and agree with their recurrence",
     "The convolutional output of a state-space layer equals running its discretised linear recurrence sample by sample, so the output at a time depends only on inputs up to that time and a shorter input gives the same prefix.",
     ["inputs", "configurations"], "all small model/state sizes and lengths, every single-sample perturbation position",
     "Tests check shapes only.",
     ["ml4gw/nn/ssm/s4d.py"],
     [("kernel and FFT convolution", "ml4gw/nn/ssm/s4d.py")],
     ENUM + "every size in the bound against an explicit recurrence; all perturbation positions",
     "Complete over the grid.")

prop("P33", "Autoencoders return the input shape and pair matching levels",
     "A convolutional autoencoder of any documented configuration returns a tensor of the input's shape, decoding each level with the encoder state of the same level when skip connections are used, and its encode and decode halves compose to its forward pass.",
     ["inputs", "configurations"], "all small configurations of depth, kernel, stride, groups, skip connections and lengths",
     "Tests check a few depths with one stride.",
     ["ml4gw/nn/autoencoder"],
     [("encode/decode", "ml4gw/nn/autoencoder/base.py, convolutional.py")],
     ENUM + "every configuration in the bound, shape and state-pairing oracles",
     "Complete over the grid.")

prop("P34", "Components follow their inputs' device and compute the same there",
     "A module moved to another device, or a function given tensors that live there, runs on that device: whatever it builds itself (windows, masks, grids, indices, random draws, state) is placed next to its inputs, the result comes back on that device, and it equals what the same call computes on the CPU. This holds for every order in which a component is moved, fitted, called and moved back, and results handed out earlier stay where they were. (Density functions of distributions built from host numbers are not included.)",
     ["inputs", "histories"], "all components, all placement histories of bounded length",
     "There is no accelerator where the tests run, and a test would sample one placement, not histories of moves, fits and calls.",
     ["ml4gw/transforms", "ml4gw/nn", "ml4gw/gw.py", "ml4gw/spectral.py", "ml4gw/utils", "ml4gw/waveforms", "ml4gw/dataloading", "ml4gw/distributions.py", "ml4gw/augmentations.py"],
     [("placement of constructed tensors", "device= and register_buffer throughout ml4gw"),
      ("fitting", "ml4gw/transforms/transform.py FittableSpectralTransform.normalize_psd")],
     ENUM + "every placement history in the bound is run on the real code against a virtual second device that refuses mixed operators",
     "Placement is complete to the depth; the second device is emulated (real arithmetic on the CPU).")

prop("P35", "Gradients are the derivatives of what is computed, in any order of calls",
     "Wherever a component's output depends smoothly on a floating point input or parameter, automatic differentiation yields finite gradients equal to the derivative of the computed output, and they do not depend on what the component did in between: any order of forward calls, their backward passes, and calls with gradients disabled (no_grad or inference mode), on the same or different inputs, gives each forward call the gradient it would have alone. (Integer counts, whole-sample delays of the sky position, the chirp-time and horizon frequency bounds, and points where a function is singular are not included.)",
     ["inputs", "histories"], "all differentiable components and inputs, all call orders of bounded length",
     "Tests hardly ever call backward, and never interleave several forward and backward passes or mix in calls without gradients.",
     ["ml4gw/transforms", "ml4gw/nn", "ml4gw/gw.py", "ml4gw/spectral.py", "ml4gw/utils", "ml4gw/waveforms"],
     [("differentiable computation", "forward methods throughout ml4gw"), ("in-place updates of intermediate results", "spectral.py, transforms/qtransform.py, nn")],
     ENUM + "every order of forward, backward and gradient-free calls to the depth is run on the real code; gradients are compared with an isolated run and with central differences",
     "Orders are complete to the depth; the derivative is compared along fixed directions at fixed contents.")

prop("P36", "Objects configured differently never influence one another in one process",
     "What a component computes is decided by its own configuration and arguments: however many other objects, of the same class with other arguments or of other classes, were built and used in the process before, in between or since, every call returns what it returns in a process that never saw them. Nothing in the library changes process-wide settings (default precision, gradient mode, threads, numerical error handling, working directory) or re-seeds the process-wide random generators.",
     ["configurations", "histories"], "all components x configurations differing in one argument, all orders of building and using pairs, whole families and all components in one process",
     "A test builds one object, or several whose results it cannot tell apart; a value kept for the whole process under an incomplete key shows only between two particular configurations.",
     ["ml4gw/transforms", "ml4gw/waveforms", "ml4gw/nn", "ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/utils", "ml4gw/distributions.py", "ml4gw/dataloading", "ml4gw/augmentations.py"],
     [("per-object design, windows, grids, masks and fits", "constructors and fit methods throughout ml4gw")],
     ENUM + "every history of building and using pairs of configurations in the bound is run in its own process and compared with a process that only saw one of them",
     "Complete over the listed configurations and orders; what happens at import is shared by model and run.")

prop("P37", "Randomness comes from the seeded process-wide generators and nowhere else",
     "Everything drawn at random (kernels, dataset epochs and their order, files and channels, waveforms and their SNRs, augmentations, distribution samples, dropout, initial network weights) is a function of the state of the process-wide generators of torch, numpy and random: seeding them, or restoring a saved state, and repeating the same calls gives the same results, whatever was drawn or built before, in whichever process, with any number of data loader workers held fixed. Different seeds, successive draws, epochs and workers do not repeat one another; and calls that draw nothing leave the generators where they were.",
     ["histories", "processes"], "all histories of seeding, drawing, building, saving and restoring to the depth, for every component that draws; all components that do not",
     "A test seeds once and draws once; a generator of its own, numbers drawn ahead of time, or an order that depends on hashes shows only after re-seeding, restoring, in a worker or in another process.",
     ["ml4gw/utils/slicing.py", "ml4gw/dataloading", "ml4gw/transforms/waveforms.py", "ml4gw/transforms/snr_rescaler.py", "ml4gw/augmentations.py", "ml4gw/distributions.py", "ml4gw/nn"],
     [("draws from the global generators", "sample_kernels, datasets, WaveformSampler, SnrRescaler, augmentations, distributions, S4D initialisation")],
     ENUM + "every history of seeding, drawing, building, saving and restoring to the depth is run on the real code against a table keyed by what happened since the last seeding",
     "Histories are complete to the depth; draws are compared exactly within a process and between processes on one machine.")

prop("P38", "The same arguments mean the same however they are written or passed",
     "A call is decided by the values of its arguments: a whole number given as an int, a float or a numpy scalar where a float is documented, a numpy integer where an int is, a tuple for a list, arguments by position or by keyword in any order, and documented defaults written out or left out all give the same result, for each argument alone and for all of them together.",
     ["configurations", "spellings"], "all components x configurations, every argument in every spelling alone and all together; all arguments positional, by keyword, and with defaults written out",
     "A test writes each argument one way; a branch on its type, an integer power, a floor division or a cache key that tells 1 from 1.0 shows only in the spelling no test uses.",
     ["ml4gw/transforms", "ml4gw/waveforms", "ml4gw/nn", "ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/utils", "ml4gw/distributions.py", "ml4gw/dataloading"],
     [("argument handling", "constructors, fit and forward methods throughout ml4gw")],
     ENUM + "every spelling of every argument in the bound is run on the real code and compared with the canonical spelling",
     "Complete over the listed configurations and spellings (thorough: pairs of spellings); spellings the documentation rules out are not included.")

prop("P39", "Whatever fails in the middle surfaces and leaves nothing behind",
     "A call, construction, fit or draw that is stopped anywhere inside (memory runs out, the user interrupts) leaves its arguments, the object, saved states, process-wide settings and all other objects as if it had not been made: the same and other calls afterwards give what they give on a fresh object, and a seed gives the draws it always gives. A transform whose first fit or load was stopped is refused or fully fit, one stopped before it stored anything is fit as before, and repeating the fit makes it right; Q-tiles computed earlier stay usable when computing new ones is stopped. A dataset whose files are missing, torn, empty, incomplete or shorter, or fail while being opened or read, or whose chunk producer raises or yields something unusable, hands out only right batches or lets the fault surface; once the cause is gone it works again, and no files stay open.",
     ["crash points", "faults", "histories"], "every tensor operation of every call as a crash point; all histories of reading, faulting and repairing sources to the depth; every file operation failing once",
     "Tests never interrupt a call; what a half-finished call leaves in an attribute, a cache, an argument or a global setting is seen only by the next one.",
     ["ml4gw/transforms", "ml4gw/dataloading", "ml4gw/nn", "ml4gw/waveforms", "ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/utils", "ml4gw/distributions.py"],
     [("state touched during a call", "forward and fit methods throughout ml4gw"), ("file and chunk handling", "dataloading/hdf5_dataset.py, dataloading/chunked_dataset.py")],
     "fault injection into the real code: every crash point of every call in the bound (a dispatch mode raises at the k-th tensor operation, for every k), and every history of reads, faults and repairs to the depth",
     "Thorough stops at every operation; quick at every one where a call has at most 40, else at one in every distinguishable state of the object, the settings and the package's containers and caches, and at 21 evenly spaced ones. A refit stopped between storing two buffers may leave a mixture until it is repeated. Operations that are not torch's are not stopped in the middle, except opening and reading HDF5.")

NOT_APPLICABLE = {}


def emit():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                     quantifier=dict(over=p["over"], text=p["text"]),
                                     why_tests_cant=p["why"], anchors=a)) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            checks.append(dict(
                property=p["id"], quick_cmd=f"./check {p['id']} --tier quick",
                thorough_cmd=f"./check {p['id']} --tier thorough", technique=p["technique"],
                level="model_checking", level_note=p["note"],
                evidence_file=f"evidence/{p['id']}.json"))
        else:
            na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(
                p["id"], "check still being built")))
    man = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Each check drives the real code in /repo; see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    emit()
    print(len(P), "properties")
