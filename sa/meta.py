"""What each property says: the source of properties.jsonl and MANIFEST.json (tools_gen.py)."""
M = {}
NA = {}

GVN = ("abstract interpretation of the source into value graphs + global value numbering modulo field axioms against a "
       "reference formula")
GVN_NOTE = ("Decided from the source for all sizes and inputs on every path of the listed configurations. Values are "
            "compared as exact real arithmetic (rounding is not modelled) up to a hash-collision probability of about "
            "1e-18; torch/scipy primitives are trusted to do what they document; an expression outside the analysed "
            "operation set is reported as undecided in the evidence, never as a violation.")
EFF_NOTE = ("Decided from the source on every path of the catalogue of public operations (symbolic shapes, all option "
            "values listed in sa/entries). The model of torch's aliasing and in-place behaviour is hand-written and "
            "trusted; a call outside it is listed as unknown in the evidence.")


def prop(pid, title, statement, over, text, why, files, mech, technique=GVN, note=GVN_NOTE, observe=None, how=None):
    anchors = dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])
    if observe:
        anchors["observe_at"] = observe
    M[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=anchors, technique=technique, note=note, how=how)


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech)
    NA[pid] = reason


prop("P01", "No call modifies its caller's tensors, lists or dictionaries",
     "Calling any public function, transform, layer, waveform model, dataloader or utility of the library leaves every "
     "tensor, list and dictionary the caller passed in exactly as it was: same elements, shape, dtype and contents. "
     "Results may share storage with an argument, but nothing is written through an argument.",
     ["inputs", "configurations"], "all argument tensors of any shape/dtype, all option combinations, training and evaluation mode",
     "A test compares outputs for a few inputs; whether an in-place operation reaches the caller's storage depends on the "
     "dtype, shape and branch taken (a no-op cast or reshape returns the caller's own storage).",
     ["ml4gw"], [("in-place tensor operations and container writes", "all of ml4gw/*.py")],
     "effect analysis over an alias graph (abstract interpretation)", EFF_NOTE)
prop("P02", "Results depend on arguments, fitted state and declared randomness only",
     "An operation that is not documented as random or streaming gives the same result for the same arguments however "
     "often and in whatever order it and other operations were called before: nothing is cached from one call to the "
     "next, no library-wide state is written, and only operations documented as random draw random numbers. Values given "
     "to one call never change what a later call without them returns.",
     ["histories", "inputs", "configurations"], "all sequences of calls on an object, all inputs and options",
     "Tests call an object a handful of times in one order; a stale cache or an undeclared random draw shows up only for "
     "a particular history.",
     ["ml4gw"], [("attribute, class and module writes, random draws", "all of ml4gw/*.py")],
     "effect and purity analysis (abstract interpretation of writes to object, class and module state, random draws)",
     EFF_NOTE)
prop("P03", "Results stay on the device of the data and of the module",
     "Whatever device a module was moved to and its data lives on, calling it, fitting it or calling a library function "
     "combines only tensors of that device and returns its results there: every tensor created on the way is created on, "
     "or moved to, the device of the data, and every tensor a module needs is a registered parameter or buffer that moves "
     "with it. Indices and frequency masks given on the cpu are accepted alongside data on a device, and datasets yield "
     "their batches on the device they were asked to host their data on.",
     ["inputs", "configurations"], "all devices other than the cpu, all shapes, option combinations and branches",
     "The test environment has no accelerator: a tensor left on the cpu changes nothing in any test and fails on the first "
     "call on another device.",
     ["ml4gw"], [("tensor creation, register_buffer, device arguments", "all of ml4gw/*.py")],
     "device dataflow analysis (abstract interpretation over a placement domain)", EFF_NOTE)
prop("P04", "Results keep the gradient of the data and of the parameters",
     "The floating point result of any transform, layer, waveform model, distribution or library function stays attached "
     "to the autograd graph of every floating point tensor given to the call, and of every trainable parameter, that it "
     "is computed from: no value takes a path that is detached, computed with gradients disabled, or that passes through "
     "a Python number or a NumPy array. Lengths, indices, comparisons and roundings carry no gradient, and filter "
     "coefficients designed when a filter is built are constants.",
     ["inputs", "configurations"], "all floating point arguments and trainable parameters, option combinations and branches",
     "The tests compare values, which a detached path leaves unchanged; training through the operation silently loses a "
     "term of the gradient.",
     ["ml4gw"], [("every path from an argument or parameter to a result", "all of ml4gw/*.py")],
     "gradient dataflow analysis (paths of the value graph built by abstract interpretation)", EFF_NOTE)
prop("P05", "Samples of a batch are processed independently of each other",
     "Transforming, whitening, filtering, rescaling, projecting, resampling or converting a batch, estimating its power "
     "spectra and SNRs, and generating waveforms for a batch of parameters gives for each sample exactly what the "
     "operation gives for that sample alone: no sample's result depends on its neighbours, its position or the size of "
     "the batch. Operations that choose one grid or one tiling for a whole batch by definition (the time domain "
     "generator, the Q scan) and random augmentations are not meant; a batch with a parameter out of bounds may be "
     "refused as a whole.",
     ["inputs", "configurations"], "all batch sizes, sample contents, per-sample or shared densities and options",
     "Tests compare batches against a per-sample loop for one or two operations; a statistic taken over one axis too many "
     "or a per-sample quantity broadcast along the wrong axis changes little for similar samples.",
     ["ml4gw/gw.py", "ml4gw/spectral.py", "ml4gw/transforms", "ml4gw/waveforms"],
     [("axes of reductions, broadcasts and indices", "ml4gw/gw.py, ml4gw/spectral.py, ml4gw/transforms, ml4gw/waveforms")],
     "abstract interpretation of the source into value graphs + global value numbering of a batch against its samples", GVN_NOTE)
prop("P06", "Saved state restores the behaviour of fitted and trained modules",
     "Loading the state dict of a fitted transform or trained network into another module built with the same arguments - "
     "freshly constructed, fitted to other data or already used - makes that module return exactly what the original "
     "returns for every input. A fitted transform refuses to run with a ValueError until it was fitted or successfully "
     "loaded, and a load that fails for missing or misshapen entries does not count.",
     ["inputs", "histories", "configurations"], "all fitted data, trained parameters, inputs and prior histories of the loading module",
     "Tests load one state into one fresh object; a value kept outside the state dict, or cached from an earlier fit or "
     "call, shows up only for a particular history.",
     ["ml4gw/transforms/transform.py", "ml4gw/transforms", "ml4gw/nn"],
     [("_load_from_state_dict, build, _check_built", "ml4gw/transforms/transform.py"), ("register_buffer, nn.Parameter", "ml4gw/transforms, ml4gw/nn")],
     GVN, GVN_NOTE)
prop("P07", "Window slicing reads exactly the requested samples",
     "Slicing kernels out of a timeseries returns, for every start index, exactly the following kernel-length samples of "
     "each channel; unfolding yields consecutive windows at the given stride plus the untouched remainder; sampled start "
     "indices never reach outside the timeseries, obey the requested maximum offset from its center, cover every "
     "admissible window, and are the same for all channels exactly when coincidence is asked for.",
     ["inputs", "configurations"], "all lengths, kernel sizes, strides, index values, batch and channel counts",
     "Tests slice a few sizes; off-by-one errors at the last window, for a particular length modulo stride or for "
     "channel-wise indices need the general argument.",
     ["ml4gw/utils/slicing.py"], [("unfold_windows, slice_kernels, sample_kernels", "ml4gw/utils/slicing.py")])
prop("P08", "Datasets yield genuine windows of their data, each where it belongs",
     "Every batch element a dataset yields is a contiguous window of the stored series of that very channel (and chunk or "
     "file), with targets taken from the same window; starts range over every admissible window and no other, files are "
     "drawn in proportion to their length, and channels share a window exactly when the dataset is coincident. An epoch "
     "has the advertised number of batches, in-memory data is visited in order or once each in a random order, and "
     "only series too short for a single window are rejected.",
     ["inputs", "configurations", "histories"], "all lengths, kernel/batch sizes, strides, chunk shapes, file lengths, coincidence modes and draws",
     "Windows are drawn at random from data of arbitrary length; tests check shapes for a few draws and cannot see a wrong "
     "channel, a never drawn window or a misplaced target.",
     ["ml4gw/dataloading"], [("batch construction", "ml4gw/dataloading/*.py"), ("window gathering", "ml4gw/utils/slicing.py")],
     note=GVN_NOTE + " The deterministic non-coincident order of the in-memory dataset is not decided, and a batch at the "
     "end of an epoch is analysed as a full one.")
prop("P11", "Detector responses and strain projection follow detector geometry",
     "For every sky position, polarization angle, set of detectors and polarization modes, each antenna response is the "
     "detector tensor contracted with that mode's polarization tensor, the arrival delay at each detector is the "
     "projection of its vertex on the propagation direction over the speed of light, and the observed strain is the "
     "response-weighted sum of the polarizations shifted by that delay truncated to whole samples. Declination, "
     "right ascension and polarization enter with the documented conventions, each batch element and detector "
     "separately, and the detector constants are those of the named detector.",
     ["inputs", "configurations"], "all angles, batch sizes, detector sets and mode lists",
     "Tests compare a few random angles with another implementation at a tolerance; sign, ordering and mixing errors for "
     "other modes, batch shapes or detectors are not reached.",
     ["ml4gw/gw.py", "ml4gw/constants.py"], [("antenna response and projection", "ml4gw/gw.py")])
prop("P12", "SNR and its rescaling follow the one-sided noise-weighted inner product",
     "For every waveform batch, background density and frequency limits, the squared signal-to-noise ratio of a waveform "
     "in one detector is four times the sum over positive frequencies inside the limits of the squared modulus of its "
     "spectrum over the density times the frequency step, and the network ratio is the root sum of squares over "
     "detectors. Rescaling to target ratios multiplies each waveform of the batch, in all detectors alike, by its target "
     "over its network ratio.",
     ["inputs", "configurations"], "all waveforms, densities (shared, per channel or per sample), lengths, low/high frequency limits given or omitted",
     "Tests sample one set of shapes and one reference; the guarantee is per bin, per batch element and per option.",
     ["ml4gw/gw.py"], [("SNR integral and reweighting", "ml4gw/gw.py")])
prop("P13", "Power and cross spectral densities are Welch estimates",
     "For every timeseries, segment length (even or odd), stride, window and averaging mode, the estimate at each "
     "frequency is the mean (or bias-corrected median) over all complete segments of the windowed, mean-subtracted "
     "segment spectra's product, scaled by the given factor and doubled except at zero and the even-length Nyquist "
     "frequency; the fast variant subtracts the mean of the whole series instead and also gives the cross density of two "
     "series. Leading axes are treated independently and the estimate is computed in double precision.",
     ["inputs", "configurations"], "all series lengths, segment lengths, strides, windows, 1-3 dimensional inputs, mean/median, auto/cross",
     "Tests compare a few sizes against scipy within a tolerance that hides single-bin errors; parity of the segment "
     "length and trailing incomplete segments are sampled only.",
     ["ml4gw/spectral.py"], [("Welch estimates and median bias", "ml4gw/spectral.py")])
prop("P14", "Whitening applies the truncated inverse spectrum and crops the filter edges",
     "For every batch, density and filter duration, whitening divides the spectrum of the mean-subtracted series by the "
     "square root of a density whose inverse root is cut below the highpass and from the lowpass frequency, tapered in "
     "time to the filter duration on both ends and zero in between, and the result is scaled by the root of the sample "
     "rate and loses half the filter duration on each side exactly when cropping is on. A density of another length is "
     "first interpolated to the bins of the series, shared densities apply to every batch element or channel alike, and "
     "a series not longer than the filter is rejected.",
     ["inputs", "configurations"], "all series lengths (every residue modulo 4), density shapes, filter durations or tapers, cutoffs given or omitted, crop on/off",
     "Tests check variances and a few lengths; which bin the cut starts at, which taper half goes where and odd lengths "
     "are sampled only.",
     ["ml4gw/spectral.py"], [("inverse spectrum truncation, normalisation, whitening", "ml4gw/spectral.py")])
REF = ("abstract interpretation of the source and of a reference program into value graphs + global value numbering modulo "
       "field axioms")
prop("P15", "Fitted transforms equal their functional counterparts with the fitted state",
     "Whitening, fixed whitening, SNR rescaling, channel scaling and spectral density modules compute exactly what the "
     "corresponding functions compute with the configured sample rate, durations, filter band, window and averaging, and "
     "fitting stores per channel exactly the statistics of that channel's background: given as a spectrum or estimated by a "
     "median Welch estimate with the requested length and overlap (half the length if omitted, none if zero), interpolated "
     "to the bins of the kernel. A forward pass with reverse scaling inverts the scaling, rescaling without targets uses a "
     "permutation of the batch's own SNRs, and wrong numbers of channels, backgrounds or samples are rejected.",
     ["inputs", "configurations"], "all kernel lengths, sample rates, backgrounds, cutoffs given or omitted, overlap given, omitted or zero",
     "Tests fit on one or two backgrounds and compare statistics loosely; defaults, per-channel wiring and the state "
     "actually used by the forward pass are sampled only.",
     ["ml4gw/transforms/transform.py", "ml4gw/transforms/whitening.py", "ml4gw/transforms/snr_rescaler.py",
      "ml4gw/transforms/scaler.py", "ml4gw/transforms/spectral.py"],
     [("fit/forward of the transform modules", "ml4gw/transforms")], technique=REF)
prop("P16", "The Q transform tiles, normalises, interpolates and selects as in its definition",
     "Each tile's energy is the squared magnitude of the inverse transform of the spectrum weighted by the bisquare window "
     "around the tile's frequency, on a power-of-two grid, divided by its own mean or median (or not at all); the tile "
     "frequencies and Q planes are the logarithmic grids that keep the requested mismatch. The spectrogram resamples every "
     "tile to the requested times and the rows to the requested frequencies with the chosen method, has exactly one "
     "dimension more than the input for every batch and channel count, and keeps each batch element and channel apart. The "
     "loudest energy is the maximum over the tiles in the searched frequency range, kept per channel or batch as asked, and "
     "a scan returns the plane with the loudest tile.",
     ["inputs", "configurations"], "all Q values, frequencies, durations, sample rates and mismatches of a tile; several "
     "concrete tilings for the whole transform with symbolic data; batches and channels of any size including one",
     "Tests compare a few random series with another implementation; off-by-one bins, axes of size one and which tile is "
     "normalised by what are sampled only.",
     ["ml4gw/transforms/qtransform.py", "ml4gw/transforms/spline_interpolation.py"],
     [("tiles, single transform and scan", "ml4gw/transforms/qtransform.py")], technique=REF)

prop("P17", "Spline resampling is the B-spline fit and evaluation of its definition",
     "For every number of input and output sites, spline degree and smoothing, interpolation along one or two axes equals the "
     "regularised least-squares B-spline fit on the standard end-clamped averaged knots, evaluated by the Cox-de Boor "
     "recursion, with output sites clamped to the fitted range. Sites given at call time take precedence over those given at "
     "construction, lower-dimensional data gain leading axes, and batch elements and channels are fitted separately. Too few "
     "sites, mismatching shapes, excess dimensions and missing output sites are rejected.",
     ["inputs", "configurations"], "any number of sites, any data size; degrees 1, 2, 3 and 5 (one axis), 1 to 3 (two axes)",
     "Tests compare against scipy at a few sizes and tolerate percents; the treatment of knots at either end, coinciding "
     "knots and mixed construction/call sites is sampled only.",
     ["ml4gw/transforms/spline_interpolation.py"],
     [("one- and two-dimensional spline interpolation", "ml4gw/transforms/spline_interpolation.py")], technique=REF)
prop("P18", "Filters, integrators and decimators compute what their parameters define",
     "Heterodyning multiplies by the inspiral phase of each chirp mass over exactly the input's samples and returns the "
     "requested representation; decimation keeps, in order, every k-th sample of each scheduled segment wherever the "
     "schedule starts or leaves gaps; recursive filters apply the coefficients scipy designs for the same order, type, "
     "cutoff and sample rate along the last axis. The top-hat integrator is the causal moving mean, the leaky one steps, "
     "leaks and saturates as configured, the shifted correlation is Pearson's coefficient at every lag, and the "
     "multi-resolution spectrogram combines its spectrograms on one grid. Batch and channel axes are kept apart and "
     "unknown options are rejected.",
     ["inputs", "configurations"], "any data size, sample rate and duration; one to three decimation segments; one to three data axes",
     "Tests run each module on one or two shapes with seconds-scale random data; odd lengths, gaps in a schedule, "
     "saturation and mixed numbers of axes are sampled only.",
     ["ml4gw/transforms/heterodyne.py", "ml4gw/transforms/decimator.py", "ml4gw/transforms/iirfilter.py",
      "ml4gw/transforms/integrator.py", "ml4gw/transforms/pearson.py", "ml4gw/transforms/spectrogram.py"],
     [("heterodyne, decimation, IIR filter, integrators, correlation, spectrogram", "ml4gw/transforms")], technique=REF)
prop("P19", "TaylorF2 is the 3.5PN stationary-phase inspiral of its parameters",
     "For every batch of masses, aligned spins, distances, phases and inclinations the two polarizations are the restricted "
     "TaylorF2 waveform with the published phase coefficients to 3.5PN order including spin-orbit and spin-spin terms, with "
     "the leading order amplitude, the reference phase at the reference frequency and the quadrupole's inclination "
     "dependence. Each batch element depends on its own parameters only, and parameters of different lengths are rejected.",
     ["inputs"], "all real parameters and frequencies, any batch size and number of frequencies",
     "Tests compare with LAL at a handful of masses and spins with tolerances that hide small or rarely excited terms.",
     ["ml4gw/waveforms/cbc/taylorf2.py"],
     [("phase, amplitude, polarizations", "ml4gw/waveforms/cbc/taylorf2.py")], technique=REF)
prop("P20", "IMRPhenomD is the published inspiral-merger-ringdown model",
     "The phase and amplitude of every frequency are those of the published region (inspiral, intermediate, ringdown) it "
     "falls in, with the published fits in symmetric mass ratio and spin, joined so that the phase and its slope are "
     "continuous and the amplitude's quartic meets both neighbours; returned derivatives are the derivatives of the "
     "returned values. The remnant's ringdown and damping frequencies interpolate the tabulated ones at the remnant spin "
     "(rejecting spins outside), the waveform is aligned in time and phase at the reference frequency, and elements of a "
     "batch do not influence one another.",
     ["inputs"], "all real masses, spins, distances and frequencies, any batch size and number of frequencies",
     "Tests compare with LAL at a few random parameters with loose tolerances; single fit coefficients, region boundaries and "
     "derivatives are not visible there.",
     ["ml4gw/waveforms/cbc/phenom_d.py", "ml4gw/waveforms/cbc/phenom_d_data.py"],
     [("fits, regions, joins, remnant, polarizations", "ml4gw/waveforms/cbc/phenom_d.py")], technique=REF)
prop("P21", "IMRPhenomPv2 is the aligned model twisted up by the precession angles",
     "The polarizations are the aligned-spin waveform of the same masses and spins, with the precessing remnant, turned from "
     "the precessing frame into the observer's with the published angles as functions of frequency, the spin-weighted "
     "harmonics of the angle between line of sight and total angular momentum, and the polarization angle of the source "
     "frame. The heavier body is the first one throughout, the result is shifted so that the ringdown phase slope vanishes "
     "and by the coalescence time in seconds, and it stays finite for equal masses.",
     ["inputs"], "all real masses, spin vectors, distances, angles and frequencies, any batch size and number of frequencies",
     "Tests compare with LAL at a few random parameters with loose tolerances; which body's spin enters which term, and the "
     "coalescence time, are hardly visible there.",
     ["ml4gw/waveforms/cbc/phenom_p.py", "ml4gw/waveforms/conversion.py"],
     [("frames, angles, twist, remnant, polarizations", "ml4gw/waveforms/cbc/phenom_p.py")], technique=REF)
prop("P22", "Burst waveforms follow their analytic definitions",
     "Sine-Gaussians and ringdowns are, sample by sample and for every parameter batch, the analytic polarizations of their "
     "documented parameters: central time, frequency, quality, root-sum-square amplitude, phase and eccentricity, or radiated "
     "mass fraction, phase, inclination and distance. Output has one row per parameter set and one column per sample.",
     ["inputs"], "all parameters, sample rates and durations, both precisions",
     "Tests compare a few parameter sets with a second implementation, if at all; ringdowns are not compared with anything.",
     ["ml4gw/waveforms/adhoc/sine_gaussian.py", "ml4gw/waveforms/adhoc/ringdown.py"],
     [("SineGaussian, Ringdown", "ml4gw/waveforms/adhoc")], technique=REF)
prop("P23", "Parameter conversions and inspiral time bounds match their definitions",
     "Component masses from chirp mass and ratio, the spin vectors and inclination from the angles of the total momentum "
     "frame, rotations, the orbital angular momentum, and the post-Newtonian bounds on chirp, merger and ringdown time, start "
     "frequency, remnant spin and innermost stable orbit are the published expressions, element by element.",
     ["inputs"], "all real parameters, any batch size, any sign of the reference frequency",
     "Tests compare with LAL at random parameters; branches for zero spins and single coefficients of small terms are sampled only.",
     ["ml4gw/waveforms/conversion.py", "ml4gw/waveforms/cbc/utils.py", "ml4gw/waveforms/cbc/coefficients.py"],
     [("conversions, time bounds", "ml4gw/waveforms")], technique=REF)
prop("P24", "Time domain generation conditions a spectrum without cutting or shifting it",
     "The generator starts every binary at the frequency that leaves the requested one plus ten percent and three cycles in "
     "band, tapers between the two, pads the grid to a power of two, puts the coalescence the requested time before the end, "
     "tapers both ends in time by one cycle each per binary, pads on the left to the requested duration and high-passes both "
     "polarizations. Both polarizations are treated alike and every parameter reaches the approximant.",
     ["inputs", "configurations"], "any approximant, batch, sample rate, duration, minimum and reference frequency and right padding",
     "Tests compare the match with LAL for a few random binaries, which small shifts, tapers of the wrong binary or one "
     "polarization handled differently barely lower.",
     ["ml4gw/waveforms/generator.py"],
     [("spectrum conditioning, tapers, output", "ml4gw/waveforms/generator.py")], technique=REF)
prop("P25", "Parameter distributions draw from and score the density they document",
     "Sampling applies, to one uniform (or normal) variate per requested sample, the inverse of the documented cumulative "
     "distribution: cosine, sine, log-uniform, power law, log-normal, delta, and the comoving-volume and rate-evolution "
     "densities in redshift, comoving or luminosity distance for any cosmology. The score of a value is the logarithm of "
     "that same density, normalised over its range and minus infinity outside it. Output has the requested shape.",
     ["inputs", "configurations"], "all real bounds, indices, cosmologies, grid sizes and rate functions, any sample shape",
     "Tests draw samples and compare histograms or densities with loose tolerances for a few parameters; normalisation, "
     "Jacobians and the edges of the range hide within them.",
     ["ml4gw/distributions.py"], [("densities and inverse cumulative distributions", "ml4gw/distributions.py")], technique=REF)
prop("P26", "Augmentations and waveform samplers change what they select, and nothing else",
     "Sign inversion and time reversal act on each timeseries as a whole, with the given probability and one draw per "
     "series, and leave every other sample untouched. The waveform sampler returns the requested number of waveforms, drawn "
     "uniformly from all of them, or all of them in order, with every polarization and the parameters of the same waveform "
     "in the same row, and refuses tables of different lengths or more waveforms than it has. The projector gives the "
     "responses of the detectors it was built with, in their order, at its sample rate.",
     ["inputs", "random draws"], "all inputs, probabilities and draws, any number of waveforms, channels, detectors and samples",
     "Tests fix the probability at 0 or 1 or look at shapes; which draw decides which element is not visible there.",
     ["ml4gw/augmentations.py", "ml4gw/transforms/waveforms.py"],
     [("SignalInverter, SignalReverser", "ml4gw/augmentations.py"),
      ("WaveformSampler, WaveformProjector", "ml4gw/transforms/waveforms.py")], technique=REF)
prop("P27", "Streaming snapshots and online averages equal their offline counterparts",
     "A snapshotter's windows are the windows a single pass over the whole stream gives, spaced by the inference interval, "
     "whatever the sizes of the updates, and its state is the tail the next call needs. An online averager returns, for every "
     "update that is complete, the mean of the predictions of all windows that cover it, with no sample lost, repeated or "
     "weighted twice at batch boundaries.",
     ["inputs", "schedules"], "all stream contents, batch sizes, channels, update sizes, offsets and window lengths",
     "Tests stream one configuration; the seam between calls depends on how updates, windows and offsets divide each other.",
     ["ml4gw/nn/streaming"], [("Snapshotter", "ml4gw/nn/streaming/snapshotter.py"),
      ("OnlineAverager", "ml4gw/nn/streaming/online_average.py")], technique=REF)
prop("P28", "Networks are the documented functions of their trained state",
     "For any trained parameters, read by their state-dict names, the residual networks (one and two dimensional, basic and "
     "bottleneck, any norm layer), the diagonal state space layers and models and the group normalisations compute the "
     "documented function: padding that keeps the length for odd kernels, strides or dilations per stage, projected shortcuts "
     "exactly where shapes change, the causal convolution with the impulse response of the state space, statistics per group "
     "and sample. Initial state is the documented one. Invalid configurations are refused.",
     ["inputs", "configurations"], "all inputs and trained parameters, any batch, channels, length and classes; the listed depths, kernels, "
     "groups and stride types",
     "Tests check output shapes and compare normalisation at a few sizes; which tensor feeds which layer with which stride is "
     "not visible in shapes.",
     ["ml4gw/nn/resnet", "ml4gw/nn/ssm", "ml4gw/nn/norm.py"],
     [("blocks, stages, shortcuts", "ml4gw/nn/resnet"), ("impulse response, causal convolution", "ml4gw/nn/ssm/s4d.py"),
      ("group statistics", "ml4gw/nn/norm.py")], technique=REF)
prop("P29", "Autoencoders return what their levels were given",
     "The decoder of every level gives back as many channels as its encoder was given, the network's output has the length of "
     "its input, a skip connection joins each decoder's output with the input of the encoder of the same level (by size, sum, or "
     "group by group), the encoded vector itself is never joined, and only the last decoder has its own activation and "
     "channel number. Crops and pads are even on both sides.",
     ["inputs", "configurations"], "all inputs and trained parameters, any batch and length; the listed depths, kernels, strides, groups and "
     "skip connections",
     "The repository has no test of the autoencoders.",
     ["ml4gw/nn/autoencoder"],
     [("encode, decode, states", "ml4gw/nn/autoencoder/base.py"), ("layers", "ml4gw/nn/autoencoder/convolutional.py"),
      ("join", "ml4gw/nn/autoencoder/skip_connection.py"), ("crop and pad", "ml4gw/nn/autoencoder/utils.py")], technique=REF)

na("P09", "Waveform models match LALSimulation to numerical precision",
   "TaylorF2, IMRPhenomD and IMRPhenomPv2 polarizations agree with LALSimulation's to the precision the tests ask for.",
   ["inputs"], "all masses, spins, distances, angles and frequency grids in the documented ranges",
   "Tests compare a few random draws.",
   ["ml4gw/waveforms/cbc"], [("floating point evaluation of the models", "ml4gw/waveforms/cbc")],
   "The agreement is between floating point results of two programs, one of them outside this repository: it depends on "
   "rounding and cancellation over ranges of runtime values, which no sound static argument in reach bounds. The formulas "
   "themselves, as exact real arithmetic, are P19 to P21.")
na("P10", "Whitened noise has unit variance and samplers have their documented statistics",
   "Noise of the density a whitening transform was given leaves it with unit variance, and large samples of each parameter "
   "distribution pass goodness-of-fit tests against the documented density.",
   ["inputs"], "all noise realisations and densities, all seeds",
   "Tests check one seed.",
   ["ml4gw/transforms/whitening.py", "ml4gw/distributions.py"], [("random draws and their statistics", "ml4gw/distributions.py")],
   "Statistics of realised draws and spectral leakage quantify over random runtime values; deciding them means sampling. "
   "The deterministic content - the filter applied, the inverse transform of each draw, the density scored - is P14, P15 "
   "and P25.")
