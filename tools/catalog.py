"""Source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "enterprise/signals/"

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)], level, technique, note
P = []


def prop(id, title, statement, over, qtext, why, files, mech, level, technique, note, state=()):
    P.append(
        dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
             level=level, technique=technique, note=note, state=state)
    )


prop(
    "C01", "Results depend on the current parameters, never on the call history",
    "Whatever sequence of evaluations (likelihoods, covariance, basis, prior-covariance and delay accessors, at new, "
    "repeated or revisited parameter values, with constants changed in between) a PTA has already served, every answer "
    "equals the one a freshly built identical PTA gives for the current parameters and constants. "
    "Arrays returned by the PTA earlier are never altered by later calls.",
    ["histories"],
    "All operation sequences up to the depth bound over an alphabet of parameter points that collide in some cache "
    "keys and differ in others, for models covering every caching signal type.",
    "Tests call each model a few times in one order; stale caches, shared buffers and in-place updates only show "
    "after particular histories (A-B-A, A-B-C-A, set-constant-in-between).",
    [S + "signal_base.py", S + "gp_signals.py", S + "white_signals.py", S + "deterministic_signals.py"],
    [("parameter-keyed caching of per-pulsar results", S + "signal_base.py: cache_call"),
     ("identity-keyed memo of block matrices and factors", S + "signal_base.py: simplememobyid, LogLikelihood"),
     ("in-place Cholesky update reusing the symbolic factor", S + "signal_base.py: LogLikelihood.__call__"),
     ("basis and phi buffers owned by a signal", S + "gp_signals.py: BasisGP._construct_basis, get_phi")],
    "model_checking", "stateful BFS over operation histories of the live PTA, differential against a fresh PTA",
    "Exhaustive over all histories up to the depth bound for the listed models; values outside the 3-4 parameter "
    "points per model are not explored.",
    state=[("caches", "last results keyed by parameter values", S + "signal_base.py: cache_call")],
)
prop(
    "C02", "The likelihood is the marginalized Gaussian likelihood of the model",
    "For every combination of supported signals on one or more pulsars, the PTA log likelihood equals that of a "
    "multivariate Gaussian whose mean is the sum of the delays and whose covariance is white noise plus all Gaussian "
    "processes (with cross-pulsar correlations) plus the timing model with prior variance 1e40 per column, omitting "
    "the 2*pi constant. The value does not depend on whether parameters are passed as a dictionary or as a vector, on "
    "the Phi-inversion method, or on the sparse or dense likelihood class.",
    ["configurations", "inputs"],
    "All model compositions within a deviation bound of four base models over thirteen axes (white noise, ECORR form, "
    "timing model, red, DM/chromatic, common processes, kernels, waveforms, constants, pulsar sets).",
    "The passing tests never evaluate a likelihood of a composed model; interactions of pairs and triples of signals "
    "cannot be sampled by hand.",
    [S + "signal_base.py", S + "gp_signals.py", S + "white_signals.py", S + "utils.py"],
    [("Woodbury likelihood", S + "signal_base.py: LogLikelihood.__call__"),
     ("assembly of T, N, Phi per pulsar", S + "signal_base.py: SignalCollection"),
     ("cross-pulsar prior", S + "signal_base.py: PTA.get_phi, get_phiinv*")],
    "model_checking", "bounded-exhaustive enumeration of model configurations against a dense reference model",
    "Every configuration within the deviation bound is executed on the real code and compared to dense algebra; "
    "small pulsars (5-8 TOAs), one data set per seed.",
)
prop(
    "C03", "Order and grouping of signals and pulsars do not matter",
    "Adding the same signals in any order and any grouping, and listing the same pulsars in any order or building the "
    "PTA by adding pulsar models or whole PTAs, yields the same free parameters, log likelihood and log prior for the "
    "same parameter values. Per-pulsar results follow the pulsar order of the container, and its length, names, "
    "look-ups by name or position all refer to the same pulsar models.",
    ["configurations"],
    "All permutations and all binary groupings of up to four signals for each model of a family, and all permutations "
    "and additive constructions of up to three pulsars.",
    "Tests build each sum once, in one order.",
    [S + "signal_base.py", S + "gp_signals.py", S + "white_signals.py"],
    [("addition of signal and collection classes", S + "signal_base.py: MetaSignal, MetaCollection"),
     ("sum of white-noise terms with operator overloading", S + "signal_base.py: get_ndiag, __add__/__radd__"),
     ("PTA container", S + "signal_base.py: PTA.__add__, __getitem__")],
    "model_checking", "exhaustive enumeration of permutations and groupings, differential + dense reference",
    "Exhaustive over all orders/groupings of the listed signal families; families are fixed.",
)
prop(
    "C04", "White-noise covariance and its solver match dense algebra",
    "For every pattern of observing epochs and backends, in sorted or unsorted data, the white-noise covariance is "
    "EFAC^2 (sigma^2 + EQUAD^2) + TNEQUAD^2 on the diagonal plus ECORR^2 between TOAs of the same backend group and "
    "multi-TOA epoch (epochs of a single TOA get no ECORR). Solving with it (vectors, matrices, with and without a left factor) and its log determinant agree with "
    "dense linear algebra and with each other for every ECORR method, and with the basis-ECORR likelihood.",
    ["inputs", "configurations"],
    "All assignments of up to 7 TOAs to epochs and backends (all set patterns) x ECORR method x selection x shape of "
    "the right-hand sides.",
    "One fixed pulsar file is used by the (skipped) tests; single-TOA epochs, interleaved backends, no epochs at all "
    "and unsorted data never occur in it.",
    [S + "white_signals.py", S + "signal_base.py", S + "utils.py"],
    [("ECORR kernels", S + "white_signals.py: EcorrKernelNoise"),
     ("solvers", S + "signal_base.py: ShermanMorrison, BlockMatrix, csc_matrix_alt, ndarray_alt"),
     ("epoch finding", S + "utils.py: create_quantization_matrix, quant2ind")],
    "model_checking", "bounded-exhaustive enumeration of epoch/backend layouts against dense linear algebra",
    "Complete over layouts up to the size bound; one set of TOA errors and parameter values per layout.",
)
prop(
    "C05", "The GP prior covariance is assembled and inverted correctly",
    "For any set of per-pulsar and common Gaussian processes, the prior covariance returned by the PTA contains each "
    "process's variance on its own coefficients, and spectrum times overlap-reduction value between pulsars, and "
    "nothing else. The inverse and log determinant obtained with each inversion method are those of that matrix. The "
    "KernelMatrix class adds, sets and inverts blocks like a plain matrix, whatever the sequence of operations.",
    ["configurations"],
    "All combinations of up to three common processes (shared, partially overlapping, disjoint or parametrized bases, "
    "diagonal or dense priors, any subset of pulsars) with per-pulsar processes, for 1-3 pulsars and all methods.",
    "The clique/partition bookkeeping depends on how index sets of several processes overlap; tests use one or two "
    "layouts.",
    [S + "signal_base.py", S + "utils.py", S + "gp_signals.py"],
    [("clique detection", S + "signal_base.py: _setcliques, _setpulsarcliques; " + S + "utils.py: KernelMatrix"),
     ("assembly", S + "signal_base.py: PTA.get_phi"),
     ("inversion methods", S + "signal_base.py: get_phiinv_*")],
    "model_checking", "bounded-exhaustive enumeration of process layouts against a dense reference Phi",
    "Complete over the enumerated layouts, evaluated twice per model to include clique bookkeeping reuse.",
)
prop(
    "C06", "Sharing basis columns between processes never changes the model",
    "Letting Gaussian processes share identical basis columns (combining on or off, for any subset of them and any "
    "overlap of their columns, with repeated, parametrized or selected bases) leaves the implied residual covariance T Phi T^T and the likelihood "
    "unchanged. With combining off for all processes, every process keeps its own columns in signal order. With combining on for all, identical fixed columns are held once.",
    ["configurations"],
    "All combinations of up to four processes with equal, nested, partially overlapping, disjoint, duplicate-column "
    "and parameter-dependent bases, and all combine flags.",
    "Column merging is driven by coincidences between bases; tests have one coincidence.",
    [S + "signal_base.py", S + "gp_signals.py"],
    [("column hashing and index maps", S + "signal_base.py: _combine_basis_columns"),
     ("prior accumulation on shared columns", S + "signal_base.py: get_phi; " + S + "utils.py: KernelMatrix.add")],
    "model_checking", "bounded-exhaustive enumeration of basis overlaps and combine flags",
    "Complete over the enumerated process sets; the covariance oracle is computed from the unshared processes.",
)
prop(
    "C07", "Selections pick exactly the TOAs they name",
    "Each built-in selection (half, backend, NANOGrav backend, telescope, frontend, band, frequency band, index, "
    "custom backend and flag lists, none) yields one boolean mask per label, containing exactly the TOAs with that label's value, for "
    "every pulsar and however often it is reused. A signal restricted by a selection creates one parameter set per "
    "label and applies it to exactly that mask.",
    ["inputs"],
    "All assignments of flag, telescope and frequency values to up to 5 TOAs, all orders, repeated use of one "
    "selection object over several pulsars.",
    "All selection tests are skipped here, and reuse across pulsars with different systems is not tested at all.",
    [S + "selections.py", S + "white_signals.py"],
    [("selection functions", S + "selections.py"), ("argument injection and masking", S + "selections.py: selection_func")],
    "model_checking", "exhaustive enumeration of small flag assignments against a set-based reference",
    "Complete for the value alphabets and sizes given.",
)
prop(
    "C08", "Observing epochs are the clusters of TOAs closer than the time step",
    "For any list of TOAs in any order, time step and minimum count, the quantization matrix has one column per cluster obtained by "
    "greedily grouping time-ordered TOAs that start less than the step after the cluster's first TOA, keeping clusters with at least the "
    "minimum count, with entries 1 for members and 0 otherwise, and weights all 1. The index lists derived from it (arrays or "
    "slices) select exactly those members.",
    ["inputs"],
    "All time lattices of up to 7 TOAs with gaps below, at and above the step, all orderings, several steps and minimum counts.",
    "One fixed TOA list in the tests.",
    [S + "utils.py"],
    [("clustering", S + "utils.py: create_quantization_matrix"), ("indices", S + "utils.py: quant2ind, indices_from_slice")],
    "model_checking", "exhaustive enumeration of TOA lattices against a reference clustering",
    "Complete up to the size bound on the gap alphabet.",
)
prop(
    "C09", "Parameter names, vectors and constants line up",
    "The free parameters of a model are exactly the declared, non-constant ones (hyperparameters included), each listed once and sorted by name "
    "with documented names; mapping a vector assigns the entries in that same order, with vector parameters taking "
    "consecutive entries, and likelihood, prior and unit-cube transform agree between vector (array, list or tuple) and dictionary input. Constants never "
    "appear among the free parameters, take the value given at creation or through the default-parameter dictionary, and "
    "influence every later result.",
    ["configurations", "histories"],
    "All assignments of parameter kinds (free scalar, free vector, shared instance, constant with value, constant set "
    "later, plain value) to the parameters of models with several signals, selections and pulsars.",
    "The tests of default parameters are skipped and others use one arrangement.",
    [S + "parameter.py", S + "signal_base.py"],
    [("naming", S + "parameter.py: Function.__init__"), ("mapping", S + "signal_base.py: PTA.map_params, params, param_names"),
     ("constants", S + "signal_base.py: Signal.set_default_params, constants")],
    "model_checking", "exhaustive enumeration of parameter-kind assignments against a naming/mapping reference",
    "Complete over the assignments for the listed models.",
)
prop(
    "C10", "Priors, samplers and percentage-point functions describe one distribution",
    "For every prior type with scalar or vector arguments, the density has the documented closed form and support, the "
    "log density is its log (summed over vector elements, and over all parameters for the PTA), and the percentage-point function is the inverse of its "
    "cumulative distribution. A sample has the declared shape, lies in the support and is the documented transform of "
    "the random draws of the generator.",
    ["inputs"],
    "All prior types x scalar/vector/covariance argument shapes x a grid of values covering boundaries, inside and "
    "outside, x all random-generator answers of a small alphabet up to the depth needed by rejection.",
    "Tests check a few values with scipy and moments of random samples.",
    [S + "parameter.py", S + "gp_priors.py"],
    [("prior functions", S + "parameter.py: *Prior, *Sampler, *PPF"), ("dispatch", S + "parameter.py: Parameter.get_logpdf, get_ppf, sample")],
    "model_checking", "exhaustive enumeration of arguments and of random-generator answers against closed forms",
    "Complete over the stated grid; the generator is intercepted so every branch of rejection sampling is explored.",
)
prop(
    "C11", "Hierarchical parameters are sampled and evaluated consistently",
    "Sampling a list of parameters returns one value for each listed parameter and each hyperparameter it depends on "
    "(directly or through functions), with every parameter drawn once and from its prior at exactly the returned hyperparameter "
    "values, whatever the order of the list. The log prior of such a model is the sum over all parameters of "
    "their log densities given the hyperparameter values.",
    ["configurations", "inputs"],
    "All dependency graphs of up to 4 parameters (each argument a number, a shared or own hyperparameter, or a "
    "function of hyperparameters) and all orders of the list, with the generator under harness control.",
    "Tests check one hierarchy.",
    [S + "parameter.py", S + "signal_base.py"],
    [("recursive sampling", S + "parameter.py: sample, _sample"), ("argument resolution", S + "parameter.py: Function.__call__")],
    "model_checking", "exhaustive enumeration of hyperparameter graphs with a controlled random generator",
    "Complete over the graphs up to the bound.",
)
prop(
    "C12", "Model functions receive exactly the documented arguments",
    "A user function used in a model is called with, for each argument, the explicit call argument, else the value of its parameter "
    "(from the parameter dictionary, else its constant value), else the given plain value, else the value of a nested function, else the "
    "pulsar attribute of that name (restricted to the selected TOAs when it has one entry per TOA), else its own default. "
    "Parameters are named after pulsar, signal, selection label, function name and keyword; parameter instances keep "
    "their name; hyperfunctions contribute their parameters.",
    ["programs", "inputs"],
    "All assignments of argument sources to functions of up to three arguments, with nesting depth up to two, masks "
    "and explicit arguments.",
    "Tests exercise a handful of assignments.",
    [S + "parameter.py", S + "selections.py"],
    [("argument resolution", S + "parameter.py: Function, function"), ("pulsar injection", S + "selections.py: selection_func")],
    "model_checking", "exhaustive enumeration of small function programs against a reference interpreter",
    "Complete over the enumerated argument-source assignments.",
)
prop(
    "C13", "Conditional GP coefficients have the exact posterior mean and covariance",
    "For any model without shared columns, mean coefficients equal the Gaussian conditional mean, sampled coefficients are mean plus a "
    "linear map of the normal draws whose outer product is the conditional covariance, and processes are basis times coefficients, "
    "each reported under its own signal's name, for every pulsar. Both the class-based and the function-based interfaces, "
    "sparse or dense, and each inversion method, agree.",
    ["configurations"],
    "All model compositions within a deviation bound (correlated or not, selections, timing model, explicit-"
    "coefficient processes, pulsars without processes), all interfaces, and all unit normal draws.",
    "The passing tests do not cover conditional draws; the covariance of draws is a distributional fact sampling "
    "cannot settle.",
    [S + "utils.py"],
    [("conditional", S + "utils.py: ConditionalGP, get_coefficients")],
    "model_checking", "exhaustive enumeration of models and of basis vectors of the random draw",
    "The random draw is replaced by every unit vector, which determines the linear map completely.",
)
prop(
    "C14", "Per-TOA data stay aligned when a pulsar is sorted, filtered or reflagged",
    "For TOAs delivered in any order, every per-TOA array of a pulsar (times, site times, residuals, errors, frequencies, design "
    "matrix, flags, backend labels, telescope, positions, planets, Sun) lists the same observations in the same order, time order (equal times in the order delivered) if "
    "sorting is on. Restricting a pulsar to a time range keeps exactly the observations inside the range in all of them, "
    "drops exactly the timing-model columns without effect (with names, units and DMX entries in step), and newly set flags are returned as given.",
    ["inputs", "histories"],
    "All delivery orders of up to 5 TOAs (with ties), sort on/off, tempo2 and PINT sources, all sequences of filter "
    "and flag operations up to depth 3, all flag-presence patterns for the backend label.",
    "All Pulsar tests need timing packages that are absent; data in test files are already sorted.",
    ["enterprise/pulsar.py"],
    [("sorting", "enterprise/pulsar.py: sort_data, isort/iisort"), ("filtering", "enterprise/pulsar.py: filter_data"),
     ("flags", "enterprise/pulsar.py: flags, set_flags, backend_flags")],
    "model_checking", "stateful exploration of pulsar operation histories against a list-of-records model",
    "Timing packages are replaced by stubs that deliver recorded data; complete over orders and histories to the bound.",
)
prop(
    "C15", "Saving and reloading a pulsar preserves its data",
    "Writing a pulsar to a feather file and reading it back preserves times, errors, residuals, frequencies, labels, "
    "telescopes, flags, design matrix, positions, planets, Sun, name, DM, DMX, distance and sky position, and a noise "
    "dictionary restricted to the pulsar, and the likelihoods of models built on both are equal. Pickling preserves "
    "everything except timing-package objects. Repeating either round trip changes nothing further.",
    ["inputs", "histories"],
    "All combinations of sortedness, layout, flag sets, DMX, design-matrix widths beyond ten columns and noise "
    "dictionaries, and all save/load sequences up to depth 3.",
    "The feather test reads one given file; pickling tests are skipped.",
    ["enterprise/pulsar.py"],
    [("feather", "enterprise/pulsar.py: FeatherPulsar.save_feather, read_feather"), ("pickle", "enterprise/pulsar.py: to_pickle")],
    "model_checking", "exhaustive exploration of save/load histories against the original pulsar",
    "Complete over the enumerated pulsars and sequences; single process.",
)
prop(
    "C16", "Shared pulsar arrays live until they are destroyed, in every interleaving",
    "After a pulsar is deflated, any number of processes can unpickle and inflate it, in any interleaving and surviving "
    "the exit of any other process including the creator, and each sees exactly the original arrays. Destroying it "
    "removes the shared memory from the system, and repeated deflate, inflate or destroy calls are harmless.",
    ["schedules", "histories"],
    "All interleavings of creator, two users and a destroyer (deflate, exit, inflate, read, exit, destroy) subject to "
    "data dependencies, and all single-process call sequences up to depth 4.",
    "Tests of this are skipped, and a single schedule cannot reveal premature removal by exiting processes.",
    ["enterprise/pulsar_inflate.py", "enterprise/pulsar.py"],
    [("shared memory", "enterprise/pulsar_inflate.py: PulsarInflater"), ("state machine", "enterprise/pulsar.py: deflate, inflate, destroy")],
    "model_checking", "exhaustive process-interleaving exploration with real processes under a step scheduler",
    "Real processes are stepped by the harness, one action at a time; all interleavings of the modelled actions.",
)
prop(
    "C17", "All timing-model marginalizations are the same model",
    "For the same pulsar, the explicit timing model with raw, column-normalized or custom-normalized columns and the "
    "marginalizing timing model differ in log likelihood only by a parameter-independent constant fixed by the column scaling, "
    "and the SVD form likewise, for every white-noise and GP model. Excluding columns equals deleting them from the "
    "design matrix, and no likelihood changes (apart from that constant) if the residuals are shifted by any combination of design-matrix columns.",
    ["configurations", "inputs"],
    "All timing-model forms x white-noise representations x GP contents x shifts along every column.",
    "Each form is tested alone or not at all.",
    [S + "gp_signals.py", S + "utils.py"],
    [("forms", S + "gp_signals.py: TimingModel, MarginalizingTimingModel, MarginalizingNmat"), ("bases", S + "utils.py: *_tm_basis")],
    "model_checking", "exhaustive cross product of timing-model forms and noise models, metamorphic + dense reference",
    "Complete over the enumerated forms; float64 tolerance 1e-6.",
)
prop(
    "C18", "The wideband timing model is the joint likelihood of TOAs and DM measurements",
    "The likelihood with the wideband timing model equals the joint Gaussian likelihood of residuals and wideband DM "
    "measurements (errors scaled by DMEFAC and DMEQUAD, offsets by DMJUMP) with DMX parameters constrained by both, for any "
    "assignment of TOAs to DMX bins and backends. Models are accepted exactly when each TOA lies in one and only one "
    "fitted DMX interval and DM itself is not fitted.",
    ["inputs", "configurations"],
    "All assignments of up to 5 TOAs to up to 3 DMX bins and 2 backends, all coverage defects (gap, overlap, both), "
    "parameter kinds and selections.",
    "The wideband test is skipped here and checks one pulsar with no oracle.",
    [S + "gp_signals.py"],
    [("wideband", S + "gp_signals.py: WidebandTimingModel")],
    "model_checking", "bounded-exhaustive enumeration of DMX/backend layouts against a joint dense Gaussian",
    "Complete up to the stated sizes.",
)
prop(
    "C19", "Explicit GP coefficients describe the same process as marginalized ones",
    "With explicit coefficients, the process adds basis times coefficients to the model delay, and the coefficient log prior is the "
    "Gaussian with the process's prior covariance, so likelihood times prior integrates over the coefficients to the "
    "marginalized likelihood. This holds for diagonal and dense priors, selections, varying basis parameters, and common processes.",
    ["configurations"],
    "All process types with an explicit-coefficient form x selections x parameter points; the Gaussian integral is "
    "evaluated exactly from finitely many probes.",
    "The coefficient tests need pulsars that cannot be loaded here and compare one model.",
    [S + "gp_signals.py", S + "parameter.py"],
    [("coefficients", S + "gp_signals.py: BasisGP, BasisCommonGP (coefficients=True)")],
    "model_checking", "exhaustive enumeration of processes with exact integration by finite probing",
    "Complete over the enumerated processes; quadratic forms are identified exactly from probes.",
)
prop(
    "C20", "Deterministic signals add exactly their waveform to the selected TOAs",
    "A deterministic signal adds its waveform, evaluated on the selected TOAs with that selection's parameters, and zero elsewhere; "
    "several of them add up. The physical-ephemeris signal equals the documented linear combination (frame rotation, planet-mass and orbit "
    "perturbations projected on the pulsar direction) for any subset of its parameters, with the epoch-averaged form equal to the waveform at "
    "epoch means, and its GP form is built from the same waveforms.",
    ["configurations", "inputs"],
    "All subsets of ephemeris parameters switched on/off, models, epoch averaging on/off, selections, and parameter "
    "points along every axis.",
    "Tests compare two configurations to stored expressions.",
    [S + "deterministic_signals.py", S + "utils.py", S + "gp_signals.py"],
    [("waveform assembly", S + "deterministic_signals.py"), ("ephemeris", S + "utils.py: physical_ephem_delay, ss_framerotate, euler_vec")],
    "model_checking", "exhaustive enumeration of parameter subsets and selections against a reference waveform",
    "Complete over subsets; waveforms compared at representative amplitudes.",
)
prop(
    "C21", "GP spectra follow their documented formulas bin by bin",
    "Each built-in spectrum returns, for every sine/cosine pair, the documented power spectral density at that pair's "
    "frequency times the width of its frequency bin (first bin starting at zero), for regular and irregular frequency "
    "lists and any number of components per frequency. Hence equal frequencies give equal variances and changing one free-spectrum, t-process or adaptive element changes only its own pair.",
    ["inputs"],
    "All built-in spectra x all frequency lists of up to 5 lattice frequencies x parameter grids.",
    "Tests recompute one formula at one frequency grid.",
    [S + "gp_priors.py"],
    [("spectra", S + "gp_priors.py")],
    "model_checking", "exhaustive enumeration of frequency lattices and parameter grids against closed forms",
    "Complete over the lattices.",
)
prop(
    "C22", "Fourier and interpolation bases match their definitions",
    "Each built-in basis returns sine/cosine columns (or the documented DM, chromatic, envelope, ephemeris, general and interpolation "
    "variants) at the documented frequencies for every choice of number of modes, time span, frequency limits, spacing, "
    "explicit modes and phase shift, row by row for each TOA independently of TOA order. Phase shifts are reproducible "
    "for a seed and shift each sine/cosine pair by a common phase.",
    ["inputs"],
    "All combinations of options over small alphabets for all basis functions, TOA orders, with random phases answered "
    "by the harness.",
    "Tests recompute a few combinations at one pulsar.",
    [S + "gp_bases.py", S + "utils.py"],
    [("bases", S + "gp_bases.py; " + S + "utils.py: linear_interp_basis")],
    "model_checking", "exhaustive enumeration of option combinations against closed forms",
    "Complete over the option alphabet.",
)
prop(
    "C23", "Overlap reduction functions are valid spatial correlations",
    "Hellings-Downs, dipole and monopole overlaps have their documented values, depend only on the angle between pulsars, are symmetric, "
    "finite for every pair of directions however close, and give positive-definite matrices for distinct pulsars. Anisotropic overlaps "
    "are linear in the map or multipole coefficients, symmetric, reduce to Hellings-Downs for an isotropic sky, and map "
    "and multipole descriptions of one sky agree and invert each other.",
    ["inputs"],
    "All pairs and triples of directions on a lattice with coincident, near-coincident, orthogonal and antipodal "
    "members, all single multipoles up to l=3, all single-pixel skies of a small map.",
    "Tests check one pair of pulsars.",
    [S + "utils.py", S + "anis_coefficients.py"],
    [("orfs", S + "utils.py: hd_orf, dipole_orf, monopole_orf, anis_orf"), ("anisotropy", S + "anis_coefficients.py")],
    "model_checking", "exhaustive enumeration of direction lattices and unit skies against closed forms",
    "Complete over the lattices; linearity reduces arbitrary skies to the enumerated unit skies.",
)
prop(
    "C24", "Models do not influence each other",
    "Building, evaluating or changing the constants of one model, or using one model class, selection or noise description for further pulsars, "
    "does not change the results of any other model or pulsar, in any interleaving of construction and evaluation. Pulsar objects are not modified by the models built on them.",
    ["histories"],
    "All interleavings of construction, evaluation and constant-setting of two to three models that share classes, "
    "parameters, selections or pulsars, up to the depth bound.",
    "Tests build one model at a time.",
    [S + "gp_signals.py", S + "parameter.py", S + "selections.py", S + "signal_base.py"],
    [("class factories and closures", S + "gp_signals.py, white_signals.py, selections.py")],
    "model_checking", "stateful exploration of interleaved model lifecycles, differential against isolated models",
    "Exhaustive over interleavings to the depth bound. One known finding (shared default time span) is listed.",
)
prop(
    "C25", "A failing user function or evaluation leaves the model usable",
    "If a user-supplied basis, prior, waveform or noise function raises at any of its calls, or an evaluation fails "
    "because of bad parameters, the exception reaches the caller and every later evaluation of the same model gives the same results as a model that "
    "never failed.",
    ["fault_sequences"],
    "Every call of every user function in an evaluation history failing in turn (one fault), pairs of faults, and "
    "missing or invalid parameters at every evaluation.",
    "No test injects failures.",
    [S + "signal_base.py", S + "gp_signals.py"],
    [("cache bookkeeping", S + "signal_base.py: cache_call"), ("basis construction", S + "gp_signals.py: _construct_basis")],
    "fault_enumeration", "exhaustive single- and double-fault injection at every user-function call",
    "Every fault point of the listed histories is executed.",
)
prop(
    "C26", "Gravitational-wave waveforms follow their defining equations",
    "The burst-with-memory delay and antenna patterns follow their documented closed forms for every source direction, "
    "polarization and epoch, vanish before the burst and grow linearly after it. The eccentric-binary harmonic amplitudes, "
    "orbital evolution rates, evolution solutions and waveforms satisfy their defining equations, and reduce to the "
    "circular case at zero eccentricity.",
    ["inputs"],
    "Lattices of directions, polarizations, epochs relative to the TOAs, eccentricities, masses and harmonics.",
    "Tests compare to a stored value at one point.",
    [S + "utils.py"],
    [("burst", S + "utils.py: bwm_delay, create_gw_antenna_pattern"), ("binaries", S + "utils.py: get_an, get_bn, get_cn, get_*dot, solve_coupled_*")],
    "model_checking", "exhaustive lattice enumeration against closed forms and defining equations",
    "Complete over the lattices.",
)
prop(
    "C27", "Loading reports the timing solution and never leaves another working directory",
    "Loading a pulsar from par and tim files, whatever path form is used and whichever step fails, leaves the working directory as it was, "
    "passes the right relative paths, ephemeris, clock and a TOA bound that covers all TOAs of the (nested) tim files to the timing "
    "package, and reports missing files or unavailable packages as errors. Feather files and ready-made timing-package objects are "
    "recognized in any argument position. "
    "A loaded pulsar reports the name, the position (given as equatorial coordinates, or converted from ecliptic ones), the tabulated "
    "distance (found with or without the J or B of the name; else 1 +- 0.2 kpc), the DM, the DMX intervals with their values, errors and "
    "whether each is fitted, and the fitted and set parameters of the timing solution, the same with both timing packages.",
    ["fault_sequences", "configurations"],
    "All path forms x timing package x drop options x failure of each step of loading x include structures up to "
    "depth 2; x names x coordinates x positions x DMX fitted/set/absent.",
    "Timing packages are absent, so no test loads from par/tim files.",
    ["enterprise/pulsar.py"],
    [("loading", "enterprise/pulsar.py: Pulsar, get_maxobs")],
    "fault_enumeration", "exhaustive fault injection at every step of loading with stub timing packages",
    "Stub timing packages record their arguments; every step fails in turn.",
)
prop(
    "C28", "Omitted arguments take their documented defaults; position and name agree",
    "Leaving any set of optional arguments out of a signal factory, prior factory, basis, spectrum, delay, overlap or selection function "
    "gives the same model (parameter names, priors, bases, prior covariances, white noise, delays, likelihood, draws) as writing out the "
    "default values of the public signatures: e.g. 20 components, all TOAs selected, normalized timing model, ECORR bins of 1 s with "
    "at least 2 TOAs, EFAC in Uniform(0.5, 1.5), planet-mass priors of the IAU uncertainties. Arguments mean the same by position and by name.",
    ["configurations"],
    "All sets of omitted arguments of every public function and factory x contexts in which they matter; all positional prefixes.",
    "Tests call each function with one fixed set of arguments, and never compare an omitted argument with a given one.",
    ["enterprise/signals/gp_signals.py", "enterprise/signals/gp_bases.py", "enterprise/signals/gp_priors.py",
     "enterprise/signals/white_signals.py", "enterprise/signals/deterministic_signals.py", "enterprise/signals/utils.py",
     "enterprise/signals/parameter.py", "enterprise/signals/selections.py"],
    [("signatures", "enterprise/signals: public functions and factories"), ("Function", "enterprise/signals/parameter.py: function, Function")],
    "model_checking", "exhaustive enumeration of omitted-argument sets against the written-out call",
    "The documented defaults are written out in the check; every subset of arguments is given or omitted.",
)

NA = []  # (property, reason)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": a,
            }) + "\n")
    checks, na = [], [{"property": i, "reason": r} for i, r in NA]
    for p in P:
        if p["id"] in [i for i, _ in NA]:
            continue
        if not os.path.exists(os.path.join(HERE, "mc", "props", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": "check not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "/opt/venv/bin/python run.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python run.py %s" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        })
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
