"""Property table: the single source of properties.jsonl and MANIFEST.json."""
NOTES = ("Every check runs the Python sources of /repo/src in-process (nothing to rebuild) under a workload and a set "
         "of independent oracles; see DESIGN.md.  check.sh exits 0 (held), 1 (VIOLATION) or 2 (inconclusive).")
NOT_APPLICABLE = []
S = "src/bijx/"
B = S + "bijections/"
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, technique=technique, note=note))


COMMON = "Held on the executions produced, float64, seeded random + hostile inputs; trusts jax autodiff/numpy as executed. "

P("C01", "Elementwise bijections invert exactly on their whole domain",
  "For every elementwise bijection, every admissible parameter value and every point of its domain, applying the map and "
  "then its inverse (in either order) returns the starting point up to floating-point conditioning. "
  "The log-density carried along returns to its starting value as well.",
  ["inputs", "configurations"], "all parameter vectors the constructors accept, all points of the domain incl. zero, tails, both sides of branch points",
  "Tests sample a few default-parameter instances with points of order one; branch switches, extreme and negative parameters are not reached.",
  [B + "scalar.py", B + "analytic.py", B + "base.py"],
  [("closed-form forward and reverse maps", B + "scalar.py"), ("Cardano-type cubic root and sinh conjugation", B + "analytic.py")],
  "runtime monitoring: round-trip monitor over randomised parameters with conditioning-aware oracle",
  COMMON + "Tolerance is the first-order conditioning bound of the inverse.")
P("C02", "Elementwise log-density change is the log-derivative actually applied",
  "For every elementwise bijection, parameter value and point, the log-density after the forward map equals the incoming one "
  "minus the logarithm of the absolute derivative of the map that was applied, and the inverse map restores it by the opposite amount at the same point.",
  ["inputs", "configurations"], "all parameter vectors (incl. negative scales) and all points of the domain",
  "Tests compare at default or few parameters; a sign, factor or missing absolute value shows only for other parameter values.",
  [B + "scalar.py", B + "analytic.py", B + "base.py"],
  [("per-family log_jac", B + "scalar.py"), ("forward/reverse bookkeeping", B + "base.py")],
  "runtime monitoring: autodiff-of-executed-map and longdouble reference oracles on every call",
  COMMON + "Two independent oracles: forward-mode derivative of the executed map, and closed forms in extended precision.")
P("C03", "Elementwise bijections compute their documented functions",
  "Each elementwise bijection maps to the value its documentation states, in both directions, for every admissible parameter value. "
  "Default-constructed instances realise the documented initial map, and constrained parameters stay in their documented intervals for any raw value.",
  ["inputs", "configurations"], "all parameters, all domain points; all raw values of constrained parameters",
  "Tests check mostly self-consistency (inverse, log-det), which a wrong but consistent map passes.",
  [B + "scalar.py", B + "analytic.py"], [("documented formulas", B + "scalar.py"), ("parameter transforms", B + "analytic.py")],
  "runtime monitoring: value oracle against extended-precision closed forms", COMMON)
P("C04", "Event, batch and parameter axes combine by one documented rule",
  "An elementwise bijection's log-density change sums the per-entry changes over exactly the event axes (those the log-density does not have), "
  "each batch item is transformed as if alone, and parameters broadcast against the event shape. "
  "Extra keyword arguments given to the public maps reach the overridable per-family methods and never change shapes or results of families that do not use them.",
  ["inputs", "configurations"], "all batch shapes, event shapes (incl. scalars and size-one axes) and parameter shapes that broadcast",
  "Tests use one or two shape combinations per class.",
  [B + "base.py", B + "scalar.py", B + "analytic.py", S + "utils.py"],
  [("sum over event axes in ApplyBijection/ScalarBijection", B + "base.py"), ("ParamSpec and reductions", S + "utils.py")],
  "runtime monitoring: shape-and-value oracle with per-item re-execution", COMMON)
P("C05", "Rational-quadratic spline is the monotone spline its knots define",
  "For every knot parameterisation the spline bijection is strictly increasing on the unit interval, interpolates its knots with the given slopes, equals the published rational-quadratic formula in between, "
  "is the identity outside, inverts exactly and reports the matching log-derivative. "
  "The minimum bin width, height and slope settings bound the realised bins and slopes.",
  ["inputs", "configurations"], "all knot parameter vectors (incl. extreme logits), bin counts, minimum settings and inputs on, between and outside knots",
  "Tests use default-initialised (near-identity) splines, where most errors are invisible.",
  [B + "splines.py"], [("knot normalisation and RQ evaluation", B + "splines.py")],
  "runtime monitoring: extended-precision spline oracle, monotonicity and boundary monitors", COMMON)
P("C06", "Radial bijections move points along rays from the centre only",
  "A radial bijection keeps the direction of every point as seen from its centre, changes its distance by the radial map it was given (per-direction scales included), inverts exactly and carries the exact n-dimensional volume change. "
  "The centre is a fixed point with a finite density change, and the conditional variant uses exactly the radial parameters supplied in the call.",
  ["inputs", "configurations"], "all dimensions, centres, scales, increasing radial maps; points arbitrarily near and exactly at the centre",
  "Tests use one or two dimensions and points away from the centre; the volume term depends on dimension, scale and radius together.",
  [B + "radial.py"], [("ray transform and Jacobian bookkeeping", B + "radial.py")],
  "runtime monitoring: closed-form and dense-Jacobian oracles on executed maps", COMMON)
P("C07", "Coupling layers change only the active part, driven only by the passive part",
  "A masked coupling layer returns the passive entries bit for bit, transforms the active entries by the inner bijection with parameters computed from the passive entries alone, inverts exactly, and reports the density change of exactly the active entries. "
  "This holds for split and multiplicative masking, any mask, batch shape and inner bijection.",
  ["inputs", "configurations"], "all masks (incl. very uneven), event shapes, batch shapes, conditioners and inner bijections",
  "Tests use one checkerboard and mostly scalar inner bijections.",
  [B + "coupling.py"], [("GeneralCouplingLayer", B + "coupling.py"), ("split / multiplicative masking", B + "coupling.py")],
  "runtime monitoring: dependency monitors (exact passive equality, perturbation), reference evaluation, dense Jacobian", COMMON)
P("C08", "Masks partition the event and split/merge are exact inverses",
  "A binary mask's primary and secondary parts partition the event's entries. "
  "Splitting and merging are inverse to each other for any batch and channel axes, flipping swaps the parts, and every view of the mask (boolean, indices, counts, multiplication) describes the same subset.",
  ["inputs", "configurations"], "all masks and event shapes, dtypes, batch/channel axes",
  "Tests use small fixed masks.",
  [B + "coupling.py"], [("BinaryMask", B + "coupling.py"), ("checker_mask", B + "coupling.py")],
  "runtime monitoring: model-based monitor against a numpy boolean mask, exact equality", "Held on the executions produced; exact comparison.")
P("C09", "Parameter representations of a module template are interchangeable",
  "A module reconstructor rebuilds the same module from a flat parameter array, a list, a dictionary or a state, batched or not. "
  "Parameter counts, shapes and order agree between representations, constants are kept, and batched parameters act like a loop over the batch (arguments without a declared rank are shared by all items).",
  ["inputs", "configurations"], "all module trees, parameter ranks, parameter batch shapes and method signatures",
  "Tests use a couple of small templates.",
  [B + "coupling.py"], [("ModuleReconstructor", B + "coupling.py")],
  "runtime monitoring: differential oracle against a hand-rebuilt module and a Python loop", COMMON)
P("C10", "Composition wrappers obey the laws of function composition",
  "Chains apply their members in order and reverse them in opposite order, scan chains equal the unrolled chain, inverses swap directions, conditional inverses do so by flag, and freezing changes no value. "
  "Densities add up along the way and extra arguments reach every member, in both directions and through every wrapper.",
  ["inputs", "histories", "configurations"], "all nestings and orders of wrappers and members, all keyword arguments",
  "Tests compose two or three commuting or identical maps.",
  [B + "base.py", B + "meta.py"], [("Chain, ScanChain, Inverse, CondInverse, Frozen", B + "base.py")],
  "runtime monitoring: call-log probes and hand-composed reference", COMMON)
P("C11", "Shape-only and argument-only wrappers never touch values or densities",
  "Reshaping, expanding, squeezing and user-built meta layers permute or relabel entries losslessly in both directions and leave the log-density untouched. "
  "Partial application passes exactly the fixed and the call-time arguments.",
  ["inputs", "configurations"], "all event and batch shapes, incl. scalar events and empty batches",
  "Tests use one shape per layer.",
  [B + "meta.py"], [("Reshape, ExpandDims, SqueezeDims, MetaLayer, Partial", B + "meta.py")],
  "runtime monitoring: numpy reference with exact equality", "Held on the executions produced; exact comparison.")
P("C12", "Fourier-space scalings are the stated linear maps with exact densities",
  "Spectrum scaling multiplies each momentum mode by the stated factor, free-theory scaling turns unit noise into the free field of the given mass (or back), on any lattice, with batch and channel axes. "
  "Both invert exactly and change the log-density by minus the log-determinant of that linear map.",
  ["inputs", "configurations"], "all lattice shapes (odd, even, size one), spectra of either sign, masses, batch and channel axes",
  "Tests use square even lattices and check self-consistency only.",
  [B + "fourier.py", S + "fourier.py"], [("SpectrumScaling, FreeTheoryScaling", B + "fourier.py"), ("fft_momenta", S + "fourier.py")],
  "runtime monitoring: dense DFT-matrix oracle", COMMON)
P("C13", "Fourier representations carry exactly the field, without loss or redundancy",
  "Real-field Fourier data converts between real space, half spectrum, full spectrum and independent degrees of freedom without loss, in any order and for any lattice, batch and channel axes. "
  "The independent components are as many as the lattice sites, momenta and momentum magnitudes are those of the first Brillouin zone, and the bijection built on it is volume preserving up to a constant.",
  ["inputs", "histories", "configurations"], "all lattice shapes in any dimension, all conversion paths",
  "Tests use a few lattices and single conversions.",
  [S + "fourier.py", B + "fourier.py"], [("FourierMeta masks and FourierData.to", S + "fourier.py"), ("ToFourierData", B + "fourier.py")],
  "runtime monitoring: independent full-FFT oracle over every conversion path", COMMON +
  "The packed representation's constant volume offset is a recorded known finding.")
P("C14", "Continuous flows solve the stated ODE and transport densities with it",
  "A continuous flow maps each batch item to the solution of its vector field's ODE at the end time, and its log-density to the integrated negative divergence. "
  "The reverse map undoes it, also when start time, end time, step or solver arguments are overridden in the call, and for matrix groups the flow stays on the group.",
  ["inputs", "configurations"], "all vector fields, time windows of either direction, solver settings, event and batch shapes, call-time overrides",
  "Tests integrate one field over [0, 1] forwards and compare loosely.",
  [B + "continuous.py", S + "cg.py", S + "solvers.py"], [("ContFlowDiffrax, ContFlowRK4, ContFlowCG", B + "continuous.py")],
  "runtime monitoring: DOP853 augmented-ODE oracle, by-hand RK4 grid, round-trip monitor", COMMON +
  "Fixed-step solvers are compared within their discretisation error.")
P("C15", "Solver front ends solve the configured problem and differentiate it",
  "The Runge-Kutta integrator advances any pytree state over exactly the requested window in the requested step size and direction, and its gradients with respect to state and arguments are those of the solution. "
  "A diffrax configuration passes its settings, with call-time overrides, to the solver, and stochastic solutions follow the stated drift and noise law.",
  ["inputs", "configurations"], "all windows (incl. reversed and not divisible by the step), pytree states, arguments, configurations and overrides",
  "Tests integrate forwards with a divisible step and compare final values at loose tolerance.",
  [S + "solvers.py"], [("odeint_rk4 and its adjoint", S + "solvers.py"), ("DiffraxConfig", S + "solvers.py")],
  "runtime monitoring: by-hand RK4 / DOP853 / independent-gradient oracles, moment monitors with 6.5 sigma bounds", COMMON)
P("C16", "Crouch-Grossmann integration stays on the group and is differentiable",
  "Crouch-Grossmann steps evaluate the stages of their tableau with true matrix exponentials, converge at the stated order and keep the state on its matrix group. "
  "Requested projections are applied, and the adjoint derivatives with respect to state and parameters are those of the solution.",
  ["inputs", "configurations"], "all matrix groups, algebra-valued fields, tableaux, windows of either direction, projections, product states",
  "Tests integrate constant or small fields on one group.",
  [S + "cg.py", S + "lie.py"], [("tableaux, stages, adjoints", S + "cg.py"), ("UnitaryDeriv projections", S + "cg.py")],
  "runtime monitoring: by-hand stage evaluation with scipy expm, order measurement, gradient oracles", COMMON)
P("C17", "Vector fields report the exact negative divergence of their velocity",
  "Every vector field returns, next to its velocity, minus the exact divergence of that velocity at the same point and time, per batch item. "
  "This holds for automatic Jacobians and for lattice convolutions with any kernel, channel count, embedding and feature map, and lattice fields commute with the lattice symmetry.",
  ["inputs", "configurations"], "all builder options, weights, kernel shapes, dimensions, channel counts, times and batch shapes",
  "Tests check one configuration with few channels.",
  [S + "nn/conv.py", S + "nn/features.py", B + "continuous.py"], [("ConvVF divergence", B + "continuous.py"), ("feature maps with local Jacobians", S + "nn/features.py")],
  "runtime monitoring: dense-Jacobian trace oracle and symmetry probes", COMMON)
P("C18", "Symmetric convolutions share weights along orbits and stay equivariant",
  "Symmetric kernels assign one parameter to each orbit of kernel positions under the given symmetry and distinct ones to distinct orbits. "
  "The layer equals the periodic convolution sum with those weights, commutes with translations and the symmetry, and folding, unfolding and resizing kernels preserve the weights.",
  ["inputs", "configurations"], "all lattice and kernel shapes, dimensions, symmetry generators, channel counts, weights",
  "Tests check orbits for a couple of kernel shapes.",
  [S + "nn/conv.py"], [("orbit computation, ConvSym, fold/unfold/resize", S + "nn/conv.py")],
  "runtime monitoring: brute-force periodic sum, union-find orbit oracle, group-action probes", COMMON)
P("C19", "Embeddings and ready-made networks compute their documented functions",
  "Each scalar embedding returns the documented features for any value range, width and option, with as many features as it declares. "
  "The ready-made networks compute the documented composition of their own weights.",
  ["inputs", "configurations"], "all feature counts (odd, even), value ranges, options, batch shapes, widths, depths and activations",
  "Tests check output shapes.",
  [S + "nn/embeddings.py", S + "nn/nets.py"], [("Kernel* embeddings", S + "nn/embeddings.py"), ("MLP, ResNet", S + "nn/nets.py")],
  "runtime monitoring: numpy re-evaluation oracle from the module's own weights", COMMON)
DI = S + "distributions.py"
P("C20", "Distribution densities are the documented, normalised closed forms",
  "For every parameter value and point, the log-density of each elementary distribution is its documented closed form, one value per batch entry, and density is its exponential. "
  "It integrates to one, batch and event shapes are reported correctly, and every constructor realises the mean and covariance it was given.",
  ["inputs", "configurations"], "all event and batch shapes, means, scales and Cholesky factors of either sign, all constructors",
  "Tests compare a few low-dimensional default cases.",
  [DI], [("IndependentNormal/Uniform, MultivariateNormal, DiagonalNormal", DI)],
  "runtime monitoring: eigendecomposition closed forms, quadrature, shape oracle", COMMON)
P("C21", "Samples follow the stated density and depend only on the random key",
  "Samples of each elementary distribution follow the law its density states, independently across batch entries, and come with exactly that density. "
  "They are a pure function of the key; without a key the internal random state is used and advanced, and without either sampling fails.",
  ["inputs", "histories", "configurations"], "all distributions, parameters, batch shapes, keys and internal random states",
  "Tests check shapes and loose means; a law that disagrees with the density needs distributional comparison.",
  [DI], [("sample and _get_rng", DI)],
  "runtime monitoring: Kolmogorov-Smirnov and moment monitors at 1e-10 level, exact density agreement", COMMON)
P("C22", "Mixtures are the weighted sum of their components",
  "The density of a mixture is the sum of its components' densities weighted by the normalised exponentials of its logits, and sampling picks components with those weights and then draws from them. "
  "Means, covariances, weights and batch shapes it reports are those of its components.",
  ["inputs", "configurations"], "all component counts, kinds and dimensions, logits over any range, batch shapes",
  "Tests use two components with equal weights.",
  [DI], [("MixtureStack, GaussianMixture", DI)],
  "runtime monitoring: scipy log-sum-exp oracle, KS and frequency monitors", COMMON)
SA = S + "samplers.py"
P("C23", "A transformed distribution is the exact pushforward of its prior",
  "Sampling a transformed distribution maps prior draws through the bijection, and its density at any point is the prior density at the preimage corrected by the Jacobian, whether returned with the sample or evaluated afterwards. "
  "Call-time arguments reach the bijection in both cases, and nesting equals composing the bijections.",
  ["inputs", "configurations"], "all priors, bijections, parameters, points, batch shapes and call-time arguments",
  "Tests check one or two bijections by self-consistency.",
  [SA, DI], [("Transformed.sample and log_density", SA)],
  "runtime monitoring: dense-Jacobian density oracle, KS, argument-logging probes", COMMON)
P("C24", "The buffered sampler hands out each cached draw exactly once",
  "Single draws of the buffered sampler hand out each cached sample exactly once, with its own density, before the buffer is refilled from the wrapped distribution. "
  "Batched draws and densities are forwarded to it unchanged, in any interleaving and also in compiled loops.",
  ["histories", "inputs"], "all histories of single, batched and keyed draws, buffer sizes, array and pytree samples, jit and scan",
  "Tests draw a few samples and check shapes.",
  [SA], [("BufferedSampler.sample", SA)],
  "runtime monitoring: history monitor against a model that replays the refill sequence", COMMON)
P("C25", "Independent Metropolis-Hastings accepts exactly and preserves its target",
  "Each step proposes an independent draw and accepts it with exactly the stated Metropolis-Hastings probability, the new state being the proposal or the old state in all its fields. "
  "Chains started from the target stay distributed as the target.",
  ["inputs", "histories"], "all targets (unnormalised, truncated), proposals, states and keys",
  "Tests run short chains and check acceptance rates loosely.",
  [S + "mcmc.py"], [("IMH.step", S + "mcmc.py")],
  "runtime monitoring: decision calibration, state consistency, stationarity by KS over many chains", COMMON)
L = S + "lie.py"
P("C26", "The matrix toolbox computes products, traces and algebra projections it names",
  "Chained contractions, scalar products and adjoints of batched complex matrices equal the matrix algebra they name, and the group generators are the documented ones (i times the Pauli and Gell-Mann matrices): traceless, anti-Hermitian and orthonormal. "
  "Projections of cotangents onto the Lie algebra represent the same linear functional on the algebra as the cotangent itself.",
  ["inputs", "configurations"], "all matrix sizes (also rectangular and 1x1), numbers of factors, batch shapes, unitary and general matrices",
  "Tests contract two fixed matrices.",
  [L], [("contract, scalar_prod, adjoint, generators", L), ("skew_traceless_cot", L)],
  "runtime monitoring: numpy oracles and defining-equation monitors on random matrices", COMMON)
P("C27", "Derivatives on matrix groups are derivatives along group curves",
  "Gradients, curve and path derivatives and Laplacians of functions of matrix group elements equal the derivatives along left-translated exponential curves in the stated algebra directions. "
  "This holds for every argument position, argument tree and auxiliary output, and under composition with other transformations.",
  ["inputs", "configurations"], "all functions of one or more group elements, N, argument positions and trees, directions",
  "Tests compare single cases for SU(2).",
  [L], [("grad, curve_grad", L), ("path_grad, path_grad2, path_div, value_grad_divergence", L)],
  "runtime monitoring: high-order differencing along scipy matrix exponentials as oracle", COMMON)
P("C28", "Haar sampling and the eigenangle tools describe the invariant measure",
  "Sampled group elements are special unitary matrices of the requested shape, independent across the batch, a pure function of the key, and distributed by the measure invariant under translations. "
  "Eigenangle densities, grids, quadrature weights and matrices built from eigenangles agree with that measure, so class functions integrate to their exact values.",
  ["inputs", "configurations"], "all N, batch and base shapes, keys, eigenangles, grid sizes, class functions and normalisation domains",
  "Tests check unitarity of a few samples; a wrong law or weight needs distributional comparison.",
  [L], [("sample_haar, HaarDistribution", L), ("compute_haar_density, construct_su_matrix_from_eigenvalues, evaluate_density_on_eigenvalue_grid", L)],
  "runtime monitoring: exact entry and class laws by KS, character moments, exact quadrature", COMMON)
LG = S + "lattice/gauge.py"; LS = S + "lattice/scalar.py"; LL = S + "lattice/general.py"
P("C29", "Gauge actions equal the plaquette sum and are gauge and lattice invariant",
  "The Wilson action is the stated sum over all plaquettes of a periodic lattice and is unchanged by local gauge transformations, translations, swaps, reflections and rotations. "
  "Each of those maps moves links as documented and obeys its group relations.",
  ["inputs", "configurations"], "all dimensions, uneven lattice lengths, N, batches, couplings, axes, shifts and gauge functions",
  "Tests use cubic lattices and a few axes.",
  [LG, LL], [("wilson_log_prob, apply_gauge_sym, swap_axes, flip_axis, rotate_lat", LG), ("roll_lattice", LL)],
  "runtime monitoring: explicit site-loop oracles, invariance and group-relation monitors", COMMON)
P("C30", "Scalar lattice action densities are the documented local sums",
  "Kinetic, polynomial and phi-four action densities equal their documented formulas site by site on periodic lattices of any shape. "
  "They commute with translations and axis permutations, and the free action agrees with the lattice momentum spectrum.",
  ["inputs", "configurations"], "all lattice shapes and dimensions, fields, couplings (including none, zero and negative), polynomial degrees",
  "Tests check constant fields only.",
  [LS], [("kinetic_term, poly_term, phi4_term, phi4_term_alt", LS)],
  "runtime monitoring: explicit site-loop oracles, covariance and momentum-space monitors", COMMON)
P("C31", "Lattice correlators are the cyclic averages they name",
  "Correlators of lattice fields equal the documented periodic averages over positions by every route, average over samples as requested, and obey their sum rules and translation covariance. "
  "The correlation length of a pure periodic exponential decay is recovered exactly.",
  ["inputs", "configurations"], "all lattice shapes and dimensions, pairs of fields, ensembles, decay lengths",
  "Tests check shapes and finiteness.",
  [LS], [("cyclic_corr, cyclic_tensor, cyclic_corr_mat, two_point, two_point_central", LS), ("correlation_length", LS)],
  "runtime monitoring: explicit double-loop oracles, convolution theorem and sum-rule monitors", COMMON)
U = S + "utils.py"
P("C32", "Reweighting estimators equal their defining formulas at every scale",
  "Effective sample size per sample and the reverse Kullback-Leibler estimate equal their defining formulas for log-densities of any magnitude, including vanishing weights, and do not depend on normalisation or order. "
  "Moving averages are the mean over each full window, or over everything when the series is shorter.",
  ["inputs"], "all sample counts, log-density scales and shifts, zero weights, batched columns, window lengths",
  "Tests use a handful of moderate values; overflow and range need extreme weights.",
  [U], [("effective_sample_size, reverse_dkl, moving_average", U)],
  "runtime monitoring: extended-precision oracle, invariance monitors, Gaussian closed forms", COMMON)
P("C33", "Shape descriptors infer the one consistent split of event axes",
  "From any sufficient specification, space, channel and event shapes and dimensions are inferred consistently, and what is not determined stays unknown. "
  "Splitting, flattening and canonicalising arrays preserves every element and batch axis, mismatches are rejected, and descriptors compare, hash and pass through transformations.",
  ["inputs", "configurations"], "all combinations of specifications, axis counts and lengths, batch shapes including empty",
  "Tests check three specifications.",
  [U], [("ShapeInfo", U)],
  "runtime monitoring: fixpoint inference oracle over all specification subsets", COMMON)
P("C34", "Parameter specifications, freezing and noise act on exactly what they name",
  "A parameter given as a shape, array or variable becomes the variable it describes, with the requested shape and exact values. "
  "Constants and everything under a frozen wrapper stay bit-for-bit unchanged by training and by noise, while all other parameters are trained. "
  "Noise has the requested law, is independent between parameters, and touches only the parameters the filter selects.",
  ["inputs", "configurations"], "all parameter specifications, module trees, filters, noise scales and functions",
  "Tests check a few wraps; that exactly the named leaves change in any module tree needs a walk over all leaves.",
  [U, B + "base.py"], [("default_wrap, is_shape, Const, FrozenFilter, noise_model", U), ("Frozen", B + "base.py")],
  "runtime monitoring: explicit walk over module variables before and after, distribution monitor for noise", COMMON)
P("C35", "The flowjax bridge is a faithful translation in both directions",
  "A flowjax bijection or distribution wrapped for bijx (and the reverse) computes the same map, density change and density as the original, event by event, for every batch shape of data and condition. "
  "Sampled densities match the samples, gradients of parameters and inputs pass through, and converting back and forth changes nothing.",
  ["inputs", "configurations"], "all wrapped objects, event ranks, conditions, batch shapes, compilation and vectorisation",
  "Tests wrap a few unconditional examples with one batch shape.",
  [S + "flowjax.py"], [("FlowjaxToBijxBijection, BijxToFlowjaxBijection, FlowjaxToBijxDistribution, BijxToFlowjaxDistribution, to_bijx, from_bijx", S + "flowjax.py")],
  "runtime monitoring: differential oracle against the wrapped object's own per-event execution, dense Jacobian oracle", COMMON)
P("C36", "Every flow behaves alike eagerly, compiled, vectorised, cloned or restored",
  "Bijections and distributions are pure functions of their state and arguments: eager calls, single events, batches of any arrangement, vmap, jit, split and merge, clones and a checkpoint restored from plain arrays all give the same values and densities. "
  "Evaluating them changes none of their state, and a seed determines what is drawn.",
  ["inputs", "schedules", "configurations"], "all public bijections and distributions, execution modes and batch arrangements",
  "Tests run most objects in one mode only.",
  [B + "base.py", S + "bijections/continuous.py", S + "distributions.py", S + "bijections/coupling.py"],
  [("all public bijections and distributions", S)],
  "runtime monitoring: differential oracle between execution modes, state monitors", COMMON)
P("C37", "Gradients of values and densities are the derivatives of what is computed",
  "Reverse-mode differentiation of every map, density and reparameterised sample, with respect to inputs, trainable parameters and call-time arguments, gives the derivative of the computed quantity, finite and with no missing path; "
  "continuous flows with their adjoint solvers agree up to their discretisation error.",
  ["inputs", "configurations"], "all public bijections and distributions, parameters, inputs, directions",
  "Tests check gradients of single objects at single points; a dropped path leaves all values right.",
  [S + "bijections/radial.py", S + "bijections/coupling.py", S + "bijections/splines.py", S + "solvers.py", S + "cg.py", S + "distributions.py"],
  [("all public bijections and distributions; custom adjoints", S)],
  "runtime monitoring: high-order finite-difference oracle over executions", COMMON)
P("C38", "Single precision runs everywhere and agrees with double precision",
  "With jax's default 32-bit mode every map, density and sample stays in single precision and equals the double-precision result of the same state and input up to rounding, amplified no more than the conditioning of the function requires.",
  ["inputs", "configurations"], "all public bijections and distributions in 32-bit mode; wide argument ranges for elementwise maps",
  "Tests run in double precision only; cancellation shows up only in single precision or extreme arguments.",
  [S + "bijections/scalar.py", S + "bijections/analytic.py", S + "bijections/splines.py", S + "distributions.py", S + "fourier.py"],
  [("all public bijections and distributions", S)],
  "runtime monitoring: differential oracle between precisions with measured conditioning bounds, dtype monitor", COMMON)
P("C39", "Contradictory requests are refused, consistent ones served",
  "Requests that violate a requirement the library states are refused with an error, eagerly and while tracing: Gaussian covariances and means that do not fit, sampling without a source of randomness, events unlike the declared shape in reshapes and shape descriptors, parameter vectors of the wrong size, unsuitable masks and event ranks, correlators of unlike fields, non-square symmetric kernels, implicit or inconsistent tableaux, exhausted step limits, foreign objects or conditions unlike the declared shape in the flowjax bridge. "
  "Their consistent siblings are served with a result of the documented shape.",
  ["inputs", "configurations"], "all consistent requests and their single-fault variants, shapes, ranks, options, eager and traced",
  "Tests check a handful of errors; a check that silently broadcasts or looks at one axis only is invisible to them.",
  [S + "distributions.py", S + "bijections/coupling.py", S + "bijections/meta.py", S + "lie.py", S + "cg.py", S + "lattice/scalar.py", S + "nn/conv.py", S + "flowjax.py", U],
  [("argument validation of distributions, masks, coupling layers, reconstructors, ShapeInfo, lie, cg, lattice, conv, flowjax bridge", S)],
  "runtime monitoring: served/refused monitor over consistent requests and their single-fault siblings", COMMON)
P("C40", "Results depend on the arguments alone, not on history, threads or instances",
  "Every public function, map, density and sampler returns the same value for the same arguments and parameters, whatever was called before, in whatever order, in which process, from how many threads at once, "
  "and whatever the caller did with earlier results. Arguments handed over by the caller come back unchanged.",
  ["schedules", "inputs"], "all public functions and objects, orders of calls and instances, processes, thread interleavings, reuse of returned buffers",
  "Tests run in one fixed order in one process; stale caches, shared buffers and modified arguments depend on the history.",
  [B + "continuous.py", S + "nn/conv.py", S + "fourier.py", S + "lie.py", S + "solvers.py", S + "cg.py", U],
  [("all public functions, bijections and distributions", S)],
  "runtime monitoring: offline comparison of recorded values between call histories in separate processes and concurrent threads", COMMON)
