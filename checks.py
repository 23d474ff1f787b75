"""The registry of checks: sources, bounds, budgets and what each one decides."""

MC = "stateless model checking of the real code: exhaustive enumeration of every choice sequence of a bounded nondeterministic driver against a reference model"

CHECKS = {}


def check(pid, srcs, rule, level_note, technique=MC, **kw):
    CHECKS[pid] = dict(srcs=srcs, rule=rule, level_note=level_note, technique=technique, **kw)


check("C01", ["c01_map_utils.cc"],
      "Every pair of maps over a universe of 5 keys (7 thorough) x comparators (ascending, descending, run-time stateful in both states, heterogeneous transparent), every helper, every key sequence up to length 3. A state is one pair of maps; a transition is one choice or helper call. Also a comparator for which different keys are equivalent (which of two equivalent keys a join keeps is left open).",
      "Exhaustive over the stated key universe; helpers look at keys only through the comparator, so more keys repeat the same iterator positions. Trusts the comparison with plain loops in the harness.")

check("C02", ["c02_graph.cc"],
      "Every simple graph on 3, 4 and 5 vertices over small weight sets (ties, zero, negative), every order of 6 distinct weights on K4, every multigraph with up to 3 (4 thorough) edges on 3 vertices with self loops and parallel edges; edge numbers unique, all equal or repeated, edges given from either end; optimum by brute force over all edge subsets. A state is one graph.",
      "Exhaustive over the stated graphs; the oracle enumerates all edge subsets. Tree functions are only required to be trees of the whole graph where it is connected, as documented.")

check("C03", ["c03_compress.cc"],
      "Every string up to length 4 (6 thorough) over 3 bytes and structured strings around the block and size-field boundaries x 9 levels; for 8 payloads every truncation, every byte substitution (all 255 values in header and tail), insertion, deletion, pairs of header damages, arbitrary short headers, concatenated frames; 4 output sizes each, with guard bytes. A state is one (damaged) stream.",
      "Exhaustive over the stated inputs and single damages. Trusts libzstd for whether a damaged frame decodes at all; the wrapper's verdict and bounds are what is decided.",
      technique="exhaustive fault enumeration (every truncation, substitution, insertion, deletion of a stream) and bounded input enumeration on the real code")

check("C04", ["c04_chebyshev.cc"],
      "Every degree 0..40 (150 thorough) of both kinds x a grid of 84 (404) arguments of [-1, 1] with end points; every vector up to length 3 (4) over 5 arguments x degrees 0..12 (20) with the whole basis matrix; composition and T/U identities. A state is one (kind, degree, arguments).",
      "Exhaustive over the grid, not over the reals; the functions are polynomials, so agreement on more points than the degree decides them (up to round-off).")

check("C05", ["c05_stats.cc"],
      "37 shapes from 0.001 to 5000 around both sides of each algorithm switch x 400 (4000 thorough) arguments over 7 decades; 20 degrees of freedom x 300 (2000) arguments x variances; every small lower triangular factor x every small deviation for the covariance form; every sample sequence up to length 4 (6) over 6 values for the KS statistic. Oracle: long double series / Lentz fraction.",
      "Exhaustive over the grid, not over the reals: a fault confined between grid points could hide. Saturation to 1 within 1e-6 is accepted (the implementation's documented rounding).")

check("C06", ["c06_variants.cc"],
      "Every vector of up to 5 (7 thorough) elements over 4 alternatives, as vector and as dataset, extracted for each alternative; every (previous content, assigned value) pair incl. sub-variants with another order of alternatives; every boolean vector up to length 8 (12); linspace for 36 end-point pairs x 60 (300) counts; conversions at and beyond their limits. A state is one input.",
      "Exhaustive over the stated inputs. Refusal means the process stops (assertions enabled).")

check("C07", ["c07_indexing.cc"],
      "Every index sequence (repeats, any order) up to length 4 (5 thorough) into containers of 0..4 (5) elements of every kind, for 3 index types; every distinct sequence written back; every subset complemented (n up to 6, 8); every vector of length up to 5 (6) over 3 values filtered by every predicate and reduced to its unique values; all pairs of part sizes 0..3 (4) x 11 combinations of plain and variant element types; out-of-range indices refused. A state is one input.",
      "Exhaustive over the stated sizes; every element carries its own identity so any misplacement shows. Refusal means the process stops (assertions enabled).")

check("C08", ["c08_grouping.cc"],
      "Every assignment of up to 3 keys to 0..5 (6 thorough) elements, as vector and as dataset, for integer, string and boolean keys; every operation of the grouping compared with index lists computed by hand, with every subset of groups kept, non-constant vectors combined, parts grouped with values whose number fits or does not; leave-one-out and every k for n up to 7 (9); chains of 3 (4) split-filter-combine operations; every small grouped result. A state is one data set and grouping.",
      "Exhaustive over the stated sizes; a grouper sees one element at a time, so more elements repeat the same step.")

check("C09", ["c09_histories.cc"],
      "Every sequence of 3 (4 thorough) dataset operations (13 kinds with every argument) from 5 starting data sets incl. empty and repeated features, against a list of rows; every pair of data sets of up to 2 rows compared; every unequal pair of lengths refused. A state is one data set reached.",
      "Exhaustive over the stated depth and starts.",
      technique="explicit enumeration of all operation histories up to a depth on the real code, in lock step with an abstract row model")

check("C10", ["c10_distributions.cc"],
      "Every pair of marginals of up to 3 elements over small variances, with joints, scales and every selection, approximate equality off the diagonal included; every matrix of up to 3 x 3 over small integer entries (3 values up to 4 entries, else 2) as dense column- and row-major, sparse column- and row-major and with explicit zeros, times marginals and times joints with every small positive semi-definite covariance incl. singular ones; the same matrices times data sets and twice in a row. Oracle: plain loops. Maps scaled by powers of two from 2^-160 to 2^160, with variances of very different sizes side by side, against the size of the terms which make up every entry. Distributions of different sizes are never (approximately) equal. A state is one input.",
      "Exhaustive over the stated shapes and entries; tolerance 1e-9.")

check("C12", ["c12_priors.cc"],
      "All nine kinds of prior with every hyper-parameter of a grid (about 60 priors, 130 thorough) x 150 (1500) arguments inside, on, next to and outside the bounds against densities written from the definition; positive Gaussians with almost all of their mass cut away included; the mass by quadrature; every pair of priors compared; every set of up to 3 (4) parameters; every pair of bounds refused or accepted. A state is one prior or set.",
      "Exhaustive over the grid of hyper-parameters and arguments. Density outside the bounds is only decided where the kind defines it as minus infinity.")

check("C11", ["c11_parameters.cc"],
      "Every expression shape of up to 3 operands (6 shapes of 4) of sums and products, of covariance and of mean functions, with every pattern of shared names and initial prior kinds; scaling terms and measurement-only operands; macro-defined leaves; GPs, GPs with an own parameter, sparse GPs, models which only hold parameters: every sequence of 1-2 (2-3 thorough) operations out of 12 kinds with every argument, in lock step with a plain map and an expression evaluated by hand; 120 (1000) bounds on both scales with tunable values on, between and beyond them; stores of 1-3 parameters which no function owns under every sequence of 2 operations out of 14 kinds. A state is one parameter store.",
      "Exhaustive over the stated shapes, names and depth. A composition routes a name through one level at a time, so deeper trees repeat the same step.",
      technique="explicit enumeration of all programs (expression shapes) and operation histories up to a depth on the real code, in lock step with an abstract parameter store")

check("C13", ["c13_trees_0.cc", "c13_trees_1.cc", "c13_trees_2.cc", "c13_trees_3.cc", "c13_composition.cc", "c13_definite.cc"],
      "Every covariance expression of up to 3 leaves (sums, products, 6 shapes) over 4 kinds of leaves which are defined for different pairs of 3 input types (one of them in reversed order): where it is defined, its value at every pair of values, symmetry, matrices, cross matrices, diagonals; mean expressions likewise with add_to / remove_from; every sum and product of 6 library kernels on every multiset of up to 4 (6 thorough) grid points: entries, symmetry, variances, smallest eigenvalue; state space representations. Expressions of four to eight terms on regular sets of up to 101 points (backwards, repeated, without order, far apart), crossed with other sets, in units from 2^-100 to 2^100. A state is one expression and type or point set. The forms over vectors (values, added and removed means, matrices, cross matrices, diagonals) for 0 to 100 inputs in four orders, entry by entry.",
      "Exhaustive over the stated expressions. Composition looks one level down, deeper trees repeat the same step. In a product a part which is not defined for the types is ignored, as documented.",
      technique="exhaustive enumeration of all programs (expression trees) up to a size on the real code against an interpreter of the expression",
      flags=["-O0"])

check("C14", ["c14_wrappers_%d.cc" % i for i in range(13)] + ["c14_helpers.cc", "c14_large.cc"],
      "Every pair out of 13 wrappings of two feature types (plain, measurement, variant in both orders of alternatives, variant of measurements, linear combination, of variants, measurement of either, variant of linear combinations) holding every alternative, every small coefficient vector of up to 2 (3 thorough) terms incl. the empty one, for 5 covariance trees (written in one or the other order of arguments, without a cross term, sums and products, with measurement noise), in both orders of arguments and through the matrices; mean functions likewise; the linear combination helpers and matrix times features against the terms. Combinations of up to 33 terms with coefficients from 2^-60 to 2^40 of plain values and variants, measured or not, alone, in matrices and with their elements; matrices of up to 40 x 40 times features, dense and sparse. A state is one tree and pair of wrapped features.",
      "Exhaustive over the stated wrappings and values. Measurement-only terms of a measured linear combination are taken to be zero, as the library defines them for the plain type only.",
      flags=["-O0"])

check("C15", ["c15_radial.cc"],
      "4 radial functions x 7 (14 thorough) length scales over 24 (30) decades x 6 deviations x 213 (2013) distance ratios from 0 to 1e100 against long double formulas; the derived length scale inverted through the process noise on 3 x 3 (7 x 6) units x 60 (600) ratios from 0.001 to 0.999; metric axioms on every triple of grid points in 1-3 dimensions; smallest eigenvalue on every multiset of up to 4 (5) grid points in 1-3 dimensions, on the sphere and by radius; constants, polynomials, noise, nugget and scaling terms by formula; state space grids. A state is one parameter set or point set. Near points up to 10^12 from the origin (exact differences down to 2^-27); nuggets, noises and constants of any size relative to themselves.",
      "Exhaustive over the grids, not over the reals. Distances are bounded by 1e100 length scales (the Matern forms overflow beyond 1e154). Angles have 1e-7 accuracy next to the poles (arc cosine).")

SCHED = "stateless model checking of the real threads under a controlled scheduler: depth-first over every schedule up to a preemption bound, with a happens-before race detector on each"
TSAN = ["-fsanitize=thread", "-g1", "-I" + __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/support/sched_include"]


def scheduled(pid, srcs, rule, level_note, flags=[], **kw):
    check(pid, srcs, rule, level_note, technique=SCHED, pre=TSAN + flags, support=["mc.cc", "mc_sched.cc"], ldflags=["-fsanitize=thread"], **kw)


scheduled("C16", ["c16_apply.cc"],
          "Every form of apply (11: vector / map / grouped / group_by, value and key-value, void, move-only and bool results) over 0..4 (5 thorough) elements on pools of 0, 1, 2 and 3 workers, none, any one or any two of the applications throwing; calls in sequence on one pool; two threads sharing a pool; 5 to 9 (13) elements with none or one of them throwing without preemption: every schedule with up to 1-2 (2-6) preemptions at enqueue, task take, an interior point, task end, future wait. A transition is one scheduling decision.",
          "Exhaustive up to the stated numbers of elements, workers and preemptions. The real ThreadPool is not installed here; a stand-in with its interface is scheduled. Between scheduling points the absence of races (checked in each schedule) makes finer interleavings equivalent.")

scheduled("C17", ["c17_parallel.cc"],
          "Symmetric and cross covariance matrices of every size 0..24 (60 thorough) on 2..9 (16) workers in one schedule; every schedule (1-3 preemptions, scheduling points also inside the covariance and objective functions) of covariance matrices up to 3 (4) points, block diagonal solves and root solves of up to 3 (4) blocks, inverse blocks, leave-one-group-out, GP and sparse GP fit, update, prediction and cross-validation, finite differences and greedy tuning on 2 and 3 workers. Oracle: the serial evaluation. A transition is one scheduling decision. On one schedule each: matrices of 31 to 150, cross matrices up to 65 x 129 on 2-12 workers, solves with up to 33 blocks, inverse blocks and held out groups of up to 40 in up to 12, models of up to 40 data on 2-9 workers.",
          "Exhaustive up to the stated sizes and preemptions; race freedom in each schedule makes finer interleavings equivalent. The ThreadPool is a stand-in with the same interface. SuiteSparse's own threads are not explored.")

check("C18", ["c18_gp_%d.cc" % i for i in range(6)] + ["c18_dispatch.cc", "c18_scale.cc"],
      "6 models (no noise, noise, measurement noise, sums and products with a constant, correlated measurement noise, a prior which differs from place to place; with and without mean function): every sequence of up to 3 (4 thorough) training points out of 5 in every order (repeats included), with 4 noise patterns (one of some data only), asked at 5 sets of points, through every wrapping of the training features (plain, measurement, variant, variant of features and measurements, linear combinations) and of the test features (plain, measurement, variant, linear combination): mean, marginal, joint, the converting forms, with measurement noise, from a temporary fit, and the prior, against a long double conditional; the same for regular problems of 6 to 33 training and 1 to 17 test points; not above the prior, positive semi-definite. Models which define every non-empty subset of the three prediction forms: the others follow. Run with address sanitizer. In units of the targets from 2^-120 to 2^120 the answers of a process whose scales follow the unit are the scaled answers. A state is one (data set, question).",
      "Exhaustive over the stated models, data sets and wrappings. Measurement noise of a test feature is taken to be new noise, independent of the training data, as the library defines it.",
      technique="exhaustive enumeration of all small data sets and questions on the real code against an independent closed form in long double", flags=["-O0", "-fsanitize=address", "-fno-omit-frame-pointer"], ldflags=["-fsanitize=address"])

check("C19", ["c19_update.cc"],
      "4 models (without noise, with noise, with measurement noise, sums and products with constants; with and without mean): every sequence of up to 4 (5 thorough) training points out of 5 in every order with 4 noise patterns (one of some data only), cut into every sequence of pieces (the first fitted, the others updates one after the other), asked at 4 points with and without measurement noise, against the long double conditional of all data; two pieces in every pair of wrappings (feature, measurement, linear combination); fits from a prediction at every subset of 4 points in two orders, for 4 sources of the prediction, at the points, elsewhere, and updated with every sequence of up to 1 (2) data. Run with address sanitizer. Regular histories of up to 33 data, and histories in units of the targets from 2^-120 to 2^120. A state is one history.",
      "Exhaustive over the stated data sets and histories. Noise of measurements is independent between pieces (no value is measured in two of them).",
      technique="exhaustive enumeration of all small data sets and histories of updates on the real code against an independent closed form in long double", flags=["-O0", "-fsanitize=address", "-fno-omit-frame-pointer"], ldflags=["-fsanitize=address"])

check("C20", ["c20_dense.cc", "c20_spqr.cc"],
      "Sparse processes with both matrix decompositions, three models (zero mean; a mean which differs for measurements plus noise which only measurements carry; inducing points of a type of their own), four groupings, five sets of inducing points (all locations, one, two outside, a fixed grid, spread over the data), small and large nuggets. Every data set of up to 3 (thorough: 4) points of a grid of five, repeated locations included, with noise which varies: means, variances, covariances, with and without measurement noise, and the log likelihood against the closed form in long double; with inducing points everywhere against the exact process; every permutation of every data set; every cut into two or three pieces fit and updated; rebasing onto the same and onto other points; fits from a prediction (three sources, four sets of points in two orders) then updated; the strategies which come with the library and their replacement. Regular problems of some dozens of data in several groupings, and in units of the targets down to 2^-30 (SPQR drops columns below an absolute 1e-15).",
      "Bounded exhaustive enumeration of data sets and histories on the real code; independent long double oracle.",
      technique="exhaustive enumeration of all small data sets, groupings and histories of updates on the real code against an independent closed form in long double", flags=["-O0"])

check("C21", ["c21_linalg.cc"],
      "Against dense long double algebra: the LDLT of every matrix L L' with small integer lower triangle L (up to 3x3, thorough 4x4; scaled so that pivots move), built three ways: reconstruction, solve, all the square root products and solves, determinant, inverse diagonal, norms, diagonals; inverse blocks for every list of up to two ordered index sets; semi-definite and indefinite matrices; equality of every pair of fifteen factorizations, one never computed and different sizes included. Block diagonal matrices for every composition of up to 4 (thorough 5) into blocks of three kinds, and of rectangular blocks: products, differences, solves and square roots for dense, vector, expression, block and sparse right hand sides, with and without threads, determinant, condition number. Block symmetric matrices at every split of every small definite matrix with four solvers, also nested. QR decompositions (dense and sparse) of every small integer matrix with entries in {0, 1, -2, 4}, singular ones included. The pivot threshold, stacked matrices, truncated solves at several thresholds, operations on up to 3 grouped blocks of every size and on up to 33 of regular ones, printed eigen directions. The same operations at regular sizes (up to some forty rows) and for matrices of scales from 2^-200 to 2^200.",
      "Bounded exhaustive enumeration on the real code; independent long double oracle.",
      technique="exhaustive enumeration of small matrices, block partitions and right hand sides on the real code against dense long double algebra", flags=["-O0"])

check("C22", ["c22_folds.cc", "c22_gp.cc"],
      "Every assignment of three groups to every data set of up to 4 (6 thorough) data in any order, int and string keys, indices in order or reversed, for 5 models which tell exactly what they were trained on (each prediction kind alone, all, with an own cross-validation): folds, per-group and reassembled means, marginals, joints, every get form, predictions, scores of every metric kind from data and from folds, temporaries; groupers by datum, k fold for every k, function. Gaussian processes (3 models, 4 noise patterns, one of some data only, incl. repeated locations, without and with threads) for every assignment of up to 4 (5) data: the held-out formulas, free functions and scores against the long double conditional law, and the explicit refit; leave-one-out conditionals of every small prior; a sparse process refitted. Run with address sanitizer. Regular data of up to 24 points in folds, and units of the targets from 2^-120 to 2^120. A state is one data set with its groups and model.",
      "Exhaustive over the stated data sets and groups. The shortcut predicts observations (their noise included), the refit the function: the oracle follows each as documented.",
      technique="exhaustive enumeration of the assignments of groups to small data sets on the real code, against folds and conditional laws computed independently", flags=["-O0", "-fsanitize=address", "-fno-omit-frame-pointer"], ldflags=["-fsanitize=address"])

check("C23", ["c23_scores.cc"],
      "Every prediction of 1-3 variables over 2 values each, 2 variances each, 3 couplings each (unit lower triangular), 2 truths, 3 noise patterns: every point, marginal and joint metric and every form of the likelihood, chi squared probability, entropy and variogram score (both orders, with and without weights, noisy truth), and again under every permutation of the variables; variograms and Wasserstein distances with degenerate covariances, every pair in 1-2 (3 thorough) dimensions and 3 partners in three; one dimensional scores on a grid against integrals; energy scores of every covariance, weights, noise and two seeds against integrals within six deviations of the mean of the draws; GP log likelihoods and leave-one-(group-)out metrics of every data set of up to 3 (4) points in every order; model metrics of a model without shortcuts. Regular sizes (4 to 30 variables) of the metrics and distances, and units of the targets from 2^-120 to 2^120. A state is one input. Process and model metrics of 5 to 18 (40) data in many groups; offsets of the targets and errors up to 10^9: all but what depends on them stays.",
      "Exhaustive over the stated grids. The energy score is computed by draws: errors below 3% of the spread of the prediction (1% thorough) are within its noise. Each pair counts once in the variogram score.",
      technique="exhaustive enumeration of small predictions, truths and covariances on the real code against the definitions in long double (integrals by quadrature)", flags=["-O1"])

check("C24", ["c24_ransac.cc"],
      "The candidate loop with 2-3 (4 thorough) groups, every sample and minimum size, 1-2 (3) iterations, failure limits 0-2: every draw of the engine (std::default_random_engine is replaced by one whose draws are choices), every answer of validity, inlier (accept, reject, exactly at the threshold, NaN) and consensus functions (ties, NaN, infinities); a monitor recomputes the whole search. Every setting (sizes 0-4 and huge, thresholds NaN and infinite, limits) in three call forms. Comparison of every pair out of 64 outputs. Six strategies on Gaussian processes with an outlier at every place, with and without noise, groups of one and of several, every draw: groups, inlier and consensus values against long double conditionals, the refit, failing fits, parameters, strategies and metrics which died. Run with address sanitizer. 5, 8 and 13 groups with up to 70 iterations; larger Gaussian process data. A state is one play of the environment.",
      "Exhaustive up to the stated sizes. After the stated number of free draws the engine cycles (rejection loops end). When the limit of failed candidates is zero the first failure stops the search, as in the tests.",
      technique="stateless model checking: every draw and every answer of the functions is a choice, explored depth first on the real code against a monitor of the search", flags=["-O0", "-fsanitize=address", "-fno-omit-frame-pointer"], ldflags=["-fsanitize=address"])

check("C25", ["c25_conditional.cc"],
      "Joint priors of 1-3 (4 thorough) variables with 4 correlations, 4 noise patterns (none, equal, different, some), 2 means: every sequence of different variables given, every question (all, reversed, each alone, repeated, none): joint, marginal, mean against the long double conditional; every sequence cut into two or three pieces and conditioned in turn; priors of a Gaussian process in every order against the process; nothing given; variables outside. Regular priors of up to 20 variables, asked in order, shuffled and repeatedly, and units of the variables from 2^-120 to 2^120. A state is one (prior, given, question).",
      "Exhaustive over the stated priors and sequences.",
      technique="exhaustive enumeration of the conditioning histories of small joint distributions on the real code against an independent closed form in long double", flags=["-O0"])

check("C26", ["c26_least_squares.cc"],
      "Every design with entries 0, 1, -2 (0, 1 when more than 6) of up to 3 x 2 (4 x 3 thorough) of full rank with every basis target and one more, with and without common noise: orthogonality, minimiser, predictions, order, linearity, an own solver; every noise pattern of up to 4 data over three values; every line through up to 4 (5) points of a grid of 4 against the textbook formulas, and cross-validated. Regular designs of up to 33 rows with noise of all, none and some, and lines of up to 50 data, and units of targets and designs from 2^-120 to 2^120. A state is one data set.",
      "Exhaustive over the stated grids. Designs which have no unique minimiser are left to Eigen (checked with an own solver only).",
      technique="exhaustive enumeration of all small designs and targets on the real code against the normal equations in long double", flags=["-O0"])

check("C27", ["c27_tuning.cc"],
            "1-2 parameters of 14 kinds (every prior, inside and on the bounds), default and gradient optimizer (also Nelder-Mead for models): every sequence of answers 0, 1, infinite, not-a-number up to 5 (7 thorough) different points for parameters, vectors and Eigen vectors; models with 1-3 data sets and 2 aggregates, every sequence of answers; quadratics with and without failures beyond a plane; starts of 1-12 (40) plain values; gradients of polynomials of 1-2 (3) parameters on and off the bounds, serial and threaded; greedy tuning with 1-2 queries and 0-2 rounds, every sequence of answers, replayed by a monitor. 3 to 25 parameters of all kinds in several orders: gradients and gradient tuning of separable quadratics; optima on and beyond bounds of both scales; the number of evaluations stays within the limit of the chosen optimizer. A state is one result.",
      "Exhaustive over the stated grids and answer sequences; answers after the stated number of points are the last outcome. nlopt itself is trusted (it may give up on gradients which belong to no function).",
      technique="exhaustive enumeration of every sequence of objective outcomes on the real tuners", flags=["-O1"], ldflags=["-lnlopt"])

check("C28", ["c28_random.cc", "c28_sampler.cc"],
            "Without replacement: n of up to 6 (7 thorough) from three origins with all draws, all subsets equally often over all sequences of 5 (6) draws, too many refused; values with repeats; normals with the covariance of every root matrix with entries 0, 1, -0.5 up to 2 x 2 (0, 1 for 3 x 3) including singular ones; covariances (regular ones of up to 9 (24) variables), fills, sparse matrices. Sampler: steps of 2-3 (4) walkers in 1-2 dimensions (apart, partly equal, all equal) with every sequence of 7 (8) draws and 6 answers; the exact law of a step over all sequences of draws for 2-4 walkers in 1-3 dimensions against the stretch move; whole runs of 3-4 (5) walkers with every pattern of impossible walkers; functions passed in five ways; models with 4 kinds of parameters, CSV written and restarted, also from values just outside of the bounds. Up to 1000 integers and values without replacement for 5 (60) seeds; 5 to 100 walkers in up to 13 dimensions in 2, 3 and 5 splits for 4 (40) seeds, each step judged. Runs of 9 to 31 iterations of 5 to 26 walkers for 6 (60) seeds, recorded, written and read. A state is one result.",
      "Exhaustive over the stated draws: a draw takes each of n equal parts of its range, draws after the stated number follow a fixed sequence. Both sources include the samplers, so the check also fails if these cannot be linked twice.",
      technique="stateless model checking: every draw and every log probability is a choice, explored depth first on the real code", flags=["-O1"])

check("C29", ["c29_values.cc", "c29_factors.cc", "c29_gp.cc", "c29_sparse.cc", "c29_other.cc"],
      "Binary, portable binary, JSON and XML archives, loading into a fresh and into a used object: every dense matrix up to 3 x 3 (dynamic, fixed, vectors, float, int) with each of 9 special values at each cell, large ones; every permutation of up to 4; every sparsity pattern of up to 6 (9 thorough) cells, column and row major, float, long indices, compressed or not, with explicit zeros; every prior over a grid, parameters, variants of 5 alternatives, distributions and data sets of up to 3 with metadata, pools of up to 4 workers; LDLTs of every 2 x 2 (3 x 3) over a grid including singular and indefinite ones, the three representations, SPQR of every 3 x 2 (3 x 3) over a grid of every rank, loaded ones saved and reused, CHOLMOD matrices of every pattern; Gaussian processes fitted, updated and made from predictions, sparse ones with both decompositions, regressions, null models, RANSAC with and without consensus; version 0 of LDLTs and variants. Values are compared bit by bit, and by what they compute. Saving leaves what is saved as it was; fits as every earlier class version wrote them load and predict the same. A state is one value. Sparse QRs of up to 40 x 21 in five patterns.",
      "Exhaustive over the stated grids. Numbers which an XML archive writes as text are finite (cereal's reader refuses others).",
      technique="exhaustive enumeration of values, archives and targets on the real code", flags=["-O0"])

check("C30", ["c30_csv.cc"],
      "Data sets of up to 3 numbers, 2 integers, texts (10 kinds with separators, quotes and line breaks), nested features with an optional value, a variant and a struct, lists, features with their own to_map; one of 9 special numbers in each of the targets, variances and predictions; with and without predictions, marginal and joint; metadata; without a header; every choice and order of up to 4 columns; up to 2 (3 thorough) data sets with columns of their own, including none and empty ones; a pipe; every matrix up to 3 x 3 with each special number at each place. Up to 120 data with numbers of every size, texts of every byte, lists of up to 14 values, and matrices of up to 60 x 40. A state is one file.",
      "Exhaustive over the stated grids, read back by a reader of its own. Fields have different names, texts are not only white space.",
      technique="exhaustive enumeration of small data sets on the real writer, read back by an independent reader", flags=["-O1"])

check("C31", ["c31_trace_%d.cc" % i for i in range(5)],
      "Every sum and product of up to two out of five terms (defined for X; for Y; for both and across; across only and without a default; for measurements only; with names which depend on their parameters), of three out of three in both groupings, and every balanced expression of four out of two; each term with every one of seven values (for more than two terms a cycle through them; thorough: every one of three), small and huge ones included; all seven pairs of X, Y and measurement of X. The trace is parsed into depth, operator, name and value of each row and compared with a tree the harness evaluates itself, and the printed form line by line. A state is one (expression, values, pair).",
      "Exhaustive over the stated expressions. Inputs are single features or measurements of them.",
      technique="exhaustive enumeration of covariance expressions, parameter values and pairs of inputs on the real code, against an evaluation of its own", flags=["-O0"])

check("C32", ["c32_equality.cc"],
      "For each type with a comparison (edges, diagonal matrices, distributions, datasets, linear combinations, groups, priors, parameters, parameter stores, factorizations and the representations built from them, models, dense, sparse, regression and RANSAC fits, and fitted models): every pair of values which differ in any combination of their parts (each part with 2 to 19 options, sizes included), and one changed entry anywhere in larger ones; copied, assigned, moved and then changed. A state is one pair of values.",
      "Exhaustive over the stated parts and options: a comparison looks at each part once, so two options per part decide whether it looks. Entries which are not a number are left out, except in a RANSAC metric.")
