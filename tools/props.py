"""The single source of properties.jsonl (run tools/gen.py after editing)."""
I = "include/albatross/src/"


def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = {"files": [I + f for f in files],
               "mechanism": [{"name": n, "where": I + w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": I + w} for a, b, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": anchors}


PROPS = [
P("C01", "Map helpers compute the set algebra of their arguments",
  "For any two maps, the helpers that read (contains, at-or, keys, values), join, strictly join, intersect, unite, difference, symmetrically difference and subset them return exactly the entries the corresponding set operation on the keys selects, in the key order of the maps' own comparator, with each value taken from the documented operand or produced by the supplied function called once per selected key. The strict join refuses maps that share a key; every helper leaves its arguments unchanged.",
  ["inputs"], "every pair of maps over a small key universe (every pair of key subsets), ascending, descending and stateful comparators, every key sequence argument",
  "The tests compare a handful of hand-written maps; the merge walk behaves differently per relative position of its two iterators and per exhausted side, which only all pairs of key sets cover.",
  ["utils/map_utils.hpp"],
  [("merge walk over two sorted ranges", "utils/map_utils.hpp"), ("overloads per pair of comparators", "utils/map_utils.hpp")],
  ["map_join", "map_join_strict", "map_intersect", "map_union", "map_difference", "map_symmetric_difference", "map_subset", "map_keys", "map_values", "map_at_or", "map_contains"]),
P("C02", "Spanning trees and forests span, are acyclic and have optimal weight",
  "For every weighted undirected graph, the minimum and maximum spanning forests consist of edges of the input, have no cycle, connect exactly the vertices the input connects, and have the least, respectively the greatest, total weight possible. On a connected graph the minimum and maximum spanning tree functions return such a tree. Printing a graph writes its edges to the given stream.",
  ["inputs"], "every simple graph on up to 5 vertices with small integer weights including ties, zero and negatives, and small multigraphs with parallel edges and self loops",
  "The tests try a few fixed and random graphs; ties, disconnected graphs, parallel edges and heaviest self loops are corner cases of the greedy choice which only an enumeration reaches.",
  ["graph/minimum_spanning_tree.hpp"],
  [("Kruskal over sets of trees", "graph/minimum_spanning_tree.hpp"), ("Prim over a heap of boundary edges", "graph/minimum_spanning_tree.hpp"), ("cost negation between minimum and maximum", "graph/minimum_spanning_tree.hpp")],
  ["minimum_spanning_tree", "maximum_spanning_tree", "minimum_spanning_forest", "maximum_spanning_forest", "create_graph", "adjacency_map"]),
P("C03", "Compression is lossless and decompression never trusts damaged input",
  "Decompressing what was compressed gives back the same bytes for every input and compression level, for strings and for arrays of elements. Given a damaged stream or an output buffer of another size, the checking decompressors report failure or deliver exactly the announced amount of data; they never write outside the output buffer, throw or crash.",
  ["inputs", "fault_sequences"], "every string up to a bounded length over a small alphabet and structured longer ones, every truncation, every single byte substitution and insertion in the compressed stream, every output size around the right one",
  "The tests round-trip a few buffers and try hardly any damaged stream; the guarantee is about every damage.",
  ["utils/compress.hpp"],
  [("frame size checked against the output size", "utils/compress.hpp"), ("result codes instead of exceptions", "utils/compress.hpp")],
  ["zstd::compress", "zstd::decompress", "zstd::maybe_decompress"]),
P("C04", "Chebyshev evaluations satisfy the defining identities",
  "For every degree and every argument in [-1, 1] the evaluated Chebyshev polynomials of the first and second kind equal their defining values (three-term recurrence; cos(n t) and sin((n+1)t)/sin(t) on [-1, 1]), for one argument or many at once. Column k of the basis matrix is the polynomial of degree k at every argument, and the shape is (arguments) x (degree + 1).",
  ["inputs"], "every degree up to a bound, every argument of a dense grid of [-1, 1] with its end points, every vector length up to a bound",
  "The tests compare a few degrees; the identities hold for every degree, and the boundary degrees 0, 1, 2 take separate code paths.",
  ["polynomial/chebyshev.hpp"], [("recurrence from closed forms of degree 0, 1, 2", "polynomial/chebyshev.hpp")],
  ["chebyshev_t", "chebyshev_u", "chebyshev_t_phi", "chebyshev_u_phi"]),
P("C05", "Distribution functions are distribution functions, and the right ones",
  "The chi-squared distribution function and the regularised incomplete gamma function lie in [0, 1], are 0 at 0 and approach 1 at infinity, never decrease in the argument, never increase in the degrees of freedom, and agree with their known closed forms and recurrences across every switch of algorithm (to within 1e-6 where they saturate). The scalar, variance-scaled and covariance-scaled forms of the chi-squared function agree with each other, the Gaussian density is the exponential of its logarithm and integrates to one, and the uniform Kolmogorov-Smirnov statistic is the exact distance of the empirical distribution from the uniform one.",
  ["inputs"], "a dense grid over degrees of freedom and arguments spanning every algorithm switch, every small multiset of samples on a grid and every order of it",
  "The tests compare some values to a reference library; monotonicity, continuity over algorithm switches, and the invariances concern all arguments.",
  ["stats/chi_squared.hpp", "stats/incomplete_gamma.hpp", "stats/gaussian.hpp", "stats/ks_test.hpp", "stats/gauss_legendre.hpp"],
  [("quadrature or continued fraction by size of a", "stats/incomplete_gamma.hpp"), ("guards for x and degrees of freedom", "stats/chi_squared.hpp")],
  ["chi_squared_cdf", "incomplete_gamma", "gaussian::pdf", "gaussian::log_pdf", "uniform_ks_test"]),
P("C06", "Variant, vector and index-conversion helpers lose nothing and invent nothing",
  "Assigning a value or a sub-variant to a variant keeps the alternative and the value, extracting one type from a vector of variants (or a dataset of them) returns exactly the elements of that type in order with their own targets, and converting to a vector of variants is undone by extracting. The any, all, contains and linspace helpers agree with their elementary definitions, and the index conversions keep the value and refuse one the target type cannot hold.",
  ["inputs"], "every vector of variants up to a bounded length over all alternatives, every boolean vector up to a bounded length, every small range and count",
  "The tests use one or two vectors; order and pairing with targets must survive every arrangement of the alternatives.",
  ["utils/variant_utils.hpp", "utils/vector_utils.hpp", "details/typecast.hpp"],
  [("visitor assigning the held alternative", "utils/variant_utils.hpp")],
  ["set_variant", "set_variants", "to_variant_vector", "extract_from_variants", "all", "any", "vector_contains", "linspace"]),
P("C07", "Selecting, complementing, filtering, concatenating follow index semantics",
  "Selecting indices from a vector, matrix, diagonal matrix, distribution or dataset returns element i of the result from element indices[i] of the source, keeping features, means and covariances aligned; writing a selection of distinct indices back touches those elements only and selecting again returns what was written; indices outside the container are refused by an assertion. The complement of indices is every other index once in order, filtering keeps exactly the elements the predicate accepts in order, unique and set helpers return the mathematical set, and concatenating joins the parts in order.",
  ["inputs"], "every index sequence (with repeats and permutations) into containers of every size up to a bound, every subset, every predicate on the elements, every pair and triple of parts",
  "The tests select two or three index lists; alignment of features with targets and covariances must hold for all index lists.",
  ["indexing/subset.hpp", "indexing/filter.hpp", "indexing/unique.hpp", "core/concatenate.hpp", "core/dataset.hpp", "core/distribution.hpp"],
  [("index loops", "indexing/subset.hpp"), ("predicate to index list", "indexing/filter.hpp"), ("piecewise append", "core/concatenate.hpp")],
  ["subset", "subset_rows", "subset_cols", "symmetric_subset", "set_subset", "indices_complement", "filter", "unique_values", "unique_value", "concatenate", "vector_set_difference"]),
P("C08", "Grouping partitions the data, and split-apply-combine is faithful",
  "Grouping a vector or dataset by any function puts every element into exactly one group, the group of its own key, in original order, so that the index lists partition the indices; group counts, first-of-group, per-group filters and applies act on exactly those groups, and combining the groups returns every element once. Leave-one-out grouping makes singletons; k-fold grouping makes min(k, n) folds whose sizes differ by at most one.",
  ["inputs", "programs"], "every assignment of keys to up to 6 elements (as vector and dataset), every filter over the groups, every k, chained operations up to a depth",
  "The tests group a few datasets; the partition property must hold for every key assignment.",
  ["indexing/group_by.hpp", "indexing/filter.hpp", "indexing/apply.hpp", "indexing/unique.hpp"],
  [("index building per grouper", "indexing/group_by.hpp"), ("Grouped containers and their operations", "indexing/group_by.hpp")],
  ["group_by", "groups", "indexers", "counts", "keys", "first_group", "filter", "apply", "index_apply", "combine"]),
P("C09", "Datasets stay aligned under every sequence of operations",
  "After any sequence of subsetting, concatenating, filtering, grouping and recombining, deduplicating and aligning, the features, target means, target covariances of a dataset have equal length and every feature still carries the target it was created with. Deduplicating keeps one entry (the latest) per distinct feature in order, aligning two datasets leaves precisely the common features in the same order in both, and equality of datasets is an equivalence that distinguishes any difference. Features and targets of unequal number are refused by an assertion.",
  ["histories", "inputs"], "every sequence of dataset operations up to a depth, with every argument, from several starting datasets",
  "The tests apply one operation at a time to a fixed dataset; the invariant is over all histories.",
  ["core/dataset.hpp", "core/distribution.hpp", "core/concatenate.hpp", "indexing/subset.hpp", "indexing/filter.hpp", "indexing/group_by.hpp"],
  [("subset applied to features and targets together", "core/dataset.hpp"), ("alignment by intersecting keys", "core/dataset.hpp")],
  ["RegressionDataset", "concatenate_datasets", "deduplicate", "align_datasets", "filter", "combine"]),
P("C10", "Distributions transform as Gaussian random variables do",
  "Marginal and joint distributions form a vector space under addition, subtraction and scaling of independent variables: means and covariances transform as those of Gaussian random variables, a joint's marginal is its mean and diagonal, and selecting commutes with taking the marginal. Multiplying a distribution or dataset by any dense or sparse matrix gives mean A m and covariance A S A', with the marginal and joint forms agreeing, and features that are the matching linear combinations. Distributions are equal exactly when sizes, means and covariances are, and print to the given stream.",
  ["inputs"], "every shape up to a bound, every small integer matrix pattern (including zero rows and repeated entries), dense and sparse, row and column order, joint and marginal, every scale of a set",
  "The tests use one or two matrices; sparsity pattern and shape decide the path, and they only all patterns cover.",
  ["core/distribution.hpp", "core/transformed_distribution.hpp", "core/linear_combination.hpp", "core/dataset.hpp", "eigen/serializable_ldlt.hpp"],
  [("square root of the transformed covariance", "core/transformed_distribution.hpp"), ("operators on distributions", "core/distribution.hpp")],
  ["MarginalDistribution", "JointDistribution", "operator*", "TransformedDistribution::marginal", "TransformedDistribution::joint", "concatenate_marginals"]),
P("C11", "Setting a parameter is seen by every reader, in every composition",
  "Setting a parameter of any composition of covariance functions, mean functions, scaling terms and models, by name, by map or as a vector of tunable values, makes it, and only it, take that value, both in what the composition reports and in what it computes; when several operands hold a parameter of the same name it is one parameter, and setting it sets all of them. Setting a value keeps the prior, setting a prior keeps the value. Reading the tunable parameters and writing them back changes nothing (up to the rounding of the logarithm for log-scale priors); values are clamped to the bounds when asked to; fixed parameters are never tunable, priors and bounds travel with their parameter. Unknown names, tunable vectors of a wrong length and tuning of invalid values are refused; the if_exists forms skip and report unknown names.",
  ["programs", "histories", "inputs"], "every expression tree of sums and products up to a depth (with shared parameter names), every sequence of set operations up to a length, every subset of fixed parameters",
  "The tests set parameters of a few fixed compositions; a composition routes names through nested operands, and a route can fail only for particular shapes.",
  ["core/parameters.hpp", "core/parameter_handling_mixin.hpp", "core/parameter_macros.hpp", "covariance_functions/covariance_function.hpp", "covariance_functions/mean_function.hpp", "models/gp.hpp"],
  [("parameter stores merged over operands", "covariance_functions/covariance_function.hpp"), ("transform to the tunable range", "core/parameter_handling_mixin.hpp")],
  ["get_params", "set_params", "set_param", "set_params_if_exists", "get_tunable_parameters", "set_tunable_params_values", "params_are_valid"]),
P("C12", "Priors are normalised densities on their stated support",
  "The log density of every prior equals the logarithm of the named probability density for every value within its bounds: uniform, log-scale uniform (uniform in the value, only its tuning is logarithmic), Gaussian, log-normal and positive Gaussian (a Gaussian cut at zero and normalised, the half-normal when mu = 0) integrate to one; uninformative, fixed, positive and non-negative are flat (zero). It is never nan, and it is minus infinity outside the support of the uniform, log-scale uniform and non-negative priors and at values which are not positive for the positive and log-normal ones. The reported bounds are the support (for the positive Gaussian zero to ten deviations above its mean, or above zero), and a parameter is valid exactly when it lies within them. Two priors compare equal exactly when their kind and all their parameters do. The prior log-likelihood of a set of parameters is the sum of its parameters' log densities. Uniform priors with senseless bounds are refused.",
  ["inputs"], "every prior kind with a grid of hyper-parameters, a grid of values covering inside, boundary and outside of the support",
  "The tests evaluate priors at a couple of points; normalisation and support are statements about all values.",
  ["core/priors.hpp", "core/parameters.hpp", "core/parameter_handling_mixin.hpp"], [("per-kind log density and bounds", "core/priors.hpp")],
  ["Prior::log_pdf", "Prior::lower_bound", "Prior::upper_bound", "Parameter::is_valid", "prior_log_likelihood", "parameter_prior_log_likelihood"]),
P("C13", "Composed covariance and mean functions mean what the expression says",
  "For every expression built from covariance functions with + and *, and for mean functions likewise, the value at any pair of inputs is the sum, respectively product, of the parts' values, for all input types a part supports; a part that does not define a covariance for the given types is left out, and the expression is defined exactly where one of its parts is. Covariance functions are symmetric in the order of their arguments, covariance matrices equal their element-wise definition, are positive semi-definite for valid parts, and the diagonal holds the variances; adding or removing a mean changes a vector by exactly that mean. State space representations of a composition are those of its parts, in order.",
  ["programs", "inputs"], "every expression tree up to a depth over leaves supporting different input types, every pair of inputs of every type combination",
  "The tests check selected trees; overload selection happens at compile time per tree shape and per type pair.",
  ["covariance_functions/covariance_function.hpp", "covariance_functions/callers.hpp", "covariance_functions/traits.hpp", "covariance_functions/mean_function.hpp", "covariance_functions/noise.hpp", "covariance_functions/nugget.hpp", "covariance_functions/polynomials.hpp"],
  [("trait-selected callers", "covariance_functions/callers.hpp"), ("sum and product nodes", "covariance_functions/covariance_function.hpp")],
  ["CovarianceFunction::operator()", "MeanFunction::operator()", "diagonal", "SumOfCovarianceFunctions", "ProductOfCovarianceFunctions"]),
P("C14", "Wrapped inputs are transparent: measurements, variants, linear combinations",
  "Wrapping inputs as measurements, as variants or as linear combinations never changes a covariance or mean beyond its definition: a variant behaves as the value it holds (pairs without a defined covariance contribute zero), a linear combination behaves bilinearly in its terms, a measurement behaves as its value except for terms which are defined for measurements, which act only between two measurements; measurement-only terms are zero unless both arguments are measurements. The result depends neither on which argument is wrapped, nor on the order of arguments, nor on being nested (variants of measurements, measurements of combinations, combinations of variants), and a wrapped pair is accepted wherever all of its alternatives are. Matrices times features are the linear combinations of their rows.",
  ["inputs", "programs"], "every combination of wrappers on both arguments over every alternative and every small coefficient vector, several covariance trees",
  "The tests exercise one wrapper at a time; forwarding is chosen per combination of types on both sides.",
  ["covariance_functions/callers.hpp", "covariance_functions/measurement.hpp", "core/linear_combination.hpp", "covariance_functions/traits.hpp"],
  [("caller chain", "covariance_functions/callers.hpp"), ("measurement-only covariance", "covariance_functions/measurement.hpp")],
  ["CovarianceFunction::operator()", "MeanFunction::operator()", "measurement_only", "as_measurements", "LinearCombination"]),
P("C15", "Radial covariances have their named form and stay valid covariances",
  "Every radial covariance function equals its published formula for every distance, length scale and standard deviation: it equals the variance at distance zero, never exceeds it, decays to zero with distance, depends on distance and length scale only through their ratio, and gives positive semi-definite matrices; the derived length scale and process-noise equivalent invert each other. The distance metrics are metrics, agree between scalars and vectors, and polynomial, constant, scaling and noise terms equal their defining formulas.",
  ["inputs"], "a dense grid over distances (up to 1e100 length scales), length scales (tiny and huge included) and scales; derived length scales for increases of 0.001 to 0.999 of the deviation; every small point set on a grid for definiteness, in one to three dimensions",
  "The tests compare a few values; bounds, scaling and definiteness concern all inputs.",
  ["covariance_functions/radial.hpp", "covariance_functions/distance_metrics.hpp", "covariance_functions/polynomials.hpp", "covariance_functions/noise.hpp", "covariance_functions/nugget.hpp", "covariance_functions/scaling_function.hpp"],
  [("closed forms", "covariance_functions/radial.hpp"), ("guards for zero length scales", "covariance_functions/radial.hpp")],
  ["SquaredExponential", "Exponential", "Matern32", "Matern52", "EuclideanDistance", "AngularDistance", "Constant", "Polynomial", "IndependentNoise", "Nugget", "ScalingTerm"]),
P("C16", "Threaded evaluation equals serial evaluation under every schedule",
  "Applying a function over a vector, map or grouping with a thread pool returns what the serial version returns, in the same order, calls the function exactly once per element, and returns only when all calls are over, under every interleaving of the workers. If calls throw, one of their exceptions reaches the caller, only after every call is over; no schedule deadlocks or has a data race.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of up to 3 workers within a preemption bound for every small container, every subset of throwing calls",
  "A test runs one schedule chosen by the machine; the failure needs a particular one.",
  ["utils/async_utils.hpp", "indexing/apply.hpp", "indexing/group_by.hpp"],
  [("futures collected in order", "utils/async_utils.hpp")],
  ["apply", "apply_map", "Grouped::apply", "GroupBy::apply", "make_shared_thread_pool"]),
P("C17", "Parallel matrices, solves and cross-validation equal the serial ones",
  "Covariance matrices, block solves, inverse blocks, cross-validated predictions, finite-difference gradients and greedy tuning computed with a thread pool of any size equal those computed without, for every size of problem (also when it does not divide evenly, or is smaller than the pool), under every interleaving of the workers, without data races.",
  ["schedules", "inputs", "configurations"], "all interleavings within a preemption bound for small problems on 2 to 3 workers, and every problem size times every pool size up to a bound",
  "Tests run a few large sizes on whatever schedule occurs.",
  ["covariance_functions/callers.hpp", "linalg/block_diagonal.hpp", "eigen/serializable_ldlt.hpp", "evaluation/cross_validation_utils.hpp", "tune/finite_difference.hpp", "tune/greedy_tuner.hpp"],
  [("partition of rows and of the triangle into blocks", "covariance_functions/callers.hpp"), ("disjoint writes per task", "linalg/block_diagonal.hpp")],
  ["compute_covariance_matrix", "BlockDiagonalLDLT::solve", "SerializableLDLT::inverse_blocks", "held_out_predictions", "compute_gradient", "greedy_tune"]),
P("C18", "Gaussian process predictions are the exact Gaussian conditional",
  "Fitting a Gaussian process to any dataset and predicting at any features returns the mean and covariance of the conditional Gaussian distribution given by its mean function, covariance function and the target noise; mean, marginal and joint predictions agree with each other, and the covariance never exceeds the prior. Prior, predictive and noise-free forms, and predictions through measurements, variants and linear combinations of features, follow the same law, and the order of the data does not matter.",
  ["inputs", "programs"], "every training set and test set on a small grid of features, every noise pattern, several covariance and mean trees, every feature wrapper",
  "The tests check a toy problem to loose tolerances; the identity is over all datasets and feature types.",
  ["models/gp.hpp", "core/prediction.hpp", "core/fit_model.hpp", "core/model.hpp", "eigen/serializable_ldlt.hpp", "covariance_functions/representations.hpp"],
  [("information vector and LDLT factor", "models/gp.hpp"), ("prediction kinds from one fit", "core/prediction.hpp")],
  ["fit", "predict", "predict_with_measurement_noise", "mean", "marginal", "joint", "prior", "log_likelihood"]),
P("C19", "Updating a fit equals fitting all the data at once",
  "Updating a fitted Gaussian process with more data, once or in any sequence of pieces and in any order, predicts exactly what fitting to the concatenated data predicts, including target noise and measurement noise (taken to be independent between the pieces). Fitting from a prediction at some features reproduces that prediction there and what it implies elsewhere, and such a fit can be updated in turn.",
  ["histories", "inputs"], "every way of splitting every small dataset into an initial fit and one or two updates, every order",
  "The tests update once on one dataset.",
  ["models/gp.hpp", "linalg/block_symmetric.hpp", "models/conditional_gaussian.hpp", "core/fit_model.hpp"],
  [("block matrix inversion with the Schur complement", "linalg/block_symmetric.hpp"), ("fit types nested per update", "models/gp.hpp")],
  ["update", "fit_from_prediction", "predict"]),
P("C20", "Sparse Gaussian processes equal their closed form and degrade exactly",
  "A sparse Gaussian process predicts exactly what the closed-form approximation with its inducing points and grouping says (block-diagonal residual per group), so with inducing points at every training location it equals the exact Gaussian process; the mean function, the target noise and the order of the data and groups are handled the same way. Updating equals refitting with the same inducing points, rebasing onto the same points changes nothing, and the log likelihood is the closed form's.",
  ["inputs", "histories", "configurations"], "every small dataset and every grouping of it, several inducing point sets, every split into fit and update, all supported matrix solvers",
  "The tests compare one grouping on one dataset with loose tolerances.",
  ["models/sparse_gp.hpp", "linalg/block_diagonal.hpp", "linalg/qr_utils.hpp", "linalg/spqr_utils.hpp"],
  [("stacked QR of the inducing and group blocks", "models/sparse_gp.hpp"), ("update of the stacked triangular factor", "models/sparse_gp.hpp")],
  ["SparseGaussianProcessRegression::fit", "update", "predict", "log_likelihood", "rebase_inducing_points", "set_inducing_point_strategy"]),
P("C21", "Structured linear algebra equals the dense computation",
  "Block-diagonal matrices and factorizations, block-symmetric inverses, the serializable LDLT and QR factorizations (dense and sparse), permuted and truncated solves return exactly what the dense matrix they represent would give: products, solves, square roots, determinants, diagonals and selected blocks of the inverse, and sub-blocks. A factorization of a matrix reproduces that matrix.",
  ["inputs"], "every partition of small dimensions into blocks, every matrix of a family of small integer positive definite (also semi-definite and badly ordered, so that pivoting permutes) matrices, every right hand side of a basis, every row/column offset",
  "The tests use one random matrix; pivoting orders and block shapes decide the path.",
  ["linalg/block_diagonal.hpp", "linalg/block_symmetric.hpp", "linalg/block_utils.hpp", "linalg/qr_utils.hpp", "linalg/spqr_utils.hpp", "eigen/serializable_ldlt.hpp", "eigen/serializable_spqr.hpp", "utils/eigen_utils.hpp", "indexing/block.hpp"],
  [("block-wise loops with running offsets", "linalg/block_diagonal.hpp"), ("pivot permutation handling", "eigen/serializable_ldlt.hpp")],
  ["BlockDiagonal", "BlockDiagonalLDLT", "BlockSymmetric", "SerializableLDLT", "sqrt_solve", "get_R", "get_P", "vertical_stack", "truncated_psd_solve", "print_eigen_directions"]),
P("C22", "Cross-validation predicts every datum once, from the others only",
  "For every dataset and grouping, cross-validation makes each fold's training set precisely the data outside its group and its test set the group, and each prediction of the whole dataset puts at position i the prediction for datum i made by a model fitted without its group. The shortcuts a Gaussian process provides (leave-one-out and held-out predictions from a single fit) equal, as mean, marginal and joint, the law of the held-out observations (measurement noise and the targets' own noise included) given the others as an explicit refit yields it, and each cross-validated score is the metric of the fold's prediction against its own truth.",
  ["inputs", "configurations"], "every assignment of groups to every small dataset, leave-one-out and k-fold for every k, every prediction kind, models with and without a shortcut",
  "The tests check a dataset and two groupings; leakage and misplacement depend on the interleaving of the groups in the data.",
  ["evaluation/cross_validation.hpp", "evaluation/cross_validation_utils.hpp", "evaluation/folds.hpp", "models/gp.hpp"],
  [("fold construction from a group indexer", "evaluation/folds.hpp"), ("held-out formulas from the inverse blocks", "evaluation/cross_validation_utils.hpp")],
  ["cross_validate", "folds_from_group_indexer", "means", "marginals", "joints", "scores", "held_out_predictions", "leave_one_out"]),
P("C23", "Scores and likelihoods equal their mathematical definitions",
  "Every prediction metric and likelihood (root mean square error, standard deviation, negative log likelihood with scalar, diagonal, full and factorized covariances, chi-squared probability, energy score (to within the error of its draws), variogram scores (each pair counted once), squared Wasserstein distance, differential entropy) equals its published definition for all predictions and truths, degenerate ones included, and every form of it (scalar, marginal, joint) agrees on the inputs they share. They do not depend on the joint reordering of prediction and truth. The log likelihood of a Gaussian process is that of its noisy targets plus its priors', and the model metrics are the corresponding sums over the model's own predictions and priors.",
  ["inputs"], "every small prediction and truth on a grid, every positive definite covariance of a small family, every permutation of the data",
  "The tests evaluate a couple of cases.",
  ["evaluation/prediction_metrics.hpp", "evaluation/likelihood.hpp", "evaluation/model_metrics.hpp", "evaluation/differential_entropy.hpp", "stats/gaussian.hpp"],
  [("metric function objects", "evaluation/prediction_metrics.hpp"), ("log-determinant plus quadratic form", "evaluation/likelihood.hpp")],
  ["PredictionMetric", "negative_log_likelihood", "score::energy_score", "score::variogram_score", "differential_entropy", "LeaveOneOutLikelihood", "GaussianProcessNegativeLogLikelihood"]),
P("C24", "RANSAC returns the best consensus among the candidates it tried",
  "For every dataset, sequence of random draws and setting, RANSAC fits only candidates of the configured sample size, its consensus is the candidate plus exactly the groups the inlier rule accepts, the reported best has the best metric among the tries whose consensus reached the minimum and was valid, and its inliers and outliers partition the groups. It stops within the iteration and failure limits, reports a failure code (never a partial result) when nothing qualifies or the settings are impossible, and the model refitted on the consensus is the ordinary fit to those data.",
  ["inputs", "fault_sequences", "configurations"], "every outcome of every draw (all candidate subsets, all inlier patterns) for small numbers of groups, every small setting, every seed of a range for the end-to-end model",
  "The tests run a seeded example that succeeds; failure paths and ties depend on the draws.",
  ["models/ransac.hpp", "models/ransac_gp.hpp", "utils/random_utils.hpp"],
  [("candidate loop", "models/ransac.hpp"), ("strategy function objects", "models/ransac_gp.hpp")],
  ["ransac", "RansacOutput", "Ransac::fit", "gp_ransac strategies"]),
P("C25", "Conditional Gaussian models agree with direct conditioning",
  "Building a model from a prior distribution over known features and fitting it to measurements of any subset of them gives the conditional Gaussian mean and covariance for any selection of the features, in any order, for every subset and measurement noise; conditioning on two subsets in turn equals conditioning on both at once. A feature outside the prior is refused.",
  ["inputs", "histories"], "every subset split of small joint distributions, several covariances and noise patterns",
  "The tests condition once.",
  ["models/conditional_gaussian.hpp", "models/gp.hpp"], [("covariance by index", "models/conditional_gaussian.hpp")],
  ["ConditionalGaussian", "ConditionalFit", "predict"]),
P("C26", "Least squares returns the minimiser",
  "For every full-rank design the least squares fit minimises the squared residual of the targets: its residuals are orthogonal to the design, the prediction at the training inputs is the projection of the targets, and linear regression in one variable reproduces slope and offset. Targets of equal noise give the same fit as targets without noise, targets of different noise are refused rather than mis-weighted, and a solver which a model defines for itself is the one that is used.",
  ["inputs"], "every small integer design matrix of full rank, every basis target, every noise pattern of a grid",
  "The tests fit one line.",
  ["models/least_squares.hpp"], [("QR solve", "models/least_squares.hpp")],
  ["LeastSquares::fit", "LinearRegression::fit", "predict"]),
P("C27", "Tuning never returns parameters worse than, or outside of, where it began",
  "Tuning a model or function begins at the given parameters or values in their order, returns valid parameters (within bounds, fixed ones and priors untouched) which it evaluated and whose objective is not above the starting one's, evaluates the objective only within the bounds, and treats failures of the objective (infinite or not-a-number) as bad values rather than results. Tuning a model minimises the aggregate of the metric over all data sets with the optimizer (and its evaluation limit) it was given. Greedy tuning returns the best point it evaluated, changes one parameter at a time and looks to both sides. Finite-difference gradients equal the derivative up to the difference order (where a bound is active, its descending part), staying inside the bounds.",
  ["inputs", "histories", "fault_sequences"], "every objective from a finite family over a grid, all sequences of objective outcomes (finite, infinite, not-a-number) up to a depth, every subset of fixed and bounded parameters",
  "The tests tune one convex function.",
  ["tune/tune.hpp", "tune/greedy_tuner.hpp", "tune/finite_difference.hpp", "tune/tuning_metrics.hpp", "core/parameter_handling_mixin.hpp"],
  [("bounds and tunable vectors passed to the optimiser", "tune/tune.hpp"), ("candidate evaluation and step adaptation", "tune/greedy_tuner.hpp")],
  ["GenericTuner::tune", "ModelTuner::tune", "greedy_tune", "compute_gradient"]),
P("C28", "Random draws and samplers respect their contracts for every seed",
  "Drawing without replacement returns exactly n distinct elements of the range, every subset being equally likely, and refuses more than there are; multivariate normal draws have the requested mean and covariance (also a singular one) as a linear map of independent normals, and random covariance matrices are symmetric positive definite. The ensemble sampler replaces impossible initial walkers by points between possible ones, and each of its steps leaves a walker or moves it along the line through another one by exactly the law of the stretch move (a coordinate in which the two agree is nudged, so that walkers which coincide can part), accepts only points with finite log probability, records each state with its own log probability, and keeps the number and dimension of walkers. A run written as CSV restarts from where it ended.",
  ["inputs", "histories"], "every n and range up to a bound times a block of seeds, every dimension up to a bound, every walker count, small numbers of steps",
  "The tests draw with one seed.",
  ["utils/random_utils.hpp", "samplers/ensemble.hpp", "samplers/initialization.hpp", "samplers/callbacks.hpp", "evaluation/prediction_metrics.hpp"],
  [("set-based rejection of repeats", "utils/random_utils.hpp"), ("stretch moves over two half ensembles", "samplers/ensemble.hpp")],
  ["randint_without_replacement", "random_without_replacement", "random_multivariate_normal", "random_covariance_matrix", "ensemble_sampler", "initial_params"]),
P("C29", "Serialization round-trips every value in every archive",
  "Saving and loading any albatross value (parameters and priors, matrices dense and sparse, permutations, distributions, datasets, variants, factorizations, covariance representations, models, fitted models, RANSAC results and thread pools) through binary, portable binary, JSON and XML archives, into a fresh object or over one which holds something else, returns an equal value which computes the same, and a loaded model predicts exactly what the saved one predicts. Variants keep which alternative they hold. Archives of older versions of a format still load. (Numbers which are not finite have no representation in an XML archive, other than inside matrices.)",
  ["inputs", "configurations"], "every type of the catalogue times every archive times every small shape (including empty) and special value",
  "The tests round-trip one instance per type; shapes, storage orders and empty values are separate paths.",
  ["cereal/eigen.hpp", "cereal/suitesparse.hpp", "cereal/variant.hpp", "cereal/priors.hpp", "cereal/parameters.hpp", "cereal/distribution.hpp", "cereal/dataset.hpp", "cereal/fit_model.hpp", "cereal/gp.hpp", "cereal/serializable_ldlt.hpp", "cereal/serializable_spqr.hpp", "cereal/ransac.hpp", "cereal/ThreadPool.hpp", "cereal/block_utils.hpp", "cereal/representations.hpp"],
  [("save and load pairs", "cereal/eigen.hpp"), ("index-based variant dispatch", "cereal/variant.hpp")],
  ["cereal save and load", "operator=="]),
P("C30", "CSV output holds every datum under its own column",
  "Writing datasets and predictions as CSV gives one header and one row per datum, in order, each row with as many cells as the header whatever the texts hold, every cell being the value of the named field of that feature, its target, its target variance, its prediction and prediction variance, and its metadata; a field some data do not have is empty in their rows, and several datasets share one header with the columns of all of them. Reading the file back column by column recovers every number exactly and every text.",
  ["inputs"], "every small dataset over a value grid with nested feature types, with and without predictions, every number of concatenated datasets",
  "The tests compare one file.",
  ["utils/csv_utils.hpp"], [("XML serialization flattened to columns", "utils/csv_utils.hpp")],
  ["write_to_csv", "to_map", "get_column_names"]),
P("C31", "A call trace reproduces the covariance it explains",
  "For every covariance expression and pair of inputs, the call trace lists each node of the expression once in tree order with the depth, the name and the value that node contributes, so that the value of each sum or product in the trace is the sum or product of its children's, the root's is the covariance itself, and parts undefined for the inputs are marked undefined.",
  ["programs", "inputs"], "every expression tree up to a depth over terms with different input types and values, every pair of single features and measurements of them",
  "The tests trace one expression.",
  ["covariance_functions/call_trace.hpp"], [("recursive trace per node type", "covariance_functions/call_trace.hpp")],
  ["call_trace", "get_trace"]),
P("C32", "Values are equal exactly when all they hold agrees; copies are independent",
  "Two values of a type with a comparison (edges, distributions, datasets, linear combinations, groups, priors, parameters and stores of them, factorizations and the covariance representations built from them, models, every kind of fit, RANSAC results, fitted models) compare equal exactly when every part of them which defines them agrees (an edge's number, which is the caller's own, is no such part), values of different sizes being different rather than an error; comparison is symmetric and reflexive, the order of edges is strict and agrees with their equality. A copied, assigned or moved value equals its source, and changing, fitting or updating one of them afterwards leaves the other and its predictions as they were.",
  ["inputs", "histories"], "every pair of values differing in any combination of their parts, for every type of the catalogue, plus one changed entry anywhere in larger ones",
  "The tests compare a value with itself or with one different value; a comparison which skips a part passes.",
  ["core/distribution.hpp", "core/dataset.hpp", "core/parameters.hpp", "core/priors.hpp", "core/linear_combination.hpp", "core/model.hpp", "core/fit_model.hpp", "indexing/group_by.hpp", "graph/minimum_spanning_tree.hpp", "eigen/serializable_ldlt.hpp", "linalg/block_symmetric.hpp", "covariance_functions/representations.hpp", "models/gp.hpp", "models/sparse_gp.hpp", "models/ransac.hpp", "models/least_squares.hpp", "models/null_model.hpp"],
  [("lower triangles and permutations compared", "eigen/serializable_ldlt.hpp"), ("parts of a fit compared", "models/sparse_gp.hpp"), ("parameters, name and insights compared", "core/model.hpp")],
  ["operator==", "operator!=", "operator<"]),
]
