#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

Run by hand after editing; its outputs are committed.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOE = "src/mfpml/design_of_experiment/"
PRO = "src/mfpml/problems/"
MOD = "src/mfpml/models/"
OPT = "src/mfpml/optimization/"
VIS = "src/mfpml/visualization/"

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe,
         note):
    P.append(dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None),
        note=note))


# ------------------------------------------------------------- sampling ---
prop("P01", "Single-fidelity samplers return n points inside the design space",
     "For every design space, sample count and seed, the Latin hypercube, random and Sobol samplers return exactly n distinct finite rows with one column per design variable, column j within the bounds of variable j, at a cost that grows like n and not like 2^n. The fixed-number sampler returns n copies of the flattened design space. The returned design is also the one kept on the sampler, and the design space passed in is not changed.",
     ["inputs", "configurations"],
     "all design spaces (any dimension, sign and scale, list or array), all n >= 1, all seeds, default and explicit num_skip",
     "the tests draw one 2-D design of a handful of points for a single seed and compare stored numbers",
     [DOE + "sf_samplers.py"],
     [("scale_samples", DOE + "sf_samplers.py"), ("get_samples of each sampler", DOE + "sf_samplers.py")],
     ["return value of get_samples", "sampler.samples"],
     "oracle: shape, bounds, distinctness and identity of the stored design, per call")
prop("P02", "A design depends only on space, sample count and seed",
     "Drawing a single-fidelity design is reproducible: the same design space, n, seed and skip give bit-identical points whatever was drawn before, on whichever sampler instance, and whatever the state of the global random generator. Different seeds give different designs. The design on [lb, ub] is the unit-cube design of the same seed mapped affinely to the bounds.",
     ["inputs", "histories"],
     "all sequences of draws on one or several sampler instances, all seeds and design spaces",
     "tests call each sampler once; they cannot see state leaking between calls or instances",
     [DOE + "sf_samplers.py"],
     [("seeded generators", DOE + "sf_samplers.py"), ("scale_samples", DOE + "sf_samplers.py")],
     ["return value of get_samples across a call history"],
     "oracle: offline comparison of recorded draws keyed by (space, n, seed, skip)")
prop("P03", "LHS is stratified, Sobol is a low-discrepancy prefix, random is uniform",
     "A Latin hypercube design of n points has exactly one point in each of the n equal slices of every variable. A Sobol design is an initial segment of one sequence: n points are the first n of any longer design with the same seed, skipping k drops exactly the first k points (by default as many as there are variables), and aligned blocks of 2^m points hold one point per dyadic slice of every variable. The random sampler is uniform and independent across variables. The bounds of a single variable may be given flat.",
     ["inputs", "configurations"],
     "all n, dimensions, seeds and skips",
     "the tests compare one small design with stored values; the space-filling structure for other n, d, seeds and skips is never looked at",
     [DOE + "sf_samplers.py"],
     [("scipy.stats.qmc engines and fast_forward", DOE + "sf_samplers.py")],
     ["return value of get_samples"],
     "oracle: slice counts, prefix/suffix relations between recorded designs, Kolmogorov-Smirnov and rank-correlation limits at 1e-9 significance")
prop("P04", "Multi-fidelity designs have the requested counts, bounds and nesting",
     "A multi-fidelity design is a list, highest fidelity first, with the requested number of distinct points per fidelity, each inside the bounds of its own fidelity; a nested design makes every fidelity's points a subset of the next lower fidelity's, and a non-nested Latin hypercube is stratified at every fidelity. The design depends only on the arguments and the seed, it is also kept on the sampler, and the caller's sample-count list and bounds are left unchanged; common bounds may be given once or once per fidelity and mean the same. Counts that decrease towards the lower fidelity are refused.",
     ["inputs", "histories", "configurations"],
     "all numbers of fidelities (1 to 5), counts, shared or per-fidelity design spaces, seeds, nested or not, repeated calls with the same list",
     "tests use two fidelities, one space and one call with a fresh list",
     [DOE + "mf_samplers.py"],
     [("get_samples", DOE + "mf_samplers.py"), ("_mf_samples_rules", DOE + "mf_samplers.py"), ("_get_nested_samples", DOE + "mf_samplers.py")],
     ["return value of get_samples", "the caller's arguments"],
     "oracle: counts, bounds, row-subset relation, stratification, equality with recorded designs, argument snapshots")
prop("P05", "Saved designs and plots show exactly the drawn samples",
     "Saving a drawn single- or multi-fidelity design and loading the file gives back the same arrays. The sampler plots for 1, 2 and 3 variables draw every sample of every fidelity exactly once at its coordinates with one labelled group per fidelity, can be written to the requested file, and leave the design unchanged; samplers that have not drawn anything and dimensions above 3 are refused.",
     ["inputs", "configurations"],
     "all samplers, dimensions, fidelity counts, file names, with and without saving",
     "no test touches saving or the visualization module",
     [DOE + "sf_samplers.py", DOE + "mf_samplers.py", VIS + "samplers_visualization.py"],
     [("save_data", DOE + "sf_samplers.py"), ("plot_samples", VIS + "samplers_visualization.py")],
     ["pickle file content", "artists of the matplotlib figure"],
     "oracle: loaded pickle and offsets of the drawn scatter collections compared with the design; runs in a scratch directory")
# -------------------------------------------------------------- problems ---
prop("P06", "Benchmark problems are pure, row-wise and finite on their domain",
     "Every benchmark objective and constraint, at every fidelity, maps an (n, d) array from its domain (boundary and corners included) to a finite (n, 1) array whose i-th row depends only on the i-th input row, so batching, order, memory layout, integer or float dtype and earlier evaluations do not matter. The input array is never modified. Calling a multi-fidelity problem on [X_hf, X_lf] returns [high fidelity at X_hf, low fidelity at X_lf].",
     ["inputs", "histories"],
     "all 26 problems and their fidelities, all batches of points of the domain including its faces, call histories",
     "tests evaluate two problems at one or two interior points",
     [PRO + "sf_functions.py", PRO + "mf_functions.py", PRO + "sf_cons_functions.py"],
     [("f, hf, lf, f_cons", PRO), ("__call__", PRO + "mf_functions.py")],
     ["return values", "argument arrays"],
     "oracle: metamorphic comparison of batch, permuted, strided, integer and single-row evaluations; argument snapshots")
prop("P07", "Benchmark problems compute their published formulas",
     "At every point of its domain every benchmark objective, constraint and low-fidelity variant equals its published formula (Forrester, Branin, Goldstein-Price, six-hump camel, Sasena, Hartmann 3/6, Ackley, Ackley N.2, Thevenot, Bohachevsky, Booth, borehole, Currin, Himmelblau, Park A/B, the discontinuous, nonlinear-correlation and phase-shifted 1-D pairs and the constrained Branin problems) to rounding accuracy. This includes user-chosen parameters of the parametric problems and any dimension they support.",
     ["inputs", "configurations"],
     "all points of all domains, all fidelities, parameters (a, b, c), (m, beta) and dimensions",
     "tests compare two functions at single points",
     [PRO + "sf_functions.py", PRO + "mf_functions.py", PRO + "sf_cons_functions.py"],
     [("f, hf, lf, f_cons", PRO)],
     ["return values"],
     "oracle: an independent scalar implementation (plain Python math) of every formula")
prop("P08", "Declared optima are attained, feasible and never beaten",
     "For every benchmark problem that declares an optimum, the objective at each declared minimizer equals the declared value to the printed precision, the minimizer lies in the domain and satisfies the constraints to the printed precision, and no feasible point of the domain has a lower objective than the declared value beyond that precision. Problems without a known optimum declare none.",
     ["inputs", "configurations"],
     "all problems and, for parametric problems, dimensions; all points of the domain as challengers",
     "no test looks at the metadata, on which error-based stopping of the optimizers relies",
     [PRO + "sf_functions.py", PRO + "mf_functions.py", PRO + "sf_cons_functions.py"],
     [("optimum, optimum_scheme", PRO), ("__update_parameters", PRO + "sf_functions.py")],
     ["class and instance attributes", "objective values seen by a searching adversary"],
     "oracle: evaluation log of multi-start local and global search against the declared value")
prop("P09", "Problem metadata is consistent and belongs to the instance",
     "A problem's dimension, input domain (one increasing [lower, upper] row per variable, the same bounds as in the table of named variables where there is one), objective and constraint count, optimum and minimizer describe that problem, and stay the same whatever other problems are created or evaluated before or after it. Asking a fixed-dimension problem for another dimension is refused. The cost ratio of problems that take evaluation costs is the rounded ratio of the given costs.",
     ["histories", "configurations"],
     "all problem classes, dimensions, parameters, and orders of creating and evaluating several instances",
     "tests create at most one instance of a class",
     [PRO + "functions.py", PRO + "sf_functions.py", PRO + "mf_functions.py", PRO + "sf_cons_functions.py"],
     [("metadata properties", PRO + "functions.py"), ("is_dim_compatible", PRO)],
     ["public attributes of live instances over a creation history"],
     "oracle: snapshot of every live instance's metadata re-checked after each event of a random creation/evaluation history")
# --------------------------------------------------------- kernels, basis ---
prop("P10", "The RBF kernel is the anisotropic Gaussian correlation it claims to be",
     "The kernel of two point sets is exp(-sum_k theta_k (x_k - y_k)^2) entry by entry, the matrix of a set with itself is symmetric with unit diagonal and positive definite up to rounding, and entries do not depend on which other points are in the sets. Evaluating with explicit log10 parameters equals setting those parameters and evaluating, and does not disturb the stored parameters. Parameter count, list of parameters and per-parameter log bounds are those given at construction, per kernel instance. The Kronecker delta of two point sets marks exactly the pairs of equal rows.",
     ["inputs", "histories"],
     "all dimensions, set sizes, parameters within the bounds, sequences of parameter updates on several kernel objects",
     "no test evaluates the kernel directly",
     [MOD + "kernels.py"],
     [("get_kernel_matrix, __call__, set_params", MOD + "kernels.py")],
     ["return values", "kernel.param and bounds"],
     "oracle: direct pairwise formula, eigenvalues, permutation and sub-matrix relations")
prop("P11", "Basis functions are the complete monomials up to their degree",
     "The constant, linear and quadratic regression bases return for every row the monomials of degree 0, up to 1 and up to 2 of the input, each exactly once, with the constant first, then the linear terms, then the products in order, for any dimension and number of rows, and leave the input unchanged.",
     ["inputs"],
     "all dimensions and batch sizes",
     "tests check one small 2-D batch",
     [MOD + "basis_functions.py"],
     [("Ordinary, Linear, Quadratic", MOD + "basis_functions.py")],
     ["return values"],
     "oracle: monomials built independently with itertools")
# -------------------------------------------------------------------- GP ---
prop("P12", "Gaussian process predictions equal the universal-kriging posterior",
     "For given data, correlation parameters, noise and regression basis, the predicted mean and standard deviation equal the generalized-least-squares universal-kriging mean and the square root of (process variance times the kriging variance including the trend-uncertainty term, plus the noise variance), with inputs scaled by the design space, responses standardized, and the process variance estimated as the mean weighted squared residual. Estimated noise is reported in the units of the response.",
     ["inputs", "configurations"],
     "all data sets, dimensions, design spaces, bases, kernels, noise settings and prediction points",
     "the test compares rounded predictions of one 1-D data set",
     [MOD + "gaussian_process.py"],
     [("train", MOD + "gaussian_process.py"), ("predict", MOD + "gaussian_process.py")],
     ["predict() of a model whose parameters are fixed by a scripted optimizer"],
     "oracle: independent dense reference (explicit linear solves, different factorization)")
prop("P13", "Noise-free surrogates interpolate and report sane uncertainty",
     "With zero noise every surrogate (GP, hierarchical, scaled and co-kriging; for the multi-fidelity ones at high fidelity and, for the low-fidelity predictor, at low fidelity) reproduces its training responses at the training points with a standard deviation of about zero (scaled kriging, whose standard deviation contains that of the low fidelity, at points sampled at both fidelities). With noise the standard deviation is nowhere below the noise. Means and standard deviations are always finite, the latter non-negative, and predictions have one row per point.",
     ["inputs", "configurations"],
     "all data sets with distinct points and non-constant responses, all four surrogates, default and plugged-in hyper-parameter optimizers, all prediction points of the design space",
     "tests check a few rounded predictions away from the data",
     [MOD + "gaussian_process.py", MOD + "hierarchical_kriging.py", MOD + "scale_kriging.py", MOD + "co_kriging.py", MOD + "kernels.py"],
     [("train, predict", MOD), ("kernel nugget", MOD + "kernels.py")],
     ["predict() and predict_lf() at and between training points"],
     "oracle: residual limits derived from the conditioning of the fitted correlation matrix")
prop("P14", "Hyper-parameters are the best of the requested search, inside their bounds",
     "Training adopts parameters inside the kernel's (and noise's and scale factor's) bounds that are locally optimal for the model's likelihood, the best over restart+1 local searches from different starting points. A user-supplied optimizer is used for every search instead, receives the true dimension and bounds, is handed an objective equal to the documented negative log-likelihood of the training data, and its answer is what the model predicts with. The log-likelihood that the trained model reports is that of its parameters.",
     ["inputs", "configurations"],
     "all surrogates, data sets, bounds, restart counts, noise known, zero or unknown, default or user-supplied optimizer",
     "tests only look at final predictions of one data set each",
     [MOD + "gaussian_process.py", MOD + "hierarchical_kriging.py", MOD + "co_kriging.py", MOD + "scale_kriging.py"],
     [("_hyper_paras_optimization / _optHyp", MOD), ("_logLikelihood", MOD)],
     ["arguments of the optimizer", "values of the objective handed to it", "recorded scipy.optimize.minimize calls", "kernel parameters after training"],
     "oracle: independent likelihood, recorded search log, random probing around the adopted optimum")
prop("P15", "Prediction is a pure function of the point",
     "For every trained surrogate a prediction at a point does not depend on the other points of the batch, their order, the memory layout or integer/float type of the array, on whether the standard deviation is requested, on earlier predictions, or on the global random state. Predicting changes neither the query array, nor the model, nor any other model.",
     ["inputs", "histories"],
     "all surrogates (high- and low-fidelity predictors), batches, call histories interleaving several models",
     "tests predict one batch once",
     [MOD + "gaussian_process.py", MOD + "hierarchical_kriging.py", MOD + "scale_kriging.py", MOD + "co_kriging.py", MOD + "kernels.py"],
     [("predict, predict_lf", MOD)],
     ["return values over a call history"],
     "oracle: comparison of all recorded predictions of a point with tolerance from the conditioning of the fit; model noise and parameters snapshotted")
prop("P16", "Training depends only on the data it is given",
     "A trained surrogate depends on the training data, settings and random seed only: retraining a used model equals training a fresh one (also when noise is estimated), the caller's arrays are neither modified nor kept by reference, the responses may be given as a column or, for the Gaussian process, as a flat array, row order does not matter, and training one model does not affect another.",
     ["inputs", "histories"],
     "all surrogates, sequences of trainings on different data, later mutation of the caller's arrays, several models side by side",
     "tests train each model once",
     [MOD + "gaussian_process.py", MOD + "hierarchical_kriging.py", MOD + "scale_kriging.py", MOD + "co_kriging.py", MOD + "mf_gaussian_process.py"],
     [("train, _train_lf, _train_hf", MOD)],
     ["predictions before and after retraining / mutation", "caller arrays"],
     "oracle: differential comparison of training histories under a scripted optimizer")
prop("P17", "Surrogates are equivariant to the units of inputs and responses",
     "Changing the units of the responses by a positive factor and an offset changes predicted means the same way and standard deviations by the factor (noise given in the same units); flipping the sign flips the mean only. Changing the units of a design variable together with its bounds changes nothing, and permuting the design variables with their correlation parameters changes nothing.",
     ["inputs", "configurations"],
     "all surrogates, factors, offsets, affine input changes, variable permutations",
     "tests use one scaling",
     [MOD + "gaussian_process.py", MOD + "hierarchical_kriging.py", MOD + "scale_kriging.py", MOD + "co_kriging.py"],
     [("normalize_input, normalize_output", MOD)],
     ["predictions of paired models"],
     "oracle: metamorphic relation between two trainings with the same scripted correlation parameters")
prop("P18", "Hierarchical kriging equals its two-level kriging posterior",
     "The hierarchical model predicts with the low-fidelity kriging prediction as the trend: its mean and standard deviation equal those of universal kriging of the high-fidelity data whose single regression function is the low-fidelity prediction (both on the standardized high-fidelity scale), with the trend-uncertainty term, plus noise. The low-fidelity predictor is the ordinary kriging of the low-fidelity data alone.",
     ["inputs", "configurations"],
     "all two-fidelity data sets, dimensions, noise settings, correlation parameters",
     "one 1-D data set is compared with rounded stored numbers",
     [MOD + "hierarchical_kriging.py", MOD + "mf_gaussian_process.py"],
     [("_train_hf, predict", MOD + "hierarchical_kriging.py")],
     ["predict() and predict_lf() under a scripted optimizer"],
     "oracle: independent dense reference of both levels")
prop("P19", "Scaled kriging composes scale times low fidelity plus discrepancy",
     "The scaled model predicts scale*low-fidelity mean + discrepancy mean with variance scale^2*low-fidelity variance + discrepancy variance, where the discrepancy model is trained on high-fidelity responses minus scale times the low-fidelity prediction there. The scale is 1 unless optimized; the error method yields the least-squares scale restricted to its bounds, every optimized scale is inside the bounds, and user-supplied low-fidelity or discrepancy models and optimizers are the ones used.",
     ["inputs", "configurations"],
     "all two-fidelity data sets, scale bounds and methods, user-supplied sub-models and optimizers",
     "tests check rounded predictions for one data set",
     [MOD + "scale_kriging.py"],
     [("_rho_optimize, _getDisc, predict", MOD + "scale_kriging.py")],
     ["predict()", "training calls received by recording sub-models", "scale after training"],
     "oracle: composition from the sub-models' own predictions, closed-form clipped least squares, recorded training data of the sub-models")
prop("P20", "Co-kriging equals the autoregressive two-fidelity posterior",
     "The co-kriging mean and standard deviation equal the conditional mean and variance of the Kennedy-O'Hagan model given both data sets: covariance blocks built from scale, low-fidelity process variance and correlation, and difference-process variance and correlation, a common generalized-least-squares mean, and the noise added to the variance; all on the scale of the standardized high-fidelity responses and mapped back. The low-fidelity predictor is the ordinary kriging of the low-fidelity data.",
     ["inputs", "configurations"],
     "all two-fidelity data sets, dimensions, noise settings, scale and correlation parameters",
     "one data set is compared with rounded stored numbers",
     [MOD + "co_kriging.py"],
     [("_update_parameters, predict, predict_lf", MOD + "co_kriging.py")],
     ["predict() and predict_lf() under a scripted optimizer"],
     "oracle: independent dense reference of the joint Gaussian")
prop("P21", "Each fidelity's data is used for that fidelity only, and all of it",
     "In every multi-fidelity surrogate the low-fidelity predictor is determined by the low-fidelity data alone (co-kriging: up to the common scaling), the high-fidelity predictor reacts to every high-fidelity and low-fidelity observation, and the model reports as its samples exactly the high- and low-fidelity points it was trained on. Element 0 of the training lists is the high fidelity and element 1 the low fidelity.",
     ["inputs", "histories"],
     "all surrogates, data sets (nested or not, any counts), single-observation changes",
     "tests train with one fixed data set",
     [MOD + "mf_gaussian_process.py", MOD + "hierarchical_kriging.py", MOD + "scale_kriging.py", MOD + "co_kriging.py"],
     [("train, _train_lf, _train_hf", MOD)],
     ["predictions of models trained on perturbed data", "reported samples"],
     "oracle: differential comparison of trainings that differ in one observation")
# -------------------------------------------------------------------- EA ---
prop("P22", "PSO and DE report an honest, monotone best of what they evaluated",
     "For every objective and run, including early stops, the reported best value is the smallest objective value the optimizer evaluated, the reported best point is a point it evaluated with exactly that value, and the three ways of reporting it agree. The history of bests is non-increasing, starts with the best of the initial population and has one entry per generation that ran; each entry is the best evaluated so far at its recorded point. The step-result file, written only when asked for, holds the same records and settings, and progress is printed once per generation when asked for and otherwise not at all.",
     ["inputs", "histories", "configurations"],
     "all objectives without NaN (plateaus, ties, infinities included), dimensions, populations, generations, strategies, stopping thresholds, repeated runs of one optimizer object",
     "tests check that one sphere run ends near zero",
     [OPT + "evolutionary_algorithms.py"],
     [("generation optimum update", OPT + "evolutionary_algorithms.py"), ("early stop", OPT + "evolutionary_algorithms.py")],
     ["objective evaluations recorded by a wrapper", "returned results"],
     "oracle: offline checker over the recorded evaluation log")
prop("P23", "PSO and DE stay in bounds, in budget, and follow their update rules",
     "Every point evaluated lies in the design space, and a run evaluates population*(generations run + 1) points, passing the extra arguments through on every call; it stops after the first generation whose best is below the stopping threshold and otherwise uses all generations. The recorded populations and responses are the ones evaluated (PSO) or the greedy survivors in which an individual is replaced only by a strictly better trial (DE). A PSO particle moves by its velocity, which is weight times the previous one plus the cognition and social rates times the way to its own and to the swarm's best, cut off at the velocity bound; a DE trial mixes the parent with base + step size * difference of two different members (base: a third one, or the best; all other than the parent and from the whole population, up to rare repetitions), taking at least one coordinate of the mutant and each further one with the crossover rate. Only coordinates that would leave the bounds are re-drawn, and unknown DE strategies are refused.",
     ["inputs", "histories", "configurations"],
     "all objectives, bounds (any sign and scale), populations, generations, strategies, rates, thresholds, extra arguments",
     "tests check one final value",
     [OPT + "evolutionary_algorithms.py"],
     [("_loc_cons", OPT + "evolutionary_algorithms.py"), ("velocity bound", OPT + "evolutionary_algorithms.py"), ("greedy selection", OPT + "evolutionary_algorithms.py")],
     ["objective evaluations recorded by a wrapper", "all_samples / all_responses"],
     "oracle: offline checker over the recorded evaluation log (bounds, counts, survivors, step limits)")
prop("P24", "PSO and DE are reproducible and converge on convex problems",
     "With the same state of the global random generator a run of either optimizer repeats exactly, also when the optimizer object was used before on another problem. Adding a constant to the objective, multiplying it by a positive factor, or stretching the box does not change the search path (other than stretching it). On strictly convex quadratics in 1 to 5 variables with an ample budget both optimizers, with default settings and both differential-evolution strategies, end close to the minimizer wherever it lies in the box.",
     ["inputs", "histories"],
     "all seeds, reuse histories, objectives, quadratics, boxes",
     "tests run one objective without fixing the seed",
     [OPT + "evolutionary_algorithms.py"],
     [("run_optimizer", OPT + "evolutionary_algorithms.py")],
     ["evaluation logs of paired runs", "final best"],
     "oracle: equality of recorded logs; final-error limits calibrated with wide margins over many seeds")
# ----------------------------------------------------------- acquisitions ---
prop("P25", "Single-fidelity acquisitions equal their closed forms pointwise",
     "For every surrogate state and batch of points, the lower confidence bound is kappa0*mean - kappa1*std, the expected and probability of improvement are the (negated) closed forms with respect to the best observed response, and the constrained expected improvement is the (negated) product of expected improvement and the probabilities that every constraint surrogate is at most zero. Values are returned one per point, independent of the rest of the batch, and evaluation changes neither surrogate nor input.",
     ["inputs", "configurations"],
     "all surrogate states, points including training points, batch sizes, kappas, numbers of constraints",
     "tests only run optimizations with two of them",
     [OPT + "sf_uncons_acqusitions.py", OPT + "sf_cons_acqusitions.py"],
     [("eval", OPT)],
     ["eval() against the surrogate's own predictions"],
     "oracle: closed forms from math.erf on the surrogate's predicted mean and standard deviation")
prop("P26", "Multi-fidelity acquisitions equal their closed forms pointwise",
     "For every two-fidelity surrogate state, batch and fidelity: the variable-fidelity lower confidence bound is kappa0*mean - kappa1*std with the queried fidelity's std (low fidelity times the cost ratio); the variable-fidelity expected improvement uses the std that the queried fidelity contributes to the high-fidelity prediction; the augmented expected improvement multiplies expected improvement over the effective best by the fidelity correlation and cost ratio; the extended probability of improvement multiplies the probability of improvement by correlation, cost ratio and sample-density term. Values are pointwise, and unknown fidelities are refused.",
     ["inputs", "configurations"],
     "all surrogate states (hierarchical, scaled, co-kriging), points, cost ratios, both fidelities",
     "tests only run optimizations and check the final value",
     [OPT + "mf_acqusitions.py"],
     [("eval, corr, _effective_best", OPT + "mf_acqusitions.py")],
     ["eval() against the surrogate's own predictions"],
     "oracle: closed forms on the surrogate's predictions")
prop("P27", "Acquisition queries return the optimizer of the acquisition, in bounds",
     "A query returns a point inside the surrogate's design space at which the acquisition is, up to search tolerance, no worse than at any other point of the design space; a multi-fidelity query returns it together with the fidelity whose best acquisition value is lower, preferring the high fidelity on ties. A user-supplied optimizer is used for the search, with the acquisition (and its surrogate arguments) as objective and the design space as bounds, and its answer is returned.",
     ["inputs", "configurations"],
     "all acquisitions, surrogate states, cost ratios, default and user-supplied optimizers",
     "tests do not call query directly",
     [OPT + "sf_uncons_acqusitions.py", OPT + "sf_cons_acqusitions.py", OPT + "mf_acqusitions.py"],
     [("query", OPT)],
     ["return value of query", "calls received by a recording optimizer", "acquisition values at challenger points"],
     "oracle: challenger search (random and local) over the acquisition; recorded optimizer calls")
# --------------------------------------------------------------------- BO ---
prop("P28", "Single-fidelity Bayesian optimization keeps exact books",
     "After the initial design of num_init points in the domain, every iteration evaluates the true objective exactly once, at the point the acquisition proposed, and appends it; the stored samples and responses are exactly the evaluations made, in order, and the surrogate handed to the acquisition is a noise-free one trained on all of them. The record of the initial design stays as it is. The best value and point are the minimum so far, the histories record them once per iteration plus the start, and the returned pair is the final best.",
     ["inputs", "histories"],
     "all problems, acquisitions, initial sizes, budgets, seeds, consecutive runs of one optimizer object",
     "tests check one final value",
     [OPT + "sf_uncons_bo.py"],
     [("run_optimizer, _initialization, _update_para", OPT + "sf_uncons_bo.py")],
     ["recorded objective evaluations", "queries seen by a recording acquisition", "public attributes"],
     "oracle: offline replay of the recorded event log")
prop("P29", "Multi-fidelity Bayesian optimization keeps exact books per fidelity",
     "Every iteration evaluates exactly one fidelity once, at the proposed point and of the proposed fidelity, and appends point and response to that fidelity only; the fidelity order records it. The best value and point are the minimum over high-fidelity evaluations only, the histories record them after every iteration, a noise-free surrogate trained on all data of both fidelities is handed to the acquisition together with the given cost ratio and current best, and the caller's num_init is unchanged.",
     ["inputs", "histories"],
     "all two-fidelity problems, surrogates, acquisitions, initial sizes, budgets, cost ratios, seeds, consecutive runs",
     "tests check one final value",
     [OPT + "mf_uncons_bo.py"],
     [("run_optimizer, _initialization, _update_para", OPT + "mf_uncons_bo.py")],
     ["recorded evaluations per fidelity", "queries seen by a recording acquisition", "public attributes"],
     "oracle: offline replay of the recorded event log")
prop("P30", "Constrained Bayesian optimization only ever reports feasible bests",
     "Every iteration evaluates objective and all constraints exactly once at the proposed point, stores them in order, and retrains the objective surrogate and every constraint surrogate on all of the data. The best value is the smallest objective among samples that satisfy all constraints, the best point is such a sample and never an infeasible one, and while nothing is feasible the best is infinite without a point; histories record this once per iteration plus the start.",
     ["inputs", "histories"],
     "all constrained problems (one or more constraints, feasible or infeasible starts, ties), budgets, seeds",
     "one problem with one constraint, final value only",
     [OPT + "sf_cons_bo.py"],
     [("run_optimizer, _initialization, _update_para", OPT + "sf_cons_bo.py")],
     ["recorded objective and constraint evaluations", "queries seen by a recording acquisition", "public attributes"],
     "oracle: offline replay of the recorded event log")
prop("P31", "Bayesian optimization stops exactly when its criteria say so",
     "Each of the three Bayesian optimizers iterates while fewer than max_iter iterations were made and the error is at least the stopping error, and stops at the first moment either fails: the error is the relative distance of the best to the known optimum, the absolute distance when the optimum is zero, and 1 when it is unknown. No iteration runs when the start already meets the criterion, and each run's budget counts from zero.",
     ["histories", "configurations"],
     "all optima (known, zero, negative, unknown), thresholds, budgets, evaluation histories, consecutive runs",
     "tests run until one threshold",
     [OPT + "sf_uncons_bo.py", OPT + "sf_cons_bo.py", OPT + "mf_uncons_bo.py"],
     [("error update and loop condition", OPT)],
     ["number of recorded queries and evaluations", "sequence of bests"],
     "oracle: recomputation of the stopping decision from the recorded evaluation log")
prop("P32", "Bayesian optimization is reproducible from its seed",
     "Two Bayesian optimizations of the same problem with the same settings and seed make identical evaluations and report identical bests and histories, whatever happened in the process before and however the global random generator was left, whether or not progress is printed. Different seeds give different initial designs.",
     ["histories", "configurations"],
     "all three optimizers, acquisitions, surrogates, seeds, earlier process histories",
     "tests run each configuration once",
     [OPT + "sf_uncons_bo.py", OPT + "sf_cons_bo.py", OPT + "mf_uncons_bo.py"],
     [("np.random.seed(seed)", OPT), ("seeded initial design", OPT)],
     ["recorded evaluation logs of paired runs"],
     "oracle: equality of the recorded logs of paired runs")

prop("P33", "Surrogates become accurate with data and know how accurate they are",
     "Trained with the default search on space-filling samples of smooth responses, the Gaussian process predicts unseen points well, better with more data, and its standardized errors are of the order of one; a two-fidelity surrogate with many low-fidelity samples of a related response predicts the high fidelity better than its high-fidelity data alone would; noise is averaged out, and found when it is estimated. Each holds for the great majority of fits.",
     ["inputs", "histories", "configurations"],
     "all smooth responses, space-filling designs with enough samples, starting points of the search; a statement over many fits",
     "tests fit one function once and look at the shape or two stored digits of the prediction",
     [MOD + "gaussian_process.py", MOD + "hierarchical_kriging.py", MOD + "scale_kriging.py", MOD + "co_kriging.py"],
     [("likelihood search", MOD), ("predict", MOD)],
     ["predictions at fresh points of the domain"],
     "oracle: shares of accurate, improved and calibrated fits against limits far below the typical ones")
prop("P34", "Bayesian optimization closes in on the optimum",
     "A Bayesian optimization of a benchmark problem with a small budget ends, for the great majority of seeds, acquisitions and surrogates, at a (feasible) point better than nearly all of the domain, far closer to the optimum than a random search of the same budget; it is never worse than its initial design and never better than the optimum.",
     ["histories", "configurations"],
     "all seeds, single-fidelity, constrained and multi-fidelity optimizers with their acquisitions and surrogates on the benchmark problems; a statement over many runs",
     "tests run one or two iterations and look at whether something is returned",
     [OPT + "sf_uncons_bo.py", OPT + "sf_cons_bo.py", OPT + "mf_uncons_bo.py"],
     [("run_optimizer", OPT), ("query of the acquisitions", OPT)],
     ["reported best of complete runs"],
     "oracle: share of the feasible domain that is better than the reported best, over all runs, against limits far below the typical ones")
prop("P35", "Data containers and function wrappers are transparent",
     "A multi-fidelity array gives back exactly the levels it was given last, highest fidelity first, with their number and sizes, each container its own. A wrapped user function called with a point is that function called with the point and the given extra arguments (none if there are none), also after pickling.",
     ["inputs", "histories"],
     "all level counts, sizes and argument tuples, any order of creating, replacing and reading",
     "no test touches either",
     ["src/mfpml/core/data.py", PRO + "functions.py"],
     [("mfArray", "src/mfpml/core/data.py"), ("FunctionWrapper.__call__", PRO + "functions.py")],
     ["container attributes", "return value of the wrapper"],
     "oracle: comparison with the bare data and the bare function")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != "note"}
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in P:
        have = os.path.exists(os.path.join(
            ROOT, "harness", "checks", p["id"].lower() + ".py"))
        if have:
            checks.append(dict(
                property=p["id"],
                quick_cmd=f"bash run.sh {p['id']} quick",
                thorough_cmd=f"bash run.sh {p['id']} thorough",
                technique="runtime monitoring: recorded executions judged by "
                          "a reference-model / trace oracle",
                level="exploration",
                level_note="Held on the executions produced, no more. "
                           + p["note"][0].upper() + p["note"][1:]
                           + ". Trusts numpy/scipy and the oracle."))
        else:
            na.append(dict(property=p["id"],
                           reason="check not built yet"))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
             not_applicable=na,
             notes="No hooks in /repo: every event is observed at the public "
                   "boundary (recording problems, objectives, acquisitions, "
                   "optimizers and sub-models).")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
