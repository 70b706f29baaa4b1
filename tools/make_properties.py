"""Writes /verif/properties.jsonl (kept as code so that wording edits stay diffable)."""
import json, os
W = "pyrichlet/weight_models/"
M = "pyrichlet/mixture_models/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


prop("C01", "Weight vectors stay valid and have the requested length over any history",
     "After any sequence of fits, resets, draws, completions and tail requests, the weights of every weighting model are finite, "
     "non-negative and sum to at most one (exactly one for the models with a fixed number of components). A draw of n weights returns n of "
     "them, a draw without a size after fitting covers every fitted group, a completion to n returns at least n, and tail(x), 0<=x<1, "
     "terminates with a total of at least x up to rounding (models with a fixed number of components keep that number, which for a fitted frequency weighting is its number of groups); the returned vector is always the "
     "model's current one, while a draw without size before any fit and a tail outside [0,1) raise ValueError and change nothing.",
     ["histories", "inputs", "configurations"],
     "All ten weighting models, all admissible parameters, all interleavings of fit/reset/random/complete/tail/likelihood/assignment calls.",
     "The tests call random(n) on fresh objects with default parameters and never call tail, complete, fit or reset on a weighting model.",
     [W + "_base.py"] + [W + f for f in ("_dirichlet_process.py", "_pitman_yor_process.py", "_geometric_process.py", "_beta_in_beta.py",
                                         "_beta_in_dirichlet.py", "_beta_bernoulli.py", "_beta_binomial.py", "_dirichlet_distribution.py",
                                         "_equal.py", "_frequency.py")],
     [("random/complete/tail of each model", W)], ["return values of random, complete, tail, get_weights, get_size"],
     [("w", "current truncated weights", W + "_base.py")])

prop("C02", "Completing a weighting structure only appends to the same realization",
     "Completing a drawn weighting structure or asking for its tail keeps every weight already drawn bit for bit and only appends new ones; "
     "asking for no more than is already there changes nothing. Reading weights, normalized or cumulative weights, drawing random "
     "assignments and evaluating log-likelihoods never change the weights already drawn.",
     ["histories", "inputs"],
     "All ten weighting models, prior or posterior draws, all sequences of completions, tail requests and read-only calls between two draws.",
     "No test ever completes a structure after a draw; the guarantee is over call histories.",
     [W + "_base.py", W], [("complete", W), ("tail", W + "_base.py")], ["get_weights before and after each call"])

prop("C03", "Prior draws follow each weighting model's stated prior law",
     "Without fitted data, the weights follow the model's prior exactly: stick-breaking weights whose fractions are independent Beta(1,alpha) "
     "(Dirichlet process), Beta(1-pyd, alpha+j*pyd) for the j-th fraction (Pitman-Yor), one shared Beta(a,b) fraction (geometric), "
     "Beta(1+x/(1-x)p, alpha+x/(1-x)(1-p)) given one p~Beta(a,b) (beta-in-beta; x=0 is the Dirichlet process, x=1 the geometric process with "
     "fraction p), Beta(1,alpha) atoms shared through a Polya urn with concentration a (beta-in-Dirichlet), a chain that keeps the previous "
     "fraction with probability 1-p and otherwise redraws it (beta-Bernoulli), or a chain linked by Binomial(n, previous fraction) counts "
     "(beta-binomial); the Dirichlet distribution gives Dirichlet(alpha) and the equal and unfitted frequency weightings 1/n each. This "
     "holds alike for one draw, for a shorter draw that is then completed, for a fresh structure that is completed or asked for a tail, and after reset.",
     ["inputs", "configurations", "histories"],
     "All models, parameters and ways of obtaining the first several weights; all dependencies between fractions.",
     "The tests compare two moments of two weights at default parameters to one decimal place (tolerance 0.05).",
     [W], [("random/complete", W)], ["get_weights after random/complete/tail"])

prop("C04", "After fitting, draws follow the posterior given the assignments",
     "After fit(d), draws follow the exact posterior of the model's prior given the group labels d: the j-th stick fraction gains the number "
     "of labels equal to j and the number of labels larger than j (shared among tied or linked fractions as the prior says), Dirichlet weights "
     "gain the label counts, the geometric fraction gains len(d) and sum(d), frequency weights are the relative label frequencies, "
     "equal weights stay 1/n, and fractions beyond the largest label follow the prior given the earlier ones. Models updating latent "
     "variables by Markov chain steps have this posterior as limit over repeated draws, this holds alike for weights drawn at once, completed from a shorter draw, or first drawn by a completion or a tail request, a refit replaces the data, labels out of range of "
     "a Dirichlet distribution are refused with ValueError, and "
     "for beta-in-beta with 0<x<1 the fractions follow their conditional posterior given p with p chosen by the configured p_method.",
     ["inputs", "configurations", "histories"],
     "All models, parameters and label vectors (gaps, singletons, one group, large counts), with size absent, shorter or longer than the groups.",
     "No test fits a weighting model directly; the Gibbs tests only check density error to one decimal on one well separated data set.",
     [W], [("random after fit", W)], ["get_weights after fit and random"])

prop("C05", "Log-likelihood reports equal the model's log density",
     "The reported log-likelihood of a drawn weighting structure equals the log density, under the model's prior, of the variables that "
     "generated it (stick fractions, shared fractions and tie pattern, inner parameter or link counts; the Dirichlet density for the Dirichlet "
     "distribution), so nested models agree: Pitman-Yor with pyd=0, beta-in-beta with x=0, beta-Bernoulli with p=1 and beta-binomial with n=0 all "
     "report the Dirichlet process value. The assignment log-likelihood of labels d is the sum of log weights at d, completing the structure when a label is "
     "beyond it and minus infinity when a weight is zero.",
     ["inputs", "configurations", "histories"],
     "All models, parameters, lengths and label vectors, after prior or posterior draws and completions.",
     "No test calls weighting_log_likelihood or assignation_log_likelihood.",
     [W, "pyrichlet/utils/functions.py"], [("weighting_log_likelihood", W), ("assignation_log_likelihood", W + "_base.py")],
     ["return values of the two methods"])

prop("C06", "Random assignments follow the current normalized weights",
     "Normalized weights are the current weights divided by their sum, cumulative normalized weights are their running sums ending at one, and "
     "random_assignment(size) returns size independent labels, each a valid index, with label j drawn with probability equal to the j-th normalized weight "
     "(a single label when size is omitted).",
     ["inputs", "histories"],
     "All models, parameters and truncation lengths, including truncations whose total is well below one.",
     "random_assignment and the normalized weights are not tested at all.",
     [W + "_base.py"], [("random_assignment", W + "_base.py")], ["return values"])

prop("C07", "Gibbs sampling targets the exact Bayesian posterior",
     "For every Bayesian mixture model with explicit priors, long-run Gibbs averages converge to the exact posterior under the model: mixture weights from "
     "the weighting model's prior, independent component means and covariances from the normal inverse-Wishart prior, and Gaussian data given labels. In particular the "
     "averaged co-clustering matrix and the expected a posteriori density (joint or of one coordinate) equal those obtained by enumerating all "
     "partitions of a small data set (for infinitely many components with the truncated mass counted at the prior predictive density), whatever the initialization (groups, method, warm start) and thinning.",
     ["inputs", "configurations", "schedules"],
     "All models and priors (beta-in-beta with x=0 or 1, whose inner parameter has no heuristic update), one to three features, all data sets; checked on data sets small enough to enumerate.",
     "The tests look at one easy one-dimensional data set with two far apart clusters, where nearly any sampler passes.",
     [M + "_base.py", M + "_utils.py", W],
     [("slice Gibbs step", M + "_base.py:_gibbs_step"), ("conjugate update", M + "_utils.py:posterior_norm_invw_params")],
     ["gibbs_eap_affinity_matrix()", "gibbs_eap_density(y, dim)", "sim_params"])

prop("C08", "Saved Gibbs history is complete, self-consistent and immutable",
     "A Gibbs fit of total_iter iterations saves one draw for every subsample_steps-th iteration after burn-in, starting with the first, and a warm start "
     "appends to them. In each saved draw every observation's label indexes an existing weight and component, every weight has a component with a finite mean and a "
     "symmetric positive definite covariance of the data's dimension, and the reported group counts, component counts, step count and affinity matrix are those of the saved draws. Saved draws "
     "never change afterwards, whatever is called later, and neither do the lists, labels and affinities handed out before a later cold fit.",
     ["histories", "configurations", "inputs"],
     "All mixture models, iteration settings, initializations and data; histories of fits, warm starts and queries.",
     "Tests run one fit with default settings and never inspect saved draws.",
     [M + "_base.py"], [("_save_params", M + "_base.py"), ("fit_gibbs loop", M + "_base.py")],
     ["sim_params / get_sim_params", "get_n_groups", "get_n_theta", "total_saved_steps", "gibbs_eap_affinity_matrix()"])

prop("C09", "The MAP state is the most likely state visited",
     "After Gibbs fitting, the maximum a posteriori state used by the MAP density and MAP clustering is a state the chain visited in this fit (initialization included), its reported "
     "log-likelihood equals the data log-likelihood given labels and components plus the log-likelihood of the labels given the weights of that state, and no saved "
     "draw has a larger one. Warm starts only ever improve it; fitting anew forgets it.",
     ["histories", "inputs", "configurations"],
     "All mixture models, data, iteration settings and sequences of cold and warm fits.",
     "Tests only look at the error of the MAP density on one data set.",
     [M + "_base.py"], [("_update_map_params", M + "_base.py"), ("_run_log_likelihood", M + "_base.py")],
     ["map_sim_params", "map_log_likelihood", "gibbs_map_density", "sim_params"])

prop("C10", "Gibbs densities are the average mixture density, its margins and parts",
     "The Gibbs EAP density at any points is the average, over all saved draws or the last `periods` of them, of the Gaussian mixture density with that draw's weights and components, and the "
     "MAP density is that of the MAP state. With `dim` given (an int or a list of coordinates) both are the marginal density of those coordinates at the given points, or at those coordinates of the fitted "
     "data if no points are given; with `component` they are that weighted component alone, so components add up to the whole.",
     ["inputs", "configurations"],
     "All fitted mixtures, one to three features, any number of points including one, any dim/component/periods combination.",
     "Tests evaluate the MAP density at the fitted one-dimensional data only.",
     [M + "_base.py", M + "_utils.py"], [("mixture_density", M + "_utils.py")], ["gibbs_eap_density", "gibbs_map_density"])

prop("C11", "Gibbs clusterings and affinities agree with the fitted draws",
     "gibbs_map_cluster labels every given point by the component of the MAP state with the highest weighted density (labels renumbered 0..k-1 keeping component order) and, with full, reports one minus that component's posterior probability; this holds for a single point, "
     "for points far from all components, and however the points are split over calls (up to renumbering). The affinity of the fitted data is the fraction of saved draws in which two observations share a label, that of new points the fraction of saved draws whose "
     "most probable components coincide; both are symmetric with unit diagonal and values in [0,1]. The spectral consensus returns n_clusters-or-fewer labels, one per point, which recover the blocks when the affinity is exactly block diagonal.",
     ["inputs", "configurations"],
     "All fitted mixtures and all query points, including outliers whose densities underflow.",
     "No test calls any clustering or affinity method.",
     [M + "_base.py", M + "_utils.py"], [("cluster", M + "_utils.py"), ("gibbs_eap_affinity_matrix", M + "_base.py")],
     ["gibbs_map_cluster", "gibbs_eap_affinity_matrix", "gibbs_eap_spectral_consensus_cluster"])

prop("C12", "Seeded runs are reproducible and queries have no side effects",
     "Two objects built with the same parameters and seed and taken through the same calls give bit-identical results, whatever the state of NumPy's global random generator, which is neither "
     "read nor advanced, and whether or not progress is displayed; an int seed n and a Generator seeded with n passed separately to each use give reproducible streams. Density, cluster, affinity and getter "
     "queries of a fitted mixture give the same answer however often and in whatever order they are called, and do not change later fits' saved draws or the other queries' answers.",
     ["histories", "inputs", "configurations"],
     "All weighting and mixture models, both fitting methods, all initializations and interleavings of queries.",
     "Tests never run anything twice.",
     [M + "_base.py", M + "_utils.py", W, "pyrichlet/utils/validators.py"], [("rng_parser", "pyrichlet/utils/validators.py")], ["every public result"])

prop("C13", "Cold fits start over and warm starts continue",
     "Fitting an already used mixture again without warm_start (same or different data, number of features, or fitting method before) leaves it as a fresh object given the same random stream would be: same priors taken from the "
     "new data when none were given, no saved draws, MAP state, convergence flag or fitted weights left over. A fit of n iterations followed by a warm start of m more gives exactly the draws, variational parameters and queries of one fit of n+m iterations "
     "when burn-in and thinning line up.",
     ["histories", "inputs", "configurations"],
     "All mixture models; all pairs of data sets and sequences of fit_gibbs/fit_variational with and without warm start.",
     "Every test fits a fresh object exactly once.",
     [M + "_base.py"], [("_initialize_common_params", M + "_base.py"), ("_initialize_gibbs_params", M + "_base.py")],
     ["sim_params, var_d, var_theta, queries after refits"],
     [("mu_prior, psi_prior, nu_prior", "data dependent default priors", M + "_base.py")])

prop("C14", "Equivalent representations of the data give identical results, untouched",
     "Lists, arrays, data frames and (for one feature) one-dimensional lists, arrays and series holding the same numbers give identical fits and query answers, column names are taken from frames and series, a scalar query point equals a one-point array, and memory "
     "layout, strides, index labels and read-only flags are irrelevant. No call modifies the arrays, frames, label vectors or prior parameters passed by the caller, and modifying them after the call has no effect on the "
     "fitted object. Other types raise TypeError.",
     ["inputs", "configurations"],
     "All mixture models, both fitting methods, all queries and all accepted containers.",
     "Tests only ever pass one one-dimensional float array.",
     [M + "_base.py"], [("_initialize_common_params", M + "_base.py"), ("_cast_observations", M + "_base.py")], ["fit_*, query results, the caller's objects"])

prop("C15", "Unfitted objects and invalid arguments are refused",
     "Every Gibbs query raises NotFittedError until a Gibbs fit has completed and every variational query until a variational fit has, independently of the other method, and the variational expectations of weighting models that need a fit do so too. Burn-in not below the iteration count, a Pitman-Yor alpha not "
     "above -pyd, unknown p-methods, unknown initialization methods, invalid random generators, completions to (and, for models without a fixed size, draws of) a non-integer number of weights, a missing number of groups, and a "
     "variational distribution of the wrong number of groups for a Dirichlet distribution are refused with an exception; valid boundary values are accepted.",
     ["inputs", "histories", "configurations"],
     "All mixture and weighting models, all queries, all orders of fits and failed fits.",
     "Tests only make valid calls after a successful fit.",
     [M + "_base.py", W, "pyrichlet/utils/validators.py", "pyrichlet/exceptions.py"], [("fitted flags and argument checks", M + "_base.py")], ["exceptions raised"])

prop("C16", "Results do not depend on the units or origin of the data",
     "With default (data driven) priors, or with priors transformed alike, multiplying the data by a power of two or shifting it gives, for the same seed, the same labels, weights, groups, "
     "affinities, clusterings and responsibilities, means and covariances transformed accordingly, and densities divided by the volume change; permuting the features of the data permutes variational results, and reordering the observations permutes those of the randomly initialized variational fit.",
     ["inputs", "configurations"],
     "All mixture models and both fitting methods; all data sets, scales, shifts, feature and observation permutations.",
     "A single fixed data set cannot exhibit a relation between two runs.",
     [M + "_base.py", M + "_utils.py", "pyrichlet/utils/functions.py"], [("data driven priors", M + "_base.py:_initialize_common_params")], ["fit and query results on both data sets"])

prop("C17", "Variational weight factors are optimal and their expectations exact",
     "For the models with variational inference, fitting to a responsibility matrix sets the weight distribution to the exact coordinate optimum (Dirichlet counts; stick fractions with own and later expected counts, the Dirichlet process's last fraction being one; one geometric fraction with the "
     "number of observations and expected label sum; relative expected frequencies, equal when there are no observations; equal weights), also for zero observations. The reported means of log w_j, w_j, log p(d|w), log p(w) and log q(w) are the exact expectations under it for every component j, the reported mode of w_j is built from the modes of the fractions, the mean and mode of every component beyond the fitted groups are zero, and asking "
     "for them changes nothing.",
     ["inputs", "configurations"],
     "All six models with variational inference, all parameters and all column-stochastic matrices, including for p(d|w) a matrix other than the fitted one.",
     "The tests only look at convergence flags and one density; none of these functions is called directly.",
     [W + f for f in ("_dirichlet_distribution.py", "_dirichlet_process.py", "_pitman_yor_process.py", "_geometric_process.py", "_equal.py", "_frequency.py")],
     [("fit_variational and variational_* methods", W)], ["variational_params and the variational_* methods"])

prop("C18", "Variational fits ascend the evidence bound to mean-field optima",
     "Every variational iteration sets the responsibilities, weight factor and normal-Wishart factors to their exact coordinate optima in turn, starting from a k-means partition or from prior atoms, so responsibilities stay positive with columns summing to one, precisions stay symmetric positive definite, "
     "the evidence lower bound never decreases (Bayesian weight models), never exceeds the log evidence, and at convergence all three factors are mutually consistent.",
     ["inputs", "configurations", "histories"],
     "All variational mixtures, one to three features, all data, priors, group counts and initializations, after every number of iterations.",
     "The tests check one one-dimensional data set's convergence flag and density to one decimal; multi-feature fits are never run.",
     [M + "_base.py", M + "_utils.py", W], [("_maximize_variational", M + "_base.py")], ["var_d, var_theta, weight model's variational_params after k iterations"],
     [("var_d, var_theta", "responsibilities; mean, lambda, precision scale matrix and degrees of freedom", M + "_base.py")])

prop("C19", "Variational fitting stops by the evidence bound and reports convergence",
     "A variational fit runs until the evidence lower bound (recomputed from scratch after each iteration) changes by no more than tol, or for total_iter iterations, whichever is first; var_converged is true exactly when the former happened before the limit, and describes the latest fit. Larger tolerances never take more iterations.",
     ["inputs", "configurations", "histories"],
     "All variational mixtures, data, tolerances and iteration limits.",
     "Tests check that the flag is true in six default runs.",
     [M + "_base.py", M + "_utils.py", W], [("fit_variational loop", M + "_base.py"), ("_calc_elbo", M + "_base.py")], ["var_converged", "final var_d compared with step-by-step runs"])

prop("C20", "Variational densities are the fitted predictive, its margins and parts",
     "The variational EAP density is the mixture of multivariate Student-t predictive densities of the normal-Wishart factors weighted by the expected weights, so it integrates to their total; the variational MAP density is the Gaussian mixture at the modal parameters and modal weights. With `dim` (an int or list of coordinates) the "
     "EAP density is the true marginal predictive of those coordinates and the MAP density the Gaussian marginal of the modal mixture, evaluated at the given points or those coordinates of the fitted data; with `component` only that weighted component, so components add up.",
     ["inputs", "configurations"],
     "All variational mixtures, one to three features, any points, dim and component.",
     "Tests evaluate the EAP density of one-dimensional fits at the data to one decimal; determinants, margins and the MAP density are never exercised.",
     [M + "_base.py", "pyrichlet/utils/functions.py"], [("density_students_t, density_normal", "pyrichlet/utils/functions.py")], ["var_eap_density", "var_map_density"])

prop("C21", "Variational clusterings and affinities agree with the fitted factors",
     "var_map_cluster assigns each point to the component of highest responsibility (the stored ones for the fitted data, the same coordinate-optimal formula for new points) and with full reports one minus that responsibility; the affinity of two points is the inner product of their responsibilities. Both give the same for the "
     "converged data passed explicitly as for the default, for any container, for one point, for points far away, and however the points are split over calls; the affinity is symmetric with values in [0,1], and the spectral consensus returns one label per point, recovering the blocks of an affinity that is numerically block diagonal.",
     ["inputs", "configurations"],
     "All variational mixtures and query points.",
     "No test calls these methods.",
     [M + "_base.py"], [("var_map_cluster, var_eap_affinity_matrix", M + "_base.py")], ["var_map_cluster", "var_eap_affinity_matrix", "var_eap_spectral_consensus_cluster"])

prop("C22", "Sampling and conjugacy primitives are exact",
     "Normal inverse-Wishart posterior parameters are the same for data given at once, in any order or batch by batch, and satisfy Bayes' rule against the prior density; normal inverse-Wishart draws follow their density. Gumbel-max sampling draws each index with probability proportional to exp(logp), per "
     "column for matrices and never one with logp minus infinity; rejection sampling draws from the normalized target, alike for scalar and vector requests; the size-biased k-means initialization returns a partition with labels 0..k-1 in order of non-increasing size.",
     ["inputs", "configurations"],
     "All dimensions, parameters, data sets, log-probability vectors or matrices and bounded target densities.",
     "No test calls these helpers.",
     [M + "_utils.py"], [("random_normal_invw, posterior_norm_invw_params, gumbel_max_sampling, rejection_sample, kmeans_cluster_size_biased", M + "_utils.py")], ["return values"])

prop("C23", "The MAP pair plot shows the fitted data, clusters and densities",
     "After a Gibbs fit, gibbs_map_pairplot draws on one new figure a panel for every ordered pair of features, labelled with the column names (positions for arrays): off the diagonal the fitted data coloured by "
     "MAP cluster (ten or fewer clusters have distinct colours) with the 95% contour of each cluster's component of the MAP state in the cluster's colour, on the diagonal the MAP marginal density over at least the range of the data "
     "with the weighted component of each cluster in its colour. This holds for any number of features and clusters; drawing changes neither the fitted object nor later fits, and before any Gibbs fit it raises NotFittedError.",
     ["inputs", "configurations", "histories"],
     "All fitted mixtures, one to four features, one to fourteen clusters, arrays and data frames.",
     "No test draws the plot.",
     [M + "_base.py", M + "_utils.py"], [("gibbs_map_pairplot", M + "_base.py")], ["artists of matplotlib's current figure"])

prop("C24", "Distribution helpers equal the distributions they are named after",
     "The helper functions return the exact log densities of beta, binomial and beta-binomial distributions and of the normal inverse-Wishart, the log probability of a partition with given block sizes under the Dirichlet process "
     "(independent of the order of the blocks, summing to one over all partitions), the expected log of a beta variable, the multivariate normal and Student-t densities with given precision, and the log normalization constant, expected "
     "log determinant and entropy of the Wishart distribution. This holds for scalars, vectors, any dimension and all parameters inside the support, and the arguments are not modified.",
     ["inputs"],
     "All admissible parameters and points, dimensions one to four.",
     "No test calls the helpers; they enter likelihoods and bounds whose values the tests never check.",
     ["pyrichlet/utils/functions.py", M + "_utils.py"], [("utils.functions", "pyrichlet/utils/functions.py"), ("Wishart and normal inverse-Wishart helpers", M + "_utils.py")], ["return values"])

prop("C25", "Objects are independent of each other and of their copies",
     "What a weighting model or mixture returns depends only on its own parameters, generator and calls: interleaving calls to any other objects, of the same class or not and sharing the data and prior arrays passed, changes nothing. "
     "A deep copy or a pickled and restored copy of an object in any state continues exactly as the original would have, and using one of them never affects the other.",
     ["histories", "schedules", "configurations"],
     "All weighting and mixture models, pairs of histories and ways of merging them, and every point of a history at which a copy is made.",
     "Tests use one object at a time and never copy one.",
     [M + "_base.py", W], [("object state", M + "_base.py"), ("object state", W + "_base.py")], ["every public result"])

prop("C26", "Gibbs and variational results of one object do not disturb each other",
     "A fit of a mixture by one method (Gibbs or variational), cold or warm, to the same or other data of any number of observations and features, leaves every result of the last fit by the other method as it was: "
     "stored states, densities, clusters, affinities and the pair plot, including the queries which default to the data used at fitting, and whether the object counts as fitted (only initializing a Gibbs fit by the variational method replaces the variational fit). "
     "A later warm start of the other method goes on from its own state as if the fit in between had not happened, given the same priors. In the weighting models, draws of the weights and variational fits do not influence each other either.",
     ["histories", "configurations", "inputs"],
     "All mixtures and weighting models with a variational method, and histories mixing both methods on equal and different data.",
     "Tests fit each object by one method, or by both to the same data without looking at the first again.",
     [M + "_base.py", W], [("fitted state of both methods", M + "_base.py"), ("draws and variational parameters", W + "_base.py")], ["every query and getter of the method not being fitted"])

prop("C27", "Interrupted, failed and refused calls leave no traces",
     "When a fit of a mixture breaks off, by an interruption at any point, a failure of what it calls, unusable data or an invalid option, every query of that method answers as before or raises NotFittedError (never a mixture of old and new), "
     "and the other method's answers are as before. A broken warm start keeps the draws saved before, in agreement with the reported counts and affinity, and can be resumed; a later cold fit is exactly that of a fresh object. "
     "Likewise a weighting model whose draw, completion or fit broke off is, after a reset, as a fresh one, and refused calls and queries (wrong types, sizes, components, tails) change no later result.",
     ["crash_points", "histories", "inputs"],
     "Every line and every use of the generator at which a fit or draw can break, all models, cold and warm, and histories with refused calls anywhere.",
     "Tests never break off a call; the number of break points grows with the fit.",
     [M + "_base.py", W], [("fit_gibbs, fit_variational", M + "_base.py"), ("draws and completions", W + "_base.py")], ["every query after the broken call", "later fits and draws"])

prop("C28", "Parameters and documented defaults take effect however they are passed",
     "Leaving out a constructor option or method argument is the same as passing its documented default (priors centred at the sample mean with the sample covariance and as many degrees of freedom as dimensions, lambda_prior 1, 1000 iterations with 100 discarded and every one saved, "
     "k-means starts, tolerance 1e-8, all dimensions, all components, all saved draws, one cluster; unit parameters of the weighting models), and passing an option by position, by name or as a whole number of another type changes nothing. "
     "A mixture is built on the weighting model of its name with exactly the parameters given, drawing from the generator given.",
     ["inputs", "configurations"],
     "All mixtures and weighting models, every subset of options left out, all parameter values and data.",
     "Tests build each model in one way and compare nothing.",
     [M, W], [("constructors", M), ("constructors", W), ("signatures of fits and queries", M + "_base.py")], ["constructors", "fits and queries of the objects built"])

prop("C29", "The packaged data sets load as their files say",
     "load_chaetocnema and load_penguins return, for every complete row of the packaged file and in its order, the measured features under their names together with the species label of that same row, leaving out rows with missing measurements; "
     "each call returns objects of its own, whatever was done to earlier results.",
     ["inputs", "histories"],
     "The packaged files, files of the same columns with any rows and missing values, and any sequence of loads and overwritten results.",
     "No test calls the loaders.",
     ["pyrichlet/utils/_loaders.py", "pyrichlet/utils/_data"], [("load_chaetocnema, load_penguins", "pyrichlet/utils/_loaders.py")], ["load_chaetocnema", "load_penguins"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
