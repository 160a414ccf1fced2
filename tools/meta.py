"""Single source of properties.jsonl and MANIFEST.json (run: python tools/gen.py)."""

PROPS = {}
NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, level_note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    PROPS[id] = dict(
        line={
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": a,
        },
        note=level_note,
    )


D = "preliz/distributions/"

prop(
    "P01",
    "Alternative parametrizations describe the same distribution",
    "Building a distribution from any of its documented alternative parameter sets (mean and standard deviation, precision, rate, odds, ...) yields exactly the distribution whose canonical parameters satisfy the documented conversion formula. "
    "The user's own names and values are kept as the visible parameters, and converting canonical values back gives the values supplied.",
    ["inputs", "configurations"],
    "for every family with alternative parameters, every alternative parameter set, and every admissible value of those parameters",
    "Tests convert a handful of numeric points per family; an error in a branch of the conversion or only visible for unusual values (e.g. concentration below one) is not sampled.",
    [D, "preliz/internal/distribution_helper.py"],
    [("per-family conversion functions", D + "beta.py:_from_mu_sigma and the like"), ("from_precision/to_precision", "preliz/internal/distribution_helper.py")],
    "Bounded symbolic execution of every constructor path; the solver shows the documented relation holds for all real parameter values in the stated box.",
    observe=["attributes, params, param_names, params_dict of the constructed distribution"],
)

prop(
    "P02",
    "A distribution's visible state always describes one and the same law",
    "After any sequence of construction, re-parametrization and refitting, the parameter attributes, the parameter tuple, the parameter names, the name-to-value mapping and the support all describe the same law, with alternative parameters consistent with canonical ones. "
    "No value from an earlier step survives, and a refitted distribution is fully defined in the parametrization the user chose.",
    ["inputs", "histories"],
    "for every family and parametrization, all pairs of successive parameter values (histories of construct, update, update) with arbitrary admissible values",
    "Tests construct fresh objects; stale attributes after a second update need a history of two steps with different values.",
    [D],
    [("_parametrization/_update of each family", D + "*.py"), ("params_dict, support", D + "distributions.py")],
    "Every family and parametrization is driven through construct/update histories with symbolic values; histories up to length 3.",
    state=[("params", "current values in the user's parametrization", D + "distributions.py"), ("is_frozen", "whether all parameters are defined", D + "distributions.py")],
    observe=["params, param_names, params_dict, support, attributes"],
)

prop(
    "P03",
    "Partial and mixed parameters are completed, left open or rejected consistently",
    "For every subset of constructor arguments, construction either gives a distribution that has exactly the supplied parameters fixed and the rest open, or raises a clear ValueError/TypeError for an incompatible mix; nothing is silently dropped or swapped. "
    "A distribution is marked as defined exactly when every one of its parameters has a value, and scalars and arrays are treated alike.",
    ["inputs", "configurations"],
    "for every family, every subset of its constructor arguments, scalar or array valued, with arbitrary admissible values",
    "There are hundreds of argument subsets; tests exercise the complete ones.",
    [D],
    [("_parametrization of each family", D + "*.py"), ("any_not_none/all_not_none", "preliz/internal/distribution_helper.py")],
    "All argument subsets enumerated as separate harness cases; values symbolic.",
    observe=["is_frozen, params, param_names after construction with a subset of arguments"],
)

prop(
    "P04",
    "Every query answers for this family at its current parameters",
    "Density, distribution function, quantiles, survival functions and their logarithms, moments, entropy, L-moments and random draws of a distribution are those of its own family evaluated at its current canonical parameters, each in its own role, whatever parametrization it was built with. "
    "This stays true after the distribution is given new parameters, for scalar and vector arguments, and values outside the support get the documented answers.",
    ["inputs", "histories"],
    "for every family and parametrization, all admissible parameters, evaluation points and probabilities, before and after an update",
    "Tests compare each family with SciPy at one parameter point, where swapped or stale parameters can coincide or not be exercised at all through alternative parametrizations.",
    [D],
    [("per-family pdf/cdf/ppf/... delegating to the numerical library", D + "*.py"), ("sf, isf, moments, ...", D + "distributions.py")],
    "The numerical library is replaced by uninterpreted functions of its named arguments; the solver shows every query equals that function at the right arguments.",
    observe=["return values of pdf, cdf, ppf, logpdf, sf, isf, mean, ... , rvs"],
)

prop(
    "P07",
    "A truncated distribution is its base law conditioned on the interval",
    "Truncating a distribution to an interval yields the base law conditioned on that (closed) interval: density, distribution function, quantiles, mean, variance, skewness, kurtosis, draws, support and visible parameters are those of the conditional law. "
    "This includes discrete bases whose bounds are inclusive, non-integer, infinite or absent, and points or probabilities outside the valid range get zero density, 0/1 or no value.",
    ["inputs", "configurations"],
    "for every base law, every pair of bounds, every evaluation point and every probability",
    "Tests use two base families with one or two bounds; the off-by-one handling of discrete lower bounds needs all alignments of bounds and atoms.",
    [D + "truncated.py", "preliz/internal/distribution_helper.py"],
    [("Truncated.*", D + "truncated.py"), ("adjust_lower", D + "truncated.py"), ("num_skewness/num_kurtosis", "preliz/internal/distribution_helper.py")],
    "The base is an arbitrary finite law (all weights symbolic) or an arbitrary piecewise-constant density; the solver compares with the conditional law computed independently.",
    observe=["pdf, logpdf, cdf, sf, ppf, isf, median, mode, mean, var, std, skewness, kurtosis, rvs, support, params"],
)


prop(
    "P08",
    "A censored distribution is its base law with values clipped to the interval",
    "Censoring a distribution at two points yields the law of the base variable with values below the lower point replaced by it and values above the upper point replaced by it: mass or density, distribution and survival function, quantiles, mean, variance, skewness, kurtosis, mode, draws, support and visible parameters agree with that law. "
    "Either point may be absent or infinite; for discrete bases the points are integers, and the entropy of a discrete censored law is that of its probabilities.",
    ["inputs", "configurations"],
    "for every base law, every pair of censoring points, every evaluation point and every probability",
    "Tests use one or two bases with two censoring points; what happens at, just inside and outside the points depends on their alignment with the base law.",
    [D + "censored.py", D + "distributions.py"],
    [("Censored.*", D + "censored.py")],
    "The base is an arbitrary finite law or an arbitrary piecewise-constant density; the solver compares with the clipped law computed independently.",
    observe=["pdf, logpdf, cdf, sf, ppf, isf, median, mode, mean, var, std, skewness, kurtosis, entropy, rvs, support, params"],
)

prop(
    "P09",
    "A hurdle distribution is zero or a positive draw of its base law",
    "A hurdle distribution puts the complement of psi at zero and spreads psi over the base law conditioned on positive values: mass or density, distribution and survival function, quantiles, mean, variance, draws, support and visible parameters agree with that law. "
    "Queries take scalars, lists and arrays alike, the distribution is defined only once psi is given, and fitting by moments keeps the given psi.",
    ["inputs", "configurations"],
    "for every non-negative base law, every psi in (0, 1], every evaluation point and every probability",
    "Tests use one or two bases and one psi; errors at zero, below zero, at psi equal to one or for a base without mass at zero are not sampled.",
    [D + "hurdle.py", D + "distributions.py"],
    [("Hurdle.*", D + "hurdle.py")],
    "The base is an arbitrary finite law or an arbitrary piecewise-constant density on the non-negative axis; the solver compares with the hurdle law computed independently.",
    observe=["pdf, logpdf, cdf, sf, ppf, isf, median, mean, var, std, rvs, support, params, is_frozen"],
)


prop(
    "P10",
    "A mixture is the weighted sum of its components",
    "A mixture has density or mass, distribution and survival function, mean, variance, higher moments and discrete entropy equal to those of the weighted sum of its components with weights normalised to one; its quantiles invert its distribution function, on whole numbers when the components are discrete. "
    "Draws have the requested shape and each comes from the component selected for it with the normalised weights; support, parameters and their supports cover all components, also after fitting by moments.",
    ["inputs", "configurations"],
    "for every set of components of one kind (overlapping, nested or far apart), every positive weights, every evaluation point, probability and outcome of the component choice",
    "Tests compare moments of two mixtures with samples; off-support quantiles, far-apart components, unnormalised weights and the order of draws are not looked at.",
    [D + "mixture.py", "preliz/internal/optimization.py"],
    [("Mixture.*", D + "mixture.py"), ("find_ppf, _ppf_single", "preliz/internal/optimization.py")],
    "Components are arbitrary finite laws or piecewise-constant densities; the root finder is replaced by its contract, so the answer holds for every root it may return.",
    observe=["pdf, logpdf, cdf, sf, ppf, isf, median, mean, var, std, skewness, kurtosis, entropy, rvs, support, params, weights"],
)

prop(
    "P11",
    "Credible intervals hold the requested mass and are as short as promised",
    "An equal-tailed interval has the requested tail probability on each side (for discrete laws at most that much, with no needless widening), and a highest-density interval contains at least the requested mass, lies in the support and is not longer than any interval that also has it (for discrete laws: when unimodal). "
    "A summary reports mean, median, deviation and the interval asked for, requests on undefined laws are refused and leave the law unchanged.",
    ["inputs", "configurations"],
    "for every law (any discrete or piecewise-constant law, censored at any points), every requested mass and every competing interval",
    "Tests compare a few intervals of smooth laws with ArviZ; minimality against all competing intervals, masses at censoring points and asymmetric laws need a quantifier over intervals.",
    [D + "distributions.py", "preliz/internal/optimization.py", D + "censored.py", D + "vonmises.py"],
    [("eti, hdi, summary", D + "distributions.py"), ("find_hdi, discrete_hdi, continuous_hdi, censored_hdi", "preliz/internal/optimization.py")],
    "The competing interval is a symbolic variable; the numeric minimiser is replaced by its contract (a feasible point no worse than any other).",
    observe=["eti, hdi, summary, is_frozen, params"],
)

prop(
    "P05",
    "Fits by moments give the mean and standard deviation asked for",
    "Fitting a family to a mean and a standard deviation (_fit_moments, the start of every optimisation) leaves a complete law with those moments: exactly for families with a closed form and two parameters, the mean alone for one-parameter families on the positive or unit range, the deviation alone for the half families and for Rice laws closer to zero than a Rayleigh law, and the enclosing whole numbers for DiscreteUniform. "
    "Known degrees of freedom, the bounds of BetaScaled, Truncated and Censored laws and psi of Hurdle laws are kept; families without a closed form minimise the distance to both moments over all the free parameters.",
    ["inputs"],
    "for every mean and standard deviation in the stated boxes, whatever the law held before (nothing, any parameters, an alternative parametrization)",
    "Tests fit each family to one law of its own with a tolerance of some percent; other moments, laws already defined and modified laws are never fitted.",
    [D, "preliz/internal/optimization.py"],
    [("_fit_moments of each family and modifier", D + "*.py"), ("optimize_mean_sigma, optimize_moments_rice", "preliz/internal/optimization.py"), ("garcia_approximation", "preliz/internal/special.py")],
    "Requested moments are symbolic; the documented mean and variance of the parameters found are compared with them exactly, the gamma and Bessel functions being uninterpreted.",
    observe=["params, mean(), std(), is_frozen after _fit_moments"],
)

prop(
    "P06",
    "Maximum likelihood fits are valid and maximise the likelihood",
    "Fitting a family to a sample leaves a complete, valid law. Closed-form fits reach a likelihood no other admissible parameters exceed; the approximate closed forms (Binomial, Triangular, ExGaussian) give valid laws that allow the observed values and match the sample mean wherever the family can. "
    "Iterative fits minimise the true negative log-likelihood of the sample over the whole declared parameter space and adopt the optimum.",
    ["inputs"],
    "for every sample of the family's kind (two to four values), every rival parameter vector, and every optimum the numerical optimiser may return",
    "Tests recover parameters from large simulated samples within wide tolerances; small, constant, very skewed or one-sided samples and the exact optimum are never looked at.",
    [D, "preliz/internal/optimization.py"],
    [("_fit_mle of each family", D + "*.py"), ("optimize_ml", "preliz/internal/optimization.py"), ("nb_fit_mle", D + "binomial.py, " + D + "laplace.py")],
    "Symbolic samples and rivals; the inequality log t <= t - 1 is supplied, densities of iterative families are uninterpreted and the optimiser is replaced by its contract.",
    observe=["params, params_dict, is_frozen, logpdf after mle"],
)

prop(
    "P16",
    "mle ranks candidates by the small-sample corrected criterion",
    "mle fits every candidate whose support contains the whole sample exactly once and in place, leaves the others unfitted and ranks them last, and orders the candidates from best to worst by negative log-likelihood plus k + k(k+1)/(n-k-1), unlimited when n <= k+1. "
    "Rows of a two-dimensional sample are fitted separately, giving one parameter value per row; a warning is given when nothing could be fitted.",
    ["inputs", "configurations"],
    "for every log-likelihood value of every candidate, every support, numbers of parameters 1 to 4 and sample sizes 2 to 40",
    "Tests rank two or three families on one large sample where the penalty hardly matters; ties, small samples, mixed supports and rows are not explored.",
    ["preliz/unidimensional/mle.py", "preliz/internal/optimization.py", D + "distributions.py"],
    [("mle", "preliz/unidimensional/mle.py"), ("fit_to_sample, get_penalization, Loss", "preliz/internal/optimization.py"), ("_check_endpoints", D + "distributions.py")],
    "Candidates are arbitrary laws with symbolic log-densities; the ranking is compared with an independent statement of the criterion on every order.",
    observe=["returned order, parameters of each candidate, warnings"],
)

prop(
    "P17",
    "Matching reproduces the requested moments or quantiles of the target",
    "match_moments and match_quantiles minimise, over the free parameters only, the sum of squared differences between exactly the requested moments (mean, variance, standard deviation, skewness, excess kurtosis, in the requested order) or quantiles of the law being fitted and of the target law or sample. "
    "The given law is completed in place keeping its fixed parameters, a warning is given when the relative mismatch exceeds the tolerance, and incomplete targets, unknown moments, levels outside (0, 1) and moments that are not finite raise ValueError.",
    ["inputs", "configurations"],
    "for any target law or sample, any family, every subset of fixed parameters, every request of moments or levels and every outcome of the optimiser",
    "Tests match four pairs of families with the default request; order of moments, samples, infinite moments and fixed parameters of most families are not explored.",
    ["preliz/unidimensional/matching.py", "preliz/internal/optimization.py", D + "distributions.py"],
    [("match_moments, match_quantiles", "preliz/unidimensional/matching.py"), ("optimize_moments, optimize_quantiles, get_params", "preliz/internal/optimization.py"), ("moments", D + "distributions.py")],
    "Families and targets are uninterpreted, the optimiser is replaced by its contract (no rival point has a smaller objective); the independent statement of the distance is compared for every value.",
    observe=["returned law, its parameters, opt, warnings, exceptions"],
)

prop(
    "P18",
    "Elicited laws honour the requested mass or quartiles and the fixed parameters",
    "maxent returns the given law, completed in place, with the requested probability inside the interval (and the requested statistic), fixed parameters unchanged, and entropy not smaller than any other law of the family that meets the request; among several optimisation results one that meets the request is preferred. "
    "quartile minimises the squared distance to the three quartiles in the same way. A mass that is not reached gives a warning; impossible masses, intervals, quartiles, statistics and fully fixed laws raise ValueError and nothing is fitted.",
    ["inputs", "configurations"],
    "for any family, continuous or discrete, every subset of fixed parameters, every interval, mass, quartiles and every outcome of the optimiser that satisfies its contract",
    "Tests elicit each family once for one interval; which of several candidates is kept, the lower end of discrete intervals and combined constraints need other inputs.",
    ["preliz/unidimensional/maxent.py", "preliz/unidimensional/quartile.py", "preliz/internal/optimization.py", D],
    [("maxent", "preliz/unidimensional/maxent.py"), ("quartile", "preliz/unidimensional/quartile.py"), ("optimize_max_ent, optimize_quartile, get_params, relative_error", "preliz/internal/optimization.py"), ("_check_endpoints", D + "distributions.py")],
    "Families are uninterpreted functions of the parameters, so the result covers any family; scipy's optimisers are replaced by their contract; every real family is then driven with each parameter fixed.",
    observe=["returned law, its parameters, opt, warnings, exceptions"],
)

prop(
    "P19",
    "The predictive assistant offers, selects and fits the right samples",
    "Every prior predictive sample inside the boundaries is offered at most once and, round after round, eventually offered; the order follows the distances asked for (farthest first, nearest to the target, or nearest to the last one after a selection), and the selection only grows, by samples that are near and inside the boundaries. "
    "The priors that are returned are fitted, variable by variable, to exactly those prior draws that produced the selected predictive samples.",
    ["inputs", "histories"],
    "for every assignment of distances between samples, every boundaries, every click and rounds of offering",
    "Tests run the assistant once on one seed with thousands of draws, so exhaustion, targets with boundaries and mismatched draws never occur.",
    ["preliz/predictive/ppa.py", "preliz/internal/predictive_helper.py", "preliz/ppls/agnostic.py"],
    [("FilterDistribution", "preliz/predictive/ppa.py"), ("back_fitting_ppa, select_prior_samples", "preliz/internal/predictive_helper.py"), ("get_prior_pp_samples", "preliz/ppls/agnostic.py")],
    "The real assistant runs over an index that may return any ranking (symbolic distances), symbolic samples and boundaries; plotting is replaced by stand-ins.",
    state=[("shown", "samples already offered", "preliz/predictive/ppa.py"), ("selected", "samples selected so far", "preliz/predictive/ppa.py"), ("distances", "distance at which a sample was found", "preliz/predictive/ppa.py")],
    observe=["indices returned by initialize_subsamples and keep_sampling, shown, selected, text of the returned priors"],
)

prop(
    "P20",
    "Models of other libraries are read and written without changing the priors",
    "A PyMC variable or a Prior, in any parametrization, possibly truncated, censored, hurdle, mixture or zero inflated, becomes the PreliZ distribution with the same family and parameters (unknown ones stay open), and a PreliZ law becomes the PyMC variable, inside or outside a model, or Bambi prior of its own family and parameters. "
    "Priors of a model are recognised, mapped back to their own scale, refitted variable by variable, each to its own draws, with the winning family, and the text that is returned is valid code that gives every variable the family and parameters found, whatever the order and hierarchy of the variables.",
    ["inputs", "configurations"],
    "for every family PyMC shares with PreliZ, every parametrization and modifier, every parameter value in the stated boxes, and orders of up to five variables",
    "Tests convert one numeric variable per family and write one model of two variables; wrapped families, shared alternatives and hierarchical orders are not sampled.",
    ["preliz/ppls"],
    [("from_pymc, from_prior, _reparametrize", "preliz/ppls/pymc_io.py"), ("Distribution.to_pymc, to_bambi", "preliz/distributions/distributions.py"), ("extract_preliz_distributions, retrieve_variable_info, unravel_projection, back_fitting_pymc, write_pymc_string", "preliz/ppls/pymc_io.py"), ("write_bambi_string", "preliz/ppls/bambi_io.py"), ("posterior_to_prior, back_fitting_idata", "preliz/ppls/agnostic.py")],
    "PyMC builds each variable from named symbolic scalars; its own graph is evaluated symbolically, so the solver compares what preliz reads with what the user gave for all values.",
    observe=["type and parameters of the converted distribution, text of the new priors run against a stand-in library"],
)

prop(
    "P14",
    "combine pools laws in proportion to their weights and ranks the fits",
    "combine draws from every law, with one generator made from the given seed, a share of the requested sample proportional to its weight (up to rounding to whole numbers; equal shares by default, weights normalised, never more values than requested), fits every candidate to all the values drawn and returns the candidates from best to worst by the corrected likelihood criterion. "
    "Negative weights raise ValueError; the given laws and weights are left unchanged.",
    ["inputs", "configurations"],
    "for any laws and drawn values, every vector of non-negative weights, one to three laws and samples of up to 6 values",
    "Tests combine fixed pairs with large samples where a wrong share or a missing normalisation only shifts the fit a little.",
    ["preliz/unidimensional/combine.py", "preliz/unidimensional/mle.py", "preliz/internal/optimization.py", "preliz/internal/distribution_helper.py"],
    [("combine", "preliz/unidimensional/combine.py"), ("mle", "preliz/unidimensional/mle.py"), ("fit_to_sample", "preliz/internal/optimization.py"), ("get_distributions", "preliz/internal/distribution_helper.py")],
    "What the laws draw is symbolic; the shares are linear in the weights and the fitted mean and spread are compared with those of all values drawn.",
    observe=["sizes and generators asked of each law, returned laws and their order, exceptions"],
)

prop(
    "P15",
    "Roulette and quartile elicitation fit exactly what the user placed",
    "The clicks on the roulette give the number of chips of each column (clicks outside the grid change nothing), and the recorded inputs are the proportions, total and grid. The candidate families whose support contains the grid are fitted to the density of the chips (proportion per unit of x), starting from their mean and standard deviation, and the candidate with the smallest loss is returned; one column gives no law, and parameters written by the user stay fixed. "
    "combine_roulette pools the recorded elicitations by weight and number of chips and refuses different grids and negative weights; QuartileInt fits each candidate to the three quartiles and keeps the one whose central half is closest to one half.",
    ["inputs", "histories", "configurations"],
    "for every sequence of up to three clicks, any recorded proportions, chips and weights, any quartiles, any candidate families and every outcome of the optimiser",
    "The notebooks used as tests only open the widgets, and the recorded examples use columns one unit wide; other grids, edges and histories of clicks are never exercised.",
    ["preliz/unidimensional/roulette.py", "preliz/unidimensional/combine_roulette.py", "preliz/unidimensional/quartile_int.py", "preliz/internal/optimization.py", "preliz/internal/distribution_helper.py"],
    [("_Rectangles, _weights_to_pdf, _on_leave_fig", "preliz/unidimensional/roulette.py"), ("combine_roulette", "preliz/unidimensional/combine_roulette.py"), ("_match_distribution", "preliz/unidimensional/quartile_int.py"), ("fit_to_epdf, fit_to_quartile, optimize_pdf, optimize_quartile", "preliz/internal/optimization.py"), ("process_extra", "preliz/internal/distribution_helper.py")],
    "Handlers are driven through stand-ins for widgets and figures with symbolic click positions; candidate families are uninterpreted and the optimiser may return any point and any cost.",
    state=[("_weights", "number of chips of each column", "preliz/unidimensional/roulette.py")],
    observe=["inputs and dist of the roulette, dist of QuartileInt, law returned by combine_roulette, exceptions"],
)

prop(
    "P21",
    "rcParams stay valid, contexts restore them, and defaults follow them",
    "Whatever is assigned, rcParams stay complete and valid (a probability in [0, 1], a known kind of interval, a true boolean with the meaning of the value given): other values raise ValueError, unknown keys KeyError, settings cannot be removed, and a refused change leaves the settings as they were. "
    "rc_context, nested, left normally or by an exception, refused, or reading a file, gives back the settings found at its creation; files are read line by line with warnings for malformed or repeated settings; intervals, summaries, interval plots and maxent left with their defaults use the current probability and kind of interval.",
    ["inputs", "histories"],
    "for every probability value, every history of three or four changes and removals, two nested contexts left in any way, and files of up to three lines",
    "Tests set one valid value inside one context and one bad value; failed contexts, repeated or malformed lines, values such as nan or numpy booleans and histories are not tried.",
    ["preliz/internal/rcparams.py", D + "distributions.py", "preliz/unidimensional/maxent.py", "preliz/internal/plot_helper.py"],
    [("RcParams, rc_context, read_rcfile, rc_params, validators", "preliz/internal/rcparams.py"), ("eti, hdi, summary", D + "distributions.py"), ("maxent", "preliz/unidimensional/maxent.py"), ("plot_pointinterval", "preliz/internal/plot_helper.py")],
    "The probability is symbolic and the operations are solver chosen; after each the settings are compared with a plain model of them.",
    observe=["rcParams, exceptions and warnings, mass and kind of interval used by default"],
)

prop(
    "P22",
    "Dirichlet elicitation and multivariate laws are exact",
    "dirichlet_mode returns concentrations 1 + t times the (normalised) mode, t > 0, for which the mean over the categories of the mass below mode - bound is (1 - mass) / 2 within 1e-4; it warns when it normalises the mode, raises ValueError for masses outside (0, 1], non-positive modes or bounds and masses that no concentration reaches, and draws the law it returns only when asked. "
    "Dirichlet and MvNormal report the documented mean, variance, standard deviation and mode, MvNormal keeps covariance and precision inverse to each other, and their plots draw, on the given or on new axes, every exact marginal (Beta(a_i, sum a - a_i), Normal(mu_i, sqrt(cov_ii))) once and in order, with the intervals asked for; the joint plot of three categories uses the Dirichlet density and levels enclosing the stated probabilities.",
    ["inputs", "configurations"],
    "for every mode, mass and bound in the stated boxes with two or three categories and searches of up to four or six steps, and every concentration, mean and positive definite matrix",
    "Tests elicit one mode and draw plots without looking at them; unreachable masses (which used to loop for ever), given axes, other masses and the marginals are never checked.",
    ["preliz/multidimensional/dirichlet_mode.py", D + "continuous_multivariate.py", D + "distributions_multivariate.py", "preliz/internal/plot_helper_multivariate.py", "preliz/internal/optimization.py"],
    [("dirichlet_mode", "preliz/multidimensional/dirichlet_mode.py"), ("optimize_dirichlet_mode", "preliz/internal/optimization.py"), ("Dirichlet, MvNormal", D + "continuous_multivariate.py"), ("plot_dirichlet, plot_mvnormal, DirichletOnSimplex, find_hdi_contours", "preliz/internal/plot_helper_multivariate.py")],
    "Mode, mass and bound are symbolic and the beta distribution function uninterpreted, so every outcome of the search is covered; marginals and moments are compared exactly.",
    observe=["concentrations returned, warnings and exceptions, moments, marginals and axes of the plots"],
)
