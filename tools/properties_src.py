"""Source of properties.jsonl and MANIFEST.json: run tools/mkdocs.py after editing."""
B, U, F, NM = ("src/mud/base.py", "src/mud/util.py", "src/mud/funs.py",
               "src/mud/norm.py")
PRE, PL, EX = "src/mud/preprocessing.py", "src/mud/plot.py", "src/mud/examples"
TECH = ("symbolic execution of the real Python functions (path exploration by "
        "re-execution, exact polynomial terms) with z3 deciding every branch and "
        "obligation; counterexamples replayed on the unpatched code")


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(),
      note=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, state=state, observe=observe, note=note)


PROPS = [
    P("C01", "Updated density is initial x weight x observed / predicted; MUD maximises it",
      "For every set of parameter samples, predictions, weights and initial, observed and "
      "predicted densities, the updated value of each sample is the initial density at the "
      "sample times its weight times the ratio of observed to predicted density at its "
      "prediction (products over parameters and over observables). The MUD point is a "
      "sample, and no sample has a larger updated value.",
      ["inputs", "configurations"],
      "all sample values, predictions, weights, density functions (arbitrary non-negative "
      "functions), single and multiple observables, explicit or kernel-estimated predicted "
      "density, any order of the setters",
      "The tests look at one or two identity-map problems with random samples and compare "
      "rounded estimates; they never compare the updated values with the definition and "
      "never use explicit predicted densities of several observables.",
      [B], [("DensityProblem.fit / mud_point / estimate", B)],
      [("updated values", "unnormalised updated density at each sample", B)],
      ["DensityProblem.mud_point()", "DensityProblem.estimate()"]),
    P("C02", "Expected ratio is the weighted mean of observed over predicted",
      "The expected ratio equals the mean, weighted by the sample weights, of the ratio of "
      "observed to predicted density over the samples, and is computed on demand. It is one "
      "whenever the observed and predicted densities coincide, for every weighting.",
      ["inputs", "configurations"],
      "all predictions, weights (zero weights included), densities",
      "Tests check only that the rounded value is near 1 (or 0) for one random problem.",
      [B], [("DensityProblem.expected_ratio", B)], (), ["DensityProblem.expected_ratio()"]),
    P("C03", "Estimates depend only on current settings, never on their history",
      "After any sequence of setting weights, initial, observed and predicted densities (or "
      "prior and likelihood), fitting and querying, the estimate and the expected ratio "
      "equal those of a fresh problem given the current settings, where changing weights or "
      "initial resets the predicted density to its default. Problems built from the same "
      "arrays share no state, and later changes of those arrays do not reach them.",
      ["histories", "inputs"],
      "all histories up to the stated length over all sample values, weights and densities",
      "Tests exercise single fixed setter sequences; a stale cache shows only after a "
      "particular set-fit-set history.",
      [B], [("cache resets in the set_* methods", B), ("lazy fit in mud_point", B)],
      [("cached densities", "initial/observed/predicted/updated values", B)],
      ["DensityProblem.mud_point()", "BayesProblem.map_point()"]),
    P("C04", "Sample weights act as relative importance",
      "Multiplying all weights by a positive constant, or normalising them to Euclidean "
      "unit length, changes neither estimate nor expected ratio; equal weights are the same "
      "as none; stacked weight vectors act as their elementwise product. A sample of weight "
      "zero has no influence, and weights of the wrong length are refused.",
      ["inputs", "configurations"],
      "all weights, samples, densities; weights given at construction, by set_weights, "
      "by set_predicted or by fit; kernel-estimated and explicit predicted densities",
      "Tests compare equal weights with none on one random problem, to one decimal.",
      [B], [("DensityProblem.set_weights, set_predicted", B)],
      [("weights", "one weight per sample", B)],
      ["DensityProblem.mud_point()", "DensityProblem.expected_ratio()"]),
    P("C05", "Default domain is the padded bounding box; default initial is uniform on it",
      "Without a domain, a problem's domain is each parameter's sample range extended on "
      "both sides by the padding fraction (10% by default) of the range, whatever the number "
      "type or layout of the samples, and the caller's arrays are untouched. The default "
      "initial density or prior is one over the domain volume inside it and zero outside; a "
      "given domain is used as given and refused when its size is wrong.",
      ["inputs", "configurations"],
      "all samples (including whole numbers, repeated values, flat and nested input), "
      "domains and padding fractions",
      "Only two doctests with fixed integer arrays cover the padding.",
      [B, U], [("fit_domain", U), ("set_initial / set_prior defaults", B)], (),
      ["DensityProblem.domain", "BayesProblem.domain", "fit_domain()"]),
    P("C06", "Posterior is prior x likelihood over all data; MAP maximises it in both modes",
      "The MAP point is a sample, and no sample has a larger product of prior density and "
      "likelihood over all data; plain and logarithmic evaluation agree (the latter "
      "also where the likelihood is too small for plain evaluation). A posterior that "
      "vanishes at every sample is refused instead of answered.",
      ["inputs", "configurations", "histories"],
      "all samples, data, priors and likelihoods (zero values included), both evaluation "
      "modes and switches between them",
      "Tests evaluate one random Gaussian problem; the degenerate cases and the agreement "
      "of the two modes are never compared value by value.",
      [B], [("BayesProblem.set_likelihood / set_prior / fit / map_point", B)], (),
      ["BayesProblem.map_point()", "BayesProblem.estimate()"]),
    P("C07", "Linear MUD solution reproduces the data, moving only along Sigma A^T",
      "For attainable data (always when the operator has full row rank) the linear MUD "
      "solution maps exactly onto the observed data. Its deviation from the initial mean is "
      "orthogonal, in the inverse initial covariance, to every direction the data do not "
      "inform, and it depends on neither the regularisation weight nor the data covariance.",
      ["inputs", "configurations"],
      "all operators (rank-deficient and tall ones with attainable data too), offsets, data, "
      "means, positive definite covariances, regularisation weights, input layouts and "
      "numbers of outputs used",
      "Tests check a few random operators with identity-like covariances to a tolerance; "
      "correlated covariances, offsets and deficient operators are not covered.",
      [B], [("LinearGaussianProblem.solve", B)], (), ["LinearGaussianProblem.solve('mud')"]),
    P("C08", "Linear MAP point solves the regularised normal equations",
      "The linear MAP point is the stationary point of data misfit (in the inverse observed "
      "covariance) plus alpha^-1 times the squared distance from the initial mean (in the "
      "inverse initial covariance), and the reported posterior covariance is the inverse of "
      "that objective's Hessian. solve('map'), 'mud_alt' and 'all' and the functions "
      "map_sol, map_sol_with_cov, mud_sol_with_cov and mud_sol_alt agree with it, or with "
      "the MUD solution, on the same inputs.",
      ["inputs", "configurations"],
      "all operators, offsets, data, means, positive definite covariances, regularisation "
      "weights, default arguments and input layouts",
      "Tests compare one identity-covariance example to a tolerance and never the posterior "
      "covariance or correlated covariances.",
      [B, F], [("LinearGaussianProblem.solve", B), ("map_sol, mud_sol wrappers", F)], (),
      ["LinearGaussianProblem.solve('map')", "map_sol()"]),
    P("C09", "Least squares answers with the minimum-norm least-squares solution",
      "The least squares solution leaves a residual orthogonal to the columns of the "
      "operator, offset included, and has no component in the operator's kernel, whatever "
      "means, covariances and regularisation weight the problem has.",
      ["inputs"], "all operators (wide, square, tall and rank deficient), offsets and data",
      "Tests check square random systems only.",
      [B], [("LinearGaussianProblem.solve('ls')", B)], (),
      ["LinearGaussianProblem.solve('ls')"]),
    P("C10", "Updated covariance pushes forward to the observed one, unchanged elsewhere",
      "For an operator of full row rank the updated covariance U satisfies A U A^T = "
      "observed covariance, is symmetric, and agrees with the initial covariance along the "
      "kernel of the operator, whether computed by the problem's method or by the function, "
      "and for default covariances too.",
      ["inputs", "configurations"],
      "all full-rank operators and positive definite initial and observed covariances",
      "Tests check shapes and one random spectrum, not the push-forward.",
      [B, F, U], [("LinearGaussianProblem.updated_cov", B), ("updated_cov", U)], (),
      ["LinearGaussianProblem.updated_cov()", "updated_cov()"]),
    P("C11", "Functionals are the objectives the linear solutions minimise",
      "Each functional of a linear problem (data, regularisation and modified terms, Bayesian "
      "and data-consistent sums) has its documented value at every row of points given, with "
      "the offset, the data and the regularisation weight included. The MAP point minimises "
      "the Bayesian functional and the MUD point the data-consistent one.",
      ["inputs"], "all problems, evaluation points and competing parameter values",
      "Nothing in the tests evaluates a functional at a solution.",
      [B, NM], [("LinearGaussianProblem.compute_functionals", B)], (),
      ["LinearGaussianProblem.compute_functionals()"]),
    P("C12", "Norm functionals: input + data - predicted norms in their covariances",
      "For every row of points norm_input, norm_data and norm_predicted are the squared "
      "distances to their means in the inverse of their covariances (that of predictions "
      "being A Sigma A^T); full_functional is input plus data minus predicted, "
      "map_functional input plus data, and scalar covariances stand for multiples of "
      "the identity.",
      ["inputs", "configurations"],
      "all points, operators, means and covariances, scalar or matrix, default arguments",
      "The functions are exercised only through two doctest-like examples.",
      [NM], [("inner_product, norm_*, *_functional", NM)], (),
      ["mud.norm functions"]),
    P("C13", "Linear WME transform is the weighted mean error of each quantity of interest",
      "transform_linear_map, transform_linear_setup and LinearWMEProblem turn operators, "
      "data and deviations into A and b such that A x + b is, for every x and each quantity, "
      "the sum of residuals over deviations, divided by the root of the number of data; one "
      "row stands for repeated observations. Mismatched lengths, tiny deviations and "
      "lists of deviations for repeated rows are refused. Observed values, means, "
      "covariances and regularisation given to LinearWMEProblem are the ones it uses.",
      ["inputs", "configurations"],
      "all operators, data, deviations (scalar, list or array), parameter values and numbers "
      "of quantities with different numbers of data",
      "Tests use all-ones operators with noise-free data, where most errors cancel.",
      [U, B], [("transform_linear_map / transform_linear_setup", U),
               ("LinearWMEProblem.__init__", B)], (), ["transform_linear_map()"]),
    P("C14", "Weighted mean error functional sums normalised residuals per sample",
      "wme returns for each sample of predictions the sum over data of prediction minus "
      "datum, divided by deviation times the root of the number of data; without a deviation "
      "that of the data is used. Mismatched sizes are refused.",
      ["inputs", "configurations"],
      "all predictions, data (flat, list or column) and deviations",
      "Tests check shapes and constant inputs.",
      [F], [("wme", F)], (), ["wme()"]),
    P("C15", "Iterative solver projects onto one row at a time, keeping what is uninformed",
      "Each step of the iterative solver satisfies the row it uses and moves only along "
      "Sigma times that row (by the method asked for), in the order of rows asked for, for the number of sweeps asked "
      "for, repeated calls continuing from where the last ended. The solution chain records "
      "every iterate and the errors reported are distances of the chain to the reference "
      "asked for.",
      ["inputs", "histories"],
      "all operators with non-zero rows, data, means, covariances, row orders and sequences "
      "of solve calls",
      "Tests compare end results of a few random systems.",
      [B, F], [("IterativeLinearProblem.solve / get_errors", B), ("iterate, iter_lin_solve", F)],
      [("solution_chains", "iterates so far", B)],
      ["IterativeLinearProblem.solve()", "IterativeLinearProblem.get_errors()"]),
    P("C16", "Sub-sampling keeps samples, sensors, times, data and measurements aligned",
      "Selecting samples, sensors or times of a spatio-temporal problem keeps exactly the "
      "parameters, data columns, measurements, times and sensors selected, each data column "
      "staying with its sensor and time, and leaves the problem itself unchanged.",
      ["inputs", "configurations", "histories"],
      "all data, measurements, boolean, index and list selections, sensors with one or more "
      "coordinates",
      "Tests select boolean masks of all ones.",
      [B], [("SpatioTemporalProblem.sample_data", B)], (),
      ["SpatioTemporalProblem.sample_data()"]),
    P("C17", "Aggregated QoI: weighted mean error or projections of the residuals",
      "mud_problem of a spatio-temporal problem aggregates the residuals (measurement minus "
      "datum, over the deviation) of the selection into the weighted mean error, or into "
      "projections on their principal or singular vectors, applied the same way to every "
      "sample; data weights scale the data columns. The problem returned keeps parameters, "
      "domain and sample weights; unknown methods are refused.",
      ["inputs", "configurations"],
      "all data, measurements, deviations, weights, selections and numbers of components",
      "Tests check only that a problem is returned with the right shape.",
      [B, PRE], [("SpatioTemporalProblem.mud_problem", B), ("pca, svd", PRE)], (),
      ["SpatioTemporalProblem.mud_problem()"]),
    P("C18", "Spatio-temporal problems refuse inconsistent settings and fill in defaults",
      "Setting fields of a spatio-temporal problem accepts exactly the consistent shapes and "
      "stores the values given; samples without a domain get the box they span; a domain not "
      "containing the samples or the reference is refused, as are data, measurements or true "
      "values of the wrong length. Problems miss no required field when they are solved.",
      ["inputs", "histories"],
      "all samples, domains, references, data and orders of setting them",
      "Tests exercise one complete data set and a few fixed errors.",
      [B], [("SpatioTemporalProblem setters / validate", B)],
      [("lam, domain, lam_ref, data, measurements", "fields of the problem", B)],
      ["SpatioTemporalProblem attributes", "SpatioTemporalProblem.validate()"]),
    P("C19", "Loading maps every field of the data set to the problem unchanged",
      "load of a dictionary or of a pickled file, with or without a mapping of names, sets "
      "every field to the value stored under its name, in any order of the keys, and absent "
      "optional fields to their defaults.",
      ["inputs", "configurations"],
      "all field values, key orders, absent fields and name mappings",
      "Tests load one file with one mapping.",
      [B], [("SpatioTemporalProblem.load", B)], (), ["SpatioTemporalProblem.load()"]),
    P("C20", "Closest simulation minimises the distance to measurements or true values",
      "get_closest_to_measurements and get_closest_to_true_vals return the parameters of a "
      "sample whose selected data have minimal Euclidean distance to the measurements, or "
      "true values, of the same selection.",
      ["inputs", "configurations"], "all data, measurements, true values and selections",
      "Not tested at all beyond a smoke test.",
      [B], [("SpatioTemporalProblem.get_closest_to_*", B)], (),
      ["SpatioTemporalProblem.get_closest_to_measurements()"]),
    P("C21", "Problem wrappers build the problem their raw arguments describe",
      "mud_problem, map_problem and data_prob turn samples, predictions, exact data and a "
      "noise level into the problem they describe: the first num_obs data, with one noise "
      "draw each, enter the weighted mean error (per group with a split) or the product of "
      "normal likelihoods; sample weights, domain and samples are kept; arguments of "
      "different lengths are refused.",
      ["inputs", "configurations"],
      "all samples, predictions, data, noise draws, deviations, weights and splits",
      "Tests check the types of what is returned and rough positions of estimates.",
      [F, U, B], [("mud_problem, map_problem", F), ("data_prob", B)], (),
      ["mud.funs.mud_problem()", "mud.funs.map_problem()", "data_prob()"]),
    P("C22", "Null space and rank-k approximations of an operator",
      "null_space returns orthonormal columns spanning exactly the vectors the operator maps "
      "to zero (singular values up to rcond times the largest count as zero). "
      "rank_decomposition lists approximations of rank one up to full rank, each the sum of "
      "the leading singular components; the last is the operator.",
      ["inputs"], "all operators of the sizes and ranks bounded, all thresholds",
      "Tests use a few fixed matrices and compare shapes and ranks.",
      [U], [("null_space, rank_decomposition", U)], (),
      ["mud.util.null_space()", "mud.util.rank_decomposition()"]),
    P("C23", "Measurement noise: one independent draw per datum, scaled by the deviation",
      "add_noise returns the signal, in its shape, plus the deviation times one draw per "
      "datum, leaves the signal alone and repeats itself for equal seeds. "
      "measurements_from_reference sets the measurements to the true values plus such noise. "
      "std_from_equipment returns the deviation at which the tolerance covers the stated "
      "probability.",
      ["inputs", "configurations"],
      "all signals and shapes, deviations, seeds, tolerances and probabilities",
      "Tests check lengths and one or two rounded values.",
      [U, B], [("add_noise, std_from_equipment", U),
               ("SpatioTemporalProblem.measurements_from_reference", B)], (),
      ["mud.util.add_noise()", "SpatioTemporalProblem.measurements"]),
    P("C24", "Meshes cover the domain with evenly spaced, consistently ordered points",
      "The two-dimensional unit and normal meshes and the n-dimensional grid consist of the "
      "evenly spaced points of the window or domain, and the list of points is in the order "
      "of the grids.",
      ["inputs", "configurations"], "all windows, domains and numbers of points bounded",
      "Tests check shapes only.",
      [U, PL], [("make_2d_unit_mesh", U), ("make_2d_normal_mesh, build_nd_mesh_grid", PL)],
      (), ["mud.util.make_2d_unit_mesh()", "mud.plot.build_nd_mesh_grid()"]),
    P("C25", "Plotted densities are the normalised marginals of the current solution",
      "plot_dist draws the normalised marginal of an estimate or distribution. The parameter "
      "and observable plots of density and Bayesian problems draw the initial, updated, "
      "predicted, observed, pushed-forward, prior and posterior densities of the current "
      "settings, over the range asked for; curves given no options are not drawn.",
      ["inputs", "histories"],
      "all samples, predictions, weights, densities, domains, plotted dimensions and "
      "settings changed after a first plot",
      "Tests draw once and look at nothing drawn.",
      [B, PL], [("plot_dist, plot_vert_line", PL),
                ("DensityProblem.plot_*, BayesProblem.plot_*", B)], (),
      ["DensityProblem.plot_param_space()", "DensityProblem.plot_obs_space()",
       "BayesProblem.plot_param_space()", "BayesProblem.plot_obs_space()"]),
    P("C26", "Inputs are left alone and problems do not share state",
      "Constructing, solving and plotting problems and calling the stateless functions "
      "change no array, list or option dictionary they were given nor any default, and "
      "settings of one instance do not reach another. Repeating a call gives the same "
      "result.",
      ["inputs", "histories"],
      "all values of the arguments, argument forms and pairs of instances",
      "Tests do not compare arguments before and after.",
      [B, F, U, PL], [("constructors and setters", B), ("plot options", PL)],
      [("class attributes and default arguments", "shared between instances", B)],
      ["every public class and function"]),
    P("C28", "Solution, contour, chain, sensor and series plots show what they name",
      "Plots of solutions mark the point named; contour plots draw, per observation, the line "
      "through the reference along which its prediction is constant; functional contours are "
      "values of the functional at the mesh points; chain, error, parameter, sensor and "
      "series plots draw the iterates, errors, samples, sensors and series asked for, on the "
      "axes given.",
      ["inputs", "configurations"],
      "all operators, data, means, chains, samples, sensors and plot locations",
      "Tests draw once and look at nothing drawn.",
      [B, PL], [("LinearGaussianProblem.plot_*, IterativeLinearProblem.plot_*, "
                 "SpatioTemporalProblem plots", B), ("plot_contours, plot_1D_vecs", PL)],
      (), ["plot_sol()", "plot_contours()", "plot_chain()", "sensor_scatter_plot()"]),
    P("C29", "Example problems are instances of the models they document",
      "The polynomial, identity, exponential decay, random linear, noisy linear and rotation "
      "examples return samples, predictions and data that satisfy the model they document: "
      "the reference solves the noise-free problem, each datum has its own noise draw of the "
      "deviation given, and equal seeds give equal problems.",
      ["inputs", "configurations"],
      "all random draws, references, deviations, seeds and settings",
      "Tests check shapes and rough estimates for one seed.",
      [EX + "/simple.py", EX + "/linear.py", EX + "/exp_decay.py", U],
      [("identity_*, polynomial_1D_data", EX + "/simple.py"),
       ("exp_decay_*", EX + "/exp_decay.py"),
       ("random_linear_*, noisy_linear_data, rotation_map", EX + "/linear.py")],
      (), ["mud.examples"]),
    P("C30", "Example studies solve and report the problems they name",
      "The Poisson and ADCIRC loaders name their fields and draw data with the deviation "
      "given about the true measurements; the piecewise fields of the Poisson study pass "
      "through their values; the time-window, contour and high-dimension studies solve, "
      "draw and return errors of the problem they describe; tables list the results and "
      "fields selected.",
      ["inputs", "configurations"],
      "all data sets, draws, references, observations, ranges and selections",
      "Tests run one study and check that nothing is raised.",
      [EX + "/poisson.py", EX + "/adcirc.py", EX + "/linear.py", EX + "/fenics.py",
       EX + "/examples.py"],
      [("load_poisson_prob", EX + "/poisson.py"), ("load_adcirc_prob", EX + "/adcirc.py"),
       ("run_contours, run_high_dim_linear", EX + "/linear.py"),
       ("print_res", EX + "/examples.py")],
      (), ["mud.examples"]),
]

NOT_APPLICABLE = []
