import numpy as np

from engine.harness import Prop
from props.lin import dot, mv, rows

PROP = Prop(
    "C29", "Example problems are instances of the models they document",
    assumptions=["np.random and scipy draws are arbitrary reals, one per call and "
                 "position", "exp is the exponential of its argument, one symbol per "
                 "argument"],
    outside="the distribution of the random draws; FEniCS, ADCIRC and Poisson data; "
            "more than 3 samples or observations")


def draws(T, n, start=0, seed=None):
    s = "u" if seed is None else f"s{seed}"
    return [T.real(f"rng_{s}_{i}") for i in range(start, start + n)]


def unif(T, n, start=0):
    return [T.real(f"rng_u_{i}", lo=0, hi=1) for i in range(start, start + n)]


def polynomial(T, n, N, default=False, exact=False):
    """samples of the initial density, their p-th powers, normal data"""
    from mud.examples.simple import polynomial_1D_data
    from scipy.stats import norm, uniform
    T.patch_random()
    mu, sg = T.real("mu"), T.real("sigma", pos=True)
    p = 5 if default else T.choice("p", [1, 2, 3])
    kw = {} if default else {"p": p, "mu": mu, "sigma": sg}
    a, b = T.real("a"), T.real("b", pos=True)
    kind = "none" if default else T.choice("initial", ["uniform", "normal"])
    if kind == "uniform":
        kw["init_dist"] = uniform(loc=a, scale=b)
    elif kind == "normal":
        kw["init_dist"] = norm(loc=a, scale=b)
    lam, q, data = polynomial_1D_data(num_samples=n, N=N, **kw)
    if default:
        mu, sg, a, b = T.const(0.25), T.const(0.1), T.const(0), T.const(1)
    e = draws(T, n) if kind == "normal" else unif(T, n)
    if not (T.shape(lam, (n, 1), "samples") and T.shape(q, (n, 1), "values")
            and T.shape(data, (N,), "data")):
        return
    T.eq(lam[:, 0], T.A([a + b * v for v in e]), "samples of the initial density")
    T.eq(q, T.A([[dot([1], [lam[i, 0] ** p])] for i in range(n)]), "powers")
    if N == 1:
        T.eq(data[0], mu, "a single datum is the mean")
        return
    e = draws(T, N, n)
    for i in range(N):
        for j in range(i):
            T.eq((data[i] - mu) * e[j], (data[j] - mu) * e[i],
                 "data around the mean, one draw each")
        # the deviation asked for, or (known finding) its square
        T.eq((data[i] - mu - sg * e[i]) * (data[i] - mu - sg ** 2 * e[i]), 0,
             "spread follows the deviation")
    if exact:
        T.eq(data, T.A([mu + sg * v for v in e]), "standard deviation of the data")


def density(T, n, N, weighted=False, analytical=True):
    """identity map, observed density normal around the mean of the data"""
    from mud.examples.simple import identity_1D_density_prob
    T.patch_random()
    # with several data, see the finding on the spread of the data
    mu, sg = T.real("mu"), T.real("sigma", lo=0.1, hi=2) if N == 1 else T.const(1)
    w = T.arr("w", n, pos=True) if weighted else None
    D = identity_1D_density_prob(num_samples=n, num_obs=N, mu=mu, sigma=sg, weights=w,
                                 analytical_pred=analytical)
    e = unif(T, n)
    d = [mu] if N == 1 else [mu + sg * v for v in draws(T, N, n)]
    T.eq(D.X, T.A([[v] for v in e]), "samples of the initial density")
    T.eq(D.y, D.X, "identity map")
    T.eq(D.domain, T.A([[0, 1]]), "domain")
    if analytical:
        # the updated density is the observed one: closest to the mean of the data
        m = sum(d) / N
        W = [T.const(1)] * n if w is None else [w[i] for i in range(n)]
        from scipy.stats import norm
        T.maximiser(D.mud_point(), D.X,
                    [W[i] * norm(m, sg).pdf(D.X[i, 0]) for i in range(n)], "MUD point")


def bayes(T, n, N):
    from mud.examples.simple import identity_1D_bayes_prob
    T.patch_random()
    mu, sg = T.real("mu"), T.real("sigma", pos=True) if N == 1 else T.const(1)
    B = identity_1D_bayes_prob(num_samples=n, num_obs=N, mu=mu, sigma=sg)
    e = unif(T, n)
    d = [mu] if N == 1 else [mu + sg * v for v in draws(T, N, n)]
    T.eq(B.X, T.A([[v] for v in e]), "samples of the initial density")
    ss = [sum((B.X[i, 0] - v) ** 2 for v in d) for i in range(n)]
    T.minimiser(B.map_point(), B.X, ss, "MAP point is closest to the data")


def temporal(T, n, N):
    """weighted mean error of the repeated identity map"""
    from mud.examples.simple import identity_1D_temporal_prob
    T.patch_random()
    yt, ns = T.real("y", lo=0, hi=1), T.real("noise", pos=True)
    D = identity_1D_temporal_prob(num_samples=n, num_obs=N, y_true=yt, noise=ns,
                                  domain=[[0, 1]])
    d = [yt + ns * v for v in draws(T, N, n)]
    T.eq(D.X, T.A([[v] for v in unif(T, n)]), "samples of the initial density")
    if T.shape(D.y, (n, 1), "one prediction per sample"):
        r = T.sqrt(T.const(N))
        for i in range(n):
            T.eq(D.y[i, 0] * r * ns, sum(v - D.X[i, 0] for v in d),
                 "weighted mean error")


def decay1(T, n):
    """u0 exp(-lambda t), at the samples and at the true parameter"""
    from mud.examples.exp_decay import exp_decay_1D
    T.patch_random()
    u0, lt, sd = T.real("u0", pos=True), T.real("true"), T.real("sd", pos=True)
    a, b = T.real("a"), T.real("b", pos=True)
    P = exp_decay_1D(u_0=u0, time_range=[0, 1.0], domain=T.A([a, a + b]), num_samples=n,
                     lambda_true=lt, t_start=0.25, sampling_freq=4.0, std_dev=sd)
    ts = [0.25, 0.5, 0.75]
    T.eq(T.A(np.ravel(P.times)), T.A(ts), "times")
    check_decay(T, P, n, ts, [a], [b], lambda l, t: u0 * np.exp(-l[0] * t), [lt], sd)


def decay2(T, n, N):
    from mud.examples.exp_decay import exp_decay_2D
    T.patch_random()
    lt, sd = T.arr("true", 2), T.real("sd", pos=True)
    a, b = T.arr("a", 2), T.arr("b", 2, pos=True)
    dom = T.A([[a[0], a[0] + b[0]], [a[1], a[1] + b[1]]])
    P = exp_decay_2D(time_range=[0, 1.0], domain=dom, num_samples=n, lambda_true=lt, N=N,
                     t_start=0.0, sampling_freq=4.0, std_dev=sd)
    ts = [0.0, 0.25, 0.5, 0.75][:N]
    T.eq(T.A(np.ravel(P.times)), T.A(ts), "times")
    T.eq(P.domain, dom, "domain")
    check_decay(T, P, n, ts, [a[0], a[1]], [b[0], b[1]],
                lambda l, t: l[0] * np.exp(-l[1] * t), [lt[0], lt[1]], sd)


def check_decay(T, P, n, ts, a, b, u, true, sd):
    p = len(a)
    e = unif(T, n * p)
    lam = [[a[j] + b[j] * e[i * p + j] for j in range(p)] for i in range(n)]
    if not (T.shape(P.lam, (n, p), "samples")
            and T.shape(P.data, (n, len(ts)), "one row of data per sample")):
        return
    T.eq(P.lam, T.A(lam), "samples uniform over the domain")
    for i in range(n):
        for k, t in enumerate(ts):
            T.eq(P.data[i, k], u(lam[i], T.const(t)), "model at the sample")
    T.eq(np.ravel(P.true_vals), T.A([u(true, T.const(t)) for t in ts]),
         "model at the true parameter")
    T.eq(P.std_dev, sd, "standard deviation")
    T.true(P.sample_dist == "u", "uniform samples")


def linear(T, m, n, given=False, seed=None):
    """y = A lam_ref + b, so the reference solves the problem"""
    from mud.examples.linear import random_linear_problem
    T.patch_random()
    kw = {}
    if given:
        kw = {"mean_i": T.arr("mean", (n, 1)), "cov_i": T.spd("C", n, "diag")}
    ref, P = random_linear_problem(n, m, seed=seed, **kw)
    e = draws(T, m * n + m + n, seed=seed)
    T.eq(P.A, T.A(e[:m * n]).reshape(m, n), "operator drawn first")
    if not (T.shape(ref, (n, 1), "reference") and T.shape(P.y, (m, 1), "data")
            and T.shape(P.b, (m, 1), "offset")):
        return
    T.eq(P.y[:, 0], T.A([v + P.b[i, 0] for i, v in
                         enumerate(mv(rows(P.A, m, n), list(ref[:, 0])))]),
         "the reference reproduces the data")
    if given:
        T.eq(P.mean_i, kw["mean_i"], "initial mean given")
        T.eq(P.cov_i, kw["cov_i"], "initial covariance given")
    else:
        T.eq(P.mean_i, T.A([[0]] * n), "initial mean")
        for i in range(n):
            T.le(T.const(0.5), P.cov_i[i, i], "variances of at least 1/2")
            T.le(P.cov_i[i, i], T.const(1.5), "variances of at most 3/2")
            for j in range(n):
                if i != j:
                    T.eq(P.cov_i[i, j], 0, "independent parameters")
            if i:
                T.le(P.cov_i[i, i], P.cov_i[i - 1, i - 1], "variances in order")


def wme(T, n, obs, std, dist="normal", repeated=False):
    """data are the operator at the reference plus noise of the deviation given"""
    from mud.examples.linear import random_linear_wme_problem
    T.patch_random()
    ref = T.arr("ref", n)
    Q = len(obs)
    if std == "number":
        s = 0.5
    else:
        s = [0.5 * (q + 1) for q in range(Q)]
    one = len(set(obs)) == 1 and T.pick("number of observations", 2)
    A, d, sd = random_linear_wme_problem(ref, s, num_qoi=Q,
                                         num_observations=obs[0] if one else obs,
                                         dist=dist, repeated=repeated)
    T.true(len(A) == len(d) == len(sd) == Q, "one of each per quantity")
    k = 0
    f = draws if dist == "normal" else unif
    for q in range(Q):
        N = obs[q]
        M = f(T, N * n, k)
        k += N * n
        e = draws(T, N, k)
        k += N
        R = [M[:n]] * N if repeated else [M[i * n:(i + 1) * n] for i in range(N)]
        if not T.shape(A[q], (1 if repeated else N, n), "operator"):
            return
        T.eq(A[q], T.A([R[0]] if repeated else R), "operator drawn")
        if T.shape(d[q], (N,), "one datum per observation"):
            sq = s if std == "number" else s[q]
            for i in range(N):
                T.eq(d[q][i], dot(R[i], list(ref)) + T.const(sq) * e[i],
                     "operator at the reference plus noise")


def noisy(T, m, n, std, repeated):
    from mud.examples.linear import noisy_linear_data
    T.patch_random()
    M = T.arr("M", (1 if repeated else m, n))
    ref = T.arr("ref", n)
    if T.pick("column", 2):
        ref = ref.reshape(n, 1)
    s = 0.5 if std == "number" else np.array([0.5 * (i + 1) for i in range(m)])
    d = noisy_linear_data(M, ref, s, num_data=m if repeated else None)
    e = draws(T, m)
    r = list(np.ravel(ref))
    if T.shape(d, (m,), "one datum per observation"):
        for i in range(m):
            sd = 0.5 if std == "number" else 0.5 * (i + 1)
            T.eq(d[i], dot(M[0 if repeated else i], r) + T.const(sd) * e[i],
                 "operator at the reference plus noise")


def rotation(T, q, seed=None, given=False):
    """unit vectors at evenly spaced angles; the reference solves the problem"""
    from mud.examples.linear import rotation_map
    from mud.util import std_from_equipment
    T.patch_random()
    kw = {"b": T.arr("b", (q, 1)), "ref_param": T.arr("ref", (2, 1))} if given else {}
    A, b, y, mean, cov, ref = rotation_map(qnum=q, tol=0.2, seed=seed, **kw)
    th = np.linspace(0, np.pi, q)
    for i in range(q):
        for j, v in enumerate((np.sin(th[i]), np.cos(th[i]))):
            T.le(A[i, j], T.const(float(v) + 1e-9), "rotated unit vector")
            T.le(T.const(float(v) - 1e-9), A[i, j], "rotated unit vector")
    if given:
        T.eq(b, kw["b"], "offset given")
        T.eq(ref, kw["ref_param"], "reference given")
    else:
        T.eq(b, T.A([[0]] * q), "no offset")
        T.eq(ref, T.A([[0.5], [0.5]]), "reference")
    for i in range(q):
        T.le(y[i, 0], dot(A[i], ref[:, 0]) + b[i, 0] + 1e-9, "reference solves it")
        T.le(dot(A[i], ref[:, 0]) + b[i, 0] - 1e-9, y[i, 0], "reference solves it")
    T.eq(mean[:, 0], T.A(draws(T, 2, seed=seed)), "initial mean drawn, seed asked for")
    T.eq(cov, T.A([[1, 0], [0, 1]]) * float(std_from_equipment(0.2)),
         "initial covariance")


def compared(T):
    """sizes that do not match are refused"""
    from mud.examples.linear import noisy_linear_data, random_linear_wme_problem
    T.patch_random()
    k = T.pick("case", 4)
    M, ref = T.arr("M", (2, 2)), T.arr("ref", 2)
    f = [lambda: noisy_linear_data(M, T.arr("r3", 3), 0.5),
         lambda: noisy_linear_data(M, ref, 0.5, num_data=3),
         lambda: noisy_linear_data(M, ref, np.array([0.5, 0.5, 0.5])),
         lambda: random_linear_wme_problem(ref, [0.5, 0.5, 0.5], num_qoi=2)][k]
    T.raises(AssertionError, f, "sizes that do not match")


def trials(T):
    """the errors of every trial are those of a chain on the rotation map"""
    from mud.examples.linear import rotation_map_trials
    T.patch_random()
    ax = T.ax()
    rotation_map_trials(numQoI=2, num_trials=2, model_eval_budget=2, ax=ax)
    T.true(len(ax.by("plot")) == 3, "errors of every trial and their mean")


PROP.add(polynomial, "polynomial-1", n=2, N=1)
PROP.add(polynomial, "polynomial-3", n=2, N=3)
PROP.add(polynomial, "polynomial-default", n=2, N=2, default=True)
PROP.add(density, "identity-density", n=3, N=1)
PROP.add(density, "identity-density-2", n=3, N=2)
PROP.add(density, "identity-density-weighted", n=2, N=1, weighted=True)
PROP.add(density, "identity-density-estimated", n=2, N=2, analytical=False)
PROP.add(bayes, "identity-bayes-1", n=3, N=1)
PROP.add(bayes, "identity-bayes", n=3, N=2)
PROP.add(decay1, "decay-1d", n=2)
PROP.add(linear, "linear-2x2", m=2, n=2)
PROP.add(linear, "linear-1x3-seed", m=1, n=3, seed=0)
PROP.add(linear, "linear-given", m=2, n=3, given=True)
PROP.add(wme, "wme-number", n=2, obs=[1], std="number")
PROP.add(wme, "wme-list", n=2, obs=[2, 2], std="list")
PROP.add(wme, "wme-list-3", n=1, obs=[3, 3, 3], std="list")
PROP.add(wme, "wme-uniform", n=1, obs=[2, 2], std="list", dist="uniform")
PROP.add(wme, "wme-repeated", n=2, obs=[2, 2], std="list", repeated=True)
PROP.add(noisy, "noisy", m=2, n=2, std="number", repeated=False)
PROP.add(noisy, "noisy-deviations", m=3, n=2, std="list", repeated=False)
PROP.add(noisy, "noisy-repeated", m=2, n=2, std="list", repeated=True)
PROP.add(rotation, "rotation", q=3)
PROP.add(rotation, "rotation-seed", q=2, seed=24)
PROP.add(rotation, "rotation-given", q=2, given=True)
PROP.add(compared, "refused")
# configurations whose behaviour is a known finding, see known_findings.json
PROP.add(polynomial, "finding-spread", n=1, N=2, exact=True)
PROP.add(temporal, "finding-temporal", n=2, N=2)
PROP.add(decay2, "finding-decay-2d", n=2, N=3)
PROP.add(wme, "finding-wme-number", n=1, obs=[2, 2], std="number")
PROP.add(wme, "finding-wme-rows", n=1, obs=[2, 3], std="list")
PROP.add(wme, "finding-wme-uniform", n=1, obs=[2], std="list", dist="uniform")
PROP.add(rotation, "finding-rotation-seed", q=2, seed=5)
PROP.add(trials, "finding-trials")

# the same with arrays stored in column order, or backwards
PROP.turned("linear-given")
