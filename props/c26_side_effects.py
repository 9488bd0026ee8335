import copy

import numpy as np

from engine.harness import Prop
from props.den import spread
from props.st import new

PROP = Prop(
    "C26", "Inputs are left alone and problems do not share state",
    assumptions=["kernel density estimates are uninterpreted functions"],
    outside="arrays the caller changes after passing them; scikit-learn's own state")


def snap(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(snap(x) for x in v)
    return v


def same(T, a, b, label):
    if isinstance(a, dict):
        T.true(isinstance(b, dict) and list(a) == list(b), label + ": keys")
        for k in a:
            if k in b:
                same(T, a[k], b[k], label)
    elif isinstance(a, (list, tuple)):
        T.true(type(a) is type(b) and len(a) == len(b), label + ": length")
        for x, y in zip(a, b):
            same(T, x, y, label)
    elif isinstance(a, str) or a is None:
        T.true(a == b, label)
    elif isinstance(a, np.ndarray):
        if T.shape(b, a.shape, label + ": shape"):
            T.eq(b, a, label)
    else:
        T.eq(b, a, label)


def form(T, a, b, label):
    """shape, type and memory layout"""
    if isinstance(a, np.ndarray):
        T.true(type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype, label)
    elif isinstance(a, dict):
        for k in a:
            if k in b:
                form(T, a[k], b[k], label)
    elif isinstance(a, (list, tuple)):
        for x, y in zip(a, b):
            form(T, x, y, label)


ORIG = {}


def fresh():
    """defaults of the library's functions as they were when it was imported"""
    import inspect
    import mud.base
    import mud.funs
    import mud.plot
    import mud.util
    if not ORIG:
        for m in (mud.base, mud.funs, mud.plot, mud.util):
            for o in list(vars(m).values()):
                if getattr(o, "__module__", None) != m.__name__:
                    continue
                for f in vars(o).values() if inspect.isclass(o) else [o]:
                    if inspect.isfunction(f) and f.__defaults__:
                        ORIG[f] = tuple(copy.deepcopy(v) if isinstance(v, (dict, list, set))
                                        else v for v in f.__defaults__)
    for f, d in ORIG.items():
        f.__defaults__ = tuple(copy.deepcopy(v) if isinstance(v, (dict, list, set)) else v
                               for v in d)


def drawing(T, a, c, which):
    T.true(len(a.calls) == len(c.calls), which + ": same drawing")
    for u, v in zip(a.calls, c.calls):
        T.true(u[0] == v[0] and sorted(u[2]) == sorted(v[2]),
               which + ": same drawing, same options")
        for k in u[2]:
            if k in v[2]:
                same(T, u[2][k], v[2][k], which + ": same option")


class Kept:
    """arguments whose values must survive the calls made"""

    def __init__(self, T, **kw):
        self.T = T
        self.now = kw
        self.was = {k: snap(v) for k, v in kw.items()}

    def check(self, when):
        for k in self.now:
            form(self.T, self.was[k], self.now[k], f"{when}: {k} keeps its form")
            same(self.T, self.was[k], self.now[k], f"{when}: {k} unchanged")


def density(T, n, p, f, form, normalize):
    from mud.base import DensityProblem
    X, y = T.arr("X", (n, p), lo=0, hi=1), T.arr("y", (n, f))
    spread(T, y)
    w = T.arr("w", n, pos=True)
    d = [[0, 1]] * p
    if form == "arrays":
        d = T.A(d)
    elif form == "lists":
        w = list(w)
        X, y = X.tolist(), y.tolist()
    elif form == "rows":
        w = w.reshape(1, n)
    K = Kept(T, X=X, y=y, weights=w, domain=d)
    D = DensityProblem(X, y, d, weights=w, normalize=normalize)
    K.check("constructor")
    D.set_initial(T.density("init"))
    D.set_observed(T.density("obs"))
    D.mud_point()
    D.expected_ratio()
    K.check("estimate")
    D.set_weights(w, normalize=not normalize)
    D.estimate()
    K.check("weights set again")


def fitted(T, n, p):
    """the default domain is fitted to the samples, which stay as they are"""
    from mud.base import DensityProblem
    X, y = T.arr("X", (n, p)), T.arr("y", (n, 1))
    for j in range(p):
        T.assume(X[0, j] + 0.01 < X[1, j])
    spread(T, y)
    K = Kept(T, X=X, y=y)
    D = DensityProblem(X, y)
    dom = snap(D.domain)
    D.set_initial()
    D.estimate()
    K.check("fitted domain")
    T.eq(D.domain, dom, "domain of the problem stays")


def bayes(T, n, p, f, log, form):
    from mud.base import BayesProblem
    X, y = T.arr("X", (n, p)), T.arr("y", (n, f))
    d = T.A([[-50, 50]] * p)
    if form == "lists":
        d = [[-50, 50]] * p
        X, y = X.tolist(), y.tolist()
    K = Kept(T, X=X, y=y, domain=d)
    B = BayesProblem(X, y, d)
    B.set_prior(T.density("prior"))
    B.set_likelihood(T.density("ll"), log=log)
    B.map_point()
    B.fit()
    K.check("estimate")


def linear(T, cls, m, n, method):
    from mud import base
    A, b, y = T.arr("A", (m, n)), T.arr("b", (m, 1)), T.arr("y", (m, 1))
    T.assume(A[0, 0] > 0.1)
    mu, C = T.arr("mu", (n, 1)), T.spd("C", n, "diag")
    R = T.spd("R", m, "diag")
    K = Kept(T, A=A, b=b, y=y, mean=mu, cov=C, data_cov=R)
    if cls == "gauss":
        P = base.LinearGaussianProblem(A, b, y, mean_i=mu, cov_i=C, cov_o=R, alpha=0.5)
        P.solve(method=method)
        K.check("solution")
        P.compute_functionals(mu.T)
    elif cls == "iterative":
        P = base.IterativeLinearProblem(A, b, y=y, mu_i=mu, cov=C, data_cov=R)
        P.solve(num_epochs=2, method=method)
        r1 = P.get_errors(mu)
        K.check("solution")
        T.eq(T.A(P.get_errors(mu)), T.A(r1), "errors asked for twice")
    K.check("afterwards")


def inner(T, m, k):
    """solving leaves the fields of a linear Gaussian problem, and solves alike again"""
    from mud.base import LinearGaussianProblem
    n = 2
    A, b, y = T.arr("A", (m, n)), T.arr("b", (m, 1)), T.arr("y", (m, 1))
    T.assume(A[0, 0] > 0.1)
    if m > 1:
        T.assume(A[0, 1] == 0)
        T.assume(A[1, 1] > 0.1)
    mu, C = T.arr("mu", (n, 1)), T.spd("C", n, "diag")
    R = T.spd("R", m, "diag")
    P = LinearGaussianProblem(A, b, y, mean_i=mu, cov_i=C, cov_o=R, alpha=0.5)
    K = Kept(T, A=P.A, b=P.b, y=P.y, mean_i=P.mean_i, cov_i=P.cov_i, cov_o=P.cov_o)
    order = T.choice("methods", [("mud", "map"), ("map", "ls"), ("ls", "mud"),
                                 ("mud_alt", "mud")])
    got = {}
    for method in order:
        got[method] = snap(P.solve(method=method, output_dim=k))
        K.check(method)
    for f in K.now:
        same(T, K.was[f], getattr(P, f), f"{f} of the problem after solving")
    for method in order:
        same(T, got[method], P.solve(method=method, output_dim=k), method + " again")


def wmelinear(T, N, n, as_list):
    """lists of operators, data and deviations stay as they are"""
    from mud.base import LinearWMEProblem
    from mud.util import transform_linear_map, transform_linear_setup
    A = [T.arr(f"A{i}", (N, n)) for i in range(2)]
    d = [T.arr(f"d{i}", N) for i in range(2)]
    T.assume(sum(A[0][j, 0] for j in range(N)) > 0.1)
    if as_list == "column":
        d = [x.reshape(N, 1) for x in d]
    s = [T.real("s", lo=0.1, hi=9), T.arr("t", N, lo=0.1, hi=9)]
    K = Kept(T, operators=A, data=d, deviations=s)
    transform_linear_setup(A, d, s if as_list != "std" else [T.arr("t", N, lo=0.1, hi=9)] * 2)
    transform_linear_map(A[1], d[1], s[1])
    K.check("transformation")
    s2 = [T.real("u0", lo=0.1, hi=9), T.real("u1", lo=0.1, hi=9)]
    K2 = Kept(T, deviations=s2)
    LinearWMEProblem(A, d, s2)
    K.check("problem")
    K2.check("problem")


def functions(T):
    """stateless functions"""
    from mud import funs, norm, util
    which = T.choice("function", ["wme", "add_noise", "fit_domain", "fit_bounds",
                                  "null_space", "inner", "functional", "map", "mud",
                                  "updated_cov", "epoch"])
    A, b, y = T.arr("A", (1, 2)), T.arr("b", 1), T.arr("y", 1)
    T.assume(A[0, 0] > 0.1)
    m, C = T.arr("m", 2), T.spd("C", 2, "diag")
    X, d = T.arr("X", (2, 2)), T.arr("d", 2)
    K = Kept(T, A=A, b=b, y=y, m=m, C=C, X=X, d=d)
    f = {"wme": lambda: funs.wme(X, d, 0.5), "add_noise": lambda: util.add_noise(d, 0.1),
         "fit_domain": lambda: util.fit_domain(X),
         "fit_bounds": lambda: util.fit_domain(min_max_bounds=X, pad_ratio=0.5),
         "null_space": lambda: util.null_space(A),
         "inner": lambda: norm.inner_product(X, C),
         "functional": lambda: norm.full_functional(A, X, b, m, C, y, 1.0),
         "map": lambda: funs.map_sol(A, b, y, m, C, w=0.5),
         "mud": lambda: funs.mud_sol_with_cov(A, b, y, m, C),
         "updated_cov": lambda: funs.updated_cov(A, C, np.eye(1)),
         "epoch": lambda: funs.iterate(A, b, y, m.reshape(2, 1), C, num_epochs=2)}[which]
    feed = T.patch_random()
    first = snap(f())
    K.check(which)
    feed.k.clear()
    same(T, first, f(), which + ": the same result again")
    K.check(which + " again")


def spatiotemporal(T, S, t, method):
    from mud.base import SpatioTemporalProblem
    T.patch_random()
    n = 3
    lam, D, m = T.arr("lam", (n, 1), lo=0, hi=1), T.arr("D", (n, S * t)), T.arr("M", S * t)
    mask = np.array([True] * n)
    tm = np.arange(max(t - 1, 2 if method == "pca" else 1))
    d = {"lam": lam, "data": D, "measurements": m, "std_dev": T.real("s", pos=True),
         "sensors": np.arange(S) * 1.0, "times": np.arange(t) * 0.5,
         "domain": T.A([[0, 1]]), "true_vals": T.arr("tv", S * t), "lam_ref": T.A([0.5])}
    K = Kept(T, data_set=d, mask=mask, times=tm)
    P = SpatioTemporalProblem()
    P.load(d)
    P.sample_data(samples_mask=mask, times_mask=tm)
    P.get_closest_to_measurements(times_mask=tm)
    P.get_closest_to_true_vals()
    P.mud_problem(method=method, samples_mask=mask)
    K.check("problem posed")
    before = {k: snap(getattr(P, k)) for k in ("lam", "data", "measurements", "domain",
                                               "true_vals", "lam_ref")}
    P.mud_problem(method=method)
    P.mud_problem(method=method, times_mask=tm)
    for k, v in before.items():
        T.eq(getattr(P, k), v, f"posing problems leaves {k} of the problem")
    K.check("afterwards")
    P.measurements_from_reference(seed=1)
    K.check("new measurements")


def sparse(T):
    """data sets that lack fields stay as they are"""
    from mud.base import SpatioTemporalProblem
    d = {"lam": T.arr("lam", (3, 1), lo=0, hi=1), "data": T.arr("D", (3, 2)),
         "measurements": T.arr("M", 2), "std_dev": T.real("s", pos=True),
         "sensors": np.arange(1) * 1.0, "times": np.arange(2) * 0.5,
         "sample_dist": "u", "domain": T.A([[0, 1]]), "extra": [1]}
    for k in T.choice("absent", [("domain",), ("std_dev",), ("sensors", "times"),
                                 ("measurements", "sample_dist"), ("sensors", "domain"),
                                 ("measurements", "std_dev", "sample_dist", "domain",
                                  "times", "sensors")]):
        del d[k]
    keys = list(d)
    K = Kept(T, data_set=d)
    P = SpatioTemporalProblem(d) if T.pick("how", 2) else SpatioTemporalProblem()
    P.load(d)
    P.sample_data()
    if "measurements" in d:
        P.get_closest_to_measurements()
        if "std_dev" in d:
            P.mud_problem(method="wme")
    T.true(list(d) == keys, "the data set has the fields it had")
    K.check("data set loaded")


def setters(T):
    """what the fields of a problem are set to keeps its form, fields do not alias it"""
    from mud.base import SpatioTemporalProblem
    P = SpatioTemporalProblem()
    d, lam = T.A([0, 1, -2, 3]), T.arr("lam", (3, 2), lo=0, hi=1)
    ref, D = T.arr("ref", (1, 2), lo=0, hi=1), T.arr("D", (3, 2, 2))
    m, tv = T.arr("M", (2, 2)), T.arr("tv", (1, 4))
    s, t = np.arange(4.0).reshape(2, 2), np.arange(2.0)
    K = Kept(T, domain=d, lam=lam, lam_ref=ref, data=D, measurements=m, true_vals=tv,
             sensors=s, times=t)
    P.sensors, P.times = s, t
    P.domain, P.lam, P.lam_ref = d, lam, ref
    P.data, P.measurements, P.true_vals, P.std_dev = D, m, tv, 0.5
    K.check("set")
    P.mud_problem(method="wme", times_mask=np.array([1]), sensors_mask=np.array([0, 1]))
    P.get_closest_to_true_vals()
    K.check("used")


def isolation(T, cls):
    """an instance's settings do not reach another instance"""
    from mud import base
    X, y = T.arr("X", (2, 1), lo=0, hi=1), T.arr("y", (2, 1))
    spread(T, y)
    o_ = T.density("obs")
    if cls == "density":
        P, Q = (base.DensityProblem(X, y, [[0, 1]]) for _ in range(2))
        for q in (P, Q):
            q.set_initial(T.density("init"))
            q.set_observed(o_)
        w = T.arr("w", 2, pos=True)
        first = Q.expected_ratio()
        P.set_weights(w)
        P.set_observed(T.density("other"))
        P.set_initial(T.density("other-init"))
        P.expected_ratio()
        T.eq(Q.expected_ratio(), first, "estimated ratio of the other problem")
        Q.fit()
        T.eq(Q.expected_ratio(), first, "estimated again")
        pts = Q.mud_point()
        P.fit()
        T.eq(Q.mud_point(), pts, "estimate of the other problem")
    elif cls == "bayes":
        P, Q = (base.BayesProblem(X, y, [[-50, 50]]) for _ in range(2))
        for q in (P, Q):
            q.set_prior(T.density("prior"))
            q.set_likelihood(o_)
        pt = Q.map_point()
        P.set_likelihood(T.density("other"), log=True)
        P.map_point()
        Q.fit()
        T.eq(Q.map_point(), pt, "estimate of the other problem")
    else:
        P, Q = base.SpatioTemporalProblem(), base.SpatioTemporalProblem()
        P.load({"lam": X, "data": T.arr("D", (2, 2)), "measurements": T.arr("M", 2),
                "std_dev": 0.1, "sensors": np.array([[0.0]]), "times": np.array([0.0, 1.0]),
                "sample_dist": "n", "true_vals": T.arr("tv", 2)})
        for k in ("lam", "data", "domain", "lam_ref", "measurements", "true_vals",
                  "std_dev", "sensors", "times", "sample_dist"):
            same(T, getattr(base.SpatioTemporalProblem(), k), getattr(Q, k),
                 "as new: " + k)
            if k != "sample_dist":
                T.true(getattr(Q, k) is None, "unset: " + k)


def options(T):
    """plot options passed in, and default ones, are not changed by drawing"""
    from mud import base
    which = T.choice("plot", ["params", "obs", "bayes", "bayes_obs", "sol", "contours",
                              "ts", "chain"])
    T.patch_plots()
    T.patch_random()
    fresh()
    more = []
    o = {"color": "r", "label": "x"}
    q = {"color": "k"}
    K = Kept(T, options=o, other=q)
    X, y = T.arr("X", (2, 1), lo=0, hi=1), T.arr("y", (2, 1), lo=-2, hi=2)
    spread(T, y)
    spread(T, X)
    rng = np.array([[-2.0, 2.0]])
    R = Kept(T, range=rng)
    if which in ("params", "obs"):
        D = base.DensityProblem(X, y, [[0.0, 1.0]])
        D.set_initial(T.density("init"))
        D.set_observed(T.density("obs"))
        D.estimate()
        D2 = Kept(T, domain=D.domain)

        def draw(ax, **k):
            if which == "params":
                D.plot_param_space(ax=ax, aff=3, x_range=rng, **k)
            else:
                D.plot_obs_space(ax=ax, aff=3, y_range=rng, **k)
        kw = ({"in_opts": o, "up_opts": q} if which == "params"
              else {"ob_opts": o, "pf_opts": q})
    elif which in ("bayes", "bayes_obs"):
        D = base.BayesProblem(X, y, [[-50, 50]])
        D.set_prior(T.density("prior"))
        D.set_likelihood(T.density("ll"))
        D.fit()
        D2 = Kept(T, domain=D.domain)

        def draw(ax, **k):
            if which == "bayes":
                D.plot_param_space(ax=ax, aff=3, x_range=rng, **k)
            else:
                D.plot_obs_space(ax=ax, aff=3, y_range=rng, **k)
        kw = {"pr_opts": o, "ps_opts": q} if which == "bayes" else \
            {"ll_opts": o, "pf_opts": q}
    elif which in ("sol", "contours", "chain"):
        A, b = T.arr("A", (1, 2)), T.arr("b", (1, 1))
        T.assume(A[0, 0] > 0.1)
        ref = T.arr("ref", (2, 1))
        D2 = Kept(T, A=A, b=b, ref=ref)
        if which == "chain":
            D = base.IterativeLinearProblem(A, b, T.arr("v", (1, 1)))
            D.solve()
        else:
            D = base.LinearGaussianProblem(A, b, T.arr("v", (1, 1)))

        def draw(ax, **k):
            if which == "sol":
                D.plot_sol(ax=ax, **{"label": "P", **k})
            elif which == "contours":
                D.plot_contours(ref=ref, ax=ax, annotate=True, **k)
            else:
                D.plot_chain(ref, ax=ax, **k)
        more = {"sol": [{"point": "initial"}, {"point": "map"}]}.get(which, [])
        kw = {"sol": {"pt_opts": o, "ln_opts": q}, "contours": {"plot_opts": o},
              "chain": {"plot_opts": o}}[which]
    else:
        D, *_ = new(T, 2, 1, 2)

        def draw(ax, **k):
            D.plot_ts(ax=ax, **k)
        D2 = Kept(T, times=D.times)
        kw = {"meas_kwargs": o, "samples_kwargs": q}
    # what is drawn does not depend on what was drawn before, with which options
    args = [{}, kw, *more]
    first = []
    for k in args:
        fresh()
        first.append(T.ax())
        draw(first[-1], **k)
    fresh()
    for r in (0, 1):
        for k, a in zip(args, first):
            c = T.ax()
            draw(c, **k)
            drawing(T, a, c, which)
    for k in (K, R, D2):
        k.check(which)


PROP.add(density, "density-arrays", n=3, p=2, f=1, form="arrays", normalize=True)
PROP.add(density, "density-lists", n=2, p=1, f=1, form="lists", normalize=True)
PROP.add(density, "density-rows", n=3, p=1, f=2, form="rows", normalize=False)
PROP.add(fitted, "fitted-domain", n=2, p=2)
PROP.add(bayes, "bayes", n=2, p=2, f=2, log=False, form="arrays")
PROP.add(bayes, "bayes-log-lists", n=2, p=1, f=1, log=True, form="lists")
for m in ("mud", "map", "ls", "mud_alt"):
    PROP.add(linear, "linear-" + m, cls="gauss", m=1, n=2, method=m)
PROP.add(inner, "inner-m1", m=1, k=1)
PROP.add(inner, "inner-m2", m=2, k=1)
PROP.add(linear, "iterative", cls="iterative", m=2, n=1, method="mud")
PROP.add(wmelinear, "wme-flat", N=2, n=2, as_list="flat")
PROP.add(wmelinear, "wme-column", N=3, n=1, as_list="column")
PROP.add(functions, "functions")
PROP.add(spatiotemporal, "spatio-temporal-wme", S=1, t=2, method="wme")
PROP.add(spatiotemporal, "spatio-temporal-pca", S=1, t=3, method="pca")
PROP.add(sparse, "sparse-data-set")
PROP.add(setters, "setters")
PROP.add(isolation, "isolation-density", cls="density")
PROP.add(isolation, "isolation-bayes", cls="bayes")
PROP.add(isolation, "isolation-st", cls="st")
PROP.add(options, "options")

# the same with arrays stored in column order, or backwards
PROP.turned("density-arrays", "functions", "spatio-temporal-wme")
