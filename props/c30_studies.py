import os
import pickle
import re
import tempfile

import numpy as np

from engine.harness import Prop
from props.lin import dot, mv, rows
from props.den import spread
from props.st import new

PROP = Prop(
    "C30", "Example studies solve and report the problems they name",
    assumptions=["np.random draws are arbitrary reals, one per call and position",
                 "matplotlib draws the points it is given (a recording axes stands in)"],
    outside="the command line, files written, FEniCS itself, meshes of ADCIRC; more than "
            "3 samples, 2 quantities or 3 times")


def draws(T, n, start=0, seed=None):
    s = "u" if seed is None else f"s{seed}"
    return [T.real(f"rng_{s}_{i}") for i in range(start, start + n)]


def unif(T, n, start=0):
    return [T.real(f"rng_u_{i}", lo=0, hi=1) for i in range(start, start + n)]


def pwl(T, x, knots, vals):
    """the piecewise linear function through these points, at a number x"""
    for k in range(1, len(knots)):
        if T.holds(x < knots[k]) or k == len(knots) - 1:
            t = (x - knots[k - 1]) / (knots[k] - knots[k - 1])
            return vals[k - 1] + t * (vals[k] - vals[k - 1])


def expression(T, n, d=1):
    """the expression is piecewise linear through 0 and the values given"""
    from mud.examples.fenics import piecewise_eval_from_vector as f
    u = T.arr("u", n)
    s = f(u) if d == 1 else f(u, d=d)
    names = {str(v): v for v in u}
    s = re.sub(r"<([^|<>]*)\|[^>]*>", lambda m: f"names[{m.group(1)!r}]", s)
    code = compile(s.replace("&&", "and").strip(), "expression", "eval")
    kn = [T.const(float(i * (1 / (n + 1)))) for i in range(n + 2)]
    k = T.pick("piece", n + 1)
    x = T.real("x")
    T.assume(x >= kn[k])
    T.assume(x < kn[k + 1])

    def at(v):
        return eval(code, {"names": names, "x": [v] * (d + 1)})
    y = at(x)
    left = [T.const(0)] + list(u)
    if k < n:
        want = left[k] + (x - kn[k]) / (kn[k + 1] - kn[k]) * (left[k + 1] - left[k])
        T.le(y, want + T.const(1e-9) * (1 + abs(left[k]) + abs(left[k + 1])), "interpolant")
        T.le(want - T.const(1e-9) * (1 + abs(left[k]) + abs(left[k + 1])), y, "interpolant")
    else:
        a, h = kn[n], kn[n + 1] - kn[n]
        v0, v1, v2 = at(a), at(a + h / 4), at(a + h / 2)
        e = T.const(1e-9) * (1 + abs(left[n]))
        T.le(v0, left[n] + e, "last value given")
        T.le(left[n] - e, v0, "last value given")
        T.le(v2 - v1, v1 - v0 + 4 * e, "linear to the end")
        T.le(v1 - v0, v2 - v1 + 4 * e, "linear to the end")


def spline(T, n):
    """knots evenly spaced, values as given, zero at both ends; the true one on request"""
    from mud.examples.poisson import plot_solution_spline
    u = T.arr("u", n)
    true = T.pick("true", 2)
    ax = T.ax()
    r = plot_solution_spline(u, aff=4, plot_true=bool(true), ax=ax)
    T.true(r is ax, "axes")
    p = ax.by("plot")
    if not (T.true(len(p) == 1 + true, "curves") is None and len(p) == 1 + true):
        return
    kn = np.linspace(0, 1, n + 2)
    T.eq(T.A(list(p[-1][1][0])), T.A([float(v) for v in kn]), "knots")
    T.eq(T.A(list(p[-1][1][1])), T.A([0] + list(u) + [0]), "values at the knots")
    if true:
        x = np.linspace(0, 1, 4)
        T.eq(p[0][1][0], T.A([float(v) for v in x]), "points")
        for i in range(4):
            g = 197.65032 * x[i] ** 2 * (x[i] - 1) ** 5
            T.le(abs(p[0][1][1][i] - g), T.const(1e-9), "true boundary condition")


def load_poisson(T, sd):
    load(T, "poisson", sd)


def load_adcirc(T, sd):
    load(T, "adcirc", sd)


def load(T, which, sd):
    """the data set's fields, and measurements with noise of the deviation asked for"""
    from mud.examples.adcirc import load_adcirc_prob
    from mud.examples.poisson import load_poisson_prob
    T.patch_random()
    seed = T.choice("seed", [21, 3])
    d = {"lam": np.array([[0.25, 0.5], [0.75, 0.5]]), "domain": [[0, 1], [0, 1]],
         "data": np.array([[1.0, 2.0], [3.0, 5.0]]), "true_vals": np.array([4.0, 6.0])}
    if which == "poisson":
        d["sensors"] = np.array([[0.0, 1.0], [0.5, 0.5]])
    else:
        d.update(times=np.array([1.0, 2.0]), lam_ref=np.array([0.5, 0.5]))
    f = load_poisson_prob if which == "poisson" else load_adcirc_prob
    with tempfile.TemporaryDirectory() as tmp:
        p = os.path.join(tmp, "set")
        with open(p, "wb") as fp:
            pickle.dump(d, fp)
        kw = {} if seed == 21 else {"seed": seed}
        raw, P = f(p, **kw) if sd is None else f(p, std_dev=sd, **kw)
    s = 0.05 if sd is None else sd
    T.true(list(raw) == list(d), "raw data returned")
    for k in d:
        T.eq(getattr(P, k), T.A(d[k]).reshape(getattr(P, k).shape), k)
    T.true((P.n_sensors, P.n_ts) == ((2, 1) if which == "poisson" else (1, 2)), "sizes")
    e = draws(T, 2, seed=seed)
    T.eq(np.ravel(P.measurements), T.A([4 + T.const(s) * e[0], 6 + T.const(s) * e[1]]),
         "measurements: true values plus noise")
    T.true(P.std_dev == s, "standard deviation")


def window(T, method):
    """only the times strictly inside the window are used"""
    from mud.examples.adcirc import adcirc_time_window
    P, lam, D, m, s = new(T, 2, 1, 4)
    P.times = np.array(["2018-01-01T00:00:00", "2018-01-02T00:00:00",
                        "2018-01-03T00:00:00", "2018-01-04T00:00:00"], "datetime64[s]")
    w, keep = T.choice("window", [
        (("2018-01-01 00:00:00", "2018-01-04 00:00:00"), [1, 2]),
        (("2017-12-31 00:00:00", "2018-01-02 12:00:00"), [0, 1]),
        (("2018-01-02 12:00:00", "2018-02-01 00:00:00"), [2, 3])])
    for j in range(4):
        T.assume(D[0, j] != D[1, j])
    kw = {} if method == "pca" else {"method": method}
    d = adcirc_time_window(P, w, plot_figs=[], **kw)
    e = P.mud_problem(method=method, num_components=1, times_mask=keep)
    e.estimate()
    T.eq(d.y, e.y, "aggregated data of the window")
    T.eq(d.mud_point(), e.mud_point(), "solution")


def contours(T, fig):
    """the problem asked for, solved, with its points on the figure asked for"""
    from mud.base import LinearGaussianProblem
    from mud.examples.linear import run_contours
    ax = T.patch_plots().ax
    real = LinearGaussianProblem.plot_fun_contours
    T.cleanup.append(lambda: setattr(LinearGaussianProblem, "plot_fun_contours", real))
    terms = []
    LinearGaussianProblem.plot_fun_contours = lambda self, **k: terms.append(k["terms"])
    y, mu = T.real("y"), T.arr("mu", (2, 1))
    kw = {}
    given = T.pick("given", 2)
    if given:
        kw = {"y": T.A([[y]]), "mean_i": mu, "cov_i": T.spd("C", 2, "diag")}
    P = run_contours(plot_fig=[fig], **kw)
    ref = {"A": np.array([[1, 1]]), "b": np.array([[0]]), "y": np.array([[1]]),
           "mean_i": np.array([[0.25, 0.25]]).T,
           "cov_i": np.array([[1, -0.25], [-0.25, 0.5]]), "cov_o": np.array([[1]])}
    ref.update(kw)
    R = LinearGaussianProblem(**ref)
    sol = {"mud": R.solve("mud"), "map": R.solve("map"), "ls": R.solve("ls"),
           "initial": R.mean_i}
    for k in ref:
        T.eq(getattr(P, k), getattr(R, k), k)
    want = {"data_mismatch": [], "tikhonov": ["initial"], "consistent": ["initial"],
            "map": ["initial", "ls", "map"], "mud": ["initial", "ls", "mud"],
            "comparison": ["initial", "ls", "map", "mud"]}[fig]
    sc = ax.by("scatter")
    if fig == "comparison":
        sc = sc[:-1]
    T.true(terms == {"data_mismatch": ["data"], "tikhonov": ["reg"],
                     "consistent": ["reg_m"], "map": ["bayes", "data"],
                     "mud": ["dc", "data"], "comparison": ["bayes", "data"]}[fig],
           "functionals drawn")
    T.true(len(sc) == len(want), "points drawn", f"{len(sc)}")
    for c, q in zip(sc, want):
        T.eq(T.A([np.ravel(c[1][0])[0], np.ravel(c[1][1])[0]]),
             T.A([sol[q][0, 0], sol[q][1, 0]]), q + " point drawn")


def high_dim(T, m):
    """relative errors of the three solutions, first rows and rank approximations"""
    import mud.examples.linear as ex
    from mud.base import LinearGaussianProblem
    T.patch_plots()
    A = np.array([[2.0, 0.0], [0.0, 1.0]])[:m]
    ref = T.arr("ref", (2, 1))
    T.assume(ref[0, 0] ** 2 + ref[1, 0] ** 2 > 1e-2)
    b = T.arr("b", (m, 1))
    C = np.diag([1.0, 0.5])
    y = T.A([[A[i, i] * ref[i, 0] + b[i, 0]] for i in range(m)])
    P = LinearGaussianProblem(A, b, y, cov_i=C)
    real = ex.random_linear_problem
    T.cleanup.append(lambda: setattr(ex, "random_linear_problem", real))
    ex.random_linear_problem = lambda **k: (ref, P)
    D, R = ex.run_high_dim_linear(dim_input=2, dim_output=m)
    T.true(len(D) == 3 and len(R) == 3, "three values of alpha")
    nn = ref[0, 0] ** 2 + ref[1, 0] ** 2
    for k, al in enumerate((1.0, 0.1, 0.001)):
        if not (T.shape(D[k], (m, 3), "errors per dimension and solution")
                and T.shape(R[k], (m, 3), "errors per rank and solution")):
            return
        # first row only: the second parameter is not informed
        T.eq(D[k][0, 0] ** 2 * nn, ref[1, 0] ** 2, "MUD error, one row")
        T.eq(D[k][0, 2] ** 2 * nn, ref[1, 0] ** 2, "least squares error, one row")
        w = T.const(al) * 4 / (1 + T.const(al) * 4)
        T.le(abs(D[k][0, 1] ** 2 * nn - ref[1, 0] ** 2 - (1 - w) ** 2 * ref[0, 0] ** 2),
             T.const(1e-9) * nn, "MAP error, one row")
        if m == 2:
            T.eq(D[k][1, 0], 0, "MUD error, all rows")
            T.eq(D[k][1, 2], 0, "least squares error, all rows")


def table(T):
    """rows of the results that match, fields in the order asked for"""
    import mud.examples.examples as ex
    T.cleanup.append(lambda real=ex.PrettyTable: setattr(ex, "PrettyTable", real))
    out = []

    class Rec:
        def __init__(self, **k):
            out.append(self)
            self.rows = []

        def add_row(self, r):
            self.rows.append(r)

        def __str__(self):
            return "table"
    ex.PrettyTable = Rec
    a, b = T.arr("a", 3), T.arr("b", 3)
    names = ["one", "two", "three"]
    res = [{"n": names[i], "a": a[i], "b": b[i]} for i in range(3)]
    f = T.choice("fields", [["a"], ["b", "a"], ["n", "b"]])
    how = T.choice("filter", ["none", "search", "function"])
    idx = [0, 1, 2]
    kw = {}
    if how == "search":
        m, idx = T.choice("match", [("^t", [1, 2]), ("e$", [0, 2]), ("x", []),
                                    (None, [0, 1, 2])])
        kw = {"search": "n"} if m is None else {"search": "n", "match": m}
    sgn = 1
    if how == "function":
        sgn = 2
        kw = {"filter_fun": lambda r: dict(r, a=2 * r["a"], b=2 * r["b"])}
    T.true(ex.print_res(res, f, **kw) == "table", "the table is returned as text")
    t = out[0]
    T.true(t.field_names == f, "fields")
    if T.true(len(t.rows) == len(idx), "rows") is None and len(t.rows) == len(idx):
        for r, i in zip(t.rows, idx):
            for v, g in zip(r, f):
                if g == "n":
                    T.true(v == names[i], "name")
                else:
                    T.eq(v, sgn * (a if g == "a" else b)[i], "value")


def wme_covariance(T, q):
    """spectra of the updated covariance, one more for each number of data"""
    import mud.examples.linear as ex
    from mud.base import LinearGaussianProblem
    T.patch_random()
    ax = T.patch_plots().ax
    real = ex.random_linear_wme_problem
    T.cleanup.append(lambda: setattr(ex, "random_linear_wme_problem", real))
    n, Ns, sg = 2, [1, 2], 0.5
    M, d = T.arr("M", (q, n)), T.arr("d", (q, max(Ns)))
    if q == 1:
        T.assume(M[0, 0] ** 2 + M[0, 1] ** 2 > 1e-2)
    else:
        T.assume((M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]) ** 2 > 1e-2)
    asked = []

    def stub(ref, std, **k):
        asked.append((ref, std, k))
        return [M[i:i + 1, :] for i in range(q)], [d[i] for i in range(q)], std
    ex.random_linear_wme_problem = stub
    seed = T.choice("seed", [None, 0, 7])
    P, a = ex.run_wme_covariance(dim_input=n, dim_output=q, sigma=sg, Ns=Ns, seed=seed)
    T.true(a is ax, "axes returned")
    u, k = (unif(T, n) if seed is None else [T.real(f"rng_s{seed}_{i}", lo=0, hi=1)
                                             for i in range(n)]), n
    hi, lo = (u[0], u[1]) if T.holds(u[0] >= u[1]) else (u[1], u[0])
    C = T.A([[hi + T.const(0.5), 0], [0, lo + T.const(0.5)]])
    T.eq(P.cov_i, C, "initial covariance: draws in descending order")
    ref = draws(T, n, k, seed)
    k += n
    T.eq(T.A(asked[0][0]), T.A([[v] for v in ref]), "reference parameter")
    T.true(len(asked) == 1 and asked[0][1] == [0] * q and asked[0][2]["num_qoi"] == q and
           asked[0][2]["num_observations"] == [max(Ns)] * q and asked[0][2]["repeated"],
           "one noiseless problem of repeated measurements")
    e = draws(T, q * max(Ns), k, seed)
    sc = ax.by("scatter")
    if T.true(len(sc) == len(Ns), "one spectrum each") is None and len(sc) != len(Ns):
        return
    for j, N in enumerate(Ns):
        r = T.sqrt(T.const(N))
        A = T.A([[r / T.const(sg) * M[i, c] for c in range(n)] for i in range(q)])
        b = [sum(-(d[i, t] + T.const(sg) * e[i * max(Ns) + t]) / T.const(sg)
                 for t in range(N)) / r for i in range(q)]
        if j == len(Ns) - 1:
            T.eq(P.A, A, "weighted mean error map of all data")
            T.eq(np.ravel(P.b), T.A(b), "its offset")
        U = LinearGaussianProblem(A, cov_i=C).updated_cov()
        s = np.ravel(sc[j][1][1])
        T.eq(np.ravel(sc[j][1][0]), T.A([1, 2]), "numbered")
        T.eq(s, np.linalg.svd(U, compute_uv=False), "spectrum of the updated covariance")


def comparison(T, p, Ns):
    """both problems of each number of data pose the polynomial example"""
    import mud.examples.comparison as ex
    keep = {k: getattr(ex, k) for k in ("polynomial_1D_data", "comparison_plot")}

    def restore():
        for k, v in keep.items():
            setattr(ex, k, v)
    T.cleanup.append(restore)
    ax = T.patch_plots().ax
    mu, sg = 0.25, 0.5
    lam, q = T.arr("lam", (2, 1), lo=-1, hi=1), T.arr("q", (2, 1), lo=-1, hi=1)
    spread(T, q)
    data = {N: T.arr(f"d{N}", N, lo=-1, hi=1) for N in Ns}
    asked, drawn = [], []

    def stub(**k):
        asked.append(k)
        return lam, q, data[k["N"]]

    def plot(d, b, space="param", ax=None):
        drawn.append((d, b, space))
        return T.ax()
    ex.polynomial_1D_data, ex.comparison_plot = stub, plot
    from scipy.stats import norm
    res = ex.run_comparison_example(p=p, num_samples=2, mu=mu, sigma=sg, N_vals=Ns)
    T.true([k["N"] for k in asked] == Ns and all(
        k["p"] == p and k["mu"] == mu and k["sigma"] == sg and k["num_samples"] == 2 and
        np.array_equal(k["domain"], [[-1, 1]]) for k in asked), "data asked for")
    T.true(len(res) == len(Ns), "one result each")
    for (D, B, _), N in zip(res, Ns):
        T.true([t[2] for t in drawn if t[0] is D and t[1] is B] == ["param", "obs"],
               "both spaces drawn")
        d = data[N]
        m = sum(d[i] for i in range(N)) / N
        k = T.kde(q.T).pdf(q.T)
        o = norm(m, T.const(sg))
        T.eq(D.X, lam, "samples")
        T.eq(B.y, q, "predictions")
        T.maximiser(D.mud_point(), lam, [o.pdf(q[i, 0]) / k[i] for i in range(2)],
                    "MUD point: data averaged")
        post = []
        for i in range(2):
            t = T.const(1)
            for j in range(N):
                t = t * norm(d[j], T.const(sg)).pdf(q[i, 0])
            post.append(t)
        T.maximiser(B.map_point(), lam, post, "MAP point: every datum counts")


PROP.add(wme_covariance, "wme-covariance-1", budget=120, q=1)
PROP.add(wme_covariance, "wme-covariance-2", tier="thorough", q=2)
PROP.add(comparison, "comparison-1", p=5, Ns=[1])
PROP.add(comparison, "comparison-2", p=3, Ns=[1, 2])
PROP.add(expression, "expression-1", n=1)
PROP.add(expression, "expression-2", n=2)
PROP.add(expression, "expression-axis", n=2, d=0)
PROP.add(spline, "spline", n=2)
PROP.add(spline, "spline-3", n=3)
PROP.add(load_poisson, "poisson", sd=None)
PROP.add(load_adcirc, "adcirc", sd=None)
PROP.add(window, "window-wme", method="wme")
PROP.add(window, "window-pca", method="pca")
for f in ("data_mismatch", "tikhonov", "consistent", "map", "mud", "comparison"):
    PROP.add(contours, "contours-" + f, fig=f)
PROP.add(high_dim, "high-dimension-1", m=1)
PROP.add(table, "table")
# configurations whose behaviour is a known finding, see known_findings.json
PROP.add(load_poisson, "finding-poisson-deviation", sd=0.5)
PROP.add(load_adcirc, "finding-adcirc-deviation", sd=0.5)
