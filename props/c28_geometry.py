import numpy as np

from engine.harness import Prop
from props.lin import dot
from props.st import mask, new

PROP = Prop(
    "C28", "Solution, contour, chain, sensor and series plots show what they name",
    assumptions=["matplotlib draws the points it is given (a recording axes stands in)"],
    outside="more than 3 observations, 3 samples or 3 sensors; styles, labels of axes")


def flat(T, v):
    return T.A(list(np.ravel(v)))


def problem(T, m, alpha=False):
    from mud.base import LinearGaussianProblem
    A, b, y = T.arr("A", (m, 2)), T.arr("b", (m, 1)), T.arr("y", (m, 1))
    for i in range(m):
        T.assume(dot(A[i], A[i]) > 1e-2)
        for j in range(2):
            T.assume(A[i, j] < 9)
            T.assume(A[i, j] > -9)
    mu, C = T.arr("mu", (2, 1)), T.spd("C", 2, "diag")
    return LinearGaussianProblem(A, b, y, mean_i=mu, cov_i=C), A, b, y, mu, C


def solution(T, point):
    """the point named, and a line to it from the initial mean"""
    P, A, b, y, mu, C = problem(T, 1)
    new = T.pick("axes", 2)
    ax = T.patch_plots().ax if new else T.ax()
    given = ax
    kw = {}
    label = T.pick("label", 2)
    loc = T.pick("location", 2) if label else 0
    if label:
        kw["label"] = "P"
        if loc:
            kw["note_loc"] = (T.real("lx"), T.real("ly"))
    if T.pick("no line", 2):
        kw["ln_opts"] = None
    if new:
        P.plot_sol(point=point, **kw)
    else:
        P.plot_sol(point=point, ax=given, **kw)
    want = mu if point == "initial" else P.solve(method=point)
    sc = ax.by("scatter")
    T.true(len(sc) == 1, "one point")
    T.eq(T.A([np.ravel(sc[0][1][0])[0], np.ravel(sc[0][1][1])[0]]), flat(T, want),
         "point drawn")
    T.true(sc[0][2].get("label") == point, "point named")
    ln = ax.by("plot")
    if point == "initial" or "ln_opts" in kw:
        T.true(not ln, "no line")
    else:
        T.true(len(ln) == 1, "one line")
        for k in range(2):
            T.eq(flat(T, ln[0][1][k]), T.A([mu[k, 0], np.ravel(want)[k]]),
                 "from the initial mean to the solution")
    an = ax.by("annotate")
    T.true(len(an) == int(label), "annotated if labelled")
    if label:
        T.true(an[0][1][0] == "P", "text")
        if loc:
            T.eq(flat(T, an[0][1][1]), flat(T, kw["note_loc"]), "place of the text")


def several(T, shared):
    """points drawn one after another on the same axes"""
    P, A, b, y, mu, C = problem(T, 1)
    ax = T.ax()
    pts = T.choice("order", [["mud", "map", "initial"], ["initial", "ls", "mud"],
                             ["map", "mud", "ls"]])
    kw = {"pt_opts": {"color": "r"}, "ln_opts": {"lw": 2}} if shared else {}
    for p in pts:
        P.plot_sol(point=p, ax=ax, **kw)
    sc = ax.by("scatter")
    T.true([c[2].get("label") for c in sc] == pts, "points named")
    for c, p in zip(sc, pts):
        T.eq(T.A([np.ravel(c[1][0])[0], np.ravel(c[1][1])[0]]),
             flat(T, mu if p == "initial" else P.solve(method=p)), "points drawn")
        if shared:
            T.true(c[2].get("color") == "r", "options of points")
    ln = ax.by("plot")
    T.true(len(ln) == len([p for p in pts if p != "initial"]), "lines to solutions")
    for c, p in zip(ln, [p for p in pts if p != "initial"]):
        T.eq(flat(T, c[1][1]), T.A([mu[1, 0], np.ravel(P.solve(method=p))[1]]),
             "lines to solutions")


def stale(T, point):
    """what is drawn is the solution of the problem as it stands"""
    P, A, b, y, mu, C = problem(T, 2)
    T.assume((A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]) ** 2 > 1e-2)
    P.solve(method=point, output_dim=1)
    ax = T.ax()
    P.plot_sol(point=point, ax=ax)
    sc = ax.by("scatter")[0]
    want = P.solve(method=point)
    T.eq(T.A([np.ravel(sc[1][0])[0], np.ravel(sc[1][1])[0]]), flat(T, want),
         "point drawn")


def calls(T, ax, ref, label):
    """both axes got the same drawing"""
    T.true([c[0] for c in ax.calls] == [c[0] for c in ref.calls], label + ": same drawing")
    for c, d in zip(ax.calls, ref.calls):
        T.true(len(c[1]) == len(d[1]), label + ": arguments")
        for u, v in zip(c[1], d[1]):
            if isinstance(v, str) or v is None:
                T.true(u == v, label + ": text")
            elif isinstance(v, (list, tuple, np.ndarray)) and len(v) \
                    and not isinstance(v[0], str):
                T.eq(flat(T, u), flat(T, v), label + ": points")


def axes(T):
    """with no axes given a figure's own are drawn on, and returned where axes are"""
    from mud.base import DensityProblem, IterativeLinearProblem
    from mud.plot import plot_1D_vecs
    T.patch_random()
    new_ = T.patch_plots().ax
    which = T.choice("plot", ["contours", "fun", "chain", "error", "qoi", "params", "scatter",
                              "contour", "ts", "vectors"])
    if which in ("contours", "fun"):
        P, *_ = problem(T, 1)
        r = T.arr("ref", 2)
        f = (lambda **k: P.plot_contours(ref=r, **k)) if which == "contours" else \
            (lambda **k: P.plot_fun_contours(N=2, **k))
    elif which in ("chain", "error"):
        A, b, y = T.arr("A", (2, 2)), T.arr("b", (2, 1)), T.arr("y", (2, 1))
        for i in range(2):
            T.assume(A[i, 0] > 0.1)
            T.assume(A[i, 0] < 5)
        P = IterativeLinearProblem(A, b, y=y)
        P.solve()
        r = T.arr("ref", (2, 1))
        f = (lambda **k: P.plot_chain(r, **k)) if which == "chain" else \
            (lambda **k: P.plot_chain_error(r, **k))
    elif which in ("qoi", "params"):
        D = DensityProblem(T.arr("X", (2, 3)), T.arr("y", (2, 3)), [[-9, 9]] * 3)
        f = D.plot_qoi if which == "qoi" else D.plot_params_2d
    elif which == "vectors":
        vs = [T.arr("u", 2), T.arr("v", 3)]
        f = lambda **k: plot_1D_vecs(vs, **k)  # noqa: E731
    else:
        P, *_ = new(T, 1, 3, 1, 1, 2, True, True, True)
        f = {"scatter": P.sensor_scatter_plot, "contour": P.sensor_contour_plot,
             "ts": P.plot_ts}[which]
    given = T.ax()
    r1, r2 = f(ax=given), f()
    T.true(len(given.calls) > 0, which + ": drawn")
    calls(T, new_, given, which)
    if r1 is not None:
        T.true(r1 is given and r2 is new_, which + ": axes returned")


def default_indices(T):
    """the first two columns, coloured by the first observable"""
    from mud.base import DensityProblem
    T.patch_plots()
    X, y = T.arr("X", (2, 3)), T.arr("y", (2, 3))
    D = DensityProblem(X, y, [[-9, 9]] * 3)
    ax = T.ax()
    D.plot_qoi(ax=ax)
    c = ax.by("scatter")[0]
    T.eq(c[1][0], y[:, 0], "first observable")
    T.eq(c[1][1], y[:, 1], "second observable")
    ax = T.ax()
    D.plot_params_2d(ax=ax)
    c = ax.by("scatter")[0]
    T.eq(c[1][0], X[:, 0], "first parameter")
    T.eq(c[1][1], X[:, 1], "second parameter")
    T.eq(c[2]["c"], y[:, 0], "first observable")
    T.true(not ax.by("tricontour"), "no contours unless asked for")


def saved(T):
    """figures go to the folder named, under their name, and are closed unless told"""
    import matplotlib.pyplot as plt
    from pathlib import Path
    from mud.plot import save_figure
    log = []
    keep = plt.savefig, plt.close
    plt.savefig = lambda f, **k: log.append(("save", str(f), k))
    plt.close = lambda *a: log.append(("close",))
    try:
        d = T.choice("folder", [None, "a", "/x/y", "."])
        c = T.choice("close", [None, True, False])
        kw = {} if d is None else {"save_path": d}
        if c is not None:
            kw["close_fig"] = c
        save_figure("f.png", dpi=7, **kw)
    finally:
        plt.savefig, plt.close = keep
    T.true(log[0][0] == "save" and Path(log[0][1]) == Path(d or "figures") / "f.png",
           "saved in the folder")
    T.true(log[0][2] == {"dpi": 7}, "options passed on")
    T.true(len(log) == (1 if c is False else 2), "closed unless told")


def contours(T, m, where, ref="given"):
    """a line per observation: through the reference, along which it is constant"""
    from mud.plot import plot_contours
    P, A, b, y, mu, C = problem(T, m)
    w = T.real("w", pos=True)
    sub = T.choice("subset", [None, [m - 1], list(range(m))[::-1]])
    idx = list(range(m)) if sub is None else sub
    r = T.arr("ref", 2) if T.pick("flat", 2) else T.arr("ref", (2, 1))
    loc = T.arr("loc", 2) if where != "function" and T.pick("place", 2) else None
    if where == "function":
        ax = T.patch_plots().ax
        plot_contours(A, r, subset=sub, w=w)
    else:
        ax = T.ax()
        if ref == "ls":
            P.plot_contours(subset=sub, ax=ax, w=w, annotate=True, note_loc=loc)
            r = P.solve(method="ls")
        else:
            P.plot_contours(ref=r, subset=sub, ax=ax, w=w, annotate=True, note_loc=loc)
    r = flat(T, r)
    ln, an = ax.by("plot"), ax.by("annotate")
    T.true(len(ln) == len(idx), "one line per observation")
    T.true(len(an) == len(idx), "one label per observation")
    for c, t, i in zip(ln, an, idx):
        x, z = np.ravel(T.A(c[1][0])), np.ravel(T.A(c[1][1]))
        T.eq(T.A([x[0] + x[1], z[0] + z[1]]), T.A([2 * r[0], 2 * r[1]]),
             "centred at the reference")
        T.eq(A[i, 0] * (x[1] - x[0]) + A[i, 1] * (z[1] - z[0]), 0,
             "the observation is constant along the line")
        T.eq((x[1] - x[0]) ** 2 + (z[1] - z[0]) ** 2, 4 * w * w, "length of the line")
        T.true(t[1][0] == str(i + 1), "number of the observation")
        T.eq(flat(T, t[1][1]), T.A([x[0], z[0]]) if loc is None else loc,
             "label at an end of the line, or where asked for")


def functionals(T, terms):
    """the values contoured are those of the functional at the mesh points"""
    P, A, b, y, mu, C = problem(T, 1)
    ax = T.ax()
    N = 2
    M = T.arr("mesh", (N * N, 2))
    P.plot_fun_contours(mesh=M, terms=terms, ax=ax, N=N, levels=5)
    c = ax.by("contour")
    T.true(len(c) == 1, "drawn once")
    v = P.compute_functionals(M, terms=terms)
    for k in range(2):
        if T.shape(c[0][1][k], (N, N), "mesh"):
            T.eq(np.ravel(c[0][1][k]), M[:, k], "mesh points")
    if T.shape(c[0][1][2], (N, N), "values"):
        T.eq(np.ravel(c[0][1][2]), np.ravel(v), "values of the functional")
    T.true(c[0][2].get("levels") == 5, "options passed on")


def unit(T):
    """by default over a square of side r"""
    P, A, b, y, mu, C = problem(T, 1)
    ax = T.ax()
    r = T.real("r", pos=True)
    P.plot_fun_contours(ax=ax, N=3, r=2 * r)
    x, z, v = ax.by("contour")[0][1]
    pts = T.A([[r * i, r * j] for j in (0, 1, 2) for i in (0, 1, 2)])
    T.eq(np.ravel(x), pts[:, 0], "mesh points")
    T.eq(np.ravel(z), pts[:, 1], "mesh points")
    T.eq(np.ravel(v), np.ravel(P.compute_functionals(pts, terms="dc")), "values")


def chain(T, epochs, where, fixed=False):
    """segments join consecutive iterates, start and end marked"""
    from mud.base import IterativeLinearProblem
    from mud.plot import plotChain
    A, b, y = T.arr("A", (2, 2)), T.arr("b", (2, 1)), T.arr("y", (2, 1))
    for i in range(2):
        T.assume(A[i, 0] > 0.1)
        T.assume(A[i, 0] < 5)
    if fixed:
        A = T.A([[2, 1], [-1, 3]])
    ref = T.arr("ref", (2, 1))
    if where == "function":
        ax = T.patch_plots().ax
        ch = [T.arr(f"c{k}", (2, 1)) for k in range(3)]
        plotChain(ch, ref)
        chains = [ch]
    else:
        P = IterativeLinearProblem(A, b, y=y, mu_i=T.arr("mu", (2, 1)))
        for k in [epochs] if not fixed or T.pick("one call", 2) else [1] * epochs:
            P.solve(num_epochs=k)
        ax = T.ax()
        w = T.pick("length of contours", 2)
        P.plot_chain(ref, ax=ax, **({"w": 3} if w else {}))
        chains = P.solution_chains
        cs = ax.by("plot")[-2:]
        for i, c in enumerate(cs):
            (x0, x1), (z0, z1) = np.ravel(T.A(c[1][0])), np.ravel(T.A(c[1][1]))
            T.eq(T.A([x0 + x1, z0 + z1]), T.A([2 * ref[0, 0], 2 * ref[1, 0]]),
                 "contours go through the reference")
            if fixed:
                T.eq(A[i, 0] * (x1 - x0) + A[i, 1] * (z1 - z0), 0, "along a contour")
                T.le(abs((x1 - x0) * (x1 - x0) + (z1 - z0) * (z1 - z0)
                         - (36 if w else 4)), 1e-6, "of the length asked for")
    ln, sc = ax.by("plot"), ax.by("scatter")
    # segments in order; a segment of no length may be there or not
    segs = []
    for c in ln:
        x, z = np.ravel(T.A(c[1][0])), np.ravel(T.A(c[1][1]))
        segs.append(((x[0], z[0]), (x[-1], z[-1])))
    steps = [(p[0, 0], p[1, 0], q[0, 0], q[1, 0]) for ch in chains
             for p, q in zip(ch, ch[1:])]
    if where != "function":
        segs = segs[:len(segs) - 2]  # then come the contours, one per observation
    degenerate = len(segs) - len(steps)
    T.true(degenerate in (0, len(chains)), "one segment per step")
    k = 0
    for ch in chains:
        if degenerate:
            T.eq(T.A(list(segs[k][0])), T.A(list(segs[k][1])), "no length")
            T.eq(T.A(list(segs[k][0])), flat(T, ch[0]), "at the start")
            k += 1
        for p, q in zip(ch, ch[1:]):
            T.eq(T.A(list(segs[k][0])), flat(T, p), "from an iterate")
            T.eq(T.A(list(segs[k][1])), flat(T, q), "to the next")
            k += 1
    marks = [(c[2].get("c"), T.A([np.ravel(c[1][0])[0], np.ravel(c[1][1])[0]]))
             for c in sc]
    for n, ch in enumerate(chains):
        st = [p for c, p in marks if c == "b"]
        T.eq(st[n], flat(T, ch[0]), "start marked")
        rf = [p for c, p in marks if c == "r"]
        T.eq(rf[n], flat(T, ref), "reference marked")
        if where != "function":
            en = [p for c, p in marks if c == "g"]
            T.eq(en[n], flat(T, ch[-1]), "end marked")


def errors(T):
    """the errors plotted are those to the reference given"""
    from mud.base import IterativeLinearProblem
    A, b, y = T.arr("A", (2, 1)), T.arr("b", (2, 1)), T.arr("y", (2, 1))
    for i in range(2):
        T.assume(A[i, 0] > 0.1)
    P = IterativeLinearProblem(A, b, y=y, mu_i=T.arr("mu", (1, 1)))
    P.solve(num_epochs=1)
    ref = T.arr("ref", (1, 1))
    if T.pick("other first", 2):
        P.get_errors(T.arr("other", (1, 1)))
    ax = T.ax()
    P.plot_chain_error(ref, ax=ax)
    c = ax.by("plot")
    T.true(len(c) == 1, "one curve")
    e = c[0][1][0]
    sols = P.solution_chains[0][1:]
    T.true(len(e) == len(sols), "one error per step")
    for a, s in zip(e, sols):
        T.eq(a * a, (s[0, 0] - ref[0, 0]) ** 2, "distance to the reference")
        T.true(a >= 0, "distance")
    T.true(any(k[1] == ("log",) for k in ax.by("set_yscale")), "logarithmic")


def qoi(T, n, f):
    from mud.base import DensityProblem
    X, y = T.arr("X", (n, 3)), T.arr("y", (n, f))
    D = DensityProblem(X, y, [[-9, 9]] * 3)
    i, j = T.pick("i", f), T.pick("j", f)
    ax = T.ax()
    D.plot_qoi(idx_x=i, idx_y=j, ax=ax, s=3)
    c = ax.by("scatter")[0]
    T.eq(c[1][0], y[:, i], "observable along x")
    T.eq(c[1][1], y[:, j], "observable along y")
    T.true(c[2].get("s") == 3, "options passed on")


def params2d(T, n, f):
    from mud.base import DensityProblem
    T.patch_plots()
    X, y = T.arr("X", (n, 3)), T.arr("y", (n, f))
    D = DensityProblem(X, y, [[-9, 9]] * 3)
    i, j, k = T.pick("i", 3), T.pick("j", 3), T.pick("k", f)
    ct = bool(T.pick("contours", 2))
    ax = T.ax()
    D.plot_params_2d(x_1=i, x_2=j, y=k, contours=ct, ax=ax)
    c = ax.by("scatter")[0]
    T.eq(c[1][0], X[:, i], "parameter along x")
    T.eq(c[1][1], X[:, j], "parameter along y")
    T.eq(c[2]["c"], y[:, k], "coloured by the observable")
    t = ax.by("tricontour")
    T.true(len(t) == int(ct), "contours if asked for")
    if ct:
        T.eq(t[0][1][0], X[:, i], "contours over x")
        T.eq(t[0][1][1], X[:, j], "contours over y")
        T.eq(t[0][1][2], y[:, k], "contours of the observable")


def params2d_refused(T):
    from mud.base import DensityProblem
    X, y = T.arr("X", (2, 2)), T.arr("y", (2, 1))
    D = DensityProblem(X, y, [[-9, 9]] * 2)
    a = T.choice("bad", [{"x_1": 2}, {"x_2": 2}, {"y": 1}, {"x_1": 5, "x_2": 0}])
    T.raises(ValueError, lambda: D.plot_params_2d(ax=T.ax(), **a), "no such index")
    E = DensityProblem(X[:, :1], y, [[-9, 9]])
    T.raises(AttributeError, lambda: E.plot_params_2d(ax=T.ax()), "one parameter only")


def sensors(T, how):
    T.patch_plots()
    P, lam, D, m, _ = new(T, 2, 3, 1, 1, 2, True, True, True)
    mk, keep = mask(T, "sensors", 3, ("none", "bool", "index"))
    at = (np.arange(6).reshape(3, 2) / 4)[keep]
    ax = T.ax()
    if how == "scatter":
        col = T.arr("c", len(keep))
        P.sensor_scatter_plot(ax=ax, mask=mk, c=col, colorbar=True)
        c = ax.by("scatter")[0]
        T.eq(c[2]["c"], col, "colours given")
    else:
        fill = bool(T.pick("fill", 2))
        i = T.pick("sample", 2)
        if mk is None and T.pick("values", 2) == 0:
            P.sensor_contour_plot(idx=i, ax=ax, fill=fill)
            v = D[i]
        else:
            v = T.arr("v", len(keep))
            P.sensor_contour_plot(idx=i, c_vals=v, ax=ax, mask=mk, fill=fill)
        c = ax.by("tricontourf" if fill else "tricontour")
        T.true(len(c) == 1, "filled if asked for")
        if not c:
            return
        c = c[0]
        T.eq(c[1][2], v, "values at the sensors")
    T.eq(c[1][0], T.A(at[:, 0]), "sensor locations")
    T.eq(c[1][1], T.A(at[:, 1]), "sensor locations")


def series(T, S, t):
    """measured and simulated series of the sensor and times asked for"""
    T.patch_random()
    n = 2
    P, lam, D, m, _ = new(T, n, S, t, 1, 2, True, True, True)
    e = T.pick("sensor", S)
    tm, kt = mask(T, "times", t, ("none", "bool", "index"))
    sm, ks = mask(T, "samples", n, ("none", "bool"))
    ax = T.ax()
    most = T.choice("max_plot", [None, 1, 2, 5])
    P.plot_ts(ax=ax, samples=sm, times=tm, sensor_idx=e,
              **({} if most is None else {"max_plot": most}))
    sc, ln = ax.by("scatter"), ax.by("plot")
    T.true(len(sc) == 1, "measured once")
    at = T.A(np.ravel(np.asarray(P.times)[kt]))
    T.eq(flat(T, sc[0][1][0]), at, "times measured")
    T.eq(flat(T, sc[0][1][1]), T.A([m[e * t + k] for k in kt]), "measurements")
    T.true(len(ln) == min(len(ks), most or 100), "one series per sample drawn")
    rows = [T.A([D[i, e * t + k] for k in kt]) for i in ks]
    for c in ln:
        T.eq(flat(T, c[1][0]), at, "times simulated")
        T.maximiser(flat(T, c[1][1]), T.A([list(r) for r in rows]), T.A([0] * len(ks)),
                    "simulated series of a kept sample")


def vectors(T):
    """components of each vector over their index"""
    from mud.plot import plot_1D_vecs
    vs = [T.arr("u", 2), T.arr("v", 3)]
    ax = T.ax()
    mk = [None, ["o", "x"]][T.pick("markers", 2)]
    plot_1D_vecs(vs, markers=mk, ax=ax, label=bool(T.pick("label", 2)))
    sc = ax.by("scatter")
    T.true(len(sc) == 2, "one series per vector")
    for i, (c, v) in enumerate(zip(sc, vs)):
        T.eq(T.A(list(c[1][0])), T.A(list(range(len(v)))), "index")
        T.eq(c[1][1], v, "component")
        if mk:
            T.true(c[2]["marker"] == mk[i], "marker")


for p in ("mud", "map", "ls", "initial"):
    PROP.add(solution, "solution-" + p, point=p)
PROP.add(several, "solutions", shared=False)
PROP.add(several, "solutions-options", shared=True)
for p in ("mud", "map", "ls"):
    PROP.add(stale, "solution-after-part-" + p, point=p)
PROP.add(axes, "default-axes")
PROP.add(default_indices, "default-indices")
PROP.add(saved, "saved")
PROP.add(contours, "contours-1", m=1, where="method")
PROP.add(contours, "contours-2", m=2, where="method")
PROP.add(contours, "contours-ls", m=1, where="method", ref="ls")
PROP.add(contours, "contours-function", m=2, where="function")
PROP.add(functionals, "functionals-dc", terms="dc")
PROP.add(functionals, "functionals-bayes", terms="bayes")
PROP.add(functionals, "functionals-data", terms="data")
PROP.add(unit, "functionals-unit-square")
PROP.add(chain, "chain", epochs=1, where="method")
PROP.add(chain, "chain-sweeps", epochs=3, where="method", fixed=True)
PROP.add(chain, "chain-function", epochs=1, where="function")
PROP.add(errors, "chain-errors")
PROP.add(qoi, "observables", n=2, f=3)
PROP.add(params2d, "parameters", n=2, f=2)
PROP.add(params2d_refused, "parameters-refused")
PROP.add(sensors, "sensors-scatter", how="scatter")
PROP.add(sensors, "sensors-contour", how="contour")
PROP.add(series, "series", S=2, t=3)
PROP.add(vectors, "vectors")
PROP.add(chain, "chain-epochs", tier="thorough", epochs=2, where="method")
PROP.add(contours, "contours-3", tier="thorough", m=3, where="method")

# the same with arrays stored in column order, or backwards
PROP.turned("contours-2", "chain", "observables", "parameters")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-contours-2", "contours-2", "contours-2")
PROP.sequence("again-contours-function", "contours-function", "contours-function")
PROP.sequence("again-solution-mud", "solution-mud", "solution-mud")
PROP.sequence("same-solution-mud-then-map", "solution-mud", "solution-map", how="same")
PROP.sequence("again-functionals-dc", "functionals-dc", "functionals-dc")
PROP.sequence("same-functionals-dc-then-bayes", "functionals-dc", "functionals-bayes", how="same")
PROP.sequence("again-chain", "chain", "chain")
PROP.sequence("again-observables", "observables", "observables")
