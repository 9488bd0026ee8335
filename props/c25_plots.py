import itertools

import numpy as np

from engine.harness import Prop
from props.den import spread

PROP = Prop(
    "C25", "Plotted densities are the normalised marginals of the current solution",
    assumptions=["matplotlib draws the points it is given (a recording axes stands in)",
                 "a kernel density estimate is an uninterpreted positive function of "
                 "point, samples and weights"],
    outside="more than 4 samples, 2 plotted dimensions, 5 points per axis")


def lin(a, b, aff):
    """the points plotted: the axis without its end"""
    return [a + (b - a) * k / (aff - 1) for k in range(aff - 1)]


def marginal(T, f, axes, idx):
    """sums of f over the grid of all other axes"""
    out = []
    for v in axes[idx]:
        t = 0
        for rest in itertools.product(*[axes[j] for j in range(len(axes)) if j != idx]):
            pt = list(rest)
            pt.insert(idx, v)
            t = t + f(pt)
        out.append(t)
    return out


def curve(T, call, xs, m, label, normed=True, many=False):
    """the curve drawn has these points and is proportional to m"""
    a = call[1]
    if not (T.shape(a[0], (len(xs),), label + ": points")
            and T.shape(a[1], (len(xs),), label + ": values")):
        return
    T.eq(a[0], T.A(xs), label + ": points")
    y = a[1]
    if many:
        dx = abs(xs[1] - xs[0])
        i = T.choice("point", [1, len(xs) // 2, len(xs) - 1])
        T.eq(y[i] * m[0], y[0] * m[i], label + ": marginal")
        T.le(abs(sum(y) * dx - 1), 1e-6, label + ": normalised")
    elif normed:
        dx = abs(xs[1] - xs[0])
        tot = sum(m)
        T.assume(tot > 1e-100)  # some density within reach of floating point
        for k in range(len(xs)):
            T.eq(y[k] * tot * dx, m[k], label + ": normalised marginal")
    else:
        for k in range(1, len(xs)):
            T.eq(y[k] * m[0], y[0] * m[k], label + ": marginal")
        T.true(y[0] > 0, label + ": positive")


def named(calls, label):
    return [c for c in calls if c[2].get("label") == label]


def dist_kde(T, d, idx, aff, weighted=False, back=False):
    """a kernel density estimate over a domain"""
    from mud.plot import plot_dist
    n = d + 1
    X = T.arr("X", (n, d))
    spread(T, X)
    w = T.arr("w", n, pos=True) if weighted else None
    a, b = T.arr("a", d), T.arr("b", d, pos=True)
    if back:  # ranges given from maximum to minimum
        b = -b
    dom = T.A([[a[i], a[i] + b[i]] for i in range(d)])
    k = T.kde(X.T, w)
    ax = T.ax()
    r = plot_dist(k, dom, ax=ax, idx=idx, source="kde", aff=aff, color="b")
    T.true(r is ax, "axes returned")
    axes = [lin(a[i], a[i] + b[i], aff) for i in range(d)]
    m = marginal(T, lambda p: T.kde(X.T, w)(T.A(p).reshape(d, 1))[0], axes, idx)
    T.true(len(ax.by("plot")) == 1, "one curve")
    curve(T, ax.by("plot")[0], axes[idx], m, "density estimate")


def dist_pdf(T, d, idx, aff, back=False):
    """a distribution with one factor per dimension"""
    from mud.plot import plot_dist
    a, b = T.arr("a", d), T.arr("b", d, pos=True)
    if back:
        b = -b
    dom = T.A([[a[i], a[i] + b[i]] for i in range(d)])
    f = T.density("f")
    ax = T.ax()
    plot_dist(f, dom, ax=ax, idx=idx, source="pdf", aff=aff)
    xs = lin(a[idx], a[idx] + b[idx], aff)
    curve(T, ax.by("plot")[0], xs, [f.pdf(x) for x in xs], "density")


def fine(T, d, idx, aff, source):
    """as many points as usual, over known ranges"""
    from mud.plot import plot_dist
    dom = np.array([[-1.0, 1.0], [0.5, 3.0], [-2.0, -1.5]][:d])
    ax = T.ax()
    axes = [[T.const(float(x)) for x in np.linspace(*r, aff or 100)[:-1]] for r in dom]
    if source == "pdf":
        f = T.density("f")
        want = [f.pdf(x) for x in axes[idx]]
    else:
        X = T.arr("X", (d + 1, d))
        spread(T, X)
        f = T.kde(X.T, None)
        pts = T.A([list(p) for p in itertools.product(*axes)]).T
        v = np.reshape(T.A(T.kde(X.T, None)(pts)), [len(a) for a in axes])
        want = list(v.sum(axis=tuple(j for j in range(d) if j != idx)))
    plot_dist(f, dom, ax=ax, idx=idx, source=source, **({"aff": aff} if aff else {}))
    curve(T, ax.by("plot")[0], axes[idx], want, "fine", many=aff is None)


def dist_normal(T, idx, aff):
    """different factors in different dimensions"""
    from scipy.stats import norm
    from mud.plot import plot_dist
    m, s = T.arr("m", 2), T.arr("s", 2, pos=True)
    dom = np.array([[-1.0, 1.0], [0.0, 2.0]])
    ax = T.ax()
    plot_dist(norm(m, s), dom, ax=ax, idx=idx, source="pdf", aff=aff)
    axes = [[T.const(float(x)) for x in np.linspace(a, b, aff)[:-1]] for a, b in dom]

    def joint(q):
        return norm(m[0], s[0]).pdf(q[0]) * norm(m[1], s[1]).pdf(q[1])
    curve(T, ax.by("plot")[0], axes[idx], marginal(T, joint, axes, idx), "normal")


def refused(T):
    from mud.plot import plot_dist
    T.raises(ValueError, lambda: plot_dist(T.density("f"), np.array([[0.0, 1.0]]),
                                           ax=T.ax(), source="cdf"), "unknown source")


def problem(T, n, p, f, weighted=False, pred=True, domain=None):
    from mud.base import DensityProblem
    X, y = T.arr("X", (n, p), lo=0, hi=1), T.arr("y", (n, f), lo=-2, hi=2)
    spread(T, X)
    spread(T, y)
    w = T.arr("w", n, pos=True) if weighted else None
    D = DensityProblem(X, y, domain or [[0.0, 1.0]] * p, weights=w)
    i_, o_, r_ = T.density("init"), T.density("obs"), T.density("pred")
    D.set_initial(i_)
    D.set_observed(o_)
    if pred:
        D.set_predicted(r_)
    W = [T.const(1)] * n if w is None else [w[k] for k in range(n)]
    return D, X, y, W, i_, o_, r_


def ratios(T, y, W, o_, r_, n, f):
    """observed over predicted"""
    out = []
    k = None if r_ is not None else T.kde(y.T, T.A(W)).pdf(y.T)
    for i in range(n):
        t = T.const(1)
        for j in range(f):
            t = t * o_.pdf(y[i, j])
        if r_ is None:
            t = t / k[i]
        else:
            for j in range(f):
                t = t / r_.pdf(y[i, j])
        out.append(t)
    return out


def updates(T, X, r, W, i_, n, p):
    up = []
    for k in range(n):
        t = r[k] * W[k]
        for j in range(p):
            t = t * i_.pdf(X[k, j])
        up.append(t)
    return up


def params(T, n, p, idx, aff, weighted=False, later=False, x_range=True, domain=None):
    D, X, y, W, i_, o_, r_ = problem(T, n, p, 1, weighted, domain=domain)
    if later:  # settings that change after a first estimate
        D.mud_point()
        o_ = T.density("obs2")
        D.set_observed(o_)
        if weighted:
            w2 = T.arr("v", n, pos=True)
            D.set_weights(w2)
            W = [w2[k] for k in range(n)]
            D.set_predicted(r_)
    r = ratios(T, y, W, o_, r_, n, 1)
    ax = T.ax()
    kw = {}
    if x_range:
        a, b = T.arr("a", p), T.arr("b", p, pos=True)
        kw["x_range"] = T.A([[a[i], a[i] + b[i]] for i in range(p)])
        axes = [lin(a[i], a[i] + b[i], aff) for i in range(p)]
    else:
        # a domain of whole numbers: see the finding on integer bounds (C05)
        pad = T.choice("pad", [0, 1, 2] if domain else [None, 0, 0.25, 1])
        if pad is not None:
            kw["pad_ratio"] = pad
        pad = 0.05 if pad is None else pad
        dom = [(a - pad * (b - a), b + pad * (b - a)) for a, b in domain or [[0, 1]] * p]
        axes = [[T.const(float(v)) for v in np.linspace(*d, aff)[:-1]] for d in dom]
    tv = T.arr("true", p)
    D.plot_param_space(param_idx=idx, ax=ax, aff=aff, true_val=tv, ylim=2.5,
                       in_opts={"label": "i"}, up_opts={"label": "u"},
                       win_opts={"label": "w"}, mud_opts={"label": "m"},
                       true_opts={"label": "t"}, **kw)
    calls = ax.by("plot")
    if not all(len(named(calls, c)) == 1 for c in "iuwmt"):
        T.fail("one curve each")
        return
    curve(T, named(calls, "i")[0], axes[idx], [i_.pdf(x) for x in axes[idx]], "initial")

    def by(ws):
        k = T.kde(X.T, T.A(ws))
        return marginal(T, lambda q: k(T.A(q).reshape(p, 1))[0], axes, idx)
    curve(T, named(calls, "u")[0], axes[idx], by([r[k] * W[k] for k in range(n)]),
          "updated")
    curve(T, named(calls, "w")[0], axes[idx], by(W), "weighted initial")
    c = named(calls, "t")[0][1]
    T.eq(c[0], T.A([tv[idx]] * 2), "true value: location")
    T.eq(c[1], T.A([0.0, 2.5]), "true value: height")
    c = named(calls, "m")[0][1]
    T.eq(c[0][0], c[0][1], "MUD: vertical")
    T.eq(c[0][0], D.mud_point()[idx], "MUD: location")
    up = updates(T, X, r, W, i_, n, p)
    T.maximiser(D.mud_point(), X, up, "MUD point")


def suppressed(T):
    """curves given no options are not drawn"""
    D, X, y, W, i_, o_, r_ = problem(T, 2, 1, 1)
    keep = [bool(T.pick(c, 2)) for c in "iuwm"]
    names = ("in_opts", "up_opts", "win_opts", "mud_opts")
    ax = T.ax()
    D.plot_param_space(ax=ax, aff=3, **{
        nm: {"label": c} if k else None for nm, k, c in zip(names, keep, "iuwm")})
    for k, c in zip(keep, "iuwm"):
        T.true(len(named(ax.by("plot"), c)) == int(k), "curves asked for")
    T.true(len(ax.by("plot")) == sum(keep), "and no others")


def observables(T, n, f, idx, aff, weighted=False, pred="kde", later=False,
                y_range=True):
    from scipy.stats import norm
    D, X, y, W, i_, o_, r_ = problem(T, n, 1, f, weighted, False)
    m = s = None
    if pred == "normal":
        m, s = T.real("pm", lo=-1, hi=1), T.real("ps", lo=0.5, hi=2)
        r_ = norm(m, s)
        D.set_predicted(r_)
    else:
        r_ = None
        D.expected_ratio()  # the predicted density has to be set, or estimated
    if later:
        D.expected_ratio()
        o_ = T.density("obs2")
        D.set_observed(o_)
    r = ratios(T, y, W, o_, r_, n, f)
    kw = {}
    if y_range:
        a, b = T.arr("a", f), T.arr("b", f, pos=True)
        axes = [lin(a[i], a[i] + b[i], aff) for i in range(f)]
        kw["y_range"] = T.A([[a[i], a[i] + b[i]] for i in range(f)])
        if T.pick("form", 2):
            kw["y_range"] = [list(r) for r in kw["y_range"]]
    else:   # that of the predictions, and a tenth more on each side
        axes = []
        for j in range(f):
            lo, hi = T.extent(y[i, j] for i in range(n))
            t = T.const(0.1) * (hi - lo)
            axes.append(lin(lo - t, hi + t, aff))
    ax = T.ax()
    D.plot_obs_space(obs_idx=idx, ax=ax, aff=aff, ob_opts={"label": "o"},
                     pr_opts={"label": "p"}, pf_opts={"label": "f"}, **kw)
    calls = ax.by("plot")
    if not all(len(named(calls, c)) == 1 for c in "opf"):
        T.fail("one curve each")
        return
    curve(T, named(calls, "o")[0], axes[idx], [o_.pdf(x) for x in axes[idx]],
          "observed")

    def by(ws):
        k = T.kde(y.T, T.A(ws))
        return marginal(T, lambda q: k(T.A(q).reshape(f, 1))[0], axes, idx)
    curve(T, named(calls, "p")[0], axes[idx],
          by(W) if r_ is None else [r_.pdf(x) for x in axes[idx]], "predicted")
    curve(T, named(calls, "f")[0], axes[idx], by([r[k] * W[k] for k in range(n)]),
          "push-forward of the update")


def bayes(T, n, p, idx, aff, log=False, later=False, default=False):
    from mud.base import BayesProblem
    X, y = T.arr("X", (n, p)), T.arr("y", (n, 2))
    spread(T, X)
    pr, ll = T.density("prior"), T.density("ll")
    dom = [[-3, 1], [0, 5]][:p] if default else [[-50, 50]] * p
    B = BayesProblem(X, y, domain=dom)
    B.set_prior(pr)
    B.set_likelihood(ll, log=log)
    if later:
        B.map_point()
        ll = T.density("ll2")
        B.set_likelihood(ll, log=log)
    kw = {}
    if default:
        axes = [lin(T.const(a), T.const(b), aff) for a, b in dom]
    else:
        a, b = T.arr("a", p), T.arr("b", p, pos=True)
        axes = [lin(a[i], a[i] + b[i], aff) for i in range(p)]
        kw["x_range"] = T.A([[a[i], a[i] + b[i]] for i in range(p)])
    tv = T.arr("true", p)
    ax = T.ax()
    B.plot_param_space(param_idx=idx, ax=ax, aff=aff, true_val=tv, **kw,
                       pr_opts={"label": "p"}, ps_opts={"label": "s"},
                       map_opts={"label": "m"}, true_opts={"label": "t"})
    calls = ax.by("plot")
    if not all(len(named(calls, c)) == 1 for c in "psmt"):
        T.fail("one curve each")
        return
    curve(T, named(calls, "p")[0], axes[idx], [pr.pdf(x) for x in axes[idx]], "prior")
    ps = []
    for i in range(n):
        t = ll.pdf(y[i, 0]) * ll.pdf(y[i, 1])
        for j in range(p):
            t = t * pr.pdf(X[i, j])
        ps.append(t)
    k = T.kde(X.T, T.A(ps))
    curve(T, named(calls, "s")[0], axes[idx],
          marginal(T, lambda q: k(T.A(q).reshape(p, 1))[0], axes, idx), "posterior")
    T.eq(named(calls, "t")[0][1][0], T.A([tv[idx]] * 2), "true value: location")
    c = named(calls, "m")[0][1]
    T.eq(c[0], T.A([B.map_point()[idx]] * 2), "MAP: location")
    T.maximiser(B.map_point(), X, ps, "MAP point")


def bayes_obs(T, n, f, idx, aff, log=False, default=False):
    from mud.base import BayesProblem
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, f))
    spread(T, y)
    pr, ll = T.density("prior"), T.density("ll")
    B = BayesProblem(X, y, domain=[[-50, 50]])
    B.set_prior(pr)
    B.set_likelihood(ll, log=log)
    B.fit()
    kw = {}
    if default:     # from -1 to 1
        axes = [lin(T.const(-1), T.const(1), aff)] * f
    else:
        a, b = T.arr("a", f), T.arr("b", f, pos=True)
        axes = [lin(a[i], a[i] + b[i], aff) for i in range(f)]
        kw["y_range"] = T.A([[a[i], a[i] + b[i]] for i in range(f)])
        if T.pick("form", 2):
            kw["y_range"] = [list(r) for r in kw["y_range"]]
    ax = T.ax()
    B.plot_obs_space(obs_idx=idx, ax=ax, aff=aff, **kw,
                     ll_opts={"label": "l"}, pf_opts={"label": "f"})
    calls = ax.by("plot")
    if not all(len(named(calls, c)) == 1 for c in "lf"):
        T.fail("one curve each")
        return
    curve(T, named(calls, "l")[0], axes[idx], [ll.pdf(x) for x in axes[idx]],
          "likelihood", normed=False)
    ps = []
    for i in range(n):
        t = pr.pdf(X[i, 0])
        for j in range(f):
            t = t * ll.pdf(y[i, j])
        ps.append(t)
    k = T.kde(y.T, T.A(ps))
    curve(T, named(calls, "f")[0], axes[idx],
          marginal(T, lambda q: k(T.A(q).reshape(f, 1))[0], axes, idx),
          "push-forward of the posterior", normed=False)


def axes(T):
    """with no axes given the same is drawn on new ones, and they are returned"""
    from mud.base import BayesProblem
    from mud.plot import plot_dist
    own = T.patch_plots().ax
    which = T.choice("plot", ["dist", "params", "obs", "bayes", "bayes_obs"])
    a, b = T.real("a"), T.real("b", pos=True)
    r = T.A([[a, a + b]])
    if which == "dist":
        d = T.density("f")
        f = lambda **k: plot_dist(d, r, source="pdf", aff=3, **k)  # noqa: E731
    elif which in ("params", "obs"):
        D, X, y, W, i_, o_, r_ = problem(T, 2, 1, 1, pred=False)
        D.estimate()
        f = (lambda **k: D.plot_param_space(x_range=r, aff=3, **k)) if which == "params" \
            else (lambda **k: D.plot_obs_space(y_range=r, aff=3, **k))
    else:
        X, y = T.arr("X", (2, 1)), T.arr("y", (2, 1))
        spread(T, X)
        spread(T, y)
        B = BayesProblem(X, y, [[-50, 50]])
        B.set_prior(T.density("prior"))
        B.set_likelihood(T.density("ll"))
        B.fit()
        f = (lambda **k: B.plot_param_space(x_range=r, aff=3, **k)) if which == "bayes" \
            else (lambda **k: B.plot_obs_space(y_range=r, aff=3, **k))
    given = T.ax()
    T.true(f(ax=given) is given, which + ": axes given are returned")
    T.true(f() is own, which + ": new axes are returned")
    p, q = given.by("plot"), own.by("plot")
    T.true(len(p) == len(q) > 0, which + ": same curves")
    for c, d in zip(p, q):
        for k in range(2):
            T.eq(T.A(list(np.ravel(T.A(list(c[1][k]))))),
                 T.A(list(np.ravel(T.A(list(d[1][k]))))), which + ": same points")


def range_refused(T):
    """ranges for another number of observables are refused"""
    D, X, y, W, i_, o_, r_ = problem(T, 3, 1, 2, pred=False)
    D.estimate()
    for r in ([[0.0, 1.0]], [[0.0, 1.0]] * 3):
        T.raises(ValueError, lambda: D.plot_obs_space(ax=T.ax(), y_range=r, aff=3),
                 "range of another dimension")


def vert(T):
    """a vertical line spans the plot and leaves its limits"""
    from mud.plot import plot_vert_line
    ax, x = T.ax(), T.real("x")
    v = T.pick("ylim", 4)
    if v:
        h = [T.real("h", pos=True), 0, T.const(-2)][v - 1]
        plot_vert_line(ax, x, ylim=h, color="r")
    else:
        h = 1.0
        plot_vert_line(ax, x, color="r")
    c = ax.by("plot")[0]
    T.eq(c[1][0], T.A([x, x]), "location")
    T.eq(c[1][1], T.A([0.0, h]), "span")
    T.eq(T.A(list(ax.get_ylim())), T.A([0.0, h]), "limits")


PROP.add(dist_kde, "estimate-1d", d=1, idx=0, aff=4)
PROP.add(dist_kde, "estimate-1d-weighted", d=1, idx=0, aff=4, weighted=True)
PROP.add(dist_kde, "estimate-2d-0", d=2, idx=0, aff=3)
PROP.add(dist_kde, "estimate-2d-1", d=2, idx=1, aff=3)
PROP.add(dist_kde, "estimate-3d-0", d=3, idx=0, aff=3)
PROP.add(dist_kde, "estimate-3d-1", d=3, idx=1, aff=3)
PROP.add(dist_kde, "estimate-3d-2", d=3, idx=2, aff=3)
PROP.add(dist_pdf, "density-3d", d=3, idx=1, aff=3)
PROP.add(dist_pdf, "density-1d", d=1, idx=0, aff=4)
PROP.add(dist_pdf, "density-2d-0", d=2, idx=0, aff=3)
PROP.add(dist_pdf, "density-2d-1", d=2, idx=1, aff=3)
PROP.add(dist_kde, "estimate-1d-backwards", d=1, idx=0, aff=4, back=True)
PROP.add(dist_kde, "estimate-2d-backwards", d=2, idx=1, aff=3, back=True)
PROP.add(dist_pdf, "density-1d-backwards", d=1, idx=0, aff=4, back=True)
PROP.add(fine, "fine-density", d=1, idx=0, aff=None, source="pdf")
PROP.add(fine, "fine-estimate", d=1, idx=0, aff=None, source="kde")
PROP.add(fine, "fine-estimate-2d", d=2, idx=1, aff=16, source="kde")
PROP.add(fine, "fine-estimate-3d", d=3, idx=2, aff=5, source="kde")
PROP.add(dist_normal, "normal-0", idx=0, aff=3)
PROP.add(dist_normal, "normal-1", idx=1, aff=3)
PROP.add(refused, "refused")
PROP.add(params, "parameters-1d", n=2, p=1, idx=0, aff=3)
PROP.add(params, "parameters-1d-weighted", n=2, p=1, idx=0, aff=3, weighted=True)
PROP.add(params, "parameters-1d-changed", n=2, p=1, idx=0, aff=3, weighted=True,
         later=True)
PROP.add(params, "parameters-default-range", n=2, p=1, idx=0, aff=3, x_range=False)
PROP.add(params, "parameters-2d", n=3, p=2, idx=1, aff=3, weighted=True)
PROP.add(params, "parameters-integer-domain", n=2, p=1, idx=0, aff=3, x_range=False,
         domain=[[0, 3]])
PROP.add(params, "parameters-integer-domain-2d", n=3, p=2, idx=1, aff=3, x_range=False,
         domain=[[-1, 2], [0, 1]])
PROP.add(observables, "observables-default-range", n=2, f=1, idx=0, aff=3, y_range=False)
PROP.add(bayes, "bayes-default-range", n=2, p=1, idx=0, aff=3, default=True)
PROP.add(bayes, "bayes-default-range-2d", n=3, p=2, idx=1, aff=3, default=True)
PROP.add(bayes_obs, "bayes-observables-default-range", n=2, f=1, idx=0, aff=3, default=True)
PROP.add(suppressed, "suppressed")
PROP.add(observables, "observables-1d", n=2, f=1, idx=0, aff=3)
PROP.add(observables, "observables-1d-weighted", n=2, f=1, idx=0, aff=3, weighted=True)
PROP.add(observables, "observables-changed", n=2, f=1, idx=0, aff=3, later=True)
PROP.add(observables, "observables-normal", n=2, f=1, idx=0, aff=3, pred="normal")
PROP.add(observables, "observables-2d", n=3, f=2, idx=1, aff=3, weighted=True)
PROP.add(bayes, "bayes", n=2, p=1, idx=0, aff=3)
PROP.add(bayes, "bayes-log", n=2, p=1, idx=0, aff=3, log=True)
PROP.add(bayes, "bayes-changed", n=2, p=1, idx=0, aff=3, later=True)
PROP.add(bayes, "bayes-2d", n=3, p=2, idx=1, aff=3)
PROP.add(bayes_obs, "bayes-observables", n=2, f=1, idx=0, aff=3)
PROP.add(bayes_obs, "bayes-observables-2d-log", n=3, f=2, idx=1, aff=3, log=True)
PROP.add(axes, "default-axes")
PROP.add(range_refused, "range-refused")
PROP.add(vert, "vertical-line")

# the same with arrays stored in column order, or backwards
PROP.turned("parameters-2d", "observables-2d", "bayes-2d")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-estimate-2d-0", "estimate-2d-0", "estimate-2d-0")
PROP.sequence("again-parameters-1d-weighted", "parameters-1d-weighted", "parameters-1d-weighted")
PROP.sequence("same-parameters-2d-then-default-range", "parameters-1d", "parameters-default-range",
              how="same")
PROP.sequence("again-observables-1d", "observables-1d", "observables-1d")
PROP.sequence("again-bayes", "bayes", "bayes")
PROP.sequence("same-bayes-then-bayes-log", "bayes", "bayes-log", how="same")
