from engine.harness import Prop
from props.den import Rational

PROP = Prop(
    "C01", "Updated density is initial x weight x observed / predicted; MUD maximises it",
    outside="more than 4 samples, 2 parameters or 2 observables with everything "
            "symbolic; the numerical value of a kernel density estimate (it is an "
            "uninterpreted function of points, samples, weights and bandwidth)")


def DP(*a, **k):
    from mud.base import DensityProblem
    return DensityProblem(*a, **k)


def prod(T, dens, M, n, k):
    out = []
    for i in range(n):
        t = 1
        for j in range(k):
            t = t * dens.pdf(M[i, j])
        out.append(t)
    return out


def up_of(D):
    return getattr(D, "_up", None)


def verify(T, D, X, up, n, label):
    u = up_of(D)
    if u is not None:
        T.eq(u, T.A(up), label + ": updated density values")
    T.maximiser(D.mud_point(), X, up, label + ": MUD point")
    T.maximiser(D.estimate(), X, up, label + ": estimate")


def explicit(T, n, p, f, weighted=False, zero=False, pred="dist", order=0):
    """all three distributions given explicitly"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, f))
    w = T.arr("w", n, nonneg=zero, pos=not zero) if weighted else None
    i_, o_ = T.density("init", zero), T.density("obs", zero)
    D = DP(X, y, domain=[[-50, 50]] * p, weights=w)
    steps = [lambda: D.set_initial(i_), lambda: D.set_observed(o_)]
    if T.pick("order", 2):
        steps.reverse()
    for s in steps:
        s()
    if pred == "dist":
        d_ = T.density("pred")
        D.set_predicted(d_)
        pr = prod(T, d_, y, n, f)
    else:
        pr = T.kde(y.T, w if w is not None else None).pdf(y.T)
    D.fit()
    a, b = prod(T, i_, X, n, p), prod(T, o_, y, n, f)
    up = [a[k] * (1 if w is None else w[k]) * b[k] / pr[k] for k in range(n)]
    verify(T, D, X, up, n, "explicit")


def lazy(T, n):
    """mud_point alone triggers the default steps"""
    from scipy.stats import norm
    X, y = T.arr("X", (n, 1), lo=0, hi=1), T.arr("y", (n, 1))
    D = DP(X, y, domain=[[0, 1]])
    pt = D.mud_point()
    pr = T.kde(y.T).pdf(y.T)
    ob = norm().pdf(y)[:, 0]
    up = [ob[k] / pr[k] for k in range(n)]
    T.maximiser(pt, X, up, "defaults: MUD point")
    u = up_of(D)
    if u is not None:
        T.eq(u, T.A(up), "defaults: updated density values")


def uniform_out(T, n):
    """samples outside the domain have no initial density"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, 1))
    D = DP(X, y, domain=[[0, 1]])
    o_, d_ = T.density("obs"), T.density("pred")
    D.set_initial()
    D.set_observed(o_)
    D.set_predicted(d_)
    D.fit()
    up = []
    for k in range(n):
        inside = T.holds(X[k, 0] >= 0) and T.holds(X[k, 0] <= 1)
        up.append(o_.pdf(y[k, 0]) / d_.pdf(y[k, 0]) if inside else T.const(0))
    verify(T, D, X, up, n, "uniform initial")


def late_fit(T, n):
    """keyword arguments of fit reach the kernel density estimate"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, 1))
    i_, o_ = T.density("init"), T.density("obs")
    bw = 0.5
    D = DP(X, y, domain=[[-50, 50]])
    D.set_initial(i_)
    D.set_observed(o_)
    D.fit(bw_method=bw)
    pr = T.kde(y.T, bw=bw).pdf(y.T)
    up = [i_.pdf(X[k, 0]) * o_.pdf(y[k, 0]) / pr[k] for k in range(n)]
    verify(T, D, X, up, n, "bandwidth")


def scale(T, n):
    """rescaling a density by a positive constant never moves the MUD point"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, 1))
    i_, o_, d_ = T.density("init"), T.density("obs"), T.density("pred")
    c = T.real("c", pos=True)

    class Scaled:
        def pdf(self, x):
            return o_.pdf(x) * c
    D = DP(X, y, domain=[[-50, 50]])
    E = DP(X, y, domain=[[-50, 50]])
    for q, ob in ((D, o_), (E, Scaled())):
        q.set_initial(i_)
        q.set_observed(ob)
        q.set_predicted(d_)
    T.eq(D.mud_point(), E.mud_point(), "scale of the observed density")


def joint(T, n, f):
    """a predicted distribution that answers with one joint density per sample, and
    options passed along to it"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, f))
    i_, o_, d_ = T.density("init"), T.density("obs"), T.density("pred")
    seen = []

    class Joint:
        def pdf(self, x, **kw):
            seen.append(kw)
            v = d_.pdf(x)
            return v[:, 0] if f == 1 else v[:, 0] * v[:, 1]
    D = DP(X, y, domain=[[-50, 50]])
    D.set_initial(i_)
    D.set_observed(o_)
    kw = T.choice("options", [{}, {"bound": 3}])
    D.set_predicted(Joint(), **kw)
    T.true(seen and seen[-1] == kw, "options passed along to the distribution")
    D.fit()
    a, b, c = prod(T, i_, X, n, 1), prod(T, o_, y, n, f), prod(T, d_, y, n, f)
    verify(T, D, X, [a[k] * b[k] / c[k] for k in range(n)], n, "joint predicted density")
    T.eq(D.expected_ratio() * n, sum(b[k] / c[k] for k in range(n)),
         "joint predicted density: expected ratio")


def unpredicted(T, n):
    """a sample observed but not predicted has an infinite updated value"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, 1))
    i_, o_, d_ = T.density("init"), T.density("obs"), T.density("pred", True)
    D = DP(X, y, domain=[[-50, 50]])
    D.set_initial(i_)
    D.set_observed(o_)
    D.set_predicted(d_)
    m, z = D.mud_point(), []
    for k in range(n):
        if T.holds(d_.pdf(y[k, 0]) == 0):
            z.append(k)
    if z:
        T.true(any(T.holds(m[0] == X[k, 0]) for k in z), "an infinite value is the largest")
        return
    verify(T, D, X, [i_.pdf(X[k, 0]) * o_.pdf(y[k, 0]) / d_.pdf(y[k, 0])
                     for k in range(n)], n, "all predicted")


PROP.add(unpredicted, "unpredicted", n=3)
PROP.add(explicit, "n3p1f1", n=3, p=1, f=1)
PROP.add(joint, "joint-f1", n=3, f=1)
PROP.add(joint, "joint-f2", n=3, f=2)
PROP.add(explicit, "n3p2f2", n=3, p=2, f=2)
PROP.add(explicit, "n2p1f3-weighted", n=2, p=1, f=3, weighted=True)
PROP.add(explicit, "n3-weighted-zero", n=3, p=1, f=1, weighted=True, zero=True)
PROP.add(explicit, "n3f1-kde", n=3, p=1, f=1, pred="kde")
PROP.add(explicit, "n3f2-kde-weighted", n=3, p=1, f=2, pred="kde", weighted=True)
PROP.add(explicit, "n4p2f2", tier="thorough", n=4, p=2, f=2, weighted=True)
PROP.add(lazy, "lazy-n3", n=3)
PROP.add(uniform_out, "uniform-n2", n=2)
PROP.add(late_fit, "bandwidth-n3", n=3)
PROP.add(scale, "scale-n3", n=3)
PROP.add(explicit, "many-n10", n=10, p=1, f=1)
PROP.add(explicit, "many-n30", tier="thorough", n=30, p=2, f=1, weighted=True)


def large(T, n, p, f):
    """sizes far beyond the others; nearly all entries constants"""
    X, y = T.big("X", (n, p), free=1), T.big("y", (n, f), free=1)
    w = T.big("w", n, free=2, lo=0, hi=2)
    i_, o_, d_ = Rational(0.5), Rational(-0.25), Rational(0)
    D = DP(X, y, weights=w)
    D.set_initial(i_)
    D.set_observed(o_)
    D.set_predicted(d_)
    D.fit()
    a, b, d = prod(T, i_, X, n, p), prod(T, o_, y, n, f), prod(T, d_, y, n, f)
    verify(T, D, X, [a[k] * w[k] * b[k] / d[k] for k in range(n)], n, "large")


PROP.add(large, "large-n150", n=150, p=2, f=2)
PROP.add(large, "large-n1100", n=1100, p=2, f=2)
PROP.add(large, "large-p12f12", n=12, p=12, f=12)

# samples, data, operators of integer type
PROP.add(explicit, "whole-y", n=3, p=1, f=2, ints=("y",))
PROP.add(explicit, "whole-X-weights", n=3, p=2, f=1, weighted=True, ints=("X", "w"))
PROP.add(explicit, "whole-kde", n=3, p=1, f=1, pred="kde", weighted=True, ints=("X", "y"))
PROP.add(joint, "whole-joint", n=3, f=2, ints=("X", "y"))

# the same with arrays stored in column order, or backwards
PROP.turned("n3p2f2", "n3f2-kde-weighted", "joint-f2")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-n3p1f1", "n3p1f1", "n3p1f1")
PROP.sequence("same-n3f1-kde-then-n3p1f1", "n3f1-kde", "n3p1f1", how="same")
