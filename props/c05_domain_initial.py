import numpy as np
from engine.harness import Prop

PROP = Prop(
    "C05", "Default domain is the padded bounding box; default initial is uniform on it",
    outside="more than 4 samples or 3 parameters with everything symbolic")


def DP(*a, **k):
    from mud.base import DensityProblem
    return DensityProblem(*a, **k)


def BP(*a, **k):
    from mud.base import BayesProblem
    return BayesProblem(*a, **k)


def box(T, X, n, p, pad):
    """independent bounding box: (lo, hi) per parameter, on this path"""
    out = []
    for j in range(p):
        lo, hi = T.extent(X[i, j] for i in range(n))
        out.append([lo - pad * (hi - lo), hi + pad * (hi - lo)])
    return T.A(out)


def default(T, n, p, cls):
    """no domain given: ten per cent of the range on each side"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, 1))
    v = T.pick("form", 2)
    Xi = X if v == 0 else [list(r) for r in X]
    D = (DP if cls == "density" else BP)(Xi, y)
    T.eq(D.domain, box(T, X, n, p, T.const(1) / 10), "default domain")
    T.eq(D.X, X, "samples kept as given")


def padded(T, n, p):
    """pad_domain sets the padding"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, 1))
    pad = T.real("pad", nonneg=True)
    D = DP(X, y, pad_domain=pad)
    T.eq(D.domain, box(T, X, n, p, pad), "pad_domain")


def helper(T, n, p):
    """fit_domain itself, from samples or from bounds, arguments untouched"""
    from mud.util import fit_domain
    X = T.arr("X", (n, p))
    pad = T.real("pad", nonneg=True)
    keep = X.copy()
    B = box(T, X, n, p, T.const(0))
    T.eq(fit_domain(X, pad_ratio=pad), box(T, X, n, p, pad), "fit_domain samples")
    T.eq(X, keep, "fit_domain leaves the samples")
    b = B.copy()
    T.eq(fit_domain(min_max_bounds=b, pad_ratio=pad), box(T, X, n, p, pad),
         "fit_domain bounds")
    T.eq(b, B, "fit_domain leaves the bounds it was given")
    T.eq(fit_domain(min_max_bounds=b, pad_ratio=pad), box(T, X, n, p, pad),
         "fit_domain twice")
    T.raises(ValueError, lambda: fit_domain(), "fit_domain without input")


def helper_default(T, n, p):
    """a tenth of the range is added by default"""
    from mud.util import fit_domain
    X = T.arr("X", (n, p))
    T.eq(fit_domain(X), box(T, X, n, p, T.const(0.1)), "fit_domain default padding")


def integers(T):
    """whole-number samples are padded like any other"""
    a, b = T.int("a", -2, 2), T.int("b", -2, 2)
    X = np.array([[a], [b], [a]])
    D = DP(X, T.arr("y", (3, 1)))
    lo, hi = min(a, b), max(a, b)
    pad = T.const(hi - lo) / 10
    T.eq(D.domain, T.A([[lo - pad, hi + pad]]), "integer samples: default domain")


def integer_bounds(T):
    """whole-number bounds, padded by whole numbers; samples by any"""
    from mud.util import fit_domain
    a, b = T.int("a", -2, 1), T.int("w", 0, 3)
    pad = T.choice("pad", [0, 1, 2, 0.0])
    B = np.array([[a, a + b], [0, 1]])
    want = T.A([[a - pad * b, a + b + pad * b], [-pad, 1 + pad]])
    T.eq(T.A(fit_domain(min_max_bounds=B, pad_ratio=pad)), want, "integer bounds")
    T.true(B.tolist() == [[a, a + b], [0, 1]], "bounds given are left alone")
    pad = T.choice("pad2", [0, 1, 0.25, 0.5, 1.5])
    want = T.A([[a - pad * b, a + b + pad * b], [-pad, 1 + pad]])
    T.eq(T.A(fit_domain(np.array([[a, 1], [a + b, 0]]), pad_ratio=pad)), want,
         "integer samples")


def integer_bounds_part(T):
    """whole-number bounds padded by a part (known finding)"""
    from mud.util import fit_domain
    a = T.int("a", -2, 1)
    T.eq(T.A(fit_domain(min_max_bounds=np.array([[a, a + 3]]), pad_ratio=0.25)),
         T.A([[a - 0.75, a + 3.75]]), "integer bounds padded by a part")


def given(T, n, p, cls):
    """a domain given is used as given; wrong sizes are refused"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, 1))
    dom = T.arr("D", (p, 2))
    v = T.pick("form", 3)
    mk = DP if cls == "density" else BP
    if v == 0:
        D = mk(X, y, dom)
    elif v == 1:
        D = mk(X, y, domain=[list(r) for r in dom])
    else:
        if p != 1:
            bad = T.arr("D", (p - 1, 2))
            T.raises((AssertionError, ValueError), lambda: mk(X, y, bad),
                     "wrong number of ranges is refused")
            return
        D = mk(X, y, domain=dom[0])
    T.eq(D.domain, dom, "given domain")
    T.true((D.n_samples, D.n_params, D.n_features) == (n, p, 1), "sizes")


def uniform(T, n, p, cls, turn=False):
    """the default initial density: 1/volume inside, 0 outside, per sample"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, 1))
    a = T.arr("a", p)
    w = T.arr("w", p, pos=True)
    dom = T.A([[a[j], a[j] + w[j]] for j in range(p)])
    if turn:  # ranges given from maximum to minimum
        v = 1 + T.pick("ranges turned", 2 ** p - 1)
        dom = T.A([list(dom[j][::-1] if v >> j & 1 else dom[j]) for j in range(p)])
    T.assume(y[0, 0] != y[1, 0])
    vol = 1
    for j in range(p):
        vol = vol * w[j]
    exp = []
    for k in range(n):
        ins = all(T.holds(X[k, j] >= a[j]) and T.holds(X[k, j] <= a[j] + w[j])
                  for j in range(p))
        exp.append(1 / vol if ins else T.const(0))
    o_, d_ = T.density("obs"), T.density("pred")
    if cls == "density":
        D = DP(X, y, dom)
        if T.pick("explicit", 2):
            D.set_initial()
        else:
            D.fit()
        got = getattr(D, "_in", None)
        D.set_observed(o_)
        D.set_predicted(d_)
        est = D.mud_point()
        sc = [exp[k] * o_.pdf(y[k, 0]) / d_.pdf(y[k, 0]) for k in range(n)]
        if got is not None:
            T.eq(got, T.A(exp), "uniform initial: values at the samples")
        T.maximiser(est, X, sc, "uniform initial: estimate")
        return
    D = BP(X, y, dom)
    D.set_likelihood(o_)
    sc = [exp[k] * o_.pdf(y[k, 0]) for k in range(n)]
    if not any(T.holds(e > 0) for e in exp):
        T.raises(ValueError, D.map_point, "all samples outside: refused")
        return
    T.maximiser(D.map_point(), X, sc, "uniform prior: estimate")
    got = getattr(D, "_pr", None)
    if got is not None:
        T.eq(got, T.A(exp), "uniform prior: values at the samples")


def inside(T, n):
    """with the default domain every sample has positive initial density"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, 1))
    T.assume(X[0, 0] != X[1, 0])
    D = DP(X, y)
    D.set_initial()
    got = getattr(D, "_in", None)
    if got is not None:
        for k in range(n):
            T.true(got[k] > 0, "default domain covers the samples")
    o_, d_ = T.density("obs"), T.density("pred")
    D.set_observed(o_)
    D.set_predicted(d_)
    T.maximiser(D.mud_point(), X, [o_.pdf(y[k, 0]) / d_.pdf(y[k, 0])
                                   for k in range(n)], "default domain: estimate")


def flat(T, n):
    """one-dimensional samples are repeated samples of one parameter"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, 1))
    v = T.pick("form", 2)
    f = list(X[:, 0]) if v else X[:, 0]
    D = DP(f, list(y[:, 0]) if v else y[:, 0])
    E = DP(X, y)
    T.eq(D.X, X, "flat samples")
    T.eq(D.y, y, "flat predictions")
    T.eq(D.domain, E.domain, "flat samples: domain")
    o_, d_ = T.density("obs"), T.density("pred")
    for q in (D, E):
        q.set_initial(T.density("init"))
        q.set_observed(o_)
        q.set_predicted(d_)
    T.eq(D.mud_point(), E.mud_point(), "flat samples: estimate")


for c in ("density", "bayes"):
    PROP.add(default, f"default-{c}-n3p1", n=3, p=1, cls=c)
    PROP.add(default, f"default-{c}-n2p2", n=2, p=2, cls=c)
    PROP.add(given, f"given-{c}-p2", n=2, p=2, cls=c)
    PROP.add(given, f"given-{c}-p1", n=2, p=1, cls=c)
    PROP.add(uniform, f"uniform-{c}-n2p1", n=2, p=1, cls=c)
    PROP.add(uniform, f"uniform-{c}-n2p2", n=2, p=2, cls=c)
    PROP.add(uniform, f"uniform-{c}-maximum-first", n=2, p=1, cls=c, turn=True)
    PROP.add(uniform, f"uniform-{c}-maximum-first-p2", n=2, p=2, cls=c, turn=True)
    PROP.add(default, f"default-{c}-n4p2", tier="thorough", n=4, p=2, cls=c)
    PROP.add(uniform, f"uniform-{c}-n3p2", tier="thorough", n=3, p=2, cls=c)
PROP.add(padded, "pad-n3p1", n=3, p=1)
PROP.add(padded, "pad-n2p2", n=2, p=2)
PROP.add(helper, "fit-domain-n3p1", n=3, p=1)
PROP.add(helper_default, "fit-domain-default", n=2, p=1)
PROP.add(helper, "fit-domain-n2p2", n=2, p=2)
PROP.add(integer_bounds, "integer-bounds")
# behaviour that is a known finding, see known_findings.json
PROP.add(integer_bounds_part, "finding-integer-bounds")
PROP.add(integers, "integers")
PROP.add(inside, "inside-n2", n=2)
PROP.add(flat, "flat-n3", n=3)


def large(T, n, p, cls):
    """sizes far beyond the others; nearly all entries constants"""
    X, y = T.big("X", (n, p), free=1), T.big("y", (n, 1), free=1)
    D = (DP if cls == "density" else BP)(X, y)
    T.eq(D.domain, box(T, X, n, p, T.const(1) / 10), "large: default domain")
    dom = T.A([[-3 - j, 2] for j in range(p)])
    (D.set_initial if cls == "density" else D.set_prior)()
    vol = 1
    for lo, hi in D.domain:
        vol = vol * (hi - lo)
    v = getattr(D, "_in" if cls == "density" else "_pr", None)
    if v is not None:
        T.eq(v * vol, T.A([1] * n), "large: uniform on the default domain")
    E = (DP if cls == "density" else BP)(X, y, dom)
    (E.set_initial if cls == "density" else E.set_prior)()
    v = getattr(E, "_in" if cls == "density" else "_pr", None)
    vol = 1
    for lo, hi in dom:
        vol = vol * (hi - lo)
    if v is not None:
        T.eq(v * vol, T.A([1 if all(T.holds(X[k, j] >= dom[j][0])
                                    and T.holds(X[k, j] <= dom[j][1])
                                    for j in range(p)) else 0 for k in range(n)]),
             "large: uniform on a given domain")


for c in ("density", "bayes"):
    PROP.add(large, f"large-{c}-n150p2", n=150, p=2, cls=c)
    PROP.add(large, f"large-{c}-n20p11", n=20, p=11, cls=c)
PROP.add(large, "large-n1100", budget=120, n=1100, p=1, cls="density")

# the same with arrays stored in column order, or backwards
PROP.turned("default-density-n2p2", "default-bayes-n2p2", "pad-n2p2", "given-density-p2")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-fit-domain", "fit-domain-default", "fit-domain-default")
PROP.sequence("again-inside", "inside-n2", "inside-n2")
PROP.sequence("same-default-bayes-n2p2-then-given-bayes-p2", "default-bayes-n2p2", "given-bayes-p2", how="same")
PROP.sequence("same-pad-n2p2", "pad-n2p2", "pad-n2p2", how="same")
