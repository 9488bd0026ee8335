from engine.harness import Prop
from props.den import Rational, Tiny

PROP = Prop(
    "C06", "Posterior is prior x likelihood over all data; MAP maximises it in both modes",
    outside="more than 4 samples or 3 data; the densities' own numerics")


def BP(*a, **k):
    from mud.base import BayesProblem
    return BayesProblem(*a, **k)


def posterior(T, X, y, pr, ll, n, p, f):
    out = []
    for i in range(n):
        t = 1
        for j in range(p):
            t = t * pr.pdf(X[i, j])
        for j in range(f):
            t = t * ll.pdf(y[i, j])
        out.append(t)
    return out


def explicit(T, n, p, f, log, zero=False):
    """prior and likelihood given explicitly"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, f))
    pr, ll = T.density("prior", zero), T.density("ll", zero)
    B = BP(X, y, domain=[[-50, 50]] * p)
    steps = [lambda: B.set_prior(pr), lambda: B.set_likelihood(ll, log=log)]
    if T.pick("order", 2):
        steps.reverse()
    for s in steps:
        s()
    ps = posterior(T, X, y, pr, ll, n, p, f)
    if zero and not any(T.holds(v > 0) for v in ps):
        T.raises(ValueError, B.fit, "vanishing posterior is refused")
        return
    if T.pick("fit", 2):
        B.fit()
    T.maximiser(B.map_point(), X, ps, "MAP point")
    T.maximiser(B.estimate(), X, ps, "estimate")
    st = getattr(B, "_ps", None)
    if st is not None and not log:
        T.eq(st, T.A(ps), "posterior values")
    if st is not None and log and not zero:
        from numpy import log as ln
        T.eq(st, ln(T.A(ps)), "log-posterior values")


def tiny(T, n, f, p=1):
    """logarithmic evaluation of likelihoods too small for a plain one"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, f))
    pr, ll = T.density("prior"), T.density("ll")
    B = BP(X, y, domain=[[-50, 50]] * p)
    steps = [lambda: B.set_prior(pr), lambda: B.set_likelihood(Tiny(ll), log=True)]
    if T.pick("order", 2):
        steps.reverse()
    for s in steps:
        s()
    if T.pick("fit", 2):
        B.fit()
    T.maximiser(B.map_point(), X, posterior(T, X, y, pr, ll, n, p, f), "MAP point, tiny")


PROP.add(tiny, "log-tiny-n3", n=3, f=1)
PROP.add(tiny, "log-tiny-n2f2", n=2, f=2, p=2)


def agree(T, n, f):
    """log and plain evaluation pick points of equal posterior"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, f))
    pr, ll = T.density("prior"), T.density("ll")
    pts = []
    for log in (False, True):
        B = BP(X, y, domain=[[-50, 50]])
        B.set_prior(pr)
        B.set_likelihood(ll, log=log)
        pts.append(B.map_point())
    T.eq(pts[0], pts[1], "log and plain evaluation agree")


def switch(T, n):
    """switching evaluation mode on one problem leaves the answer right"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, 1))
    pr, ll, l2 = T.density("prior"), T.density("ll"), T.density("l2")
    B = BP(X, y, domain=[[-50, 50]])
    B.set_prior(pr)
    first = bool(T.pick("first", 2))
    B.set_likelihood(ll, log=first)
    if T.pick("fit", 2):
        B.map_point()
    B.set_likelihood(l2, log=not first)
    T.maximiser(B.map_point(), X, posterior(T, X, y, pr, l2, n, 1, 1),
                "MAP point after switching mode")


def gaussian(T, n, f):
    """normal likelihood around the data, per datum"""
    from scipy.stats import norm
    X, y = T.arr("X", (n, 1), lo=0, hi=1), T.arr("y", (n, f))
    d, s = T.arr("d", f), T.real("s", pos=True)
    B = BP(X, y, domain=[[0, 1]])
    B.set_likelihood(norm(loc=d, scale=s), log=bool(T.pick("log", 2)))
    # smallest sum of squared residuals has the largest posterior
    ss = [sum((y[i, j] - d[j]) * (y[i, j] - d[j]) for j in range(f)) for i in range(n)]
    T.minimiser(B.map_point(), X, ss, "normal likelihood: least squares sample")


def scale_prior(T, n):
    """a constant factor in prior or likelihood does not move the MAP point"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, 1))
    pr, ll, c = T.density("prior"), T.density("ll"), T.real("c", pos=True)

    class Scaled:
        def __init__(self, d):
            self.d = d

        def pdf(self, x):
            return self.d.pdf(x) * c
    B, C = BP(X, y, domain=[[-50, 50]]), BP(X, y, domain=[[-50, 50]])
    v = T.pick("which", 2)
    B.set_prior(pr)
    B.set_likelihood(ll)
    C.set_prior(Scaled(pr) if v else pr)
    C.set_likelihood(ll if v else Scaled(ll))
    T.eq(B.map_point(), C.map_point(), "constant factors do not matter")


for lg in (False, True):
    s = "log" if lg else "plain"
    PROP.add(explicit, f"{s}-n3p1f1", n=3, p=1, f=1, log=lg)
    PROP.add(explicit, f"{s}-n2p2f3", n=2, p=2, f=3, log=lg)
    PROP.add(explicit, f"{s}-n2-zero", n=2, p=1, f=1, log=lg, zero=True)
    PROP.add(explicit, f"{s}-n8", n=8, p=1, f=1, log=lg)
    PROP.add(explicit, f"{s}-n4p2f2", tier="thorough", n=4, p=2, f=2, log=lg, zero=True)
PROP.add(agree, "agree-n3f2", n=3, f=2)
PROP.add(switch, "switch-n2", n=2)
PROP.add(gaussian, "gaussian-n2f2", n=2, f=2)
PROP.add(gaussian, "gaussian-n3f3", tier="thorough", n=3, f=3)
PROP.add(scale_prior, "scale-n3", n=3)


def large(T, n, p, f, log=False):
    """sizes far beyond the others; nearly all entries constants"""
    X, y = T.big("X", (n, p), free=2), T.big("y", (n, f), free=2)
    pr, ll = Rational(0.5), Rational(-0.25)
    B = BP(X, y)
    B.set_prior(pr)
    B.set_likelihood(ll, log=log)
    T.maximiser(B.map_point(), X, posterior(T, X, y, pr, ll, n, p, f), "large: MAP point")


for lg in (False, True):
    s = "log" if lg else "plain"
    PROP.add(large, f"large-{s}-n"+("100" if lg else "150"), budget=90, n=100 if lg else 150, p=2, f=2, log=lg)
    PROP.add(large, f"large-{s}-n12f30", n=12, p=1, f=30, log=lg)
    PROP.add(large, f"large-{s}-n12p11", n=12, p=11, f=1, log=lg)
PROP.add(large, "large-plain-n1100", budget=150, n=1100, p=1, f=1)

# samples, data, operators of integer type
PROP.add(agree, "whole-y", n=3, f=2, ints=("y",))
PROP.add(agree, "whole-X", n=3, f=1, ints=("X",))
PROP.add(gaussian, "whole-gaussian", n=3, f=2, ints=("y",))

# the same with arrays stored in column order, or backwards
PROP.turned("plain-n2p2f3", "log-n2p2f3")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("same-plain-n3p1f1-then-log-n3p1f1", "plain-n3p1f1", "log-n3p1f1", how="same")
PROP.sequence("again-plain-n3p1f1", "plain-n3p1f1", "plain-n3p1f1")
