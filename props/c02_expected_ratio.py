import numpy as np

from engine.harness import Prop
from props.den import Rational, spread

PROP = Prop(
    "C02", "Expected ratio is the weighted mean of observed over predicted",
    outside="more than 8 samples with everything symbolic; kernel density values")


def DP(*a, **k):
    from mud.base import DensityProblem
    return DensityProblem(*a, **k)


def ratio(T, n, f=1, p=1, w=None, pred="dist", fit=True, zero_w=False,
          zero_in=False):
    """E(r) for explicit densities"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, f))
    if pred == "kde":
        spread(T, y)
    W = None
    if w:
        W = T.arr("w", n, nonneg=zero_w, pos=not zero_w)
        if zero_w:
            T.assume(sum(W) > 0)
    i_, o_ = T.density("init", zero_in), T.density("obs", True)
    D = DP(X, y, domain=[[-50, 50]] * p, weights=W)
    D.set_initial(i_)
    D.set_observed(o_)
    if pred == "dist":
        d_ = T.density("pred")
        D.set_predicted(d_)
    if fit:
        D.fit()
    got = D.expected_ratio()
    num, den = 0, 0
    kd = None if pred == "dist" else T.kde(y.T, W).pdf(y.T)
    for k in range(n):
        o, q = 1, 1
        for j in range(f):
            o = o * o_.pdf(y[k, j])
            if pred == "dist":
                q = q * d_.pdf(y[k, j])
        if kd is not None:
            q = kd[k]
        wk = 1 if W is None else W[k]
        num, den = num + wk * o / q, den + wk
    T.eq(got, num / den, "expected ratio")
    T.eq(D.expected_ratio(), got, "asking twice gives the same")


def perfect(T, n, f=1, p=1, zero_in=False):
    """observed = predicted: the ratio is one whatever the weights and initial"""
    X, y, W = T.arr("X", (n, p)), T.arr("y", (n, f)), T.arr("w", n, pos=True)
    d_ = T.density("d")
    D = DP(X, y, domain=[[-50, 50]] * p, weights=W)
    D.set_initial(T.density("init", zero_in))
    D.set_observed(d_)
    D.set_predicted(d_)
    T.eq(D.expected_ratio(), 1, "ratio of identical densities")


def unpredicted(T, n, w):
    """a sample observed but not predicted has an infinite ratio, and so has the mean"""
    X, y = T.arr("X", (n, 1)), T.arr("y", (n, 1))
    i_, o_, d_ = T.density("init"), T.density("obs"), T.density("pred", True)
    W = T.arr("w", n, pos=True) if w else None
    D = DP(X, y, domain=[[-50, 50]], weights=W)
    D.set_initial(i_)
    D.set_observed(o_)
    D.set_predicted(d_)
    got, r = D.expected_ratio(), []
    for k in range(n):
        q = d_.pdf(y[k, 0])
        r.append(None if T.holds(q == 0) else o_.pdf(y[k, 0]) / q)
    if None in r:
        T.true(np.isinf(got) and got > 0, "infinite ratios count")
        return
    ws = [1 if W is None else W[k] for k in range(n)]
    T.eq(got * sum(ws), sum(u * v for u, v in zip(ws, r)), "expected ratio")


PROP.add(unpredicted, "unpredicted-n2", n=2, w=False)
PROP.add(unpredicted, "unpredicted-n3-weighted", n=3, w=True)
PROP.add(ratio, "n3", n=3)
PROP.add(ratio, "n3-weighted", n=3, w=True)
PROP.add(ratio, "n3-outside-initial", n=3, w=True, zero_in=True)
PROP.add(ratio, "n3f2-outside-initial-kde", n=3, f=2, pred="kde", zero_in=True, fit=False)
PROP.add(perfect, "perfect-outside-initial", n=3, p=2, zero_in=True)
PROP.add(ratio, "n3-weighted-lazy", n=3, w=True, fit=False)
PROP.add(ratio, "n3f2-weighted-zero", n=3, f=2, w=True, zero_w=True)
PROP.add(ratio, "n3f2-kde-weighted", n=3, f=2, w=True, pred="kde")
PROP.add(ratio, "n3-kde-lazy", n=3, pred="kde", fit=False)
PROP.add(ratio, "n8-weighted", n=8, w=True)
PROP.add(ratio, "n16-weighted", tier="thorough", n=16, w=True, f=2)
PROP.add(perfect, "perfect-n4", n=4)
PROP.add(perfect, "perfect-p2f2", n=3, f=2, p=2)
PROP.add(ratio, "p2f2-weighted-lazy", n=2, f=2, p=2, w=True, fit=False)
PROP.add(ratio, "p2f2-kde-lazy", n=3, f=2, p=2, pred="kde", fit=False)


def large(T, n, f):
    """sizes far beyond the others; nearly all entries constants"""
    X, y = T.big("X", (n, 1), free=1), T.big("y", (n, f), free=1)
    w = T.big("w", n, free=2, lo=0, hi=2)
    T.assume(sum(w[:2]) > 0)
    o_, d_ = Rational(0.5), Rational(-0.25)
    D = DP(X, y, weights=w)
    D.set_initial(Rational(1))
    D.set_observed(o_)
    D.set_predicted(d_)
    num, den = 0, 0
    for k in range(n):
        o, q = w[k], 1
        for j in range(f):
            o, q = o * o_.pdf(y[k, j]), q * d_.pdf(y[k, j])
        num, den = num + o / q, den + w[k]
    T.eq(D.expected_ratio() * den, num, "large: expected ratio")


PROP.add(large, "large-n150", n=150, f=2)
PROP.add(large, "large-n1100", n=1100, f=1)
PROP.add(large, "large-f12", n=12, f=12)

# samples, data, operators of integer type
PROP.add(ratio, "whole-y", n=3, w=True, f=2, ints=("y", "X"))
PROP.add(ratio, "whole-weights", n=3, w=True, ints=("w",))
PROP.add(ratio, "whole-kde-lazy", n=3, w=True, pred="kde", fit=False, ints=("X", "y", "w"))

# the same with arrays stored in column order, or backwards
PROP.turned("p2f2-weighted-lazy", "p2f2-kde-lazy")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-n3-weighted-then-n3-weighted-lazy", "n3-weighted", "n3-weighted-lazy")
