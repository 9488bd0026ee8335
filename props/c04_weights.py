from engine.harness import Prop
from props.den import Rational, spread

PROP = Prop(
    "C04", "Sample weights act as relative importance",
    outside="more than 4 samples with everything symbolic")


def DP(*a, **k):
    from mud.base import DensityProblem
    return DensityProblem(*a, **k)


def make(T, X, y, w, pred="dist", **k):
    if pred == "kde":
        spread(T, y)
    D = DP(X, y, domain=[[-50, 50]] * X.shape[1], weights=w, **k)
    D.set_initial(T.density("init"))
    D.set_observed(T.density("obs"))
    if pred == "dist":
        D.set_predicted(T.density("pred"))
    return D


def same(T, D, E, label, ratio=True):
    T.eq(D.mud_point(), E.mud_point(), label + ": MUD point")
    if ratio:
        T.eq(D.expected_ratio(), E.expected_ratio(), label + ": expected ratio")


def scaling(T, n, pred, p=1, f=1):
    """all weights times c"""
    X, y, w = T.arr("X", (n, p)), T.arr("y", (n, f)), T.arr("w", n, pos=True)
    c = T.real("c", pos=True)
    same(T, make(T, X, y, w, pred), make(T, X, y, w * c, pred), "scaled weights")


def unit(T, n, pred, p=1, f=1):
    """no weights, equal weights"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, f))
    c = T.real("c", pos=True)
    v = T.pick("form", 3)
    w = [[1] * n, T.A([c] * n), [[1] * n, [1] * n]][v]
    same(T, make(T, X, y, None, pred), make(T, X, y, w, pred), "equal weights")


def stacked(T, n, m, pred="dist", p=1, f=1):
    """several weight vectors combine by their product"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, f))
    w = T.arr("w", (m, n), pos=True)
    pr = [1] * n
    for i in range(m):
        pr = [a * b for a, b in zip(pr, w[i])]
    D = make(T, X, y, w if T.pick("list", 2) == 0 else [list(r) for r in w], pred)
    same(T, D, make(T, X, y, T.A(pr), pred), "stacked weights")
    if hasattr(D, "_weights"):
        T.eq(D._weights, T.A(pr), "stacked weights: stored product")


def normalised(T, n, m, pred="dist", p=1, f=1):
    """normalize=True: Euclidean unit weights, same estimates"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, f))
    w = T.arr("w", (m, n), pos=True)
    if m == 1:
        w = w[0]
    D = make(T, X, y, w, pred)
    if T.pick("how", 2):
        E = make(T, X, y, w, pred, normalize=True)
    else:
        E = make(T, X, y, None, pred)
        E.set_weights(w, normalize=True)
        if pred == "dist":
            E.set_predicted(T.density("pred"))
    same(T, D, E, "normalised weights")
    if hasattr(E, "_weights"):
        T.eq(sum(v * v for v in E._weights), 1, "normalised weights: unit length")
        u = [D._weights[k] * E._weights[0] - D._weights[0] * E._weights[k]
             for k in range(n)]
        T.eq(T.A(u), T.A([0] * n), "normalised weights: proportional")


def dropped(T, n, pred, p=1, f=1):
    """a sample of weight zero has no influence"""
    X, y = T.arr("X", (n, p)), T.arr("y", (n, f))
    w = T.arr("w", n - 1, pos=True)
    D = make(T, X, y, T.A(list(w) + [0]), pred)
    E = make(T, X[:n - 1], y[:n - 1], w, pred)
    same(T, D, E, "zero weight")


def set_later(T, n, p=1, f=1):
    """set_weights, the constructor and set_predicted(weights=) agree"""
    X, y, w = T.arr("X", (n, p)), T.arr("y", (n, f)), T.arr("w", n, pos=True)
    D = make(T, X, y, w)
    E = make(T, X, y, None, "none")
    if T.pick("how", 2):
        E.set_weights(w)
        E.set_predicted(T.density("pred"))
    else:
        E.set_predicted(T.density("pred"), weights=w)
    same(T, D, E, "weights set later")


def kde_later(T, n, p=1, f=1):
    X, y, w = T.arr("X", (n, p)), T.arr("y", (n, f)), T.arr("w", n, pos=True)
    D = make(T, X, y, w, "kde")
    E = make(T, X, y, None, "kde")
    v = T.pick("how", 3)
    if v == 0:
        E.set_predicted(weights=w)
    elif v == 1:
        E.set_weights(w)
    else:
        E.fit(weights=w)
    same(T, D, E, "weights set later, kernel estimate")


def repeated(T):
    """integer weight 2 is the same as the sample counted twice"""
    X, y = T.arr("X", (2, 1)), T.arr("y", (2, 1))
    D = make(T, X, y, [2, 1])
    X3, y3 = T.A([[X[0, 0]], [X[0, 0]], [X[1, 0]]]), T.A([[y[0, 0]], [y[0, 0]],
                                                          [y[1, 0]]])
    E = make(T, X3, y3, None)
    T.eq(D.expected_ratio(), E.expected_ratio(), "repeated sample: expected ratio")


def wrong_size(T):
    X, y = T.arr("X", (3, 1)), T.arr("y", (3, 1))
    w = T.arr("w", (2, 2), pos=True)
    v = T.pick("form", 2)
    T.raises((AssertionError, ValueError), lambda: make(T, X, y, [w[0], w][v]),
             "weights of the wrong length are refused")


PROP.add(scaling, "scaling-n3", n=3, pred="dist")
PROP.add(scaling, "scaling-n3-kde", n=3, pred="kde")
PROP.add(unit, "unit-n2", n=2, pred="dist")
PROP.add(unit, "unit-n2-kde", n=2, pred="kde")
PROP.add(stacked, "stacked-2x2", n=2, m=2)
PROP.add(stacked, "stacked-3x3", n=3, m=3)
PROP.add(stacked, "stacked-2x3-kde", n=3, m=2, pred="kde")
PROP.add(normalised, "normalised-n2", n=2, m=1)
PROP.add(normalised, "normalised-2x2", n=2, m=2)
PROP.add(dropped, "dropped-n3", n=3, pred="dist")
PROP.add(dropped, "dropped-n3-kde", n=3, pred="kde")
PROP.add(set_later, "later-n2", n=2)
PROP.add(kde_later, "later-n2-kde", n=2)
PROP.add(repeated, "repeated")
PROP.add(wrong_size, "wrong-size")
PROP.add(scaling, "scaling-p2f2", n=2, pred="dist", p=2, f=2)
PROP.add(unit, "unit-p2f2-kde", n=3, pred="kde", p=2, f=2)
PROP.add(stacked, "stacked-f2-kde", n=3, m=2, pred="kde", f=2)
PROP.add(normalised, "normalised-f2-kde", n=3, m=1, pred="kde", f=2)
PROP.add(normalised, "normalised-n3-kde", n=3, m=1, pred="kde")
PROP.add(dropped, "dropped-f2-kde", n=4, pred="kde", p=2, f=2)
PROP.add(set_later, "later-p2f2", n=2, p=2, f=2)
PROP.add(kde_later, "later-f2-kde", n=3, f=2)
PROP.add(scaling, "scaling-n5", tier="thorough", n=5, pred="dist")
PROP.add(stacked, "stacked-4x3", tier="thorough", n=4, m=3)
PROP.add(normalised, "normalised-3x2", tier="thorough", n=3, m=2)


def large(T, n, m=1, how="scaled"):
    """sizes far beyond the others; nearly all entries constants"""
    X, y = T.big("X", (n, 2), free=1), T.big("y", (n, 2), free=1)
    w = T.big("w", (m, n), free=2, lo=0.01, hi=2)

    def prob(W, **k):
        D = DP(X, y, weights=W, **k)
        D.set_initial(Rational(0.5))
        D.set_observed(Rational(-0.25))
        D.set_predicted(Rational(0))
        return D
    pr = T.A([1] * n)
    for r in w:
        pr = pr * r
    D = prob(pr)
    if how == "scaled":
        E = prob(w[0] * T.real("c", pos=True))
    elif how == "stacked":
        E = prob(w)
    else:
        E = prob(w, normalize=True)
    same(T, D, E, "large: " + how, ratio=how != "normalised")


PROP.add(large, "large-n150", n=150)
PROP.add(large, "large-n300", budget=150, n=300)
PROP.add(large, "large-stacked-6x40", n=40, m=6, how="stacked")
PROP.add(large, "large-normalised", n=40, m=2, how="normalised")

# samples, data, operators of integer type
PROP.add(scaling, "whole-scaling", n=3, pred="dist", ints=("w",))
PROP.add(stacked, "whole-stacked", n=3, m=2, ints=("w",))
PROP.add(normalised, "whole-normalised", n=3, m=1, ints=("w",))
PROP.add(normalised, "whole-normalised-2", n=2, m=2, ints=("w",))
PROP.add(unit, "whole-samples", n=3, pred="dist", p=2, f=2, ints=("X", "y"))

# the same with arrays stored in column order, or backwards
PROP.turned("stacked-2x2", "stacked-f2-kde", "normalised-2x2")
