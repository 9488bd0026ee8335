from engine.harness import Prop

PROP = Prop(
    "C14", "Weighted mean error functional sums normalised residuals per sample",
    outside="more than 4 data; data whose sample deviation is zero when none is given")


def ref(T, P, d, s):
    """sqrt(N) s times the functional, per sample"""
    return [sum(P[k][j] - d[j] for j in range(len(d))) for k in range(len(P))]


def given(T, n, N, flat=False):
    from mud.funs import wme
    P = T.arr("P", (n, N))
    d, s = T.arr("d", N), T.real("s", pos=True)
    v = T.pick("data form", 3)
    dd = [d, list(d), d.reshape(-1, 1)][v]
    Q = P.reshape(-1) if flat else P
    q = wme(Q, dd, s) if T.pick("by name", 2) else wme(predictions=Q, data=dd, sd=s)
    if not T.true(np_size(q) == n, "one value per sample") and np_size(q) != n:
        return
    r = T.sqrt(T.const(N))
    T.eq(T.A(q).reshape(-1) * (r * s), T.A(ref(T, P, d, s)), "normalised residual sum")


def np_size(q):
    import numpy as np
    return int(np.prod(np.shape(q)))


def from_data(T, n, N):
    """without a deviation, that of the data is used"""
    from mud.funs import wme
    P, d = T.arr("P", (n, N)), T.arr("d", N)
    T.assume(d[0] != d[1])
    mean = sum(d[j] for j in range(N)) / N
    var = sum((d[j] - mean) ** 2 for j in range(N)) / N
    q = wme(P, d)
    t = ref(T, P, d, None)
    for k in range(n):
        # q = t / sqrt(N var), compared by square and sign
        T.eq(q[k] * q[k] * (N * var), t[k] * t[k], "deviation of the data: magnitude")
        T.le(0, q[k] * t[k], "deviation of the data: sign")


def large_from_data(T, n, N):
    """the same of many data; nearly all entries constants"""
    from mud.funs import wme
    P, d = T.big("P", (n, N)), T.big("d", N)
    mean = sum(d[j] for j in range(N)) / N
    var = sum((d[j] - mean) ** 2 for j in range(N)) / N
    T.assume(var >= 0.001)
    q = wme(P, d)
    t = ref(T, P, d, None)
    for k in range(n):
        T.eq(q[k] * q[k] * (N * var), t[k] * t[k], "large: deviation of the data: magnitude")
        T.le(0, q[k] * t[k], "large: deviation of the data: sign")


def zero(T, n, N):
    from mud.funs import wme
    d = T.arr("d", N)
    P = T.A([list(d) for _ in range(n)])
    T.eq(wme(P, d, T.real("s", pos=True)), T.A([0] * n), "no error where data are matched")


def affine(T, n, N):
    """depends on predictions only through their sum; scales inversely with sd"""
    from mud.funs import wme
    P, d, s = T.arr("P", (n, N)), T.arr("d", N), T.real("s", pos=True)
    c = T.real("c", pos=True)
    T.eq(wme(P, d, s), wme(P[:, ::-1], d, s), "order of predictions")
    T.eq(wme(P, d, s * c) * c, wme(P, d, s), "inverse in the deviation")
    T.eq(wme(c * P, c * d, c * s), wme(P, d, s), "invariant to the unit of the data")
    e = T.real("e")
    T.eq(wme(P + e, d + e, s), wme(P, d, s), "invariant to the origin of the data")


def refused(T):
    """every mismatch of up to 4 predictions per sample and 4 data"""
    from mud.funs import wme
    k, N = T.pick("data", 4) + 1, T.pick("predictions", 4) + 1
    if k == N:
        return
    flat = T.pick("flat", 2)
    P = T.arr("P", (N,) if flat else (2, N))
    d = T.arr("d", k)
    sd = () if T.pick("no deviation", 2) and k > 1 else (T.real("s", pos=True),)
    if not sd:
        T.assume(d[0] != d[1])
    T.raises(ValueError, lambda: wme(P, [d, list(d), d.reshape(-1, 1)][T.pick("form", 3)],
                                     *sd), "mismatched data refused")


PROP.add(given, "n2N3", n=2, N=3)
PROP.add(given, "n3N3", n=3, N=3)
PROP.add(given, "n1N2-flat", n=1, N=2, flat=True)
PROP.add(given, "n3N1", n=3, N=1)
PROP.add(from_data, "std-of-data-N2", n=2, N=2)
PROP.add(from_data, "std-of-data-N3", n=1, N=3)
PROP.add(zero, "zero", n=2, N=3)
PROP.add(affine, "affine", n=2, N=3)
PROP.add(refused, "refused")
PROP.add(given, "n5N4", tier="thorough", n=5, N=4)
PROP.add(affine, "affine-n4N8", tier="thorough", n=4, N=8)


def large(T, n, N):
    """many samples and data; nearly all entries constants"""
    from mud.funs import wme
    P, d, s = T.big("P", (n, N)), T.big("d", N), T.real("s", pos=True)
    r = T.sqrt(T.const(N))
    T.eq(T.A(wme(P, d, s)).reshape(-1) * (r * s), T.A(ref(T, P, d, s)),
         "large: normalised residual sum")


def offsets(T, form):
    """small errors of large data"""
    from mud.funs import wme
    e = T.arr("e", (2, 2), lo=-4, hi=4)
    d = [T.const(2.0 ** 31 + 1), T.const(-(2.0 ** 27) - 3)]
    P = T.A([[d[j] + e[i, j] for j in range(2)] for i in range(2)])
    C = T.A([[d[0] + 1, d[1] + 2], [d[0], d[1] - 1]])
    r = T.sqrt(T.const(2))
    T.eq(T.A(wme(P, T.A(d), 1.0)) * r, T.A([e[i, 0] + e[i, 1] for i in range(2)]),
         "errors much smaller than the data")
    T.eq(T.A(wme(C, d if form else T.A(d), 0.5)) * r, T.A([6, -2]),
         "errors much smaller than the data")
    F = [[2.0 ** 31 + 1, 2 - 2.0 ** 31], [-(2.0 ** 27) - 3, 2.0 ** 27]]
    T.eq(T.A(wme(T.A(F), [0.0, 0.0], 0.5)) * r, T.A([6, -6]), "large errors that cancel")


PROP.add(offsets, "offsets", form=0)
PROP.add(large, "large-n4N150", n=4, N=150)
PROP.add(large_from_data, "large-std-of-data-N40", n=2, N=40)
PROP.add(large_from_data, "large-std-of-data-N300", n=2, N=300)
PROP.add(large, "large-n150N9", n=150, N=9)
PROP.add(large, "large-n3N1100", n=3, N=1100)

# samples, data, operators of integer type
PROP.add(given, "whole-predictions", n=2, N=3, ints=("P",))
PROP.add(given, "whole-all", n=2, N=4, ints=("P", "d"))
PROP.add(from_data, "whole-std", n=2, N=2, ints=("P",))

# the same with arrays stored in column order, or backwards
PROP.turned("n3N3", "std-of-data-N2")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-n2N3", "n2N3", "n2N3")
PROP.sequence("same-n2N3", "n2N3", "n2N3", how="same")
PROP.sequence("again-std-of-data-N2", "std-of-data-N2", "std-of-data-N2")
