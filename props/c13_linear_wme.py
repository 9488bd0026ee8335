from engine.harness import Prop
from props.lin import dot, rows

PROP = Prop(
    "C13", "Linear WME transform is the weighted mean error of each quantity of interest",
    outside="deviations below 1e-9 (below 1e-14 they are refused); more than 3 observations per quantity with every value symbolic")


def value(M, d, s, x):
    """weighted mean error sum_i (M_i x - d_i) / (s_i sqrt(N)), times sqrt(N)"""
    return sum((dot(M[i if len(M) > 1 else 0], x) - d[i]) / s[i] for i in range(len(d)))


def check(T, A, b, qois, x, label):
    k = len(qois)
    A, b = T.A(A), T.A(b)
    if not (T.shape(A, (k, len(x)), label + ": one row per quantity")
            and T.shape(b, (k, 1), label + ": one offset per quantity")):
        return
    for q, (M, d, s) in enumerate(qois):
        r = T.sqrt(T.const(len(d)))
        T.eq((dot(A[q], x) + b[q, 0]) * r, value(M, d, s, x), label)


def operator(T, name, n, p, repeated):
    return T.arr(name, (1 if repeated else n, p))


def dev(T, name):
    """a deviation the transform accepts"""
    s = T.real(name, pos=True)
    T.assume(s > 1e-9)
    return s


STD = ["scalar", "list", "array", "int"]


def single(T, n, p, repeated, dform, which):
    """the map of one quantity"""
    from mud import util
    from mud.base import LinearWMEProblem
    M, d, x = operator(T, "M", n, p, repeated), T.arr("d", n), list(T.arr("x", p))
    forms = ["scalar", "int"] if repeated or n == 1 else STD
    f = T.choice("std", forms)
    if f == "scalar":
        s = dev(T, "s")
        sl = [s] * n
    elif f == "int":
        s, sl = 2, [2] * n
    else:
        sl = [dev(T, f"s{i}") for i in range(n)]
        s = sl if f == "list" else T.A(sl)
    dd = {"flat": d, "column": d.reshape(-1, 1), "list": list(d)}[dform]
    if which == "util":
        A, b = util.transform_linear_map(M, dd, s)
        A, b = T.A(A).reshape(1, -1), T.A(b).reshape(1, 1)
    elif which == "setup":
        A, b = util.transform_linear_setup([M], [dd], [s])
    else:
        P = LinearWMEProblem([M], [dd], [s])
        A, b = P.A, P.b
        T.eq(P.y, T.A([[0]]), "observed value of the map is zero by default")
    check(T, A, b, [(rows(M, len(M), p), list(d), sl)], x, which)


def several(T, which, nums, p, common):
    """several quantities with their own operators, data and deviations"""
    from mud import util
    from mud.base import LinearWMEProblem
    x = list(T.arr("x", p))
    Ms, ds, ss = [], [], []
    for q, (n, rep) in enumerate(nums):
        Ms.append(operator(T, f"M{q}", n, p, rep))
        ds.append(T.arr(f"d{q}", n))
        ss.append(dev(T, f"s{q}"))
    if common:
        s = 3 if T.pick("std", 2) else 0.5
        sl = [s] * len(nums)
    else:
        s = sl = ss
    if which == "setup":
        A, b = util.transform_linear_setup(Ms, ds, s)
    else:
        P = LinearWMEProblem(Ms, ds, s)
        A, b = P.A, P.b
    check(T, A, b, [(rows(M, len(M), p), list(d), [t] * len(d))
                    for M, d, t in zip(Ms, ds, sl)], x, which)


def shared(T, which):
    """quantities given by the same objects are still quantities of their own"""
    from mud import util
    from mud.base import LinearWMEProblem
    x = list(T.arr("x", 2))
    M = T.arr("M", (1 if T.pick("repeated", 2) else 2, 2))
    d = T.arr("d", 2)
    e = T.arr("e", 2)
    v = T.pick("shared", 3)
    s = [dev(T, "s0"), dev(T, "s1"), 2.0]
    if v == 0:
        Ms, ds = [M, M, M], [d, d, d]
    elif v == 1:
        Ms, ds = [M, T.arr("L", (2, 2)), M], [d, e, d]
    else:
        Ms, ds, s = [M, M, M], [d, e, d], [s[0]] * 3
    if which == "setup":
        A, b = util.transform_linear_setup(Ms, ds, s)
    else:
        P = LinearWMEProblem(Ms, ds, s)
        A, b = P.A, P.b
    check(T, A, b, [(rows(N, len(N), 2), list(q), [t] * 2)
                    for N, q, t in zip(Ms, ds, s)], x, "shared objects")


def settings(T, nums, how):
    """the other settings of the problem are the ones given"""
    from mud.base import LinearWMEProblem
    k, x = len(nums), list(T.arr("x", 2))
    Ms = [T.arr(f"M{q}", (n, 2)) for q, n in enumerate(nums)]
    ds = [T.arr(f"d{q}", n) for q, n in enumerate(nums)]
    s = [0.5 + q for q in range(k)]
    y, m = T.arr("y", (k, 1)), T.arr("m", (2, 1))
    C, R, a = T.spd("C", 2, "diag"), T.spd("R", k, "diag"), T.real("a", pos=True)
    if how == "place":
        P = LinearWMEProblem(Ms, ds, s, y, m, C, R, a)
    else:
        P = LinearWMEProblem(Ms, ds, s, y=y.reshape(-1) if how == "flat" else y, mean_i=m,
                             cov_i=C, cov_o=R, alpha=a)
    check(T, P.A, P.b, [(rows(M, len(M), 2), list(d), [T.const(t)] * len(d))
                        for M, d, t in zip(Ms, ds, s)], x, how)
    for name, v in (("y", y), ("mean_i", m), ("cov_i", C), ("cov_o", R), ("alpha", a)):
        T.eq(getattr(P, name), v, f"{name} as given")


def solution(T):
    """the MUD point of the transformed problem has zero weighted mean error"""
    from mud.base import LinearWMEProblem
    M, d = T.arr("M", (2, 2)), T.arr("d", 2)
    s = dev(T, "s")
    a = [M[0, j] + M[1, j] for j in range(2)]
    T.assume(dot(a, a) != 0)
    m = T.arr("m", 2)
    P = LinearWMEProblem([M], [d], [s], mean_i=m, cov_i=T.spd("S", 2))
    x = P.solve("mud")
    if not T.shape(x, (2, 1), "column"):
        return
    T.eq(value(rows(M, 2, 2), d, [s, s], list(x.ravel())), 0, "zero error at MUD")


def truth(T):
    """noiseless data: the error vanishes at the parameter that made them"""
    from mud.base import LinearWMEProblem
    M, x = T.arr("M", (2, 2)), T.arr("x", 2)
    P = LinearWMEProblem([M], [M @ x], [dev(T, "s")])
    T.eq(P.A @ x.reshape(-1, 1) + P.b, T.A([[0]]), "zero error at the truth")


def refused(T):
    """mismatched lengths, zero deviations, deviation lists for repeated observations"""
    from mud import util
    from mud.base import LinearWMEProblem
    M, d = T.arr("M", (2, 2)), T.arr("d", 2)
    s = dev(T, "s")
    v = T.pick("case", 5)
    args = [(M, T.arr("e", 3), s), (M, d, [s, s, s]), (M, d, [s, 0.0]), (M, d, 0.0),
            (T.arr("R", (1, 2)), d, [s, s])][v]
    exc = (AssertionError, ValueError)
    T.raises(exc, lambda: util.transform_linear_map(*args), "refused")
    T.raises(exc, lambda: LinearWMEProblem([args[0]], [args[1]], [args[2]]), "refused")


for w in ("util", "setup", "problem"):
    PROP.add(single, f"{w}-n2p2", n=2, p=2, repeated=False, dform="flat", which=w)
    PROP.add(single, f"{w}-n3p1-column", n=3, p=1, repeated=False, dform="column", which=w)
    PROP.add(single, f"{w}-n2p2-repeated", n=2, p=2, repeated=True, dform="list", which=w)
    PROP.add(single, f"{w}-n1p2", n=1, p=2, repeated=False, dform="flat", which=w)
for w in ("setup", "problem"):
    PROP.add(several, f"{w}-2-quantities", which=w, nums=[(2, False), (3, True)], p=2,
             common=False)
    PROP.add(several, f"{w}-2-common", which=w, nums=[(2, False), (1, False)], p=2,
             common=True)
PROP.add(shared, "setup-shared", which="setup")
PROP.add(shared, "problem-shared", which="problem")
for h in ("name", "place", "flat"):
    PROP.add(settings, f"settings-1-{h}", nums=[2], how=h)
PROP.add(settings, "settings-2", nums=[2, 1], how="name")
PROP.add(solution, "solution")
PROP.add(truth, "truth")
PROP.add(refused, "refused")
PROP.add(single, "problem-n5p3", tier="thorough", n=5, p=3, repeated=False, dform="flat",
         which="problem")
PROP.add(several, "problem-3-quantities", tier="thorough", which="problem",
         nums=[(2, False), (3, True), (4, False)], p=3, common=False)


def large(T, nums, p):
    """many quantities and data; nearly all entries constants"""
    from mud.base import LinearWMEProblem
    x = list(T.arr("x", p))
    Ms = [T.big(f"M{q}", (n, p), free=1) for q, n in enumerate(nums)]
    ds = [T.big(f"d{q}", n, free=2) for q, n in enumerate(nums)]
    ss = [0.5 + q for q in range(len(nums))]
    P = LinearWMEProblem(Ms, ds, ss)
    check(T, P.A, P.b, [(rows(M, len(M), p), list(d), [T.const(t)] * len(d))
                        for M, d, t in zip(Ms, ds, ss)], x, "large")


PROP.add(large, "large-12-quantities", nums=[2, 4, 6, 9, 2, 2, 3, 5, 7, 2, 2, 11], p=3)
PROP.add(large, "large-n150", nums=[150, 36], p=2)

# samples, data, operators of integer type
PROP.add(single, "whole-operator", n=3, p=2, repeated=False, dform="flat", which="util", ints=("M",))
PROP.add(single, "whole-data", n=3, p=2, repeated=False, dform="flat", which="problem", ints=("M", "d"))
PROP.add(single, "whole-repeated", n=3, p=2, repeated=True, dform="flat", which="setup", ints=("M", "d"))

# the same with arrays stored in column order, or backwards
PROP.turned("util-n2p2", "setup-2-quantities", "problem-2-quantities")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-util-n2p2", "util-n2p2", "util-n2p2")
PROP.sequence("again-setup-n2p2", "setup-n2p2", "setup-n2p2")
PROP.sequence("again-problem-n2p2", "problem-n2p2", "problem-n2p2")
PROP.sequence("same-util-n2p2", "util-n2p2", "util-n2p2", how="same")
for w in ("setup", "problem"):
    PROP.add(several, f"{w}-1-common", which=w, nums=[(2, False)], p=2, common=True)
    PROP.sequence(f"again-{w}-common", f"{w}-1-common", f"{w}-2-common")
