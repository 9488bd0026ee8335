from engine.harness import Prop
from props.lin import changed, const_kernel, const_mat, dot, first_rows, mv, nullvecs, rows, tr

PROP = Prop(
    "C09", "Least squares answers with the minimum-norm least-squares solution",
    outside="more than 3 parameters or data; rank decided by a floating tolerance")


def lgp():
    from mud.base import LinearGaussianProblem
    return LinearGaussianProblem


def check(T, A, b, y, x, d, p, kern, label):
    if not T.shape(x, (p, 1), label + ": a column of parameters"):
        return
    x = [x[j, 0] for j in range(p)]
    r = [dot(A[i], x) + b[i] - y[i] for i in range(d)]
    for g in mv(tr(A), r):
        T.eq(g, 0, label + ": residual orthogonal to the columns of A")
    for n in kern:
        T.eq(dot(n, x), 0, label + ": no component in the kernel")


def full(T, d, p, how="ls"):
    A, b, y = T.arr("A", (d, p)), T.arr("b", d), T.arr("y", d)
    Al = rows(A, d, p)
    if d == 1:
        T.assume(dot(Al[0], Al[0]) != 0)
    elif p == 1:
        T.assume(dot(tr(Al)[0], tr(Al)[0]) != 0)
    elif d == p == 2:
        T.assume(Al[0][0] * Al[1][1] - Al[0][1] * Al[1][0] != 0)
    elif d == 2 and p == 3:
        n = nullvecs(T, Al, d, p)
        T.assume(dot(n[0], n[0]) != 0)
    elif d == 3 and p == 2:
        n = nullvecs(T, tr(Al), 2, 3)
        T.assume(dot(n[0], n[0]) != 0)
    kw = {} if T.pick("mean", 2) == 0 else {
        "mean_i": T.arr("m", p), "alpha": T.real("alpha", pos=True)}
    P = lgp()(A=A, b=b, y=y, **kw)
    x = P.solve("all")[2] if how == "all" else P.solve("ls")
    check(T, Al, b, y, x, d, p, nullvecs(T, Al, d, p), "ls")


def deficient(T, d, p):
    """dependent rows, data attainable or not"""
    a = [T.real(f"a{j}") for j in range(p)]
    T.assume(dot(a, a) != 0)
    ks = [T.const(1)] + [T.real(f"k{i}") for i in range(1, d)]
    Al = [[k * v for v in a] for k in ks]
    b, y = T.arr("b", d), T.arr("y", d)
    x = lgp()(A=T.A(Al), b=b, y=y).solve("ls")
    check(T, Al, b, y, x, d, p, nullvecs(T, [a], 1, p), "ls, dependent rows")


def zero(T):
    y = T.arr("y", 2)
    x = lgp()(A=T.A([[0, 0], [0, 0]]), y=y).solve("ls")
    T.eq(x, T.A([[0], [0]]), "zero operator: zero is the smallest solution")


PROP.add(full, "d1p2", d=1, p=2)
PROP.add(full, "d2p2", d=2, p=2)
PROP.add(full, "d2p1", d=2, p=1)
PROP.add(full, "d3p1", d=3, p=1)
PROP.add(full, "d1p3", d=1, p=3)
PROP.add(full, "d1p2-all", d=1, p=2, how="all")
PROP.add(full, "d2p3", d=2, p=3)
PROP.add(full, "d3p2", d=3, p=2)
PROP.add(deficient, "deficient-d2p2", d=2, p=2)
PROP.add(deficient, "deficient-d3p2", tier="thorough", d=3, p=2)
PROP.add(deficient, "deficient-d2p3", tier="thorough", d=2, p=3)
PROP.add(zero, "zero")


def fixed(T, d, p, rank=None, seed=1):
    """larger fixed operators; every data and offset, attainable or not"""
    A = const_mat(d, p, rank, seed)
    b, y = T.arr("b", d), T.arr("y", d)
    P = lgp()(A=T.A(A), b=b, y=y, mean_i=T.arr("m", p))
    check(T, A, b, y, P.solve("ls"), d, p, const_kernel(A), "ls, fixed")


def scaled(T, d, p, k, how="ls"):
    """directions informed far less than others count as much"""
    A = const_mat(d, p, None, 3)
    A = [[v / 4.0 ** (k * i) for v in r] for i, r in enumerate(A)]
    y = T.arr("y", d)
    P = lgp()(A=T.A(A), y=y, mean_i=T.arr("m", p))
    x = P.solve("ls") if how == "ls" else P.solve("all")[2]
    check(T, A, [0] * d, y, x, d, p, const_kernel(A), "ls, scaled")


def diagonal(T, p):
    """independent directions of any scales"""
    a = [T.real(f"a{j}") for j in range(p)]
    for v in a:
        T.assume(v != 0)
        T.assume(v * v > 1e-8)
        T.assume(v * v < 1e8)
    y = T.arr("y", p)
    A = T.A([[a[i] if i == j else 0 for j in range(p)] for i in range(p)])
    x = lgp()(A=A, y=y).solve("ls")
    if T.shape(x, (p, 1), "column"):
        for j in range(p):
            T.eq(x[j, 0] * a[j], y[j], "each direction solved exactly")


PROP.add(scaled, "scaled-2x2", d=2, p=2, k=4)
PROP.add(scaled, "scaled-3x4", d=3, p=4, k=2, how="all")
PROP.add(scaled, "scaled-3x2", d=3, p=2, k=2)
PROP.add(diagonal, "diagonal-2", p=2)
PROP.add(diagonal, "diagonal-3", p=3)
PROP.add(fixed, "fixed-3x5", d=3, p=5)
PROP.add(fixed, "fixed-5x3", d=5, p=3)
PROP.add(fixed, "fixed-4x5-rank2", d=4, p=5, rank=2)
PROP.add(fixed, "fixed-8x6-rank5", tier="thorough", d=8, p=6, rank=5)
PROP.add(changed, "changed-d1p2", d=1, p=2, meths=["ls"])
PROP.add(changed, "changed-d2p2", tier="thorough", budget=600, d=2, p=2, meths=["ls"])
PROP.add(first_rows, "first-rows", d=3, p=2, k=1, meths=["ls"])
PROP.add(first_rows, "first-two-rows", d=3, p=2, k=2, meths=["ls"])

# samples, data, operators of integer type
PROP.add(full, "whole-operator", d=2, p=2, ints=("A",))
PROP.add(full, "whole-data", d=1, p=2, ints=("b", "y"))
PROP.add(full, "whole-all", d=3, p=2, ints=("A", "b", "y"))
PROP.add(fixed, "whole-3x5", d=3, p=5, ints=("constants", "y", "b"))
PROP.add(fixed, "whole-5x3", d=5, p=3, ints=("constants", "b"))

# the same with arrays stored in column order, or backwards
PROP.turned("d2p3", "d2p2", "fixed-3x5")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-d1p2", "d1p2", "d1p2")
PROP.sequence("again-d2p1", "d2p1", "d2p1")
