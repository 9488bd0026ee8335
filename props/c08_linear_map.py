from engine.harness import Prop
from props.lin import (adj, changed, col, const_inv, const_mat, const_spd, det, dot,
                       first_rows, full_rank, mm, mv, rows, tr)

PROP = Prop(
    "C08", "Linear MAP point solves the regularised normal equations",
    outside="more than 3 parameters or 2 data; covariances that are not positive definite")


def lgp():
    from mud.base import LinearGaussianProblem
    return LinearGaussianProblem


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def stationary(T, A, b, y, m, S, O, alpha, x, d, p, label):
    """alpha Sigma A' C^-1 (A x + b - y) + (x - m) = 0"""
    if not T.shape(x, (p, 1), label + ": a column of parameters"):
        return
    x = col(x, p)
    W = mm(S, mm(tr(A), adj(O, d)))
    D = det(O, d)
    for j in range(p):
        g = [v for i in range(d) for v in [W[j][i] * A[i][k] * x[k] for k in range(p)]
             + [W[j][i] * b[i], -W[j][i] * y[i]]]
        T.zero([alpha * v for v in g] + [D * x[j], -D * m[j]],
               label + ": gradient vanishes")


def posterior_cov(T, A, S, O, alpha, C, d, p, label):
    """(A' Co^-1 A + (alpha Sigma)^-1) C = I, multiplied by alpha Sigma det(Co)"""
    if not T.shape(C, (p, p), label + ": square"):
        return
    C = rows(C, p, p)
    D = det(O, d)
    L = mm(S, mm(tr(A), mm(adj(O, d), mm(A, C))))
    for i in range(p):
        for j in range(p):
            T.eq(alpha * L[i][j] + D * C[i][j], D * alpha * S[i][j],
                 label + ": posterior covariance")


def solve(T, d, p, form="entries", oform="diag", how="map", alpha=True):
    A, b, y, m = T.arr("A", (d, p)), T.arr("b", d), T.arr("y", d), T.arr("m", p)
    S, O = T.spd("S", p, form), T.spd("O", d, oform)
    al = T.real("alpha", pos=True) if alpha else 1
    kw = {"alpha": al} if alpha else {}
    P = lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S, cov_o=O, **kw)
    if how == "all":
        full_rank(T, rows(A, d, p), d, p)
    x = P.solve("all")[1] if how == "all" else P.solve("map")
    a = (rows(A, d, p), b, y, m, rows(S, p, p), rows(O, d, d), al, x, d, p, "map")
    stationary(T, *a)
    posterior_cov(T, a[0], a[4], a[5], al, P.cov_p, d, p, "map")


def defaults(T):
    """unit covariances, zero mean, zero offset when not given"""
    A, y = T.arr("A", (1, 2)), T.arr("y", 1)
    v = T.pick("which", 3)
    P = [lambda: lgp()(A=A, y=y), lambda: lgp()(A=A, b=-y, alpha=None),
         lambda: lgp()(A=A, y=y, cov_o=T.A([[1]]), cov_i=T.A(eye(2)))][v]()
    stationary(T, rows(A, 1, 2), [0], y, [0, 0], eye(2), eye(1), 1, P.solve("map"), 1, 2,
               "defaults")


def functions(T, d, p):
    """map_sol and map_sol_with_cov answer for the same problem; w scales the prior"""
    from mud.funs import map_sol, map_sol_with_cov
    A, b, y, m = T.arr("A", (d, p)), T.arr("b", d), T.arr("y", d), T.arr("m", p)
    S, O = T.spd("S", p, "entries"), T.spd("O", d, "diag")
    w = T.real("w", pos=True)
    col2 = T.pick("shape of y", 2)
    yy = y.reshape(-1, 1) if col2 else y
    x = map_sol(A, b, yy, m, S, O, w)
    x2, C = map_sol_with_cov(A, b, yy, m, S, O, w)
    shp = (p, 1) if col2 else (p,)
    if not (T.shape(x, shp, "answers in the layout of the data")
            and T.shape(x2, shp, "answers in the layout of the data")):
        return
    a = (rows(A, d, p), b, y, m, rows(S, p, p), rows(O, d, d), w)
    stationary(T, *a, x.reshape(-1, 1), d, p, "map_sol")
    T.eq(x2, x, "map_sol_with_cov: same point")
    posterior_cov(T, a[0], a[4], a[5], w, C, d, p, "map_sol_with_cov")


def order(T):
    """changing the problem between solves gives the answer for the new problem"""
    A, b, y, m = T.arr("A", (1, 2)), T.arr("b", 1), T.arr("y", 1), T.arr("m", 2)
    S = T.spd("S", 2)
    full_rank(T, rows(A, 1, 2), 1, 2)
    P = lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S, alpha=T.real("a1", pos=True))
    P.solve(["map", "all", "mud", "ls"][T.pick("before", 4)])
    P.alpha = T.real("a2", pos=True)
    x = P.solve("all")[1] if T.pick("how", 2) else P.solve("map")
    stationary(T, rows(A, 1, 2), b, y, m, rows(S, 2, 2), eye(1), P.alpha, x, 1, 2,
               "after changing alpha")


PROP.add(solve, "d1p2", d=1, p=2)
PROP.add(solve, "d1p1", d=1, p=1)
PROP.add(solve, "d2p1", d=2, p=1, oform="entries")
PROP.add(solve, "d2p2", d=2, p=2, form="diag", alpha=False)
PROP.add(solve, "d1p3-diag", d=1, p=3, form="diag")
PROP.add(solve, "d1p2-all", d=1, p=2, how="all")
PROP.add(solve, "d2p2-entries", tier="thorough", d=2, p=2, oform="entries")
PROP.add(solve, "d2p3-diag", tier="thorough", d=2, p=3, form="diag")
PROP.add(defaults, "defaults")
PROP.add(functions, "functions-d1p2", d=1, p=2)
PROP.add(functions, "functions-d2p1", d=2, p=1)
PROP.add(order, "order")


def fixed(T, d, p, rank=None, seed=1):
    """larger fixed operators and covariances; every data, offset, mean and alpha"""
    A, S, O = const_mat(d, p, rank, seed), const_spd(p, seed), const_spd(d, f"o{seed}")
    b, m, y = T.arr("b", d), T.arr("m", p), T.arr("y", d)
    al = [T.const(1), T.const(4), T.const(0.25)][T.pick("alpha", 3)]
    P = lgp()(A=T.A(A), b=b, y=y, mean_i=m, cov_i=T.A(S), cov_o=T.A(O), alpha=al)
    x = P.solve("map")
    if not T.shape(x, (p, 1), "fixed: a column of parameters"):
        return
    x = col(x, p)
    Q = const_inv(T, O)
    g = mv(S, mv(tr(A), mv(Q, [dot(A[i], x) + b[i] - y[i] for i in range(d)])))
    for j in range(p):
        T.zero([al * g[j], x[j], -m[j]], "fixed: gradient vanishes")
    C = rows(P.cov_p, p, p)
    L = mm(S, mm(tr(A), mm(Q, mm(A, C))))
    for i in range(p):
        for j in range(p):
            T.zero([al * L[i][j], C[i][j], T.const(-1) * al * S[i][j]],
                   "fixed: posterior covariance")


PROP.add(fixed, "fixed-3x5", d=3, p=5)
PROP.add(fixed, "fixed-5x3", d=5, p=3)
PROP.add(fixed, "fixed-4x4-rank2", d=4, p=4, rank=2)
PROP.add(fixed, "fixed-7x8", tier="thorough", d=7, p=8)


def wme(T):
    """the weighted-mean-error problem takes the same settings"""
    from mud.base import LinearWMEProblem
    M, d0, y, m = T.arr("M", (2, 2)), T.arr("d", 2), T.arr("y", 1), T.arr("m", 2)
    S, O, al = T.spd("S", 2, "diag"), T.spd("O", 1), T.real("alpha", pos=True)
    if T.pick("by position", 2):
        P = LinearWMEProblem([M], [d0], 0.5, y, m, S, O, al)
    else:
        P = LinearWMEProblem(operators=[M], data=[d0], sigma=0.5, y=y, mean_i=m, cov_i=S,
                             cov_o=O, alpha=al)
    if not (T.shape(P.A, (1, 2), "wme: one row") and T.shape(P.b, (1, 1), "wme: offset")):
        return
    stationary(T, rows(P.A, 1, 2), [P.b[0, 0]], y, m, rows(S, 2, 2), rows(O, 1, 1), al,
               P.solve("map"), 1, 2, "wme")


PROP.add(wme, "wme")
PROP.add(changed, "changed-d1p2", d=1, p=2, meths=["map", "mud_alt"])
PROP.add(first_rows, "first-rows", d=3, p=2, k=1, meths=["map", "mud_alt", "all"])
PROP.add(first_rows, "first-rows-correlated", d=2, p=2, k=1, meths=["map", "mud_alt"],
         oform="entries")

# samples, data, operators of integer type
PROP.add(solve, "whole-operator", d=1, p=2, ints=("A", "b"))
PROP.add(solve, "whole-mean", d=1, p=2, ints=("m", "y"))
PROP.add(solve, "whole-all-but-data", d=2, p=2, ints=("A", "b", "m", "S", "O"))
PROP.add(functions, "whole-functions", d=1, p=2, ints=("A", "b", "m", "S", "y"))
PROP.add(fixed, "whole-3x5", d=3, p=5, ints=("constants", "m", "b"))

# the same with arrays stored in column order, or backwards
PROP.turned("d2p2", "functions-d1p2", "fixed-5x3")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-functions-d1p2", "functions-d1p2", "functions-d1p2")
PROP.sequence("same-functions-d1p2", "functions-d1p2", "functions-d1p2", how="same")
PROP.sequence("same-d1p2-then-d1p2-all", "d1p2", "d1p2-all", how="same")
