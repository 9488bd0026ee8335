from engine.harness import Prop
from props.lin import adj, const_inv, const_mat, const_spd, det, dot, full_rank, mm, mv, quad, rows, tr

PROP = Prop(
    "C11", "Functionals are the objectives the linear solutions minimise",
    outside="more than 2 parameters or 2 data; rank-deficient predicted covariance")


def lgp():
    from mud.base import LinearGaussianProblem
    return LinearGaussianProblem


def setup(T, d, p, form="entries", alpha=True):
    A, b, y, m = T.arr("A", (d, p)), T.arr("b", d), T.arr("y", d), T.arr("m", p)
    S, O = T.spd("S", p, form), T.spd("O", d, "diag")
    al = T.real("alpha", pos=True) if alpha else 1
    kw = {"alpha": al} if alpha else {}
    P = lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S, cov_o=O, **kw)
    Al = rows(A, d, p)
    full_rank(T, Al, d, p)
    return P, Al, b, y, m, rows(S, p, p), rows(O, d, d), al


def terms(Al, b, y, m, S, O, al, x):
    d, p = len(Al), len(x)
    r = [dot(Al[i], x) + b[i] - y[i] for i in range(d)]
    e = [x[j] - m[j] for j in range(p)]
    data = quad(adj(O, d), r) / det(O, d)
    reg = quad(adj(S, p), e) / (al * det(S, p))
    C = mm(Al, mm(S, tr(Al)))
    dc = quad(adj(C, d), mv(Al, e)) / (al * det(C, d))
    return data, reg, dc


def formula(T, d, p, n, form="entries", which=("data", "reg", "dc_term", "reg_m", "bayes",
                                               "dc", "all")):
    """every term, at every row of X, has the documented value"""
    P, Al, b, y, m, S, O, al = setup(T, d, p, form)
    X = T.arr("X", (n, p))
    t = [terms(Al, b, y, m, S, O, al, list(X[k])) for k in range(n)]
    w = T.choice("terms", list(which))
    val = {"data": lambda t: t[0], "reg": lambda t: t[1], "dc_term": lambda t: t[2],
           "reg_m": lambda t: t[1] - t[2], "bayes": lambda t: t[0] + t[1],
           "dc": lambda t: t[0] + t[1] - t[2]}
    if w == "all":
        f = P.compute_functionals(X)
        T.true(len(f) == 5, "five terms")
        for g, k in zip(f, ("data", "reg", "dc_term", "bayes", "dc")):
            T.eq(g, T.A([val[k](u) for u in t]), f"all: {k} per row of X")
    else:
        T.eq(P.compute_functionals(X, terms=w), T.A([val[w](u) for u in t]),
             f"{w} per row of X")


def map_minimises(T, d, p, form="entries"):
    """bayes(x) - bayes(MAP) is the posterior-precision square of x - MAP"""
    P, Al, b, y, m, S, O, al = setup(T, d, p, form)
    x0 = P.solve("map")
    X = T.arr("X", (1, p))
    f = P.compute_functionals(X, terms="bayes")
    f0 = P.compute_functionals(x0.T, terms="bayes")
    e = [X[0, j] - x0[j, 0] for j in range(p)]
    r = mv(Al, e)
    gap = quad(adj(O, d), r) / det(O, d) + quad(adj(S, p), e) / (al * det(S, p))
    T.eq(f, f0 + T.A([gap]), "bayes functional above its value at MAP by a square")


def mud_minimises(T, d, p, form="entries"):
    """dc is zero at the MUD point and a sum of squares elsewhere"""
    P, Al, b, y, m, S, O, al = setup(T, d, p, form)
    x0 = P.solve("mud")
    T.eq(P.compute_functionals(x0.T, terms="dc"), T.A([0]), "dc vanishes at MUD")
    T.eq(P.compute_functionals(x0.T, terms="data"), T.A([0]), "data misfit zero at MUD")
    X = T.arr("X", (1, p))
    f = P.compute_functionals(X, terms="dc")
    x = list(X[0])
    data = terms(Al, b, y, m, S, O, al, x)[0]
    if d == 1 and p == 2:
        n = [-Al[0][1], Al[0][0]]
        Q = adj(S, 2)
        c = dot(n, mv(Q, [x[j] - m[j] for j in range(2)]))
        rest = c * c / (al * quad(Q, n) * det(S, 2))
    else:
        rest = 0
    T.eq(f, T.A([data + rest]), "dc is data misfit plus a square along the kernel")


def ls_minimises(T):
    """with unit data covariance no point has a smaller data term than ls"""
    A, b, y = T.arr("A", (2, 1)), T.arr("b", 2), T.arr("y", 2)
    q = A[0, 0] * A[0, 0] + A[1, 0] * A[1, 0]
    T.assume(q != 0)
    P = lgp()(A=A, b=b, y=y)
    x0 = P.solve("ls")
    X = T.arr("X", (2, 1))
    f = P.compute_functionals(X, terms="data")
    f0 = P.compute_functionals(x0.T, terms="data")
    T.eq(f, T.A([f0[0] + q * (X[k, 0] - x0[0, 0]) ** 2 for k in range(2)]),
         "data term above its value at ls by a square")


PROP.add(formula, "terms-d1p2", d=1, p=2, n=2)
PROP.add(formula, "terms-d2p2", d=2, p=2, n=2, form="diag")
PROP.add(formula, "terms-d2p2-n3", d=2, p=2, n=3, form="diag", which=("data", "all"))
PROP.add(formula, "terms-d1p1", d=1, p=1, n=3)
PROP.add(map_minimises, "map-d1p2", d=1, p=2)
PROP.add(map_minimises, "map-d2p2", d=2, p=2, form="diag")
PROP.add(map_minimises, "map-d2p2-entries", tier="thorough", d=2, p=2)
PROP.add(mud_minimises, "mud-d1p2", d=1, p=2)
PROP.add(mud_minimises, "mud-d2p2", d=2, p=2, form="diag")
PROP.add(mud_minimises, "mud-d1p1", d=1, p=1)
PROP.add(ls_minimises, "ls")


def fixed(T, d, p, n, free=2):
    """larger fixed operators and covariances; data, offset and mean symbolic"""
    A, S, O = const_mat(d, p), const_spd(p), const_spd(d, "o")
    b, y, m = T.arr("b", d), T.arr("y", d), T.arr("m", p)
    al = T.real("alpha", pos=True)
    X = T.big("X", (n, p), free=free)
    P = lgp()(A=T.A(A), b=b, y=y, mean_i=m, cov_i=T.A(S), cov_o=T.A(O), alpha=al)
    f = P.compute_functionals(X)
    Qs, Qo = const_inv(T, S), const_inv(T, O)
    Qp = const_inv(T, mm(A, mm(S, tr(A))))
    data, reg, dc = [], [], []
    for k in range(n):
        e = [X[k, j] - m[j] for j in range(p)]
        data.append(quad(Qo, [dot(A[i], list(X[k])) + b[i] - y[i] for i in range(d)]))
        reg.append(quad(Qs, e) / al)
        dc.append(quad(Qp, mv(A, e)) / al)
    for g, t, l in ((f[0], data, "data"), (f[1], reg, "regularisation"),
                    (f[2], dc, "data-consistent")):
        T.eq(g, T.A(t), f"fixed: {l} term per row of X")
    T.eq(f[3] - f[0] - f[1], T.A([0] * n), "fixed: Bayesian sum")
    T.eq(f[4] - f[0] - f[1] + f[2], T.A([0] * n), "fixed: data-consistent sum")


PROP.add(fixed, "fixed-3x5", d=3, p=5, n=3)
PROP.add(fixed, "fixed-4x4", d=4, p=4, n=2)
PROP.add(fixed, "fixed-rows-130", d=1, p=2, n=130)
PROP.add(fixed, "fixed-5x9", tier="thorough", d=5, p=9, n=3)

# samples, data, operators of integer type
PROP.add(formula, "whole-points", d=1, p=2, n=2, ints=("X", "m"))
PROP.add(formula, "whole-points-only", d=1, p=2, n=2, ints=("X",))
PROP.add(formula, "whole-operator", d=2, p=2, n=2, form="diag", ints=("A", "b", "y", "X"))
PROP.add(map_minimises, "whole-map", d=1, p=2, ints=("A", "m", "y"))
PROP.add(fixed, "whole-3x5", d=3, p=5, n=3, ints=("constants", "X", "m"))

# the same with arrays stored in column order, or backwards
PROP.turned("terms-d2p2-n3", "fixed-3x5", "fixed-rows-130")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-terms-d1p2", "terms-d1p2", "terms-d1p2")
PROP.sequence("again-map-d1p2", "map-d1p2", "map-d1p2")
