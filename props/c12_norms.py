from engine.harness import Prop
from props.lin import adj, det, dot, full_rank, mm, mv, quad, rows, tr

PROP = Prop(
    "C12", "Norm functionals: input + data - predicted norms in their covariances",
    outside="more than 3 dimensions; singular covariances")


def setup(T, d, p, n):
    A = T.arr("A", (d, p))
    Al = rows(A, d, p)
    full_rank(T, Al, d, p)
    return A, Al, T.arr("X", (n, p)), T.arr("m", p)


def icov(T, p, form):
    """initial covariance: scalar (times identity) or matrix"""
    if form == "int":
        return 2, [[2 if i == j else 0 for j in range(p)] for i in range(p)]
    if form == "float":
        return 0.5, [[T.const(0.5) if i == j else 0 for j in range(p)] for i in range(p)]
    S = T.spd("S", p)
    return S, rows(S, p, p)


def ocov(T, d, form):
    if form == "int":
        return 3, [[3 if i == j else 0 for j in range(d)] for i in range(d)]
    if form == "float":
        return 0.25, [[T.const(0.25) if i == j else 0 for j in range(d)] for i in range(d)]
    O = T.spd("O", d)
    return O, rows(O, d, d)


def inner(T, p, n):
    from mud.norm import inner_product
    X, S = T.arr("X", (p, n)), T.spd("S", p)
    Sl = rows(S, p, p)
    ref = [quad(adj(Sl, p), [X[i, k] for i in range(p)]) / det(Sl, p) for k in range(n)]
    T.eq(inner_product(X, S), T.A(ref), "x' C^-1 x per column")


def n_input(X, m, Sl, k, p):
    return quad(adj(Sl, p), [X[k, j] - m[j] for j in range(p)]) / det(Sl, p)


def n_data(Al, X, b, o, Ol, k, d):
    return quad(adj(Ol, d), [dot(Al[i], list(X[k])) + b[i] - o[i]
                             for i in range(d)]) / det(Ol, d)


def n_pred(Al, X, m, Sl, k, d, p):
    C = mm(Al, mm(Sl, tr(Al)))
    return quad(adj(C, d), mv(Al, [X[k, j] - m[j] for j in range(p)])) / det(C, d)


def parts(T, d, p, n):
    from mud import norm as N
    A, Al, X, m = setup(T, d, p, n)
    form = T.choice("form", ["matrix", "int", "float"])
    S, Sl = icov(T, p, form)
    O, Ol = ocov(T, d, form)
    b, o = T.arr("b", d), T.arr("o", d)
    mm_ = m.reshape(-1, 1) if T.pick("mean", 2) else m
    T.eq(N.norm_input(X, mm_, S), T.A([n_input(X, m, Sl, k, p) for k in range(n)]),
         "input norm")
    T.eq(N.norm_predicted(A, X, mm_, S),
         T.A([n_pred(Al, X, m, Sl, k, d, p) for k in range(n)]), "predicted norm")
    bb = b.reshape(-1, 1)
    oo = o.reshape(1, -1)
    T.eq(N.norm_data(A, X, bb, oo, O),
         T.A([n_data(Al, X, b, o, Ol, k, d) for k in range(n)]), "data norm")


def full(T, d, p, n, defaults):
    from mud import norm as N
    A, Al, X, m = setup(T, d, p, n)
    S, Sl = icov(T, p, T.choice("form", ["matrix", "int", "float"]))
    b = T.arr("b", d)
    bb = b.reshape(-1, 1)
    if defaults:
        f = N.full_functional(A, X, bb, m, S)
        o, Ol = [0] * d, [[1 if i == j else 0 for j in range(d)] for i in range(d)]
    else:
        O, Ol = ocov(T, d, T.choice("oform", ["matrix", "int", "float"]))
        o = T.arr("o", d)
        if T.pick("by name", 2):
            f = N.full_functional(operator=A, inputs=X, data=bb, initial_mean=m,
                                  initial_cov=S, observed_mean=o.reshape(1, -1),
                                  observed_cov=O)
        else:
            f = N.full_functional(A, X, bb, m, S, o.reshape(1, -1), O)
    T.eq(f, T.A([n_input(X, m, Sl, k, p) + n_data(Al, X, b, o, Ol, k, d)
                 - n_pred(Al, X, m, Sl, k, d, p) for k in range(n)]), "full functional")


def agrees(T, d, p, n):
    """the stand-alone functional is the linear problem's data-consistent functional"""
    from mud import norm as N
    from mud.base import LinearGaussianProblem
    A, Al, X, m = setup(T, d, p, n)
    S, O = T.spd("S", p, "diag"), T.spd("O", d, "diag")
    b, y = T.arr("b", d), T.arr("y", d)
    P = LinearGaussianProblem(A=A, b=b, y=y, mean_i=m, cov_i=S, cov_o=O)
    T.eq(N.full_functional(A, X, b.reshape(-1, 1), m, S, y.reshape(1, -1), O),
         P.compute_functionals(X, terms="dc"), "same functional")


PROP.add(inner, "inner-p2", p=2, n=3)
PROP.add(inner, "inner-p1", p=1, n=2)
PROP.add(inner, "inner-p3", p=3, n=2)
PROP.add(parts, "parts-d1p2", d=1, p=2, n=2)
PROP.add(parts, "parts-d2p2", d=2, p=2, n=2)
PROP.add(full, "full-d1p2", d=1, p=2, n=2, defaults=False)
PROP.add(full, "full-d1p2-defaults", d=1, p=2, n=2, defaults=True)
PROP.add(full, "full-d2p2-defaults", d=2, p=2, n=1, defaults=True)
PROP.add(agrees, "agrees", d=2, p=2, n=2)
PROP.add(parts, "parts-d1p3", tier="thorough", d=1, p=3, n=2)


def fixed(T, d, p, n):
    """larger fixed operators and covariances; data, offset and means symbolic"""
    from mud import norm as N
    from props.lin import const_inv, const_mat, const_spd
    A, S, O = const_mat(d, p), const_spd(p), const_spd(d, "o")
    b, o, m = T.arr("b", d), T.arr("o", d), T.arr("m", p)
    X = T.big("X", (n, p), free=2)
    a, s_, o_ = T.A(A), T.A(S), T.A(O)
    Qs, Qo = const_inv(T, S), const_inv(T, O)
    Qp = const_inv(T, mm(A, mm(S, tr(A))))
    E = [[X[k, j] - m[j] for j in range(p)] for k in range(n)]
    fi = [quad(Qs, e) for e in E]
    fp = [quad(Qp, mv(A, e)) for e in E]
    fd = [quad(Qo, [dot(A[i], list(X[k])) + b[i] - o[i] for i in range(d)])
          for k in range(n)]
    bb, oo = b.reshape(-1, 1), o.reshape(1, -1)
    T.eq(N.norm_input(X, m, s_), T.A(fi), "fixed: input norm")
    T.eq(N.norm_predicted(a, X, m, s_), T.A(fp), "fixed: predicted norm")
    T.eq(N.norm_data(a, X, bb, oo, o_), T.A(fd), "fixed: data norm")
    T.eq(N.full_functional(a, X, bb, m, s_, oo, o_),
         T.A([x + y - z for x, y, z in zip(fi, fd, fp)]), "fixed: full functional")


PROP.add(fixed, "fixed-3x5", d=3, p=5, n=3)
PROP.add(fixed, "fixed-4x4", d=4, p=4, n=2)
PROP.add(fixed, "fixed-rows-130", d=1, p=2, n=130)

# samples, data, operators of integer type
PROP.add(inner, "whole-inner", p=2, n=3, ints=("X",))
PROP.add(parts, "whole-points", d=1, p=2, n=2, ints=("X", "m"))
PROP.add(parts, "whole-all", d=2, p=2, n=2, ints=("X", "A", "b"))
PROP.add(full, "whole-full", d=1, p=2, n=2, defaults=True, ints=("X", "m", "A"))

# the same with arrays stored in column order, or backwards
PROP.turned("inner-p3", "parts-d2p2", "full-d2p2-defaults")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-parts-d1p2", "parts-d1p2", "parts-d1p2")
PROP.sequence("again-inner-p2", "inner-p2", "inner-p2")
PROP.sequence("same-full-d1p2-then-full-d1p2-defaults", "full-d1p2", "full-d1p2-defaults", how="same")
