from engine.harness import Prop
from props.lin import (adj, changed, const_inv, const_kernel, const_mat, det, dot, full_rank,
                       mm, mv, nullvecs, rows, tr)

PROP = Prop(
    "C10", "Updated covariance pushes forward to the observed one, unchanged elsewhere",
    outside="more than 3 parameters or 2 data; rank decided by a floating tolerance")


def lgp():
    from mud.base import LinearGaussianProblem
    return LinearGaussianProblem


def check(T, A, S, O, U, d, p, label):
    """A U A' = C, U symmetric, and U agrees with Sigma where data do not inform:
    n' Sigma^-1 U = n' for n in the kernel of A"""
    if not T.shape(U, (p, p), label + ": square"):
        return
    U = rows(U, p, p)
    F = mm(A, mm(U, tr(A)))
    for i in range(d):
        for j in range(d):
            T.eq(F[i][j], O[i][j], label + ": push-forward is the observed covariance")
    for i in range(p):
        for j in range(i):
            T.eq(U[i][j], U[j][i], label + ": symmetric")
    D = det(S, p)
    for n in nullvecs(T, A, d, p):
        w = mv(tr(U), mv(adj(S, p), n))
        for j in range(p):
            T.eq(w[j], D * n[j], label + ": initial covariance kept along the kernel")


def full(T, d, p, form="entries", oform="diag", via="method"):
    A = T.arr("A", (d, p))
    S, O = T.spd("S", p, form), T.spd("O", d, oform)
    Al, Sl, Ol = rows(A, d, p), rows(S, p, p), rows(O, d, d)
    full_rank(T, Al, d, p, Sl if form == "entries" else None)
    y = T.arr("y", d)
    if via == "function":
        from mud.funs import updated_cov
        U = updated_cov(A, S, O)
    elif via == "given":
        U = lgp()(A=T.arr("B", (d, p)), y=y).updated_cov(A, S, O)
    elif via == "alt":
        P = lgp()(A=A, y=y, cov_i=S, cov_o=O)
        P.solve("mud_alt")
        U = P.up_cov
    elif via == "with_cov":
        from mud.funs import mud_sol_with_cov
        _, U = mud_sol_with_cov(A, T.A([0] * d), y, None, S, O)
    else:
        U = lgp()(A=A, y=y, cov_i=S, cov_o=O, alpha=T.real("alpha", pos=True)).updated_cov()
    check(T, Al, Sl, Ol, U, d, p, via)


def alpha(T):
    """the solve weights the initial covariance by alpha"""
    A, S, O = T.arr("A", (1, 2)), T.spd("S", 2), T.spd("O", 1)
    Al = rows(A, 1, 2)
    full_rank(T, Al, 1, 2)
    al = T.real("alpha", pos=True)
    P = lgp()(A=A, y=T.arr("y", 1), cov_i=S, cov_o=O, alpha=al)
    P.solve("mud_alt") if T.pick("how", 2) else P.solve("all")
    check(T, Al, rows(al * S, 2, 2), rows(O, 1, 1), P.up_cov, 1, 2, "alpha")


def alt_point(T, d, p, form="entries", via="method"):
    """the solution through the updated covariance is the MUD point"""
    A, b, y, m = T.arr("A", (d, p)), T.arr("b", d), T.arr("y", d), T.arr("m", p)
    S, O = T.spd("S", p, form), T.spd("O", d, "diag")
    Al = rows(A, d, p)
    full_rank(T, Al, d, p)
    if via == "method":
        P = lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S, cov_o=O, alpha=T.real("al", pos=True))
        x = P.solve("mud_alt")
        if not T.shape(x, (p, 1), "column"):
            return
        x = [x[j, 0] for j in range(p)]
    else:
        from mud.funs import mud_sol, mud_sol_with_cov
        v = T.pick("y", 2)
        yy = [y, y.reshape(-1, 1)][v]
        x, _ = mud_sol_with_cov(A, b, yy, m, S, O)
        z = mud_sol(A, b, yy, m, S, O)
        if not T.shape(x, [(p,), (p, 1)][v], "layout of the data"):
            return
        T.eq(z, x, "mud_sol and mud_sol_with_cov agree")
        x = list(x.ravel())
    for i in range(d):
        T.eq(dot(Al[i], x) + b[i], y[i], "reproduces the data")
    st = mv(adj(rows(S, p, p), p), [x[j] - m[j] for j in range(p)])
    for n in nullvecs(T, Al, d, p):
        T.eq(dot(n, st), 0, "deviation Sigma-orthogonal to the kernel")


def tall(T):
    """more data than parameters: P C P on the parameters the data determine"""
    a = [T.real("a0"), T.real("a1")]
    q = dot(a, a)
    T.assume(q != 0)
    s, O = T.real("s", pos=True), T.spd("O", 2)
    A = T.A([[a[0]], [a[1]]])
    from mud.funs import updated_cov
    U = [lambda: lgp()(A=A, cov_i=T.A([[s]]), cov_o=O).updated_cov(),
         lambda: updated_cov(A, T.A([[s]]), O)][T.pick("via", 2)]()
    v = mv(rows(O, 2, 2), a)
    T.eq(U, T.A([[dot(a, v) / (q * q)]]), "tall: covariance of the projected data")


def defaults(T):
    from mud.funs import updated_cov
    A = T.arr("A", (1, 2))
    Al = rows(A, 1, 2)
    full_rank(T, Al, 1, 2)
    v = T.pick("via", 2)
    U = updated_cov(A) if v else lgp()(A=A).updated_cov()
    check(T, Al, [[1, 0], [0, 1]], [[1]], U, 1, 2, "identity covariances by default")


PROP.add(full, "d1p2", d=1, p=2)
PROP.add(full, "d2p2", d=2, p=2, oform="entries", form="diag")
PROP.add(full, "d1p2-function", d=1, p=2, via="function")
PROP.add(full, "d1p2-given", d=1, p=2, via="given")
PROP.add(full, "d1p2-alt", d=1, p=2, via="alt")
PROP.add(full, "d1p2-with-cov", d=1, p=2, via="with_cov")
PROP.add(full, "d1p3-diag", d=1, p=3, form="diag")
PROP.add(full, "d1p3", tier="thorough", d=1, p=3)
PROP.add(full, "d2p3-diag", tier="thorough", d=2, p=3, form="diag")
PROP.add(full, "d2p2-entries", tier="thorough", d=2, p=2, oform="entries")
PROP.add(full, "d2p2-function", d=2, p=2, form="diag", via="function")
PROP.add(alpha, "alpha")
PROP.add(alt_point, "alt-d1p2", d=1, p=2)
PROP.add(alt_point, "alt-d2p2", d=2, p=2, form="diag")
PROP.add(alt_point, "alt-functions", d=1, p=2, via="functions")
PROP.add(tall, "tall-d2p1")
PROP.add(defaults, "defaults")


def fixed(T, d, p, via):
    """larger fixed operators and initial covariances; every observed covariance"""
    A = const_mat(d, p)
    from props.lin import const_spd
    S = const_spd(p)
    O = T.spd("O", d, "chol") if d <= 2 else T.A(
        [[T.real(f"o{i}{j}" if i <= j else f"o{j}{i}") for j in range(d)] for i in range(d)])
    Ol = rows(O, d, d)
    if via == "function":
        from mud.funs import updated_cov
        U = updated_cov(T.A(A), T.A(S), O)
    else:
        U = lgp()(A=T.A(A), cov_i=T.A(S), cov_o=O).updated_cov()
    if not T.shape(U, (p, p), "fixed: square"):
        return
    U = rows(U, p, p)
    F = mm(A, mm(U, tr(A)))
    for i in range(d):
        for j in range(d):
            T.eq(F[i][j], Ol[i][j], "fixed: push-forward is the observed covariance")
    for i in range(p):
        for j in range(i):
            T.eq(U[i][j], U[j][i], "fixed: symmetric")
    Q = const_inv(T, S)
    for n in const_kernel(A):
        n = [T.const(c) for c in n]
        for k in range(p):
            T.zero([a * U[i][k] for i, a in enumerate(mv(Q, n))] + [-n[k]],
                   "fixed: initial covariance kept along the kernel")


PROP.add(fixed, "fixed-2x4", d=2, p=4, via="method")
PROP.add(fixed, "fixed-3x5", d=3, p=5, via="function")
PROP.add(fixed, "fixed-3x5-method", d=3, p=5, via="method")
PROP.add(fixed, "fixed-5x8", tier="thorough", d=5, p=8, via="method")
PROP.add(changed, "changed-d1p2", d=1, p=2, meths=[])
PROP.add(changed, "changed-d2p2", d=2, p=2, meths=[])

# samples, data, operators of integer type
PROP.add(full, "whole-operator", d=1, p=2, ints=("A",))
PROP.add(full, "whole-covariance", d=1, p=2, ints=("S", "A"))
PROP.add(full, "whole-function", d=1, p=3, via="function", ints=("S", "A"))
PROP.add(full, "whole-with-cov", d=1, p=2, via="with_cov", ints=("S", "A", "O"))
PROP.add(fixed, "whole-3x5", d=3, p=5, via="function", ints=("constants",))

# the same with arrays stored in column order, or backwards
PROP.turned("d1p2", "fixed-3x5", "fixed-3x5-method")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-d1p2-function", "d1p2-function", "d1p2-function")
PROP.sequence("again-d1p2", "d1p2", "d1p2")
PROP.sequence("same-d1p2-then-d1p2-alt", "d1p2", "d1p2-alt", how="same")
