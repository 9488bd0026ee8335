from engine.harness import Prop
from props.lin import (adj, changed, col, const_inv, const_kernel, const_mat, const_spd, dot,
                       first_rows, mv, nonzero, nullvecs, rows)

PROP = Prop(
    "C07", "Linear MUD solution reproduces the data and moves only along Sigma A^T",
    outside="more than 3 parameters or data with a fully symbolic covariance; "
            "rank decided by a floating-point tolerance (the rank is exact here)")


def lgp():
    from mud.base import LinearGaussianProblem
    return LinearGaussianProblem


def problem(T, d, p, form, **k):
    A = T.arr("A", (d, p))
    b, y, m = T.arr("b", d), T.arr("y", d), T.arr("m", p)
    S = T.spd("S", p, form)
    return A, b, y, m, S


def check(T, A, b, y, m, S, x, d, p, label, kern=True):
    if not T.shape(x, (p, 1), label + ": a column of parameters"):
        return
    x = col(x, p)
    for i in range(d):
        T.eq(T.dot(A[i], x) + b[i], y[i], label + ": predicted data equals observed")
    if kern:
        step = [x[j] - m[j] for j in range(p)]
        Q = adj(S, p)
        w = [T.dot(Q[i], step) for i in range(p)]
        for n in nullvecs(T, A, d, p):
            T.eq(T.dot(n, w), 0, label + ": deviation Sigma-orthogonal to kernel")


def full(T, d, p, form="entries", how="mud", alpha=True, nice=False):
    A, b, y, m, S = problem(T, d, p, form)
    Al = rows(A, d, p)
    kw = {}
    if alpha:
        kw["alpha"] = T.real("alpha", pos=True)
    if how == "cov_o":
        kw["cov_o"] = T.spd("O", d, "diag")
    # full row rank
    if d == 1:
        T.assume(T.dot(Al[0], Al[0]) != 0)
        if p == 3 and form == "entries":    # Sigma is positive definite, A is not 0
            T.lemma_pos(T.dot(Al[0], [T.dot(r, Al[0]) for r in rows(S, p, p)]))
    else:
        n = nullvecs(T, Al, d, p)
        if n:
            T.assume(T.dot(n[0], n[0]) != 0)
        else:
            T.assume(Al[0][0] * Al[1][1] - Al[0][1] * Al[1][0] != 0)
    P = lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S, **kw)
    x = P.solve("all")[0] if how == "all" else P.solve("mud")
    check(T, Al, b, y, m, rows(S, p, p), x, d, p, "mud")
    if how == "all":
        T.eq(P.solve(), x, "default method is the MUD solution")


def deficient(T, d, p, form="diag"):
    """dependent rows and attainable data"""
    A0 = [T.real(f"a{j}") for j in range(p)]
    T.assume(T.dot(A0, A0) != 0)
    ks = [T.const(1)] + [T.real(f"k{i}") for i in range(1, d)]
    A = [[k * a for a in A0] for k in ks]
    t = T.real("t")
    b, m = T.arr("b", d), T.arr("m", p)
    y = [k * t + b[i] for i, k in enumerate(ks)]
    S = T.spd("S", p, form)
    P = lgp()(A=T.A(A), b=b, y=T.A(y), mean_i=m, cov_i=S)
    x = P.solve("mud")
    if not T.shape(x, (p, 1), "shape"):
        return
    for i in range(d):
        T.eq(T.dot(A[i], col(x, p)) + b[i], y[i], "deficient: attainable data reproduced")
    step = [x[j, 0] - m[j] for j in range(p)]
    Q = adj(rows(S, p, p), p)
    w = [T.dot(Q[i], step) for i in range(p)]
    for n in nullvecs(T, [A0], 1, p):
        T.eq(T.dot(n, w), 0, "deficient: deviation Sigma-orthogonal to kernel")


def zero_map(T):
    """an operator that carries no information leaves the initial mean"""
    m, y = T.arr("m", 2), T.arr("y", 1)
    P = lgp()(A=T.A([[0, 0]]), y=y, mean_i=m, cov_i=T.spd("S", 2))
    T.eq(P.solve("mud"), m.reshape(-1, 1), "zero operator keeps the initial mean")


def invariance(T, d, p):
    """neither alpha nor the data covariance moves the MUD point"""
    A, b, y, m, S = problem(T, d, p, "entries")
    O = T.spd("O", d, "diag")
    x = lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S).solve("mud")
    P = lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S, cov_o=O, alpha=T.real("al", pos=True))
    T.eq(P.solve("mud"), x, "independent of alpha and data covariance")


def forms(T):
    """list, flat and column inputs mean the same problem"""
    A, b, y, m, S = problem(T, 1, 2, "entries")
    T.assume(T.dot(A[0], A[0]) != 0)
    ref = lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S).solve("mud")
    v = T.pick("form", 4)
    if v == 0:
        P = lgp()(A=A[0], b=b.reshape(-1, 1), y=y.reshape(-1, 1),
                  mean_i=m.reshape(-1, 1), cov_i=S)
    elif v == 1:
        P = lgp()(A=[list(A[0])], b=list(b), y=list(y), mean_i=list(m),
                  cov_i=[list(r) for r in S])
    elif v == 2:
        P = lgp()(A=A, b=b.reshape(1, -1), y=y.reshape(1, -1),
                  mean_i=m.reshape(1, -1), cov_i=S, alpha=None)
    else:
        P = lgp()(list(A[0]), list(b), list(y), list(m), S)
    T.eq(P.solve("mud"), ref, "input form")


def defaults(T):
    """omitted arguments: zero offset, zero data, zero mean, identity covariance"""
    A = T.arr("A", (1, 2))
    T.assume(T.dot(A[0], A[0]) != 0)
    y = T.arr("y", 1)
    v = T.pick("which", 3)
    P = [lgp()(A=A, y=y), lgp()(A=A, y=y, b=T.A([0])),
         lgp()(A=A, b=-y)][v]
    x = P.solve("mud")
    q = T.dot(A[0], A[0])
    T.eq(x, T.A([[A[0, 0] * y[0] / q], [A[0, 1] * y[0] / q]]), "defaults")


def output_dim(T, d, p, k):
    """using the first k outputs is the problem made of those rows"""
    A, b, y, m, S = problem(T, d, p, "diag")
    T.assume(T.dot(A[0], A[0]) != 0)
    P = lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S, cov_o=T.spd("O", d, "diag"))
    meth = T.choice("meth", ["mud", "map", "ls", "mud_alt"])
    x = P.solve(meth, output_dim=k)
    O = T.spd("O", d, "diag")
    Q = lgp()(A=A[:k], b=b[:k], y=y[:k], mean_i=m, cov_i=S, cov_o=O[:k, :k])
    T.eq(x, Q.solve(meth), f"output_dim={k}: same as the sub-problem")


def repeat(T):
    """solving is repeatable and other solutions do not disturb it"""
    A, b, y, m, S = problem(T, 1, 2, "entries")
    T.assume(T.dot(A[0], A[0]) != 0)
    P = lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S, cov_o=T.spd("O", 1),
              alpha=T.real("alpha", pos=True))
    x = P.solve("mud")
    for s in (["map"], ["ls"], ["mud_alt"], ["all"], ["map", "all"])[T.pick("order", 5)]:
        P.solve(s)
    T.eq(P.solve("mud"), x, "repeated solve")
    T.eq(P.updated_cov(), lgp()(A=A, b=b, y=y, mean_i=m, cov_i=S,
                                cov_o=T.spd("O", 1)).updated_cov(),
         "solving leaves the problem data alone")


def wide(T, p):
    """many parameters, one datum: fixed operator, symbolic data and mean"""
    A = [[((7 * j) % 5) - 2 for j in range(p)]]
    d = [1 + (j % 3) for j in range(p)]
    y, b = T.real("y"), T.real("b")
    m = [T.real("m0") if j == 0 else T.real("m1") if j == p - 1 else T.const(j % 4)
         for j in range(p)]
    S = [[d[i] if i == j else 0 for j in range(p)] for i in range(p)]
    P = lgp()(A=T.A(A), b=T.A([b]), y=T.A([y]), mean_i=T.A(m), cov_i=T.A(S))
    x = P.solve("mud")
    if not T.shape(x, (p, 1), "shape"):
        return
    T.eq(T.dot(A[0], col(x, p)) + b, y, "predicted data equals observed")
    r = [(x[j, 0] - m[j]) for j in range(p)]
    for j in range(p - 1):
        T.eq(r[j] * (d[j + 1] * A[0][j + 1]), r[j + 1] * (d[j] * A[0][j]),
             "deviation along Sigma A^T")


def bad_size(T):
    """data that do not match the operator are refused"""
    A, y = T.arr("A", (1, 2)), T.arr("y", 2)
    T.raises(ValueError, lambda: lgp()(A=A, y=y), "size mismatch refused")


PROP.add(full, "d1p2", d=1, p=2)
PROP.add(full, "d1p2-all-cov", d=1, p=2, how="all")
PROP.add(full, "d2p2", d=2, p=2)
PROP.add(full, "d1p3", d=1, p=3)
PROP.add(full, "d2p3-diag", d=2, p=3, form="diag", alpha=False)
PROP.add(full, "d2p3-entries", tier="thorough", d=2, p=3, alpha=False)
PROP.add(full, "d1p1", d=1, p=1, how="cov_o")
PROP.add(deficient, "deficient-d2p2", d=2, p=2)
PROP.add(deficient, "tall-d2p1", d=2, p=1)
PROP.add(deficient, "deficient-d2p2-entries", d=2, p=2, form="entries")
PROP.add(deficient, "tall-d3p1", tier="thorough", d=3, p=1)
PROP.add(zero_map, "zero")
PROP.add(invariance, "invariance-d1p2", d=1, p=2)
PROP.add(forms, "forms")
PROP.add(defaults, "defaults")
PROP.add(output_dim, "output-dim", d=2, p=2, k=1)
PROP.add(repeat, "repeat")
PROP.add(wide, "wide-p24", p=24)
PROP.add(wide, "wide-p80", tier="thorough", p=80)
PROP.add(bad_size, "bad-size")


def fixed(T, d, p, rank=None, seed=1):
    """larger fixed operators and covariances; every data, offset and mean (attainable
    data where rows depend on each other)"""
    A, S = const_mat(d, p, rank, seed), const_spd(p, seed)
    b, m = T.arr("b", d), T.arr("m", p)
    y = T.arr("y", d) if rank is None and d <= p else T.A(
        [u + v for u, v in zip(mv(A, T.arr("t", p)), b)])
    P = lgp()(A=T.A(A), b=b, y=y, mean_i=m, cov_i=T.A(S), alpha=T.real("al", pos=True),
              cov_o=T.A(const_spd(d, "o")))
    x = P.solve("mud")
    if not T.shape(x, (p, 1), "fixed: a column of parameters"):
        return
    x = col(x, p)
    for i in range(d):
        T.eq(T.dot(A[i], x) + b[i], y[i], "fixed: predicted data equals observed")
    w = mv(const_inv(T, S), [x[j] - m[j] for j in range(p)])
    for n in const_kernel(A):
        T.zero([T.const(c) * v for c, v in zip(n, w)],
               "fixed: deviation Sigma-orthogonal to kernel")


PROP.add(fixed, "fixed-3x5", d=3, p=5)
PROP.add(fixed, "fixed-4x4", d=4, p=4)
PROP.add(fixed, "fixed-4x4-rank2", d=4, p=4, rank=2)
PROP.add(fixed, "fixed-5x3", d=5, p=3)
PROP.add(fixed, "fixed-6x9", tier="thorough", d=6, p=9)
PROP.add(fixed, "fixed-7x6-rank4", tier="thorough", d=7, p=6, rank=4)


def wme(T):
    """the weighted-mean-error problem takes the same settings"""
    from mud.base import LinearWMEProblem
    M, d0, y, m = T.arr("M", (2, 2)), T.arr("d", 2), T.arr("y", 1), T.arr("m", 2)
    S = T.spd("S", 2, "diag")
    a = [M[0, j] + M[1, j] for j in range(2)]
    nonzero(T, a)
    P = LinearWMEProblem([M], [d0], 0.5, y=y, mean_i=m, cov_i=S)
    x = P.solve("mud")
    if not T.shape(x, (2, 1), "wme: column"):
        return
    x = col(x, 2)
    r = [dot(M[i], x) - d0[i] for i in range(2)]
    T.eq((r[0] + r[1]) * 2, y[0] * T.sqrt(T.const(2)), "wme: predicted equals observed")
    n = [-a[1], a[0]]
    T.eq(dot(n, [S[1, 1] * (x[0] - m[0]), S[0, 0] * (x[1] - m[1])]), 0,
         "wme: deviation Sigma-orthogonal to kernel")


PROP.add(wme, "wme")
PROP.add(changed, "changed-d1p2", d=1, p=2, meths=["mud"])
PROP.add(first_rows, "first-rows", d=3, p=2, k=1, meths=["mud", "all"])

# samples, data, operators of integer type
PROP.add(full, "whole-operator", d=1, p=2, ints=("A", "b"))
PROP.add(full, "whole-mean", d=1, p=2, ints=("m", "y"))
PROP.add(full, "whole-all-but-data", d=2, p=3, alpha=False, ints=("A", "b", "m", "S"))
PROP.add(full, "whole-all", d=1, p=3, ints=("A", "b", "m", "S", "y"))
PROP.add(fixed, "whole-3x5", d=3, p=5, ints=("constants", "m", "b"))

# the same with arrays stored in column order, or backwards
PROP.turned("d2p2", "d1p2-all-cov", "fixed-3x5")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("same-d1p2-then-d1p2-all-cov", "d1p2", "d1p2-all-cov", how="same")
PROP.sequence("again-d1p2", "d1p2", "d1p2")
PROP.sequence("same-output-dim-then-d2p2", "output-dim", "d2p2", how="same")
