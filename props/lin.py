"""shared helpers for the linear-algebra harnesses"""


def nullvecs(T, A, d, p):
    """vectors spanning the kernel of a d x p map of full row rank (by cofactors)"""
    if d >= p:
        return []
    if p == 2:
        return [[-A[0][1], A[0][0]]]
    if p == 3 and d == 2:
        a, b = A[0], A[1]
        return [[a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                 a[0] * b[1] - a[1] * b[0]]]
    if p == 3 and d == 1:
        a = A[0]
        return [[0, a[2], -a[1]], [-a[2], 0, a[0]], [a[1], -a[0], 0]]
    raise ValueError


def adj(S, p):
    if p == 1:
        return [[1]]
    if p == 2:
        return [[S[1][1], -S[0][1]], [-S[1][0], S[0][0]]]

    def c(i, j):
        return (S[(i + 1) % 3][(j + 1) % 3] * S[(i + 2) % 3][(j + 2) % 3]
                - S[(i + 1) % 3][(j + 2) % 3] * S[(i + 2) % 3][(j + 1) % 3])
    return [[c(j, i) for j in range(3)] for i in range(3)]


def det(S, p):
    if p == 1:
        return S[0][0]
    a = adj(S, p)
    return sum(S[0][j] * a[j][0] for j in range(p))


def rows(M, m, n):
    return [[M[i, j] for j in range(n)] for i in range(m)]


def col(x, n):
    """entries of a solution, which must be a column vector"""
    return [x[i, 0] for i in range(n)]


def dot(a, b):
    t = 0
    for x, y in zip(a, b):
        t = t + x * y
    return t


def mv(M, v):
    return [dot(r, v) for r in M]


def tr(M):
    return [list(r) for r in zip(*M)]


def mm(A, B):
    Bt = tr(B)
    return [[dot(r, c) for c in Bt] for r in A]


def quad(Q, v):
    return dot(v, mv(Q, v))


def full_rank(T, Al, d, p, S=None):
    """assume full row rank (and tell the solver what follows from it)"""
    if d == 1:
        T.assume(dot(Al[0], Al[0]) != 0)
        if p == 3 and S is not None:
            T.lemma_pos(dot(Al[0], mv(S, Al[0])))
    elif d == 2 and p >= 2:
        n = nullvecs(T, Al, d, p)
        if n:
            T.assume(dot(n[0], n[0]) != 0)
        else:
            T.assume(Al[0][0] * Al[1][1] - Al[0][1] * Al[1][0] != 0)
    else:
        raise ValueError


def nonzero(T, v):
    T.assume(dot(v, v) != 0)


# ------------------------------------------------ fixed operators of larger size
# (the vectors stay symbolic: for each operator the statement holds for every vector)
def const_mat(d, p, rank=None, seed=1):
    """small integers, of the given rank, well conditioned"""
    import random
    import numpy as np
    rank = min(d, p) if rank is None else rank
    g = random.Random(f"{d}-{p}-{rank}-{seed}")
    while True:
        if rank == min(d, p):
            A = [[g.randrange(-2, 3) for _ in range(p)] for _ in range(d)]
        else:
            A = mm([[g.randrange(-1, 2) for _ in range(rank)] for _ in range(d)],
                   [[g.randrange(-1, 2) for _ in range(p)] for _ in range(rank)])
        if len(pivots(A)[1]) == rank:
            s = np.linalg.svd(np.array(A, dtype=float), compute_uv=False)
            if s[0] / s[rank - 1] < 12:
                return A


def const_spd(p, seed=1):
    """tridiagonal, diagonally dominant, not the identity"""
    k = sum(map(ord, str(seed)))
    return [[2 + (i + k) % 3 if i == j else (1 if (i + j + k) % 4 else -1)
             if abs(i - j) == 1 else 0 for j in range(p)] for i in range(p)]


def pivots(A):
    """reduced row echelon form in fractions, with its pivot columns"""
    from fractions import Fraction
    R = [[Fraction(v) for v in r] for r in A]
    piv, k = [], 0
    for j in range(len(R[0])):
        r = next((i for i in range(k, len(R)) if R[i][j]), None)
        if r is None:
            continue
        R[k], R[r] = R[r], R[k]
        R[k] = [v / R[k][j] for v in R[k]]
        for i in range(len(R)):
            if i != k and R[i][j]:
                R[i] = [a - R[i][j] * b for a, b in zip(R[i], R[k])]
        piv.append(j)
        k += 1
        if k == len(R):
            break
    return R, piv


def const_kernel(A):
    """vectors spanning the kernel"""
    R, piv = pivots(A)
    n, out = len(A[0]), []
    for f in range(n):
        if f not in piv:
            v = [0] * n
            v[f] = 1
            for i, j in enumerate(piv):
                v[j] = -R[i][f]
            out.append(v)
    return out


def const_inv(T, S):
    n = len(S)
    R, _ = pivots([list(S[i]) + [1 if i == j else 0 for j in range(n)] for i in range(n)])
    return [[T.const(v) for v in r[n:]] for r in R]


def changed(T, d, p, meths):
    """after solving, one setting replaced or overwritten: as a fresh problem with it"""
    from mud.base import LinearGaussianProblem as L
    v = {"A": T.arr("A", (d, p)), "b": T.arr("b", (d, 1)), "y": T.arr("y", (d, 1)),
         "mean_i": T.arr("m", (p, 1)), "cov_i": T.spd("S", p, "diag"),
         "cov_o": T.spd("O", d, "diag"), "alpha": T.real("alpha", pos=True)}
    k = T.choice("setting", sorted(v))
    n = T.real("alpha2", pos=True) if k == "alpha" else \
        T.spd("N", len(v[k]), "diag") if k in ("cov_i", "cov_o") else \
        T.arr("n", v[k].shape)
    w = {**v, k: n}
    for A in {id(a): a for a in (v["A"], w["A"])}.values():
        full_rank(T, rows(A, d, p), d, p)
    P = L(**v)
    P.solve(T.choice("before", sorted({"all", *meths})))
    P.updated_cov()
    if k != "alpha" and T.pick("in place", 2):
        getattr(P, k)[:] = n
    else:
        setattr(P, k, n)
    Q = L(**w)
    for m in meths:
        T.eq(P.solve(m), Q.solve(m), f"{k} changed: {m}")
    if "map" in meths:
        T.eq(P.cov_p, Q.cov_p, f"{k} changed: posterior covariance")
    T.eq(P.updated_cov(), Q.updated_cov(), f"{k} changed: updated covariance")


def first_rows(T, d, p, k, meths, oform="diag"):
    """using the first k outputs is the problem made of those rows"""
    from mud.base import LinearGaussianProblem as L
    A, b, y, m = T.arr("A", (d, p)), T.arr("b", d), T.arr("y", d), T.arr("m", p)
    S, O, a = T.spd("S", p, "diag"), T.spd("O", d, oform), T.real("alpha", pos=True)
    full_rank(T, rows(A, k, p), k, p)
    P = L(A=A, b=b, y=y, mean_i=m, cov_i=S, cov_o=O, alpha=a)
    Q = L(A=A[:k], b=b[:k], y=y[:k], mean_i=m, cov_i=S, cov_o=O[:k, :k], alpha=a)
    for h in meths:
        x, z = P.solve(h, output_dim=k), Q.solve(h)
        for u, v in zip(x, z) if h == "all" else [(x, z)]:
            T.eq(u, v, f"{h}, output_dim={k}: as the problem of the first rows")
        if h in ("map", "all"):
            T.eq(P.cov_p, Q.cov_p, f"{h}, output_dim={k}: posterior covariance")
        if h == "mud_alt":
            T.eq(P.up_cov, Q.up_cov, f"{h}, output_dim={k}: updated covariance")
