import numpy as np

from engine.harness import Prop
from props.lin import dot, mm, mv, rows, tr

PROP = Prop(
    "C22", "Null space and rank-k approximations of an operator",
    assumptions=["numpy's SVD meets its contract (orthogonal factors, ordered values)"],
    outside="more than 3 rows or columns; relative singular values between 0 and 1e-12")


def rot3(T, name):
    """a family of rotations of space: a plane rotation between two fixed ones"""
    R = T.orth2(name)
    c, s = T.const(0.6), T.const(0.8)
    P = [[R[0, 0], R[0, 1], 0], [R[1, 0], R[1, 1], 0], [0, 0, 1]]
    Q = [[c, 0, -s], [0, 1, 0], [s, 0, c]]
    return T.A(mm(Q, P))


def build(T, m, n, zero=None, ratio=1e-6):
    """A with known factors; singular values from `zero` on vanish"""
    U = T.orth2("tu") if m == 2 else rot3(T, "tu") if m == 3 else T.A([[1]])
    V = T.orth2("tv") if n == 2 else rot3(T, "tv") if n == 3 else T.A([[1]])
    k = min(m, n)
    s = []
    for i in range(k):
        if zero is not None and i >= zero:
            s.append(T.const(0))
            continue
        v = T.real(f"s{i}", pos=True)
        T.assume(v > ratio)
        T.assume(v < 10)
        if s:
            T.assume(v < s[-1] - ratio)
            T.assume(v > s[-1] / 100)
        s.append(v)
    Ul, Vl = rows(U, m, m), rows(V, n, n)
    parts = [[[s[q] * Ul[i][q] * Vl[q][j] for j in range(n)] for i in range(m)]
             for q in range(k)]
    A = T.A([[sum(parts[q][i][j] for q in range(k)) for j in range(n)]
             for i in range(m)])
    A = T.put("A", A)
    T.svd(A, U, s, V)
    return A, s, Ul, Vl, parts


def basis(T, A, Z, m, n, dim, label):
    if not T.shape(Z, (n, dim), label + ": dimension"):
        return
    Zl = rows(Z, n, dim) if dim else [[] for _ in range(n)]
    if not dim:
        return
    for r in mm(rows(A, m, n), Zl):
        for v in r:
            T.eq(v, 0, label + ": mapped to zero")
    G = mm(tr(Zl), Zl)
    for i in range(dim):
        for j in range(dim):
            T.eq(G[i][j], 1 if i == j else 0, label + ": orthonormal")


def row(T, n):
    from mud.util import null_space
    A = T.arr("A", (1, n))
    T.assume(dot(A[0], A[0]) > 1e-6)
    Z = null_space(A)
    basis(T, A, Z, 1, n, n - 1, "one row")


def known(T, m, n, rank, rcond=False):
    from mud.util import null_space
    A, s, U, V, _ = build(T, m, n, zero=rank if rank < min(m, n) else None)
    keep = A.copy()
    kw = {"rcond": 1e-9} if rcond else {}
    Z = null_space(A, **kw)
    basis(T, A, Z, m, n, n - rank, "rank %d" % rank)
    T.eq(A, keep, "operator unchanged")


def cutoff(T):
    """singular values up to rcond times the largest count as zero"""
    from mud.util import null_space
    A, s, U, V, _ = build(T, 2, 2)
    r = T.real("rcond", pos=True)
    T.assume((s[1] - r * s[0]) ** 2 > 1e-6)
    T.assume(r < 1 - 1e-6)
    Z = null_space(A, rcond=r)
    if T.holds(s[1] > r * s[0]):
        T.shape(Z, (2, 0), "above the cut-off")
        return
    if T.shape(Z, (2, 1), "below the cut-off"):
        T.eq(dot(V[0], [Z[0, 0], Z[1, 0]]), 0, "kept direction excluded")
        T.eq(Z[0, 0] ** 2 + Z[1, 0] ** 2, 1, "unit vector")


def zero(T, m, n):
    from mud.util import null_space
    Z = null_space(np.zeros((m, n)))
    basis(T, np.zeros((m, n)), Z, m, n, n, "zero operator")


def ranks(T, m, n, form=0, zero=None):
    from mud.util import rank_decomposition
    A, s, U, V, parts = build(T, m, n, zero=zero)
    L = rank_decomposition(A if form == 0 else [list(r) for r in A])
    if not T.true(len(L) == min(m, n), "one per rank") and len(L) != min(m, n):
        return
    for k in range(min(m, n)):
        T.eq(L[k], T.A([[sum(parts[q][i][j] for q in range(k + 1)) for j in range(n)]
                        for i in range(m)]), f"rank {k + 1} approximation")
    T.eq(L[-1], A, "the last one is the operator")


PROP.add(row, "row-n2", n=2)
PROP.add(row, "row-n3", n=3)
for m, n, r in ((2, 2, 2), (2, 2, 1), (2, 3, 2), (2, 3, 1), (3, 2, 1), (3, 2, 2),
                (3, 3, 2)):
    PROP.add(known, f"known-{m}x{n}-rank{r}", m=m, n=n, rank=r)
PROP.add(known, "known-rcond", m=2, n=2, rank=1, rcond=True)
PROP.add(cutoff, "cutoff")
PROP.add(zero, "zero", m=2, n=3)
for m, n in ((2, 2), (2, 3), (3, 2), (1, 2)):
    PROP.add(ranks, f"ranks-{m}x{n}", m=m, n=n)
PROP.add(ranks, "ranks-2x2-deficient", m=2, n=2, zero=1)
PROP.add(ranks, "ranks-2x3-deficient", m=2, n=3, zero=1)
PROP.add(ranks, "ranks-list", m=2, n=2, form=1)
PROP.add(ranks, "ranks-3x3", tier="thorough", m=3, n=3)
PROP.add(known, "known-3x3-rank1", tier="thorough", m=3, n=3, rank=1)


def ranks_wide(T, n, turned=False):
    """components far smaller than the first are components all the same"""
    from mud.util import null_space, rank_decomposition
    U = T.orth2("tu") if turned else T.A([[1 if i == j else 0 for j in range(n)]
                                          for i in range(n)])
    V = T.orth2("tv") if turned else U.copy()
    s = []
    for i in range(n):
        v = T.real(f"s{i}", pos=True)
        T.assume(v > (1e-7 if turned else 1e-12))
        T.assume(v < 1e3)
        if s:
            T.assume(v < s[-1] * 0.9)
            T.assume(v > s[-1] * (1e-7 if turned else 1e-12))
        s.append(v)
    Ul, Vl = rows(U, n, n), rows(V, n, n)
    A = T.A([[sum(s[q] * Ul[i][q] * Vl[q][j] for q in range(n)) for j in range(n)]
             for i in range(n)])
    T.svd(A, U, s, V)
    L = rank_decomposition(A)
    if len(L) == n:
        for q in range(n):
            # entries in units of this component
            d = mm(tr(Ul), mm(rows(L[q] if not q else L[q] - L[q - 1], n, n), tr(Vl)))
            T.eq(d[q][q] / s[q], T.const(1), f"component {q + 1}, however small")
    else:
        T.fail("one per rank")
    T.shape(null_space(A), (n, 0), "nothing is mapped to zero")


PROP.add(ranks_wide, "ranks-wide-2", n=2)
PROP.add(ranks_wide, "ranks-wide-2-turned", n=2, turned=True)
PROP.add(ranks_wide, "ranks-wide-3", tier="thorough", n=3)

# the same with arrays stored in column order, or backwards
PROP.turned("ranks-2x3")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-known-2x2-rank1", "known-2x2-rank1", "known-2x2-rank1")
PROP.sequence("same-known-rcond-then-known-2x2-rank1", "known-rcond", "known-2x2-rank1", how="same")
PROP.sequence("again-ranks-2x2", "ranks-2x2", "ranks-2x2")
PROP.sequence("again-row", "row-n2", "row-n2")
