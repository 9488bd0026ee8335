"""Exact linear algebra over Sym (contracts of numpy.linalg / scipy.linalg)."""
from fractions import Fraction

import numpy as np
from . import poly as P
from . import sym as S
from . import symnp as N
from .sym import E, Sym, Unsupported, lift
from .symnp import FUNCS, implements, obj, wrap

LinAlgError = np.linalg.LinAlgError


def mat(a):
    o = obj(a)
    if o.ndim != 2:
        if o.ndim < 2:
            raise LinAlgError(f"{o.ndim}-dimensional array given. Array must be at "
                              "least two-dimensional")
        raise Unsupported("stacked matrices")
    return [[lift(x) for x in row] for row in o]


def arr(rows, shape=None):
    m = len(rows)
    n = len(rows[0]) if m else 0
    a = np.empty(shape or (m, n), dtype=object)
    for i in range(m):
        for j in range(n):
            a[i, j] = rows[i][j]
    return wrap(a)


def finite(M):
    return all(x.k == S.FIN for r in M for x in r)


def T(M):
    return [list(c) for c in zip(*M)] if M else M


def mm(A, B):
    Bt = T(B)
    return [[_dot(r, c) for c in Bt] for r in A]


def _dot(r, c):
    t = S.ZERO()
    for x, y in zip(r, c):
        if x.n and y.n:
            t = t + x * y
    return t


def det_(M):
    n = len(M)
    if n == 0:
        return S.ONE()
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    # expand along the row or column with the most zeros
    zr = [sum(not x.n for x in r) for r in M]
    Mt = T(M)
    zc = [sum(not x.n for x in r) for r in Mt]
    if max(zc) > max(zr):
        M, zr = Mt, zc
    i = max(range(n), key=lambda k: zr[k])
    if zr[i] == n:
        return S.ZERO()
    if n > 6 and zr[i] < n - 2:
        return gauss_det(M)
    t = S.ZERO()
    for j in range(n):
        if M[i][j].n:
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(M) if k != i]
            d = det_(minor)
            t = t + M[i][j] * d if (i + j) % 2 == 0 else t - M[i][j] * d
    return t


def gauss_det(M):
    M = [list(r) for r in M]
    n = len(M)
    d = S.ONE()
    for c in range(n):
        piv = next((r for r in range(c, n) if M[r][c].isconst() and M[r][c].n), None)
        if piv is None:
            piv = next((r for r in range(c, n) if M[r][c].n), None)
            if piv is None:
                return S.ZERO()
            if not S.factors_nonzero(M[piv][c].n):
                raise Unsupported("pivot may vanish")
        if piv != c:
            M[c], M[piv] = M[piv], M[c]
            d = -d
        d = d * M[c][c]
        iv = S.const(1) / M[c][c]
        for r in range(c + 1, n):
            if M[r][c].n:
                f = M[r][c] * iv
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return d


def inv_known(M, d=None):
    """inverse of a matrix whose determinant is nonzero on this path"""
    n = len(M)
    if all(x.isconst() for r in M for x in r) or n > 4:
        return gj(M)
    # block structure: scalar rows
    if d is None:
        d = det_(M)
    iv = S.inv(d)
    if n == 1:
        return [[iv]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(M) if k != i]
            c = det_(minor)
            if (i + j) % 2:
                c = -c
            out[j][i] = c * iv if c.n else c
    return out


def gj(M):
    n = len(M)
    A = [list(r) + [S.ONE() if i == j else S.ZERO() for j in range(n)]
         for i, r in enumerate(M)]
    for c in range(n):
        piv = next((r for r in range(c, n) if A[r][c].isconst() and A[r][c].n), None)
        if piv is None:
            piv = next((r for r in range(c, n)
                        if A[r][c].n and S.factors_nonzero(A[r][c].n)), None)
        if piv is None:
            raise LinAlgError("Singular matrix")
        A[c], A[piv] = A[piv], A[c]
        iv = S.const(1) / A[c][c]
        A[c] = [x * iv for x in A[c]]
        for r in range(n):
            if r != c and A[r][c].n:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def square(M):
    if any(len(r) != len(M) for r in M):
        raise LinAlgError("Last 2 dimensions of the array must be square")


def stacked(f, a, *rest):
    o = obj(a)
    return N.from_any([f(wrap(x), *rest) for x in o])


@implements("linalg.inv")
def inv(a, *args, **k):
    if obj(a).ndim > 2:
        return stacked(inv, a)
    M = mat(a)
    square(M)
    if not finite(M):
        return arr([[Sym(S.NAN)] * len(M) for _ in M])
    if len(M) > 4 or all(x.isconst() for r in M for x in r):
        return arr(gj(M))
    d = det_(M)
    if not d.n or not S.factors_nonzero(d.n):
        raise LinAlgError("Singular matrix")
    return arr(inv_known(M, d))


@implements("linalg.det")
def det(a, *args, **k):
    if obj(a).ndim > 2:
        return stacked(det, a)
    M = mat(a)
    square(M)
    return det_(M)


@implements("linalg.slogdet")
def slogdet(a):
    d = det(a)
    return N._sgn(d), S.log_(S.abs_(d))


@implements("linalg.solve")
def solve(a, b, *args, **k):
    A = mat(a)
    square(A)
    B = obj(b)
    X = inv(a)
    if B.ndim == 1:
        return N.matmul(X, B.reshape(-1, 1)).reshape(-1)
    return N.matmul(X, B)


def pinv_rows(M):
    """Moore-Penrose inverse; forks on the rank, largest first"""
    m, n = len(M), len(M[0])
    if not finite(M):
        raise LinAlgError("SVD did not converge")
    if m == 1 or n == 1:
        v = [x for r in M for x in r]
        if m == n == 1:
            if not v[0].n or not S.factors_nonzero(v[0].n):
                return [[S.ZERO()]]
            return [[S.inv(v[0])]]
        q = _dot(v, v)
        if not q.n or not S.factors_nonzero(q.n):
            return [[S.ZERO()] * m for _ in range(n)]
        return T([[x / q for x in v]]) if m == 1 else [[x / q for x in v]]
    # block-diagonal split (zero rows/columns)
    zr = [i for i in range(m) if not any(x.n for x in M[i])]
    zc = [j for j in range(n) if not any(M[i][j].n for i in range(m))]
    if zr or zc:
        ri = [i for i in range(m) if i not in zr]
        ci = [j for j in range(n) if j not in zc]
        out = [[S.ZERO()] * m for _ in range(n)]
        if ri and ci:
            sub = pinv_rows([[M[i][j] for j in ci] for i in ri])
            for a, j in enumerate(ci):
                for b, i in enumerate(ri):
                    out[j][i] = sub[a][b]
        return out
    if all(x.isconst() for r in M for x in r):
        return pinv_const(M)
    f = next(x for r in M for x in r if x.n)
    if f.k == S.FIN and f.e is None and not f.isconst():
        Q = [[x / f if x.n else x for x in r] for r in M]
        if all(x.isconst() for r in Q for x in r):     # scalar times a constant matrix
            if not S.factors_nonzero(f.n):
                return [[S.ZERO()] * m for _ in range(n)]
            iv = S.inv(f)
            return [[x * iv for x in r] for r in pinv_const(Q)]
    if min(m, n) > 5:
        raise Unsupported(f"pseudo-inverse of a symbolic {m}x{n} matrix")
    if m == n:
        d = det_(M)
        if d.n and S.factors_nonzero(d.n):
            return inv_known(M, d)
    elif m < n:
        G = mm(M, T(M))
        d = det_(G)
        if d.n and S.factors_nonzero(d.n):
            return mm(T(M), inv_known(G, d))
    else:
        G = mm(T(M), M)
        d = det_(G)
        if d.n and S.factors_nonzero(d.n):
            return mm(inv_known(G, d), T(M))
    return pinv_deficient(M)


def pinv_const(M):
    """full rank factorisation with exact arithmetic"""
    m, n = len(M), len(M[0])
    A = [list(r) for r in M]
    piv = []
    r = 0
    for c in range(n):
        k = next((i for i in range(r, m) if A[i][c].n), None)
        if k is None:
            continue
        A[r], A[k] = A[k], A[r]
        iv = S.const(1) / A[r][c]
        A[r] = [x * iv for x in A[r]]
        for i in range(m):
            if i != r and A[i][c].n:
                f = A[i][c]
                A[i] = [x - f * y for x, y in zip(A[i], A[r])]
        piv.append(c)
        r += 1
        if r == m:
            break
    if r == 0:
        return [[S.ZERO()] * m for _ in range(n)]
    F = A[:r]
    C = [[M[i][c] for c in piv] for i in range(m)]
    FFt, CtC = mm(F, T(F)), mm(T(C), C)
    return mm(mm(T(F), gj(FFt)), mm(gj(CtC), T(C)))


def pinv_deficient(M):
    """rank < min(m, n): find the rank by forking on a maximal nonzero minor"""
    import itertools
    m, n = len(M), len(M[0])
    for r in range(min(m, n) - 1, 0, -1):
        if all(same_const_zero(x) for row in M for x in row):
            break
        for I in itertools.combinations(range(m), r):
            for J in itertools.combinations(range(n), r):
                sub = [[M[i][j] for j in J] for i in I]
                d = det_(sub)
                if not d.n:
                    continue
                if S.factors_nonzero(d.n):
                    # rank r: M = C W R with W = inv(sub)
                    C = [[M[i][j] for j in J] for i in range(m)]
                    R = [M[i] for i in I]
                    Q = mm(mm(T(C), M), T(R))       # C' M R'
                    dq = det_(Q)
                    if not dq.n or not S.factors_nonzero(dq.n):
                        raise Unsupported("rank")
                    return mm(mm(T(R), inv_known(Q, dq)), T(C))
    return [[S.ZERO()] * m for _ in range(n)]


def same_const_zero(x):
    return not x.n


def pinv_cut(M, c):
    """pseudo-inverse that drops singular values of at most c times the largest"""
    try:
        c = float(c)
    except (TypeError, ValueError):
        raise Unsupported("cutoff of a pseudo-inverse")
    m, n = len(M), len(M[0])
    if c <= 1e-12 or min(m, n) == 1 or not finite(M):
        return pinv_rows(M)         # ordinary rounding: the rank decides
    if all(x.isconst() for r in M for x in r):
        F = np.array([[float(x) for x in r] for r in M])
        sv = N.orig["np.linalg.svd"](F, compute_uv=False)
        if all(s > c * sv[0] or s <= 1e-13 * sv[0] for s in sv):
            return pinv_const(M)
        return [[S.const(float(x)) for x in r]
                for r in N.orig["np.linalg.pinv"](F, rcond=c)]
    nz = [(i, j) for i in range(m) for j in range(n) if M[i][j].n]
    if len({i for i, _ in nz}) == len(nz) == len({j for _, j in nz}):
        size = [S.abs_(M[i][j]) for i, j in nz]
        out = [[S.ZERO()] * m for _ in range(n)]
        for (i, j), s in zip(nz, size):
            if all(s is t or bool(s > t * c) for t in size) and \
                    S.factors_nonzero(M[i][j].n):
                out[j][i] = S.inv(M[i][j])
        return out
    if min(m, n) == 2:
        tall = m >= n
        G = mm(T(M), M) if tall else mm(M, T(M))
        t, d = G[0][0] + G[1][1], det_(G)
        if bool(d * (1 + c * c) ** 2 > t * t * (c * c)) or bool(d == 0):
            return pinv_rows(M)
        w = S.sqrt_(t * t - d * 4)          # difference of the squared singular values
        big, small = (t + w) / 2, (t - w) / 2
        Q = [[(G[i][j] - (small if i == j else 0)) / (w * big) for j in range(2)]
             for i in range(2)]             # projector on the larger one, divided by it
        return mm(Q, T(M)) if tall else mm(T(M), Q)
    raise Unsupported(f"truncated pseudo-inverse of a symbolic {m}x{n} matrix")


@implements("linalg.pinv")
def pinv(a, rcond=None, hermitian=False, rtol=None, atol=None, **k):
    o = obj(a)
    if o.size == 0:
        return wrap(np.empty((o.shape[1], o.shape[0]), dtype=object))
    c = rcond if rcond is not None else rtol
    if atol is not None and bool(lift(atol) != 0):
        raise Unsupported("absolute cutoff of a pseudo-inverse")
    return arr(pinv_rows(mat(a)) if c is None else pinv_cut(mat(a), c))


@implements("linalg.lstsq")
def lstsq(a, b, rcond=None):
    M = mat(a)
    X = arr(pinv_rows(M) if rcond is None or rcond == -1 else pinv_cut(M, rcond))
    B = obj(b)
    sol = N.matmul(X, B.reshape(-1, 1)).reshape(-1) if B.ndim == 1 else N.matmul(X, B)
    return sol, wrap(np.empty(0, dtype=object)), min(len(M), len(M[0])), None


@implements("linalg.matrix_rank")
def matrix_rank(a, *k, **kw):
    import itertools
    M = mat(a)
    m, n = len(M), len(M[0])
    for r in range(min(m, n), 0, -1):
        for I in itertools.combinations(range(m), r):
            for J in itertools.combinations(range(n), r):
                d = det_([[M[i][j] for j in J] for i in I])
                if d.n and S.factors_nonzero(d.n):
                    return r
    return 0


def _norm1(v, ord_=None):
    v = [lift(x) for x in v]
    if ord_ in (None, 2, "fro"):
        q = N.total([x * x for x in v])
        return S.sqrt_(lift(q))
    if ord_ == 1:
        return N.total([S.abs_(x) for x in v])
    if ord_ in (np.inf, -np.inf):
        return N.extreme(N.from_list([S.abs_(x) for x in v]), None, ord_ > 0)
    if ord_ == 0:
        return S.const(sum(1 for x in v if bool(x != 0)))
    raise Unsupported(f"norm ord={ord_}")


def matnorm(o, ord):
    if ord in (1, -1, np.inf, -np.inf):
        c = [N.total([S.abs_(lift(x)) for x in v])
             for v in (o.T if ord in (1, -1) else o)]
        return N.extreme(N.from_list(c), None, ord > 0)
    sv = [lift(x) for x in obj(svd(o, compute_uv=False))]
    if ord in (2, -2):
        return sv[0] if ord > 0 else sv[-1]
    if ord == "nuc":
        return N.total(sv)
    raise Unsupported("matrix norm")


@implements("linalg.norm")
def norm(x, ord=None, axis=None, keepdims=False, **k):
    o = obj(x)
    if axis is None:
        if ord is not None and o.ndim == 2 and ord != "fro":
            r = matnorm(o, ord)
            return N.from_any([[r]]) if keepdims else r
        r = _norm1(o.ravel(), None if ord == "fro" else ord)
        if keepdims:
            z = np.empty((1,) * o.ndim, dtype=object)
            z.reshape(-1)[0] = r
            return wrap(z)
        return r
    if isinstance(axis, tuple) and len(axis) == 2 and ord not in (None, "fro"):
        raise Unsupported("matrix norm")
    return N._axis_iter(o, axis, lambda v: _norm1(v, ord), keepdims)


@implements("linalg.cholesky")
def cholesky(a):
    M = mat(a)
    n = len(M)
    L = [[S.ZERO()] * n for _ in range(n)]
    for j in range(n):
        d = M[j][j] - _dot(L[j][:j], L[j][:j])
        if not bool(d > 0):
            raise LinAlgError("Matrix is not positive definite")
        L[j][j] = S.sqrt_(d)
        for i in range(j + 1, n):
            L[i][j] = (M[i][j] - _dot(L[i][:j], L[j][:j])) / L[j][j]
    return arr(L)


def unit_sign(name):
    """+1 or -1, left open (the sign freedom of a factorisation)"""
    p = E.p
    nm = p.new_name(name)
    i = P.REG.algebraic(nm, P.const(1))
    z = p.zvar(i)
    p.pc.append(z * z == 1)
    return Sym(S.FIN, P.variable(i), ())


def matkey(M):
    return tuple(tuple(x.key() for x in r) for r in M)


def same_mat(A, B):
    return (len(A) == len(B) and len(A[0]) == len(B[0]) and
            all(S.same(x, y) for r, q in zip(A, B) for x, y in zip(r, q)))


@implements("linalg.svd")
def svd(a, full_matrices=True, compute_uv=True, hermitian=False, **k):
    M = mat(a)
    m, n = len(M), len(M[0])
    p = E.p
    U = s = Vt = None
    for (M0, U0, s0, V0) in getattr(p, "svds", []):
        if same_mat(M, M0):
            U, s, Vt = U0, s0, V0
            break
        if len(M0) == n and len(M0[0]) == m and same_mat(M, T(M0)):
            U, s, Vt = T(V0), s0, T(U0)
            break
    if U is None:
        if m == 1 and n <= 3 and not all(x.isconst() for x in M[0]):
            U, s, Vt = svd_row(M[0])
        elif all(x.isconst() for r in M for x in r):
            u, sv, vt = N.orig["np.linalg.svd"](
                np.array([[float(x) for x in r] for r in M]))
            U = [[S.const(float(x)) for x in r] for r in u]
            s = [S.const(float(x)) for x in sv]
            Vt = [[S.const(float(x)) for x in r] for r in vt]
        else:
            U, s, Vt = svd_fresh(M)
        if not hasattr(p, "svds"):
            p.svds = []
        p.svds.append((M, U, s, Vt))
    kk = min(m, n)
    if not compute_uv:
        return N.from_list(s)
    if not full_matrices:
        U = [r[:kk] for r in U]
        Vt = Vt[:kk]
    return arr(U), N.from_list(list(s)), arr(Vt)


def svd_row(v):
    n = len(v)
    q = _dot(v, v)
    if not q.n or not S.factors_nonzero(q.n):
        I = [[S.ONE() if i == j else S.ZERO() for j in range(n)] for i in range(n)]
        return [[S.ONE()]], [S.ZERO()], I
    nrm = S.sqrt_(q)
    g = unit_sign("svdsign")
    row = [g * x / nrm for x in v]
    if n == 1:
        return [[g]], [nrm], [row]
    if n == 2:
        h = unit_sign("svdsign")
        return [[g]], [nrm], [row, [-h * v[1] / nrm, h * v[0] / nrm]]
    ab = v[0] * v[0] + v[1] * v[1]
    if ab.n and S.factors_nonzero(ab.n):
        r = S.sqrt_(ab)
        q2 = [-v[1] / r, v[0] / r, S.ZERO()]
    else:
        q2 = [S.ONE(), S.ZERO(), S.ZERO()]
    q1 = [x / nrm for x in v]
    q3 = [q1[1] * q2[2] - q1[2] * q2[1], q1[2] * q2[0] - q1[0] * q2[2],
          q1[0] * q2[1] - q1[1] * q2[0]]
    return [[g]], [nrm], [row, q2, q3]


def svd_fresh(M):
    """arbitrary U, s, Vt meeting the contract of an SVD (facts are lazy)"""
    p = E.p
    m, n = len(M), len(M[0])
    k = min(m, n)
    b = p.new_name("svd")
    U = [[S.var(f"{b}.u{i}{j}") for j in range(m)] for i in range(m)]
    V = [[S.var(f"{b}.v{i}{j}") for j in range(n)] for i in range(n)]
    s = [S.var(f"{b}.s{i}", nonneg=True) for i in range(k)]
    for i in range(k - 1):
        p.add(S.zcmp(s[i + 1], s[i], "<="))
    for X in (T(U), V):
        for i in range(len(X)):
            for j in range(i, len(X)):
                p.lazy.append(S.zsym(_dot(X[i], X[j])) == (1 if i == j else 0))
    for i in range(m):
        for j in range(n):
            t = S.ZERO()
            for q in range(k):
                t = t + U[i][q] * s[q] * V[q][j]
            p.lazy.append(S.zcmp(t, M[i][j], "=="))
    return U, s, V


@implements("linalg.svdvals")
def svdvals(a, **k):
    return svd(a, compute_uv=False)


@implements("linalg.multi_dot")
def multi_dot(arrays, out=None):
    r = arrays[0]
    for x in arrays[1:]:
        r = N.dot(r, x)
    return N.into(out, r)


@implements("linalg.matrix_power")
def matrix_power(a, n):
    if n < 0:
        a, n = inv(a), -n
    r = wrap(obj(np.eye(len(obj(a)), dtype=int)))
    for _ in range(n):
        r = N.matmul(r, a)
    return r


@implements("linalg.cond")
def cond(a, p=None):
    if p not in (None, 2):
        return norm(a, p) * norm(inv(a), p)
    sv = [lift(x) for x in obj(svd(a, compute_uv=False))]
    return sv[0] / sv[-1]


@implements("linalg.eigh")
def eigh(a, UPLO="L", **k):
    """ascending eigenvalues and an orthogonal matrix (facts are lazy)"""
    M = mat(a)
    square(M)
    n = len(M)
    low = UPLO == "L" if isinstance(UPLO, str) else True
    M = [[M[max(i, j)][min(i, j)] if low else M[min(i, j)][max(i, j)]
          for j in range(n)] for i in range(n)]
    p = E.p
    if not hasattr(p, "eighs"):
        p.eighs = []
    for M0, w0, Q0 in p.eighs:
        if same_mat(M, M0):
            return N.from_list(list(w0)), arr(Q0)
    if all(not M[i][j].n for i in range(n) for j in range(n) if i != j):
        o = N.sort1([M[i][i] for i in range(n)])
        w = [M[i][i] for i in o]
        Q = [[S.ONE() if i == j else S.ZERO() for j in o] for i in range(n)]
    else:
        b = p.new_name("eig")
        w = [S.var(f"{b}.w{i}") for i in range(n)]
        Q = [[S.var(f"{b}.q{i}{j}") for j in range(n)] for i in range(n)]
        for i in range(n - 1):
            p.add(S.zcmp(w[i], w[i + 1], "<="))
        p.add(S.zcmp(N.total(w), N.total([M[i][i] for i in range(n)]), "=="))
        p.add(S.zcmp(N.product(w), det_(M), "=="))
        for i in range(n):
            for j in range(i, n):
                p.lazy.append(S.zsym(_dot(T(Q)[i], T(Q)[j])) == (1 if i == j else 0))
                t = S.ZERO()
                for q in range(n):
                    t = t + Q[i][q] * w[q] * Q[j][q]
                p.lazy.append(S.zcmp(t, M[i][j], "=="))
    p.eighs.append((M, w, Q))
    return N.from_list(list(w)), arr(Q)


@implements("linalg.eigvalsh")
def eigvalsh(a, UPLO="L", **k):
    return eigh(a, UPLO)[0]


@implements("linalg.qr")
def qr(a, mode="reduced", **k):
    """Gram-Schmidt with free signs"""
    if mode not in ("reduced", "economic", "r"):
        raise Unsupported("qr mode")
    A = T(mat(a))
    m = len(A[0])
    Q, R = [], [[S.ZERO()] * len(A) for _ in range(min(m, len(A)))]
    for j, c in enumerate(A):
        v = list(c)
        for i, q in enumerate(Q):
            R[i][j] = _dot(q, c)
            v = [x - R[i][j] * y for x, y in zip(v, q)]
        if j < m:
            d = _dot(v, v)
            if not d.n or not S.factors_nonzero(d.n):
                raise Unsupported("qr of a deficient matrix")
            g = unit_sign("qrsign")
            nrm = S.sqrt_(d)
            R[j][j] = g * nrm
            Q.append([g * x / nrm for x in v])
    return arr(R) if mode == "r" else (arr(T(Q)), arr(R))


@implements("linalg.sl.cholesky")
def sl_cholesky(a, lower=False, **k):
    r = cholesky(a)
    return r if lower else wrap(obj(r).T)


@implements("linalg.sl.cho_factor")
def cho_factor(a, lower=False, **k):
    return sl_cholesky(a, lower), lower


@implements("linalg.sl.cho_solve")
def cho_solve(c_low, b, **k):
    c, low = c_low
    c = wrap(obj(c))
    return solve(N.matmul(c, c.T) if low else N.matmul(c.T, c), b)


@implements("linalg.sl.solve_triangular")
def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    o = obj(a)
    n = len(o)
    M = [[S.ONE() if i == j and unit_diagonal else
          (lift(o[i, j]) if (i >= j if lower else i <= j) else S.ZERO())
          for j in range(n)] for i in range(n)]
    return solve(arr(M if trans in (0, "N") else T(M)), b)


@implements("linalg.block_diag")
def block_diag(*arrs):
    bs = [np.atleast_2d(obj(x)) for x in arrs]
    out = np.empty((sum(len(x) for x in bs), sum(x.shape[1] for x in bs)), dtype=object)
    out[...] = S.ZERO()
    r = c = 0
    for x in bs:
        out[r:r + x.shape[0], c:c + x.shape[1]] = x
        r, c = r + x.shape[0], c + x.shape[1]
    return wrap(out)


@implements("linalg.sl.cdist")
def cdist(a, b, metric="euclidean", **k):
    A, B = obj(a), obj(b)
    if metric not in ("euclidean", "sqeuclidean", "cityblock"):
        raise Unsupported("metric")

    def d(x, y):
        v = [lift(p) - q for p, q in zip(x, y)]
        if metric == "cityblock":
            return N.total([S.abs_(t) for t in v])
        q = lift(N.total([t * t for t in v]))
        return q if metric == "sqeuclidean" else S.sqrt_(q)
    return N.from_any([[d(x, y) for y in B] for x in A])


@implements("linalg.eig", "linalg.eigvals")
def _unsup(*a, **k):
    raise Unsupported("linear algebra routine without an encoding")


@implements("linalg.null_space")
def null_space(a, rcond=None):
    M = mat(a)
    U, s, V = svd(a)
    num = sum(1 for x in s if bool(lift(x) > 0))
    return wrap(obj(V)[num:, :].T)
