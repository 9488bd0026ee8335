import numpy as np

from engine.harness import Prop
from props.st import mask, new

PROP = Prop(
    "C17", "Aggregated QoI: weighted mean error or projections of the residuals",
    assumptions=["StandardScaler, PCA and SVD are opaque functions of their data"],
    outside="more than 3 samples or 4 data; the numerics of PCA and SVD themselves")


def resid(T, D, m, s):
    n, N = np.shape(D)
    return T.A([[(m[j] - D[i, j]) / s for j in range(N)] for i in range(n)])


def wme(T, n, S, t, dform=2, default=False):
    P, lam, D, m, s = new(T, n, S, t, 1, dform)
    d = P.mud_problem(method="wme")
    if not T.shape(d.y, (n, 1), "one prediction per sample"):
        return
    r = T.sqrt(T.const(S * t))
    for i in range(n):
        T.eq(d.y[i, 0] * r * s, sum(m[j] - D[i, j] for j in range(S * t)),
             "normalised by the number of data")
    T.eq(d.X, lam, "parameters kept")
    T.eq(d.domain, P.domain, "domain kept")


def wme_masked(T, n, S, t, which):
    """the selection alone counts, in the sums and in their normalisation"""
    P, lam, D, m, s = new(T, n, S, t, 1)
    keep = {"samples": range(n), "sensors": range(S), "times": range(t)}
    kw = {}
    for w in which:
        kw[w + "_mask"], keep[w] = mask(T, w, len(keep[w]), ("bool", "list"))
    c = [e * t + k for e in keep["sensors"] for k in keep["times"]]
    d = P.mud_problem(method="wme", **kw)
    if not T.shape(d.y, (len(keep["samples"]), 1), "one prediction per kept sample"):
        return
    r = T.sqrt(T.const(len(c)))
    for a, i in enumerate(keep["samples"]):
        T.eq(d.y[a, 0] * r * s, sum(m[j] - D[i, j] for j in c),
             "normalised by the number of kept data")
    T.eq(d.X, T.A([[lam[i, 0]] for i in keep["samples"]]), "parameters of kept samples")
    T.eq(d.domain, P.domain, "domain kept")


def learned_masked(T, method):
    """directions are learned from the selection"""
    P, lam, D, m, s = new(T, 4, 1, 3, 1)
    R = resid(T, D, m, s)
    v = T.pick("mask", 3)
    if v == 0:
        kw, ks, kt = {"times_mask": [0, 2]}, range(4), [0, 2]
    elif v == 1:
        kw, ks, kt = {"samples_mask": [0, 1, 3]}, [0, 1, 3], range(3)
    else:
        kw, ks, kt = {"samples_mask": [3, 0, 1], "times_mask": [1, 0]}, [3, 0, 1], [1, 0]
    R = T.A([[R[i, j] for j in kt] for i in ks])
    for j in range(3):
        for a in range(4):
            T.assume(D[a, j] != D[(a + 1) % 4, j])
    if T.pick("used before", 2):
        P.mud_problem(method="wme")
    d = P.mud_problem(method=method, num_components=1, **kw)
    C = oracle(method, R, 1)
    T.eq(d.y, R @ C.T, f"{method}: residuals of the selection on their own direction")
    T.eq(d.X, T.A([[lam[i, 0]] for i in ks]), "parameters of kept samples")
    if method == "pca":
        T.eq(P.pca["vecs"], C, "directions stored")
    else:
        T.eq(P.svd["singular_vectors"][:len(C)], C, "directions stored")


def signed(T, n, N):
    """weights may be negative or zero"""
    P, lam, D, m, s = new(T, n, 1, N, 1)
    v = T.pick("weights", 4)
    w = [[1, -1, 2], [-3, 0, 1], [0, 0, -2], [1, 2, -2]][v][:N]
    k = [6, 10, 4, 9][v] if N == 3 else None
    y = P.mud_problem(method="wme", data_weights=w if T.pick("form", 2) else T.A(w)).y
    for i in range(n):
        T.eq(y[i, 0] * T.sqrt(T.const(N)) * T.sqrt(T.const(k)) * s,
             sum(w[j] * (m[j] - D[i, j]) for j in range(N)), "weights keep their signs")


def same_as_function(T, n, N):
    """the problem's weighted mean error is the function's, up to its sign"""
    from mud.funs import wme as f
    P, lam, D, m, s = new(T, n, 1, N, 1)
    d = P.mud_problem(method="wme")
    T.eq(d.y, -f(D, m, s).reshape(-1, 1), "agrees with wme")


def oracle(method, R, k):
    from sklearn.decomposition import PCA
    from sklearn.preprocessing import StandardScaler
    Z = StandardScaler().fit_transform(R)
    if method == "pca":
        c = PCA(n_components=k)
        c.fit_transform(Z)
        return c.components_
    return np.linalg.svd(Z)[2][:k, :]


def learned(T, method, n, S, t, k, weights=False, default=False):
    P, lam, D, m, s = new(T, n, S, t, 1)
    R = resid(T, D, m, s)
    N = S * t
    kw = {} if default else {"num_components": k}
    if weights:
        w = T.arr("w", N, pos=True)
        kw["data_weights"] = w
        q = T.sqrt(sum(x * x for x in w))
        R = T.A([[R[i, j] * (w[j] / q) for j in range(N)] for i in range(n)])
    for j in range(N):
        T.assume(D[0, j] != D[1, j])
    d = P.mud_problem(method=method, **kw) if not (default and method == "pca") \
        else P.mud_problem(**kw)
    C = oracle(method, R, k)
    T.eq(d.y, R @ C.T, f"{method}: residuals on the leading {k} directions")
    T.eq(d.X, lam, "parameters kept")
    if method == "pca":
        T.eq(P.pca["vecs"], C, "directions stored")
    else:
        T.eq(P.svd["singular_vectors"][:len(C)], C, "directions stored")


def weighted(T, n, N):
    """data weights multiply data, not samples; only their ratios matter"""
    P, lam, D, m, s = new(T, n, 1, N, 1)
    w = T.arr("w", N, pos=True)
    c = T.real("c", pos=True)
    v = T.pick("form", 3)
    ww = [w, list(w), w.reshape(-1, 1)][v]
    a = P.mud_problem(method="wme", data_weights=ww).y
    b = P.mud_problem(method="wme", data_weights=c * w).y
    if not T.shape(a, (n, 1), "one prediction per sample"):
        return
    T.eq(b, a, "only ratios of data weights matter")
    q = [sum(w[j] * (m[j] - D[i, j]) for j in range(N)) for i in range(n)]
    for i in range(1, n):
        T.eq(a[i, 0] * q[0], a[0, 0] * q[i], "proportional to the weighted residual sum")
    T.le(0, a[0, 0] * q[0], "with a positive factor")


def weighted_masked(T):
    """weights of the sub-sampled data go with those data"""
    P, lam, D, m, s = new(T, 2, 1, 3, 1)
    w = T.arr("w", 2, pos=True)
    a = P.mud_problem(method="wme", data_weights=w, times_mask=[0, 2]).y
    q = [w[0] * (m[0] - D[i, 0]) + w[1] * (m[2] - D[i, 2]) for i in range(2)]
    T.eq(a[1, 0] * q[0], a[0, 0] * q[1], "weighted sub-sampled data")


def sample_weights(T, n):
    P, lam, D, m, s = new(T, n, 1, 2, 1)
    w = T.arr("sw", n, pos=True)
    d = P.mud_problem(method="wme", sample_weights=w)
    e = P.mud_problem(method="wme")
    for i in range(n):
        for j in range(i):
            T.eq(d._weights[i] * w[j], d._weights[j] * w[i], "sample weights passed on")
    T.eq(e.y, d.y, "sample weights leave the predictions alone")


def refused(T):
    P, lam, D, m, s = new(T, 2, 1, 3, 1)
    v = T.pick("case", 3)
    f = [lambda: P.mud_problem(method="unknown"),
         lambda: P.mud_problem(method="wme", data_weights=T.arr("w", 2, pos=True)),
         lambda: P.mud_problem(method="wme", data_weights=T.arr("w", 4, pos=True))][v]
    T.raises(ValueError, f, "refused")


def helper(T, func):
    """pca and svd standardise the columns first and refuse other than 2-D data"""
    from mud import preprocessing as pre
    v = T.pick("dim", 3)
    if v:
        T.raises(ValueError, lambda: getattr(pre, func)(
            T.arr("X", [(4,), (2, 2, 2)][v - 1])), "only two-dimensional data")
        return
    k = T.pick("given", 3) if func == "pca" else 0
    d = 2 + (k == 2)
    R = T.arr("X", (3, d))
    for j in range(d):
        T.assume(R[0, j] != R[1, j])
    if func == "svd":
        U, s, V = pre.svd(R)
        T.eq(V, oracle("svd", R, 2), "singular vectors of the standardised data")
        from sklearn.preprocessing import StandardScaler
        u, t, _ = np.linalg.svd(StandardScaler().fit_transform(R))
        T.eq(s, t, "singular values of the standardised data")
        T.eq(U[:, :2], u[:, :2], "left singular vectors of the standardised data")
    else:
        # two components by default
        c, X = (pre.pca(R, n_components=1) if k == 0 else pre.pca(R, 1) if k == 1
                else pre.pca(R))
        m = 1 + (k == 2)
        T.eq(c.components_, oracle("pca", R, m), "directions of the standardised data")
        T.shape(X, (3, m), "one coordinate per component")


PROP.add(wme, "wme-n2-d4", n=2, S=2, t=2)
PROP.add(wme, "wme-n3-d1", n=3, S=1, t=1)
PROP.add(wme, "wme-n3-d2-cube", n=3, S=2, t=1, dform=3)
PROP.add(same_as_function, "wme-function", n=3, N=2)
PROP.add(learned, "pca-k1", method="pca", n=3, S=1, t=2, k=1)
PROP.add(learned, "pca-default", method="pca", n=3, S=1, t=3, k=2, default=True)
PROP.add(learned, "svd-k1", method="svd", n=3, S=1, t=2, k=1)
PROP.add(learned, "svd-default", method="svd", n=2, S=1, t=3, k=2, default=True)
PROP.add(learned, "svd-k2-d4", method="svd", n=2, S=2, t=2, k=2)
PROP.add(learned, "pca-weighted", method="pca", n=3, S=1, t=2, k=2, weights=True)
PROP.add(weighted, "data-weights", n=2, N=3)
PROP.add(weighted, "data-weights-square", n=2, N=2)
PROP.add(weighted_masked, "data-weights-masked")
PROP.add(wme_masked, "wme-masked-times", n=2, S=1, t=3, which=("times",))
PROP.add(wme_masked, "wme-masked-sensors", n=2, S=3, t=1, which=("sensors", "samples"))
PROP.add(learned_masked, "pca-masked", method="pca")
PROP.add(learned_masked, "svd-masked", method="svd")
PROP.add(signed, "data-weights-signed", n=2, N=3)
PROP.add(sample_weights, "sample-weights", n=2)
PROP.add(refused, "refused")
PROP.add(helper, "helper-pca", func="pca")
PROP.add(helper, "helper-svd", func="svd")
PROP.add(wme, "wme-n4-d9", tier="thorough", n=4, S=3, t=3)
PROP.add(learned, "pca-k3-d6", tier="thorough", method="pca", n=4, S=2, t=3, k=3)


def large(T, n, S, t):
    """many samples, sensors and times; nearly all entries constants"""
    P, lam, D, m, s = new(T, n, S, t, 2, big=3)
    d = P.mud_problem(method="wme")
    if not T.shape(d.y, (n, 1), "one prediction per sample"):
        return
    r = T.sqrt(T.const(S * t))
    T.eq(d.y[:, 0] * (r * s), T.A([sum(m[j] - D[i, j] for j in range(S * t))
                                   for i in range(n)]), "large: weighted mean error")
    T.eq(d.X, lam, "parameters kept")


PROP.add(large, "large-S12t11", n=5, S=12, t=11)
PROP.add(large, "large-n150", n=150, S=1, t=3)

# samples, data, operators of integer type
PROP.add(wme, "whole-data", n=2, S=2, t=2, ints=("D",))
PROP.add(wme, "whole-all", n=3, S=1, t=2, ints=("D", "M", "lam"))
PROP.add(learned, "whole-pca", method="pca", n=3, S=1, t=2, k=1, ints=("M",))

def changed(T, method):
    """problems posed again after any one of the settings is replaced"""
    n, N = 2, 2
    P, lam, D, m, s = new(T, n, 1, N, 1)
    if T.pick("posed before", 2):
        P.mud_problem(method=method, num_components=1)
    what = T.choice("changed", ["measurements", "deviation", "data", "parameters"])
    if what == "measurements":
        m = P.measurements = T.arr("M2", N)
    elif what == "deviation":
        s = P.std_dev = T.real("sigma2", pos=True)
    elif what == "data":
        D = T.arr("D2", (n, N))
        P.data = D
    else:
        lam = T.arr("lam2", (n, 1), lo=0, hi=1)
        P.lam = lam
    d = P.mud_problem(method=method, num_components=1)
    T.eq(d.X, lam, "changed: parameters kept")
    if not T.shape(d.y, (n, 1), "changed: one prediction per sample"):
        return
    if method == "wme":
        r = T.sqrt(T.const(N))
        for i in range(n):
            T.eq(d.y[i, 0] * r * s, sum(m[j] - D[i, j] for j in range(N)),
                 "changed: normalised by the number of data")
    else:
        # one direction: lengths of the projections are those of the residuals on it
        R = resid(T, D, m, s)
        v = P.svd["singular_vectors"][0]
        for i in range(n):
            T.eq(d.y[i, 0], sum(R[i, j] * v[j] for j in range(N)),
                 "changed: projection of the residual")


PROP.add(changed, "changed-wme", method="wme")
PROP.add(changed, "changed-svd", method="svd")

# the same with arrays stored in column order, or backwards
PROP.turned("wme-n2-d4", "wme-n3-d2-cube", "svd-k2-d4", "data-weights-masked")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-helper-pca", "helper-pca", "helper-pca")
PROP.sequence("again-helper-svd", "helper-svd", "helper-svd")
PROP.sequence("same-wme-n2-d4-then-svd-k2-d4", "wme-n2-d4", "svd-k2-d4", how="same")
