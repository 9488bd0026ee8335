"""shared helpers for the spatio-temporal harnesses"""
import numpy as np


def new(T, n, S, t, p=1, dform=2, meas=True, std=True, coords=False, default_axes=False,
        big=False):
    """a problem with n samples, S sensors and t times"""
    from mud.base import SpatioTemporalProblem
    P = SpatioTemporalProblem()
    arr = T.big if big else T.arr
    lam, data = arr("lam", (n, p)), arr("D", (n, S * t))
    if not default_axes:
        P.sensors = (np.arange(2 * S).reshape(S, 2) / 4 if coords else np.arange(S) * 10)
        P.times = np.arange(t) * 0.5
    P.domain = [[0, 1]] * p
    P.lam = lam
    P.data = T.laid(data.reshape(n, S, t)) if dform == 3 else data
    m = None
    if meas:
        m = T.big("M", S * t, free=big - 1) if big else T.arr("M", S * t)
        P.measurements = m
    s = None
    if std:
        s = T.real("sigma", pos=True)
        P.std_dev = s
    return P, lam, data, m, s


def mask(T, name, n, kinds=("none", "bool", "index", "list")):
    """(mask as passed, kept indices in order)"""
    k = T.choice(name + " kind", list(kinds))
    if k == "none":
        return None, list(range(n))
    if k == "slice":
        return slice(1, None), list(range(1, n))
    bits = 1 + T.pick(name + " subset", 2 ** n - 1)
    keep = [i for i in range(n) if bits >> i & 1]
    if k == "bool":
        return np.array([i in keep for i in range(n)]), keep
    if k == "index":
        keep = keep[::-1]
        return np.array(keep), keep
    return list(keep), keep
