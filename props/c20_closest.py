import numpy as np

from engine.harness import Prop
from props.st import mask, new

PROP = Prop(
    "C20", "Closest simulation minimises the distance to measurements or true values",
    outside="more than 3 samples or 4 data; ties are answered by any closest sample")


def dist2(D, i, m, cols):
    return sum((D[i, j] - v) * (D[i, j] - v) for j, v in zip(cols, m))


def measurements(T, n, S, t, p=1, masks=()):
    P, lam, D, m, _ = new(T, n, S, t, p, std=False)
    ks, ke, kt = list(range(n)), list(range(S)), list(range(t))
    kw = {}
    if "samples" in masks:
        kw["samples_mask"], ks = mask(T, "samples", n, ("none", "bool"))
    if "times" in masks:
        kw["times_mask"], kt = mask(T, "times", t, ("none", "index"))
    if "sensors" in masks:
        kw["sensors_mask"], ke = mask(T, "sensors", S, ("none", "list"))
    cols = [e * t + k for e in ke for k in kt]
    r = P.get_closest_to_measurements(**kw)
    T.minimiser(r, T.A([[lam[i, j] for j in range(p)] for i in ks]),
                T.A([dist2(D, i, [m[c] for c in cols], cols) for i in ks]),
                "closest to the measurements")


def true_vals(T, n, S, t, p=1):
    P, lam, D, m, _ = new(T, n, S, t, p, std=False)
    tv = T.arr("tv", S * t)
    P.true_vals = tv
    r = P.get_closest_to_true_vals()
    T.minimiser(r, lam, T.A([dist2(D, i, tv, range(S * t)) for i in range(n)]),
                "closest to the true values")


def exact(T, n, S, t):
    """data equal to one sample's: that sample is at distance zero"""
    P, lam, D, m, _ = new(T, n, S, t, 1, meas=False, std=False)
    k = T.pick("which", n)
    P.measurements = D[k]
    r = P.get_closest_to_measurements()
    T.minimiser(r, lam, T.A([dist2(D, i, list(D[k]), range(S * t)) for i in range(n)]),
                "a sample that reproduces the data")


PROP.add(measurements, "measurements-n2d2", n=2, S=1, t=2)
PROP.add(measurements, "measurements-n3d2", n=3, S=2, t=1, p=2)
PROP.add(measurements, "samples-mask", n=3, S=1, t=1, masks=("samples",))
PROP.add(measurements, "times-mask", n=2, S=1, t=2, masks=("times",))
PROP.add(measurements, "sensors-mask", n=2, S=2, t=1, masks=("samples", "sensors"))
PROP.add(measurements, "all-masks", tier="thorough", n=2, S=2, t=2,
         masks=("samples", "times", "sensors"))
PROP.add(true_vals, "true-values-n2d2", n=2, S=2, t=1)
PROP.add(true_vals, "true-values-n3d1", n=3, S=1, t=1, p=2)
PROP.add(exact, "exact", n=3, S=1, t=2)
PROP.add(measurements, "measurements-n3d4", tier="thorough", n=3, S=2, t=2)


def large(T, n, S, t):
    """many samples, sensors and times; nearly all entries constants"""
    P, lam, D, m, _ = new(T, n, S, t, 2, std=False, big=1)
    kt = list(range(0, t, 2))
    for cols, kw in ((list(range(S * t)), {}),
                     ([e * t + k for e in range(S) for k in kt], {"times_mask": kt})):
        r = P.get_closest_to_measurements(**kw)
        T.minimiser(r, lam, T.A([dist2(D, i, [m[c] for c in cols], cols)
                                 for i in range(n)]), "large: closest to the measurements")




def together(T, n, S, t, big=2):
    """masks of every kind together; most entries constants"""
    P, lam, D, m, _ = new(T, n, S, t, 1, std=False, big=big)
    kt, ke = T.choice("masks", [([0], [S - 1]), ([t - 1], list(range(S))), ([t - 1, 0], [0]),
                                (list(range(t)), [S - 1]), ([0, t - 1], list(range(S)))])
    ks = T.choice("samples", [list(range(n)), [0, n - 1], list(range(1, n))])
    kw = {"times_mask": kt, "sensors_mask": ke}
    if len(ks) < n:
        kw["samples_mask"] = np.array([i in ks for i in range(n)])
    cols = [e * t + k for e in sorted(ke) for k in sorted(kt)]
    r = P.get_closest_to_measurements(**kw)
    T.minimiser(r, T.A([[lam[i, j] for j in range(lam.shape[1])] for i in ks]),
                T.A([dist2(D, i, [m[c] for c in cols], cols) for i in ks]),
                "closest to the measurements, masked")


PROP.add(together, "masks-together", n=5, S=2, t=3)
PROP.add(large, "large-n60", n=60, S=1, t=3)
PROP.add(large, "large-d40", n=6, S=4, t=10)

# samples, data, operators of integer type
PROP.add(measurements, "whole-data", n=3, S=2, t=1, ints=("D",))
PROP.add(measurements, "whole-measurements", n=3, S=1, t=2, ints=("M", "lam"))
PROP.add(true_vals, "whole-true-data", n=3, S=1, t=2, ints=("D",))
PROP.add(true_vals, "whole-true", n=3, S=2, t=1, ints=("tv",))

def changed(T, n, S, t):
    """queries after any one of the settings is replaced"""
    P, lam, D, m, _ = new(T, n, S, t, 1, std=False)
    tv = T.arr("tv", S * t)
    P.true_vals = tv
    ask = [P.get_closest_to_true_vals, P.get_closest_to_measurements]
    query = T.pick("query", 2)
    if T.pick("asked before", 2):
        ask[query]()
    what = T.choice("changed", ["measurements", "true values", "data", "parameters"])
    if what == "measurements":
        m = P.measurements = T.arr("M2", S * t)
    elif what == "true values":
        tv = P.true_vals = T.arr("tv2", S * t)
    elif what == "data":
        D = T.arr("D2", (n, S * t))
        P.data = D
    else:
        lam = T.arr("lam2", (n, 1), lo=0, hi=1)
        P.lam = lam
    m, tv = list(m), list(tv)
    cols = range(S * t)
    if query:
        T.minimiser(P.get_closest_to_measurements(), lam,
                    T.A([dist2(D, i, m, cols) for i in range(n)]),
                    "closest to the measurements, changed")
        return
    T.minimiser(P.get_closest_to_true_vals(), lam,
                T.A([dist2(D, i, tv, cols) for i in range(n)]),
                "closest to the true values, changed")


PROP.add(changed, "changed", n=2, S=1, t=1)

# the same with arrays stored in column order, or backwards
PROP.turned("measurements-n3d2", "true-values-n2d2")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-measurements-n2d2", "measurements-n2d2", "measurements-n2d2")
