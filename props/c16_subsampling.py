import numpy as np

from engine.harness import Prop
from props.st import mask, new

PROP = Prop(
    "C16", "Sub-sampling keeps samples, sensors, times, data and measurements aligned",
    outside="more than 3 samples, 3 sensors or 3 times; scalar sample masks")


def check(T, P, lam, D, m, t, args, ks, ke, kt, label):
    sl, st, ss, sd, sm = P.sample_data(**args)
    p = np.shape(lam)[1]
    if not (T.shape(sl, (len(ks), p), label + ": parameters per kept sample")
            and T.shape(sd, (len(ks), len(ke) * len(kt)), label + ": data per kept")):
        return
    T.eq(sl, T.A([[lam[i, j] for j in range(p)] for i in ks]), label + ": parameters")
    T.eq(sd, T.A([[D[i, e * t + k] for e in ke for k in kt] for i in ks]),
         label + ": data")
    if m is None:
        T.true(sm is None, label + ": no measurements")
    else:
        T.eq(np.ravel(sm), T.A([m[e * t + k] for e in ke for k in kt]),
             label + ": measurements")
    T.eq(np.ravel(st), np.ravel(np.asarray(P.times)[kt]) * 1.0, label + ": times")
    T.eq(np.ravel(ss), np.ravel(np.asarray(P.sensors)[ke]) * 1.0, label + ": sensors")


def run(T, n, S, t, p=1, which=("samples", "times", "sensors"), dform=2, meas=True,
        coords=False, kinds=("none", "bool", "index", "list"), default_axes=False):
    P, lam, D, m, _ = new(T, n, S, t, p, dform, meas, False, coords, default_axes)
    sm, ks = mask(T, "samples", n, kinds) if "samples" in which else (None, range(n))
    tm, kt = mask(T, "times", t, kinds) if "times" in which else (None, range(t))
    em, ke = mask(T, "sensors", S, kinds) if "sensors" in which else (None, range(S))
    args = {"samples_mask": sm, "times_mask": tm, "sensors_mask": em}
    check(T, P, lam, D, m, t, args, list(ks), list(ke), list(kt), "masks")
    check(T, P, lam, D, m, t, {}, list(range(n)), list(range(S)), list(range(t)),
          "the problem itself keeps everything")


def one(T, S, t):
    """a single sensor or time given by its number"""
    P, lam, D, m, _ = new(T, 2, S, t, 1, 2, True, False, True)
    e, k = T.pick("sensor", S), T.pick("time", t)
    if T.pick("which", 2):
        args, ke, kt = {"sensors_mask": e}, [e], list(range(t))
    else:
        args, ke, kt = {"times_mask": k}, list(range(S)), [k]
    check(T, P, lam, D, m, t, args, [0, 1], ke, kt, "by number")


def density(T, n, S, t, how):
    """the inverse problem is posed for the kept samples and data"""
    P, lam, D, m, s = new(T, n, S, t, 2)
    sm, ks = mask(T, "samples", n, ("none", "bool"))
    kw = {"samples_mask": sm}
    ke, kt = list(range(S)), list(range(t))
    if how == "times":
        kw["times_mask"], kt = mask(T, "times", t, ("bool", "index"))
    else:
        kw["sensors_mask"], ke = mask(T, "sensors", S, ("bool", "index"))
    d = P.mud_problem(method="wme", **kw)
    T.eq(d.X, T.A([[lam[i, j] for j in range(2)] for i in ks]), "parameters")
    if not T.shape(d.y, (len(ks), 1), "one prediction per kept sample"):
        return
    N = T.sqrt(T.const(len(ke) * len(kt)))
    for r, i in enumerate(ks):
        q = sum(m[e * t + k] - D[i, e * t + k] for e in ke for k in kt)
        T.eq(d.y[r, 0] * N * s, q, "weighted mean error of the kept data")


def unset(T):
    from mud.base import SpatioTemporalProblem
    T.raises(AttributeError, lambda: SpatioTemporalProblem().sample_data(), "no data yet")


PROP.add(run, "samples", n=3, S=2, t=2, p=2, which=("samples",))
PROP.add(run, "times", n=2, S=2, t=3, which=("times",))
PROP.add(run, "sensors", n=2, S=3, t=2, which=("sensors",))
PROP.add(run, "sensors-coordinates", n=2, S=3, t=2, which=("sensors",), coords=True)
PROP.add(run, "all-masks", n=2, S=2, t=2, kinds=("bool", "index"))
PROP.add(run, "slices", n=2, S=3, t=3, dform=3, kinds=("none", "slice"))
PROP.add(run, "cube-data", n=2, S=2, t=3, dform=3, which=("times", "samples"),
         kinds=("none", "bool"))
PROP.add(run, "no-measurements", n=2, S=2, t=2, meas=False, kinds=("none", "list"))
PROP.add(run, "default-axes", n=2, S=1, t=3, which=("times", "sensors"), default_axes=True,
         kinds=("none", "bool", "list"))
PROP.add(one, "by-number", S=2, t=3)
PROP.add(density, "problem-times", n=2, S=2, t=2, how="times")
PROP.add(density, "problem-sensors", n=2, S=2, t=2, how="sensors")
PROP.add(unset, "unset")
PROP.add(run, "all-masks-3", tier="thorough", n=3, S=3, t=2, kinds=("none", "bool"))
PROP.add(density, "problem-sensors-3", tier="thorough", n=3, S=3, t=2, how="sensors")


def large(T, n, S, t):
    """many samples, sensors and times; nearly all entries constants"""
    P, lam, D, m, s = new(T, n, S, t, 2, big=3)
    ks, ke, kt = list(range(1, n, 3)), list(range(0, S, 2)), list(range(1, t, 2))
    args = {"samples_mask": np.array(ks), "sensors_mask": np.array(ke),
            "times_mask": np.array(kt)}
    check(T, P, lam, D, m, t, args, ks, ke, kt, "large")
    check(T, P, lam, D, m, t, {}, list(range(n)), list(range(S)), list(range(t)), "large")


PROP.add(large, "large-S12t11", n=9, S=12, t=11)
PROP.add(large, "large-n200", n=200, S=2, t=3)

# samples, data, operators of integer type
PROP.add(run, "whole-data", n=2, S=2, t=3, which=("times", "sensors"), kinds=("none", "index"), ints=("D", "M"))

def changed(T, n, S, t):
    """selections after any one of the settings is replaced"""
    P, lam, D, m, _ = new(T, n, S, t, 1, std=False)
    args = {"times_mask": [1], "samples_mask": [0]} if T.pick("masked", 2) else {}
    ks, kt = ([0], [1]) if args else (list(range(n)), list(range(t)))
    if T.pick("asked before", 2):
        P.sample_data(**args)
    what = T.choice("changed", ["measurements", "data", "parameters", "times", "sensors"])
    if what == "measurements":
        m = P.measurements = T.arr("M2", S * t)
    elif what == "data":
        D = T.arr("D2", (n, S * t))
        P.data = D
    elif what == "parameters":
        lam = T.arr("lam2", (n, 1), lo=0, hi=1)
        P.lam = lam
    elif what == "times":
        P.times = np.arange(t) + 7.0
    else:
        P.sensors = np.arange(S) + 5.0
    check(T, P, lam, D, np.ravel(m), t, args, ks, list(range(S)), kt, "changed")


PROP.add(changed, "changed", n=2, S=2, t=2)

# the same with arrays stored in column order, or backwards
PROP.turned("samples", "sensors-coordinates", "cube-data", "all-masks")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-by-number", "by-number", "by-number")
