import numpy as np

from engine.harness import Prop
from props.st import new

PROP = Prop(
    "C23", "Measurement noise: one independent draw per datum, scaled by the deviation",
    assumptions=["np.random draws are arbitrary reals, one per call and position",
                 "erfinv is an uninterpreted function on (0, 1)"],
    outside="more than 6 data; the distribution of the random draws")


def stream(T, seed, n):
    s = "u" if seed is None else f"s{seed}"
    return [T.real(f"rng_{s}_{i}") for i in range(n)]


def dims(n):
    return {1: [(1,), (1, 1)], 2: [(2,), (2, 1), (1, 2)], 4: [(4,), (2, 2), (4, 1)],
            6: [(6,), (2, 3), (3, 2)]}[n]


def add(T, n, seed=None, default_sd=False, as_list=False):
    from mud.util import add_noise
    T.patch_random()
    shp = T.choice("shape", dims(n))
    x = T.arr("x", n).reshape(shp)
    keep = x.copy()
    sd = T.const(0.05) if default_sd else T.real("sd", nonneg=True)
    kw = {} if default_sd else {"sd": sd}
    if seed is not None:
        kw["seed"] = seed
    z = add_noise(x.tolist() if as_list else x, **kw)
    e = stream(T, seed, n)
    f = np.ravel(keep)
    if T.shape(z, shp, "shape of the signal"):
        T.eq(np.ravel(z), T.A([f[i] + sd * e[i] for i in range(n)]),
             "signal plus deviation times draw")
    T.eq(x, keep, "signal unchanged")


def repeat(T, n):
    """the same seed gives the same noise; unseeded calls give fresh draws"""
    from mud.util import add_noise
    T.patch_random()
    x, s = T.arr("x", n), T.real("sd", pos=True)
    a, b = add_noise(x, s, seed=0), add_noise(x, s, seed=0)
    T.eq(a, b, "reproducible for a seed (zero included)")
    c = add_noise(x, s, seed=3)
    e = stream(T, 3, 2 * n)
    T.eq(c, T.A([x[i] + s * e[i] for i in range(n)]), "another seed, another stream")
    d = add_noise(x, s)
    T.eq(d, T.A([x[i] + s * e[n + i] for i in range(n)]), "no seed: the stream goes on")


def vector(T, shp, row=False):
    """a deviation per datum, or per column of a table"""
    from mud.util import add_noise
    T.patch_random()
    n = int(np.prod(shp))
    x = T.arr("x", shp)
    s = T.arr("s", shp[-1] if row else shp, nonneg=True)
    z = add_noise(x, s if len(shp) > 1 or T.pick("array", 2) else list(s))
    e = T.A(stream(T, None, n)).reshape(shp)
    if T.shape(z, shp, "shape of the signal"):
        T.eq(z, x + s * e, "each datum by its own deviation")


def measured_vector(T, n, ref):
    """measurements with a deviation per datum"""
    T.patch_random()
    P, lam, D, m, s = new(T, 2, 1, n, 1, 2, False, False)
    q, s = T.arr("ref", (n, 1)), T.arr("sigma", n, nonneg=True)
    if ref:
        P.measurements_from_reference(ref=q, std_dev=s, seed=2)
    else:
        P.true_vals, P.std_dev = q, s
        P.measurements_from_reference(seed=2)
    e = stream(T, 2, n)
    if T.shape(P.measurements, (n, 1), "one measurement per datum"):
        T.eq(P.measurements[:, 0], T.A([q[j, 0] + s[j] * e[j] for j in range(n)]),
             "each by its own deviation")
    T.eq(P.std_dev, s, "deviations kept")


def measured(T, S, t, how, seed=None):
    """measurements of a problem: its true values plus noise"""
    T.patch_random()
    given = how == "given"
    P, lam, D, m, s = new(T, 2, S, t, 1, 2, False, not given)
    ref = T.arr("ref", (S * t, 1))
    keep = ref.copy()
    if given:
        s = T.real("sigma", pos=True)
        P.measurements_from_reference(ref=ref, std_dev=s, seed=seed)
    else:
        P.true_vals = ref.reshape(-1) if how == "flat" else ref
        P.measurements_from_reference(seed=seed)
    e = stream(T, seed, S * t)
    if T.shape(P.measurements, (S * t, 1), "one measurement per datum"):
        T.eq(P.measurements[:, 0], T.A([keep[j, 0] + s * e[j] for j in range(S * t)]),
             "true value plus noise")
    T.eq(np.ravel(P.true_vals), keep[:, 0], "true values kept")
    T.eq(P.std_dev, s, "standard deviation kept")
    T.eq(ref, keep, "reference unchanged")
    P.measurements_from_reference(seed=7)
    e = stream(T, 7, S * t)
    T.eq(np.ravel(P.measurements), T.A([keep[j, 0] + s * e[j] for j in range(S * t)]),
         "measured again from the true values, not from the measurements")
    s2 = T.real("sigma2", pos=True)
    P.measurements_from_reference(std_dev=s2, seed=8)
    e = stream(T, 8, S * t)
    T.eq(np.ravel(P.measurements), T.A([keep[j, 0] + s2 * e[j] for j in range(S * t)]),
         "measured again with another deviation")
    T.eq(P.std_dev, s2, "the deviation given is kept")


def incomplete(T):
    T.patch_random()
    which = T.pick("which", 3)
    P, *_ = new(T, 2, 1, 2, 1, 2, False, which == 0)
    if which == 1:
        P.true_vals = T.arr("ref", 2)
    T.raises(AttributeError, P.measurements_from_reference,
             "reference and deviation are both needed")


def equipment(T, default=None):
    """tolerance covers that share of a centred normal of this deviation"""
    from scipy.special import erfinv
    from mud.util import std_from_equipment
    tol = T.const(0.1) if default == "both" else T.real("tol", pos=True)
    if default == "both":
        p, r = 0.95, std_from_equipment()
    elif default == "prob":
        p, r = 0.95, std_from_equipment(tol)
    else:
        p = T.choice("prob", [0.5, 0.68, 0.9, 0.95, 0.99, 0.999])
        r = std_from_equipment(probability=p, tolerance=tol)
    q = T.const(float(np.sqrt(2) * erfinv(p)))
    # P(|N(0, r)| <= tol) = erf(tol / (r sqrt 2)) = p
    T.le(r * q, tol * (1 + 1e-9), "tolerance is that quantile")
    T.le(tol, r * q * (1 + 1e-9), "tolerance is that quantile")
    T.true(r > 0, "positive")


def equipment_sym(T):
    """any probability; linear in the tolerance"""
    from scipy.special import erfinv
    from mud.util import std_from_equipment
    p, tol, k = T.real("p", lo=0.01, hi=0.99), T.real("tol", pos=True), T.real("k", pos=True)
    T.assume(erfinv(p) > 0)
    r = std_from_equipment(tol, p)
    T.eq(tol * tol, r * r * 2 * erfinv(p) * erfinv(p), "tolerance is that quantile")
    T.true(r > 0, "positive")
    T.eq(std_from_equipment(k * tol, p), k * r, "proportional to the tolerance")


PROP.add(add, "noise-1", n=1)
PROP.add(add, "noise-4", n=4)
PROP.add(add, "noise-seed0", n=2, seed=0)
PROP.add(add, "noise-seed5", n=6, seed=5)
PROP.add(add, "noise-default", n=2, default_sd=True)
PROP.add(add, "noise-list", n=4, as_list=True, seed=1)
PROP.add(repeat, "repeat", n=2)
PROP.add(measured, "measured-2x2", S=2, t=2, how="col")
PROP.add(measured, "measured-flat", S=1, t=3, how="flat", seed=0)
PROP.add(measured, "measured-given", S=2, t=1, how="given", seed=4)
PROP.add(vector, "noise-deviations", shp=(3,))
PROP.add(vector, "noise-deviations-2d", shp=(2, 2))
PROP.add(vector, "noise-deviations-columns", shp=(2, 3), row=True)
PROP.add(measured_vector, "measured-deviations", n=3, ref=True)
PROP.add(measured_vector, "measured-deviations-set", n=2, ref=False)
PROP.add(incomplete, "incomplete")
PROP.add(equipment, "equipment")
PROP.add(equipment, "equipment-default", default="both")
PROP.add(equipment, "equipment-default-probability", default="prob")
PROP.add(equipment_sym, "equipment-any-probability")
PROP.add(add, "noise-6", tier="thorough", n=6)
PROP.add(measured, "measured-3x2", tier="thorough", S=3, t=2, how="col", seed=2)

# samples, data, operators of integer type
PROP.add(add, "whole-noise", n=4, ints=("x",))
PROP.add(add, "whole-noise-seed", n=4, seed=3, ints=("x",))
PROP.add(measured, "whole-measured", S=2, t=2, how="col", ints=("ref",))
PROP.add(measured, "whole-measured-given", S=2, t=1, how="given", seed=4, ints=("ref",))

# the same with arrays stored in column order, or backwards
PROP.turned("noise-4", "measured-2x2")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-noise-4", "noise-4", "noise-4")
PROP.sequence("again-noise-seed0", "noise-seed0", "noise-seed0")
PROP.sequence("again-measured-given", "measured-given", "measured-given")
