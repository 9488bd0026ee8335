import numpy as np

from engine.harness import Prop

PROP = Prop(
    "C18", "Spatio-temporal problems refuse inconsistent settings and fill in defaults",
    outside="more than 3 samples or 2 parameters; parameters reset outside the domain "
            "(the domain is checked against parameters when it is set)")


def stp():
    from mud.base import SpatioTemporalProblem
    return SpatioTemporalProblem()


def box(T, p, name="dom"):
    d = T.arr(name, (p, 2))
    for j in range(p):
        T.assume(d[j, 0] < d[j, 1])
    return d


def default_domain(T, n, p, flat=False):
    """without a domain, that of the samples"""
    P = stp()
    lam = T.arr("lam", (n, p))
    P.lam = lam.reshape(-1) if flat else (lam if T.pick("form", 2) else
                                          [list(r) for r in lam])
    T.eq(P.lam, lam, "one row per sample")
    if not T.shape(P.domain, (p, 2), "one interval per parameter"):
        return
    for j in range(p):
        lo, hi = P.domain[j, 0], P.domain[j, 1]
        for i in range(n):
            T.le(lo, lam[i, j], "domain contains the samples")
            T.le(lam[i, j], hi, "domain contains the samples")
        T.true(np.any([bool_eq(T, lo, lam[i, j]) for i in range(n)]), "bound attained")
        T.true(np.any([bool_eq(T, hi, lam[i, j]) for i in range(n)]), "bound attained")
    T.true(P.sample_dist == "u", "uniform unless said otherwise")
    T.true((P.n_samples, P.n_params) == (n, p), "sizes")


def bool_eq(T, a, b):
    return T.holds(a == b)


def domain_then_lam(T, p, q):
    """parameters of another dimension than the domain are refused"""
    P = stp()
    d = box(T, p)
    P.domain = d if T.pick("form", 2) else d.reshape(-1)
    T.eq(P.domain, d, "domain as given")
    lam = T.arr("lam", (2, q))

    def f():
        P.lam = lam
    if p == q:
        f()
        T.eq(P.lam, lam, "accepted")
        T.eq(P.domain, d, "given domain kept")
    else:
        T.raises(ValueError, f, "dimension mismatch refused")
        T.true(P.lam is None, "refused parameters are not stored")


def lam_then_domain(T, p, q):
    """a new domain must have the parameters' dimension and contain them all"""
    P = stp()
    lam = T.arr("lam", (2, p))
    P.lam = lam
    d = box(T, q)
    before = P.domain

    def f():
        P.domain = d
    if p != q:
        T.raises(ValueError, f, "dimension mismatch refused")
        T.eq(P.domain, before, "refused domain is not stored")
        return
    inside = True
    for i in range(2):
        for j in range(p):
            inside = inside and T.holds(d[j, 0] <= lam[i, j]) \
                and T.holds(lam[i, j] <= d[j, 1])
    if inside:
        f()
        T.eq(P.domain, d, "containing domain accepted")
    else:
        T.raises(ValueError, f, "domain that leaves samples out refused")
        T.eq(P.domain, before, "refused domain is not stored")


def reference(T, p):
    """reference parameters lie in the domain"""
    P = stp()
    T.true(P.lam_ref is None, "no reference yet")
    ref = T.arr("ref", p)

    def f():
        P.lam_ref = ref if v else ref.reshape(1, -1)
    v = T.pick("form", 2)
    if T.pick("domain set", 2) == 0:
        T.raises(AttributeError, f, "no domain yet")
        return
    d = box(T, p)
    P.domain = d
    inside = True
    for j in range(p):
        inside = inside and T.holds(d[j, 0] <= ref[j]) and T.holds(ref[j] <= d[j, 1])
    if inside:
        f()
        T.eq(P.lam_ref, ref, "reference stored")
    else:
        T.raises(ValueError, f, "reference outside the domain refused")
        T.true(P.lam_ref is None, "refused reference is not stored")


def data_axes(T, n, S, t):
    """data columns = sensors x times; missing axes are filled in"""
    P = stp()
    lam, first = T.arr("lam", n), T.pick("parameters first", 2)
    if first:
        P.lam = lam
    v = T.choice("given", ["none", "sensors", "times", "both"])
    form = T.pick("form", 2)
    D = T.arr("D", (n, S * t))
    if v in ("sensors", "both"):
        P.sensors = np.arange(2 * S).reshape(S, 2)
    if v in ("times", "both"):
        P.times = np.arange(t)

    def f():
        P.data = T.laid(D.reshape(n, S, t)) if form else D
    ok = v in ("none", "both") or (v == "sensors" and t == 1) or (v == "times" and S == 1)
    if not ok:
        T.raises(ValueError, f, "columns do not match the axes")
        return
    f()
    T.eq(P.data, D, "one row of data per sample")
    T.true(P.n_sensors * P.n_ts == S * t, "axes cover the columns")
    if v == "none":
        T.true(P.n_sensors == 1 and P.n_ts == S * t, "one sensor by default")
        T.eq(np.ravel(P.sensors), T.A([0]), "sensor numbered 0")
        T.eq(np.ravel(P.times), T.A(list(range(S * t))), "columns numbered in order")
    if v == "sensors":
        T.true(P.n_ts == 1, "one time by default")
        T.eq(np.ravel(P.times), T.A([0]), "time 0")
        T.eq(P.sensors, T.A(np.arange(2 * S).reshape(S, 2)), "sensors as given")
    if v == "times":
        T.true(P.n_sensors == 1, "one sensor by default")
        T.eq(np.ravel(P.sensors), T.A([0]), "sensor numbered 0")
    if v in ("times", "both"):
        T.eq(np.ravel(P.times), T.A(list(range(t))), "times as given")


def flat_data(T, n):
    P = stp()
    P.lam = T.arr("lam", n)
    D = T.arr("D", n)
    P.data = D
    T.eq(P.data, D.reshape(-1, 1), "flat data: one value per sample")


def wrong_axes(T):
    P = stp()
    P.lam = T.arr("lam", 2)
    v = T.pick("case", 3)
    if v == 0:
        P.sensors, P.times = np.arange(2), np.arange(2)
    elif v == 1:
        P.sensors = np.arange(4)
    else:
        P.times = np.arange(2)

    def f():
        P.data = T.arr("D", (2, 3))
    T.raises(ValueError, f, "columns do not match the axes")
    T.true(P.data is None, "refused data are not stored")


def sized(T, S, t, k):
    """measurements and true values have one entry per sensor and time"""
    P = stp()
    P.sensors, P.times = np.arange(S), np.arange(t)
    which = T.choice("which", ["measurements", "true_vals"])
    k = k or 1 + T.pick("length", 3 * S * t)
    m = T.arr("M", k)

    def f():
        setattr(P, which, m if T.pick("form", 2) else m.reshape(-1, 1))
    if k == S * t:
        f()
        T.eq(np.ravel(getattr(P, which)), m, which)
    else:
        T.raises(ValueError, f, "wrong number refused")
        T.true(getattr(P, which) is None, "refused values are not stored")


def unset(T):
    """asking for sizes before they are known is an error; so is an unknown sampling"""
    P = stp()
    v = T.choice("what", ["n_samples", "n_qoi", "n_sensors", "n_ts", "dist", "ref"])
    if v == "dist":
        def f():
            P.sample_dist = "x"
        T.raises(ValueError, f, "unknown sampling distribution")
        for d in ("u", "n"):
            P.sample_dist = d
            T.true(P.sample_dist == d, "known sampling distribution")
    elif v == "ref":
        T.raises(AttributeError, lambda: P.get_closest_to_true_vals(), "no true values")
        T.raises(AttributeError, lambda: P.measurements_from_reference(), "no reference")
    else:
        T.raises(AttributeError, lambda: getattr(P, v), v + " unknown yet")


def learned(T):
    """the number of quantities is that of the map's columns"""
    P = stp()
    P.qoi = T.arr("q", (2, 3))
    T.true(P.n_qoi == 3, "columns of the map")
    P.domain = [[0, 1]] * 4
    T.true(P.n_params == 4, "intervals of the domain")


def again(T, S, t):
    """data of another size need other axes; equal sizes replace the data"""
    P = stp()
    P.lam = T.arr("lam", 2)
    P.sensors, P.times = np.arange(S), np.arange(t)
    P.data = T.arr("D", (2, S * t))
    P.measurements = T.arr("m", S * t)
    E = T.arr("E", (2, S * t))
    P.data = E.reshape(2, S, t)
    T.eq(P.data, E, "replaced")

    def f():
        P.data = T.arr("F", (2, S * t + 1))
    T.raises(ValueError, f, "another number of columns")
    T.eq(P.data, E, "refused data are not stored")
    d = T.arr("n", (S, t))
    P.measurements = d
    T.eq(np.ravel(P.measurements), d.reshape(-1), "measurements as a table of sensors")

    def g():
        P.measurements = T.arr("o", S * t - 1)
    T.raises(ValueError, g, "wrong number refused")
    T.eq(np.ravel(P.measurements), d.reshape(-1), "refused values are not stored")


def validate(T):
    """validate reports exactly what is missing for what is asked"""
    P = stp()
    have = T.pick("set", 5)
    P.domain = [[0, 1]]
    if have >= 1:
        P.lam = [0.25, 0.5]
    if have >= 2:
        P.data = T.arr("D", (2, 2))
    if have >= 3:
        P.measurements = T.arr("M", 2)
    if have >= 4:
        P.true_vals = T.arr("tv", 2)
        P.lam_ref = [0.5]
    meas, true = T.pick("meas", 2), T.pick("true", 2)
    need = max(2, 3 * meas, 4 * true)
    if meas and true and have == 3:
        need = 4

    def f():
        P.validate(check_meas=bool(meas), check_true=bool(true))
    if have >= need:
        f()
    else:
        T.raises(ValueError, f, "missing attributes reported")


PROP.add(default_domain, "default-n2p2", n=2, p=2)
PROP.add(default_domain, "default-n3p1", n=3, p=1, flat=True)
PROP.add(domain_then_lam, "domain1-lam1", p=1, q=1)
PROP.add(domain_then_lam, "domain2-lam1", p=2, q=1)
PROP.add(domain_then_lam, "domain1-lam2", p=1, q=2)
PROP.add(lam_then_domain, "lam1-domain1", p=1, q=1)
PROP.add(lam_then_domain, "lam2-domain2", p=2, q=2)
PROP.add(lam_then_domain, "lam2-domain1", p=2, q=1)
PROP.add(lam_then_domain, "lam1-domain2", p=1, q=2)
PROP.add(reference, "reference-p1", p=1)
PROP.add(reference, "reference-p2", p=2)
PROP.add(data_axes, "data-S2t3", n=2, S=2, t=3)
PROP.add(data_axes, "data-S3t1", n=2, S=3, t=1)
PROP.add(data_axes, "data-S1t3", n=2, S=1, t=3)
PROP.add(flat_data, "data-flat", n=3)
PROP.add(wrong_axes, "data-wrong")
PROP.add(sized, "any-length", S=2, t=3, k=None)
PROP.add(sized, "measurements", S=2, t=2, k=4)
PROP.add(sized, "measurements-short", S=2, t=2, k=3)
PROP.add(sized, "measurements-long", S=2, t=2, k=5)
PROP.add(unset, "unset")
PROP.add(validate, "validate")
PROP.add(learned, "quantities")
PROP.add(again, "again-2x2", S=2, t=2)
PROP.add(again, "again-1x3", S=1, t=3)
PROP.add(default_domain, "default-n3p2", tier="thorough", n=3, p=2)


def large(T, n, p, S, t):
    """many samples and data; nearly all entries constants"""
    from mud.base import SpatioTemporalProblem
    lam, D = T.big("lam", (n, p), free=1), T.big("D", (n, S * t))
    m = T.big("m", S * t)
    P = SpatioTemporalProblem()
    P.lam = lam
    T.eq(P.domain, T.A([list(T.extent(lam[:, j])) for j in range(p)]), "large: box of the samples")
    P.sensors, P.times = np.arange(S), np.arange(t) * 0.5
    P.data = D
    P.measurements = m
    T.eq(P.data, D, "large: data")
    T.eq(np.ravel(P.measurements), m, "large: measurements")
    T.true((P.n_samples, P.n_params, P.n_sensors, P.n_ts) == (n, p, S, t),
           "large: sizes")
    for bad in (m[:-1], T.big("x", S * t + 1)):
        def f():
            P.measurements = bad
        T.raises(ValueError, f, "large: measurements of another length")


PROP.add(large, "large-n150", n=150, p=2, S=3, t=4)
PROP.add(large, "large-p9S12t11", n=6, p=9, S=12, t=11)

# samples, data, operators of integer type
PROP.add(default_domain, "whole-default", n=3, p=2, ints=("lam",))
PROP.add(domain_then_lam, "whole-lam", p=1, q=1, ints=("lam",))
PROP.add(lam_then_domain, "whole-lam-first", p=2, q=2, ints=("lam",))
PROP.add(reference, "whole-domain", p=2, ints=("dom",))
PROP.add(data_axes, "whole-data", n=2, S=2, t=3, ints=("D",))

# the same with arrays stored in column order, or backwards
PROP.turned("default-n2p2", "data-S2t3", "lam2-domain2")
