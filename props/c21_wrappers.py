import numpy as np

from engine.harness import Prop
from props.lin import rows

PROP = Prop(
    "C21", "Problem wrappers build the problem their raw arguments describe",
    assumptions=["np.random draws are arbitrary reals, one per call and position"],
    outside="more than 3 samples or 4 data; the distribution of the random draws")


def noise(T, n, seed=None):
    """the n standard normal draws that follow, by position"""
    s = "u" if seed is None else f"s{seed}"
    return [T.real(f"rng_{s}_{i}") for i in range(n)]


def flat(a):
    return list(np.ravel(a))


def mud(T, n, N, p=1, obs=None, weights=False, sd=True, flat_lam=False, flat_q=False):
    """one quantity: the weighted mean error of the first num_obs noisy data"""
    from mud.funs import mud_problem
    T.patch_random()
    lam, Q, q0 = T.arr("lam", (n, p), lo=0, hi=1), T.arr("Q", (n, N)), T.arr("q0", N)
    dom = [[0, 1]] * p
    kw = {} if obs is None else {"num_obs": obs}
    k = N if obs is None else obs
    s = T.const(0.05)
    if sd:
        s = kw["sd"] = T.real("s", pos=True)
    w = None
    if weights:
        w = kw["weights"] = T.arr("w", n, pos=True)
    D = mud_problem(lam.reshape(-1) if flat_lam else lam,
                    Q.reshape(-1) if flat_q else Q, q0, dom, **kw)
    e = noise(T, k)
    if not T.shape(D.y, (n, 1), "one prediction per sample"):
        return
    r = T.sqrt(T.const(k))
    for i in range(n):
        T.eq(D.y[i, 0] * r * s, sum(Q[i, j] - q0[j] - s * e[j] for j in range(k)),
             "weighted mean error of noisy data")
    T.eq(D.X, lam, "parameters")
    T.eq(D.domain, T.A(dom), "domain")
    # estimates are those of the density problem with this map
    from mud.base import DensityProblem
    E = DensityProblem(lam, T.A([D.y[i, 0] for i in range(n)]).reshape(-1, 1), dom,
                       weights=w)
    pd = T.density("pred")
    for q in (D, E):
        q.set_initial()
        q.set_predicted(pd)
    T.eq(D.mud_point(), E.mud_point(), "MUD point")
    T.eq(D.expected_ratio(), E.expected_ratio(), "expected ratio")


def split(T, n, N, obs, groups, weights=False):
    """one prediction per group of data"""
    from mud.funs import mud_problem
    T.patch_random()
    lam, Q, q0 = T.arr("lam", (n, 2), lo=0, hi=1), T.arr("Q", (n, N)), T.arr("q0", N)
    s = T.real("s", pos=True)
    w = T.arr("w", n, pos=True) if weights else None
    D = mud_problem(lam, Q, q0 if T.pick("form", 2) else list(q0), [[0, 1]] * 2, sd=s,
                    num_obs=obs, split=[np.array(g) for g in groups], weights=w)
    T.eq(D.X, lam, "parameters")
    T.eq(D._weights, T.A([1] * n) if w is None else w, "sample weights")
    k = N if obs is None else obs
    e = noise(T, k)
    if not T.shape(D.y, (n, len(groups)), "one prediction per sample and group"):
        return
    for g, idx in enumerate(groups):
        idx = [j for j in idx if j < k]
        r = T.sqrt(T.const(len(idx)))
        for i in range(n):
            T.eq(D.y[i, g] * r * s, sum(Q[i, j] - q0[j] - s * e[j] for j in idx),
                 "weighted mean error of the group")


def bayes(T, n, N, p=1, obs=None, log=False, flat_args=False, flat_q=False):
    """likelihood: product of normals around the first num_obs noisy data"""
    from mud.funs import map_problem
    T.patch_random()
    lam, Q, q0 = T.arr("lam", (n, p), lo=0, hi=1), T.arr("Q", (n, N)), T.arr("q0", N)
    s = T.real("s", pos=True)
    kw = {} if obs is None else {"num_obs": obs}
    k = N if obs is None else obs
    dom = [[0, 1]] * p
    B = map_problem(lam.reshape(-1) if flat_args else lam,
                    Q.reshape(-1) if flat_args or flat_q else Q, q0, dom, sd=s, log=log,
                    **kw)
    e = noise(T, k)
    d = [q0[j] + s * e[j] for j in range(k)]
    T.eq(B.X, lam, "parameters")
    T.eq(B.y, Q[:, :k], "the first num_obs data")
    T.eq(B.domain, T.A(dom), "domain")
    ss = [sum((Q[i, j] - d[j]) * (Q[i, j] - d[j]) for j in range(k)) for i in range(n)]
    T.minimiser(B.map_point(), lam, ss, "MAP point is closest to the noisy data")


def bayes_prior(T, n, N, sd=True):
    """deviation and number of data matter against the prior"""
    from mud.funs import map_problem
    from scipy.stats import norm
    T.patch_random()
    lam, Q, q0 = T.arr("lam", (n, 1)), T.arr("Q", (n, N)), T.arr("q0", N)
    s, m, t = T.real("s", pos=True), T.real("m"), T.real("t", pos=True)
    if not sd:
        s = T.const(0.05)
    B = map_problem(lam, Q, q0, [[0, 1]], log=True, **({"sd": s} if sd else {}))
    B.set_prior(norm(loc=m, scale=t))
    e = noise(T, N)
    ss = [sum((Q[i, j] - q0[j] - s * e[j]) ** 2 for j in range(N)) / (s * s)
          + (lam[i, 0] - m) ** 2 / (t * t) for i in range(n)]
    T.minimiser(B.map_point(), lam, ss, "regularised least squares sample")


def refused(T):
    from mud import funs
    T.patch_random()
    f = T.choice("which", [funs.mud_problem, funs.map_problem])
    k = T.choice("num_obs", [0, -1, 3, 7])
    kw = {}
    if f is funs.mud_problem and T.pick("split", 2):
        kw["split"] = [np.array([0]), np.array([1])]
    q0 = T.arr("q0", T.choice("true data", [2, 8]))
    T.raises(ValueError, lambda: f(T.arr("lam", (2, 1)), T.arr("Q", (2, 2)),
                                   q0, [[0, 1]], num_obs=k, **kw),
             "numbers of data out of range are refused")


def norm_unit(x):
    """density of the uniform distribution on [0, 1]"""
    return 1 if 0 <= x and x <= 1 else 0


def data(T, n, S, t, p=1, default=False):
    """data_prob: the spatio-temporal weighted mean error, solved"""
    from mud.funs import data_prob
    lam = T.arr("lam", (n, p), lo=-1 if default else 0, hi=2 if default else 1)
    Q, m = T.arr("Q", (n, S * t)), T.arr("m", S * t)
    s = T.real("s", pos=True)
    i_ = T.density("init")
    T.assume(sum(Q[0, j] for j in range(S * t)) + 1
             < sum(Q[1, j] for j in range(S * t)))
    kw = {} if default else {"init_dist": i_}
    if not default:
        kw.update(sensors=np.arange(S) * 10, times=np.arange(t) * 0.5,
                  domain=[[0, 1]] * p)
    D = data_prob(lam, Q, measurements=m, std_dev=s, **kw)
    if not T.shape(D.y, (n, 1), "one prediction per sample"):
        return
    r = T.sqrt(T.const(S * t))
    for i in range(n):
        T.eq(D.y[i, 0] * r * s, sum(m[j] - Q[i, j] for j in range(S * t)),
             "weighted mean error")
    from scipy.stats import norm
    ob = norm(0, 1).pdf(D.y)[:, 0]
    pr = T.kde(D.y.T).pdf(D.y.T)
    up = []
    for i in range(n):
        v = ob[i] / pr[i]
        for j in range(p):
            v = v * (norm_unit(lam[i, j]) if default else i_.pdf(lam[i, j]))
        up.append(v)
    T.maximiser(D.estimate(), lam, up, "estimate")


PROP.add(mud, "mud-n2N2", n=2, N=2)
PROP.add(mud, "mud-n3N3-obs2", n=3, N=3, obs=2)
PROP.add(mud, "mud-n2N3-obs1-weighted", n=2, N=3, obs=1, weights=True)
PROP.add(mud, "mud-p2-default-sd", n=2, N=2, p=2, sd=False)
PROP.add(mud, "mud-flat", n=2, N=2, flat_lam=True)
PROP.add(mud, "mud-flat-data", n=3, N=1, flat_q=True)
PROP.add(mud, "mud-flat-data-p2", n=3, N=1, p=2, flat_q=True)
PROP.add(split, "split-weighted", n=3, N=3, obs=2, groups=[[0, 2], [1]], weights=True)
PROP.add(split, "split-2", n=2, N=3, obs=None, groups=[[0, 2], [1]])
PROP.add(split, "split-obs3", n=2, N=4, obs=3, groups=[[3, 1], [0, 2]])
PROP.add(split, "split-repeats", n=2, N=3, obs=2, groups=[[1, 0, 1, 2], [0, 0]])
PROP.add(split, "split-overlap", n=3, N=3, obs=3, groups=[[0, 1, 2], [2]])
PROP.add(bayes, "map-n3N1", n=3, N=1)
PROP.add(bayes, "map-n2N3-obs2", n=2, N=3, p=2, obs=2)
PROP.add(bayes, "map-log", n=2, N=2, log=True)
PROP.add(bayes, "map-flat", n=3, N=1, flat_args=True)
PROP.add(bayes, "map-flat-data-p2", n=3, N=1, p=2, flat_q=True)
PROP.add(bayes_prior, "map-prior", n=2, N=2)
PROP.add(bayes_prior, "map-prior-default-sd", n=2, N=1, sd=False)
PROP.add(refused, "refused")
PROP.add(data, "data-n2", n=2, S=2, t=2)
PROP.add(data, "data-n3p2", n=3, S=1, t=2, p=2)
PROP.add(data, "data-default", n=2, S=1, t=2, default=True)
PROP.add(mud, "mud-n4N6", tier="thorough", n=4, N=6, obs=5, weights=True)
PROP.add(bayes, "map-n4N4", tier="thorough", n=4, N=4, obs=3)


def large(T, n, N, which):
    """many samples and data; nearly all entries constants"""
    from mud.funs import map_problem, mud_problem
    T.patch_random()
    lam, Q, q0 = T.big("lam", (n, 2), lo=0, hi=1), T.big("Q", (n, N)), T.big("q0", N)
    s, k = T.const(0.25), N - 2
    e = noise(T, k)
    if which == "mud":
        D = mud_problem(lam, Q, q0, [[0, 1]] * 2, sd=0.25, num_obs=k)
        if not T.shape(D.y, (n, 1), "one prediction per sample"):
            return
        r = T.sqrt(T.const(k))
        T.eq(D.y[:, 0] * (r * s), T.A([sum(Q[i, j] - q0[j] - s * e[j] for j in range(k))
                                       for i in range(n)]), "large: weighted mean error")
    else:
        D = map_problem(lam, Q, q0, [[0, 1]] * 2, sd=0.25, num_obs=k, log=True)
        T.minimiser(D.map_point(), lam,
                    [sum((Q[i, j] - q0[j] - s * e[j]) ** 2 for j in range(k))
                     for i in range(n)], "large: MAP point")


PROP.add(large, "large-mud-N40", n=5, N=40, which="mud")
PROP.add(large, "large-mud-n150", n=150, N=6, which="mud")
PROP.add(large, "large-map-n4N8", n=4, N=8, which="map")

# samples, data, operators of integer type
PROP.add(mud, "whole-mud", n=3, N=3, obs=2, ints=("Q", "q0"))
PROP.add(split, "whole-split", n=2, N=3, obs=None, groups=[[0, 2], [1]], ints=("Q", "q0"))
PROP.add(bayes, "whole-map", n=3, N=2, ints=("Q", "q0"))
PROP.add(data, "whole-data", n=2, S=2, t=2, ints=("Q", "m"))

# the same with arrays stored in column order, or backwards
PROP.turned("mud-n3N3-obs2", "split-weighted", "map-n2N3-obs2", "data-n3p2")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-mud-n2N2", "mud-n2N2", "mud-n2N2")
PROP.sequence("again-map-n3N1", "map-n3N1", "map-n3N1")
PROP.sequence("again-data-n2", "data-n2", "data-n2")
