"""The harness API, in its symbolic and its concrete (replay) form."""
import hashlib
import math
import random
import sys
from fractions import Fraction

import numpy as np


class AssumeFailed(Exception):
    """replay only: the values do not meet the harness' precondition"""


class Config:
    def __init__(self, name, fn, kw, tier, bounds, budget, expect_raises, ints=(),
                 layout=False):
        self.layout = layout
        self.name = name
        self.ints = ints
        self.fn = fn
        self.kw = kw
        self.tier = tier
        self.bounds = bounds
        self.budget = budget
        self.expect = expect_raises


class Prop:
    """A property: its id, title and harness configurations."""

    def __init__(self, pid, title, assumptions=(), outside=""):
        self.id = pid
        self.title = title
        self.assumptions = list(assumptions)
        self.outside = outside
        self.configs = []

    def config(self, name, tier="quick", bounds="", budget=None, **kw):
        def deco(fn):
            self.configs.append(Config(name, fn, kw, tier, bounds, budget, None))
            return fn
        return deco

    def add(self, fn, name, tier="quick", bounds="", budget=None, ints=(),
            layout=False, **kw):
        """ints: names of the arrays given as whole numbers of integer type (constants);
        layout: arrays are views, in column order or backwards"""
        self.configs.append(Config(name, fn, kw, tier, bounds, budget, None, ints,
                                   layout))

    def turned(self, *names):
        """configurations once more, their arrays in another layout"""
        for name in names:
            c = next(c for c in self.configs if c.name == name)
            self.add(c.fn, "turned-" + name, tier=c.tier, bounds=c.bounds,
                     budget=c.budget, ints=c.ints, layout=True, **c.kw)

    def sequence(self, name, *steps, how="refill", tier="quick", budget=None):
        """configurations one after the other in one process.  how: "refill" the arrays
        of the first serve the next with other values in them, "same" with the same
        values, "new" other arrays"""
        steps = [next(c for c in self.configs if c.name == s) for s in steps]

        def run(T):
            kept = {}
            for i, c in enumerate(steps):
                T.begin(i, how, kept)
                c.fn(T, **c.kw)
        self.add(run, name, tier=tier, budget=budget, ints=steps[0].ints)


def default_value(name, kind):
    h = int(hashlib.sha256(name.encode()).hexdigest()[:8], 16) / 2 ** 32
    if kind == "pos":
        return 0.25 + 1.5 * h
    return 0.3 + 1.4 * h if h < 0.7 else -0.2 - h


def numbers(vals):
    """nested lists of Python integers"""
    if isinstance(vals, (list, tuple)):
        return bool(vals) and all(numbers(v) for v in vals)
    return type(vals) is int


def whole(name, shape, pos=False, nonneg=False, lo=None, hi=None):
    """whole numbers of integer type, no two neighbours equal"""
    a = 1 if pos else 0 if nonneg else -7
    a = max(a, int(np.ceil(lo))) if lo is not None else a
    b = int(np.floor(hi)) if hi is not None else max(a, 0) + 9
    g, out = random.Random("whole-" + name), []
    for _ in range(int(np.prod(shape))):
        v = g.randint(a, b)
        while out and v == out[-1] and b > a:
            v = g.randint(a, b)
        out.append(v)
    return np.array(out).reshape(shape)


def turned(x):
    """the same array, stored in column order (one axis: backwards)"""
    if x.ndim == 1:
        return x[::-1].copy()[::-1]
    return x.transpose().copy().transpose()


class Base:
    symbolic = False
    ints = ()
    layout = False

    prefix = option_prefix = ""
    kept = None

    def laid(self, x):
        return turned(x) if self.layout else x

    def begin(self, i, how, kept):
        """another run of a harness after the first"""
        self.option_prefix = f"r{i}_" if i else ""
        self.prefix = "" if how == "same" else self.option_prefix
        self.kept = None if how == "new" else kept
        if self.rng is not None:
            self.rng.stream = "u"
            self.rng.k.clear()
            self.rng.log.clear()

    def put(self, name, x):
        """the array of an earlier run, with the values of this one"""
        if self.kept is None:
            return x
        old = self.kept.setdefault((name, x.shape), x)
        if old is not x:
            old[...] = x
        return old

    def arr(self, name, shape, **k):
        if isinstance(shape, int):
            shape = (shape,)
        if name in self.ints:
            return self.put(name, self.laid(whole(self.prefix + name, shape, **k)))
        vals = [self.real(name + "".join(f"_{i}" for i in ix), **k)
                for ix in np.ndindex(*shape)]
        return self.put(name, self.laid(self.A(vals).reshape(shape)))

    def big(self, name, shape, free=3, lo=-4, hi=4, zero=False):
        """many entries: a few symbolic ones (first, last, between), the rest constants"""
        if isinstance(shape, int):
            shape = (shape,)
        n = int(np.prod(shape))
        at = {(n - 1) * i // max(1, free - 1) for i in range(free)}
        g = random.Random(self.prefix + name)
        vals = []
        for i, ix in enumerate(np.ndindex(*shape)):
            c = g.randrange(int(lo * 64) + 1, int(hi * 64)) / 64
            if i in at:
                c = self.real(name + "".join(f"_{j}" for j in ix), lo=lo, hi=hi)
            elif not c and not zero:
                c = 1 / 64
            vals.append(c)
        return self.put(name, self.laid(self.A(vals).reshape(shape)))

    def spd(self, name, n, form="entries"):
        """symmetric positive definite matrix, all of them"""
        return self.put(name, self._spd(name, n, form))

    def _spd(self, name, n, form):
        if name in self.ints:
            k = 0 if form == "diag" else 1
            return np.array([[3 + 2 * ((i + len(name)) % 3) if i == j else
                              k * (-1) ** (i + j + 1) * (abs(i - j) == 1)
                              for j in range(n)] for i in range(n)])
        if form == "diag":
            d = [self.real(f"{name}_{i}", pos=True) for i in range(n)]
            return self.A([[d[i] if i == j else 0 for j in range(n)] for i in range(n)])
        if form == "chol":
            L = [[self.real(f"{name}_{i}{j}", pos=(i == j)) if j <= i else 0
                  for j in range(n)] for i in range(n)]
            return self.A([[sum(L[i][k] * L[j][k] for k in range(min(i, j) + 1))
                            for j in range(n)] for i in range(n)])
        M = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                M[i][j] = M[j][i] = self.real(f"{name}_{i}{j}", pos=(i == j))
        if n >= 2:
            self.assume(M[0][0] * M[1][1] - M[0][1] * M[0][1] > 0)
        if n >= 3:
            self.assume(det3(M) > 0)
        if n > 3:
            raise ValueError("use form='chol'")
        return self.A(M)

    def orth2(self, name):
        """any rotation of the plane (rational parametrisation; misses one point)"""
        t = self.real(name)
        c = (1 - t * t) / (1 + t * t)
        s = (2 * t) / (1 + t * t)
        return self.A([[c, -s], [s, c]])

    def zero(self, terms, label):
        """the terms add up to nothing (on replay: relative to their sizes)"""
        t = 0
        for x in terms:
            t = t + x
        if self.symbolic:
            self.eq(t, 0, label)
        else:
            s = sum(abs(float(x)) for x in terms)
            self.eq(t + s, s, label)

    def extent(self, xs):
        """smallest and largest value, on this path (constants first: no queries)"""
        xs = sorted(xs, key=lambda v: hasattr(v, "isconst") and not v.isconst())
        lo = hi = xs[0]
        for v in xs[1:]:
            lo = v if self.holds(v < lo) else lo
            hi = v if self.holds(v > hi) else hi
        return lo, hi

    def choice(self, name, options):
        return options[self.pick(name, len(options))]

    def dot(self, a, b):
        t = 0
        for x, y in zip(a, b):
            t = t + x * y
        return t


def det3(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1])
            - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


# ------------------------------------------------------------------ recorder
class RecAx:
    """Axes stand-in: records what is drawn; real matplotlib checks the keywords."""

    def __init__(self, T, name="ax"):
        self._T = T
        self.calls = []
        self._ylim = (0.0, 1.0)
        self._xlim = (0.0, 1.0)
        self._real = None

    def real(self):
        if self._real is None:
            from matplotlib.figure import Figure
            self._real = Figure().add_subplot(1, 1, 1)
        return self._real

    def get_ylim(self):
        return self._ylim

    def get_xlim(self):
        return self._xlim

    def set_ylim(self, *a, **k):
        self.calls.append(("set_ylim", a, k))
        if a and not isinstance(a[0], (int, float)):
            self._ylim = tuple(a[0])
        elif len(a) == 2:
            self._ylim = tuple(a)
        return self._ylim

    def by(self, name):
        return [c for c in self.calls if c[0] == name]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*a, **k):
            self.calls.append((name, a, dict(k)))
            if name in ("plot", "scatter", "annotate"):
                da = tuple(dummy(x) for x in a)
                dk = {q: dummy(v) for q, v in k.items()}
                if "c" in dk and isinstance(dk["c"], np.ndarray):
                    dk["c"] = np.zeros(np.shape(k["c"]))
                return getattr(self.real(), name)(*da, **dk)
            return RecAx(self._T)
        return call

    def __iter__(self):
        return iter([self])


def dummy(x, depth=0):
    """same structure, plain numbers (for keyword/shape checking by matplotlib)"""
    if type(x).__name__ == "Sym":
        return 0.5
    if isinstance(x, np.ndarray):
        return np.full(np.shape(x), 0.5) if x.dtype.kind in "fO" else np.asarray(x)
    if type(x) in (list, tuple) and depth < 4:
        return type(x)(dummy(v, depth + 1) for v in x)
    return x


class PlotPatch:
    """route plt.* to a recorder"""

    def __init__(self, T):
        import matplotlib.pyplot as plt
        self.plt = plt
        self.ax = RecAx(T)
        self.saved = {}

        def sub(*a, **k):
            return RecAx(T), self.ax
        for nm, f in (("subplots", sub),
                      ("figure", lambda *a, **k: self.ax),
                      ("gcf", lambda: RecAx(T)),
                      ("gca", lambda: self.ax)):
            self.saved[nm] = getattr(plt, nm)
            setattr(plt, nm, f)
        for nm in ("scatter", "plot", "annotate", "xlim", "ylim", "title", "xlabel",
                   "ylabel", "legend", "tricontourf", "tricontour", "colorbar"):
            self.saved[nm] = getattr(plt, nm)
            setattr(plt, nm, getattr(self.ax, nm))
        self.ax.add_subplot = lambda *a, **k: self.ax

    def restore(self):
        for nm, f in self.saved.items():
            setattr(self.plt, nm, f)


# ------------------------------------------------------------------ randomness
class RngFeed:
    """np.random.* fed from named values, one stream per seed"""
    NAMES = ("seed", "randn", "rand", "normal", "standard_normal", "uniform", "random",
             "random_sample", "choice", "shuffle", "permutation", "default_rng",
             "randint")

    def __init__(self, T):
        self.T = T
        self.stream = "u"
        self.k = {}
        self.log = []
        self.saved = {n: getattr(np.random, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(np.random, n, getattr(self, n))
        from scipy.stats import _distn_infrastructure as di
        self.di, self.real_rvs = di, di.rv_generic.rvs
        feed = self

        def rvs(dist, *args, size=None, random_state=None, **kw):
            kind = {"norm": "n", "uniform": "u"}.get(getattr(dist, "name", None))
            if kind is None or random_state is not None:
                raise NotImplementedError("random draws of this kind")
            loc, scale = (list(args) + [None, None])[:2]
            loc = kw.get("loc", 0.0) if loc is None else loc
            scale = kw.get("scale", 1.0) if scale is None else scale
            if size is None or size == 1 and np.ndim(loc) + np.ndim(scale):
                size = feed._shape(loc, scale, None)
            return loc + scale * feed._fill(kind, size)
        di.rv_generic.rvs = rvs

    def restore(self):
        for n, f in self.saved.items():
            setattr(np.random, n, f)
        self.di.rv_generic.rvs = self.real_rvs

    def seed(self, s=None):
        if s is None:
            self.stream = "reseeded" + str(len(self.log))
        else:
            self.stream = f"s{s}"
        self.k[self.stream] = 0
        self.log.append(("seed", s))

    def _next(self, kind):
        i = self.k.get(self.stream, 0)
        self.k[self.stream] = i + 1
        nm = f"rng_{self.stream}_{i}"
        self.log.append((kind, nm))
        if kind == "u":
            return self.T.real(nm, lo=0, hi=1)
        return self.T.real(nm)

    def _fill(self, kind, shape):
        if shape is None or shape == ():
            return self._next(kind)
        if isinstance(shape, (int, np.integer)):
            shape = (int(shape),)
        n = int(np.prod(shape))
        return self.T.A([self._next(kind) for _ in range(n)]).reshape(
            tuple(int(s) for s in shape))

    def randn(self, *shape):
        return self._fill("n", shape)

    def rand(self, *shape):
        return self._fill("u", shape)

    def standard_normal(self, size=None):
        return self._fill("n", size)

    def random(self, size=None):
        return self._fill("u", size)

    random_sample = random

    def _shape(self, loc, scale, size):
        if size is not None:
            return size
        s = np.broadcast(np.asarray(np.shape(loc) and np.zeros(np.shape(loc))),
                         np.asarray(np.shape(scale) and np.zeros(np.shape(scale))))
        return s.shape

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._fill("n", self._shape(loc, scale, size))

    def uniform(self, low=0.0, high=1.0, size=None):
        low = np.asarray(low) if isinstance(low, (list, tuple)) else low
        high = np.asarray(high) if isinstance(high, (list, tuple)) else high
        return low + (high - low) * self._fill("u", self._shape(low, high, size))

    def permutation(self, x):
        self.log.append(("permutation", None))
        return np.arange(x)[::-1] if isinstance(x, int) else np.asarray(x)[::-1]

    def shuffle(self, x):
        self.log.append(("shuffle", None))
        x[:] = list(x)[::-1]

    def randint(self, low, high=None, size=None, **k):
        lo, hi = (0, low) if high is None else (low, high)
        n = 1 if size is None else int(np.prod(size))
        v = [(lo + (7 * i + 3) % (hi - lo)) for i in range(n)]
        return v[0] if size is None else np.array(v).reshape(size)

    def choice(self, a, size=None, replace=True, p=None):
        self.log.append(("choice", None))
        a = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        n = 1 if size is None else int(np.prod(size))
        v = a[[(2 * i + 1) % len(a) for i in range(n)]]
        return v[0] if size is None else v.reshape(size)

    def default_rng(self, seed=None):
        self.stream = f"g{seed}" if seed is not None else "g"
        if seed is not None:
            self.k[self.stream] = 0
        self.log.append(("default_rng", seed))
        return self


# ------------------------------------------------------------------ concrete
class ConcreteT(Base):
    """Replays a harness on the unpatched code with given values."""

    def __init__(self, item):
        self.vals = item.get("values", {})
        self.picks = item.get("picks", {})
        self.tables = item.get("tables", {})
        self.rtol = 1e-6
        self.failures = []
        self.checked = 0
        self.cleanup = []
        self.used = {}
        self.rng = None

    # values
    def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
        name = self.prefix + name
        v = self.vals.get(name)
        if v is None:
            v = default_value(name, "pos" if pos or nonneg or lo is not None else "any")
            if lo is not None and hi is not None:
                v = lo + (hi - lo) * (v % 1.0)
        v = float(v)
        if (pos and v <= 0) or (nonneg and v < 0) or (lo is not None and v < lo) or \
                (hi is not None and v > hi):
            raise AssumeFailed(name)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        return lo + self.pick(name, hi - lo + 1)

    def pick(self, name, n):
        name = self.option_prefix + name
        if "*" in self.picks:
            v = random.Random(f"{self.picks['*']}-{name}").randrange(n)
        else:
            v = int(self.picks.get(name, 0))
        self.used[name] = v
        return v

    def const(self, v):
        return float(v)

    def A(self, vals):
        if "constants" in self.ints and numbers(vals):
            return np.array(vals)
        return np.array(vals, dtype=float)

    def assume(self, c):
        if not bool(np.all(c)):
            raise AssumeFailed("assume")

    def lemma_pos(self, x):
        """x > 0 by a theorem, given the earlier assumptions (told to the solver)"""
        self.assume(x > 0)

    def maximiser(self, point, X, score, label):
        self.checked += 1
        X = np.asarray(X, dtype=float)
        point = np.asarray(point, dtype=float)
        score = np.asarray(score, dtype=float)
        if point.shape != X[0].shape:
            self.fail(label, f"shape {point.shape}")
            return
        best = np.nanmax(score)
        for x, s in zip(X, score):
            if np.allclose(x, point, rtol=1e-9, atol=1e-12) and \
                    s >= best - 1e-9 * abs(best):
                return
        self.fail(label, f"{point.tolist()} is not the sample of largest value: "
                         f"samples {X.tolist()} values {score.tolist()}")

    def minimiser(self, point, X, score, label):
        self.maximiser(point, X, -np.asarray(score, dtype=float), label)

    def sqrt(self, x):
        return np.sqrt(x)

    def density(self, name, zero=False, args=()):
        return ConcreteDensity(self, self.prefix + name, zero)

    def kde(self, data, weights=None, bw=None):
        from scipy.stats import gaussian_kde
        return gaussian_kde(np.asarray(data, dtype=float), bw_method=bw, weights=weights)

    def svd(self, M, U, s, Vt):
        pass

    def patch_random(self):
        import mud.base  # noqa: F401  (scipy draws while it is imported)
        if self.rng is None:
            self.rng = RngFeed(self)
            self.cleanup.append(self.rng.restore)
        return self.rng

    def patch_plots(self):
        import mud.base  # noqa: F401  (sets matplotlib up)
        p = PlotPatch(self)
        self.cleanup.append(p.restore)
        return p

    def ax(self):
        return RecAx(self)

    # obligations
    def fail(self, label, detail=""):
        self.failures.append({"label": label, "detail": str(detail)[:600]})

    def shape(self, a, shp, label):
        self.checked += 1
        if tuple(np.shape(a)) != tuple(shp):
            self.fail(label, f"shape {np.shape(a)} expected {shp}")
            return False
        return True

    def eq(self, a, b, label, shapes=True):
        self.checked += 1
        try:
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            self.fail(label, f"not numeric: {e}")
            return
        if shapes and a.shape != b.shape:
            self.fail(label, f"shape {a.shape} expected {b.shape}")
            return
        fin = np.concatenate([np.abs(a[np.isfinite(a)]).ravel(),
                              np.abs(b[np.isfinite(b)]).ravel(), [0.0]])
        scale = float(fin.max())
        if not np.allclose(a, b, rtol=self.rtol, atol=1e-7 * scale + 1e-12,
                           equal_nan=True):
            self.fail(label, f"got {a.tolist()} expected {b.tolist()}")

    def le(self, a, b, label):
        self.checked += 1
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float),
                                   np.asarray(b, dtype=float))
        tol = 1e-7 * (1e-3 + np.abs(a) + np.abs(b))
        bad = ~(a <= b + tol)
        if bad.any():
            self.fail(label, f"{a.tolist()} <= {b.tolist()} fails")

    def lt(self, a, b, label):
        self.le(a, b, label)

    def true(self, c, label, detail=""):
        self.checked += 1
        if not bool(np.all(c)):
            self.fail(label, detail or "false")

    def implies(self, a, c, label):
        self.true((not bool(a)) or bool(np.all(c)), label)

    def raises(self, exc, fn, label):
        self.checked += 1
        try:
            r = fn()
        except exc:
            return
        except AssumeFailed:
            raise
        except Exception as e:
            self.fail(label, f"raised {type(e).__name__}: {e}")
            return
        self.fail(label, f"no exception, returned {str(r)[:200]}")

    def same_object_values(self, a, b, label):
        self.eq(a, b, label)

    def holds(self, c):
        """a truth value used by the harness to pick a case"""
        return bool(np.all(c))

    def close(self, a, b):
        return bool(np.isclose(float(a), float(b), rtol=1e-9, atol=1e-12))

    def num(self, x):
        return x

    def note(self, *a):
        pass


class ConcreteDensity:
    def __init__(self, T, name, zero):
        self.T = T
        self.name = name
        self.zero = zero
        self.tab = T.tables.get(name, [])
        self.calls = 0

    def value(self, x):
        x = float(x)
        best = None
        for a, v in self.tab:
            d = abs(a - x)
            if best is None or d < best[0]:
                best = (d, v)
        if best is not None and best[0] <= 1e-7 * (1 + abs(x)):
            return best[1]
        h = int(hashlib.sha256(self.name.encode()).hexdigest()[:4], 16) / 65536
        return 0.2 + math.exp(-(x - h) ** 2)

    def pdf(self, x, **kw):
        self.calls += 1
        x = np.asarray(x, dtype=float)
        return np.vectorize(self.value, otypes=[float])(x)

    def logpdf(self, x):
        return np.log(self.pdf(x))

    def std(self):
        return 1.0

    def mean(self):
        return 0.0


# ------------------------------------------------------------------ symbolic
class SymbolicT(Base):
    symbolic = True

    def __init__(self, path):
        from . import sym as S
        from . import symnp as N
        self.S = S
        self.N = N
        self.p = path
        self.cleanup = []
        self.rng = None
        self.picks = {}
        self.reached = 0
        self.densities = {}

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
        name = self.prefix + name
        S, p = self.S, self.p
        new = name not in p.inputs
        v = S.var(name, pos=pos, nonneg=nonneg or (lo is not None and lo >= 0 and not pos))
        if new:
            p.inputs[name] = {"pos": pos, "lo": lo, "hi": hi}
            if lo is not None:
                p.add(S.zcmp(S.const(lo), v, "<="))
            if hi is not None:
                p.add(S.zcmp(v, S.const(hi), "<="))
        return v

    def int(self, name, lo, hi):
        return lo + self.pick(name, hi - lo + 1)

    def pick(self, name, n):
        name = self.option_prefix + name
        if n == 1:
            return 0
        if name in self.picks:
            return self.picks[name]
        v = self.p.pick(n)
        self.picks[name] = v
        return v

    def const(self, v):
        return self.S.const(v)

    def A(self, vals):
        if "constants" in self.ints and numbers(vals):
            return np.array(vals)
        return self.N.elementwise(self.S.lift, self.N.from_any(vals)) \
            if np.ndim(vals) or isinstance(vals, (list, tuple)) else self.S.lift(vals)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for x in c.ravel():
                self.assume(x)
            return
        z = self.S.to_z3(c)
        if self.p.decide(z) is False:
            from .path import Infeasible
            raise Infeasible()
        self.p.add(z)

    def lemma_pos(self, x):
        from fractions import Fraction
        x = self._lift(x)
        P, p = self.S.P, self.p
        assert not x.d and x.e is None
        lc = x.n[max(x.n)]
        mono = P.scale(x.n, Fraction(1) / lc)
        p.signs[frozenset(x.n.items())] = 1
        p.signs[frozenset(mono.items())] = 1 if lc > 0 else -1
        p.add(p.zpoly(x.n) > 0)

    def maximiser(self, point, X, score, label):
        """point is a row of X whose score no other score exceeds"""
        import z3
        X, point = self.N.obj(X), self.N.obj(point)
        score = [self._lift(s) for s in self.N.obj(score).ravel()]
        if point.shape != X[0].shape:
            self.fail(label, f"shape {point.shape}")
            return
        con = [s for s in score if s.isconst()]
        rivals = [s for s in score if not s.isconst()]
        if con:     # of the constants only the largest matters
            top = con[0]
            for s in con[1:]:
                if self.S._cmp(top, s, "<") is True:
                    top = s
            rivals.append(top)
        alts = []
        for x, s in zip(X, score):
            cs = []
            for a, b in zip(np.atleast_1d(x), np.atleast_1d(point)):
                c = self.S._cmp(self._lift(a), self._lift(b), "==")
                if c is False:
                    break
                cs.append(self.S.to_z3(c))
            else:
                for t in rivals:
                    c = True if t is s else self.S._cmp(t, s, "<=")
                    if c is False:
                        break
                    cs.append(self.S.to_z3(c))
                else:
                    alts.append(z3.And(*cs) if cs else z3.BoolVal(True))
        if not alts:
            alts = [z3.BoolVal(False)]
        self.p.obligation(z3.Not(z3.Or(*alts)), label, str(point))

    def minimiser(self, point, X, score, label):
        self.maximiser(point, X, [-self._lift(s) for s in self.N.obj(score).ravel()],
                       label)

    def sqrt(self, x):
        return self.N.sqrt(x) if isinstance(x, np.ndarray) else self.S.sqrt_(
            self.S.lift(x))

    def density(self, name, zero=False, args=()):
        name = self.prefix + name
        d = SymDensity(self, name, zero)
        self.densities[name] = d
        return d

    def kde(self, data, weights=None, bw=None):
        from scipy.stats import gaussian_kde
        return gaussian_kde(data, bw_method=bw, weights=weights)

    def svd(self, M, U, s, Vt):
        """tell the SVD stub the factorisation the harness built M from"""
        from .symlinalg import mat
        if not hasattr(self.p, "svds"):
            self.p.svds = []
        self.p.svds.append((mat(M), mat(U), [self.S.lift(x) for x in s], mat(Vt)))

    def patch_random(self):
        import mud.base  # noqa: F401  (scipy draws while it is imported)
        if self.rng is None:
            self.rng = RngFeed(self)
            self.cleanup.append(self.rng.restore)
        return self.rng

    def patch_plots(self):
        import mud.base  # noqa: F401  (sets matplotlib up)
        p = PlotPatch(self)
        self.cleanup.append(p.restore)
        return p

    def ax(self):
        return RecAx(self)

    # ---- obligations
    def _lift(self, x):
        v = self.S.lift(x)
        if v is None:
            raise TypeError(f"not a number: {type(x)}")
        return v

    def fail(self, label, detail=""):
        import z3
        self.p.obligation(z3.BoolVal(True), label, detail)

    def shape(self, a, shp, label):
        if tuple(np.shape(a)) != tuple(shp):
            self.fail(label, f"shape {np.shape(a)} expected {shp}")
            return False
        self.p.struct += 1
        return True

    def eq(self, a, b, label, shapes=True):
        import z3
        S, p = self.S, self.p
        try:
            A, B = self.N.obj(a), self.N.obj(b)
        except ValueError as e:
            self.fail(label, f"not an array: {e}")
            return
        if shapes and A.shape != B.shape:
            self.fail(label, f"shape {A.shape} expected {B.shape}")
            return
        if not shapes and A.shape != B.shape:
            try:
                A, B = np.broadcast_arrays(A, B)
            except ValueError:
                self.fail(label, f"shape {A.shape} expected {B.shape}")
                return
        for ix in np.ndindex(*A.shape):
            try:
                x, y = self._lift(A[ix]), self._lift(B[ix])
            except TypeError as e:
                self.fail(label, e)
                return
            if x.k == S.NAN and y.k == S.NAN:
                p.struct += 1
                continue
            lab = label
            self.eq1(x, y, lab)

    def eq1(self, x, y, label):
        import z3
        S, p = self.S, self.p
        if x.k == S.FIN and y.k == S.FIN and x.e is None and y.e is None:
            d = S.add(x, -y)
            if not d.n and x.isconst() and y.isconst():
                p.struct += 1
                return
            if not d.n:
                # identical after normalisation; let the solver confirm the two
                # cross-multiplied sides when they are small enough to send
                lhs = S.P.mul(x.n, den(y)) if len(x.n) < 200 else None
                rhs = S.P.mul(y.n, den(x)) if lhs is not None and len(y.n) < 200 else None
                if lhs is None or rhs is None or len(lhs) + len(rhs) > 300:
                    p.stats.normalised += 1
                    p.ob_ok(label)
                    return
                p.obligation(z3.Not(p.zpoly(lhs) == p.zpoly(rhs)), label,
                             f"{S.show(x)} vs {S.show(y)}", trivial=True)
                return
        p.obligation(z3.Not(S.zcmp(x, y, "==")), label,
                     f"{S.show(x)} expected {S.show(y)}")

    def le(self, a, b, label, op="<="):
        import z3
        A, B = np.broadcast_arrays(self.N.obj(a), self.N.obj(b))
        for ix in np.ndindex(*A.shape):
            x, y = self._lift(A[ix]), self._lift(B[ix])
            self.p.obligation(z3.Not(self.S.zcmp(x, y, op)), label,
                              f"{self.S.show(x)} {op} {self.S.show(y)}")

    def lt(self, a, b, label):
        self.le(a, b, label, "<")

    def true(self, c, label, detail=""):
        import z3
        if isinstance(c, np.ndarray):
            for x in c.ravel():
                self.true(x, label, detail)
            return
        self.p.obligation(z3.Not(self.S.to_z3(c)), label, detail)

    def implies(self, a, c, label):
        import z3
        self.p.obligation(z3.And(self.S.to_z3(a), z3.Not(self.S.to_z3(c))), label, "")

    def raises(self, exc, fn, label):
        from .sym import Unsupported
        try:
            r = fn()
        except Unsupported:
            raise
        except exc:
            self.p.struct += 1
            return
        except Exception as e:
            self.fail(label, f"raised {type(e).__name__}: {e}")
            return
        self.fail(label, f"no exception, returned {str(r)[:200]}")

    def holds(self, c):
        if isinstance(c, np.ndarray):
            return all(bool(x) for x in c.ravel())
        return bool(c)

    def close(self, a, b):
        return bool(self._lift(a) == self._lift(b))

    def num(self, x):
        return self.S.lift(x)

    def note(self, *a):
        self.p.notes.append(" ".join(str(x) for x in a))


def den(y):
    from . import poly as P
    from .sym import E
    d = P.const(1)
    for f, x in y.d:
        for _ in range(x):
            d = P.mul(d, E.p.factors[f])
    return d


class SymDensity:
    """an arbitrary density: an uninterpreted function, >0 (or >=0)"""

    def __init__(self, T, name, zero):
        self.T = T
        self.name = name
        self.zero = zero
        self.calls = 0

    def value(self, x):
        S = self.T.S
        x = S.lift(x)
        if x.k != S.FIN:
            return S.Sym(S.NAN)
        p = self.T.p
        return S.uf("density:" + self.name, [x], lambda: S.var(
            p.new_name("den_" + self.name), pos=not self.zero, nonneg=self.zero))

    def pdf(self, x, **kw):
        self.calls += 1
        return self.T.N.elementwise(self.value, self.T.N.from_any(x))

    def logpdf(self, x):
        S = self.T.S
        return self.T.N.elementwise(lambda v: S.log_(self.value(v)),
                                    self.T.N.from_any(x))

    def std(self):
        return self.T.const(1)

    def mean(self):
        return self.T.const(0)
