"""Install the symbolic environment around mud (numpy, scipy, sklearn).

Every stub answers from its documented contract when a symbolic value is involved
and defers to the real library otherwise.  mud itself is never edited.
"""
import os
import sys
from fractions import Fraction

import numpy as np

from . import sym as S
from . import symlinalg as L
from . import symnp as N
from .sym import E, Sym, Unsupported, lift
from .symnp import has_sym, obj, wrap

REPO = os.environ.get("VERIF_REPO", "/repo")
MUD = os.path.join(REPO, "src", "mud") + os.sep


def from_mud(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(MUD)


# the encodings themselves call the real numpy (over plain object arrays)
OWN = (N.__file__, L.__file__)

# answered exactly for whole numbers too where a configuration has arrays of integer type
EXACT = {("linalg.", n) for n in ("inv", "pinv", "solve", "det", "lstsq")} | {
    ("", n) for n in ("mean", "std", "var", "average")}

FLOATS = (None, float, np.float64, "float", "float64", "f8", object, "O")


def _isfloat(dt):
    if dt in FLOATS:
        return True
    try:
        return np.dtype(dt).kind in "fO"
    except TypeError:
        return False


def install():
    if N.orig:
        return
    N.orig["np.linalg.svd"] = np.linalg.svd
    N.orig["np.linalg.pinv"] = np.linalg.pinv
    for nm in ("array", "asarray", "asanyarray", "ascontiguousarray", "zeros", "ones",
               "empty", "full", "eye", "identity", "isscalar", "finfo", "frombuffer",
               "asfarray", "array_equal", "ndarray"):
        N.orig[nm] = getattr(np, nm)
    o = N.orig

    def mk_array(name):
        real = o[name]

        def array(*args, **kw):
            if not E.active:
                return real(*args, **kw)
            a = args[0] if args else kw.get("object", kw.get("a"))
            dt = kw.get("dtype", args[1] if len(args) > 1 else None)
            if has_sym(a):
                if name != "array" and isinstance(a, N.SymArray) and _isfloat(dt) and \
                        not (dt is not None and N.isnarrow(dt)):
                    return a
                if isinstance(a, (set, frozenset)):
                    return real(*args, **kw)
                if not _isfloat(dt):
                    kind = np.dtype(dt).kind
                    if np.dtype(dt) == np.dtype(int):
                        return N.whole(a, dt)
                    r = N.conc_array(a) if kind != "b" else N.truth(a)
                    return real(r, dtype=dt)
                if N.isnarrow(dt) and dt is not None:
                    r = N.narrow(a, dt)
                elif name == "array" and kw.get("copy") is False and \
                        isinstance(a, N.SymArray):
                    r = a
                else:
                    r = N.from_any(a)
                nd = kw.get("ndmin", 0)
                while r.ndim < nd:
                    r = r[None]
                return r
            r = real(*args, **kw)
            if type(r) is np.ndarray and r.dtype.kind == "f" and r.size <= 2000 and \
                    from_mud():
                if name == "array" or not isinstance(a, np.ndarray):
                    return exact(r)
            return r
        return array

    for nm in ("array", "asarray", "asanyarray", "ascontiguousarray"):
        setattr(np, nm, mk_array(nm))

    def mk_fill(name, val):
        real = o[name]

        def f(*args, **kw):
            if E.active and from_mud():
                dt = kw.get("dtype", args[1] if len(args) > 1 and name != "full"
                            else None)
                if name == "full" and len(args) > 2:
                    dt = args[2]
                if _isfloat(dt):
                    shape = args[0] if args else kw["shape"]
                    v = val
                    if name == "full":
                        v = args[1] if len(args) > 1 else kw["fill_value"]
                        if dt is None and isinstance(v, (bool, int)) and \
                                type(v) is not Sym:
                            return real(*args, **kw)
                    r = np.ndarray(shape, dtype=object)
                    vv = obj(v)
                    if vv.ndim:
                        r[...] = vv
                    else:
                        r[...] = lift(vv.item())
                    return wrap(r)
            elif E.active and name == "full" and has_sym(list(args) +
                                                        list(kw.values())):
                r = np.ndarray(args[0], dtype=object)
                r[...] = obj(args[1] if len(args) > 1 else kw["fill_value"])
                return wrap(r)
            return real(*args, **kw)
        return f

    for nm, v in (("zeros", 0), ("ones", 1), ("empty", 0), ("full", None)):
        setattr(np, nm, mk_fill(nm, v))

    def mk_eye(name):
        real = o[name]

        def f(*args, **kw):
            r = real(*args, **kw)
            if E.active and from_mud() and r.dtype.kind == "f":
                return exact(r)
            return r
        return f

    np.eye = mk_eye("eye")
    np.identity = mk_eye("identity")

    def isscalar(x):
        return True if type(x) in (Sym, S.SymBool) else o["isscalar"](x)
    np.isscalar = isscalar

    class finfo(o["finfo"]):
        def __new__(cls, dt):
            try:
                if type(dt) is Sym or np.dtype(dt).kind == "O":
                    dt = float
            except TypeError:
                pass
            return o["finfo"](dt)
    np.finfo = finfo

    # functions that numpy cannot dispatch on (scalar Sym or nested lists of Syms)
    def mk_disp(modname, mod, nm):
        real = getattr(mod, nm)

        whole = (modname, nm) in EXACT

        def f(*args, **kw):
            if whole and E.exact and E.active and args and type(args[0]) is np.ndarray \
                    and args[0].dtype.kind in "iuf" and args[0].size \
                    and "/mud/" in sys._getframe(1).f_code.co_filename:
                args = (N.from_any(args[0]),) + args[1:]
            if E.active and (has_sym(list(args)) or has_sym(kw)) and \
                    sys._getframe(1).f_code.co_filename not in OWN:
                h = N.FUNCS.get(modname + nm)
                if h is not None:
                    return h(*args, **kw)
                a2 = [N.from_any(a) if type(a) in (list, tuple) and has_sym(a) and
                      nm not in ("vstack", "hstack", "concatenate", "stack",
                                 "column_stack", "broadcast_arrays", "meshgrid",
                                 "block", "row_stack", "dstack")
                      else ([N.from_any(v) for v in a]
                            if type(a) in (list, tuple) and has_sym(a) else a)
                      for a in args]
                return N.default(real, a2, kw)
            return real(*args, **kw)
        f.__name__ = nm
        f.__module__ = getattr(real, "__module__", "numpy")
        f._implementation = getattr(real, "_implementation", real)
        setattr(mod, nm, f)

    skip = {"array", "zeros", "ones", "empty", "full", "isscalar"}
    names = [k[0:] for k in N.FUNCS if not k.startswith("linalg.")]
    names += ["vstack", "hstack", "concatenate", "stack", "column_stack", "meshgrid",
              "reshape", "ravel", "transpose", "atleast_1d", "atleast_2d", "tile",
              "repeat", "squeeze", "expand_dims", "swapaxes", "broadcast_to", "shape",
              "ndim", "size", "diff", "kron", "append", "flip", "roll", "split",
              "array_split", "triu", "tril", "insert", "delete", "take", "moveaxis",
              "cross", "block", "dstack", "row_stack", "diagonal", "apply_along_axis",
              "nan_to_num", "logspace", "rot90", "fliplr", "flipud", "resize",
              "take_along_axis", "compress", "extract", "searchsorted", "copy",
              "tensordot", "fill_diagonal", "select", "piecewise", "vectorize"]
    for nm in sorted(set(names)):
        if nm in skip or not hasattr(np, nm) or isinstance(getattr(np, nm), type):
            continue
        mk_disp("", np, nm)
    for nm in [k[7:] for k in N.FUNCS if k.startswith("linalg.")]:
        if hasattr(np.linalg, nm):
            mk_disp("linalg.", np.linalg, nm)
    import scipy.linalg as sl
    for nm in ("inv", "pinv", "solve", "det", "norm", "svd", "svdvals", "null_space",
               "lstsq", "eigh", "eigvalsh", "qr", "block_diag"):
        mk_disp("linalg.", sl, nm)
    for nm in ("cholesky", "cho_factor", "cho_solve", "solve_triangular"):
        mk_disp("linalg.sl.", sl, nm)
    import scipy.spatial.distance as sd
    mk_disp("linalg.sl.", sd, "cdist")

    class vectorize(np.vectorize):
        def __call__(self, *args, **kw):
            if E.active and has_sym(list(args)) and not kw and \
                    not getattr(self, "signature", None):
                return N.elementwise(self.pyfunc, *args)
            return super().__call__(*args, **kw)
    np.vectorize = vectorize
    real_fi = np.fromiter

    def fromiter(it, *args, **kw):
        if E.active and from_mud():
            it = list(it)
            if has_sym(it):
                return N.from_list(it)
        return real_fi(it, *args, **kw)
    np.fromiter = fromiter

    # ufuncs called on bare Sym dispatch through Sym.__array_ufunc__; on nested
    # lists of Syms numpy would build object arrays itself:
    import math
    for nm, fn in (("sqrt", S.sqrt_), ("exp", S.exp_), ("log", S.log_),
                   ("fabs", S.abs_), ("floor", S.floor_)):
        real = getattr(math, nm)

        def g(x, *a, _r=real, _f=fn):
            if type(x) is Sym and E.active:
                return _f(x)
            return _r(x, *a)
        setattr(math, nm, g)
    for nm, fn in (("pow", lambda a, b: lift(a) ** lift(b)),
                   ("hypot", lambda *v: S.sqrt_(N.total([lift(x) * x for x in v]))),
                   ("fmod", lambda a, b: N.UFMAP["fmod"][1](a, b))):
        def g2(*a, _r=getattr(math, nm), _f=fn):
            return _f(*a) if E.active and has_sym(list(a)) else _r(*a)
        setattr(math, nm, g2)
    rf = math.fsum

    def fsum(it):
        it = list(it)
        return N.total(it) if has_sym(it) else rf(it)
    math.fsum = fsum
    rp = math.prod

    def prod(it, *, start=1):
        it = list(it)
        if has_sym(it):
            r = lift(start)
            for x in it:
                r = r * x
            return r
        return rp(it, start=start)
    math.prod = prod
    rn = math.isnan
    math.isnan = lambda x: (x.k == S.NAN) if type(x) is Sym else rn(x)
    rfin = math.isfinite
    math.isfinite = lambda x: (x.k in (S.FIN, S.LOG)) if type(x) is Sym else rfin(x)
    rcl = math.isclose
    math.isclose = lambda a, b, **k: (
        bool(N._isclose(a, b, k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)))
        if has_sym([a, b]) else rcl(a, b, **k))

    install_stats()
    install_sklearn()
    install_special()
    install_random()
    install_import()


def exact(r):
    out = np.ndarray(r.shape, dtype=object)
    fo = out.reshape(-1) if out.size else out
    for i, v in enumerate(r.ravel()):
        fo[i] = S.const(float(v))
    return wrap(fo.reshape(r.shape) if out.size else out)


# ---------------------------------------------------------------- scipy.stats
def sqrt2pi():
    p = E.p
    v = S.var("sqrt2pi", pos=True)
    if not getattr(p, "s2pi", False):
        p.s2pi = True
        p.add(S.zcmp(S.const(Fraction(25066, 10000)), v, "<"))
        p.add(S.zcmp(v, S.const(Fraction(25067, 10000)), "<"))
    return v


def pdf_scalar(name, shapes, x, loc, scale):
    x, loc, scale = lift(x), lift(loc), lift(scale)
    if not bool(scale > 0):
        return Sym(S.NAN)
    if name == "uniform":
        if bool(x >= loc) and bool(x <= loc + scale):
            return S.const(1) / scale
        return S.ZERO()
    z = (x - loc) / scale
    if name == "norm":
        return S.exp_(-(z * z) / 2) / (scale * sqrt2pi())
    v = S.uf("pdf_" + name, [z] + [lift(s) for s in shapes],
             lambda: S.var(E.p.new_name("pdf_" + name), pos=True))
    return v / scale


def logpdf_scalar(name, shapes, x, loc, scale):
    return S.log_(pdf_scalar(name, shapes, x, loc, scale))


def cdf_scalar(name, shapes, x, loc, scale):
    x, loc, scale = lift(x), lift(loc), lift(scale)
    z = (x - loc) / scale
    if name == "uniform":
        return N._max2(N._min2(z, S.ONE()), S.ZERO())
    return S.uf("cdf_" + name, [z] + [lift(s) for s in shapes],
                lambda: S.var(E.p.new_name("cdf_" + name), pos=True))


def install_stats():
    from scipy.stats import _distn_infrastructure as di
    import scipy.stats as st

    def patch(meth, scalar):
        real = getattr(di.rv_continuous, meth)

        def f(self, x, *args, **kw):
            if E.active and (has_sym(x) or has_sym(list(args)) or has_sym(kw)):
                shapes, loc, scale = self._parse_args(*args, **kw)
                return N.elementwise(
                    lambda a, l, s, *sh: scalar(self.name, sh, a, l, s),
                    N.from_any(x), N.from_any(loc), N.from_any(scale),
                    *[N.from_any(h) for h in shapes])
            return real(self, x, *args, **kw)
        setattr(di.rv_continuous, meth, f)
    patch("pdf", pdf_scalar)
    patch("logpdf", logpdf_scalar)
    patch("cdf", cdf_scalar)

    def mk(meth, fun):
        real = getattr(di.rv_generic, meth)

        def f(self, *args, **kw):
            if E.active and (has_sym(list(args)) or has_sym(kw)):
                shapes, loc, scale = self._parse_args(*args, **kw)
                return fun(self.name, loc, scale)
            return real(self, *args, **kw)
        setattr(di.rv_generic, meth, f)

    def stdf(name, loc, scale):
        if name == "norm":
            return scale
        if name == "uniform":
            return scale / S.sqrt_(S.const(12))
        raise Unsupported("std of " + name)

    def meanf(name, loc, scale):
        if name == "norm":
            return loc
        if name == "uniform":
            return loc + scale / 2
        raise Unsupported("mean of " + name)
    mk("std", stdf)
    mk("mean", meanf)

    real_kde = st.gaussian_kde

    class gaussian_kde(real_kde):
        def __init__(self, dataset, bw_method=None, weights=None):
            self._sym = E.active and (has_sym(dataset) or has_sym(weights))
            if not self._sym:
                real_kde.__init__(self, dataset, bw_method, weights)
                return
            ds = N.from_any(dataset)
            if ds.ndim < 2:
                ds = ds.reshape(1, -1)
            self.dataset = ds
            if not ds.size > 1:
                raise ValueError("`dataset` input should have multiple elements.")
            self.d, self.n = ds.shape
            self.bw = bw_method
            if weights is not None:
                w = N.from_any(weights)
                w = w.reshape(1) if w.ndim == 0 else w
                tot = N.np_sum(w)
                w = w / tot
                if w.ndim != 1:
                    raise ValueError("`weights` input should be one-dimensional.")
                if len(w) != self.n:
                    raise ValueError("`weights` input should be of length n")
                if any(lift(x).k != S.FIN for x in obj(w)):
                    raise ValueError("array must not contain infs or NaNs")
                self._w = w
            else:
                self._w = wrap(N.obj([Fraction(1, self.n)] * self.n))
            if self.d > self.n:
                raise ValueError("Number of dimensions is greater than number of "
                                 "samples.")
            items = []
            for j in range(self.n):
                wj = lift(obj(self._w)[j])
                if wj.k == S.FIN and not wj.n:
                    continue
                items.append([lift(x) for x in obj(ds)[:, j]] + [wj])
            items.sort(key=lambda it: [stable_key(x) for x in it])
            self._args = [x for it in items for x in it]
            self._name = f"kde{self.d}x{len(items)}[{bw_key(bw_method)}]"
            kdes = getattr(E.p, "kdes", None)
            if kdes is None:
                kdes = E.p.kdes = []
            kdes.append(self)

        @property
        def weights(self):
            return self._w if self._sym else real_kde.weights.fget(self)

        def evaluate(self, points):
            if not self._sym:
                if has_sym(points) and E.active:
                    raise Unsupported("concrete KDE at symbolic points")
                return real_kde.evaluate(self, points)
            pts = N.from_any(points)
            if pts.ndim == 0:
                pts = pts.reshape(1)
            if pts.ndim == 1:
                pts = pts.reshape(1, -1)
            d, m = pts.shape
            if d != self.d:
                if d == 1 and m == self.d:
                    pts = pts.reshape(self.d, 1)
                    m = 1
                else:
                    raise ValueError(f"points have dimension {d}, dataset has dimension "
                                     f"{self.d}")
            out = []
            for j in range(m):
                out.append(S.uf(self._name, self._args + [lift(x) for x in
                                                          obj(pts)[:, j]],
                                lambda: S.var(E.p.new_name("kde"), pos=True)))
            return N.from_list(out)

        __call__ = evaluate

        def pdf(self, x):
            return self.evaluate(x)

        def logpdf(self, x):
            r = self.evaluate(x)
            return np.log(r)

    gaussian_kde.__name__ = "gaussian_kde"
    st.gaussian_kde = gaussian_kde
    st._kde.gaussian_kde = gaussian_kde
    try:
        st.kde.gaussian_kde = gaussian_kde
    except AttributeError:
        pass


def stable_key(x):
    """text that is the same for equal terms"""
    if x.k != S.FIN or x.e is not None:
        return repr(x.key())
    return repr((sorted(x.n.items(), key=repr), x.d))


def bw_key(bw):
    if bw is None or isinstance(bw, str):
        return str(bw or "scott")
    if type(bw) is Sym:
        return stable_key(bw)
    if callable(bw):
        return f"callable{id(bw)}"
    return repr(float(bw))


# ---------------------------------------------------------------- sklearn
def install_sklearn():
    from sklearn.decomposition import PCA
    from sklearn.preprocessing import StandardScaler

    def key_of(a):
        o = obj(a)
        return (o.shape, tuple(lift(x).key() for x in o.ravel()))

    def opaque(tag, a, shape):
        p = E.p
        k = ("opaque", tag, key_of(a), shape)
        if k not in p.uf:
            b = p.new_name(tag)
            n = int(np.prod(shape))
            r = wrap(obj([S.var(f"{b}.{i}") for i in range(n)]).reshape(shape))
            p.uf[k] = (r, ())
        return wrap(obj(p.uf[k][0]).copy())

    r_ft = StandardScaler.fit_transform
    r_fit = StandardScaler.fit
    r_tr = StandardScaler.transform

    def scaled(self, X):
        return opaque(f"scaled[{int(bool(self.with_mean))}{int(bool(self.with_std))}]",
                      X, obj(X).shape)

    def ss_fit_transform(self, X, y=None, **k):
        if E.active and has_sym(X):
            self._symfit = X
            return scaled(self, X)
        return r_ft(self, X, y, **k)

    def ss_fit(self, X, y=None, **k):
        if E.active and has_sym(X):
            self._symfit = X
            return self
        return r_fit(self, X, y, **k)

    def ss_tr(self, X, *a, **k):
        if E.active and has_sym(X):
            F = getattr(self, "_symfit", None)
            if F is None or key_of(F) != key_of(X):
                raise Unsupported("scaler applied to other data")
            return scaled(self, X)
        return r_tr(self, X, *a, **k)
    StandardScaler.fit_transform = ss_fit_transform
    StandardScaler.fit = ss_fit
    StandardScaler.transform = ss_tr

    p_ft = PCA.fit_transform
    p_fit = PCA.fit
    p_tr = PCA.transform

    def pca_fit(self, X):
        n, d = obj(X).shape
        k = min(n, d) if self.n_components is None else self.n_components
        if k > min(n, d):
            raise ValueError(f"n_components={k} must be between 0 and min(n_samples, "
                             f"n_features)={min(n, d)} with svd_solver='full'")
        tag = f"pca[{k},{self.whiten}]"
        self.components_ = opaque(tag + "c", X, (k, d))
        self.explained_variance_ = opaque(tag + "v", X, (k,))
        self.explained_variance_ratio_ = opaque(tag + "r", X, (k,))
        self.singular_values_ = opaque(tag + "s", X, (k,))
        self.mean_ = N.mean(X, 0)
        self.n_components_ = k
        self._symfit = X
        return opaque(tag + "t", X, (n, k))

    def pca_fit_transform(self, X, y=None):
        if E.active and has_sym(X):
            return pca_fit(self, X)
        return p_ft(self, X, y)

    def pca_fit_(self, X, y=None):
        if E.active and has_sym(X):
            pca_fit(self, X)
            return self
        return p_fit(self, X, y)

    def pca_tr(self, X):
        if E.active and has_sym(X):
            if key_of(self._symfit) != key_of(X):
                raise Unsupported("PCA applied to other data")
            return pca_fit(self, X)
        return p_tr(self, X)
    PCA.fit_transform = pca_fit_transform
    PCA.fit = pca_fit_
    PCA.transform = pca_tr


def install_special():
    import scipy.special as sp
    real = sp.erfinv

    def erfinv(x, *a, **k):
        if E.active and has_sym(x):
            def f(v):
                v = lift(v)
                r = S.uf("erfinv", [v])
                # odd, increasing, erfinv(0) = 0, infinite only at +-1
                E.p.lazy.append((S.zsym(r) > 0) == (S.zsym(v) > 0))
                E.p.lazy.append((S.zsym(r) < 0) == (S.zsym(v) < 0))
                return r
            return N.elementwise(f, N.from_any(x))
        return real(x, *a, **k)
    sp.erfinv = erfinv
    real_lse = sp.logsumexp

    def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
        if E.active and has_sym([a, b]) and not return_sign:
            x = N.elementwise(lambda v: S.exp_(lift(v)), N.from_any(a))
            if b is not None:
                x = x * N.from_any(b)
            r = N._sum(x, axis, keepdims=keepdims)
            return N.elementwise(lambda v: S.log_(lift(v)), r)
        return real_lse(a, axis=axis, b=b, keepdims=keepdims, return_sign=return_sign)
    sp.logsumexp = logsumexp
    import scipy.stats as st
    del st


def quiet(f):
    """compiled generators fill arrays made by np.empty: keep those plain"""
    def g(*a, **k):
        was = E.active
        if was and has_sym(list(a) + list(k.values())):
            raise S.Unsupported("random draw with symbolic parameters")
        E.active = False
        try:
            return f(*a, **k)
        finally:
            E.active = was
    g.__name__ = getattr(f, "__name__", "draw")
    return g


class QuietGenerator:
    def __init__(self, g):
        self._g = g

    def __getattr__(self, name):
        v = getattr(self._g, name)
        return quiet(v) if callable(v) else v


def install_random():
    for nm in dir(np.random):
        f = getattr(np.random, nm)
        if nm.startswith("_") or isinstance(f, type) or not callable(f):
            continue
        if nm != "default_rng":
            setattr(np.random, nm, quiet(f))
    real = np.random.default_rng

    def default_rng(*a, **k):
        g = quiet(real)(*a, **k)
        return QuietGenerator(g) if from_mud() else g
    np.random.default_rng = default_rng


def sfloat(*a):
    """float(x) that keeps a symbolic number symbolic"""
    if E.active and len(a) == 1 and has_sym(a[0]):
        x = obj(a[0])
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return lift(x.reshape(-1)[0])
    return np.float64(*a) if a and np.ndim(a[0]) else float(*a)


def install_import():
    """mud's source is read afresh, and its float(...) calls go through sfloat"""
    import ast
    import builtins
    from importlib.machinery import SourceFileLoader
    builtins._verif_float = sfloat
    real = SourceFileLoader.get_code

    class Calls(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Name) and f.id == "float" or \
                    isinstance(f, ast.Attribute) and f.attr in ("float64", "double") and \
                    isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy"):
                n.func = ast.copy_location(ast.Name("_verif_float", ast.Load()), n.func)
            return n

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if not path.startswith(MUD):
            return real(self, fullname)
        tree = Calls().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, "exec",
                       dont_inherit=True)
    SourceFileLoader.get_code = get_code
