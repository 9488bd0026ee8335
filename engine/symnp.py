"""numpy over symbolic numbers.

SymArray is an object-dtype ndarray.  numpy's own object loops do the elementwise
work through Sym's operators; what they cannot do (dtype tests, argmax, linear
algebra, ...) is supplied here.  Nothing in this module is mud's code.
"""
import math
import sys
from fractions import Fraction

import numpy as np
import z3

from . import poly as P
from . import sym as S
from .sym import E, Sym, SymBool, Unsupported, lift

ND = np.ndarray
orig = {}           # patched numpy functions by dotted name


def isnarrow(t):
    """a floating type of fewer bits than double"""
    try:
        d = np.dtype(t)
    except TypeError:
        return False
    return d.kind == "f" and d.itemsize < 8


def narrow(a, t):
    """constants are rounded to the type (values that stay symbolic are not)"""
    o = obj(a)
    r = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(*o.shape):
        x = S.lift(o[ix])
        if x.k == S.FIN and x.isconst():
            v = float(np.dtype(t).type(float(x)))
            x = S.const(v) if v != float(x) else x
        r[ix] = x
    return wrap(r)


def whole(a, t):
    """conversion to whole numbers: towards zero"""
    o = obj(a)
    r = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(*o.shape):
        x = o[ix]
        x = lift(int(bool(x))) if isinstance(x, (SymBool, bool, np.bool_)) else _trunc(x)
        if x.k != S.FIN:
            return conc_array(a).astype(t)
        r[ix] = x
    if all(x.isconst() for x in r.ravel()):
        return np.array([int(x.constval()) for x in r.ravel()], dtype=t).reshape(r.shape)
    return wrap(r)


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return function(func, args, kw)

    def __array_finalize__(self, obj):
        pass

    # scalars come back as Sym, sub-arrays as SymArray
    def __getitem__(self, ix):
        r = ND.__getitem__(self, fixidx(ix))
        return r

    def __setitem__(self, ix, v):
        ND.__setitem__(self, fixidx(ix), v if isinstance(v, (ND, Sym)) else
                       base(from_any(v)) if isinstance(v, (list, tuple)) else v)

    def astype(self, t=None, *a, **k):
        t = k.pop("dtype", t)
        if t in (float, np.float64, object, "float", "float64", np.dtype(float),
                 np.dtype(object), None):
            return wrap(ND.copy(base(self)))
        if t in (bool, np.bool_):
            return np.array([bool(x) for x in self.ravel()]).reshape(self.shape)
        if isnarrow(t):
            return narrow(self, t)
        if t in (int, np.int64, np.dtype(int), "int", "int64") and E.active:
            return whole(self, t)
        return ND.astype(base(self), t)

    def argmax(self, axis=None, out=None, **k):
        return argext(self, axis, True, k.get("keepdims", False))

    def argmin(self, axis=None, out=None, **k):
        return argext(self, axis, False, k.get("keepdims", False))

    def max(self, axis=None, out=None, **k):
        return into(out, _amax(self, axis, **k))

    def min(self, axis=None, out=None, **k):
        return into(out, _amin(self, axis, **k))

    def ptp(self, axis=None, out=None, keepdims=False):
        return _ptp(self, axis, None, keepdims)

    def cumprod(self, axis=None, dtype=None, out=None):
        return _cumprod(self, axis)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return into(out, _sum(self, axis, **k))

    def prod(self, axis=None, dtype=None, out=None, **k):
        return into(out, _prod(self, axis, **k))

    def mean(self, axis=None, dtype=None, out=None, **k):
        return into(out, _mean(self, axis, **k))

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return into(out, _var(self, axis, ddof=ddof, **k))

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return into(out, _std(self, axis, ddof=ddof, **k))

    def round(self, decimals=0, out=None):
        return elementwise(lambda x: S.round_(lift(x), decimals), self)

    def clip(self, lo=None, hi=None, out=None, **k):
        lo, hi = k.get("min", lo), k.get("max", hi)
        r = self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r

    def dot(self, o, out=None):
        return dot(self, o)

    def conj(self):
        return wrap(base(self).copy())

    conjugate = conj

    def all(self, axis=None, out=None, **k):
        return np.all(truth(self), axis=axis, **_kd(k))

    def any(self, axis=None, out=None, **k):
        return np.any(truth(self), axis=axis, **_kd(k))

    def sort(self, axis=-1, **k):
        self[...] = sort(self, axis)

    def argsort(self, axis=-1, **k):
        return argsort(self, axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return wrap(np.add.accumulate(base(self).ravel() if axis is None
                                      else base(self), axis=axis or 0))

    def __contains__(self, x):
        return bool((self == x).any())

    def __bool__(self):
        if self.size == 1:
            return bool(base(self).ravel()[0])
        raise ValueError("The truth value of an array with more than one element "
                         "is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return float(base(self).ravel()[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def item(self, *a):
        return ND.item(self, *a)

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        # numpy's own C code reads the real dtype; Python code sees float64
        f = sys._getframe(1)
        if "/mud/" in f.f_code.co_filename:
            return np.dtype(float)
        return ND.dtype.__get__(self)

    def __repr__(self):
        return "Sym" + ND.__repr__(base(self))

    def __str__(self):
        return ND.__repr__(base(self))

    def __reduce__(self):
        return (from_nested, (base(self).tolist(),))

    def __deepcopy__(self, memo):
        return wrap(base(self).copy())


def from_nested(x):
    return from_any(x)


def _kd(k):
    return {"keepdims": k["keepdims"]} if "keepdims" in k else {}


def base(a):
    """plain object ndarray view"""
    return a.view(ND) if isinstance(a, ND) else a


def wrap(a):
    if type(a) is ND and a.dtype == object:
        return a.view(SymArray)
    if type(a) in (list,):
        return [wrap(x) for x in a]
    if type(a) is tuple:
        return tuple(wrap(x) for x in a)
    return a


def fixidx(ix):
    if type(ix) is tuple:
        return tuple(fixidx(i) for i in ix)
    if type(ix) is SymBool:
        return bool(ix)
    if isinstance(ix, SymArray):
        vals = [x for x in base(ix).ravel()]
        if vals and all(isinstance(x, (bool, np.bool_, SymBool)) for x in vals):
            return np.array([bool(x) for x in vals], dtype=bool).reshape(ix.shape)
        return np.array([int(x) for x in vals], dtype=int).reshape(ix.shape)
    if type(ix) is Sym:
        return int(ix)
    return ix


def has_sym(x, depth=0):
    if type(x) in (Sym, SymBool) or isinstance(x, SymArray):
        return True
    if type(x) is ND:
        return x.dtype == object and any(type(v) in (Sym, SymBool) for v in x.ravel())
    if type(x) in (list, tuple) and depth < 6:
        return any(has_sym(v, depth + 1) for v in x)
    if type(x) is dict and depth < 3:
        return any(has_sym(v, depth + 1) for v in x.values())
    return False


def from_list(vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a.view(SymArray)


def from_any(x):
    """np.array(x) for something containing Syms"""
    if isinstance(x, SymArray):
        return wrap(base(x).copy())
    if isinstance(x, ND):
        return wrap(x.astype(object))
    if type(x) is Sym or _scalar(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return wrap(a)
    if isinstance(x, (zip, map, range)) or hasattr(x, "__iter__"):
        parts = [from_any(v) for v in x]
        if not parts:
            return wrap(np.empty(0, dtype=object))
        shapes = {p.shape for p in parts}
        if len(shapes) != 1:
            raise ValueError("setting an array element with a sequence. The "
                             "requested array has an inhomogeneous shape")
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, q in enumerate(parts):
            out[i] = base(q) if q.ndim else q.item()
        return wrap(out)
    a = np.empty((), dtype=object)
    a[()] = x
    return wrap(a)


def _scalar(x):
    return isinstance(x, (int, float, Fraction, np.number, np.bool_)) or type(x) is SymBool


def obj(a):
    """object ndarray of anything array-like"""
    if isinstance(a, SymArray):
        return base(a)
    if isinstance(a, ND):
        return a.astype(object) if a.dtype != object else a
    return base(from_any(a))


def elementwise(f, *arrs):
    arrs = [obj(a) for a in arrs]
    if all(a.ndim == 0 for a in arrs):
        return f(*[a.item() for a in arrs])
    b = np.broadcast(*arrs)
    out = np.empty(b.shape, dtype=object)
    flat = out.reshape(-1) if out.size else out
    for i, vals in enumerate(b):
        flat[i] = f(*vals)
    out = flat.reshape(b.shape) if out.size else out
    return wrap(out)


def boolwise(f, *arrs):
    r = elementwise(f, *arrs)
    if isinstance(r, ND):
        return truth(r)
    return r


def truth(a):
    """bool array: forks on symbolic truth values"""
    a = obj(a)
    out = np.empty(a.shape, dtype=bool)
    fo = out.reshape(-1)
    for i, v in enumerate(a.ravel()):
        fo[i] = bool(v)
    return fo.reshape(a.shape)


# ---------------------------------------------------------------- ufuncs
def _max2(a, b):
    a, b = lift(a), lift(b)
    if a.k == S.NAN or b.k == S.NAN:
        return Sym(S.NAN)
    return b if bool(a < b) else a


def _min2(a, b):
    a, b = lift(a), lift(b)
    if a.k == S.NAN or b.k == S.NAN:
        return Sym(S.NAN)
    return b if bool(b < a) else a


def _fmax2(a, b):
    a, b = lift(a), lift(b)
    if a.k == S.NAN:
        return b
    if b.k == S.NAN:
        return a
    return _max2(a, b)


def _sgn(x):
    x = lift(x)
    if x.k == S.NAN:
        return x
    if bool(x > 0):
        return S.const(1)
    return S.const(-1) if bool(x < 0) else S.const(0)


def _isfin(x):
    return lift(x).k in (S.FIN, S.LOG)


def _trig(name):
    def f(x):
        x = lift(x)
        if x.isconst():
            return S.const(getattr(math, name)(float(x)))
        v = S.uf(name, [x])
        other = S.uf({"sin": "cos", "cos": "sin"}[name], [x])
        k = ("trig", x.key())
        if k not in E.p.uf:
            E.p.uf[k] = (v, ())
            E.p.lazy.append(S.zsym(v * v + other * other) == 1)
        return v
    return f


def _uf1(name, f, pos=False):
    def g(x):
        x = lift(x)
        if x.isconst():
            return S.const(f(float(x)))
        return S.uf(name, [x])
    return g


def _trunc(x):
    x = lift(x)
    return S.floor_(x) if bool(x >= 0) else -S.floor_(-x)


def _div0(a, b):
    return lift(a) / lift(b)


UFMAP = {
    "sqrt": (1, lambda x: S.sqrt_(lift(x))),
    "exp": (1, lambda x: S.exp_(lift(x))),
    "log": (1, lambda x: S.log_(lift(x))),
    "absolute": (1, lambda x: S.abs_(lift(x))),
    "fabs": (1, lambda x: S.abs_(lift(x))),
    "sign": (1, _sgn),
    "square": (1, lambda x: lift(x) * lift(x)),
    "reciprocal": (1, lambda x: S.const(1) / lift(x)),
    "conjugate": (1, lambda x: x),
    "positive": (1, lambda x: x),
    "rint": (1, lambda x: S.round_(lift(x))),
    "floor": (1, lambda x: S.floor_(lift(x))),
    "ceil": (1, lambda x: -S.floor_(-lift(x))),
    "sin": (1, _trig("sin")),
    "cos": (1, _trig("cos")),
    "tanh": (1, _uf1("tanh", math.tanh)),
    "log10": (1, lambda x: S.log_(lift(x)) / S.log_(S.const(10))),
    "log2": (1, lambda x: S.log_(lift(x)) / S.log_(S.const(2))),
    "log1p": (1, lambda x: S.log_(lift(x) + 1)),
    "expm1": (1, lambda x: S.exp_(lift(x)) - 1),
    "true_divide": (2, _div0),
    "divide": (2, _div0),
    "power": (2, lambda a, b: lift(a) ** lift(b)),
    "float_power": (2, lambda a, b: lift(a) ** lift(b)),
    "maximum": (2, _max2),
    "minimum": (2, _min2),
    "fmax": (2, _fmax2),
    "fmin": (2, lambda a, b: -_fmax2(-lift(a), -lift(b))),
    "trunc": (1, lambda x: _trunc(x)),
    "cbrt": (1, _uf1("cbrt", lambda v: math.copysign(abs(v) ** (1 / 3), v))),
    "exp2": (1, lambda x: S.exp_(lift(x) * S.log_(S.const(2)))),
    "deg2rad": (1, lambda x: lift(x) * S.const(math.pi / 180)),
    "radians": (1, lambda x: lift(x) * S.const(math.pi / 180)),
    "arctan": (1, _uf1("arctan", math.atan)),
    "tan": (1, _uf1("tan", math.tan)),
    "arcsin": (1, _uf1("arcsin", math.asin)),
    "arccos": (1, _uf1("arccos", math.acos)),
    "sinh": (1, lambda x: (S.exp_(lift(x)) - S.exp_(-lift(x))) / 2),
    "cosh": (1, lambda x: (S.exp_(lift(x)) + S.exp_(-lift(x))) / 2),
    "logaddexp": (2, lambda a, b: S.log_(S.exp_(lift(a)) + S.exp_(lift(b)))),
    "copysign": (2, lambda a, b: S.abs_(lift(a)) if bool(lift(b) >= 0)
                 else -S.abs_(lift(a))),
    "heaviside": (2, lambda a, b: S.ONE() if bool(lift(a) > 0)
                  else (S.ZERO() if bool(lift(a) < 0) else lift(b))),
    "fmod": (2, lambda a, b: lift(a) - lift(b) * _trunc(lift(a) / lift(b))),
    "hypot": (2, lambda a, b: S.sqrt_(lift(a) * a + lift(b) * b)),
}
BOOLMAP = {
    "signbit": (1, lambda x: lift(x) < 0),
    "isnan": (1, lambda x: lift(x).k == S.NAN),
    "isinf": (1, lambda x: lift(x).k in (S.PINF, S.NINF)),
    "isfinite": (1, _isfin),
    "less": (2, lambda a, b: lift(a) < lift(b)),
    "less_equal": (2, lambda a, b: lift(a) <= lift(b)),
    "greater": (2, lambda a, b: lift(a) > lift(b)),
    "greater_equal": (2, lambda a, b: lift(a) >= lift(b)),
    "logical_and": (2, lambda a, b: bool(a) and bool(b)),
    "logical_or": (2, lambda a, b: bool(a) or bool(b)),
    "logical_not": (1, lambda a: not bool(a)),
    "logical_xor": (2, lambda a, b: bool(a) != bool(b)),
}


def _eq(a, b):
    la, lb = lift(a) if not isinstance(a, str) else None, \
        lift(b) if not isinstance(b, str) else None
    if la is None or lb is None:
        return a is b
    return la == lb


BOOLMAP["equal"] = (2, _eq)
BOOLMAP["not_equal"] = (2, lambda a, b: not bool(_eq(a, b)))


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    dt = kw.pop("dtype", None)
    casting = kw.pop("casting", None)
    if dt is not None and np.dtype(dt).kind in "iu" and method != "at":
        # whole numbers are asked for
        if method == "__call__" and name in ("add", "subtract", "multiply") and \
                where is True and not out:
            return ufunc(uf, method, [whole(i, dt) for i in inputs], {})
        kw.update({"casting": casting} if casting else {}, dtype=dt)
        if out:
            kw["out"] = out
        return getattr(uf, method)(*[conc_array(i) for i in inputs], where=where, **kw)
    kw.pop("order", None)
    kw.pop("subok", None)
    if method == "__call__":
        if name == "matmul":
            r = matmul(*inputs)
        elif name in UFMAP:
            r = elementwise(UFMAP[name][1], *inputs)
        elif name in BOOLMAP:
            r = boolwise(BOOLMAP[name][1], *inputs)
            if not isinstance(r, ND) and type(r) is not SymBool:
                r = bool(r)
        elif name in ("add", "subtract", "multiply", "negative"):
            ins = [obj(i) for i in inputs]
            if all(i.ndim == 0 for i in ins):
                ins = [lift(i.item()) for i in ins]
                r = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b,
                     "multiply": lambda a, b: a * b, "negative": lambda a: -a}[name](*ins)
            else:
                r = wrap(uf(*ins))
        else:
            ins = [obj(i) if isinstance(i, ND) or type(i) in (list, tuple) else i
                   for i in inputs]
            ins = [wrap0(i) for i in ins]
            try:
                r = wrap(uf(*ins, **kw))
            except TypeError:
                # leave the encoding: concrete values
                r = uf(*[conc_array(i) for i in inputs], **kw)
        if where is not True:
            keep = obj(out[0]) if out else np.zeros(np.shape(r), dtype=object)
            r = wrap(np.where(truth(np.broadcast_to(obj(where), np.shape(r))),
                              obj(r), keep))
    elif method in ("reduce", "accumulate", "reduceat"):
        a = inputs[0]
        axis = kw.get("axis", 0)
        if name in ("maximum", "minimum") and method == "reduce":
            r = extreme(a, axis, name == "maximum", kw.get("keepdims", False))
        elif name in ("logical_and", "logical_or") and method == "reduce":
            r = getattr(uf, method)(truth(a), **kw)
        else:
            ins = [obj(a)] + list(inputs[1:])
            r = wrap(getattr(uf, method)(*ins, **kw))
    elif method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        r = ufunc(uf, "__call__",
                  (wrap(a.reshape(a.shape + (1,) * b.ndim)), wrap(b)), kw)
    elif method == "at":
        a = inputs[0]
        idx = inputs[1]
        vals = obj(inputs[2]) if len(inputs) > 2 else None
        for n, i in enumerate(np.atleast_1d(idx)):
            v = (vals.ravel()[n] if vals.ndim else vals.item())
            a[i] = uf(a[i], v)
        return None
    else:
        raise Unsupported(f"ufunc method {method}")
    if out is not None and out[0] is not None:
        o = out[0]
        if isinstance(o, SymArray):
            base(o)[...] = obj(r)
        elif o.dtype == object:
            o[...] = obj(r)
        else:
            o[...] = conc_array(r)
        return o
    return r


def wrap0(i):
    return i


def conc_array(a):
    """concrete float array (degrades the path)"""
    if isinstance(a, ND) and a.dtype == object or type(a) in (list, tuple):
        o = obj(a)
        vals = [float(x) if not isinstance(x, (SymBool, bool)) else bool(x)
                for x in o.ravel()]
        return np.array(vals).reshape(o.shape)
    if type(a) is Sym:
        return float(a)
    if type(a) is SymBool:
        return bool(a)
    return a


# ---------------------------------------------------------------- reductions
def _axis_iter(a, axis, f, keepdims=False):
    """apply f to 1-D object vectors along axis"""
    o = obj(a)
    if axis is None:
        r = f(o.ravel())
        if keepdims:
            z = np.empty((1,) * o.ndim, dtype=object)
            z.reshape(-1)[0] = r
            return wrap(z)
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(x % o.ndim for x in axes)
    rest = [i for i in range(o.ndim) if i not in axes]
    t = np.transpose(o, rest + list(axes)).reshape([o.shape[i] for i in rest] + [-1])
    out = np.empty(t.shape[:-1], dtype=object)
    for ix in np.ndindex(*t.shape[:-1]):
        out[ix] = f(t[ix])
    if keepdims:
        shp = [1 if i in axes else o.shape[i] for i in range(o.ndim)]
        out = out.reshape(shp)
    if out.ndim == 0:
        return out.item()
    return wrap(out)


def argext1(v, maxi):
    vals = [lift(x) for x in v]
    if not vals:
        raise ValueError("attempt to get argmax of an empty sequence")
    for i, x in enumerate(vals):
        if x.k == S.NAN:
            return i
    n = len(vals)
    if n == 1:
        return 0
    con = [i for i, x in enumerate(vals) if x.isconst()]
    if len(con) > 4 and len(con) < n:
        # of the constants only the first extreme one can be it
        cv = [vals[i].constval() for i in con]
        top = con[cv.index(max(cv) if maxi else min(cv))]
        keep = sorted([i for i in range(n) if not vals[i].isconst()] + [top])
        return keep[argext1([vals[i] for i in keep], maxi)]
    conds = []
    for i in range(n):
        cs = []
        dead = False
        for j in range(n):
            if i == j:
                continue
            a, b = (vals[j], vals[i]) if maxi else (vals[i], vals[j])
            # first maximiser: strict against earlier ones
            c = S.zcmp(a, b, "<" if j < i else "<=")
            c = z3.simplify(c)
            if z3.is_false(c):
                dead = True
                break
            if not z3.is_true(c):
                cs.append(c)
        conds.append(z3.BoolVal(False) if dead else
                     (z3.And(*cs) if cs else z3.BoolVal(True)))
    for i, c in enumerate(conds):
        if z3.is_true(c):
            return i
    live = [i for i, c in enumerate(conds) if not z3.is_false(c)]
    if len(live) == 1:
        return live[0]
    return live[E.p.choose([conds[i] for i in live])]


def argext(a, axis, maxi, keepdims=False):
    r = _axis_iter(a, axis, lambda v: argext1(v, maxi), keepdims)
    if isinstance(r, ND):
        return base(r).astype(np.int64)
    return np.int64(r)


def extreme(a, axis, maxi, keepdims=False):
    """max/min as a fresh value bounded by and equal to one of the entries"""
    def f(v):
        vals = [lift(x) for x in v]
        if not vals:
            raise ValueError("zero-size array to reduction operation maximum "
                             "which has no identity")
        if any(x.k == S.NAN for x in vals):
            return Sym(S.NAN)
        best = vals[0]
        if all(x.isconst() for x in vals):
            for x in vals[1:]:
                if (best < x) if maxi else (x < best):
                    best = x
            return best
        con = [x for x in vals if x.isconst()]
        if len(con) > 1:
            vals = [x for x in vals if not x.isconst()]
            vals.append((max if maxi else min)(con, key=lambda x: x.constval()))
        uniq = []
        for x in vals:
            if not any(S.same(x, u) for u in uniq):
                uniq.append(x)
        if len(uniq) == 1:
            return uniq[0]
        if len(uniq) <= 3 or any(u.k != S.FIN or u.e is not None for u in uniq):
            return uniq[argext1(uniq, maxi)]
        k = ("ext", maxi, frozenset(u.key() for u in uniq))
        if k not in E.p.uf:
            m = S.var(E.p.new_name("max" if maxi else "min"))
            for u in uniq:
                E.p.add(S.zcmp(u, m, "<=") if maxi else S.zcmp(m, u, "<="))
            E.p.add(z3.Or(*[S.zcmp(m, u, "==") for u in uniq]))
            E.p.uf[k] = (m, ())
        return E.p.uf[k][0]
    return _axis_iter(a, axis, f, keepdims)


def total(v):
    r = None
    for x in v:
        r = x if r is None else r + x
    return S.ZERO() if r is None else r


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
           where=None, **k):
    return _axis_iter(a, axis, total, keepdims)


def mean(a, axis=None, keepdims=False):
    return _axis_iter(a, axis, lambda v: lift(total(v)) / len(v), keepdims)


def var(a, axis=None, ddof=0, keepdims=False):
    def f(v):
        m = lift(total(v)) / len(v)
        return lift(total([(x - m) * (x - m) for x in v])) / (len(v) - ddof)
    return _axis_iter(a, axis, f, keepdims)


def sqrt(a):
    return elementwise(lambda x: S.sqrt_(lift(x)), a)


def sort1(v):
    import functools

    def c(a, b):
        a, b = lift(a), lift(b)
        return -1 if bool(a < b) else 1
    return sorted(range(len(v)), key=functools.cmp_to_key(
        lambda i, j: c(v[i], v[j]) if i < j else -c(v[j], v[i])))


def argsort(a, axis=-1):
    o = obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape, dtype=np.int64)
    for ix in np.ndindex(*m.shape[:-1]):
        out[ix] = sort1(list(m[ix]))
    return np.moveaxis(out, -1, axis)


def sort(a, axis=-1):
    o = obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    return wrap(np.take_along_axis(o, argsort(o, axis), axis))


def matmul(a, b, *_):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.shape[-1] != (b.shape[0] if b.ndim == 1 else b.shape[-2]):
        raise ValueError(
            f"matmul: Input operand 1 has a mismatch in its core dimension 0, "
            f"with gufunc signature (n?,k),(k,m?)->(n?,m?) (size "
            f"{b.shape[0] if b.ndim == 1 else b.shape[-2]} is different from "
            f"{a.shape[-1]})")
    r = np.matmul(a, b)
    return wrap(r) if isinstance(r, ND) else r


def dot(a, b):
    r = np.dot(obj(a), obj(b))
    return wrap(r) if isinstance(r, ND) else r


# ---------------------------------------------------------------- functions
FUNCS = {}


def implements(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def function(func, args, kw):
    name = getattr(func, "__name__", str(func))
    mod = getattr(func, "__module__", "") or ""
    key = ("linalg." if "linalg" in mod else "") + name
    h = FUNCS.get(key)
    if h is not None:
        return h(*args, **kw)
    return default(func, args, kw)


def strip(x, depth=0):
    if isinstance(x, SymArray):
        return base(x)
    if depth < 4 and type(x) is list:
        return [strip(v, depth + 1) for v in x]
    if depth < 4 and type(x) is tuple:
        return tuple(strip(v, depth + 1) for v in x)
    if type(x) is Sym:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def default(func, args, kw):
    """numpy's implementation over plain object arrays"""
    if "linalg" in (func.__module__ or "") or "fft" in (func.__module__ or ""):
        E.p.degraded.append(f"numpy function {func.__module__}.{func.__name__}")
        return func(*[conc_array(a) for a in args],
                    **{k: conc_array(v) for k, v in kw.items()})
    impl = getattr(func, "_implementation", func)
    a2 = [strip(a) for a in args]
    k2 = {k: strip(v) for k, v in kw.items()}
    try:
        r = impl(*a2, **k2)
    except (TypeError, AttributeError) as exc:
        try:
            ca = [conc_array(a) for a in args]
            ck = {k: conc_array(v) for k, v in kw.items()}
            E.p.degraded.append(f"numpy function {func.__name__}: {exc}")
            return impl(*ca, **ck)
        except TypeError:
            raise exc
    r = wrap(r)
    if isinstance(r, SymArray) and r.ndim == 0:
        return r.item()
    return r


def into(out, r):
    if out is None:
        return r
    o = out[0] if type(out) is tuple else out
    if isinstance(o, SymArray) or o.dtype == object:
        base(o)[...] = obj(r)
    else:
        o[...] = conc_array(r)
    return o


def masked(a, where):
    """entries left out by `where` become None"""
    if where is None or where is True:
        return a
    o = obj(a)
    return np.where(truth(np.broadcast_to(obj(where), o.shape)), o, None)


def nonan(a):
    o = obj(a)
    out = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(*o.shape):
        out[ix] = None if lift(o[ix]).k == S.NAN else o[ix]
    return out


def kept(f):
    def g(v):
        return f([x for x in v if x is not None])
    return g


def product(v):
    r = S.ONE()
    for x in v:
        r = r * x
    return r


@implements("sum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    f = total if initial is None else (lambda v: total([lift(initial)] + list(v)))
    return into(out, _axis_iter(masked(a, where), axis, kept(f), keepdims))


@implements("prod", "product")
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    f = product if initial is None else (lambda v: product([lift(initial)] + list(v)))
    return into(out, _axis_iter(masked(a, where), axis, kept(f), keepdims))


def mean1(v):
    return lift(total(v)) / len(v) if len(v) else Sym(S.NAN)


@implements("mean")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    return into(out, _axis_iter(masked(a, where), axis, kept(mean1), keepdims))


def var1(ddof):
    def f(v):
        if len(v) - ddof <= 0:
            return Sym(S.NAN)
        m = mean1(v)
        return lift(total([(x - m) * (x - m) for x in v])) / (len(v) - ddof)
    return f


@implements("var")
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None,
         mean=None, correction=None):
    if mean is not None:
        raise Unsupported("var with a given mean")
    ddof = ddof if correction is None else correction
    return into(out, _axis_iter(masked(a, where), axis, kept(var1(ddof)), keepdims))


@implements("std")
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return into(out, sqrt(_var(a, axis, ddof=ddof, keepdims=keepdims, **k)))


@implements("nansum")
def _nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return into(out, _axis_iter(nonan(a), axis, kept(total), keepdims))


@implements("nanprod")
def _nanprod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return into(out, _axis_iter(nonan(a), axis, kept(product), keepdims))


@implements("nanmean")
def _nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return into(out, _axis_iter(nonan(a), axis, kept(mean1), keepdims))


@implements("nanvar")
def _nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return into(out, _axis_iter(nonan(a), axis, kept(var1(ddof)), keepdims))


@implements("nanstd")
def _nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return into(out, sqrt(_nanvar(a, axis, ddof=ddof, keepdims=keepdims)))


def _ext(maxi, skipnan=False):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=None, **k):
        if initial is None and where is None and not skipnan:
            return into(out, extreme(a, axis, maxi, keepdims))

        def g(v):
            v = list(v) + ([lift(initial)] if initial is not None else [])
            return extreme(from_list(v), None, maxi) if v or not skipnan else Sym(S.NAN)
        a = masked(a, where)
        if skipnan:
            a = nonan(a)
        return into(out, _axis_iter(a, axis, kept(g), keepdims))
    return f


_amax = FUNCS["max"] = FUNCS["amax"] = _ext(True)
_amin = FUNCS["min"] = FUNCS["amin"] = _ext(False)
FUNCS["nanmax"] = _ext(True, True)
FUNCS["nanmin"] = _ext(False, True)


@implements("ptp")
def _ptp(a, axis=None, out=None, keepdims=False):
    return extreme(a, axis, True, keepdims) - extreme(a, axis, False, keepdims)


@implements("argmax")
def _argmax(a, axis=None, out=None, keepdims=False):
    return argext(a, axis, True, keepdims)


@implements("argmin")
def _argmin(a, axis=None, out=None, keepdims=False):
    return argext(a, axis, False, keepdims)


def _nanarg(maxi):
    def f(a, axis=None, **k):
        o = elementwise(lambda x: (Sym(S.NINF if maxi else S.PINF)
                                   if lift(x).k == S.NAN else lift(x)), a)
        return argext(o, axis, maxi)
    return f


FUNCS["nanargmax"] = _nanarg(True)
FUNCS["nanargmin"] = _nanarg(False)


@implements("average")
def _average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = wrap(obj(a))
    if weights is None:
        return mean(a, axis)
    w = obj(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights "
                            "differ.")
        if w.ndim != 1:
            raise TypeError("1D weights expected when shapes of a and weights differ.")
        if w.shape[0] != a.shape[axis]:
            raise ValueError("Length of weights not compatible with specified axis.")
        w = np.broadcast_to(w, (a.ndim - 1) * (1,) + w.shape).swapaxes(-1, axis)
    scl = np_sum(wrap(np.broadcast_to(w, a.shape)), axis)
    zero = boolwise(lambda x: lift(x) == 0, scl)
    if bool(np.any(zero)) if isinstance(zero, ND) else bool(zero):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = np_sum(elementwise(lambda x, y: lift(x) * y, a, wrap(w)), axis) / scl
    return (r, scl) if returned else r


@implements("dot")
def _dot(a, b, out=None):
    return dot(a, b)


@implements("outer")
def _outer(a, b, out=None):
    a, b = obj(a).ravel(), obj(b).ravel()
    return elementwise(lambda x, y: lift(x) * y, a.reshape(-1, 1), b.reshape(1, -1))


@implements("inner")
def _inner(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(lambda x, y: lift(x) * y, a, b)
    return dot(a, np.swapaxes(b, -1, -2) if b.ndim > 1 else b)


@implements("vdot")
def _vdot(a, b):
    return dot(obj(a).ravel(), obj(b).ravel())


@implements("einsum")
def _einsum(*ops, out=None, optimize=False, **k):
    r = np.einsum._implementation(*[strip(o) for o in ops], optimize=False)
    r = wrap(r)
    if isinstance(r, SymArray) and r.ndim == 0:
        return r.item()
    return r


@implements("round", "around", "round_")
def _round(a, decimals=0, out=None):
    return elementwise(lambda x: S.round_(lift(x), decimals), a)


@implements("sort")
def _sort(a, axis=-1, **k):
    return sort(a, axis)


@implements("argsort")
def _argsort(a, axis=-1, **k):
    return argsort(a, axis)


@implements("where")
def _where(c, *xy):
    c = truth(c)
    if not xy:
        return c.nonzero()
    x, y = obj(xy[0]), obj(xy[1])
    return wrap(np.where(c, x, y))


@implements("nonzero", "flatnonzero", "argwhere", "count_nonzero")
def _nonzero(a, **k):
    raise Unsupported("nonzero")


FUNCS["nonzero"] = lambda a: truth(a).nonzero()
FUNCS["flatnonzero"] = lambda a: np.flatnonzero(truth(a))
FUNCS["argwhere"] = lambda a: np.argwhere(truth(a))
FUNCS["count_nonzero"] = lambda a, **k: np.count_nonzero(truth(a), **k)


@implements("all")
def _all(a, axis=None, out=None, **k):
    return np.all(truth(a), axis=axis, **_kd(k))


@implements("any")
def _any(a, axis=None, out=None, **k):
    return np.any(truth(a), axis=axis, **_kd(k))


@implements("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = lift(x), lift(y)
        if x.k == S.NAN or y.k == S.NAN:
            return equal_nan and x.k == y.k
        if x.k in (S.PINF, S.NINF) or y.k in (S.PINF, S.NINF):
            return x.k == y.k
        d = x - y
        bound = atol + rtol * S.abs_(y)
        return (d <= bound) & (-d <= bound) if not d.isconst() or not bound.isconst() \
            else bool(S.abs_(d) <= bound)
    return boolwise(f, a, b)


@implements("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(_isclose(a, b, rtol, atol, equal_nan)))


@implements("array_equal")
def _array_equal(a, b, equal_nan=False):
    a, b = obj(a), obj(b)
    return a.shape == b.shape and bool(np.all(boolwise(_eq, a, b)))


@implements("isnan")
def _isnan(a, *k):
    return boolwise(lambda x: lift(x).k == S.NAN, a)


@implements("nan_to_num")
def _n2n(a, copy=True, nan=0.0, posinf=None, neginf=None):
    big = 1.7976931348623157e308

    def f(x):
        x = lift(x)
        if x.k == S.NAN:
            return lift(nan)
        if x.k == S.PINF:
            return lift(big if posinf is None else posinf)
        if x.k == S.NINF:
            return lift(-big if neginf is None else neginf)
        return x
    return elementwise(f, a)


@implements("clip")
def _clip(a, a_min=None, a_max=None, out=None, **k):
    return wrap(obj(a)).clip(a_min, a_max)


@implements("cumsum")
def _cumsum(a, axis=None, **k):
    return wrap(obj(a)).cumsum(axis)


@implements("cumprod")
def _cumprod(a, axis=None, **k):
    o = obj(a)
    return wrap(np.multiply.accumulate(o.ravel() if axis is None else o, axis=axis or 0))


@implements("linspace")
def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    div = (num - 1) if endpoint else num
    a, b = obj(start), obj(stop)
    step = elementwise(lambda x, y: (lift(y) - x) / div if div > 0 else Sym(S.NAN), a, b)
    rows = [elementwise(lambda x, y, i=i: lift(x) + (lift(y) - x) * Fraction(i, div)
                        if div > 0 else lift(x), a, b) for i in range(num)]
    r = from_any(rows)
    return (r, step) if retstep else r


@implements("diag")
def _diag(v, k=0):
    o = obj(v)
    if o.ndim == 1:
        n = o.shape[0] + abs(k)
        r = np.empty((n, n), dtype=object)
        r[...] = S.ZERO()
        for i, x in enumerate(o):
            r[(i, i + k) if k >= 0 else (i - k, i)] = x
        return wrap(r)
    return wrap(np.diagonal(o, k).copy())


@implements("trace")
def _trace(a, offset=0, *k, **kw):
    return total(np.diagonal(obj(a), offset))


@implements("cov")
def _cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None,
         **k):
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported("np.cov with weights")
    o = obj(m)
    o = o.reshape(1, -1) if o.ndim == 1 else o
    if not rowvar:
        o = o.T
    n = o.shape[1]
    dd = (0 if bias else 1) if ddof is None else ddof
    mu = mean(wrap(o), 1, True)
    x = wrap(o) - mu
    r = matmul(x, x.T) / (n - dd)
    return r.item() if r.size == 1 else r


@implements("full_like", "zeros_like", "ones_like", "empty_like")
def _like(*a, **k):
    raise Unsupported("like")


def _mk_like(fill):
    def f(a, *args, **k):
        shape = k.get("shape") or np.shape(a)
        dt = k.get("dtype")
        v = fill if fill != "arg" else (args[0] if args else k["fill_value"])
        if dt not in (None, float, object, np.float64):
            return np.full(shape, v, dtype=dt)
        r = np.empty(shape, dtype=object)
        r[...] = lift(v)
        return wrap(r)
    return f


FUNCS["zeros_like"] = _mk_like(0)
FUNCS["empty_like"] = _mk_like(0)
FUNCS["ones_like"] = _mk_like(1)
FUNCS["full_like"] = _mk_like("arg")


@implements("iscomplexobj")
def _isc(x):
    return False


@implements("isrealobj")
def _isr(x):
    return True


@implements("unique")
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None,
            **k):
    if axis is not None:
        raise Unsupported("unique axis")
    o = obj(a).ravel()
    order = sort1(list(o))
    vals, idx, inv, cnt = [], [], np.empty(len(o), dtype=int), []
    for i in order:
        if vals and bool(lift(vals[-1]) == o[i]):
            cnt[-1] += 1
        else:
            vals.append(o[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    res = [from_list(vals)]
    if return_index:
        res.append(np.array(idx))
    if return_inverse:
        res.append(inv)
    if return_counts:
        res.append(np.array(cnt))
    return res[0] if len(res) == 1 else tuple(res)


@implements("lexsort")
def _lexsort(keys, axis=-1):
    import functools
    keys = [obj(k) for k in keys]
    n = len(keys[0])

    def c(i, j):
        for k in reversed(keys):
            a, b = lift(k[i]), lift(k[j])
            if bool(a < b):
                return -1
            if bool(b < a):
                return 1
        return i - j
    return np.array(sorted(range(n), key=functools.cmp_to_key(c)))


@implements("can_cast")
def _cc(*a, **k):
    return True


@implements("array_repr", "array_str", "array2string")
def _repr(a, *k, **kw):
    return repr(base(a))


@implements("may_share_memory", "shares_memory")
def _sh(a, b, *k, **kw):
    return np.may_share_memory(base(a), base(b))


@implements("result_type", "common_type", "min_scalar_type")
def _rt(*a):
    return np.dtype(float)


def quantile1(v, q, method="linear"):
    if method != "linear":
        raise Unsupported("quantile method")
    vals = [lift(x) for x in v]
    if any(x.k == S.NAN for x in vals):
        return Sym(S.NAN)
    o = sort1(vals)
    h = Fraction(q) * (len(o) - 1)
    lo = int(h)
    hi = min(lo + 1, len(o) - 1)
    a, b = vals[o[lo]], vals[o[hi]]
    return a if h == lo else a + (b - a) * (h - lo)


def _quant(scale, skipnan=False):
    def f(a, q, axis=None, out=None, overwrite_input=False, method="linear",
          keepdims=False, **k):
        if has_sym(q):
            raise Unsupported("symbolic quantile")
        a = nonan(a) if skipnan else a
        if np.ndim(q) == 0:
            z = Fraction(float(q)) / scale
            return _axis_iter(a, axis, kept(lambda v: quantile1(v, z, method)), keepdims)
        return from_any([f(a, x, axis, method=method, keepdims=keepdims)
                         for x in np.ravel(q)])
    return f


FUNCS["quantile"] = _quant(1)
FUNCS["percentile"] = _quant(100)
FUNCS["nanquantile"] = _quant(1, True)
FUNCS["nanpercentile"] = _quant(100, True)


@implements("median")
def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _axis_iter(a, axis, lambda v: quantile1(v, Fraction(1, 2)), keepdims)


@implements("nanmedian")
def _nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False, **k):
    return _axis_iter(nonan(a), axis, kept(lambda v: quantile1(v, Fraction(1, 2))),
                      keepdims)


@implements("interp")
def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("periodic interpolation")
    xs, fs = [lift(v) for v in obj(xp).ravel()], [lift(v) for v in obj(fp).ravel()]

    def f(v):
        v = lift(v)
        if bool(v < xs[0]):
            return fs[0] if left is None else lift(left)
        if bool(v > xs[-1]):
            return fs[-1] if right is None else lift(right)
        for i in range(len(xs) - 1, 0, -1):
            if bool(v >= xs[i]):
                if i == len(xs) - 1:
                    return fs[i]
                return fs[i] + (fs[i + 1] - fs[i]) * (v - xs[i]) / (xs[i + 1] - xs[i])
        if len(xs) == 1:
            return fs[0]
        return fs[0] + (fs[1] - fs[0]) * (v - xs[0]) / (xs[1] - xs[0])
    return elementwise(f, x)


@implements("gradient")
def _gradient(f, *sp, axis=None, edge_order=1):
    o = obj(f)
    if o.ndim != 1 or edge_order != 1 or any(np.ndim(h) for h in sp):
        raise Unsupported("gradient")
    h = lift(sp[0]) if sp else S.ONE()
    n = len(o)
    return from_list([(lift(o[min(i + 1, n - 1)]) - o[max(i - 1, 0)])
                      / (h * (min(i + 1, n - 1) - max(i - 1, 0))) for i in range(n)])


@implements("histogram")
def _histogram(a, bins=10, range=None, density=None, weights=None):
    if np.ndim(bins) == 0 or has_sym(bins) or density or weights is not None:
        raise Unsupported("histogram")
    e = [float(b) for b in bins]
    cnt = [0] * (len(e) - 1)
    for x in obj(a).ravel():
        x = lift(x)
        for i in np.arange(len(cnt)):
            last = i == len(cnt) - 1
            if bool(x >= e[i]) and bool(x <= e[i + 1] if last else x < e[i + 1]):
                cnt[i] += 1
                break
    return np.array(cnt), np.asarray(bins)


@implements("bincount")
def _bincount(x, weights=None, minlength=0):
    ix = [int(v) for v in np.ravel(x)]
    w = obj(weights).ravel() if weights is not None else [1] * len(ix)
    out = [S.ZERO()] * max([minlength] + [i + 1 for i in ix])
    for i, v in zip(ix, w):
        out[i] = out[i] + v
    return from_list(out)


@implements("corrcoef")
def _corrcoef(x, y=None, rowvar=True, **k):
    if y is not None:
        x = np.vstack([np.atleast_2d(obj(x)), np.atleast_2d(obj(y))])
    c = obj(_cov(x, rowvar=rowvar))
    if c.ndim == 0:
        return S.ONE()
    d = [S.sqrt_(lift(c[i, i])) for i in range(len(c))]
    return from_any([[lift(c[i, j]) / (d[i] * d[j]) for j in range(len(c))]
                     for i in range(len(c))])


@implements("select")
def _select(condlist, choicelist, default=0):
    r = obj(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np.where(truth(c), obj(v), r)
    return wrap(r)


@implements("block")
def _block(x):
    def go(v, depth):
        if not isinstance(v, list):
            return obj(v)
        parts = [go(q, depth + 1) for q in v]
        nd = max([2 if nested else 1] + [q.ndim for q in parts])
        parts = [q.reshape((1,) * (nd - q.ndim) + q.shape) for q in parts]
        return np.concatenate(parts, axis=-1 - (height - depth - 1))

    def deep(v):
        return 1 + max((deep(q) for q in v), default=0) if isinstance(v, list) else 0
    height = deep(x)
    nested = height > 1
    return wrap(go(x, 0))


@implements("copyto")
def _copyto(dst, src, casting="same_kind", where=True):
    v = np.broadcast_to(obj(src), dst.shape)
    if where is not True:
        v = np.where(truth(np.broadcast_to(obj(where), dst.shape)), v, obj(dst))
    into(dst, wrap(v))


@implements("geomspace")
def _geomspace(start, stop, num=50, endpoint=True, **k):
    return elementwise(lambda v: S.exp_(lift(v)),
                       _linspace(elementwise(lambda v: S.log_(lift(v)), start),
                                 elementwise(lambda v: S.log_(lift(v)), stop),
                                 num, endpoint))
