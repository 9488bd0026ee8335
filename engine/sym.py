"""Symbolic numbers: exact rational functions with forking comparisons.

A finite Sym is num/den * exp(q): num a polynomial, den a product of monic
factors that are nonzero on the current path, q (optional) an exponent.  Extended
real kinds: nan, +inf, -inf; `log` holds log(positive Sym).
"""
import math
from fractions import Fraction

import z3

from . import poly as P
from .path import Path, Signal, to_fraction

FIN, NAN, PINF, NINF, LOG = range(5)


class Hub:
    """Holds the current Path; everything else reads E.p."""
    p = None
    active = False          # symbolic mode on (numpy wrappers look at this)
    exact = False           # whole numbers are answered exactly too (integer arrays given)


E = Hub()


class Unsupported(Exception):
    """The encoding does not cover this operation (degrades the path)."""


# ---------------------------------------------------------------- constants
_small = {}


def snap(f):
    """exact real number meant by a float literal: (Fraction, radicand or None)"""
    if f in _small:
        return _small[f]
    r = Fraction(repr(f)) if abs(f) < 1e300 else Fraction(f)
    digits = len(str(abs(r.numerator)).strip("0")) if r else 1
    out = None
    if digits <= 12:
        out = (r, None)
    else:
        ex = Fraction(f)
        g = ex.limit_denominator(100000)
        if g and abs(g - ex) <= abs(ex) * Fraction(5, 10**16):
            out = (g, None)
        else:
            sq = ex * ex
            g = sq.limit_denominator(100000)
            if g and abs(g - sq) <= sq * Fraction(10, 10**16):
                out = (g, 1 if f > 0 else -1)
    if out is None:
        out = (Fraction(f), None)
    _small[f] = out
    return out


def _squarefree(n):
    """n = k*k*m with m squarefree (small n)"""
    k, m, d = 1, n, 2
    while d * d <= m and d < 100000:
        while m % (d * d) == 0:
            m //= d * d
            k *= d
        d += 1
    return k, m


def sqrt_int(n):
    """sqrt of a nonnegative integer as a polynomial in prime roots"""
    k, m = _squarefree(n)
    p = P.const(k)
    d = 2
    while m > 1:
        if d * d > m:
            d = m
        if m % d == 0:
            m //= d
            i = root_var(f"sqrt{d}", P.const(d), True)
            p = P.mul(p, P.variable(i))
        else:
            d += 1
    return p


def root_var(name, square, positive):
    new = name not in P.REG.index
    i = P.REG.algebraic(name, square)
    if new:
        z = E.p.zvar(i)
        E.p.pc.append(z * z == E.p.zpoly(square))
        E.p.pc.append(z > 0 if positive else z >= 0)
        (E.p.pos if positive else E.p.nonneg).add(i)
    return i


def const(c):
    if type(c) is int:
        return Sym(FIN, P.const(c), ())
    if isinstance(c, Fraction):
        return Sym(FIN, P.const(c), ())
    if isinstance(c, (bool,)):
        return Sym(FIN, P.const(int(c)), ())
    c = float(c)
    if math.isnan(c):
        return Sym(NAN)
    if math.isinf(c):
        return Sym(PINF if c > 0 else NINF)
    v, rad = snap(c)
    if rad is None:
        return Sym(FIN, P.const(v), ())
    p = P.scale(sqrt_int(v.numerator * v.denominator), Fraction(rad, v.denominator))
    return Sym(FIN, p, ())


def var(name, pos=False, nonneg=False):
    i = P.REG.var(name)
    if pos and i not in E.p.pos:
        E.p.pos.add(i)
        E.p.add(E.p.zvar(i) > 0)
    elif nonneg and i not in E.p.nonneg and i not in E.p.pos:
        E.p.nonneg.add(i)
        E.p.add(E.p.zvar(i) >= 0)
    return Sym(FIN, P.variable(i), ())


# ---------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ("z",)

    def __init__(self, z_):
        self.z = z_

    def __bool__(self):
        return E.p.branch(self.z)

    def __and__(self, o):
        return mkbool(z3.And(self.z, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zb(o)))

    def __eq__(self, o):
        return mkbool(self.z == zb(o))

    def __ne__(self, o):
        return mkbool(self.z != zb(o))

    __hash__ = object.__hash__

    def __repr__(self):
        return f"SymBool({str(self.z)[:80]})"

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__


def zb(o):
    if isinstance(o, SymBool):
        return o.z
    return z3.BoolVal(bool(o))


def mkbool(z_):
    z_ = z3.simplify(z_)
    if z3.is_true(z_):
        return True
    if z3.is_false(z_):
        return False
    return SymBool(z_)


def to_z3(x):
    if isinstance(x, SymBool):
        return x.z
    return z3.BoolVal(bool(x))


# ---------------------------------------------------------------- Sym
def _isnum(o):
    t = type(o)
    if t in (int, float, Fraction, bool, Sym):
        return True
    import numpy as np
    return isinstance(o, (np.floating, np.integer, np.bool_))


def lift(o):
    if type(o) is Sym:
        return o
    t = type(o)
    if t is SymBool:
        return const(int(bool(o)))
    if t in (int, float, Fraction, bool):
        return const(o)
    import numpy as np
    if isinstance(o, np.integer):
        return const(int(o))
    if isinstance(o, np.floating):
        return const(float(o))
    if isinstance(o, np.bool_):
        return const(int(o))
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return None


class Sym:
    __slots__ = ("k", "n", "d", "e", "__weakref__")
    __array_priority__ = 2000

    def __init__(self, k, n=None, d=(), e=None):
        self.k = k
        self.n = n
        self.d = d
        self.e = e

    # isinstance(x, float) must hold for a symbolic float
    @property
    def __class__(self):
        return float

    # --- construction
    @staticmethod
    def make(n, d, e=None):
        """n / prod(factor**exp) with cancellation; d: dict fid->exp"""
        p = E.p
        if not n:
            return ZERO()
        if d:
            out = {}
            for fid, ex in d.items():
                if ex <= 0:
                    continue
                f = p.factors[fid]
                if len(f) == 1:
                    (m, _), = f.items()
                    i = 0
                    mm = m
                    while not mm & P.FULL:
                        mm >>= P.BITS
                        i += 1
                    # algebraic variable: rationalise
                    if i in P.REG.rules:
                        sq = P.REG.rules[i]
                        while ex > 0:
                            # 1/v = v/sq
                            n = P.mul(n, P.variable(i))
                            ex -= 1
                            n, dd = divide_poly(n, sq)
                            for a, b in dd.items():
                                out[a] = out.get(a, 0) + b
                        continue
                    cont = min((mo >> (P.BITS * i)) & P.FULL for mo in n)
                    c = min(cont, ex)
                    if c:
                        n = {mo - (c << (P.BITS * i)): co for mo, co in n.items()}
                        ex -= c
                else:
                    while ex > 0 and len(n) < 6000:
                        q = P.exact_div(n, f)
                        if q is None:
                            break
                        n = q
                        ex -= 1
                if ex:
                    out[fid] = out.get(fid, 0) + ex
            d = out
        return Sym(FIN, n, tuple(sorted(d.items())), e)

    # --- queries
    def isconst(self):
        return self.k == FIN and not self.d and self.e is None and P.is_const(self.n)

    def constval(self):
        return P.const_value(self.n)

    def key(self):
        if self.k == FIN:
            return (FIN, frozenset(self.n.items()), self.d,
                    None if self.e is None else self.e.key())
        if self.k == LOG:
            return (LOG, self.e.key())
        return (self.k,)

    def __hash__(self):
        if self.isconst():
            return hash(self.constval())
        return hash(self.key())

    # --- arithmetic
    def __neg__(self):
        if self.k == FIN:
            return Sym(FIN, P.neg(self.n), self.d, self.e)
        if self.k == LOG:
            return log_(inv(self.e))
        return Sym({NAN: NAN, PINF: NINF, NINF: PINF}[self.k])

    def __pos__(self):
        return self

    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, -o)

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, -self)

    def __mul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, self)

    def __pow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(o, self)

    def __floordiv__(self, o):
        return floor_(self / o)

    def __rfloordiv__(self, o):
        return floor_(o / self)

    def __divmod__(self, o):
        return self // o, self % o

    def __mod__(self, o):
        return self - o * floor_(self / o)

    def __abs__(self):
        return abs_(self)

    # --- comparisons
    def __lt__(self, o):
        o = lift(o)
        return NotImplemented if o is None else cmp(self, o, "<")

    def __le__(self, o):
        o = lift(o)
        return NotImplemented if o is None else cmp(self, o, "<=")

    def __gt__(self, o):
        o = lift(o)
        return NotImplemented if o is None else cmp(o, self, "<")

    def __ge__(self, o):
        o = lift(o)
        return NotImplemented if o is None else cmp(o, self, "<=")

    def __eq__(self, o):
        o = lift(o)
        return False if o is None else cmp(self, o, "==")

    def __ne__(self, o):
        o = lift(o)
        if o is None:
            return True
        r = cmp(self, o, "==")
        return (~r) if type(r) is SymBool else (not r)

    def __bool__(self):
        if self.k in (NAN, PINF, NINF):
            return True
        r = cmp(self, ZERO(), "==")
        return not bool(r)

    # --- numpy-ish scalar API
    def item(self):
        return self

    def tolist(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO()

    @property
    def T(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(float)

    def astype(self, t, **k):
        return self if t in (float, object) else t(self)

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def ravel(self, *a, **k):
        return _arr([self])

    flatten = ravel

    def reshape(self, *s, **k):
        return _arr([self]).reshape(*s)

    def mean(self, *a, **k):
        return self

    def sqrt(self):
        return sqrt_(self)

    def exp(self):
        return exp_(self)

    def log(self):
        return log_(self)

    def is_integer(self):
        return bool(floor_(self) == self)

    def __round__(self, nd=0):
        return round_(self, nd)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import symnp
        return symnp.ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import symnp
        return symnp.function(func, args, kw)

    def __getitem__(self, ix):
        if ix is Ellipsis or ix == ():
            return self
        if ix is None:
            return _arr([self])
        raise IndexError("invalid index to scalar variable.")

    # --- leaving the encoding
    def __float__(self):
        return concretise(self)

    def __int__(self):
        return int(concretise(self))

    def __complex__(self):
        return complex(concretise(self))

    def __repr__(self):
        return show(self)

    __str__ = __repr__

    def __format__(self, spec):
        return f"<{show(self)}|{spec}>"

    def __reduce__(self):
        return (const, (0,))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _arr(vals):
    from . import symnp
    return symnp.from_list(vals)


def ZERO():
    return Sym(FIN, {}, ())


def ONE():
    return Sym(FIN, {0: 1}, ())


def show(s):
    if s.k == FIN:
        if s.isconst():
            c = s.constval()
            return str(c) if type(c) is int else str(float(c))
        t = P.show(s.n)
        for f, e in s.d:
            t = f"({t})/({P.show(E.p.factors[f], 3)})" + (f"^{e}" if e > 1 else "")
        if s.e is not None:
            t = f"({t})*exp({show(s.e)})"
        return t
    if s.k == LOG:
        return f"log({show(s.e)})"
    return {NAN: "nan", PINF: "inf", NINF: "-inf"}[s.k]


def _cofactor(d, lcm):
    """product of factors lcm/d"""
    p = None
    dd = dict(d)
    for f, e in lcm.items():
        k = e - dd.get(f, 0)
        if k:
            q = P.power(E.p.factors[f], k)
            p = q if p is None else P.mul(p, q)
    return p


def add(a, b):
    if a.k == FIN and b.k == FIN:
        if not a.n:
            return b
        if not b.n:
            return a
        e = None
        if a.e is not None or b.e is not None:
            if a.e is not None and b.e is not None and same(a.e, b.e):
                e = a.e
            else:
                a, b = plain(a), plain(b)
        if a.d == b.d:
            n = P.add(a.n, b.n)
            if not a.d:
                return Sym(FIN, n, (), e if n else None)
            return Sym.make(n, dict(a.d), e)
        lcm = dict(a.d)
        for f, x in b.d:
            if lcm.get(f, 0) < x:
                lcm[f] = x
        ca, cb = _cofactor(a.d, lcm), _cofactor(b.d, lcm)
        n = P.add(a.n if ca is None else P.mul(a.n, ca),
                  b.n if cb is None else P.mul(b.n, cb))
        return Sym.make(n, lcm, e)
    if a.k == NAN or b.k == NAN:
        return Sym(NAN)
    if a.k in (PINF, NINF) or b.k in (PINF, NINF):
        if a.k in (PINF, NINF) and b.k in (PINF, NINF) and a.k != b.k:
            return Sym(NAN)
        return Sym(a.k if a.k in (PINF, NINF) else b.k)
    # at least one log
    if a.k == LOG and b.k == LOG:
        return log_(mul(a.e, b.e))
    if b.k == LOG:
        a, b = b, a
    if not b.n:
        return a
    return log_(mul(a.e, exp_(b)))


def mul(a, b):
    if a.k == FIN and b.k == FIN:
        if not a.n or not b.n:
            return ZERO()
        if a.e is None:
            e = b.e
        elif b.e is None:
            e = a.e
        else:
            e = add(a.e, b.e)
            if not e.n:
                e = None
        if not a.d and not b.d:
            return Sym(FIN, P.mul(a.n, b.n), (), e)
        # cross-cancel, then combine
        x = a if not b.d or P.is_const(a.n) else Sym.make(a.n, dict(b.d))
        y = b if not a.d or P.is_const(b.n) else Sym.make(b.n, dict(a.d))
        d = {}
        n = P.mul(x.n, y.n)
        # x carries b.d's remainder (if it was formed), y carries a.d's
        for f, k in (x.d if x is not a else b.d):
            d[f] = d.get(f, 0) + k
        for f, k in (y.d if y is not b else a.d):
            d[f] = d.get(f, 0) + k
        if P.REG.algmask:
            return Sym.make(n, d, e)
        return Sym(FIN, n, tuple(sorted(d.items())), e)
    if a.k == NAN or b.k == NAN:
        return Sym(NAN)
    if a.k == LOG or b.k == LOG:
        if a.k == LOG and b.k == LOG:
            return mul(plain(a), plain(b))
        if b.k == LOG:
            a, b = b, a
        if b.k == FIN:
            if b.isconst():
                c = b.constval()
                if c == 0:
                    return ZERO()
                if Fraction(c).denominator == 1 and abs(c) <= 12:
                    r = a.e
                    for _ in range(abs(int(c)) - 1):
                        r = mul(r, a.e)
                    return log_(r if c > 0 else inv(r))
            return mul(plain(a), b)
        s = cmp(a, ZERO(), "<")
        if bool(s):
            return -b
        return Sym(NAN) if bool(a == ZERO()) else b
    # infinities
    inf, o = (a, b) if a.k in (PINF, NINF) else (b, a)
    if o.k == FIN:
        if bool(cmp(o, ZERO(), "==")):
            return Sym(NAN)
        s = 1 if bool(cmp(ZERO(), o, "<")) else -1
    else:
        s = 1 if o.k == PINF else -1
    t = s * (1 if inf.k == PINF else -1)
    return Sym(PINF if t > 0 else NINF)


def divide_poly(n, f):
    """(n', factors) with n/f = n'/prod(factors); f a nonzero polynomial"""
    p = E.p
    if P.is_const(f):
        return P.scale(n, Fraction(1) / P.const_value(f)), {}
    s = recip(f)
    return P.mul(n, s.n), dict(s.d)


def recip(f):
    """1/f as a Sym for a polynomial f (assumed nonzero on this path)"""
    p = E.p
    d = {}
    if P.is_const(f):
        return const(Fraction(1) / P.const_value(f))
    cont = P.monomial_content(f)
    if cont:
        f = P.div_monomial(f, cont)
    num = P.const(1)
    extra = []
    for i, ex in cont.items():
        d[p.factor(P.variable(i))] = ex
    # known factors first, so that denominators stay comparable
    if not P.is_const(f):
        for fid in range(len(p.factors) - 1, max(-1, len(p.factors) - 60), -1):
            g = p.factors[fid]
            if len(g) < 2 or len(g) > len(f):
                continue
            while True:
                q = P.exact_div(f, g, 3000)
                if q is None:
                    break
                f = q
                d[fid] = d.get(fid, 0) + 1
                if P.is_const(f):
                    break
            if P.is_const(f):
                break
    if P.is_const(f):
        num = P.const(Fraction(1) / P.const_value(f))
    else:
        lc = f[max(f)]
        if lc != 1:
            f = P.scale(f, Fraction(1) / lc)
            num = P.const(Fraction(1) / lc)
        fid = p.factor(f)
        d[fid] = d.get(fid, 0) + 1
    del extra
    return Sym.make(num, d)


def factors_nonzero(n):
    """fork on the numerator being nonzero, factor by factor"""
    p = E.p
    cont = P.monomial_content(n)
    rest = P.div_monomial(n, cont) if cont else n
    for i in cont:
        if not p.nonzero(P.variable(i)):
            return False
    if P.is_const(rest):
        return True
    lc = rest[max(rest)]
    if lc != 1:
        rest = P.scale(rest, Fraction(1) / lc)
    k = p.fkey.get(frozenset(rest.items()))
    if k is not None:
        return True          # a denominator factor: nonzero on this path
    for g in p.factors[-60:]:
        if 2 <= len(g) <= len(rest):
            while not P.is_const(rest):
                q = P.exact_div(rest, g, 3000)
                if q is None:
                    break
                rest = q
        if P.is_const(rest):
            return True
    return p.nonzero(rest)


def inv(b):
    """1/b for finite nonzero b"""
    e = None if b.e is None else -b.e
    r = recip(b.n)
    n = r.n
    for f, x in b.d:
        n = P.mul(n, P.power(E.p.factors[f], x))
    return Sym.make(n, dict(r.d), e)


def div(a, b):
    if a.k == NAN or b.k == NAN:
        return Sym(NAN)
    if b.k == LOG:
        b = plain(b)
    if a.k == LOG:
        if b.isconst() and b.n:
            c = Fraction(b.constval())
            if c.numerator == 1 or c.denominator == 1 and c == 1:
                return mul(a, inv(b))
        a = plain(a)
    if b.k == FIN:
        if not b.n or not factors_nonzero(b.n):
            # division by zero, numpy semantics
            if a.k == FIN:
                if bool(cmp(a, ZERO(), "==")):
                    return Sym(NAN)
                return Sym(PINF if bool(cmp(ZERO(), a, "<")) else NINF)
            return a
        if a.k == FIN:
            if not a.n:
                return ZERO()
            return mul(a, inv(b))
        s = bool(cmp(ZERO(), b, "<"))
        return a if s else -a
    if a.k == FIN:
        return ZERO()
    return Sym(NAN)


def same(a, b):
    if a.k != b.k:
        return False
    if a.k == FIN:
        if a.n == b.n and a.d == b.d and a.e is None and b.e is None:
            return True
        if (a.e is None) != (b.e is None):
            return False
        d = add(Sym(FIN, a.n, a.d), -Sym(FIN, b.n, b.d))
        if d.n:
            return False
        return a.e is None or same(a.e, b.e)
    if a.k == LOG:
        return same(a.e, b.e)
    return True


# ------------------------------------------------------------ transcendental
def exp_(a):
    if a.k == FIN:
        if not a.n:
            return ONE()
        if a.e is not None:
            a = plain(a)
        return Sym(FIN, {0: 1}, (), a)
    if a.k == LOG:
        return a.e
    if a.k == NAN:
        return a
    return Sym(PINF) if a.k == PINF else ZERO()


def log_(a):
    """log of a number (forks on its sign)"""
    if a.k == FIN:
        if a.e is not None and not a.d and a.n == {0: 1}:
            return a.e
        if not a.n:
            return Sym(NINF)
        if a.isconst() and a.constval() == 1:
            return ZERO()
        if bool(cmp(ZERO(), a, "<")):
            return Sym(LOG, None, (), a)
        if bool(cmp(a, ZERO(), "==")):
            return Sym(NINF)
        return Sym(NAN)
    if a.k == PINF:
        return a
    if a.k == LOG:
        return log_(plain(a))
    return Sym(NAN)


def plain(a):
    """materialise exp/log parts as fresh real variables"""
    p = E.p
    if a.k == LOG:
        k = ("log", a.e.key())
        if k not in p.uf:
            v = var(p.new_name("log"))
            for k2, (v2, a2) in list(p.uf.items()):
                if k2[0] == "log":
                    p.lazy.append(z3.And((zsym(v) < zsym(v2)) == zcmp(a.e, a2, "<"),
                                         (zsym(v) == zsym(v2)) == zcmp(a.e, a2, "==")))
            p.lazy.append((zsym(v) > 0) == zcmp(ONE(), a.e, "<"))
            p.lazy.append((zsym(v) == 0) == zcmp(ONE(), a.e, "=="))
            p.uf[k] = (v, a.e)
        return p.uf[k][0]
    if a.k == FIN and a.e is not None:
        q = a.e
        if q.k != FIN:
            raise Unsupported("exp of a non-finite exponent")
        k = ("exp", q.key())
        if k not in p.uf:
            v = var(p.new_name("exp"), pos=True)
            for k2, (v2, q2) in list(p.uf.items()):
                if k2[0] == "exp":
                    p.lazy.append(z3.And((zsym(v) < zsym(v2)) == zcmp(q, q2, "<"),
                                         (zsym(v) == zsym(v2)) == zcmp(q, q2, "==")))
            p.lazy.append((zsym(v) < 1) == zcmp(q, ZERO(), "<"))
            p.lazy.append((zsym(v) == 1) == zcmp(q, ZERO(), "=="))
            p.uf[k] = (v, q)
        return mul(Sym(FIN, a.n, a.d), p.uf[k][0])
    return a


def sqrt_(a):
    p = E.p
    if a.k == FIN:
        if a.e is not None:
            return mul(sqrt_(Sym(FIN, a.n, a.d)), exp_(a.e * Fraction(1, 2)))
        if not a.n:
            return ZERO()
        if a.isconst():
            c = Fraction(a.constval())
            if c < 0:
                return Sym(NAN)
            return Sym(FIN, P.scale(sqrt_int(c.numerator * c.denominator),
                                    Fraction(1, c.denominator)), ())
        # sign
        s = p.quick_sign(a.n)
        den_pos = all(x % 2 == 0 or p.quick_sign(p.factors[f]) == 1 for f, x in a.d)
        if not (s == 1 and den_pos):
            if bool(cmp(a, ZERO(), "<")):
                return Sym(NAN)
        # a = n * prod(odd f) / prod(f^even)
        rad = a.n
        outer_d = {}
        for f, x in a.d:
            if x % 2:
                rad = P.mul(rad, p.factors[f])
            outer_d[f] = (x + 1) // 2
        # pull squares out of the radicand's monomial content
        cont = P.monomial_content(rad)
        outer = P.const(1)
        for i, x in cont.items():
            if x >= 2 and i not in P.REG.rules:
                h = x // 2
                if i in p.pos or i in p.nonneg:
                    w = P.variable(i)
                else:
                    av = abs_(Sym(FIN, P.variable(i), ()))
                    w = av.n
                for _ in range(h):
                    outer = P.mul(outer, w)
                rad = P.div_monomial(rad, {i: 2 * h})
        # numeric content
        num, den = 0, 1
        for c in rad.values():
            c = Fraction(c)
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
        rad = P.scale(rad, Fraction(den, num))
        outer = P.mul(outer, P.scale(sqrt_int(num * den), Fraction(1, den)))
        if not P.is_const(rad):
            r = perfect_square(rad)
            if r is not None:
                rv = abs_(Sym(FIN, r, ())).n
                outer = P.mul(outer, rv)
            else:
                k = ("sqrt", frozenset(rad.items()))
                if k not in p.uf:
                    positive = p.quick_sign(rad) == 1
                    i = root_var(p.new_name("root"), rad, positive)
                    p.uf[k] = (i, ())
                outer = P.mul(outer, P.variable(p.uf[k][0]))
        else:
            c = Fraction(P.const_value(rad))
            outer = P.mul(outer, P.scale(sqrt_int(c.numerator * c.denominator),
                                         Fraction(1, c.denominator)))
        r = Sym.make(outer, outer_d)
        # denominator factors of odd sign: take absolute value
        for f, x in r.d:
            if x % 2 and p.quick_sign(p.factors[f]) != 1:
                return abs_(r)
        return r
    if a.k == LOG:
        return sqrt_(plain(a))
    if a.k == PINF:
        return a
    return Sym(NAN)


def perfect_square(f):
    """r with r*r == f (linear or single-term r only), else None"""
    if len(f) == 1:
        (m, c), = f.items()
        c = Fraction(c)
        if c < 0:
            return None
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn != c.numerator or rd * rd != c.denominator:
            return None
        h = 0
        i = 0
        mm = m
        while mm:
            e = mm & P.FULL
            if e % 2:
                return None
            h |= (e // 2) << (P.BITS * i)
            mm >>= P.BITS
            i += 1
        return {h: P._norm(Fraction(rn, rd))}
    if len(f) > 60:
        return None
    # leading-term square root iteration
    lm = max(f)
    r = perfect_square({lm: f[lm]})
    if r is None:
        return None
    (hm, hc), = r.items()
    rem = P.sub(f, P._mulraw(r, r))
    for _ in range(12):
        if not rem:
            return r
        m = max(rem)
        if m < hm or not P._divides(hm, m):
            return None
        t = {m - hm: P._norm(Fraction(rem[m]) / (2 * hc))}
        r = P.add(r, t)
        rem = P.sub(f, P._mulraw(r, r))
    return None


def abs_(a):
    if a.k == FIN:
        p = E.p
        if not a.n:
            return a
        if a.isconst():
            return a if a.constval() > 0 else -a
        s = sign_known(a)
        if s == 1:
            return a
        if s == -1:
            return -a
        return -a if bool(cmp(a, ZERO(), "<")) else a
    if a.k == LOG:
        return -a if bool(cmp(a, ZERO(), "<")) else a
    if a.k == NINF:
        return Sym(PINF)
    return a


def sign_known(a):
    """1/-1 if the path settles the sign quickly"""
    p = E.p
    s = p.quick_sign(a.n)
    if s is None:
        return None
    for f, x in a.d:
        if x % 2:
            t = p.quick_sign(p.factors[f])
            if t is None:
                return None
            s *= t
    return s


def power(a, b):
    if b.k == FIN and b.isconst():
        c = Fraction(b.constval())
        if c.denominator == 1:
            n = int(c)
            if n == 0:
                return ONE()
            if abs(n) <= 64:
                r = a
                for _ in range(abs(n) - 1):
                    r = mul(r, a)
                return r if n > 0 else div(ONE(), r)
        if c.denominator == 2:
            r = sqrt_(a)
            return power(r, const(int(2 * c)))
    if a.k == FIN and a.isconst() and a.constval() > 0:
        return exp_(mul(log_(a), b))
    if a.k == FIN and b.k == FIN and bool(cmp(a, ZERO(), ">")):
        return uf("power", [a, b], lambda: var(E.p.new_name("power"), pos=True))
    raise Unsupported("symbolic power")


def floor_(a):
    p = E.p
    if a.isconst():
        return const(math.floor(Fraction(a.constval())))
    k = ("floor", a.key())
    if k not in p.uf:
        v = var(p.new_name("floor"))
        zi = z3.Int(P.REG.names[next(iter(P.variables(v.n)))] + "i")
        p.add(zsym(v) == z3.ToReal(zi))
        p.add(zcmp(v, a, "<="))
        p.add(zcmp(a, v + 1, "<"))
        p.uf[k] = (v, a)
    return p.uf[k][0]


def round_(a, nd=0):
    """round half even is modelled as: some value within half a unit"""
    p = E.p
    if a.k != FIN:
        return a
    nd = int(nd)
    if a.isconst():
        return const(Fraction(round(Fraction(a.constval()), nd)))
    if nd >= 10:
        # a multiple of 10**-nd: only its being zero can be observed at 1e-6
        k = ("round", nd, a.key())
        if k not in p.uf:
            h = Fraction(5, 10 ** (nd + 1))
            if bool(cmp(a, const(h), "<=")) and bool(cmp(const(-h), a, "<=")):
                p.uf[k] = (ZERO(), a)
            else:
                v = var(p.new_name("round"))
                p.add(zcmp(v, a + h, "<="))
                p.add(zcmp(a - h, v, "<="))
                p.add(zsym(v) != 0)
                p.uf[k] = (v, a)
        return p.uf[k][0]
    s = 10 ** nd if nd >= 0 else Fraction(1, 10 ** -nd)
    return floor_(a * s + Fraction(1, 2)) / s


def uf(name, args, fresh=None):
    """uninterpreted function of symbolic arguments, congruent in its arguments"""
    p = E.p
    args = [lift(a) for a in args]
    k = ("uf", name, tuple(a.key() for a in args))
    if k in p.uf:
        return p.uf[k][0]
    for k2, (v2, a2) in p.uf.items():
        if k2[0] == "uf" and k2[1] == name and len(a2) == len(args) and \
                all(same(x, y) for x, y in zip(args, a2)):
            p.uf[k] = (v2, a2)
            return v2
    v = fresh() if fresh else var(p.new_name(name))
    for k2, (v2, a2) in list(p.uf.items()):
        if k2[0] == "uf" and k2[1] == name and len(a2) == len(args):
            eqs = [zcmp(x, y, "==") for x, y in zip(args, a2)]
            if any(z3.is_false(z3.simplify(q)) for q in eqs):
                continue
            p.lazy.append(z3.Implies(z3.And(*eqs), zsym(v) == zsym(v2)))
    p.uf[k] = (v, args)
    return v


# ---------------------------------------------------------------- z3 terms
def zsym(a):
    """z3 real term of a finite Sym (denominators nonzero on this path)"""
    a = plain(a)
    if a.k != FIN:
        raise Unsupported("non-finite value in a term")
    n = E.p.zpoly(a.n)
    if not a.d:
        return n
    d = None
    for f, x in a.d:
        z = E.p.zpoly(E.p.factors[f])
        for _ in range(x):
            d = z if d is None else d * z
    return n / d


def zsign(a, op):
    """z3 formula `a op 0` without division"""
    p = E.p
    if not a.n:
        return z3.BoolVal(op != "<")
    if op == "==":
        return p.zpoly(a.n) == 0
    s = 1
    t = p.zpoly(a.n)
    for f, x in a.d:
        if x % 2:
            q = p.quick_sign(p.factors[f])
            if q is None:
                q = p.signs.get(frozenset(p.factors[f].items()))
            if q is None:
                t = t * p.zpoly(p.factors[f])
            else:
                s *= q
    if op == "<":
        return t < 0 if s > 0 else t > 0
    return t <= 0 if s > 0 else t >= 0


def zcmp(a, b, op):
    """z3 formula for a op b (op in <, <=, ==), extended reals included"""
    r = _cmp(a, b, op)
    return to_z3(r)


def _cmp(a, b, op):
    if a.k == NAN or b.k == NAN:
        return False
    if a.k in (PINF, NINF) or b.k in (PINF, NINF):
        ra = {PINF: 1, NINF: -1}.get(a.k, 0)
        rb = {PINF: 1, NINF: -1}.get(b.k, 0)
        return ra < rb if op == "<" else (ra <= rb if op == "<=" else ra == rb)
    if a.k == LOG or b.k == LOG:
        if a.k == LOG and b.k == LOG:
            return _cmp(a.e, b.e, op)
        if a.k == LOG:
            return _cmp(a.e, exp_(b), op)
        return _cmp(exp_(a), b.e, op)
    if a.e is not None or b.e is not None:
        ae = a.e if a.e is not None else ZERO()
        be = b.e if b.e is not None else ZERO()
        ar, br = Sym(FIN, a.n, a.d), Sym(FIN, b.n, b.d)
        if not a.n or not b.n:
            return _cmp(ar, br, op)
        if same(ae, be):
            return _cmp(ar, br, op)
        if same(ar, br):
            s = sign_known(ar)
            if s == 1:
                return _cmp(ae, be, op)
            if s == -1:
                return _cmp(be, ae, op)
        if a.isconst() or b.isconst():
            pass
        a, b = plain(a), plain(b)
    d = add(a, -b)
    if not d.n:
        return op != "<"
    s = sign_known(d)
    if s is not None:
        if op == "==":
            return False
        return s < 0
    return mkbool(zsign(d, op))


def cmp(a, b, op):
    return _cmp(a, b, op)


# ---------------------------------------------------------------- concretise
def generic(p, zz, v, n):
    """a feasible value near v that is not a whole number, if there is one"""
    r = v.limit_denominator(10 ** 4)
    near = [r] if r.denominator > 1 else []
    for k in range(3):
        near.append(r + Fraction((37 * (n + 1) + 61 * k) % 89 + 5, 100) * (1, -1, 5)[k])
    for c in near + [r]:
        if p.feasible(zz == z3.Q(c.numerator, c.denominator)) is True:
            return c
    return v


def concretise(s):
    """leave the encoding: pin the value to the solver's choice (path degraded)"""
    p = E.p
    if s.k == NAN:
        return math.nan
    if s.k == PINF:
        return math.inf
    if s.k == NINF:
        return -math.inf
    s = plain(s)
    if s.isconst():
        return float(s.constval())
    if P.variables(s.n) and not s.d and all(
            P.REG.names[i].startswith("sqrt") and P.REG.names[i][4:].isdigit()
            for i in P.variables(s.n)):
        return float(P.evaluate(
            s.n, lambda i: math.sqrt(int(P.REG.names[i][4:]))))
    import traceback
    where = "".join(traceback.format_stack(limit=9)[:-1])
    site = [ln.strip() for ln in where.splitlines() if "/mud/" in ln]
    p.degraded.append("concretised " + (site[-1] if site else where[-300:]))
    import os
    if os.environ.get("VERIF_DEBUG_CONC"):
        print(where)
    n = len(p.trace)
    if n < len(p.prefix):
        v = p.prefix[n][1]
        p.trace.append(p.prefix[n])
        zz = zsym(s)
    else:
        res, m = p.query([], want_model=True)
        if res != z3.sat:
            res, m = p._run(p.pc, p.timeout_ms)
            if res != z3.sat:
                raise Unsupported("no model to concretise with")
        zz = zsym(s)
        v = to_fraction(m.eval(zz, model_completion=True))
        if v is None:
            raise Unsupported("no value to concretise with")
        v = generic(p, zz, v, n)
        p.trace.append(("v", v, True))
    p.add(zz == z3.Q(v.numerator, v.denominator))
    return float(v)
