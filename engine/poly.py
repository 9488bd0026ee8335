"""Exact sparse multivariate polynomials over Q, used as the term normal form.

A monomial is one Python integer holding 8 bits of exponent per variable; a
polynomial is a dict {monomial: int|Fraction}.  Variables may be *algebraic*
(v*v rewrites to a polynomial): that is how square roots stay exact.
"""
from fractions import Fraction

BITS = 8
FULL = (1 << BITS) - 1


class Registry:
    """Variable names <-> indices, plus the rewrite rules of algebraic vars."""

    def __init__(self):
        self.names = []
        self.index = {}
        self.rules = {}      # var index -> Poly its square equals
        self.algmask = 0

    def var(self, name):
        i = self.index.get(name)
        if i is None:
            i = len(self.names)
            self.names.append(name)
            self.index[name] = i
        return i

    def algebraic(self, name, square):
        new = name not in self.index
        i = self.var(name)
        if new:
            self.rules[i] = square
            self.algmask |= (FULL ^ 1) << (BITS * i)
        return i


REG = Registry()


def reset_registry():
    REG.__init__()


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = _norm(c)
    return {0: c} if c else {}


def variable(i):
    return {1 << (BITS * i): 1}


def is_const(p):
    return not p or (len(p) == 1 and 0 in p)


def const_value(p):
    return p.get(0, 0)


def add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def neg(a):
    return {m: -c for m, c in a.items()}


def sub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) - c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: _norm(c * k) for m, c in a.items()}


def _reduce(p):
    mask = REG.algmask
    while True:
        bad = [m for m in p if m & mask]
        if not bad:
            return p
        r = {m: c for m, c in p.items() if not m & mask}
        for m in bad:
            c = p[m]
            # first algebraic variable with exponent >= 2
            for i, sq in REG.rules.items():
                e = (m >> (BITS * i)) & FULL
                if e >= 2:
                    break
            rest = m - ((e - (e & 1)) << (BITS * i))
            f = {rest: c}
            for _ in range(e // 2):
                f = _mulraw(f, sq)
            for mm, cc in f.items():
                v = r.get(mm, 0) + cc
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
        p = r


def _mulraw(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    return {m: _norm(c) for m, c in r.items() if c}


def mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and 0 in a:
        return scale(b, a[0])
    if len(b) == 1 and 0 in b:
        return scale(a, b[0])
    r = _mulraw(a, b)
    if REG.algmask:
        mask = REG.algmask
        for m in r:
            if m & mask:
                return _reduce(r)
    return r


def power(a, n):
    r = const(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def degree(p):
    d = 0
    for m in p:
        s = 0
        while m:
            s += m & FULL
            m >>= BITS
        d = max(d, s)
    return d


def monomial_content(p):
    """Largest monomial dividing every term (as {var: exp})."""
    it = iter(p)
    m = next(it)
    exps = {}
    i = 0
    while m:
        e = m & FULL
        if e:
            exps[i] = e
        m >>= BITS
        i += 1
    for m in it:
        if not exps:
            return exps
        for i in list(exps):
            e = (m >> (BITS * i)) & FULL
            if e < exps[i]:
                if e:
                    exps[i] = e
                else:
                    del exps[i]
    return exps


def div_monomial(p, exps):
    d = sum(e << (BITS * i) for i, e in exps.items())
    return {m - d: c for m, c in p.items()}


def _divides(d, m):
    while d:
        if (d & FULL) > (m & FULL):
            return False
        d >>= BITS
        m >>= BITS
    return True


def exact_div(p, f, limit=4000):
    """p / f if the division is exact (as plain polynomials), else None."""
    if not p:
        return {}
    lf = max(f)
    cf = f[lf]
    q = {}
    r = dict(p)
    steps = 0
    while r:
        lm = max(r)
        if lm < lf or not _divides(lf, lm):
            return None
        steps += 1
        if steps > limit:
            return None
        c = _norm(Fraction(r[lm]) / cf)
        d = lm - lf
        q[d] = c
        for m, cc in f.items():
            mm = m + d
            v = r.get(mm, 0) - c * cc
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return q


def variables(p):
    out = set()
    for m in p:
        i = 0
        while m:
            if m & FULL:
                out.add(i)
            m >>= BITS
            i += 1
    return out


def evaluate(p, val):
    """val: index -> number"""
    tot = 0
    for m, c in p.items():
        t = c
        i = 0
        while m:
            e = m & FULL
            if e:
                t = t * val(i) ** e
            m >>= BITS
            i += 1
        tot = tot + t
    return tot


def show(p, maxterms=6):
    if not p:
        return "0"
    parts = []
    for k, (m, c) in enumerate(sorted(p.items())):
        if k == maxterms:
            parts.append(f"... ({len(p)} terms)")
            break
        s = []
        i = 0
        while m:
            e = m & FULL
            if e:
                s.append(REG.names[i] + (f"^{e}" if e > 1 else ""))
            m >>= BITS
            i += 1
        parts.append("*".join(([str(c)] if c != 1 or not s else []) + s))
    return " + ".join(parts)
