"""One symbolic path: the path condition, branching, and the solver queries.

The engine explores a harness by re-execution (DFS over a decision prefix).
Every feasibility question and every obligation is a z3 query over the reals.
"""
import time
from fractions import Fraction

import z3

from . import poly as P


class Signal(BaseException):
    """Engine control flow; not an Exception so that mud's code cannot catch it."""


class Infeasible(Signal):
    pass


class Budget(Signal):
    pass


class Concretised(Signal):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.branches = 0
        self.normalised = 0
        self.slowest = 0.0
        self.cvc5 = 0
        self.cvc5_disagree = 0

    def as_dict(self):
        return dict(self.__dict__)


def vars_of(e, cache):
    """names of the uninterpreted reals of a z3 term"""
    k = e.get_id()
    r = cache.get(k)
    if r is not None:
        return r[1]
    out = set()
    todo = [e]
    seen = set()
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        else:
            todo.extend(t.children())
    cache[k] = (e, frozenset(out))
    return cache[k][1]


def to_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return None


class Path:
    """State of the run in progress (the global `E` in sym.py points here)."""

    def __init__(self, prefix=(), stats=None, timeout_ms=8000, deadline=None,
                 max_branches=4000):
        self.prefix = list(prefix)
        self.trace = []          # decisions taken
        self.alts = []           # alternative prefixes discovered
        self.pc = []             # z3 constraints (path condition + assumptions)
        self.lazy = []           # facts used only after a sat answer
        self.stats = stats or Stats()
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.max_branches = max_branches
        self.zcache = {}
        self.vcache = {}
        self.models = []         # z3 models known to satisfy pc
        self.inputs = {}         # name -> description (for replay)
        self.pos = set()         # var idx known > 0
        self.nonneg = set()
        self.factors = []        # monic polys used in denominators
        self.fkey = {}
        self.nz = {}             # factor key -> True/False decided
        self.signs = {}
        self.fresh = {}
        self.uf = {}             # uninterpreted applications
        self.degraded = []
        self.uncertain = False   # some feasibility answer was unknown
        self.obligations = []
        self.candidates = []
        self.notes = []
        P.reset_registry()

    # ---- terms
    def zvar(self, i):
        v = self.zcache.get(i)
        if v is None:
            v = z3.Real(P.REG.names[i])
            self.zcache[i] = v
        return v

    def zpoly(self, p):
        terms = []
        for m, c in p.items():
            fs = []
            i = 0
            while m:
                e = m & P.FULL
                if e:
                    v = self.zvar(i)
                    fs.extend([v] * e)
                m >>= P.BITS
                i += 1
            if type(c) is Fraction:
                cz = z3.Q(c.numerator, c.denominator)
            else:
                cz = z3.RealVal(c)
            if not fs:
                terms.append(cz)
            elif c == 1:
                terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
            else:
                terms.append(z3.Product(cz, *fs))
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def new_name(self, base):
        k = self.fresh.get(base, 0)
        self.fresh[base] = k + 1
        return f"{base}!{k}"

    # ---- solving
    def _run(self, cons, timeout_ms):
        """one solver call: (result, model)"""
        st = self.stats
        t0 = time.time()
        res, mdl = z3.unknown, None
        for tactic, tmo in (("qfnra-nlsat", timeout_ms), (None, timeout_ms)):
            if tactic:
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "simplify",
                            tactic).solver()
            else:
                s = z3.Solver()
            s.set("timeout", int(tmo))
            s.add(cons)
            st.queries += 1
            try:
                res = s.check()
            except z3.Z3Exception:
                res = z3.unknown
            if res == z3.sat:
                mdl = s.model()
            if res != z3.unknown:
                break
        dt = time.time() - t0
        st.time += dt
        st.slowest = max(st.slowest, dt)
        if res == z3.unsat:
            st.unsat += 1
        elif res == z3.sat:
            st.sat += 1
        else:
            st.unknown += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget of this configuration used up")
        return res, mdl

    def slice(self, cons, extra):
        """constraints sharing variables (transitively) with `extra`"""
        seen = set()
        for e in extra:
            seen |= vars_of(e, self.vcache)
        rest = [(c, vars_of(c, self.vcache)) for c in cons]
        out = []
        changed = True
        while changed:
            changed = False
            nxt = []
            for c, vs in rest:
                if vs & seen:
                    out.append(c)
                    if not vs <= seen:
                        seen |= vs
                        changed = True
                else:
                    nxt.append((c, vs))
            rest = nxt
        return out

    def query(self, extra, want_model=False, timeout_ms=None, facts=True):
        """sat/unsat/unknown of pc and extra (list). Model only if wanted."""
        extra = [z3.simplify(e) for e in extra]
        if any(z3.is_false(e) for e in extra):
            return z3.unsat, None
        extra = [e for e in extra if not z3.is_true(e)]
        tmo = timeout_ms or self.timeout_ms
        sl = self.slice(self.pc, extra)
        res, mdl = self._run(sl + extra, tmo)
        if res == z3.unsat:
            return res, None
        if self.lazy and facts:
            lz = self.slice(self.lazy, sl + extra)
            if lz:
                sl2 = self.slice(self.pc, extra + lz)
                res, mdl = self._run(sl2 + lz + extra, tmo)
                if res == z3.unsat:
                    return res, None
                sl = sl2
        if want_model:
            full = self.pc + (self.lazy if facts else [])
            if len(sl) < len(full):
                r2, m2 = self._run(full + extra, tmo)
                if r2 == z3.sat:
                    return r2, m2
                if r2 == z3.unsat:
                    return r2, None
                return (res, mdl) if res == z3.sat else (r2, None)
        return res, mdl

    def feasible(self, c):
        """is pc and c satisfiable? (True/False/None)"""
        for m in self.models:
            v = m.eval(c, model_completion=True)
            if z3.is_true(v):
                return True
        res, mdl = self.query([c], timeout_ms=min(self.timeout_ms, 4000))
        if res == z3.sat:
            return True
        if res == z3.unsat:
            return False
        return None

    def add(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.pc.append(c)
        self.models = [m for m in self.models
                       if z3.is_true(m.eval(c, model_completion=True))]

    def decide(self, c):
        """truth of c if implied by the path condition, else None (no fork)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        t = self.feasible(c)
        if t is False:
            return False
        f = self.feasible(z3.Not(c))
        if f is False:
            return True
        return None

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = len(self.trace)
        if n >= self.max_branches:
            raise Budget("branch budget")
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append(d)
            if d[0] == "b":
                if d[2]:         # both sides were possible: a real decision
                    self.add(c if d[1] else z3.Not(c))
                return d[1]
            raise RuntimeError("decision mismatch on re-execution")
        self.stats.branches += 1
        t = self.feasible(c)
        f = self.feasible(z3.Not(c)) if t is not False else True
        if t is None or f is None:
            self.uncertain = True
        if t is False:
            self.trace.append(("b", False, False))
            return False
        if f is False:
            self.trace.append(("b", True, False))
            return True
        self.alts.append(self.trace + [("b", False, True)])
        self.trace.append(("b", True, True))
        self.add(c)
        return True

    def choose(self, conds):
        """fork over mutually exclusive, exhaustive conditions; index taken"""
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append(d)
            assert d[0] == "c"
            if d[2]:
                self.add(conds[d[1]])
            return d[1]
        self.stats.branches += 1
        live = []
        for i, c in enumerate(conds):
            r = self.feasible(c)
            if r is None:
                self.uncertain = True
            if r is not False:
                live.append(i)
        if not live:
            raise Infeasible()
        multi = len(live) > 1
        for i in live[1:]:
            self.alts.append(self.trace + [("c", i, True)])
        self.trace.append(("c", live[0], multi))
        if multi:
            self.add(conds[live[0]])
        return live[0]

    def pick(self, n):
        """free nondeterministic choice of 0..n-1 (a fork without a condition)"""
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trace.append(d)
            return d[1]
        self.stats.branches += 1
        for i in range(1, n):
            self.alts.append(self.trace + [("p", i, True)])
        self.trace.append(("p", 0, True))
        return 0

    # ---- factors and signs
    def factor(self, f):
        """id of monic polynomial f"""
        k = frozenset(f.items())
        i = self.fkey.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(f)
            self.fkey[k] = i
        return i

    def quick_sign(self, p):
        """sign of polynomial from known-positive variables, else None"""
        if not p:
            return 0
        for s in (1, -1):
            strict = False
            ok = True
            for m, c in p.items():
                if (c > 0) != (s > 0):
                    ok = False
                    break
                i = 0
                pos = True
                mm = m
                while mm:
                    e = mm & P.FULL
                    if e:
                        if i in self.pos:
                            pass
                        elif i in self.nonneg or e % 2 == 0:
                            pos = False
                        else:
                            ok = False
                            break
                    mm >>= P.BITS
                    i += 1
                if not ok:
                    break
                strict = strict or pos
            if ok and strict:
                return s
        return None

    def sign(self, p):
        """sign of p implied by the path (1, -1) or None; cached"""
        q = self.quick_sign(p)
        if q is not None:
            return q
        k = frozenset(p.items())
        if k in self.signs:
            return self.signs[k]
        z = self.zpoly(p)
        r = None
        # deterministic on re-execution: depends on pc only
        if self.decide(z > 0) is True:
            r = 1
        elif self.decide(z < 0) is True:
            r = -1
        if r is not None:
            self.signs[k] = r
        return r

    def nonzero(self, p):
        """fork on p != 0"""
        q = self.quick_sign(p)
        if q is not None:
            return q != 0
        k = frozenset(p.items())
        if k in self.nz:
            return self.nz[k]
        if k in self.signs:
            return True
        r = self.branch(self.zpoly(p) != 0)
        self.nz[k] = r
        return r
