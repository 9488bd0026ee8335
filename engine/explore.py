"""Exploration of a harness: paths, obligations, candidates, witnesses."""
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import poly as P
from . import sym as S
from .path import Budget, Infeasible, Path, Signal, Stats, to_fraction
from .sym import E, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
MUD = os.path.join(REPO, "src", "mud") + os.sep


class RunPath(Path):
    def __init__(self, *a, rnd=None, **k):
        super().__init__(*a, **k)
        self.struct = 0
        self.ok = 0
        self.rnd = rnd or random.Random(1)
        self.inconclusive = []
        self.restricted = 0
        self.labels = {}
        self.T = None

    def ob_ok(self, label):
        self.ok += 1
        self.labels[label] = self.labels.get(label, 0) + 1

    def obligation(self, neg, label, detail, trivial=False):
        neg = z3.simplify(neg) if not trivial else neg
        if z3.is_false(neg):
            self.stats.normalised += 1
            self.ob_ok(label)
            return
        if trivial:
            # closed identity: no path condition needed
            res, _ = self._run([neg], self.timeout_ms)
            if res == z3.unsat:
                self.ob_ok(label)
                return
        if z3.is_true(neg):
            res = z3.sat
        else:
            res, _ = self.query([neg])
        if res == z3.unsat:
            self.ob_ok(label)
            return
        if len(self.candidates) >= 12 or any(c["label"] == label
                                             for c in self.candidates):
            return
        if res == z3.sat:
            ms = self.nice_models([neg], 4)
            if not ms:
                r, m = self.query([neg], want_model=True)
                if r == z3.unsat:
                    self.ob_ok(label)
                    return
                if r == z3.sat:
                    ms = [self.extract(m)]
            if ms:
                self.candidates.append({"label": label, "detail": str(detail)[:400],
                                        "models": ms})
                return
            res = z3.unknown
        # unknown: restrict to solver-chosen values of part of the inputs
        ms = self.restrict(neg, label)
        if ms:
            self.candidates.append({"label": label, "detail": str(detail)[:400],
                                    "models": ms})
        else:
            self.inconclusive.append(label)

    def restrict(self, neg, label):
        done = 0
        for _ in range(4):
            fix = self.random_fix(0.6)
            r0, _m = self._run(self.pc + fix, 3000)
            if r0 != z3.sat:
                continue
            r, m = self._run(self.pc + fix + [neg], 6000)
            if r == z3.sat:
                return [self.extract(m)]
            if r == z3.unsat:
                done += 1
        self.restricted += done
        return None

    # ---- models
    def all_inputs(self):
        out = list(self.inputs)
        for k, (v, a) in self.uf.items() if self.uf else ():
            pass
        return out

    def random_fix(self, frac=1.0):
        fix = []
        for nm, d in self.inputs.items():
            if self.rnd.random() > frac:
                continue
            z = z3.Real(nm)
            fix.append(z == self.rand_val(d))
        return fix

    def rand_val(self, d):
        r = self.rnd
        lo, hi = d.get("lo"), d.get("hi")
        if lo is not None and hi is not None:
            return z3.Q(*(Fraction(lo) + (Fraction(hi) - Fraction(lo)) *
                          Fraction(r.randint(1, 15), 16)).as_integer_ratio())
        if d.get("pos") or lo is not None:
            q = Fraction(lo or 0) + Fraction(r.randint(2, 24), 8)
        else:
            q = Fraction(r.choice([-1, 1]) * r.randint(1, 24), 8)
        return z3.Q(q.numerator, q.denominator)

    def nice_models(self, extra, k, tries=6):
        """models of the path (and extra), preferring small, well-spread values"""
        out = []
        full = self.pc + self.lazy + list(extra)
        wide = [z3.And(z3.Real(n) <= 6, z3.Real(n) >= -6) for n in self.inputs]
        for n, d in self.inputs.items():
            if d.get("pos"):
                wide.append(z3.Real(n) >= z3.Q(1, 8))
        sep = [margin(c) for c in list(self.pc) + list(extra)]
        sep = [c for c in sep if c is not None]
        for frac in (1.0, 1.0, 0.7, 0.5, 0.3)[:tries]:
            if len(out) >= k:
                break
            fix = self.random_fix(frac)
            r, m = self._run(full + fix, 2500)
            if r == z3.sat:
                out.append(self.extract(m))
        for cons in (wide + sep, wide, sep, []):
            if len(out) >= k:
                break
            r, m = self._run(full + cons, 4000)
            if r == z3.sat:
                out.append(self.extract(m))
                if len(out) >= 2:
                    break
        return out

    def extract(self, m):
        vals = {}
        for nm in self.inputs:
            f = to_fraction(m.eval(z3.Real(nm), model_completion=True))
            vals[nm] = float(f) if f is not None else 0.5
        tables = {}
        for k, ent in self.uf.items():
            if k[0] == "uf" and k[1].startswith("density:"):
                v, a = ent
                try:
                    av = to_fraction(m.eval(S.zsym(a[0]), model_completion=True))
                    vv = to_fraction(m.eval(S.zsym(v), model_completion=True))
                except (Unsupported, z3.Z3Exception):
                    continue
                if av is not None and vv is not None:
                    tables.setdefault(k[1][8:], []).append([float(av), float(vv)])
        return {"values": vals, "tables": tables,
                "picks": dict(self.T.picks) if self.T else {}}


def margin(c):
    """strengthen a strict/disequality atom by a margin"""
    q = z3.Q(1, 50)
    try:
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            a = c.arg(0)
            ka = a.decl().kind()
            if ka == z3.Z3_OP_EQ and a.arg(0).sort() == z3.RealSort():
                d = a.arg(0) - a.arg(1)
                return z3.Or(d >= q, d <= -q)
            if ka == z3.Z3_OP_LE:
                return a.arg(0) >= a.arg(1) + q
            if ka == z3.Z3_OP_GE:
                return a.arg(0) <= a.arg(1) - q
        if k == z3.Z3_OP_LT:
            return c.arg(0) <= c.arg(1) - q
        if k == z3.Z3_OP_GT:
            return c.arg(0) >= c.arg(1) + q
    except z3.Z3Exception:
        pass
    return None


class Tracer:
    """names of the mud functions executed symbolically"""

    def __init__(self):
        self.seen = set()

    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(MUD):
                self.seen.add(fn[len(MUD):] + ":" + co.co_qualname)


def engine_artefact(exc):
    """did the exception come out of the encoding rather than mud's own logic?"""
    if isinstance(exc, (Unsupported, RecursionError, MemoryError)):
        return True
    tb = traceback.extract_tb(exc.__traceback__)
    here = os.path.dirname(os.path.abspath(__file__))
    last = tb[-1].filename
    return last.startswith(here) and not isinstance(exc, (ValueError, ZeroDivisionError)) \
        and type(exc).__name__ != "LinAlgError"


def explore(cfg, seed, budget, timeout_ms, max_paths, want_witness=40):
    from .harness import SymbolicT
    from . import patches
    patches.install()
    t_start = time.time()
    deadline = t_start + budget
    stats = Stats()
    rnd = random.Random(seed)
    work = [[]]
    out = {"config": cfg.name, "paths": 0, "infeasible": 0, "degraded": [],
           "candidates": [], "witnesses": [], "obligations": 0, "inconclusive": [],
           "restricted": 0, "incomplete": None, "labels": {}, "functions": set(),
           "samples": [], "structural": 0, "exceptions": [], "uncertain": 0}
    tracer = Tracer()
    while work:
        if time.time() > deadline or out["paths"] >= max_paths:
            out["incomplete"] = (f"{len(work)} unexplored branches after "
                                 f"{out['paths']} paths, {time.time()-t_start:.0f}s")
            break
        prefix = work.pop()
        p = RunPath(prefix, stats=stats, timeout_ms=timeout_ms, deadline=deadline,
                    rnd=rnd)
        E.p = p
        T = SymbolicT(p)
        T.ints = cfg.ints
        T.layout = cfg.layout
        E.exact = bool(cfg.ints)
        p.T = T
        status, exc = "ok", None
        E.active = True
        sys.setprofile(tracer)
        try:
            cfg.fn(T, **cfg.kw)
        except Infeasible:
            status = "infeasible"
        except Budget as e:
            status = "budget"
            out["incomplete"] = str(e)
        except Signal:
            status = "infeasible"
        except Exception as e:
            status, exc = "raised", e
        finally:
            sys.setprofile(None)
            for c in reversed(T.cleanup):
                c()
            E.active = False
        work.extend(p.alts)
        E.active = False
        try:
            if status == "infeasible":
                out["infeasible"] += 1
                continue
            out["paths"] += 1
            if p.uncertain:
                out["uncertain"] += 1
            if status == "raised":
                text = f"{type(exc).__name__}: {exc}"
                tb = traceback.extract_tb(exc.__traceback__)
                site = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb
                        if f.filename.startswith(MUD)]
                art = engine_artefact(exc)
                ms = p.nice_models([], 3)
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exception(exc)
                rec = {"label": "raised", "detail": f"{text} at {site[-3:]}",
                       "models": ms, "artefact": art}
                if ms:
                    out["candidates"].append(rec)
                else:
                    r, _ = p._run(p.pc + p.lazy, timeout_ms)
                    if r == z3.unsat:
                        out["infeasible"] += 1
                        out["paths"] -= 1
                        continue
                    out["degraded"].append("raised, no model: " + rec["detail"])
            for c in p.candidates:
                out["candidates"].append(c)
            out["obligations"] += p.ok
            out["structural"] += p.struct
            out["restricted"] += p.restricted
            out["inconclusive"] += p.inconclusive
            for k, v in p.labels.items():
                out["labels"][k] = out["labels"].get(k, 0) + v
            for d in p.degraded:
                out["degraded"].append(d)
            if status == "ok" and len(out["witnesses"]) < want_witness:
                ms = p.nice_models([], 1, tries=3)
                if ms:
                    out["witnesses"].append(ms[0])
                    if len(out["samples"]) < 3:
                        out["samples"].append({
                            "config": cfg.name,
                            "path_condition": [str(c)[:160] for c in p.pc[-4:]],
                            "decisions": len(p.trace),
                            "obligations_discharged": p.ok,
                            "witness": {k: round(v, 4) for k, v in
                                        list(ms[0]["values"].items())[:8]}})
                elif not p.candidates:
                    r, _ = p._run(p.pc + p.lazy, timeout_ms)
                    if r == z3.unsat:
                        # an earlier unknown answer let an empty path through
                        out["infeasible"] += 1
                        out["paths"] -= 1
        except Budget as e:
            out["incomplete"] = str(e)
    out["functions"] = sorted(tracer.seen)
    out["stats"] = stats.as_dict()
    out["wall"] = time.time() - t_start
    return out
