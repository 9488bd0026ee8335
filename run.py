#!/usr/bin/env python
"""Decide one property:  run.py C07 [--tier quick|thorough] [--seed N]

Each configuration of the property's harness is executed symbolically in its own
process (engine/explore.py); whatever the solver returns is replayed on the
unpatched code in another process before anything is reported.
"""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_path():
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(REPO, "src"))
    if VT not in sys.path:
        sys.path.append(VT)


def load(pid):
    fs = glob.glob(os.path.join(HERE, "props", pid.lower() + "_*.py"))
    if len(fs) != 1:
        raise SystemExit(f"no property file for {pid}")
    spec = importlib.util.spec_from_file_location("prop_" + pid, fs[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.PROP


# ------------------------------------------------------------------ children
def worker(pid, cname, seed, budget, timeout_ms, max_paths, out):
    setup_path()
    from engine.explore import explore
    prop = load(pid)
    cfg = next(c for c in prop.configs if c.name == cname)
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    res = explore(cfg, seed, budget, timeout_ms, max_paths)
    with open(out, "w") as f:
        json.dump(res, f, default=str)


def run_concrete(fn, kw, item, ints=(), layout=False):
    from engine.harness import AssumeFailed, ConcreteT
    import random
    import numpy as np
    np.random.seed(1)
    random.seed(1)
    T = ConcreteT(item)
    T.ints = ints
    T.layout = layout
    try:
        fn(T, **kw)
    except AssumeFailed as e:
        return {"status": "skip", "why": str(e), "failures": []}
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        site = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-3:]
        T.fail("raised", f"{type(e).__name__}: {e} at {site}")
    finally:
        for c in reversed(T.cleanup):
            c()
    return {"status": "fail" if T.failures else "ok", "failures": T.failures,
            "checked": T.checked, "used": T.used}


def replayer(pid, inp, out):
    """unpatched mud, numpy and scipy"""
    setup_path()
    sys.path.remove(VT)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    prop = load(pid)
    with open(inp) as f:
        items = json.load(f)
    res = []
    for it in items:
        cfg = next(c for c in prop.configs if c.name == it["config"])
        res.append(run_concrete(cfg.fn, cfg.kw, it["model"], cfg.ints,
                                cfg.layout))
    with open(out, "w") as f:
        json.dump(res, f, default=str)


def child(args, cwd, timeout, err):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
               MPLCONFIGDIR=os.path.join(cwd, ".mpl"))
    with open(err, "ab") as e:
        try:
            r = subprocess.run([PY, os.path.join(HERE, "run.py")] + args, cwd=cwd,
                               env=env, stdout=e, stderr=e, timeout=timeout)
            return r.returncode
        except subprocess.TimeoutExpired:
            return -99


# ------------------------------------------------------------------ parent
def do_config(pid, cfg, seed, tier, scratch):
    d = os.path.join(scratch, hashlib.sha256(cfg.name.encode()).hexdigest()[:12])
    os.makedirs(d, exist_ok=True)
    budget = cfg.budget or (45 if tier == "quick" else 300)
    if tier == "thorough":
        budget = max(budget, 300)
    tmo = 8000 if tier == "quick" else 30000
    mp = 1500 if tier == "quick" else 4000
    out, err = os.path.join(d, "out.json"), os.path.join(d, "err.txt")
    rc = child(["--worker", pid, cfg.name, str(seed), str(budget), str(tmo), str(mp),
                out], d, budget * 2 + 90, err)
    r = {"config": cfg.name, "error": None}
    if rc == 0 and os.path.exists(out):
        with open(out) as f:
            r.update(json.load(f))
    else:
        with open(err) as f:
            r["error"] = f"rc={rc}: " + f.read()[-1500:]
        r.update({"candidates": [], "witnesses": [], "obligations": 0, "paths": 0,
                  "degraded": ["worker failed"], "inconclusive": [], "labels": {},
                  "functions": [], "samples": [], "structural": 0, "restricted": 0,
                  "incomplete": "worker failed", "infeasible": 0, "uncertain": 0,
                  "stats": {}, "wall": 0})
    # replay: candidates, witnesses, and plain default values
    items = []
    for k, c in enumerate(r["candidates"]):
        for m in c["models"]:
            items.append({"config": cfg.name, "model": m, "for": ["c", k]})
    for k, m in enumerate(r["witnesses"]):
        items.append({"config": cfg.name, "model": m, "for": ["w", k]})
    nosym = r["error"] is not None or r["degraded"] or r["inconclusive"] or \
        r["incomplete"] or r["restricted"]
    for k in range(12 if nosym else 1):
        items.append({"config": cfg.name, "model": rand_model(r, seed, k),
                      "for": ["d", k]})
    inp, rout = os.path.join(d, "replay_in.json"), os.path.join(d, "replay_out.json")
    with open(inp, "w") as f:
        json.dump(items, f)
    rc = child(["--replayer", pid, inp, rout], d, 300, err)
    if rc != 0 or not os.path.exists(rout):
        with open(err) as f:
            r["error"] = f"replay rc={rc}: " + f.read()[-1500:]
        r["confirmed"], r["spurious"], r["validated"] = [], [], 0
        return r
    with open(rout) as f:
        rep = json.load(f)
    by = {}
    for it, o in zip(items, rep):
        by.setdefault(tuple(it["for"]), []).append((it, o))
    confirmed, spurious, validated, wfail = [], [], 0, []
    for key, lst in by.items():
        fails = [(it, o) for it, o in lst if o["status"] == "fail"]
        if key[0] == "c":
            c = r["candidates"][key[1]]
            same = [(it, o) for it, o in fails
                    if any(f["label"] == c["label"] for f in o["failures"])]
            best = same or fails
            if best:
                confirmed.append(mk_violation(cfg, c["label"], best[0], "solver"))
            else:
                spurious.append({"label": c["label"], "detail": c["detail"],
                                 "artefact": c.get("artefact", False),
                                 "models": c["models"][:1],
                                 "status": [o["status"] for _, o in lst]})
        else:
            if fails:
                wfail += fails
            elif lst[0][1]["status"] == "ok":
                validated += 1
    # a concrete run that fails where no candidate did: look again nearby, so that
    # rounding at one point is not reported
    known = {f["label"] for v in confirmed for f in v["failures"]}
    wfail = [(it, o) for it, o in wfail
             if not all(f["label"] in known for f in o["failures"])]
    if wfail:
        again = []
        for it, o in wfail[:6]:
            for k in range(6):
                again.append(perturb(it, seed, k))
        with open(inp, "w") as f:
            json.dump(again, f)
        os.unlink(rout)
        rc = child(["--replayer", pid, inp, rout], d, 300, err)
        rep2 = json.load(open(rout)) if rc == 0 else []
        for j, (it, o) in enumerate(wfail[:6]):
            labs = {f["label"] for f in o["failures"]}
            n = sum(1 for q in rep2[6 * j:6 * j + 6]
                    if q["status"] == "fail" and
                    any(f["label"] in labs for f in q["failures"]))
            if n >= 2:
                confirmed.append(mk_violation(cfg, o["failures"][0]["label"], (it, o),
                                              "witness of a solver path"
                                              if it["for"][0] == "w" else "concrete"))
            else:
                spurious.append({"label": "witness", "detail": str(o["failures"])[:300],
                                 "artefact": False, "status": [f"{n}/6 nearby"]})
    r["confirmed"], r["spurious"], r["validated"] = confirmed, spurious, validated
    r["replays"] = len(items)
    return r


def rand_model(r, seed, k):
    """values from the solver's witnesses mixed with the harness defaults"""
    import random
    rnd = random.Random(f"{seed}-{k}")
    ws = r.get("witnesses") or []
    vals, picks, tables = {}, {}, {}
    if k and ws:
        m = rnd.choice(ws)
        picks, tables = dict(m["picks"]), {}
        for n, v in m["values"].items():
            if rnd.random() < 0.5:
                vals[n] = v * (1 + 0.05 * rnd.random())
    elif k:
        picks = Picks(rnd)
    return {"values": vals, "picks": dict(picks) if not isinstance(picks, Picks)
            else {"*": k}, "tables": tables}


class Picks(dict):
    def __init__(self, rnd):
        self.rnd = rnd


def perturb(it, seed, k):
    import random
    rnd = random.Random(f"{seed}-p{k}")
    m = it["model"]
    vals = {n: v * (1 + 1e-3 * (rnd.random() - 0.5)) for n, v in m["values"].items()}
    return {"config": it["config"], "for": it["for"],
            "model": {"values": vals, "picks": m["picks"], "tables": m["tables"]}}


def mk_violation(cfg, label, io, how):
    it, o = io
    return {"config": cfg.name, "label": label, "how": how, "model": it["model"],
            "used": o.get("used", {}), "failures": o["failures"][:6]}


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"]
                if k["property"] == pid and k["status"] == "open"]


def matches(k, v, f):
    if k["config"] != v["config"] or f["label"] not in k["labels"]:
        return False
    import re
    return re.search(k.get("detail", ""), f["detail"]) is not None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    t0 = time.time()
    setup_path()
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        os.chdir(scratch)          # importing mud.plot writes in the cwd
        prop = load(a.pid)
        cfgs = [c for c in prop.configs if a.tier == "thorough" or c.tier == "quick"]
        if a.only:
            cfgs = [c for c in cfgs if a.only in c.name]
        # long ones first
        order = sorted(cfgs, key=lambda c: -(c.budget or 0))
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            futs = {ex.submit(do_config, a.pid, c, a.seed, a.tier, scratch): c
                    for c in order}
            res = {futs[f].name: f.result() for f in cf.as_completed(futs)}
        results = [res[c.name] for c in cfgs]
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    return report(a, prop, cfgs, results, t0)


def report(a, prop, cfgs, results, t0):
    kn = known_findings(a.pid)
    hit, viol, seen = set(), [], set()
    for r in results:
        for v in r["confirmed"]:
            fresh = []
            for f in v["failures"]:
                ks = [i for i, k in enumerate(kn) if matches(k, v, f)]
                if ks:
                    hit.update(ks)
                else:
                    fresh.append(f)
            if fresh:
                k = (r["config"], fresh[0]["label"])
                if k not in seen:
                    seen.add(k)
                    v["failures"] = fresh
                    viol.append(v)
    if not os.environ.get("VERIF_NOEVIDENCE"):  # set by tools/seed.py only
        write_evidence(a, prop, cfgs, results, t0, viol, [kn[i] for i in hit])
    for i in sorted(hit):
        print(f"KNOWN-FINDING: property={a.pid} {kn[i]['what']}")
    if a.v or viol:
        for r in results:
            print(f"  [{r['config']}] paths={r['paths']} obl={r['obligations']} "
                  f"struct={r['structural']} valid={r['validated']} "
                  f"cand={len(r['candidates'])} spur={len(r['spurious'])} "
                  f"inc={len(r['inconclusive'])} degr={len(r['degraded'])} "
                  f"wall={r['wall']:.1f}s q={r['stats'].get('queries', 0)}"
                  + (f" INCOMPLETE {r['incomplete']}" if r["incomplete"] else ""))
            if a.v:
                for s in r["spurious"][:4]:
                    print("     spurious:", str(s)[:600])
                for s in sorted(set(map(str, r["degraded"])))[:4]:
                    print("     degraded:", s[:300])
                for s in sorted(set(r["inconclusive"])):
                    print("     inconclusive:", s)
                if r["error"]:
                    print("     ERROR", r["error"][-1500:])
    if viol:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        for v in viol:
            h = hashlib.sha256(json.dumps(v, sort_keys=True, default=str)
                               .encode()).hexdigest()[:10]
            p = os.path.join(d, f"{a.pid}-{h}.json")
            with open(p, "w") as f:
                json.dump(dict(v, property=a.pid), f, indent=1, default=str)
            print(f"  {v['config']}: {v['label']}: "
                  f"{v['failures'][0]['detail'][:300]} ({v['how']})")
            print(f"VIOLATION property={a.pid} replay={p}")
        return 1
    bad = [r for r in results if r["error"]]
    soft = [r for r in results if r["spurious"] or r["inconclusive"] or r["degraded"]
            or r["incomplete"]]
    done = sum(r["obligations"] + r["structural"] for r in results)
    val = sum(r["validated"] for r in results)
    print(f"{a.pid}: held on {len(results)} configurations, "
          f"{sum(r['paths'] for r in results)} paths, {done} obligations, "
          f"{val} traces replayed, {time.time() - t0:.1f}s"
          + (f"; {len(soft)} configurations not fully decided "
             f"({', '.join(r['config'] for r in soft)[:200]})" if soft else ""))
    if bad and not val and not done:
        print("no configuration could be decided:", bad[0]["error"][-800:])
        return 2
    return 0


def write_evidence(a, prop, cfgs, results, t0, viol, known):
    def tot(k):
        return sum(r[k] for r in results)

    def st(k):
        return sum(r["stats"].get(k, 0) for r in results)
    labels = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    ev = {
        "property": a.pid, "tier": a.tier, "seed": a.seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": st("branches"),
            "traces_validated_against_impl": tot("validated"),
            "samples": sum((r["samples"][:2] for r in results), [])[:12],
            "obligations": tot("obligations"),
            "structural_obligations": tot("structural"),
            "obligations_by_label": labels,
            "functions_encoded": sorted({f for r in results for f in r["functions"]}),
            "bounds": {c.name: c.bounds or c.fn.__doc__ or str(c.kw) for c in cfgs},
            "outside_bounds": prop.outside,
            "queries": st("queries"), "unsat": st("unsat"), "sat": st("sat"),
            "unknown": st("unknown"), "solver_time_s": round(st("time"), 3),
            "settled_by_normalisation": st("normalised"),
            "infeasible_paths": tot("infeasible"),
            "exhaustive_configurations": [r["config"] for r in results if not (
                r["incomplete"] or r["degraded"] or r["inconclusive"] or r["error"]
                or r["spurious"])],
            "not_fully_decided": {r["config"]: {
                "incomplete": r["incomplete"], "degraded": sorted(set(
                    map(str, r["degraded"])))[:5],
                "inconclusive": sorted(set(r["inconclusive"])),
                "checked_on_solver_chosen_values": r["restricted"],
                "spurious": [s["label"] + ": " + s["detail"][:200]
                             for s in r["spurious"]][:5],
                "error": (r["error"] or "")[-300:]} for r in results if
                r["incomplete"] or r["degraded"] or r["inconclusive"] or r["error"]
                or r["spurious"]},
            "known_findings_reproduced": [k["what"] for k in known],
            "configurations": {r["config"]: {
                "paths": r["paths"], "obligations": r["obligations"],
                "validated": r["validated"], "wall_s": round(r["wall"], 2)}
                for r in results},
        },
        "assumptions": prop.assumptions + [
            "numbers are exact reals, not IEEE doubles",
            "numpy/scipy/sklearn calls answer from their documented contracts "
            "(engine/symnp.py, symlinalg.py, patches.py)"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{a.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def replay_file(p):
    with open(p) as f:
        v = json.load(f)
    d = tempfile.mkdtemp(prefix="verif-")
    try:
        i, o, e = (os.path.join(d, n) for n in ("i", "o", "e"))
        with open(i, "w") as f:
            json.dump([{"config": v["config"], "model": v["model"]}], f)
        rc = child(["--replayer", v["property"], i, o], d, 300, e)
        if rc:
            print(open(e).read())
            return 2
        r = json.load(open(o))[0]
        print(json.dumps(r, indent=1))
        return 1 if r["status"] == "fail" else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1:2] == ["--worker"]:
        pid, c, seed, b, t, mp, out = sys.argv[2:9]
        worker(pid, c, int(seed), float(b), int(t), int(mp), out)
    elif sys.argv[1:2] == ["--replayer"]:
        replayer(*sys.argv[2:5])
    else:
        sys.exit(main())
