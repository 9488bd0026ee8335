"""Engine self-test: numpy/scipy calls on symbols against the same calls on numbers.

Each call runs symbolically with inputs pinned to values by assumptions; its results
have to be equal to those of the real call. Lists the calls the engine cannot answer."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import atexit  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402
if "BATTERY" not in os.environ:
    D = tempfile.mkdtemp(prefix="battery-")
    atexit.register(shutil.rmtree, D)
    shutil.copytree("/repo/src/mud", D + "/src/mud")
    shutil.copy(HERE + "/battery_calls.py", D + "/src/mud/")
    os.environ["BATTERY"] = os.environ["VERIF_REPO"] = D
import run  # noqa: E402
run.setup_path()
import warnings  # noqa: E402
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
from engine.explore import explore  # noqa: E402
from engine.harness import Config  # noqa: E402

def harness(T, name):
    from mud.battery_calls import calls
    from engine.sym import E
    f, ins = calls()[name]
    E.active, was = False, E.active
    want = f(*[i.copy() for i in ins])
    E.active = was
    args = []
    for k, i in enumerate(ins):
        s = T.arr(f"x{k}", i.shape)
        for ix in np.ndindex(*i.shape):
            T.assume(s[ix] == T.const(float(i[ix])))
        args.append(s)
    got = f(*args)
    cmp(T, got, want)


def cmp(T, got, want):
    if isinstance(want, (list, tuple)):
        T.true(len(got) == len(want), "length")
        for g, w in zip(got, want):
            cmp(T, g, w)
        return
    w = np.asarray(want)
    if not T.shape(got, w.shape, "shape"):
        return
    if w.dtype.kind == "b":
        T.true(bool(np.all(np.asarray(got) == w)), "bools")
        return
    if w.dtype.kind not in "fiu":
        T.true(got == want, "value")
        return
    g = got if isinstance(got, np.ndarray) else np.array(got, dtype=object)
    for ix in np.ndindex(*w.shape):
        T.le(abs(g[ix] - T.const(float(w[ix]))), T.const(1e-6), "value")


def one(n):
    import mud.battery_calls  # noqa: F401  (arrays made before the encodings)
    import io
    import contextlib
    import json
    cfg = Config(n, harness, {"name": n}, "quick", "", None, None)
    b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b):
            r = explore(cfg, 1, 20, 4000, 200)
    except Exception as e:
        return n, f"CRASH {type(e).__name__}: {e}"
    bad = []
    for c in r["candidates"]:
        bad.append(f"CAND {c['label']}: {c['detail'][-160:]}")
    if r["restricted"]:
        bad.append("restricted")
    if r["degraded"]:
        bad.append("degr " + str(r["degraded"][0])[:160])
    if r["inconclusive"]:
        bad.append("inconcl " + str(r["inconclusive"][:1]))
    if not r["paths"]:
        bad.append("no paths " + str(r["incomplete"]))
    return n, "; ".join(bad)


if __name__ == "__main__":
    import subprocess
    import concurrent.futures as cf
    if sys.argv[1:2] == ["--one"]:
        print("RES " + one(sys.argv[2])[1])
        sys.exit()
    from mud.battery_calls import calls
    names = [n for n in calls() if not sys.argv[1:] or any(a in n for a in sys.argv[1:])]

    def go(n):
        try:
            o = subprocess.run([sys.executable, __file__, "--one", n], capture_output=True,
                               text=True, timeout=120, env=dict(os.environ, MPLBACKEND="Agg"))
        except subprocess.TimeoutExpired:
            return n, "TIMEOUT"
        ls = [x for x in o.stdout.splitlines() if x.startswith("RES ")]
        return n, ls[0][4:] if ls else "CRASH " + o.stderr[-300:]
    with cf.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(go, names))
    for n, m in res:
        if m:
            print(f"{n:20s} {m}")
    print(len(names), "calls,", sum(1 for _, m in res if m), "not answered exactly")
