#!/opt/venv/bin/python
"""dev tool: which regions of the inputs do the checks not explore?  Wrap one value that
mud computes or returns in "wrong when CONDITION on an argument holds, right otherwise"
and list the ones no covering configuration notices.

regions.py OUT.json [-j N] [-n COUNT] [--seed K] FILE...   (coverage map as for mutate.py)
"""
import argparse, ast, collections, glob, json, os, random, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SRC = "/repo/src/mud"
HEAD = '''
import numpy as _vnp


def _vc(f):
    try:
        return bool(f())
    except Exception:
        return False


def _vo(v):
    return v if isinstance(v, _vnp.ndarray) or type(v).__name__ == "Sym" else _vnp.array(v)


def _vm(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, tuple):
        return v[:-1] + (_vm(v[-1]),)
    if isinstance(v, list):
        return [_vm(x) for x in v]
    if isinstance(v, (int, float, _vnp.ndarray)) or type(v).__name__ == "Sym":
        if _vnp.ndim(v) and _vnp.size(v) > 1:
            return v[::-1] * 1.5 + 0.25
        return v * 1.5 + 0.25
    for a in ("y", "_ob", "_in"):
        if hasattr(v, a):
            setattr(v, a, _vm(getattr(v, a)))
            break
    return v

'''
CONDS = {
    "one row": "_vnp.shape(_vo({v}))[0] == 1",
    "two rows": "_vnp.shape(_vo({v}))[0] == 2",
    "4+ rows": "_vnp.shape(_vo({v}))[0] >= 4",
    "3 columns": "_vnp.shape(_vo({v}))[1] == 3",
    "1 column": "_vnp.shape(_vo({v}))[1] == 1",
    "square": "_vnp.ndim(_vo({v})) == 2 and _vnp.shape(_vo({v}))[0] == _vnp.shape(_vo({v}))[1]",
    "flat": "_vnp.ndim(_vo({v})) == 1",
    "scalar": "_vnp.ndim(_vo({v})) == 0 and {v} is not None",
    "list": "isinstance({v}, (list, tuple))",
    "integers": "_vnp.asarray({v}).dtype.kind in 'iu'",
    "column-major": "_vnp.ndim(_vo({v})) == 2 and not {v}.flags.c_contiguous",
    "negative": "_vnp.any(_vo({v}) < 0)",
    "all negative": "_vnp.all(_vo({v}) < 0)",
    "large": "_vnp.any(_vo({v}) > 1e4)",
    "all small": "_vnp.all(abs(_vo({v})) < 1e-4)",
    "some zero": "_vnp.any(_vo({v}) == 0)",
    "all zero": "_vnp.all(_vo({v}) == 0)",
    "below one": "_vnp.all(_vo({v}) < 1)",
    "first equals last": "_vnp.size({v}) > 1 and _vnp.ravel(_vo({v}))[0] == _vnp.ravel(_vo({v}))[-1]",
    "close entries": "_vnp.size({v}) > 1 and _vnp.ravel(_vo({v}))[0] != _vnp.ravel(_vo({v}))[1] and "
                     "abs(_vnp.ravel(_vo({v}))[0] - _vnp.ravel(_vo({v}))[1]) < 1e-3 * abs(_vnp.ravel(_vo({v}))[0])",
    "wide range": "_vnp.size({v}) > 1 and abs(_vnp.ravel(_vo({v}))[0]) > 1e4 * abs(_vnp.ravel(_vo({v}))[1])",
    "descending": "_vnp.size({v}) > 1 and _vnp.all(_vnp.ravel(_vo({v}))[1:] < _vnp.ravel(_vo({v}))[:-1])",
    "given": "{v} is not None",
    "none": "{v} is None",
    "20+ entries": "_vnp.size({v}) >= 20",
    "300+ entries": "_vnp.size({v}) >= 300",
}
ATTRS = ("X", "y", "domain", "_weights", "A", "b", "mean_i", "cov_i", "cov_o", "alpha", "_data",
         "_lam", "_measurements", "_sensors", "_times", "_std_dev", "std_dev", "_r", "_up", "_ob",
         "_pr", "_in", "data", "lam", "measurements", "true_lam", "mu_i", "operators")


def sites(tree):
    """(function, statement, fields) whose value can be wrapped"""
    for c in ast.walk(tree):
        if not isinstance(c, ast.FunctionDef):
            continue
        at = sorted({x.attr for x in ast.walk(c) if isinstance(x, ast.Attribute)
                     and isinstance(x.value, ast.Name) and x.value.id == "self"} & set(ATTRS))
        v = [a.arg for a in c.args.args if a.arg not in ("self", "cls", "ax", "label", "method", "log", "seed", "split", "num_epochs", "source", "note_loc",
                           "kwargs", "distribution", "dist", "normalize", "annotate", "window",
                           "init_dist", "qoi_method", "bw_method", "epochs", "save_path")
             and not a.arg.endswith("_opts")] + ["self." + a for a in at]
        for s in ast.walk(c):
            if isinstance(s, ast.Return) and s.value is not None or \
                    isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], (ast.Name, ast.Attribute)) and \
                    isinstance(s.value, (ast.Call, ast.BinOp, ast.Name)):
                for x in v:
                    yield c, s, x


def one(job):
    import run
    fn, pos, var, cond, ln, cfgs, props = job
    d = tempfile.mkdtemp(prefix="reg-")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        tree = ast.parse(open(f"{SRC}/{fn}").read())
        s = list(ast.walk(tree))[pos]
        s.value = ast.IfExp(
            ast.parse(f"_vc(lambda: {CONDS[cond].format(v=var)})", mode="eval").body,
            ast.Call(ast.Name("_vm", ast.Load()), [s.value], []), s.value)
        ast.fix_missing_locations(tree)
        with open(f"{d}/src/mud/{fn}", "w") as h:
            h.write(HEAD + ast.unparse(tree))
        os.environ["VERIF_REPO"] = d
        n = 0
        for pid, c in cfgs:
            cfg = next((x for x in props[pid].configs if x.name == c), None)
            if cfg is None:
                continue
            n += 1
            r = run.do_config(pid, cfg, 1, "quick", d)
            if r["confirmed"]:
                return "killed", pid, c, r["confirmed"][0]["failures"][0]["label"], n
        return "survived", None, None, None, n
    except Exception as e:
        return "error", None, None, repr(e), 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


JOBS = []


def work(i):
    return one(JOBS[i])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("-n", type=int, default=200)
    ap.add_argument("--cov", default="/tmp/w/cov")
    ap.add_argument("--max", type=int, default=40)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--conds")
    ap.add_argument("--lines")
    ap.add_argument("files", nargs="+")
    a = ap.parse_args()
    import run
    run.setup_path()
    sys.dont_write_bytecode = True
    os.environ["VERIF_NOEVIDENCE"] = "1"
    cov = collections.defaultdict(list)
    for f in sorted(glob.glob(a.cov + "/L.*.json")):
        _, pid, cfg, _ = os.path.basename(f).split(".")
        if not cfg.startswith("finding"):
            for file, ls in json.load(open(f)).items():
                for l in ls:
                    cov[file, l].append((pid, cfg))
    cwd, s = os.getcwd(), tempfile.mkdtemp()
    os.chdir(s)
    props = {p: run.load(p) for p in sorted({x[0] for v in cov.values() for x in v})}
    os.chdir(cwd)
    rnd = random.Random(a.seed)
    cs = a.conds.split(",") if a.conds else list(CONDS)
    for fn in a.files:
        src = open(f"{SRC}/{fn}").read()
        tree = ast.parse(src)
        ids = {id(n): k for k, n in enumerate(ast.walk(tree))}
        for c, st, v in sites(tree):
            ln = st.lineno
            if a.lines and not any(int(r.split("-")[0]) <= ln <= int(r.split("-")[1])
                                   for r in a.lines.split(",")):
                continue
            cfgs = list(cov.get((fn, ln), []))
            if cfgs:
                for q in cs:
                    JOBS.append([fn, ids[id(st)], v, q, ln, cfgs, props])
    rnd.shuffle(JOBS)
    del JOBS[a.n:]
    for j in JOBS:
        by, seq = collections.defaultdict(list), []
        rnd.shuffle(j[5])
        for x in j[5]:
            by[x[0]].append(x)
        while any(by.values()):
            for q in [q for q in by if by[q]]:
                seq.append(by[q].pop())
        j[5] = seq[:a.max]
    print(len(JOBS), flush=True)
    import multiprocessing as mp
    res = []
    with mp.get_context("fork").Pool(a.j, maxtasksperchild=4) as pool:
        for j, r in zip(JOBS, pool.imap(work, range(len(JOBS)))):
            line = open(f"{SRC}/{j[0]}").read().split("\n")[j[4] - 1].strip()
            res.append({"file": j[0], "line": j[4], "var": j[2], "cond": j[3], "src": line,
                        "result": r})
            if r[0] != "killed":
                print(f"{r[0]} {j[0]}:{j[4]} [{j[2]} {j[3]}] cfgs={r[4]} {line[:70]} {r[3] or ''}",
                      flush=True)
            json.dump(res, open(a.out, "w"), indent=0)
    print(dict(collections.Counter(x["result"][0] for x in res)))


main()
