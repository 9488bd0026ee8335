#!/opt/venv/bin/python
"""dev tool: mutate one expression or statement of mud at a time and list the mutants
no covering configuration notices.  mutate.py OUT.json [-j N] [-n COUNT] FILE...

Needs a map line -> configurations (COVDIR/L.<pid>.<cfg>.json, see the dev notes in
DESIGN.md); works in scratch copies only.
"""
import argparse, ast, collections, concurrent.futures as cf, copy, glob, json, os
import random, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SRC = "/repo/src/mud"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.Pow: ast.Mult, ast.MatMult: None}


def others(tree):
    """other names: locals by function, attributes of self by class"""
    near = {}
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            at = sorted({x.attr for x in ast.walk(c) if isinstance(x, ast.Attribute)
                         and isinstance(x.value, ast.Name) and x.value.id == "self"})
            for x in ast.walk(c):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and \
                        isinstance(x.value, ast.Name) and x.value.id == "self":
                    near[id(x)] = [a for a in at if a != x.attr]
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            loc = {a.arg for a in f.args.args + f.args.kwonlyargs} | {
                x.id for x in ast.walk(f) if isinstance(x, ast.Name)
                and isinstance(x.ctx, ast.Store)}
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in loc:
                    near[id(x)] = sorted(loc - {x.id, "self", "cls"})
    return near


def mutants(tree):
    """(line, description, function applied to a fresh copy by node position)"""
    nodes = list(ast.walk(tree))
    near = others(tree) if NAMES else {}
    for k, n in enumerate(nodes):
        fld = "id" if isinstance(n, ast.Name) else "attr"
        for o in near.get(id(n), []):
            yield k, n.lineno, f"{getattr(n, fld)}->{o}", lambda x, o=o, fld=fld: setattr(
                x, fld, o)
        if NAMES and isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for v in (True, False):
                yield k, n.lineno, f"if {v}", lambda x, v=v: setattr(
                    x, "test", ast.Constant(v))
        if NAMES and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ("copy", "ravel", "reshape", "flatten", "squeeze", "dot",
                                "array", "astype", "sqrt", "abs", "mean", "sum"):
            if n.func.attr in ("array", "sqrt", "abs") and n.args:
                yield k, n.lineno, "uncall", lambda x: (
                    setattr(x, "func", ast.Lambda(ast.arguments(
                        [], [ast.arg("_")], None, [], [], None, []), ast.Name("_", ast.Load()))),
                    setattr(x, "args", x.args[:1]), setattr(x, "keywords", []))
            elif n.func.attr in ("copy", "ravel", "flatten", "squeeze") and not n.args:
                yield k, n.lineno, "uncall", lambda x: (
                    setattr(x, "args", [x.func.value]), setattr(x, "keywords", []),
                    setattr(x, "func", ast.Lambda(ast.arguments(
                        [], [ast.arg("_")], None, [], [], None, []), ast.Name("_", ast.Load()))))
    if NAMES:
        return
    for k, n in enumerate(nodes):
        ln = getattr(n, "lineno", None)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield k, ln, "cmp", lambda x: x.ops.__setitem__(0, CMP[type(x.ops[0])]())
        elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            yield k, ln, "bin", lambda x: setattr(x, "op", BIN[type(x.op)]())
        elif isinstance(n, ast.BoolOp):
            yield k, ln, "bool", lambda x: setattr(
                x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And())
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield k, ln, "unary", lambda x: setattr(x, "op", ast.UAdd() if isinstance(
                x.op, ast.USub) else ast.UAdd()) if isinstance(x.op, ast.USub) else None
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            if isinstance(n.value, bool):
                yield k, ln, "flip", lambda x: setattr(x, "value", not x.value)
            elif isinstance(n.value, int):
                yield k, ln, "const+1", lambda x: setattr(x, "value", x.value + 1)
                if n.value in (0, 1):
                    yield k, ln, "const01", lambda x: setattr(x, "value", 1 - x.value)
            else:
                yield k, ln, "const*2", lambda x: setattr(x, "value", x.value * 2)
        elif isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
            yield k, ln, "noT", lambda x: setattr(x, "attr", "real")
        elif isinstance(n, ast.Call):
            for i, kw in enumerate(n.keywords):
                if kw.arg:
                    yield k, ln, "dropkw " + kw.arg, lambda x, i=i: x.keywords.pop(i)
            if len(n.args) == 2:
                yield k, ln, "swapargs", lambda x: x.args.reverse()
        elif isinstance(n, (ast.If, ast.IfExp)):
            yield k, ln, "negate", lambda x: setattr(
                x, "test", ast.UnaryOp(ast.Not(), x.test))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            yield k, ln, "delete", "del"


def apply(src, k, f):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[k]
    if f == "del":
        for p in nodes:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    else:
        f(n)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def one(job):
    import run
    fn, k, f, ln, desc, cfgs, props = job
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/src", d + "/src",
                        ignore=shutil.ignore_patterns("__pycache__"))
        with open(f"{SRC}/{fn}") as h:
            src = h.read()
        with open(f"{d}/src/mud/{fn}", "w") as h:
            h.write(apply(src, k, f))
        os.environ["VERIF_REPO"] = d
        n = 0
        for pid, c in cfgs:
            cfg = next((x for x in props[pid].configs if x.name == c), None)
            if cfg is None:
                continue
            n += 1
            r = run.do_config(pid, cfg, 1, "quick", d)
            if r["confirmed"]:
                v = r["confirmed"][0]
                return "killed", pid, c, v["failures"][0]["label"], n
        return "survived", None, None, None, n
    except Exception as e:
        return "error", None, None, repr(e), 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


JOBS = []
NAMES = False


def work(i):
    return one(JOBS[i])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-n", type=int, default=0)
    ap.add_argument("--cov", default="/tmp/w/cov")
    ap.add_argument("--max", type=int, default=40)
    ap.add_argument("--lines")
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--names", action="store_true",
                    help="other names, constant conditions and conversions left out instead")
    ap.add_argument("files", nargs="+")
    a = ap.parse_args()
    global NAMES
    NAMES = a.names
    import run
    run.setup_path()
    sys.dont_write_bytecode = True
    os.environ["VERIF_NOEVIDENCE"] = "1"
    cov = collections.defaultdict(list)
    for f in sorted(glob.glob(a.cov + "/L.*.json")):
        _, pid, cfg, _ = os.path.basename(f).split(".")
        if cfg.startswith("finding"):
            continue
        for file, ls in json.load(open(f)).items():
            for l in ls:
                cov[file, l].append((pid, cfg))
    cwd = os.getcwd()
    s = tempfile.mkdtemp()
    os.chdir(s)
    props = {p: run.load(p) for p in sorted({x[0] for v in cov.values() for x in v})}
    os.chdir(cwd)
    rnd = random.Random(a.seed)
    for fn in a.files:
        src = open(f"{SRC}/{fn}").read()
        tree = ast.parse(src)
        stmt = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                hi = n.body[0].lineno - 1 if hasattr(n, "body") else n.end_lineno
                for l in range(n.lineno, hi + 1):
                    stmt[l] = n.lineno
        # defaults of a function are exercised by whoever runs its body
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                b = n.body[1 if len(n.body) > 1 and isinstance(n.body[0], ast.Expr)
                           and isinstance(n.body[0].value, ast.Constant) else 0]
                for l in range(n.lineno, n.body[0].lineno):
                    stmt[l] = b.lineno
        for k, ln, desc, f in mutants(tree):
            if ln is None or (a.lines and not any(
                    int(r.split("-")[0]) <= ln <= int(r.split("-")[1])
                    for r in a.lines.split(","))):
                continue
            isdef = src.split("\n")[stmt.get(ln, ln) - 1:] and stmt.get(ln, ln) > ln
            c = list((not isdef and cov.get((fn, ln))) or cov.get((fn, stmt.get(ln)))
                     or [])
            try:
                if not NAMES and ast.unparse(ast.parse(src)) == apply(src, k, f):
                    continue
            except Exception:
                continue
            rnd.shuffle(c)
            # spread over properties, few at a time
            by, seq = collections.defaultdict(list), []
            for x in c:
                by[x[0]].append(x)
            while any(by.values()):
                ks = [q for q in by if by[q]]
                rnd.shuffle(ks)
                for q in ks:
                    seq.append(by[q].pop())
            JOBS.append((fn, k, f, ln, desc, seq[:a.max], props))
    idx = list(range(len(JOBS)))
    rnd.shuffle(idx)
    if a.n:
        idx = idx[:a.n]
    print(len(idx), "mutants", flush=True)
    res = []
    import multiprocessing as mp
    with mp.get_context("fork").Pool(a.j, maxtasksperchild=4) as pool:
        for i, r in zip(idx, pool.imap(work, idx)):
            fn, k, f, ln, desc, seq, _ = JOBS[i]
            line = open(f"{SRC}/{fn}").read().split("\n")[ln - 1].strip()
            res.append({"file": fn, "line": ln, "what": desc, "k": k, "src": line,
                        "result": r, "configs": len(seq)})
            if r[0] != "killed":
                print(f"{r[0]} {fn}:{ln} [{desc}] cfgs={len(seq)} {line[:90]} {r[3] or ''}",
                      flush=True)
            json.dump(res, open(a.out, "w"), indent=0)
    n = collections.Counter(x["result"][0] for x in res)
    print(dict(n))


main()
