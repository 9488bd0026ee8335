#!/usr/bin/env python3
"""plant bugs: seed.py SPECS.py [ID ...]   (development tool, not used by any check)

SPECS.py defines BUGS: dicts with id, property, edits [(file, old, new)], demo (python
source), needs, breaks.  Each is tried in a scratch copy: demo passes on /repo and fails
there, the stable tests pass there, changed lines are original ones; then the check of
the property runs against it.  Kept ones are written to /verif/seeded/<id>."""
import concurrent.futures as cf, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
PY = "/opt/venv/bin/python"
BASE = "1ba061e"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def env(d):
    e = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", HOME="/root")
    return e


def tests(d):
    x = d + "/.junit.xml"
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300",
        "--randomly-seed=0", "--randomly-dont-reorganize", "--continue-on-collection-errors",
        "-o", "junit_family=xunit2", "--junitxml", x], cwd=d, env=env(d))
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not list(c.iter("failure")) and not list(c.iter("error")) and not list(c.iter("skipped")):
            ok.add(c.get("classname") + "::" + c.get("name"))
    os.unlink(x)
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = ok
    miss = [w for w in want if w not in got]
    if len(miss) == len(want):
        raise SystemExit("test names differ: %s / %s" % (sorted(want)[:2], sorted(got)[:2]))
    return sorted(miss)


def one(b):
    d = tempfile.mkdtemp(prefix="s-", dir="/tmp/w") + "/repo"
    log = []
    try:
        shutil.copytree("/repo", d, symlinks=True)
        for f, a, n in b["edits"]:
            p = d + "/" + f
            s = open(p).read()
            if s.count(a) != 1:
                return b["id"], "EDIT", [f"{f}: {s.count(a)} matches of {a!r}"]
            open(p, "w").write(s.replace(a, n))
        blame = {}
        diff = sh(["git", "-C", d, "diff", "HEAD"]).stdout
        cur = None
        for l in sh(["git", "-C", d, "diff", "-U0", "HEAD"]).stdout.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
            if m:
                n = int(m[2]) if m[2] else 1
                for k in range(int(m[1]), int(m[1]) + n):
                    w = sh(["git", "-C", "/repo", "blame", "-s", "-L", f"{k},{k}", "--", cur]).stdout
                    if not w.startswith("^" + BASE):
                        log.append("NOT ORIGINAL: " + w.strip())
        out = "/tmp/w/seeded/" + b["id"]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(
            '#!/bin/bash\n# run with cwd /repo: exit 0 when the property holds\n'
            'd=$(cd "$(dirname "$0")" && pwd)\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
            'w=$(mktemp -d); cd "$w" || exit 9\n/opt/venv/bin/python "$d/demo.py"; rc=$?\n'
            'cd /; rm -rf "$w"; exit $rc\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        r0 = sh(["bash", out + "/demo.sh"], cwd="/repo", env=env("/repo"))
        r1 = sh(["bash", out + "/demo.sh"], cwd=d, env=env(d))
        if r0.returncode:
            log.append("DEMO FAILS ON /repo: " + r0.stdout[-600:])
        if not r1.returncode:
            log.append("DEMO PASSES WITH BUG")
        log.append("demo: " + (r1.stdout.strip().splitlines() or [""])[-1][:150])
        miss = tests(d)
        if miss:
            log.append("TESTS FAIL: %s" % miss)
        bad = any(re.match("[A-Z ]+[ :]", x) for x in log)
        c = sh([PY, "/verif/run.py", b["property"], "--tier", "quick"], cwd="/verif",
               env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_NOEVIDENCE="1"))
        hit = c.returncode == 1 and f"VIOLATION property={b['property']} " in c.stdout
        log.append("check rc=%d: %s" % (c.returncode, " | ".join(
            l for l in c.stdout.splitlines() if not l.startswith("  "))[:300]))
        if not bad:
            dst = "/verif/seeded/" + b["id"]
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
        return b["id"], ("INVALID" if bad else "caught" if hit else "MISSED"), log
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("specs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for i, s, log in ex.map(one, bugs):
            print(f"{i}: {s}")
            for l in log:
                print("    " + l)
            sys.stdout.flush()
