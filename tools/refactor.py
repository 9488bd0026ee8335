#!/usr/bin/env python3
"""behaviour-preserving edits: refactor.py [-j N] [ID ...]   (development tool)

Applies each variant of tools/refactorings.py to a scratch copy of /repo and runs every
check (quick) against it.  All must stay quiet; what could not be decided is listed."""
import argparse, concurrent.futures as cf, glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
PIDS = sorted(os.path.basename(f)[:3].upper() for f in glob.glob(H + "/../props/c*_*.py"))


def run(d, pid):
    p = subprocess.run([sys.executable, H + "/../run.py", pid, "-v"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE="1", VERIF_SEED="1"))
    return pid, p.returncode, p.stdout


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-j", type=int, default=1)
    a.add_argument("--checks", default="")
    a.add_argument("ids", nargs="*")
    a.add_argument("--dry", action="store_true")
    a.add_argument("--keep", default="")
    a = a.parse_args()
    spec = importlib.util.spec_from_file_location("rf", H + "/refactorings.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    pids = a.checks.split(",") if a.checks else PIDS
    bad = 0
    for name, edits in m.VARIANTS.items():
        if a.ids and name not in a.ids:
            continue
        d = tempfile.mkdtemp(prefix="rf-") + "/repo"
        shutil.copytree("/repo", d, symlinks=True)
        err = []
        for f, o, n in edits:
            p = d + "/src/mud/" + f
            s = open(p).read()
            rx = re.sub(r"(\\\n)+", lambda m: r"\n(?:[ ]*\n)*", re.escape(o))
            k = len(re.findall(rx, s))
            if k != 1:
                err.append(f"{f}: {k} matches of {o!r}")
            open(p, "w").write(re.sub(rx, lambda m: n, s))
        if err:
            print(name, "EDIT", err, flush=True)
            shutil.rmtree(os.path.dirname(d))
            continue
        if a.dry:
            print(name, "ok", len(edits))
            if a.keep:
                shutil.copytree(d, a.keep, dirs_exist_ok=True)
            shutil.rmtree(os.path.dirname(d))
            continue
        with cf.ThreadPoolExecutor(a.j) as ex:
            for pid, rc, out in ex.map(lambda p: run(d, p), pids):
                und, cur = [], ""
                for l in out.splitlines():
                    if l.startswith("  ["):
                        cur = l.split()[0]
                    elif re.match(r"     (spurious|degraded|inconclusive|ERROR)", l):
                        und.append(cur + l)
                    elif "not fully decided" in l:
                        und.append(l)
                if rc or und:
                    print(f"{name} {pid} rc={rc}", flush=True)
                    for l in [x for x in out.splitlines() if "VIOLATION" in x or re.match(r"  [^ \[]", x)][:12] + und if rc else und:
                        print("    ", l[:300], flush=True)
                    bad += rc != 0
        shutil.rmtree(os.path.dirname(d))
        print(name, "done", flush=True)
    print("noisy:", bad)


main()
