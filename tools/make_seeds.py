#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.py, each confirmed in a scratch copy.

usage: make_seeds.py [--tests] [--checks] [--keep] ids...     (no ids: all)
A definition file sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (python source run with cwd = the repository)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, "tools", "seeds")
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$tmp/numba MPLBACKEND=Agg PYTHONPATH=$PWD TMPDIR=$tmp DEMO_SCRATCH=$tmp
unset QS_CACHE_TDHO
cp "$here/demo.py" "$tmp/demo.py"
cd "$PWD" && timeout 280 /opt/venv/bin/python "$tmp/demo.py"
'''
base = None


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)


def one(i, tests, checks):
    ns = {}
    exec(open(os.path.join(SD, i + ".py")).read(), ns)
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed_" + i + "_", dir="/tmp")
    log = []
    try:
        c = os.path.join(t, "repo")
        sh(f"git clone -q /repo {c}", "/")
        open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"])
        p = os.path.join(d, "demo.sh")
        open(p, "w").write(DEMO_SH)
        os.chmod(p, 0o755)
        r0 = sh(f"bash {p}", c)
        for f, a, b in ns["EDITS"]:
            fp = os.path.join(c, "quantum_systems", f)
            s = open(fp).read()
            if s.count(a) != 1:
                return i, f"EDIT does not apply ({s.count(a)} matches) in {f}: {a!r}"
            open(fp, "w").write(s.replace(a, b))
        diff = sh("git diff", c).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        r1 = sh(f"bash {p}", c)
        log.append(f"demo base={r0.returncode} patched={r1.returncode}")
        if r0.returncode != 0:
            log.append("BASE DEMO FAILS: " + (r0.stdout + r0.stderr)[-700:])
        if r1.returncode == 0:
            log.append("PATCHED DEMO PASSES")
        bl = sh("git blame -s --line-porcelain HEAD -- " + " ".join("quantum_systems/" + f for f, _, _ in ns["EDITS"]), c)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        if tests:
            for nm in ("build", "test"):
                s = open(f"/opt/vp/{nm}.sh").read().replace("/repo", c)
                open(os.path.join(t, nm + ".sh"), "w").write(s)
            rb = sh(f"bash {t}/build.sh", c)
            if rb.returncode:
                log.append("BUILD FAILS " + rb.stderr[-300:])
            sh(f"bash {t}/test.sh {t}/out.json", c)
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            o = json.load(open(f"{t}/out.json"))
            passed = set(o.get("passed", []))
            miss = sorted(st - passed)
            log.append("tests ok" if not miss else f"TESTS FAIL {miss[:3]}")
        if checks:
            ids = [ns["PROPERTY"]] if checks == "own" else [x["property"] for x in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
            hit = []
            vc = os.path.join(t, "verif")
            shutil.copytree(V, vc, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "__pycache__"))
            for pid in ids:
                r = sh(f"timeout 900 python3 {vc}/check.py {pid}", vc, dict(os.environ, QSA_REPO=c))
                if r.returncode == 1 and f"VIOLATION property={pid} " in r.stdout:
                    hit.append(pid)
                elif r.returncode != 0:
                    hit.append(f"{pid}:rc{r.returncode}")
            log.append(("CAUGHT by " if ns["PROPERTY"] in hit else "MISSED; hits ") + ",".join(hit))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return i, "; ".join(log)


def main():
    a = sys.argv[1:]
    tests = "--tests" in a
    checks = "own" if "--own" in a else "all" if "--checks" in a else None
    ids = [x for x in a if not x.startswith("--")] or sorted(x[:-3] for x in os.listdir(SD) if x.endswith(".py"))
    with ThreadPoolExecutor(4 if tests else 8) as ex:
        for i, r in ex.map(lambda i: one(i, tests, checks), ids):
            print(i, r, flush=True)


main()
