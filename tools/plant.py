#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds/*.py and try every one in scratch copies of /repo.

A seed file defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text).
usage: plant.py [--notests] [ids...]
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "052ca7e"
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           MPLCONFIGDIR="/tmp/mplplant", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **k)


def tests(cwd):
    x = os.path.join(cwd, "junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=120", "--continue-on-collection-errors", "-W", "ignore::DeprecationWarning",
        "-o", "junit_family=xunit2", "--junitxml=" + x], cwd, timeout=1500)
    import xml.etree.ElementTree as E
    ok = set()
    for t in E.parse(x).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in t):
            ok.add(t.get("classname") + "::" + t.get("name"))
    os.remove(x)
    return sorted(STABLE - ok)


def plant(path, with_tests):
    s = runpy.run_path(path)
    d = os.path.join(V, "seeded", s["ID"])
    w = tempfile.mkdtemp(prefix="plant_")
    repo = w + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=${TMPDIR:-/tmp}/mpl_demo OMP_NUM_THREADS=1\n'
                                        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        r0 = sh(["bash", d + "/demo.sh"], repo)
        for f, old, new in s["EDITS"]:
            p = repo + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                return s["ID"], f"NO: {t.count(old)} places for {old[:50]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        open(d + "/patch.diff", "w").write(diff)
        # removed lines have to be lines of the original repository
        blame = []
        for f, old, new in s["EDITS"]:
            orig = sh(["git", "show", BASE + ":" + f], repo).stdout.splitlines()
            gone = [l[1:] for l in sh(["git", "diff", "-U0", "--", f], repo).stdout.splitlines() if l[:1] == "-" and l[:3] != "---"]
            blame += [l for l in gone if l not in orig]
        r1 = sh(["bash", d + "/demo.sh"], repo)
        msg = []
        if blame:
            msg.append("changes lines of fix commits: " + repr(blame[:2]))
        if r0.returncode != 0:
            msg.append("demo fails on the clean tree: " + (r0.stdout + r0.stderr)[-300:])
        if r1.returncode == 0:
            msg.append("demo passes with the patch")
        if with_tests:
            bad = tests(repo)
            if bad:
                msg.append("tests fail: " + ", ".join(bad[:4]))
        return s["ID"], "; ".join(msg) or "ok   | " + ((r1.stdout + r1.stderr).strip().splitlines() or ["-"])[-1][:120]
    finally:
        shutil.rmtree(w, ignore_errors=True)


args = [a for a in sys.argv[1:] if a != "--notests"]
files = sorted(os.path.join(V, "tools", "seeds", f) for f in os.listdir(V + "/tools/seeds") if f.endswith(".py"))
files = [f for f in files if not args or any(a in os.path.basename(f) for a in args)]
with ThreadPoolExecutor(8) as ex:
    for i, m in ex.map(lambda f: plant(f, "--notests" not in sys.argv), files):
        print(f"{i:34s} {m}")
