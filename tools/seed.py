#!/usr/bin/env python3
"""Development tool (no check uses it): builds and validates the planted bugs.

  seed.py make SPEC.py [ID...]   build seeded/<id>/ for the entries of SPEC.py (list SEEDS of dicts), validating each in a scratch copy
  seed.py check [ID...]          run the check of the property (and of `also`) against every planted bug, update tools/seeded_results.json
"""
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parent.parent
SEEDED = ROOT / "seeded"
WORK = pathlib.Path("/tmp/seedwork")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="0.14.0", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
DEMO_SH = """#!/bin/bash
# exit 0 if the property holds, 1 if not
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = """import os
import sys
import warnings

sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import astropy.units as u
import numpy as np
from astropy.table import QTable

"""


def sh(cmd, cwd, timeout=900, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def copy(name):
    d = WORK / name
    if d.exists():
        shutil.rmtree(d)
    WORK.mkdir(exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".pytest_cache"))
    return d


def stable_ok(d):
    r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "-k", "not prod5 and not (test_EnergyDispersionEstimator and specific)",
            "--deselect", "pyirf/interpolation/tests/test_component_estimator_specific_classes.py::test_EnergyDispersionEstimator", "pyirf"], d)
    tail = r.stdout.strip().splitlines()[-12:]
    return r.returncode == 0, "\n".join(tail)


def owned_lines(d, path):
    """line numbers (in HEAD) added by own commits"""
    out = set()
    r = sh(["git", "-C", "/repo", "diff", "-U0", "37e665b", "HEAD", "--", path], "/")
    for line in r.stdout.splitlines():
        if line.startswith("@@"):
            plus = line.split("+")[1].split(" ")[0]
            start, _, n = plus.partition(",")
            n = int(n) if n else 1
            out |= set(range(int(start), int(start) + n))
    return out


def make(s):
    d = copy(s["id"])
    msgs = []
    try:
        for path, old, new in s["edits"]:
            f = d / path
            t = f.read_text()
            if t.count(old) != s.get("count", 1):
                return s["id"], f"FAIL: {path}: {t.count(old)} matches of {old!r}"
            f.write_text(t.replace(old, new))
            compile(f.read_text(), path, "exec")
        patch = sh(["git", "diff"], d).stdout
        import re
        cur = None
        for line in patch.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            elif line.startswith("@@"):
                no = int(re.match(r"@@ -(\d+)", line).group(1))
            elif line.startswith("-") and not line.startswith("---"):
                if no in owned_lines(d, cur):
                    msgs.append(f"changes own line {cur}:{no}")
                no += 1
            elif line.startswith(" "):
                no += 1
        demo = d.parent / (s["id"] + "_demo")
        if demo.exists():
            shutil.rmtree(demo)
        demo.mkdir()
        (demo / "demo.sh").write_text(DEMO_SH)
        (demo / "demo.sh").chmod(0o755)
        (demo / "demo.py").write_text(HEAD + s["demo"].strip() + "\n")
        r = sh(["bash", str(demo / "demo.sh")], d)
        if r.returncode == 0:
            msgs.append("demo passes with the bug: " + r.stdout[-300:])
        elif "AssertionError" not in r.stderr and not s.get("crash"):
            msgs.append("demo fails unexpectedly: " + r.stderr[-600:])
        r = sh(["bash", str(demo / "demo.sh")], "/repo")
        if r.returncode:
            msgs.append("demo fails on the unchanged tree: " + r.stderr[-600:])
        ok, tail = stable_ok(d)
        if not ok:
            msgs.append("tests fail: " + tail)
        if msgs:
            return s["id"], "FAIL: " + " | ".join(msgs)
        dest = SEEDED / s["id"]
        if dest.exists():
            shutil.rmtree(dest)
        shutil.copytree(demo, dest)
        (dest / "patch.diff").write_text(patch)
        (dest / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        return s["id"], "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(WORK / (s["id"] + "_demo"), ignore_errors=True)


def check(name, extra):
    src = SEEDED / name
    meta = json.loads((src / "meta.json").read_text())
    d = copy("check_" + name)
    v = WORK / ("verif_" + name)
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(".git", "replays", "evidence", "__pycache__", "seeded"))
    try:
        r = sh(["git", "apply", str(src / "patch.diff")], d)
        if r.returncode:
            return name, None, "patch does not apply: " + r.stderr
        caught, log = [], []
        for p in [meta["property"]] + extra:
            r = sh([PY, "run.py", p, "--workers", "4"], v, env=dict(ENV, PYIRF_REPO=str(d)))
            line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode == 1 and line and f"property={p} " in line[0]:
                caught.append(p)
            log.append(f"{p}: rc {r.returncode} {line[0][:200] if line else r.stdout[-200:] + r.stderr[-200:]}")
        return name, caught, "; ".join(log)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


def main():
    what, args = sys.argv[1], sys.argv[2:]
    if what == "make":
        spec = runpy.run_path(args[0])["SEEDS"]
        todo = [s for s in spec if not args[1:] or s["id"] in args[1:]]
        with ThreadPoolExecutor(4) as ex:
            for name, msg in ex.map(make, todo):
                print(name, msg, flush=True)
    else:
        names = args or sorted(p.parent.name for p in SEEDED.glob("*/meta.json"))
        path = ROOT / "tools" / "seeded_results.json"
        with ThreadPoolExecutor(2) as ex:
            for name, caught, log in ex.map(lambda n: check(n, []), names):
                print(name, "CAUGHT" if caught else "MISSED", log, flush=True)
                res = json.loads(path.read_text()) if path.exists() else {}
                if caught is not None:
                    res[name] = {"caught_by": caught}
                path.write_text(json.dumps(res, indent=1, sort_keys=True) + "\n")


main()
