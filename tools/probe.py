#!/usr/bin/env python3
"""Development tool (no check uses it): apply small edits to a copy of /repo, run its tests and the checks on it, without writing a planted bug.

  probe.py SPEC.py [NAME...]     SPEC.py has PROBES = [(name, [checks], [(path, old, new)...]), ...]
"""
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="0.14.0", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
PY = "/opt/venv/bin/python"
WORK = pathlib.Path("/tmp/probe")


def one(t):
    name, checks, edits = t
    d, v = WORK / name, WORK / ("v_" + name)
    for x in (d, v):
        shutil.rmtree(x, ignore_errors=True)
    d.mkdir(parents=True)
    shutil.copytree("/repo/pyirf", d / "pyirf", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy("/repo/pyproject.toml", d)
    shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "replays", "evidence", "__pycache__", "seeded"))
    try:
        for p, old, new in edits:
            f = d / "pyirf" / p
            s = f.read_text()
            if s.count(old) < 1:
                return name, "NOT FOUND " + old[:60]
            f.write_text(s.replace(old, new, 1))
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=60", "-k", "not prod5 and not (test_EnergyDispersionEstimator and specific)",
                            "--deselect", "pyirf/interpolation/tests/test_component_estimator_specific_classes.py::test_EnergyDispersionEstimator", "pyirf"],
                           cwd=d, env=ENV, capture_output=True, text=True)
        tests = "" if r.returncode == 0 else "(tests fail) "
        for c in checks:
            r = subprocess.run([PY, "run.py", c, "--workers", "4"], cwd=v, env=dict(ENV, PYIRF_REPO=str(d), MC_FAILFAST="1"), capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return name, tests + "caught " + c
            if r.returncode:
                return name, tests + f"{c} exit {r.returncode} {r.stdout[-300:]} {r.stderr[-300:]}"
        return name, tests + "MISSED"
    finally:
        for x in (d, v):
            shutil.rmtree(x, ignore_errors=True)


def main():
    probes = runpy.run_path(sys.argv[1])["PROBES"]
    todo = [p for p in probes if not sys.argv[2:] or p[0] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for name, msg in ex.map(one, todo):
            print(name, msg, flush=True)


main()
