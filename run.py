#!/opt/venv/bin/python
"""Run one check:  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--job N] [--workers N]"""
import argparse
import os
import sys

for k, v in dict(
    SETUPTOOLS_SCM_PRETEND_VERSION="0.14.0",
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    MKL_NUM_THREADS="1",
    MPLBACKEND="Agg",
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0",
).items():
    os.environ[k] = v
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import engine  # noqa: E402

if __name__ == "__main__":
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--selftest", action="store_true", help="only check that the environment is complete (setup_cmd)")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--replay")
    p.add_argument("--job", type=int)
    p.add_argument("--workers", type=int)
    a = p.parse_args()
    if a.selftest:
        engine.setup_imports()
        import pyirf.interpolation, pyirf.io  # noqa: E401, F401

        print("ok")
        sys.exit(0)
    if a.replay:
        sys.exit(engine.replay(a.property, a.replay))
    sys.exit(engine.main(a.property, a.tier, a.workers, a.job))
