#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in checks/ is claimed, the others are listed as not applicable (yet)."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
STATEFUL = {"H01", "H02", "F02"}
for p in props:
    pid = p["id"]
    if not (ROOT / "checks" / f"{pid.lower()}.py").exists():
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    mod = importlib.import_module(f"checks.{pid.lower()}")
    tech = ("explicit-state model checking: exhaustive exploration of operation sequences on the real objects against a reference model"
            if pid in STATEFUL else
            "explicit-state model checking: exhaustive enumeration of bounded histories/configurations, reference model compared with the real code in every state")
    if pid == "X01":
        tech = "stateless model checking: exhaustive exploration of preemption-bounded schedules of the real code under a controlled scheduler"
    note = ("Exhaustive within the stated bounds: " + " ".join(mod.SPACE.split()) + " Trusts: the plain Python reference model in checks/"
            + f"{pid.lower()}.py (and mc/models.py), numpy/astropy containers used to pass and read data. Assumes: "
            + "; ".join(" ".join(a.split()) for a in getattr(mod, "ASSUMPTIONS", [])) + ".")
    checks.append(dict(property=pid, quick_cmd=f"{PY} run.py {pid} --tier quick", thorough_cmd=f"{PY} run.py {pid} --tier thorough",
                       evidence_file=f"evidence/{pid}.json", technique=tech, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd=f"{PY} run.py --selftest", checks=checks, not_applicable=na,
         notes="No hooks are needed: all checks drive the public API of the working tree in /repo (pure Python, nothing to build).")
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "claimed,", len(na), "not")
