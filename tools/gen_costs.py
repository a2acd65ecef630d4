#!/usr/bin/env python3
"""Writes tools/costs.json from the last evidence files (quick and thorough tiers are kept side by side)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
path = ROOT / "tools" / "costs.json"
costs = json.loads(path.read_text()) if path.exists() else {}
for f in sorted((ROOT / "evidence").glob("*.json")):
    e = json.loads(f.read_text())
    c = e["coverage"]
    row = {"states": c["states"], "transitions": c["transitions"], "traces": c["traces_validated_against_impl"], "wall": round(e["wall_s"])}
    if e["tier"] == "quick":
        costs.setdefault(e["property"], {}).update(row)
    else:
        costs.setdefault(e["property"], {})["deep"] = row
path.write_text(json.dumps(costs, indent=1, sort_keys=True) + "\n")
