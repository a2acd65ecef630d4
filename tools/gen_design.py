#!/opt/venv/bin/python
"""Writes DESIGN.md from tools/design_*.md, properties.jsonl, the check modules, the last evidence files and seeded/*/meta.json."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
T = ROOT / "tools"
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
out = [(T / "design_head.md").read_text().rstrip(), "", (T / "design_notes.md").read_text().rstrip(), ""]
results = json.loads((T / "seeded_results.json").read_text()) if (T / "seeded_results.json").exists() else {}
costs = json.loads((T / "costs.json").read_text()) if (T / "costs.json").exists() else {}
out += ["## Properties and how they are decided", ""]
for p in props:
    mod = importlib.import_module(f"checks.{p['id'].lower()}")
    out += [f"### {p['id']} {p['title']}", "", f"*Decides*: {p['statement']}", "", f"*Explored*: {' '.join(mod.SPACE.split())}", ""]
    ass = [" ".join(a.split()) for a in getattr(mod, "ASSUMPTIONS", [])]
    if ass:
        out += [f"*Assumes*: {'; '.join(ass)}.", ""]
    c = costs.get(p["id"])
    if c:
        out += [f"*Cost (quick, 8 cores)*: {c['states']} states, {c['transitions']} transitions, {c['traces']} real executions, {c['wall']} s."
                + (f" Thorough: {c['deep']['states']} states, {c['deep']['transitions']} transitions, {c['deep']['wall']} s." if c.get("deep") else ""), ""]
    out += [f"*Beyond the tests*: {p['why_tests_cant']}.", ""]
    seeds = [k for k, v in results.items() if p["id"] in v["caught_by"]]
    if seeds:
        out += [f"*Seeded changes caught*: {', '.join(sorted(seeds))}.", ""]
kf = (ROOT / "known_findings.txt").read_text().splitlines()
out += ["## Genuine defects found and repaired", "",
        "Each was shown on the real code by a check, is repaired by a `fix:` commit in `/repo`, and would be reported again if it returned. There are no unrepaired known findings." if not any(l.startswith("finding:") for l in kf) else "", ""]
out += ["* " + l[len("fixed: property="):] for l in kf if l.startswith("fixed:")]
out += ["", (T / "design_tail.md").read_text().rstrip(), "", "## Seeded changes", ""]
if results:
    out += ["| change | property | what it needs | caught by |", "|---|---|---|---|"]
    for d in sorted((ROOT / "seeded").glob("*/meta.json")):
        m = json.loads(d.read_text())
        r = results.get(d.parent.name, {"caught_by": []})
        out.append(f"| {d.parent.name} | {m['property']} | {m['needs']} | {', '.join(r['caught_by']) or 'none'} |")
(ROOT / "DESIGN.md").write_text("\n".join(out).rstrip() + "\n")
print(len(out), "lines")
