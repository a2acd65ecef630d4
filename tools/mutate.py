#!/usr/bin/env python3
"""Development tool (no check uses it): exhaustive small source mutations, filtered by the repository's own tests, run against the checks.

  mutate.py list              number of mutants per file
  mutate.py filter OUT.json   run the stable tests on every mutant (8 workers), write the survivors
  mutate.py check IN.json OUT.json [FILE...]   run the related checks on the survivors
"""
import ast
import difflib
import json
import os
import pathlib
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

REPO = pathlib.Path("/repo")
ENV = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="0.14.0", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
PY = "/opt/venv/bin/python"
CHECKS = {
    "binning.py": ["B01", "B02", "B03", "B04"], "cuts.py": ["C01", "C02", "C03"], "cut_optimization.py": ["C03"], "statistics.py": ["S01"],
    "sensitivity.py": ["S02", "S03", "S04", "C03"], "simulations.py": ["M01", "M02", "M03"], "spectral.py": ["W01", "W02", "W03"],
    "irf/effective_area.py": ["I01"], "irf/energy_dispersion.py": ["I02", "I03"], "irf/psf.py": ["I04"], "irf/background.py": ["I05"],
    "benchmarks/angular_resolution.py": ["Q01"], "benchmarks/energy_bias_resolution.py": ["Q02", "Q03"], "coordinates.py": ["G01"],
    "utils.py": ["G01", "G02", "V01", "S03", "S04"], "exceptions.py": ["V01"], "io/gadf.py": ["F01", "F02"], "io/eventdisplay.py": ["F03"], "gammapy.py": ["F04"],
    "interpolation/griddata_interpolator.py": ["T04", "T02"], "interpolation/nearest_neighbor_searcher.py": ["T08"], "interpolation/nearest_simplex_extrapolator.py": ["T04", "T07", "T01", "T05"],
    "interpolation/visible_edges_extrapolator.py": ["T04"], "interpolation/quantile_interpolator.py": ["T07", "T01", "T02"], "interpolation/moment_morph_interpolator.py": ["T07", "T01", "T02"],
    "interpolation/utils.py": ["T04", "T07", "T01"], "interpolation/component_estimators.py": ["T02", "T05", "T06", "T01", "T03", "T07"],
    "interpolation/base_interpolators.py": ["T05", "T08", "T04"], "interpolation/base_extrapolators.py": ["T05", "T04"],
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.FloorDiv: ["/"], ast.Mod: ["+"]}
SWAP = {"minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "sin": "cos", "cos": "sin", "any": "all", "all": "any",
        "floor": "ceil", "ceil": "floor", "nanmedian": "nanmean", "logical_and": "logical_or", "isnan": "isfinite", "zeros": "ones", "full_like": "zeros_like", "log10": "log", "log": "log10",
        "diff": "ediff1d", "clip": "maximum", "left": "right", "right": "left", "true": "reco", "low": "high", "high": "low", "deg": "rad", "rad": "deg", "TeV": "GeV", "lon": "lat", "lat": "lon",
        "ravel": "copy", "isclose": "equal", "argsort": "sort", "cumsum": "cumprod", "squeeze": "copy"}


def mutants(path):
    src = path.read_text()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    bts = src.encode() == src.encode("ascii", "ignore")

    def pos(line, col):
        return starts[line - 1] + (col if bts else len(lines[line - 1].encode()[:col].decode()))

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]

    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            skip.add(id(n.body[0]))
            skip.add(id(n.body[0].value))
        if isinstance(n, ast.FunctionDef) and n.name == "__repr__":
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("log", "logging", "warnings"):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.FunctionDef):
            for dec in n.decorator_list:
                skip.update(id(x) for x in ast.walk(dec))
    out = []

    def put(a, b, new, why, line):
        if src[a:b] != new:
            out.append((src[:a] + new + src[b:], f"{path.name}:{line} {why}: {src[a:b][:60]!r} -> {new[:60]!r}"))

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                a, b = span(left)[1], span(right)[0]
                for new in CMP.get(type(op), []):
                    mid = src[a:b]
                    if "(" in mid or ")" in mid or "\n" in mid:
                        continue
                    put(a, b, f" {new} ", "cmp", n.lineno)
                left = right
        elif isinstance(n, (ast.BinOp,)):
            a, b = span(n.left)[1], span(n.right)[0]
            for new in BIN.get(type(n.op), []):
                mid = src[a:b]
                s = mid.strip().strip("()").strip()
                k = mid.find(s)
                if s and k >= 0 and s in ("+", "-", "*", "/", "**", "&", "|", "//", "%"):
                    put(a + k, a + k + len(s), new, "op", n.lineno)
            for keep, drop in ((n.left, n.right), (n.right, n.left)):
                if isinstance(n.op, (ast.Mult, ast.Add, ast.Div, ast.Sub, ast.BitAnd)):
                    put(*span(n), f"({text(keep)})", "drop operand", n.lineno)
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                put(*span(n), f"({text(v)})", "bool part", n.lineno)
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                put(*span(n), f"({text(n.operand)})", "unary", n.lineno)
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(*span(n), str(not v), "bool", n.lineno)
            elif isinstance(v, int):
                for new in (v + 1, v - 1):
                    put(*span(n), f"{new}" if new >= 0 else f"({new})", "int", n.lineno)
            elif isinstance(v, float):
                put(*span(n), repr(v * 1.25 if v else 0.5), "float", n.lineno)
            elif isinstance(v, str) and v in SWAP:
                put(*span(n), repr(SWAP[v]), "str", n.lineno)
            elif isinstance(v, str) and len(v) < 40:
                put(*span(n), repr(v + "X"), "str", n.lineno)
        elif isinstance(n, ast.Attribute):
            if n.attr in SWAP:
                a, b = span(n)
                put(b - len(n.attr), b, SWAP[n.attr], "attr", n.lineno)
            if n.attr == "T":
                put(*span(n), text(n.value), "no T", n.lineno)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "reshape", "to", "swapaxes") and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "u")):
                put(*span(n), text(n.func.value), "drop method", n.lineno)
            for k in n.keywords:
                if k.arg:
                    a, b = span(k.value)
                    a = pos(k.lineno, k.col_offset)
                    e = b
                    while e < len(src) and src[e] in " \n,":
                        e += 1
                        if src[e - 1] == ",":
                            break
                    if src[e - 1] != ",":
                        e = b
                    put(a, e, "", f"drop keyword {k.arg}", n.lineno)
            for x, y in zip(n.args, n.args[1:]):
                if isinstance(x, ast.Starred) or isinstance(y, ast.Starred):
                    continue
                put(span(x)[0], span(y)[1], text(y) + src[span(x)[1]:span(y)[0]] + text(x), "swap args", n.lineno)
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute):
                put(*span(n), f"({text(n.args[0])})", "drop call", n.lineno)
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(*span(n.test), f"(True or {text(n.test)})" if isinstance(n, ast.IfExp) else "True", "cond", n.test.lineno)
            put(*span(n.test), "False", "cond", n.test.lineno)
        elif isinstance(n, (ast.Expr, ast.AugAssign)) or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Name, ast.Attribute)):
            put(*span(n), "pass", "drop statement", n.lineno)
            if isinstance(n, ast.AugAssign):
                pass
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                put(*span(n.lower), "", "slice", n.lineno)
            if n.upper is not None:
                put(*span(n.upper), "", "slice", n.lineno)
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            x, y = n.value.elts
            put(span(x)[0], span(y)[1], text(y) + ", " + text(x), "swap return", n.lineno)
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(*span(n), "pass", "no jump", n.lineno)
    seen, res = set(), []
    for s, d in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        res.append((s, d))
    return res


def all_mutants(files=None):
    for f in files or CHECKS:
        for i, (s, d) in enumerate(mutants(REPO / "pyirf" / f)):
            yield f, i, s, d


def setup(w):
    d = pathlib.Path(f"/tmp/mut/{w}")
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    shutil.copytree(REPO / "pyirf", d / "pyirf", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(REPO / "pyproject.toml", d)
    return d


FAILING = ["test_EffectiveAreaEstimator_prod5", "test_EnergyDispersionEstimator"]


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        for f in CHECKS:
            print(len(mutants(REPO / "pyirf" / f)), f)
    elif cmd == "show":
        for f, i, s, d in all_mutants([sys.argv[2]]):
            if int(sys.argv[3]) == i:
                a = (REPO / "pyirf" / f).read_text()
                print("".join(difflib.unified_diff(a.splitlines(True), s.splitlines(True), f"a/pyirf/{f}", f"b/pyirf/{f}")))
    elif cmd == "filter":
        out = pathlib.Path(sys.argv[2])
        todo = list(all_mutants(sys.argv[3:] or None))
        q = queue.Queue()
        for w in range(8):
            q.put(setup(w))
        done = []

        def one(t):
            f, i, s, d = t
            w = q.get()
            p = w / "pyirf" / f
            orig = (REPO / "pyirf" / f).read_text()
            try:
                p.write_text(s)
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=60", "-k", "not prod5 and not (test_EnergyDispersionEstimator and specific)",
                                    "--deselect", "pyirf/interpolation/tests/test_component_estimator_specific_classes.py::test_EnergyDispersionEstimator", "pyirf"],
                                   cwd=w, env=ENV, capture_output=True, text=True, timeout=300)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            finally:
                p.write_text(orig)
                q.put(w)
            done.append(1)
            if len(done) % 50 == 0:
                print(len(done), "of", len(todo), flush=True)
            return ok

        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, todo))
        surv = [dict(file=t[0], n=t[1], why=t[3]) for t, ok in zip(todo, res) if ok]
        out.write_text(json.dumps(surv, indent=0))
        print(len(todo), "mutants,", len(surv), "pass the tests")
    elif cmd == "check":
        surv = json.loads(pathlib.Path(sys.argv[2]).read_text())
        out = pathlib.Path(sys.argv[3])
        files = sys.argv[4:]
        res = json.loads(out.read_text()) if out.exists() else {}
        cache = {}
        nw = 4
        q = queue.Queue()
        for w in range(nw):
            d = setup(f"c{w}")
            v = pathlib.Path(f"/tmp/mut/v{w}")
            if v.exists():
                shutil.rmtree(v)
            shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "replays", "evidence", "__pycache__", "seeded"))
            q.put((d, v))

        def one(m):
            key = m["why"]
            if key in res or files and m["file"] not in files:
                return
            if m["file"] not in cache:
                cache[m["file"]] = mutants(REPO / "pyirf" / m["file"])
            s = dict((d, s) for s, d in cache[m["file"]]).get(m["why"])
            if s is None:
                return
            w, v = q.get()
            p = w / "pyirf" / m["file"]
            orig = (REPO / "pyirf" / m["file"]).read_text()
            caught = []
            try:
                p.write_text(s)
                for c in CHECKS[m["file"]]:
                    try:
                        r = subprocess.run([PY, "run.py", c, "--workers", "2"], cwd=v, env=dict(ENV, PYIRF_REPO=str(w), MC_FAILFAST="1"), capture_output=True, text=True, timeout=900)
                        if r.returncode == 1 and "VIOLATION" in r.stdout:
                            caught = [c]
                            break
                        if r.returncode != 0:
                            caught.append(f"{c}:exit {r.returncode} {r.stderr[-300:]}")
                    except subprocess.TimeoutExpired:
                        caught.append(f"{c}:timeout")
            finally:
                p.write_text(orig)
                q.put((w, v))
            res[key] = caught
            out.write_text(json.dumps(res, indent=0))
            if not caught or ":" in caught[0]:
                print("MISSED", m["file"], m["why"], caught, flush=True)

        with ThreadPoolExecutor(nw) as ex:
            list(ex.map(one, surv))
        mine = [r for k, r in res.items()]
        print("caught", sum(bool(r) for r in mine), "of", len(mine))


main()
