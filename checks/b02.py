import itertools

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.models import hist_bin
from mc.util import (INF, NAN, down, eq, layouts, multisets, need, orders, pump, pure, raises, table, up)

SPACE = """Event histories (multisets up to depth 4, thorough 5; each executed in up to three orders) over the alphabet
(position relative to the edges: below, exact edges, ulp neighbours, inside, last edge, above, nan) x (weight) x (particle
type), for tables with and without weight / particle_type columns, 1 to 4 uniform and irregular bins, the two event keys,
units and dtypes; plus the same histories pumped cyclically to 10..70000 events. The model adds one event at a time to
plain Python counters."""
ASSUMPTIONS = ["weighted sums are compared up to 1e-9 of the sum of absolute weights"]

EDGES = {
    "one": [1.0, 2.0],
    "irr": [0.5, 1.0, 4.0, 5.0],
    "uni": [0.0, 1.0, 2.0, 3.0, 4.0],
    "log": [0.01, 0.1, 1.0, 10.0],
    "nearly uniform": [1.0, 2.0, 3.004, 4.0],
}
WEIGHTS = [1.0, 0.25, 0.0, -2.0, 1e6]
PARTICLES = ["gamma", "proton", "gamma_diffuse"]


def positions(edges):
    vals = []
    for e in edges:
        vals += [e, down(e), up(e)]
    vals += [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])]
    vals += [edges[0] - 5, edges[-1] + 5, INF, -INF, NAN]
    return vals


def jobs(tier):
    deep = tier == "thorough"
    js = []
    for name in EDGES:
        for cols in ("none", "w", "p", "wp"):
            js.append(dict(kind="hist", edges=name, cols=cols, deep=deep))
        js.append(dict(kind="pump", edges=name, deep=deep))
    js.append(dict(kind="units"))
    return js


def model(hist, edges, cols):
    """hist: list of (x, w, p)"""
    n = len(edges) - 1
    res = {"n": [0] * n, "n_weighted": [0.0] * n}
    if "p" in cols:
        for p in {h[2] for h in hist}:
            res["n_" + p] = [0] * n
            res["n_" + p + "_weighted"] = [0.0] * n
    for x, w, p in hist:
        b = hist_bin(x, edges)
        if b is None:
            continue
        wt = w if "w" in cols else 1
        res["n"][b] += 1
        res["n_weighted"][b] += wt
        if "p" in cols:
            res["n_" + p][b] += 1
            res["n_" + p + "_weighted"][b] += wt
    return res


def make(hist, cols, key, unit=None, cls=QTable):
    t = cls()
    x = np.array([h[0] for h in hist], dtype=float)
    t[key] = u.Quantity(x, unit) if unit else x
    t["other_energy"] = np.full(len(hist), 1.7) * (u.Unit(unit) if unit else 1)
    if "w" in cols:
        t["weight"] = np.array([h[1] for h in hist], dtype=float)
    if "p" in cols:
        t["particle_type"] = np.array([h[2] for h in hist], dtype="U16")
    return t


def check(t, edges, bins, key, cols, hist, unit=None, again=False):
    from pyirf.binning import create_histogram_table as f

    call = lambda *a: f(*a) if key == "reco_energy" else f(*a, key=key)  # noqa: E731
    res = pure(call, t, bins, again=again)
    want = model(hist, edges, cols)
    need(len(res) == len(edges) - 1, f"{len(res)} rows")
    eq(res[key + "_low"], edges[:-1], unit, "low")
    eq(res[key + "_high"], edges[1:], unit, "high")
    mid = np.array([0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])])
    center = res[key + "_center"]
    need(center.shape == mid.shape and not np.isfinite(np.asarray(center)[~np.isfinite(mid)]).any(), "center of bins with an infinite edge")
    eq(center[np.isfinite(mid)], mid[np.isfinite(mid)], unit, "center")
    scale = sum(abs(h[1]) for h in hist) if "w" in cols else 0
    got = {c for c in res.colnames if c.startswith("n")}
    if not ("p" in cols and not hist):
        need(got == set(want), f"columns {sorted(got)}, expected {sorted(want)}")
    for c, w in want.items():
        eq(res[c], w, "" if getattr(res[c], "unit", None) is not None else None, c, atol=1e-9 * scale)
    return tuple(want["n"])


def run(job, rec):
    if job["kind"] == "hist":
        edges, cols = EDGES[job["edges"]], job["cols"]
        pos = positions(edges)
        k = 0
        # depth 1-2 over all positions, deeper over the positions that behave differently
        key_pos = [edges[0], down(edges[0]), down(edges[-1]), edges[-1], up(edges[-1]), 0.5 * (edges[0] + edges[1]), NAN]
        if len(edges) > 2:
            key_pos += [edges[1], down(edges[1])]
        ws = WEIGHTS if "w" in cols else [1.0]
        ps = PARTICLES if "p" in cols else ["x"]
        al2 = [(x, w, p) for x in pos for w in ws[:2] for p in ps[:2]]
        deep = [(x, w, p) for i, x in enumerate(key_pos) for j, w in enumerate(ws) for m, p in enumerate(ps)
                if (i + j + m) % (1 if len(ws) * len(ps) == 1 else 3 if len(ws) * len(ps) <= 5 else 7) == 0]
        depth3 = 4 if len(deep) <= 12 else 3
        if job["deep"]:
            depth3 += 1
        for hists in (multisets(al2, 2 if len(al2) < 45 or job['deep'] else 1), multisets(deep, depth3, 2)):
            for hist in hists:
                for i, order in enumerate(orders(hist)):
                    key = "true_energy" if k % 4 == 3 else "reco_energy"
                    k += 1
                    with rec.case("events", order, "columns", cols, "edges", edges, key, states=int(i == 0), steps=max(1, len(hist))):
                        rec.outcome(check(make(order, cols, key), edges, np.array(edges), key, cols, order,
                                          again=i == 0 and k % 7 == 0))
        return

    if job["kind"] == "pump":
        edges = EDGES[job["edges"]]
        pos = [p for p in positions(edges) if p == p]
        al = [(x, w, p) for x in pos for w in WEIGHTS for p in PARTICLES]
        al = al[::1]
        for cols in ("none", "w", "p", "wp"):
            for n in (5, 10, 33, 100, 256, 1000, 5000) + ((70000, 300000) if job["deep"] else (70000,)):
                for sub in (al, al[1::4], [a for a in al if edges[0] <= a[0] < edges[-1]]):
                    hist = pump(sub, n)
                    with rec.case("pumped to", n, "from", len(sub), "events, columns", cols, "edges", edges, steps=n):
                        rec.outcome(check(make(hist, cols, "reco_energy"), edges, np.array(edges), "reco_energy", cols, hist,
                                          again=n <= 1000))
        # one bin gets a very large number of events
        x = 0.5 * (edges[0] + edges[1])
        for n in (200, 300, 40000, 70000):
            hist = [(x, 1.0, "gamma")] * n
            with rec.case(n, "equal events", edges, steps=n):
                check(make(hist, "wp", "reco_energy"), edges, np.array(edges), "reco_energy", "wp", hist)
        return

    # units, layouts, dtypes
    vals = [0.05, 0.2, 0.7, 1.3, 3.05, 4.2, 4.9, 8.0]
    for name in EDGES:
        edges = EDGES[name]
        for eu, du in itertools.product(("TeV", "GeV", "erg"), repeat=2):
            for cols in ("none", "w", "p", "wp"):
                hist = [(x, WEIGHTS[i % 5], PARTICLES[i % 3]) for i, x in enumerate(vals)]
                for order in orders(hist):
                    with rec.case("units", du, eu, "edges", edges, cols, order, steps=len(order)):
                        t = make([], cols, "reco_energy", "TeV")
                        t = make(order, cols, "reco_energy", "TeV")
                        t["reco_energy"] = t["reco_energy"].to(du)
                        bins = u.Quantity(edges, "TeV").to(eu)
                        check(t, edges, bins, "reco_energy", cols, order, unit="TeV", again=True)
        pos = [p for p in positions(edges) if p == p]
        hist = [(x, WEIGHTS[i % 5], PARTICLES[i % 3]) for i, x in enumerate(pos)]
        for unit in ("TeV", "deg", "GeV"):
            with rec.case("exact edges in", unit, edges, steps=len(hist)):
                check(make(hist, "wp", "reco_energy", unit), edges, u.Quantity(edges, unit), "reco_energy", "wp", hist, unit=unit)
        for lname, arr in layouts(np.array([float(int(v)) for v in pos if abs(v) < INF])):
            for wname, w in layouts(np.array([float(i % 5) for i in range(len(arr))])):
                with rec.case("layout", lname, "weights", wname, edges, steps=len(arr)):
                    t = QTable()
                    t.add_column(arr, name="reco_energy")
                    t.add_column(w, name="weight")
                    t["particle_type"] = [PARTICLES[i % 3] for i in range(len(arr))]
                    h = [(float(a), float(b), PARTICLES[i % 3]) for i, (a, b) in enumerate(zip(arr, w))]
                    check(t, edges, np.array(edges), "reco_energy", "wp", h)
    for names in itertools.permutations(["n", "nitrogen", "n_n", "p", "electron_weight", "low", " n", "n ", "N", "10", "gamma-diffuse", "he_4_x_y", "a b"], 2):
        for edges in EDGES.values():
            with rec.case("particle types", names, edges):
                h = [(float(e), float(i + 1), names[i % 2]) for i, e in enumerate(edges + edges[:1])]
                check(make(h, "wp", "reco_energy"), edges, np.array(edges), "reco_energy", "wp", h)
    # weights given as dimensionless quantities and overflow bins
    for edges in ([0.0, 1.0, 2.0, INF], [-INF, 0.0, 1.5, 2.0, INF]):
        pos = [p for p in (0.0, 1.0, down(1.0), 1.5, 2.0, 7.0, INF, -3.0, NAN)]
        for cols in ("none", "w", "p", "wp"):
            for hist in multisets([(x, w, p) for x in pos for w, p in ((1.0, "gamma"), (0.25, "proton"))], 2):
                with rec.case("overflow edges", edges, "events", hist, cols):
                    check(make(hist, cols, "reco_energy"), edges, np.array(edges), "reco_energy", cols, list(hist))
    # names as written to FITS files by other tools: bytes, and fixed-width columns of several widths
    for width in ("S13", "S32", "U13", "U32"):
        hist = [(x, float(i % 4), PARTICLES[i % 3]) for i, x in enumerate(vals)]
        if max(len(p) for p in PARTICLES) > int(width[1:]):
            continue
        for name in EDGES:
            for cols in ("p", "wp"):
                with rec.case("particle types as", width, EDGES[name], cols):
                    t = make(hist, cols, "reco_energy")
                    t["particle_type"] = np.array([h[2] for h in hist], dtype="U32").astype(width)
                    check(t, EDGES[name], np.array(EDGES[name]), "reco_energy", cols, hist)
    for wtype in ("quantity", "int", "float32"):
        hist = [(x, float(i % 4), PARTICLES[i % 3]) for i, x in enumerate(vals)]
        for name in EDGES:
            with rec.case("weights as", wtype, EDGES[name]):
                t = make(hist, "wp", "reco_energy")
                w = np.array([h[1] for h in hist])
                t["weight"] = {"quantity": u.Quantity(w), "int": w.astype(int), "float32": w.astype("f4")}[wtype]
                check(t, EDGES[name], np.array(EDGES[name]), "reco_energy", "wp", hist)
