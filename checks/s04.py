import itertools
import math

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.models import cone, hist_bin, ring
from mc.util import INF, NAN, down, eq, multisets, need, orders, pump, pure, up

SPACE = """Event histories (multisets up to depth 3, thorough 4, several orders) over (energy: each edge, ulp neighbours, inside, outside)
x (offset: exact ring borders, ulp neighbours, inside, outside) x (weight, particle) for tables with and without weight and particle
columns; crossed with theta cut tables on the same, finer, coarser, shifted and single-bin binnings, rings (full disc, offset
ring, up to 180 deg), alpha and units; histories pumped to 70000 events."""

EDGES = {"one": [1.0, 2.0], "irr": [0.5, 1.0, 4.0]}
RINGS = [(0.0, 1.0), (0.5, 2.0), (2.0, 2.5), (0.0, 180.0), (1.0, 90.0)]
THETA = {
    "same": lambda e: ([0.5 * (a + b) for a, b in zip(e[:-1], e[1:])], None),
    "single": lambda e: ([0.7], None),
    "wide": lambda e: ([e[0] - 0.3, e[-1] + 5], None),
    "shifted": lambda e: ([e[0] + 0.1, e[0] + 0.3, e[-1] - 0.3], None),
    "beyond": lambda e: ([e[-1] + 1, e[-1] + 2], None),
    "fine": lambda e: ([0.11 + 0.13 * i for i in range(60)], None),
}


def jobs(tier):
    js = []
    for e in EDGES:
        for cols in ("none", "w", "wp", "p"):
            js.append(dict(kind="hist", edges=e, cols=cols, deep=tier == "thorough"))
    return js + [dict(kind="settings", edges=e) for e in EDGES] + [dict(kind="pump"), dict(kind="units")]


def theta_table(centers, unit="deg", cunit="TeV"):
    cuts = [[0.1, 0.25, 0.05, 0.3, 0.07, 2.0, 0.11][i % 7] for i in range(len(centers))]
    t = QTable()
    t["center"] = u.Quantity(centers, "TeV").to(cunit)
    t["low"] = t["center"] * 0.9
    t["high"] = t["center"] * 1.1
    t["cut"] = u.Quantity(cuts, "deg").to(unit)
    return t, cuts


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def make(hist, cols, eu="TeV", ou="deg"):
    t = QTable()
    t["reco_energy"] = u.Quantity([h[0] for h in hist], "TeV").to(eu)
    t["reco_source_fov_offset"] = u.Quantity([h[1] for h in hist], "deg").to(ou)
    t["true_energy"] = u.Quantity([1.1] * len(hist), "TeV")
    t["theta"] = u.Quantity([0.01] * len(hist), "deg")
    if "w" in cols:
        t["weight"] = np.array([h[2] for h in hist], dtype=float)
    if "p" in cols:
        t["particle_type"] = np.array([h[3] for h in hist], dtype="U10")
    return t


def check(res, hist, cols, edges, xs, cuts, alpha, rng):
    n = len(edges) - 1
    area = ring(math.radians(rng[0]), math.radians(rng[1]))
    scale = []
    for a, b in zip(edges[:-1], edges[1:]):
        c = interp(0.5 * (a + b), xs, cuts)
        scale.append(cone(math.radians(c)) / area / alpha)
    want = {"n": [0.0] * n, "n_weighted": [0.0] * n}
    sel = [h for h in hist if rng[0] <= h[1] < rng[1]]
    if "p" in cols:
        for p in {h[3] for h in sel}:
            want["n_" + p] = [0.0] * n
            want["n_" + p + "_weighted"] = [0.0] * n
    tot = sum(abs(h[2]) for h in sel) + len(sel)
    for h in sel:
        b = hist_bin(h[0], edges)
        if b is None:
            continue
        for c in ("n", "n_" + h[3]) if "p" in cols else ("n",):
            want[c][b] += scale[b]
            want[c + "_weighted"][b] += scale[b] * (h[2] if "w" in cols else 1.0)
    for c, w in want.items():
        need(c in res.colnames, f"column {c} missing")
        eq(res[c], w, None, c, rtol=1e-8, atol=1e-10 * tot * max(scale))
    for c in res.colnames:
        if c.startswith("n") and c not in want:
            eq(res[c], [0.0] * n, None, c)
    eq(res["reco_energy_low"], edges[:-1], "TeV", "low")
    eq(res["reco_energy_high"], edges[1:], "TeV", "high")
    eq(res["reco_energy_center"], [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])], "TeV", "center")
    return tuple(round(x, 9) for x in want["n_weighted"])


def run(job, rec):
    from pyirf.sensitivity import estimate_background as f

    def go(hist, cols, edges, tname, alpha, rng, units=("TeV", "deg", "TeV", "deg", "deg", "TeV"), again=False):
        xs, _ = THETA[tname](edges)
        t, cuts = theta_table(xs, units[4], units[5])
        res = pure(f, make(hist, cols, units[0], units[1]), u.Quantity(edges, "TeV").to(units[2]), t, alpha,
                   u.Quantity(rng[0], "deg").to(units[3]), u.Quantity(rng[1], "deg").to(units[3]), again=again)
        return check(res, hist, cols, edges, xs, cuts, alpha, rng)

    if job["kind"] == "hist":
        edges, cols = EDGES[job["edges"]], job["cols"]
        rng = (0.5, 2.0)
        es = [edges[0], down(edges[0]), down(edges[1]), edges[-1], up(edges[-1]), 0.5 * (edges[0] + edges[1])] + ([edges[1]] if len(edges) > 2 else [])
        os_ = [rng[0], down(rng[0]), up(rng[0]), rng[1], down(rng[1]), 1.0, 0.0, 3.0]
        wp = [(1.0, "proton"), (2.5, "electron")] if "w" in cols or "p" in cols else [(1.0, "x")]
        flat = [(e, o) + w for e in es for o in os_ for w in wp]
        for hist in multisets(flat, 2 if len(flat) < 60 else 1):
            with rec.case("events (E, offset, weight, particle)", hist, cols, "edges", edges, "ring", rng, steps=max(1, len(hist))):
                rec.outcome(go(list(hist), cols, edges, "same", 0.2, rng, again=len(hist) == 1))
        deep = [(e, o) + w for i, e in enumerate(es) for j, o in enumerate(os_) for k, w in enumerate(wp) if (i + 2 * j + k) % 6 == 0]
        for hist in multisets(deep, 3 + job["deep"], 2):
            for i, order in enumerate(orders(hist)):
                with rec.case("events (E, offset, weight, particle)", order, cols, "edges", edges, "ring", rng, states=int(i == 0), steps=len(hist)):
                    rec.outcome(go(order, cols, edges, "wide", 1.0, rng))
        return

    if job["kind"] == "settings":
        edges = EDGES[job["edges"]]
        hists = []
        for rng in RINGS:
            pts = [rng[0], down(rng[0]), rng[1], down(rng[1]), 0.5 * (rng[0] + rng[1]), rng[1] + 1]
            hists.append((rng, [(e, max(o, 0.0), 0.5 * (i + 1), ["proton", "electron"][i % 2]) for i, (e, o) in enumerate(itertools.product(
                [0.4, edges[0], 1.0, 1.5, 3.0, edges[-1], 5.0], pts))]))
        for rng, hist in hists:
            for tname, alpha, cols in itertools.product(THETA, (1.0, 0.2, 5.0, 1, 1e-4), ("none", "w", "p", "wp")):
                with rec.case("ring", rng, "theta cuts", tname, "alpha", alpha, "edges", edges, cols, steps=len(hist)):
                    rec.outcome(go(hist, cols, edges, tname, alpha, rng, again=alpha == 0.2))
            # no event in the ring / no event at all
            for cols in ("none", "w", "p", "wp"):
                for sub in ([], [h for h in hist if not rng[0] <= h[1] < rng[1]]):
                    with rec.case("no event inside the ring", rng, cols, len(sub)):
                        go(sub, cols, edges, "same", 0.2, rng)
        return

    if job["kind"] == "pump":
        for e in EDGES:
            edges = EDGES[e]
            for rng in RINGS:
                al = [(x, max(o, 0.0), w, p) for x in [0.4, edges[0], down(edges[1]), edges[-1], 7.0] for o in (rng[0], down(rng[0]), rng[1], down(rng[1]), 0.5 * sum(rng))
                      for w, p in ((1.0, "proton"), (0.3, "electron"), (100.0, "iron"), (2.0, "nitrogen"), (0.5, "n"), (3.0, "iron_56_a"))]
                for n in (10, 100, 1000, 70000):
                    for cols in ("none", "wp"):
                        hist = pump(al, n)
                        with rec.case("pumped to", n, "ring", rng, "edges", edges, cols, steps=n):
                            rec.outcome(go(hist, cols, edges, "same", 0.2, rng, again=n <= 100))
        return

    hist = [(x, o, 0.25 * (i + 1), ["proton", "electron"][i % 2]) for i, (x, o) in enumerate(itertools.product([0.4, 0.6, 1.1, 1.9, 3.7, 4.3], [0.1, 0.6, 1.9, 2.2, 50.0]))]
    for edges in EDGES.values():
        for units in itertools.product(("TeV", "GeV"), ("deg", "rad"), ("TeV", "GeV"), ("deg", "arcmin"), ("deg", "rad"), ("TeV", "GeV")):
            for rng in ((0.5, 2.0), (0.0, 1.0)):
                for tname in ("same", "shifted"):
                    with rec.case("units (E, offset, bins, ring, cut, cut center)", units, "ring", rng, "theta", tname, edges, steps=len(hist)):
                        go(hist, "wp", edges, tname, 0.2, rng, units, again=True)
