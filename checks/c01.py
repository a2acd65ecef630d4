import itertools
import math

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.models import OVER, UNDER, bin_of, quantile
from mc.util import INF, NAN, down, eq, layouts, multisets, need, orders, pump, pure, up

SPACE = """Event histories (multisets up to depth 3, thorough 4, in several orders) over (bin position: below, each edge, ulp
neighbours, inside, at/above the last edge, nan) x (value), crossed with settings: percentile (0, 25, 50, 68, 100, lists of
2 and 3), min_events 0..4 and default, min/max values (none, one, both, binding or not), fill values (number, inf, nan, other
unit), smoothing (none, 0.5, 1, 2), 1 to 6 bins; events with infinite and nan values (they count as events; nan does not enter
the percentile, infinities take part in the order); histories pumped to 70000 events; units, dtypes and layouts of values and
bin values. The model keeps one plain list of values per bin."""
ASSUMPTIONS = ["a percentile that interpolates with an infinite value, or of nan values only, is not compared"]

EDGES = {"one": [1.0, 2.0], "irr": [0.5, 1.0, 4.0], "five": [0.0, 1.0, 2.0, 4.0, 8.0, 16.0]}
VALS = [3.0, 1.0, 10.0, -2.5]

SETTINGS = []
for p in (68, 50, 0, 100, 25.5, [68, 95], [10, 50, 90], [99]):
    for me in (1, 2, 0, 3):
        for mm in ((None, None), (1.5, None), (None, 2.5), (1.5, 2.5)):
            for fill in (-99.0, INF, NAN):
                SETTINGS.append(dict(percentile=p, min_events=me, min_value=mm[0], max_value=mm[1], fill_value=fill))
# a covering subset for the event histories; the full product is explored on fixed histories
CORE = [s for i, s in enumerate(SETTINGS) if i % 23 == 0]


def jobs(tier):
    deep = tier == "thorough"
    js = []
    for e in EDGES:
        for part in range(5):
            js.append(dict(kind="hist", edges=e, part=part, deep=deep))
        js.append(dict(kind="settings", edges=e))
        js.append(dict(kind="pump", edges=e))
    js += [dict(kind="nonfinite", edges=e, deep=deep, part=p) for e in EDGES for p in range(4)]
    js += [dict(kind="smooth", n=n) for n in (1, 2, 3, 5, 8)] + [dict(kind="units"), dict(kind="layout")]
    return js


def smooth(cut, sigma):
    radius = int(4.0 * sigma + 0.5)
    w = [math.exp(-0.5 * (x / sigma) ** 2) for x in range(-radius, radius + 1)]
    s = sum(w)
    n = len(cut)
    return [sum(w[k + radius] / s * cut[min(max(i + k, 0), n - 1)] for k in range(-radius, radius + 1)) for i in range(n)]


def model(hist, edges, s):
    """hist: (x, v); returns n_events, cut (n_bins, n_perc) as plain lists"""
    n = len(edges) - 1
    bins = [[] for _ in range(n)]
    for x, v in hist:
        b = bin_of(x, edges)
        if b not in (UNDER, OVER):
            bins[b].append(v)
    percs = s["percentile"] if isinstance(s["percentile"], list) else [s["percentile"]]
    cut = []
    for vals in bins:
        vals = sorted(vals)
        row = []
        for p in percs:
            if not vals or len(vals) < s.get("min_events", 10):
                row.append(s["fill_value"])
                continue
            q = quantile(vals, p / 100)
            if s.get("min_value") is not None:
                q = max(q, s["min_value"])
            if s.get("max_value") is not None:
                q = min(q, s["max_value"])
            row.append(q)
        cut.append(row)
    if s.get("smoothing") is not None:
        cols = [smooth([r[j] for r in cut], s["smoothing"]) for j in range(len(percs))]
        cut = [[c[i] for c in cols] for i in range(n)]
    if not isinstance(s["percentile"], list):
        cut = [r[0] for r in cut]
    return [len(b) for b in bins], cut


def nonfinite_model(hist, edges, s):
    """n_events and rows of cuts, None where the percentile is not defined"""
    n = len(edges) - 1
    bins = [[] for _ in range(n)]
    for x, v in hist:
        b = bin_of(x, edges)
        if b not in (UNDER, OVER):
            bins[b].append(v)
    percs = s["percentile"] if isinstance(s["percentile"], list) else [s["percentile"]]
    cut = []
    for all_vals in bins:
        vals = sorted(v for v in all_vals if v == v)
        row = []
        for p in percs:
            if not all_vals or len(all_vals) < s["min_events"]:
                row.append(s["fill_value"])
                continue
            pos = p / 100 * (len(vals) - 1)
            near = [vals[k] for k in {math.floor(pos) - 1, math.floor(pos), math.floor(pos) + 1, math.ceil(pos)} if 0 <= k < len(vals)]
            if not near or any(abs(v) == INF for v in near):
                row.append(None)
                continue
            q = quantile(vals, p / 100)
            if s.get("min_value") is not None:
                q = max(q, s["min_value"])
            if s.get("max_value") is not None:
                q = min(q, s["max_value"])
            row.append(q)
        cut.append(row)
    return [len(b) for b in bins], cut


def check(res, hist, edges, s, bunit=None, vunit=None, rtol=1e-9):
    n, cut = model(hist, edges, s)
    need(len(res) == len(edges) - 1, f"{len(res)} rows")
    eq(res["low"], edges[:-1], bunit, "low")
    eq(res["high"], edges[1:], bunit, "high")
    eq(res["center"], [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])], bunit, "center")
    eq(res["n_events"], n, None, "n_events")
    scale = max([abs(h[1]) for h in hist] + [0])
    eq(res["cut"], cut, vunit, "cut", rtol=rtol, atol=1e-12 * scale)
    return tuple(n), repr(cut)


def run(job, rec):
    from pyirf.cuts import calculate_percentile_cut as f

    def call(hist, edges, s, again=False):
        return pure(f, np.array([h[1] for h in hist], dtype=float), np.array([h[0] for h in hist], dtype=float),
                    np.array(edges), again=again, **s)

    if job["kind"] == "hist":
        edges = EDGES[job["edges"]]
        pos = [edges[0], down(edges[1]), edges[1], 0.5 * (edges[0] + edges[1]), edges[-1], NAN, edges[0] - 1]
        if len(edges) > 3:
            pos += [edges[3], edges[-2]]
        al = [(x, v) for i, x in enumerate(pos) for j, v in enumerate(VALS) if not (i >= 4 and j > 0)]
        hists = list(multisets(al, 3 + job["deep"]))[job["part"] :: 5]
        for k, hist in enumerate(hists):
            for i, order in enumerate(orders(hist)):
                s = CORE[(k + i) % len(CORE)]
                with rec.case("events (bin value, value)", order, "edges", edges, s, states=int(i == 0), steps=max(1, len(hist))):
                    rec.outcome(check(call(order, edges, s, again=k % 20 == 0), order, edges, s))
        return

    if job["kind"] == "nonfinite":
        edges = EDGES[job["edges"]]
        c = [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])]
        al = [(x, v) for x in (c[0], edges[-1]) for v in (INF, -INF, NAN, 1.0, 3.0)] + [(c[-1], 2.0), (c[-1], INF), (c[-1], NAN)]
        for k, hist in list(enumerate(multisets(list(dict.fromkeys(al)), 3 + job["deep"])))[job["part"] :: 4]:
            more = [hist, list(hist) + [(c[0], 0.5 * i) for i in range(5)]]
            for hist in more:
                for i, order in enumerate(list(orders(hist))[: 2 + 4 * job["deep"]]):
                    for s in (CORE[(k + i) % len(CORE)], dict(percentile=[0, 10, 20, 40, 50, 60, 75, 100], min_events=len(hist) // 2, fill_value=-3.0),
                              dict(percentile=25, min_events=max(1, len(hist)), fill_value=4.0), dict(percentile=50, min_events=2, fill_value=4.0, min_value=0.75, max_value=1.25)):
                        with rec.case("events (bin value, value)", order, "edges", edges, s, states=int(i == 0), steps=max(1, len(order))):
                            res = call(order, edges, s)
                            n, cut = nonfinite_model(order, edges, s)
                            eq(res["n_events"], n, None, "n_events")
                            got = np.asarray(res["cut"]).reshape(len(n), -1)
                            for b, row in enumerate(cut):
                                for j, want in enumerate(row):
                                    if want is not None:
                                        eq(got[b, j], want, None, f"cut[{b}, {j}]", rtol=1e-9, atol=1e-12)
                            rec.outcome((tuple(n), repr(cut)))
        return

    if job["kind"] == "settings":
        edges = EDGES[job["edges"]]
        c = [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])]
        hists = [
            [(c[0], v) for v in (4.0, 1.0, 2.0)],
            [(c[0], 5.0), (c[-1], 1.0), (edges[-1], 9.0), (c[-1], 2.0), (edges[0], 7.0), (NAN, 3.0), (down(edges[0]), 1.0)],
            [(x, 0.5 * i) for i, x in enumerate(edges)],
        ]
        for s in SETTINGS:
            for hist in hists:
                with rec.case("events (bin value, value)", hist, "edges", edges, s, steps=len(hist)):
                    res = call(hist, edges, s)
                    rec.outcome(check(res, hist, edges, s))
                    if isinstance(s["percentile"], list):
                        for j, p in enumerate(s["percentile"]):
                            one = call(hist, edges, {**s, "percentile": p})
                            eq(np.asarray(res["cut"])[:, j], np.asarray(one["cut"]), None, f"percentile {p} alone")
        # exactly the fill value
        for hist, fill, p in itertools.product((hists[0], hists[1], []), (0.1, 1 / 3, -7e-9, 1e300, INF), (50, [50, 60])):
            with rec.case("fill value", fill, "events", hist, p, edges):
                res = call(hist, edges, dict(percentile=p, min_events=99, fill_value=fill))
                need(np.asarray(res["cut"]).shape == (len(edges) - 1,) + np.shape(p), "shape")
                eq(res["cut"], np.full(np.asarray(res["cut"]).shape, fill), None, "cut", rtol=0, atol=0)
        # percentiles as tuple and array, defaults
        for hist in hists:
            for p in ((68, 95), np.array([68.0, 95.0]), np.array([5])):
                with rec.case("percentile", p, "events", hist):
                    s = dict(percentile=p, min_events=1, fill_value=0.0)
                    check(call(hist, edges, s), hist, edges, {**s, "percentile": list(p)})
        for n in (9, 10, 11):
            hist = [(c[0], float(i * i % 7)) for i in range(n)]
            with rec.case("defaults with", n, "events"):
                res = f(np.array([h[1] for h in hist]), np.array([h[0] for h in hist]), np.array(edges), -1.0)
                check(res, hist, edges, dict(percentile=68, min_events=10, fill_value=-1.0))
                res = f(np.array([h[1] for h in hist]), np.array([h[0] for h in hist]), np.array(edges), fill_value=5.0, min_value=0.5, max_value=3.0)
                check(res, hist, edges, dict(percentile=68, fill_value=5.0, min_value=0.5, max_value=3.0))
        return

    if job["kind"] == "pump":
        edges = EDGES[job["edges"]]
        pos = []
        for e in edges:
            pos += [e, down(e), up(e)]
        pos += [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])] + [edges[-1] + 1, edges[0] - 1, NAN]
        al = [(x, v) for x in pos for v in VALS + [0.0, 7.5, 123.0]]
        for n in (10, 50, 300, 3000, 70000):
            for s in CORE + [dict(percentile=68, min_events=n, fill_value=1.0), dict(percentile=30, min_events=10, fill_value=1.0, smoothing=1)]:
                hist = pump(al, n)
                with rec.case("pumped to", n, edges, s, steps=n):
                    rec.outcome(check(call(hist, edges, s, again=n <= 300), hist, edges, s))
        # min_events exactly at the bin content for larger contents
        for n in (5, 10, 100, 257):
            for me in (n - 1, n, n + 1):
                hist = [(edges[0], float(i % 11)) for i in range(n)] + [(edges[-1], 1e6)] * n
                with rec.case(n, "events in the first bin, min_events", me):
                    s = dict(percentile=68, min_events=me, fill_value=-7.0)
                    check(call(hist, edges, s), hist, edges, s)
        return

    if job["kind"] == "smooth":
        n = job["n"]
        edges = [float(i * i) for i in range(n + 1)]
        c = [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])]
        for sigma in (0.5, 1, 2.0, 0.3, 3, 7.5):
            for pattern in itertools.product((0.0, 1.0, 8.0) if n <= 5 else (0.0, 1.0), repeat=n) if n < 8 else [tuple((i * 5 % 8) * 1.0 for i in range(8)), (3.0,) * 8, (0.0,) * 7 + (1.0,)]:
                for p in (50, [20, 50]):
                    for me in (1, 2):
                        hist = [(x, v) for x, v in zip(c, pattern)] + [(x, v + 2) for x, v in list(zip(c, pattern))[::2]]
                        s = dict(percentile=p, min_events=me, fill_value=3.0, smoothing=sigma)
                        if n == 5 and (me == 2 or sigma in (0.3, 7.5)):
                            continue
                        with rec.case("smoothing", sigma, "cut pattern", pattern, p, "min_events", me, steps=len(hist)):
                            rec.outcome(check(call(hist, edges, s), hist, edges, s))
        return

    hist = [(0.6, 1.0), (0.7, 2.0), (3.0, 3.0), (0.9, 4.0), (0.8, 0.5), (5.0, 9.0), (1.1, 2.5), (3.9, 8.0), (0.1, 7.0)]
    if job["kind"] == "units":
        edges = [0.5, 1.0, 4.0]
        for du, eu in itertools.product(("TeV", "GeV", "erg"), repeat=2):
            for vu, fu, mu in itertools.product(("deg", "rad", "arcmin"), repeat=3):
                for s in (dict(percentile=68, min_events=3), dict(percentile=[30, 60], min_events=2), dict(percentile=50, min_events=4, min_value=1.75, max_value=2.2),
                          dict(percentile=50, min_events=3, max_value=2.2, smoothing=1), dict(percentile=40, min_events=6, min_value=3.0)):
                    with rec.case("bin values", du, "edges", eu, "values", vu, "fill", fu, "limits", mu, s, steps=len(hist)):
                        kw = dict(s)
                        for k in ("min_value", "max_value"):
                            if k in kw:
                                kw[k] = u.Quantity(kw[k], "deg").to(mu)
                        res = pure(f, u.Quantity([h[1] for h in hist], "deg").to(vu), u.Quantity([h[0] for h in hist], "TeV").to(du),
                                   u.Quantity(edges, "TeV").to(eu), fill_value=u.Quantity(6.0, "deg").to(fu), again=du == eu, **kw)
                        check(res, hist, edges, {**s, "fill_value": 6.0}, "TeV", "deg")
                        need(res["cut"].unit == u.Unit(vu), f"cut in {res['cut'].unit}, values in {vu}")
        # values without, bins with unit and the other way around
        for s in (dict(percentile=68, min_events=3, fill_value=-1.0), dict(percentile=[5, 68], min_events=2, fill_value=INF)):
            with rec.case("plain values, bins in TeV", s):
                res = pure(f, np.array([h[1] for h in hist]), u.Quantity([h[0] for h in hist], "TeV"), u.Quantity(edges, "TeV"), **s)
                check(res, hist, edges, s, "TeV", None)
            with rec.case("values in deg, plain bins", s):
                s2 = {**s, "fill_value": s["fill_value"] * u.deg}
                res = pure(f, u.Quantity([h[1] for h in hist], "deg"), np.array([h[0] for h in hist]), np.array(edges), **s2)
                check(res, hist, edges, s, None, "deg")
        return

    # layouts and dtypes of values and bin values
    edges = [1.0, 2.0, 4.0]
    hist = [(1.0, 1.0), (1.0, 2.0), (3.0, 3.0), (1.0, 4.0), (0.0, 5.0), (5.0, 9.0), (2.0, 2.0), (3.0, 8.0), (4.0, 7.0)]
    for s in (dict(percentile=68, min_events=3, fill_value=-1.5), dict(percentile=[30, 68], min_events=2, fill_value=0.25),
              dict(percentile=50, min_events=2, fill_value=INF, min_value=1.75, max_value=2.25), dict(percentile=68, min_events=10, fill_value=NAN)):
        for (l1, v), (l2, x) in itertools.product(layouts(np.array([h[1] for h in hist])), layouts(np.array([h[0] for h in hist]))):
            for l3, e in layouts(np.array(edges)):
                with rec.case("layouts", l1, l2, l3, s, steps=len(hist)):
                    res = pure(f, v, x, e, again=l1 == "plain", **s)
                    check(res, hist, edges, s, rtol=1e-6 if l1 in ("float32", "int32") else 1e-9)
            with rec.case("table columns", l1, l2, s):
                t = QTable()
                t.add_column(v, name="v")
                t.add_column(x, name="x")
                res = pure(f, t["v"], t["x"], np.array(edges), **s)
                check(res, hist, edges, s, rtol=1e-6 if l1 in ("float32", "int32") else 1e-9)
