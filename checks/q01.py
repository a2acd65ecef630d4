import itertools

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.models import OVER, UNDER, bin_of, quantile
from mc.util import INF, NAN, down, eq, multisets, need, orders, pump, pure, up

SPACE = """All histories of up to 2 events over sharp (true energy, reco energy) positions (edges, their neighbours, bin centres, outside, nan) and of up to 4 (thorough: 5) events over
(2 bins + outside) x theta values with ties, for both energy types, in several orders, and pumped to thousands of events, crossed with single quantiles, lists and tuples of quantiles (every
ordered pair of a set), the default quantile, units of energy/theta/bins and binnings of 1 to 30 bins incl. under-/overflow bins."""
ASSUMPTIONS = ["theta is never nan", "quantiles requested together differ at the percent level, except in the cases of the recorded finding (columns are named by percent and collide)"]

EDGES = [0.5, 1.0, 4.0]
ONE_SIGMA = 0.6826894921370859
QS = [0.0, 0.25, 0.5, 0.68, 0.8, 0.95, 1.0, 1]


def jobs(tier):
    deep = tier == "thorough"
    return [dict(kind="theta", etype=t, part=p, depth=5 if deep else 4) for t in ("true", "reco") for p in range(6)] + [
        dict(kind="sharp", etype=t) for t in ("true", "reco", None)] + [dict(kind="quantiles"), dict(kind="units"), dict(kind="sizes")]


def table(evs, units=("TeV", "TeV", "deg")):
    t = QTable()
    t["reco_energy"] = u.Quantity([e[1] for e in evs], "TeV", dtype=float).to(units[1])
    t["true_energy"] = u.Quantity([e[0] for e in evs], "TeV", dtype=float).to(units[0])
    t["theta"] = u.Quantity([e[2] for e in evs], "deg", dtype=float).to(units[2])
    t["weight"] = np.arange(len(evs), dtype=float)
    return t


def compare(evs, edges, etype, q, again=False, units=("TeV", "TeV", "deg"), bin_unit="TeV", t=None):
    from pyirf.benchmarks import angular_resolution

    t = table(evs, units) if t is None else t
    kw = {}
    if etype is not None:
        kw["energy_type"] = etype
    if q is not None:
        kw["quantile"] = q
    res = pure(angular_resolution, t, u.Quantity(edges, "TeV").to(bin_unit), again=again, **kw)
    et = etype or "true"
    n = len(edges) - 1
    bins = [[] for _ in range(n)]
    for e in evs:
        b = bin_of(e[0 if et == "true" else 1], edges)
        if b not in (UNDER, OVER):
            bins[b].append(e[2])
    qs = list(q) if isinstance(q, (list, tuple)) else [ONE_SIGMA if q is None else q]
    cols = [f"{et}_energy_low", f"{et}_energy_high", f"{et}_energy_center", "n_events"] + [f"angular_resolution_{100 * x:.0f}" for x in qs]
    need(set(cols) <= set(res.colnames), f"columns {res.colnames}, expected {cols}")
    need(len(res) == n, f"{len(res)} rows")
    eq(res[cols[0]], edges[:-1], "TeV", "low")
    eq(res[cols[1]], edges[1:], "TeV", "high")
    if np.isfinite(edges[-1]):
        eq(res[cols[2]], [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])], "TeV", "center")
    eq(res["n_events"], [len(b) for b in bins], None, "n_events", rtol=0)
    out = []
    for x, c in zip(qs, cols[4:]):
        want = [quantile(sorted(b), float(x)) if b else NAN for b in bins]
        eq(res[c], want, "deg", c)
        need(res[c].unit == u.Unit(units[2]), f"{c} has unit {res[c].unit}")
        out.append(want)
    return repr(out)


def run(job, rec):
    from pyirf.benchmarks import angular_resolution

    kind = job["kind"]
    if kind == "sharp":
        lo, mid, hi = EDGES
        pos = [down(lo), lo, up(lo), 0.7, down(mid), mid, 2.0, down(hi), hi, up(hi), NAN, 0.0, INF, -1.0]
        for a, b in itertools.product(pos, repeat=2):
            with rec.case("one event", "true", a, "reco", b, job["etype"]):
                rec.outcome(compare([(a, b, 0.3)], EDGES, job["etype"], 0.68))
        for a, b in itertools.product(pos, repeat=2):
            with rec.case("two events", a, b, job["etype"], steps=2):
                compare([(a, b, 0.3), (b, a, 0.1)], EDGES, job["etype"], None)
                compare([(a, b, 0.3), (b, a, 0.1)], EDGES, job["etype"], [0.5])
        for edges in ([0.0, 0.5, 1.0, 4.0, INF], [1.0, 2.0]):
            for a, b in itertools.product(pos, repeat=2):
                with rec.case("two events", a, b, edges, job["etype"], steps=2):
                    compare([(a, b, 0.3), (b, a, 0.1)], edges, job["etype"], 0.95)
        return
    if kind == "theta":
        alpha = [(e, 5.0 - e if e < 4 else 0.6, t) for e in (0.7, 2.0, 9.0) for t in (0.1, 0.3, 2.0)]
        if job["etype"] == "reco":
            alpha = [(b, a, t) for a, b, t in alpha]
        for i, h in enumerate(multisets(alpha, job["depth"])):
            if i % 6 != job["part"]:
                continue
            for k, o in enumerate(orders(h)):
                if k and len(h) > 3 and i % 4:
                    continue
                with rec.case(job["etype"], o, steps=max(1, len(o))):
                    q = [None, 0.25, [0.5, 0.8], 0.95][i % 4]
                    rec.outcome(compare(o, EDGES, job["etype"], q, again=i % 37 == 0))
            if len(h) == 3 and i % 5 == 0:
                with rec.case("pumped", h, steps=500):
                    compare(pump(h, 500 + i % 3), EDGES, job["etype"], 0.68)
        return
    evs = [(0.55 + 0.31 * i % 3.9, 0.4 + 0.77 * i % 4.1, 0.01 + (0.137 * i) % 1.0) for i in range(60)]
    if kind == "quantiles":
        for et in ("true", "reco"):
            for k in (1, 2, 3):
                for qs in itertools.permutations(QS[:7], k):
                    for conv in (list, tuple):
                        with rec.case("quantiles", conv(qs), et, steps=k):
                            compare(evs[:37], EDGES, et, conv(qs), again=k == 2)
            for q in [*QS, 0.123, np.float64(0.68), np.float32(0.5)]:
                for n in (0, 1, 2, 60):
                    with rec.case("quantile", repr(q), et, n, "events"):
                        rec.outcome(compare(evs[:n], EDGES, et, q, again=True))
            for qs in ([0.995, 0.999], [0.681, 0.684]):
                with rec.case("quantiles rounding to the same percentage", qs, et, key=f"same-percentage-{et}-{qs[0]}-{qs[1]}"):
                    res = pure(angular_resolution, table(evs), u.Quantity(EDGES, "TeV"), energy_type=et, quantile=qs)
                    cols = [c for c in res.colnames if c.startswith("angular_resolution")]
                    need(len(cols) == len(qs), f"{len(qs)} quantiles share the columns {cols}")
            for q in (None, 0.5, [0.5], [0.25, 0.5], (0.1, 0.9, 0.3)):
                with rec.case("no events", q, et):
                    compare([], EDGES, et, q, again=True)
                    compare([], EDGES, et, q, units=("GeV", "GeV", "rad"), bin_unit="GeV")
                with rec.case("all events outside", q, et):
                    compare([(9.0, 9.0, 0.1), (0.1, 0.1, 0.2), (NAN, NAN, 0.3)], EDGES, et, q, again=True)
        return
    if kind == "units":
        safe = [e for e in evs if all(abs(x - y) > 1e-6 for x in e[:2] for y in EDGES)]
        for units in itertools.product(("TeV", "GeV"), ("TeV", "MeV"), ("deg", "rad", "arcmin")):
            for bu, et, q in itertools.product(("TeV", "GeV", "erg"), ("true", "reco", None), (0.68, [0.2, 0.9], None)):
                for n in (0, 1, 5, 40):
                    with rec.case("units", units, bu, et, q, n, "events"):
                        compare(safe[:n], EDGES, et, q, False, units, bu)
        return
    for n in (100, 3000, 70000):
        for et, q in itertools.product(("true", "reco"), (None, [0.25, 0.5, 0.99])):
            big = [(0.05 + (0.7131 * i) % 6.0, 0.05 + (0.337 * i) % 6.0, ((i * 7919) % 9973) / 5000) for i in range(n)]
            for edges in (EDGES, [1.0, 2.0], [0.0, 0.5, 1.0, 4.0, INF], [0.1 * (k + 1) for k in range(31)], [10.0, 20.0]):
                with rec.case(n, "events", et, q, "edges", edges[:3], len(edges), steps=n):
                    compare(big, edges, et, q, again=n == 100)
    for dt in ("f4", ">f8", "i4"):
        with rec.case("dtype", dt):
            vals = [(1.0, 2.0, 3.0), (2.0, 3.0, 1.0), (0.0, 9.0, 2.0), (2.0, 1.0, 5.0)]
            t = QTable()
            for k, name, un in ((0, "true_energy", "TeV"), (1, "reco_energy", "TeV"), (2, "theta", "deg")):
                a = np.array([v[k] for v in vals]).astype(dt)
                t[name] = u.Quantity(a, un, dtype=a.dtype)
            for et, q in itertools.product(("true", "reco"), (0.5, [0.25, 0.75])):
                compare(vals, [0.5, 1.5, 2.5], et, q, True, t=t)
