import itertools

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.models import OVER, UNDER, bin_of, quantile
from mc.util import INF, NAN, down, eq, multisets, need, orders, pump, pure, up

SPACE = """All histories of up to 2 events over sharp (true energy, reco energy) positions (edges, their neighbours, bin centres, outside) and of up to 4 (thorough: 5) events over
(2 bins + outside) x migration values with ties, for both energy types, in several orders, and pumped to thousands of events, crossed with bias/resolution functions (defaults, mean,
68 % of absolute deviations, counting function), units of true/reco energy and bins, and binnings of 1 to 30 bins incl. under-/overflow bins."""
ASSUMPTIONS = ["energies of events are finite and positive except for one nan energy used for binning only"]

EDGES = [0.5, 1.0, 4.0]
P_LO, P_HI = 0.15865525393145707, 0.8413447460685429


def jobs(tier):
    deep = tier == "thorough"
    return [dict(kind="mig", etype=t, part=p, depth=5 if deep else 4) for t in ("true", "reco") for p in range(6)] + [
        dict(kind="sharp", etype=t) for t in ("true", "reco", None)] + [dict(kind="functions"), dict(kind="units"), dict(kind="sizes")]


def half_width(v):
    s = sorted(v)
    return 0.5 * (quantile(s, P_HI) - quantile(s, P_LO))


def median(v):
    return quantile(sorted(v), 0.5)


def mean(v):
    return sum(v) / len(v)


def abs68(v):
    return quantile(sorted(abs(x) for x in v), P_HI - P_LO)


def funcs():
    from pyirf.benchmarks.energy_bias_resolution import energy_resolution_absolute_68, inter_quantile_distance

    return {None: (None, None), "mean": (np.nanmean, mean), "abs68": (energy_resolution_absolute_68, abs68), "iqd": (inter_quantile_distance, half_width),
            "n": (len, lambda v: float(len(v))), "max": (lambda v: float(np.max(v)), max)}


def table(evs, units=("TeV", "TeV")):
    t = QTable()
    t["theta"] = u.Quantity(np.ones(len(evs)), "deg")
    t["reco_energy"] = u.Quantity([e[1] for e in evs], "TeV", dtype=float).to(units[1])
    t["true_energy"] = u.Quantity([e[0] for e in evs], "TeV", dtype=float).to(units[0])
    return t


def compare(evs, edges, etype, bias=None, resolution=None, again=False, units=("TeV", "TeV"), bin_unit="TeV"):
    from pyirf.benchmarks import energy_bias_resolution

    fs = funcs()
    kw = {}
    if etype is not None:
        kw["energy_type"] = etype
    if bias:
        kw["bias_function"] = fs[bias][0]
    if resolution:
        kw["resolution_function"] = fs[resolution][0]
    res = pure(energy_bias_resolution, table(evs, units), u.Quantity(edges, "TeV").to(bin_unit), again=again, **kw)
    et = etype or "true"
    bins = [[] for _ in edges[1:]]
    for a, b in evs:
        i = bin_of(a if et == "true" else b, edges)
        if i not in (UNDER, OVER):
            bins[i].append(b / a - 1 if a else INF)
    need(len(res) == len(bins), f"{len(res)} rows")
    eq(res[f"{et}_energy_low"], edges[:-1], "TeV", "low")
    eq(res[f"{et}_energy_high"], edges[1:], "TeV", "high")
    if np.isfinite(edges[-1]):
        eq(res[f"{et}_energy_center"], [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])], "TeV", "center")
    eq(res["n_events"], [len(b) for b in bins], None, "n_events", rtol=0)
    fb = fs[bias][1] if bias else median
    fr = fs[resolution][1] if resolution else half_width
    want_b = [fb(b) if b else NAN for b in bins]
    want_r = [fr(b) if b else NAN for b in bins]
    eq(res["bias"], want_b, None, "bias", atol=1e-12)
    eq(res["resolution"], want_r, None, "resolution", atol=1e-12)
    return repr((want_b, want_r))


def run(job, rec):
    kind = job["kind"]
    if kind == "sharp":
        lo, mid, hi = EDGES
        pos = [down(lo), lo, up(lo), 0.7, down(mid), mid, 2.0, down(hi), hi, up(hi), 1e-9, 1e9]
        for edges in (EDGES, [0.0, 0.5, 1.0, 4.0, INF], [1.0, 2.0]):
            for a, b in itertools.product(pos, repeat=2):
                with rec.case("one event", "true", a, "reco", b, job["etype"], edges):
                    rec.outcome(compare([(a, b)], edges, job["etype"]))
                with rec.case("two events", a, b, job["etype"], edges, steps=2):
                    compare([(a, b), (b, a)], edges, job["etype"], again=edges is EDGES and a == b)
        # events without energy estimate count, but have no relative error
        for b, r in ((None, None), ("iqd", "iqd")) if job["etype"] != "reco" else ():
            for k in (1, 2, 3):
                with rec.case("events without energy estimate", k, b, r):
                    evs = [(0.7, 0.6), (0.75, 0.9), (0.8, 0.8), (2.0, 2.2), (3.0, 3.1)]
                    full = table(evs + [(0.9, NAN)] * k)
                    from pyirf.benchmarks import energy_bias_resolution

                    res = energy_bias_resolution(full, u.Quantity(EDGES, "TeV"), **({} if job["etype"] is None else dict(energy_type=job["etype"])))
                    eq(res["n_events"], [3 + k, 2], None, "n_events", rtol=0)
                    rest = energy_bias_resolution(table(evs), u.Quantity(EDGES, "TeV"))
                    eq(res["bias"][1:], rest["bias"][1:], None, "bias in the other bin")
        with rec.case("energies nan"):
            compare([(0.7, 0.8), (2.0, NAN)], EDGES, "reco")
            compare([(NAN, 0.7), (2.0, 3.0)], EDGES, "true")
        return
    if kind == "mig":
        alpha = [(e, e * m) for e in (0.75, 2.0, 9.0) for m in (0.7, 1.0, 1.6)]
        for i, h in enumerate(multisets(alpha, job["depth"])):
            if i % 6 != job["part"]:
                continue
            for k, o in enumerate(orders(h)):
                if k and len(h) > 3 and i % 4:
                    continue
                with rec.case(job["etype"], o, steps=max(1, len(o))):
                    rec.outcome(compare(o, EDGES, job["etype"], again=i % 37 == 0))
            if len(h) == 3 and i % 5 == 0:
                with rec.case("pumped", h, steps=500):
                    compare(pump(h, 500 + i % 3), EDGES, job["etype"])
        return
    evs = [(0.55 + (0.31 * i) % 3.9, 0.4 + (0.77 * i) % 4.1) for i in range(60)]
    names = [None, "mean", "abs68", "iqd", "n", "max"]
    if kind == "functions":
        for et, b, r in itertools.product(("true", "reco", None), names, names):
            for n in (0, 1, 2, 5, 60):
                with rec.case(et, "bias", b, "resolution", r, n, "events", steps=max(1, n)):
                    rec.outcome(compare(evs[:n], EDGES, et, b, r, again=n == 5))
            with rec.case(et, "bias", b, "resolution", r, "all outside"):
                compare([(9.0, 9.5), (0.1, 0.2)], EDGES, et, b, r)
        from pyirf.benchmarks.energy_bias_resolution import energy_resolution_absolute_68, inter_quantile_distance

        for vals in itertools.product((-0.5, 0.0, 0.1, 2.0), repeat=3):
            with rec.case("helper functions", vals, steps=3):
                eq(pure(inter_quantile_distance, np.array(vals)), half_width(vals), None, "inter quantile distance", atol=1e-12)
                eq(pure(energy_resolution_absolute_68, np.array(vals)), abs68(vals), None, "absolute 68", atol=1e-12)
        return
    if kind == "units":
        safe = [e for e in evs if all(abs(x - y) > 1e-6 for x in e for y in EDGES)]
        for units in itertools.product(("TeV", "GeV", "erg"), ("TeV", "MeV", "GeV")):
            for bu, et in itertools.product(("TeV", "GeV", "erg"), ("true", "reco", None)):
                for n in (0, 1, 2, 5, 40):
                    with rec.case("units", units, bu, et, n, "events", steps=max(1, n)):
                        compare(safe[:n], EDGES, et, None, None, False, units, bu)
        return
    for n in (100, 3000, 70000):
        for et in ("true", "reco"):
            big = [(0.05 + (0.7131 * i) % 6.0, 0.05 + (0.337 * i) % 6.0) for i in range(n)]
            for edges in (EDGES, [1.0, 2.0], [0.0, 0.5, 1.0, 4.0, INF], [0.1 * (k + 1) for k in range(31)], [10.0, 20.0]):
                with rec.case(n, "events", et, "edges", edges[:3], len(edges), steps=n):
                    compare(big, edges, et, again=n == 100)
