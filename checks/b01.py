import itertools

import astropy.units as u
import numpy as np

from mc.models import OVER, UNDER, bin_of
from mc.util import (INF, NAN, chunked, down, eq, layouts, need, pump, pure, raises, up)

SPACE = """Edge families (uniform, log, irregular, signed, tiny/huge magnitudes, infinite under/overflow bins,
1..64 bins) x every value of {each edge, both floating point neighbours, bin centre, far outside, +-0, +-inf, nan}:
all single values, all ordered pairs (thorough: triples for the small families), the whole alphabet in one call in several
orders, 2D shapes, pumped arrays up to 20000 (thorough 200000) values, 70000 bins, values of lower precision than the edges, every memory layout/dtype that can hold them exactly,
units (same, compatible, incompatible, missing). The reference model looks each value up individually."""
ASSUMPTIONS = ["values compared with edges given in another unit are placed at a relative distance > 1e-6 of the edges"]

FAMILIES = {
    "one": [0.0, 1.0],
    "one_neg": [-2.5, -1.5],
    "two": [1.0, 2.0, 4.0],
    "uniform": [0.0, 0.5, 1.0, 1.5, 2.0],
    "uniform_dec": [0.1 * i for i in range(0, 11)],
    "uniform_lin": np.linspace(1, 2, 11).tolist(),
    "uniform_neg": np.linspace(-5, 5, 51).tolist(),
    "uniform_third": np.linspace(1 / 3, 7.7, 23).tolist(),
    "uniform_sum": np.arange(0.1, 1.75, 0.1).tolist(),
    "nearly_uniform": [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.00001, 10.0, 11.0],
    "irregular": [-3.0, -2.0, 0.0, 0.25, 10.0],
    "log": [10 ** (-2 + 0.2 * i) for i in range(21)],
    "tiny": [1e-310, 2e-310, 1e-300, 1e-12],
    "huge": [1e15, 1e16, 1e300, 1.5e308],
    "overflow": [0.0, 1.0, 2.0, INF],
    "underover": [-INF, -1.0, 3.0, 5.0, INF],
    "integers": [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0],
    "many": [float(i * i) for i in range(65)],
}


def alphabet(edges):
    vals = []
    fin = [e for e in edges if abs(e) < INF]
    for e in fin:
        vals += [e, up(e), down(e)]
    for a, b in zip(fin[:-1], fin[1:]):
        vals.append(a + 0.5 * (b - a))
    span = fin[-1] - fin[0] if len(fin) > 1 else 1.0
    vals += [fin[0] - max(span, 1.0), fin[-1] + span, 0.0, -0.0, INF, -INF, NAN]
    return [v for i, v in enumerate(vals)]


def jobs(tier):
    js = []
    for name in FAMILIES:
        js.append(dict(kind="values", fam=name, deep=tier == "thorough"))
        js.append(dict(kind="shapes", fam=name, deep=tier == "thorough"))
    js.append(dict(kind="units"))
    js.append(dict(kind="reject"))
    return js


def compare(fn, data, edges, vals, again=False, what="idx"):
    idx, valid = pure(fn, data, edges, again=again) if again else fn(data, edges)
    want = [bin_of(float(v), e_list(edges)) for v in vals]
    got = np.asarray(idx).ravel().tolist()
    need(np.asarray(idx).shape == np.shape(data), f"shape of index {np.asarray(idx).shape}")
    need(np.asarray(valid).shape == np.shape(data), f"shape of valid {np.asarray(valid).shape}")
    need(np.asarray(valid).dtype == bool, "valid is not boolean")
    need(np.asarray(idx).dtype.kind == "i", "index is not an integer array")
    for v, g, w in zip(vals, got, want):
        need(g == w, lambda: f"value {v!r} got index {g}, expected {w} for edges {e_list(edges)}")
    for v, g, w in zip(vals, np.asarray(valid).ravel().tolist(), want):
        need(g == (w not in (UNDER, OVER)), lambda: f"value {v!r} valid={g}, index {w}")
    return tuple(got[:6])


def e_list(edges):
    v = edges.value if hasattr(edges, "value") else edges
    return [float(x) for x in np.asarray(v)]


def run(job, rec):
    from pyirf import binning
    from pyirf.binning import calculate_bin_indices as f

    if job["kind"] == "values":
        edges = FAMILIES[job["fam"]]
        arr = np.array(edges)
        al = alphabet(edges)
        with rec.case("constants"):
            need(binning.UNDERFLOW_INDEX == UNDER and binning.OVERFLOW_INDEX == OVER, "under-/overflow index constants")
        for v in al:
            with rec.case("value", v, "edges", edges):
                rec.outcome(compare(f, np.array([v]), arr, [v], again=True))
        small = al if len(al) <= 40 else al[:: max(1, len(al) // 40)]
        for a, b in itertools.product(small, repeat=2):
            with rec.case("values", (a, b), "edges", edges, steps=2):
                rec.outcome(compare(f, np.array([a, b]), arr, [a, b]))
        if job["deep"] and len(al) <= 40:
            for t in itertools.product(al, repeat=3):
                with rec.case("values", t, "edges", edges, steps=3):
                    compare(f, np.array(t), arr, t)
        return

    if job["kind"] == "shapes":
        edges = FAMILIES[job["fam"]]
        al = alphabet(edges)
        for (ename, earr) in layouts(np.array(edges)):
            for hist in ([], al, al[::-1], al[1::2] + al[::2]):
                for (dname, darr) in layouts(np.array(hist, dtype=float)):
                    with rec.case("all values", len(hist), dname, "edges", ename, edges, steps=len(hist)):
                        compare(f, darr, earr, [float(x) for x in np.asarray(darr)], again=True)
            # integer data against float edges and vice versa
            ints = [int(v) for v in al if abs(v) < 2**62 and v == v]
            for dt in ("int64", "int32", "int16", "uint8"):
                info = np.iinfo(dt)
                sel = [i for i in ints if info.min <= i <= info.max]
                with rec.case("integer data", dt, sel, "edges", ename, edges, steps=len(sel)):
                    compare(f, np.array(sel, dtype=dt), earr, sel)
        arr = np.array(edges)
        for shape in ((2, 3), (3, 2), (1, 5), (2, 2, 2), (0, 3)):
            n = int(np.prod(shape))
            vals = [al[(3 * i + 1) % len(al)] for i in range(n)]
            for order in "CF":
                with rec.case("shape", shape, order, vals, "edges", edges, steps=n):
                    data = np.array(vals).reshape(shape).copy(order=order)
                    compare(f, data, arr, vals, again=True)
        for n in (10, 100, 257, 1000, 5000, 20000) + ((200000,) if job["deep"] else ()):
            vals = pump(al, n)
            with rec.case("pumped to", n, "edges", edges, steps=n):
                compare(f, np.array(vals), arr, vals)
            inside = [v for v in al if bin_of(v, edges) not in (UNDER, OVER)]
            vals = pump(inside, n)
            with rec.case("pumped inside values to", n, "edges", edges, steps=n):
                compare(f, np.array(vals), arr, vals)
        return

    if job["kind"] == "units":
        # values away from the edges, all unit combinations
        for ed in ([0.01, 0.1, 1.0, 10.0, 100.0], [1.0, 2.0, 5.0], [0.5, 1.5]):
            for mult in (1.1e-3, 0.47, 0.999, 1.001, 1.51, 3.1, 1.1e3):
                for eu, du in itertools.product(("TeV", "GeV", "erg", "MeV"), repeat=2):
                    vals = [e * mult for e in ed]
                    q_e = u.Quantity(ed, "TeV").to(eu)
                    q_d = u.Quantity(vals, "TeV").to(du)
                    with rec.case("TeV values", vals, "in", du, "edges", ed, "in", eu):
                        for d in (q_d, q_d.reshape(1, -1)):
                            idx, valid = pure(f, d, q_e)
                            eq(idx.ravel(), [bin_of(v, ed) for v in vals], what="index")
                            eq(valid.ravel(), [bin_of(v, ed) not in (UNDER, OVER) for v in vals], what="valid")
        for eu, du in itertools.product(("deg", "rad", "arcmin"), repeat=2):
            ed = [-3.0, -1.0, 0.5, 2.0, 6.0]
            vals = [-4.0, -2.9, -1.001, -0.999, 0.0, 0.6, 1.9, 2.1, 5.0, 6.1]
            with rec.case("deg values", vals, "in", du, "edges in", eu):
                idx, valid = pure(f, u.Quantity(vals, "deg").to(du), u.Quantity(ed, "deg").to(eu))
                eq(idx, [bin_of(v, ed) for v in vals], what="index")
        # same unit: exact edges
        for name in ("two", "uniform", "irregular", "overflow", "log", "many"):
            ed = FAMILIES[name]
            al = alphabet(ed)
            for unit in ("TeV", "deg", ""):
                with rec.case("edge values with unit", unit, ed, steps=len(al)):
                    compare(f, u.Quantity(al, unit), u.Quantity(ed, unit), al, again=True)
        # many bins
        for n in (300, 40000, 70000):
            for scale in (1.0, 0.1):
                vals = [-1, 0, 1, 127, 128, 255, 256, n // 2, 32767, 32768, n - 1, n, n + 5]
                with rec.case(n, "bins of width", scale, steps=len(vals)):
                    ed = np.arange(n + 1) * scale
                    for shift, pick in ((0.25, lambda v: v), (0, lambda v: v)):
                        vs = [v for v in vals if v < len(ed)]
                        data = np.array([(ed[v] if v >= 0 else -scale) + shift * scale for v in vs] + [ed[-1] + scale])
                        idx, valid = f(data, ed)
                        eq(idx, [UNDER if v < 0 else OVER if v >= n else v for v in vs] + [OVER], what="index")
                        eq(valid, [0 <= v < n for v in vs] + [False], what="valid")
        # values of lower precision than the edges are not rounded together with them
        for name in FAMILIES:
            ed = FAMILIES[name]
            for dt in ("f4", "f2"):
                with np.errstate(over="ignore"):
                    data = np.array([x for v in ed for x in (v, 1.5 * v)], dtype=dt)
                    data = np.concatenate([data, np.nextafter(data, np.array(-INF, dt)), np.nextafter(data, np.array(INF, dt))])
                with rec.case("values of type", dt, "edges", ed, steps=len(data)):
                    compare(f, data, np.array(ed), [float(x) for x in data], again=True)
                    if dt == "f4":
                        compare(f, u.Quantity(data, "TeV", dtype=dt), u.Quantity(ed, "TeV"), [float(x) for x in data], again=True)
        # table columns
        from astropy.table import QTable, Table

        for cls in (QTable, Table):
            for name in ("two", "irregular", "overflow"):
                ed = FAMILIES[name]
                al = alphabet(ed)
                with rec.case("column of a", cls.__name__, ed, steps=len(al)):
                    t = cls()
                    t["x"] = np.array(al)
                    compare(f, t["x"], np.array(ed), al, again=True)
        return

    if job["kind"] == "reject":
        for unit in ("TeV", "deg", "m"):
            for vals in ([1.0], [1.0, 2.0], []):
                for ed in ([0.0, 1.0], [0.0, 1.0, 3.0]):
                    with rec.case("Quantity", vals, unit, "plain edges", ed):
                        raises(TypeError, f, u.Quantity(vals, unit), np.array(ed))
                    with rec.case("Quantity", vals, unit, "incompatible edges", ed):
                        raises(Exception, f, u.Quantity(vals, unit), u.Quantity(ed, "s"))
