import itertools
import math

import astropy.units as u
import numpy as np

from mc.util import INF, down, eq, layouts, need, pure, raises, same, snap, up

SPACE = """All strictly increasing edge arrays built from small step alphabets (1 to 4 bins; thorough: 5), at ten scales (1e-18 .. 1e15) and in
four units, stacked to 1, 2 and 3 dimensions; every corruption of a single lower/upper edge by relative 2e-4 .. 1
at all these scales, edges equal up to rounding accepted also around zero and between infinite bins;
add_overflow_bins for all presence patterns of the 0/-inf and inf edges; create_bins_per_decade for all
(e_min, e_max, bins per decade) of a grid incl. end points on the grid, one ulp and 1e-3 steps off it."""
ASSUMPTIONS = ["for create_bins_per_decade an end point less than 1/1000 of a step off the grid counts as on the grid, values between 1e-5 and 1e-3 steps above are not judged"]

STEPS = [1.0, 0.5, 3.0]
SCALES = (1e-18, 1e-12, 1e-10, 1e-7, 1e-3, 1.0, 1e3, 1e6, 1e12, 1e15)


def edge_lists(max_bins):
    for n in range(1, max_bins + 1):
        for st in itertools.product(STEPS, repeat=n):
            for start in (1.0, 40.0):
                e = [start]
                for s in st:
                    e.append(e[-1] + s)
                yield e


def jobs(tier):
    deep = tier == "thorough"
    return [dict(kind="joinsplit", dim=d, nmax=5 if deep and d < 3 else 4) for d in (1, 2, 3)] + [
        dict(kind="corrupt", dim=d) for d in (1, 2, 3)
    ] + [dict(kind="overflow"), dict(kind="center")] + [dict(kind="decade", n=n) for n in (1, 2, 3, 4, 5, 7, 10, 20, 1000, 20000)]


def stack(e, dim):
    a = np.array(e)
    if dim == 1:
        return a
    a2 = np.stack([a, a * 2, a * 0.5 + 7])
    if dim == 2:
        return a2
    return np.stack([a2, a2 + 11.0])


def with_unit(a, unit):
    return a if unit is None else u.Quantity(a, unit)


def run(job, rec):
    from pyirf.binning import add_overflow_bins, bin_center, create_bins_per_decade, join_bin_lo_hi, split_bin_lo_hi

    if job["kind"] == "joinsplit":
        for e in edge_lists(job["nmax"]):
            a = stack(e, job["dim"])
            for unit in (None, "TeV", "deg", ""):
                with rec.case("edges", e, "dim", job["dim"], "unit", unit):
                    q = with_unit(a, unit)
                    lo, hi = pure(split_bin_lo_hi, q)
                    eq(lo, a[..., :-1], unit, "low edges")
                    eq(hi, a[..., 1:], unit, "high edges")
                    back = pure(join_bin_lo_hi, lo, hi)
                    eq(back, a, unit, "joined", rtol=0)
                    rec.outcome((np.shape(back), unit, e))
                    # rounding-level deviations are accepted (relative 1e-7)
                    back = join_bin_lo_hi(lo, hi * (1 + 1e-8))
                    eq(back, a, unit, "joined", rtol=1e-6)
            for lname, arr in layouts(a):
                with rec.case("edges", e, "dim", job["dim"], lname):
                    lo, hi = split_bin_lo_hi(arr)
                    eq(join_bin_lo_hi(lo, hi), a, None, "joined", rtol=0)
        # scales
        for scale in SCALES:
            for e in ([1.0, 2.0], [1.0, 2.0, 4.0, 7.0], [-2.0, -1.0, 0.0, 1.0, 5.0]):
                with rec.case("edges", e, "scale", scale):
                    a = stack(e, job["dim"]) * scale
                    eq(join_bin_lo_hi(*split_bin_lo_hi(a)), a, None, "joined", rtol=0)
                    # upper edges calculated from centers and widths
                    lo, hi = split_bin_lo_hi(a)
                    c, w = 0.5 * (lo + hi), hi - lo
                    eq(join_bin_lo_hi(c - w / 2, c + w / 2), a, None, "joined", atol=1e-12 * scale)
        w = 0.1
        c = np.arange(-9.5, 10) * w
        for unit, scale in itertools.product((None, "deg", "rad"), SCALES):
            with rec.case("centers and widths around zero", unit, scale):
                lo, hi = (with_unit(scale * stack(x, job["dim"]), unit) for x in (c - w / 2, c + w / 2))
                eq(join_bin_lo_hi(lo, hi)[..., :-1], lo.value if unit else lo, unit, "joined", atol=1e-12 * scale)
                if job["dim"] == 1:
                    inf = with_unit(np.array([INF]), unit)
                    lo, hi = np.append(np.append(-inf, lo), hi[-1:]), np.append(np.append(lo[:1], hi), inf)
                    eq(join_bin_lo_hi(lo, hi)[..., :-1], lo.value if unit else lo, unit, "joined with infinite bins", atol=1e-12 * scale)
        for core in ([1.0], [1.0, 2.0], [-1.0, 0.0, 1.0]):
            for pre, post in itertools.product(([], [-INF], [0.0]), ([], [INF])):
                if pre and pre[0] >= core[0]:
                    continue
                e = pre + core + post
                if len(e) > 1:
                    for unit in (None, "TeV"):
                        with rec.case("edges", e, unit):
                            eq(join_bin_lo_hi(*split_bin_lo_hi(with_unit(np.array(e), unit))), e, unit, "joined", rtol=0)
        for n in (1, 2, 50, 1000):
            with rec.case(n, "bins"):
                a = stack(list(np.linspace(1, 5, n + 1)), job["dim"])
                eq(join_bin_lo_hi(*split_bin_lo_hi(a)), a, None, "joined", rtol=0)
        # low and high in different units
        for lu, hu in itertools.product(("deg", "rad", "arcmin"), repeat=2):
            e = [60.0, 120.0, 300.0]
            with rec.case("edges", e, "low in", lu, "high in", hu):
                q = u.Quantity(stack(e, job["dim"]), "deg")
                lo, hi = split_bin_lo_hi(q)
                eq(join_bin_lo_hi(lo.to(lu), hi.to(hu)), q.value, "deg", "joined", rtol=1e-6)
        return

    if job["kind"] == "corrupt":
        for scale in SCALES:
            for e, unit in itertools.product(([1.0, 2.0, 4.0], [-2.0, -1.0, 0.0, 1.0, 5.0], [-INF, 1.0, 2.0, INF]), (None, "J")):
                lo, hi = split_bin_lo_hi(with_unit(np.array(e) * scale, unit))
                for i, d, side in itertools.product(range(1, len(lo)), (1e-3, -1e-3, 0.5, -0.5), (0, 1)):
                    with rec.case("edge", i, "off by", d, "side", side, "edges", e, "scale", scale, unit):
                        bad = (lo.copy(), hi.copy())
                        bad[side][i - side] += with_unit(d * scale, unit)
                        raises(ValueError, join_bin_lo_hi, *bad)
                        rec.outcome(("rejected", scale, unit))
        # bins of very different widths
        for decades, step in ((12, 1), (20, 2), (4, 1)):
            e = [10.0**k for k in range(-decades // 2, decades // 2 + 1, step)]
            a = stack(e, job["dim"])
            for unit in (None, "TeV"):
                lo, hi = split_bin_lo_hi(with_unit(a, unit))
                with rec.case("edges", e, unit):
                    eq(join_bin_lo_hi(lo, hi), a, unit, "joined", rtol=0)
                for i, rel, side in itertools.product(range(1, len(e) - 1), (1e-3, -0.1, 0.5), (0, 1)):
                    with rec.case("edge", i, "off by a factor", 1 + rel, "side", side, "edges", e, unit):
                        bad = (lo.copy(), hi.copy())
                        bad[side][..., i - side] *= 1 + rel
                        raises(ValueError, join_bin_lo_hi, *bad)
        for e in edge_lists(3):
            if len(e) < 3:
                continue
            a = stack(e, job["dim"])
            for unit in (None, "TeV"):
                lo, hi = split_bin_lo_hi(with_unit(a, unit))
                for idx in np.ndindex(lo.shape):
                    for rel in (2e-4, -2e-4, 1e-2, -0.3, 1.0):
                        # the first lower and the last upper edge have no partner
                        if idx[-1] > 0:
                            with rec.case("low edge", idx, "off by", rel, e, "dim", job["dim"], unit):
                                bad = lo.copy()
                                bad[idx] = bad[idx] * (1 + rel)
                                raises(ValueError, join_bin_lo_hi, bad, hi)
                        if idx[-1] < lo.shape[-1] - 1:
                            with rec.case("high edge", idx, "off by", rel, e, "dim", job["dim"], unit):
                                bad = hi.copy()
                                bad[idx] = bad[idx] * (1 + rel)
                                raises(ValueError, join_bin_lo_hi, lo, bad)
        return

    if job["kind"] == "overflow":
        cores = [[1.0, 2.0], [0.5], [1.0, 2.0, 3.0, 10.0], [1e-9, 1e9], [-3.0, -1.0], [-2.0, 0.0], [-2.0, 3.0], [0.0, 3.0], [0.0, 1e-300]]
        for core in cores:
            for pre in ([], [0.0], [-INF], [-INF, 0.0]):
                if pre and core[0] <= pre[-1]:
                    continue
                for post in ([], [INF]):
                    edges = pre + core + post
                    for positive in (True, False):
                        want = list(edges)
                        low = 0.0 if positive else -INF
                        if want[0] > low:
                            want = [low] + want
                        if want[-1] < INF:
                            want = want + [INF]
                        for unit in (None, "TeV", "GeV", "deg"):
                            with rec.case("edges", edges, "positive", positive, "unit", unit):
                                a = with_unit(np.array(edges), unit)
                                res = pure(add_overflow_bins, a, positive=positive)
                                eq(res, want, unit, "bins", rtol=0)
                                rec.outcome((len(res), len(edges), positive, unit))
                                again = pure(add_overflow_bins, res, positive=positive)
                                eq(again, want, unit, "bins (applied twice)", rtol=0)
                                if unit:
                                    need(res.unit == u.Unit(unit), f"unit changed to {res.unit}")
                                if positive:
                                    eq(add_overflow_bins(a), want, unit, "bins (default)", rtol=0)
        for lname, arr in layouts(np.array([1.0, 2.0, 3.0, 10.0])):
            with rec.case("layout", lname):
                eq(pure(add_overflow_bins, arr), [0, 1, 2, 3, 10, INF], None, "bins", rtol=0)
        for n in (100, 1000):
            with rec.case(n, "edges"):
                e = list(np.arange(1, n + 1.0))
                eq(pure(add_overflow_bins, np.array(e)), [0.0] + e + [INF], None, "bins", rtol=0)
        return

    if job["kind"] == "center":
        for e in edge_lists(4):
            for unit in (None, "TeV", "GeV", "deg"):
                with rec.case("centers of", e, unit):
                    c = pure(bin_center, with_unit(np.array(e), unit))
                    eq(c, [0.5 * (a + b) for a, b in zip(e[:-1], e[1:])], unit, "centers")
                    rec.outcome(("centers", len(c), unit))
        for lname, arr in layouts(np.array([1.0, 2.0, 5.0, 10.0])):
            with rec.case("centers layout", lname):
                eq(pure(bin_center, arr), [1.5, 3.5, 7.5], None, "centers")
        for n in (1, 100, 1000):
            with rec.case("centers", n):
                e = [float(i * i) for i in range(n + 1)]
                eq(pure(bin_center, np.array(e)), [0.5 * (a + b) for a, b in zip(e[:-1], e[1:])], None, "centers")
        return

    # create_bins_per_decade
    n = job["n"]
    for e_min in (0.01, 0.02, 0.1, 1.0, 3.3, 10.0, 1e-5, 20.0, 1e4):
        for k in (0, 1, 2, 3, 5, 9, 10, 11, 17, 20, 21, 40, 60):
            grid = [10 ** (math.log10(e_min) + i / n) for i in range(k + 1)]
            for label, frac in (("grid", 0.0), ("+ulp", None), ("-ulp", None), ("mid", 0.5), ("-1%", -0.01), ("+1%", 0.01),
                                ("+99%", 0.99), ("-20%", -0.2), ("+30%", 0.3), ("-1/500", -1 / 500), ("+1/500", 1 / 500)):
                x = e_min * 10 ** (k / n)
                n_expected = k + 1
                if label == "+ulp":
                    e_max = up(x)
                elif label == "-ulp":
                    e_max = down(x)
                else:
                    e_max = x * 10 ** (frac / n)
                    if frac < 0:
                        n_expected = k
                if n_expected == 0:
                    continue
                want = grid[:n_expected]
                for units in ((None, None), ("GeV", "TeV"), ("TeV", "GeV"), ("erg", "MeV")):
                    with rec.case("e_min", e_min, "e_max", e_max, label, "bins/decade", n, "units", units):
                        if units[0] is None:
                            args = u.Quantity(e_min, "TeV"), u.Quantity(e_max, "TeV")
                            unit = u.TeV
                        else:
                            if label in ("+ulp", "-ulp") and k == 0:
                                continue
                            unit = u.Unit(units[0])
                            args = u.Quantity(e_min, "TeV").to(units[0]), u.Quantity(e_max, "TeV").to(units[1])
                        res = pure(create_bins_per_decade, *args, n)
                        need(res.unit == unit, f"unit {res.unit}")
                        rec.outcome((len(res), label, n))
                        eq(res, want, "TeV", "edges", rtol=1e-9)
                        need(bool(np.all(np.diff(res.value) > 0)), "edges not increasing")
                        if n == 5:
                            eq(create_bins_per_decade(*args), want, "TeV", "edges (default)")
    for bad in ((1.0, 2.0), (u.Quantity(1, "m"), u.Quantity(2, "TeV")), (u.Quantity(1, "TeV"), u.Quantity(2, "s"))):
        with rec.case("bad arguments", bad):
            raises((TypeError, u.UnitsError), create_bins_per_decade, *bad, n)
