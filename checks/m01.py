import itertools
import math

import astropy.units as u
import numpy as np

from mc.util import INF, down, eq, need, pure, raises, up

SPACE = """All strictly increasing energy binnings with 2 to 12 edges over {0, below, e_min and its two floating point neighbours, three inner
energies, e_max and its two neighbours, above, inf} (every combination), crossed with 13 spectral indices (also next to -1) and two energy ranges; one-dimensional variations
of units (range and bins independently), n_showers, array layouts and sizes (to 10000 bins); merging of any two adjacent bins follows from
comparing all sub-binnings with the same closed-form integral; all indices above -1 of a list must be rejected."""
ASSUMPTIONS = ["edge values are passed in the unit of the simulated range, except in the unit variations where no bin edge lies within 1e-6 of the range limits"]

INDICES = [-1, -1.0, -1 - 2.0**-52, -1 - 1e-12, -1.000001, -1.005, -1.3, -2, -2.0, -2.62, -2.718281, -3, -4.0]
RANGES = [(0.01, 100.0), (0.3, 0.7)]


def share(index, lo, hi, e_min, e_max):
    lo, hi = min(max(lo, e_min), e_max), min(max(hi, e_min), e_max)
    if hi <= lo:
        return 0.0
    g = index + 1

    def part(a, b):
        # integral of E^index over [a, b] relative to a^g, well conditioned
        x = math.log1p((b - a) / a)
        return x if g == 0 else math.expm1(g * x) / g

    return (lo / e_min) ** g * part(lo, hi) / part(e_min, e_max)


def info(index=-2.0, n=1000.0, rng=(0.01, 100.0), unit="TeV", vc=(0.0, 5.0), impact=500.0):
    from pyirf.simulations import SimulatedEventsInfo

    return SimulatedEventsInfo(
        n_showers=n, energy_min=u.Quantity(rng[0], "TeV").to(unit), energy_max=u.Quantity(rng[1], "TeV").to(unit),
        max_impact=impact * u.m, spectral_index=index, viewcone_min=vc[0] * u.deg, viewcone_max=vc[1] * u.deg,
    )


def jobs(tier):
    js = [dict(kind="subsets", index=i, rng=r, full=tier == "thorough") for i in INDICES for r in RANGES]
    if tier == "thorough":
        js += [dict(kind="subsets", index=i, rng=r, full=True) for i in (-1.001, -1.9999, -3, -7.5) for r in RANGES + [(1e-6, 1e6)]]
    return js + [dict(kind="variants", index=i) for i in INDICES]


def check(inf, index, n, rng, edges, bins, again=True, atol=1e-13):
    before = (inf.n_showers, str(inf.energy_min), str(inf.energy_max), inf.spectral_index)
    res = pure(inf.calculate_n_showers_per_energy, bins, again=again)
    want = [n * share(index, a, b, *rng) for a, b in zip(edges[:-1], edges[1:])]
    # e_min and its neighbours differ by rounding noise only
    eq(res, want, None, "showers", rtol=1e-9 if atol > 1e-14 else 1e-4, atol=atol * n)
    r = np.asarray(res)
    for k, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
        if b <= rng[0] or a >= rng[1]:
            need(r[k] == 0, f"bin {k} outside of the simulated range has {r[k]} showers")
        need(r[k] >= 0, f"bin {k} has {r[k]} showers")
    need(r.sum() <= n * (1 + 1e-9), f"{r.sum()} of {n} showers")
    if edges[0] <= rng[0] and edges[-1] >= rng[1]:
        eq(r.sum(), n, None, "total", rtol=1e-9)
    need(before == (inf.n_showers, str(inf.energy_min), str(inf.energy_max), inf.spectral_index), "the simulation info changed")
    return r


def run(job, rec):
    from pyirf.simulations import SimulatedEventsInfo

    index = job["index"]
    if job["kind"] == "subsets":
        lo, hi = rng = tuple(job["rng"])
        mids = [lo * (hi / lo) ** f for f in (0.25, 0.5, 0.8)]
        pts = [0.0, lo / 3, down(lo), lo, up(lo), *mids, down(hi), hi, up(hi), hi * 2.5, INF]
        for close in itertools.product((lo * (1 - 1e-7), lo * (1 + 1e-7), lo * (1 + 1e-10)), (hi * (1 - 1e-7), hi * (1 - 1e-10), hi * (1 + 1e-7), hi * 2)):
            for sub in ((), (lo, hi), (mids[1],), (0.0, lo, mids[0], hi, INF)):
                edges = sorted({*close, *sub})
                with rec.case("index", index, "range", rng, "edges close to the limits", edges, steps=len(edges) - 1):
                    check(info(index, 1000.0, rng), index, 1000.0, rng, edges, u.Quantity(edges, "TeV"), atol=1e-16 * (2 + abs(index)) * 10)
        for k in range(2, len(pts) + 1):
            for edges in itertools.combinations(pts, k):
                if not job["full"] and 6 < k < 11 and sum(pts.index(e) for e in edges) % 2:
                    continue
                with rec.case("index", index, "range", rng, "edges", edges, steps=k - 1):
                    r = check(info(index, 1000.0, rng), index, 1000.0, rng, edges, u.Quantity(edges, "TeV"), again=k == 4)
                    rec.outcome(np.round(r, 6).tolist())
        return
    for rng in RANGES + [(1e-3, 1e3)]:
        lo, hi = rng
        edges = [lo / 7, lo * 1.5, (lo * hi) ** 0.5, hi * 0.9, hi * 3]
        for su, bu in itertools.product(("TeV", "GeV", "MeV", "erg", "J"), repeat=2):
            for sub in itertools.chain.from_iterable(itertools.combinations(edges, k) for k in (2, 3, 5)):
                with rec.case("index", index, "range", rng, "in", su, "edges", sub, "in", bu):
                    check(info(index, 500, rng, su), index, 500, rng, sub, u.Quantity(sub, "TeV").to(bu), again=False)
            # limits themselves after conversion
            with rec.case("index", index, "range", rng, "in", su, "full range in", bu):
                b = u.Quantity(rng, "TeV").to(bu)
                r = pure(info(index, 500, rng, su).calculate_n_showers_per_energy, b)
                eq(r, [500], None, "full range", rtol=1e-9)
        for n in (0, 1, 7, 1000, 2**31 + 5, 10**12, 1.5, np.int32(7), np.int64(10**10), np.uint32(4 * 10**9)):
            with rec.case("index", index, "range", rng, "n_showers", repr(n)):
                check(info(index, n, rng), index, float(n), rng, edges, u.Quantity(edges, "TeV"))
        for size in (1, 2, 10, 1000, 10000):
            with rec.case("index", index, "range", rng, size, "bins"):
                e = np.geomspace(lo / 2, hi * 2, size + 1)
                check(info(index, 500.0, rng), index, 500.0, rng, e.tolist(), u.Quantity(e, "TeV"))
        for dt in ("f4", ">f8", "strided", "readonly"):
            with rec.case("index", index, "range", rng, "edges as", dt):
                e = np.array([0.25, 0.5, 8.0, 64.0])
                b = np.array(e)
                if dt == "strided":
                    b = np.repeat(b, 2)[::2]
                elif dt == "readonly":
                    b.setflags(write=False)
                else:
                    b = b.astype(dt)
                inf = info(index, 500.0, rng)
                r = inf.calculate_n_showers_per_energy(u.Quantity(b, "TeV", copy=False, dtype=b.dtype))
                eq(r, [500 * share(index, x, y, *rng) for x, y in zip(e[:-1], e[1:])], None, "showers", rtol=1e-5 if dt == "f4" else 1e-9)
        # many different binnings on the same object do not influence each other
        with rec.case("index", index, "range", rng, "one object for a sequence of binnings", steps=12):
            inf = info(index, 300.0, rng)
            for sub in itertools.combinations(edges, 3):
                check(inf, index, 300.0, rng, sub, u.Quantity(sub, "TeV"))
            for sub in itertools.combinations(edges, 2):
                check(inf, index, 300.0, rng, sub, u.Quantity(sub, "TeV"))
    for bad in (-0.9999, -0.5, 0, 0.0, 1, 2.0, up(-1.0)):
        with rec.case("spectral index", bad):
            raises(ValueError, info, bad)
    kw = dict(n_showers=10, energy_min=1 * u.TeV, energy_max=2 * u.TeV, max_impact=1 * u.m, spectral_index=index, viewcone_min=0 * u.deg, viewcone_max=1 * u.deg)
    for name, bad in [("energy_min", 1 * u.m), ("energy_max", 2.0), ("max_impact", 1 * u.deg), ("viewcone_max", 2 * u.s), ("viewcone_min", 1 * u.TeV)]:
        with rec.case(name, str(bad)):
            raises((TypeError, u.UnitsError), SimulatedEventsInfo, **{**kw, name: bad})
    for bad in (u.Quantity([1, 2], "m"), np.array([1.0, 2.0])):
        with rec.case("bins", str(bad)):
            raises((TypeError, u.UnitsError), info(index).calculate_n_showers_per_energy, bad)
