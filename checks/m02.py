import itertools
import math

import astropy.units as u
import numpy as np

from mc.models import ring
from mc.util import eq, need, pure, raises

from .m01 import info, share

SPACE = """All strictly increasing offset binnings (2 to 9 edges) over {0, inside/at/outside of both viewcone limits, 180 deg} for nine viewcones
(full cone, rings, narrow, wide, whole sphere), alone and jointly with every binning of 2 to 6 energy edges of an alphabet (pairwise different numbers of bins), plus
unit, n_showers, size and call-sequence variations; empty viewcones must be rejected."""
ASSUMPTIONS = ["offset bins are judged with an absolute tolerance of 1e-15 / (fraction of the sphere covered by the viewcone), the rounding of cosines"]

CONES = [(0.0, 5.0), (0.0, 0.4), (1.0, 3.0), (0.5, 0.6), (0.0, 10.0), (2.0, 60.0), (0.0, 180.0), (30.0, 180.0), (2.9996, 3.0)]


def fov_share(lo, hi, vc):
    a, b = max(lo, vc[0]), min(hi, vc[1])
    if b <= a:
        return 0.0
    r = math.radians
    return ring(r(a), r(b)) / ring(r(vc[0]), r(vc[1]))


def tol(vc):
    return 2e-15 * 4 * math.pi / ring(math.radians(vc[0]), math.radians(vc[1]))


def jobs(tier):
    return [dict(kind=k, vc=vc, deep=tier == "thorough") for k in ("fov", "joint", "variants") for vc in CONES]


def points(vc):
    lo, hi = vc
    pts = {0.0, lo / 2, lo, lo + 0.1 * (hi - lo), 0.5 * (lo + hi), lo + 0.9 * (hi - lo), hi, min(hi * 1.5, 180.0), 180.0}
    return sorted(pts)


def check(inf, vc, n, edges, bins, again=False, rtol=1e-9, ulps=20.0):
    res = pure(inf.calculate_n_showers_per_fov, bins, again=again)
    want = [n * fov_share(a, b, vc) for a, b in zip(edges[:-1], edges[1:])]
    eq(res, want, None, "showers", rtol=rtol, atol=n * tol(vc) * ulps / 20)
    r = np.asarray(res)
    for k, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
        if b < vc[0] * (1 - 1e-9) or a > vc[1] * (1 + 1e-9):
            need(r[k] == 0, f"bin {k} outside of the viewcone has {r[k]} showers")
    if edges[0] <= vc[0] and edges[-1] >= vc[1]:
        eq(r.sum(), n, None, "total", rtol=1e-9)
    return r


def run(job, rec):
    vc = tuple(job["vc"])
    pts = points(vc)
    if job["kind"] == "fov":
        for k in range(2, len(pts) + 1):
            for edges in itertools.combinations(pts, k):
                for n in (1000.0,):
                    with rec.case("viewcone", vc, "edges", edges, steps=k - 1):
                        r = check(info(n=n, vc=vc), vc, n, edges, u.Quantity(edges, "deg"), again=k == 3)
                        rec.outcome(np.round(r, 6).tolist())
        # bins that share less than a millionth of a degree with the viewcone
        for d in (3e-7, 1e-5, 1e-3):
            for edges in ([vc[1] - d, min(vc[1] * 1.5, 181.0)], [vc[1] - d, vc[1]], [vc[0], vc[0] + d], [vc[0] / 2, vc[0] + d] if vc[0] else [0.0, d], [0.0, vc[0] + d, vc[1] - d, 180.0]):
                if vc[0] + d < vc[1] - d:
                    with rec.case("viewcone", vc, "edges close to the limits", edges, steps=len(edges) - 1):
                        check(info(n=1.0, vc=vc), vc, 1.0, edges, u.Quantity(edges, "deg"), rtol=1e-3, ulps=1.0)
        return
    es = [0.001, 0.01, 0.2, 3.0, 50.0, 300.0]
    if job["kind"] == "joint":
        e_bins = [c for k in (2, 3, 4, 5, 6) for c in itertools.combinations(es, k)]
        f_bins = [c for k in (2, 4, 5) for c in itertools.combinations(pts, k)]
        if not job["deep"]:
            f_bins = f_bins[::3] + f_bins[-1:]
            e_bins = e_bins[::2] + e_bins[-1:]
        for index in (-1, -2.3):
            for eb, fb in itertools.product(e_bins, f_bins):
                with rec.case("index", index, "viewcone", vc, "energy", eb, "offset", fb, steps=2):
                    inf = info(index, 700.0, vc=vc)
                    f = pure(inf.calculate_n_showers_per_energy_and_fov, u.Quantity(eb, "TeV"), u.Quantity(fb, "deg"), again=len(eb) == 3 and len(fb) == 5)
                    want = [[700 * share(index, a, b, 0.01, 100.0) * fov_share(c, d, vc) for c, d in zip(fb[:-1], fb[1:])] for a, b in zip(eb[:-1], eb[1:])]
                    eq(f, want, None, "showers", rtol=1e-9, atol=700 * tol(vc))
        return
    edges = [vc[0] * 0.5, vc[0] + 0.2 * (vc[1] - vc[0]), vc[0] + 0.6 * (vc[1] - vc[0]), min(180.0, vc[1] * 1.3)]
    from pyirf.simulations import SimulatedEventsInfo

    for vu1, vu2, bu in itertools.product(("deg", "rad", "arcmin"), repeat=3):
        for sub in [c for k in (2, 3, 4) for c in itertools.combinations(edges, k)]:
            with rec.case("viewcone", vc, vu1, vu2, "edges", sub, bu):
                inf = SimulatedEventsInfo(10.0, 10 * u.GeV, 100 * u.TeV, 1 * u.km, -2.0, (vc[0] * u.deg).to(vu1), (vc[1] * u.deg).to(vu2))
                check(inf, vc, 10.0, sub, u.Quantity(sub, "deg").to(bu))
                r = pure(inf.calculate_n_showers_per_energy_and_fov, u.Quantity([1e4, 1e5, 1e6], "MeV"), u.Quantity(sub, "deg").to(bu), again=False)
                eq(r, [[10 * share(-2.0, a, b, 0.01, 100.0) * fov_share(c, d, vc) for c, d in zip(sub[:-1], sub[1:])] for a, b in ((0.01, 0.1), (0.1, 1.0))],
                   None, "showers", rtol=1e-9, atol=10 * tol(vc))
    for n in (1, 7, 2**31 + 5, 10**12, np.int32(2 * 10**9), np.uint32(4 * 10**9), np.int64(10**13)):
        with rec.case("viewcone", vc, "n_showers", repr(n)):
            inf = info(n=n, vc=vc)
            check(inf, vc, float(n), edges, u.Quantity(edges, "deg"), again=True)
            r = pure(inf.calculate_n_showers_per_energy_and_fov, u.Quantity(es, "TeV"), u.Quantity(edges, "deg"))
            eq(r, [[float(n) * share(-2.0, a, b, 0.01, 100.0) * fov_share(c, d, vc) for c, d in zip(edges[:-1], edges[1:])] for a, b in zip(es[:-1], es[1:])],
               None, "showers", rtol=1e-9, atol=float(n) * tol(vc))
    for size in (1, 2, 30, 5000):
        with rec.case("viewcone", vc, size, "bins"):
            e = np.linspace(0, min(180.0, vc[1] * 1.2), size + 1)
            check(info(n=100.0, vc=vc), vc, 100.0, e.tolist(), u.Quantity(e, "deg"), again=True)
    with rec.case("viewcone", vc, "one object, different calls", steps=20):
        inf = info(n=100.0, vc=vc)
        for sub in [c for k in (2, 3, 4) for c in itertools.combinations(edges, k)]:
            check(inf, vc, 100.0, sub, u.Quantity(sub, "deg"))
            eq(inf.calculate_n_showers_per_energy(u.Quantity([0.01, 100], "TeV")), [100], None, "energy", rtol=1e-9)
    for same in (vc[0], vc[1]):
        with rec.case("empty viewcone at", same):
            inf = info(vc=(same, same))
            raises(ValueError, inf.calculate_n_showers_per_fov, u.Quantity(edges, "deg"))
            raises(ValueError, inf.calculate_n_showers_per_energy_and_fov, u.Quantity(es, "TeV"), u.Quantity(edges, "deg"))
    for bad in ((u.Quantity(es, "deg"), u.Quantity(edges, "deg")), (u.Quantity(es, "TeV"), u.Quantity(edges, "TeV")), (u.Quantity(es, "TeV"), np.array(edges))):
        with rec.case("bad units", vc):
            raises((TypeError, u.UnitsError), info(vc=vc).calculate_n_showers_per_energy_and_fov, *bad)
