import itertools
import math

import astropy.units as u
import numpy as np

from mc.models import ring
from mc.util import eq, need, pure, raises

from .m01 import info, share
from .m02 import fov_share, tol

SPACE = """Polar: all combinations of energy, offset and position-angle binnings of small families (1 to 5 bins, always pairwise different
numbers of bins as well), units, and call sequences. Lon/lat: all combinations of longitude and latitude binnings (1 to 8 bins, uniform, non-uniform,
not containing the centre, reaching beyond the viewcone) with seven viewcones and 1 to 100 subpixels; each bin is bounded from both sides by counting
the subpixels that lie completely inside / touch the viewcone, and totals are compared with the exact integral."""
ASSUMPTIONS = ["lon/lat bins lie within 15 deg of the centre (fields of view), where subpixels of one bin cover the same solid angle within a fraction of cos(lat)",
               "lon/lat results are bounded by subpixels touched by the edge of the viewcone"]

CONES = [(0.0, 5.0), (0.0, 0.4), (1.0, 3.0), (0.5, 0.6), (0.0, 10.0), (0.5, 12.0), (2.0, 14.0)]
ES = [(0.01, 0.3), (0.001, 0.02, 1.0), (0.01, 0.1, 5.0, 100.0, 200.0)]
PAS = [(0.0, 360.0), (0.0, 90.0, 360.0), (-180.0, -60.0, 30.0, 50.0, 180.0), (10.0, 40.0), (0.0, 45.0, 90.0, 180.0)]
LONS = {
    "half": [-6.0, 0.0, 6.0], "one": [-12.0, 12.0], "uni": list(np.linspace(-6, 6, 9)), "non": [-6.0, -2.5, -2.0, 1.0, 3.3], "off": [2.0, 3.0, 4.5],
    "far": [11.0, 12.0, 14.0], "tiny": [-0.2, 0.1, 0.3], "corner": [3.0, 4.0, 5.0, 7.0], "single": [0.4, 0.7], "neg": [-9.0, -4.5, -0.9, -0.3, -0.1],
}


def jobs(tier):
    js = [dict(kind="polar", vc=vc) for vc in CONES + [(0.0, 180.0)]]
    deep = tier == "thorough"
    js += [dict(kind="lonlat", vc=vc, lon=a, deep=deep) for vc in CONES for a in LONS]
    js += [dict(kind="variants", vc=vc) for vc in CONES]
    return js


def subpixel_bounds(lons, lats, vc, n):
    """number of subpixels certainly / possibly inside of the viewcone for each bin"""
    lo_b, hi_b, exact = [], [], []
    r1, r2 = math.radians(vc[0]), math.radians(vc[1])
    shape = (len(lons) - 1, len(lats) - 1)
    low, high, ex = np.zeros(shape), np.zeros(shape), np.zeros(shape)
    for i, j in np.ndindex(*shape):
        x = np.radians(np.linspace(lons[i], lons[i + 1], n + 1))
        y = np.radians(np.linspace(lats[j], lats[j + 1], n + 1))
        xm, ym = (x[1:] + x[:-1]) / 2, (y[1:] + y[:-1]) / 2
        half = math.hypot(x[1] - x[0], y[1] - y[0]) / 2 * 1.001
        sep = 2 * np.arcsin(np.sqrt(np.sin(ym[None] / 2) ** 2 + np.cos(ym[None]) * np.sin(xm[:, None] / 2) ** 2))
        certain = (sep + half <= r2) & ((sep - half >= r1) | (r1 == 0))
        possible = (sep - half <= r2) & ((sep + half >= r1) | (r1 == 0))
        low[i, j], high[i, j] = certain.mean(), possible.mean()
        ex[i, j] = covered(lons[i], lons[i + 1], lats[j], lats[j + 1], vc)
    return low, high, ex


_COVER = {}


def covered(l1, l2, b1, b2, vc):
    """solid angle of the rectangle inside of the viewcone (midpoint rule in sin(lat), exact in longitude)"""
    key = (l1, l2, b1, b2, vc)
    if key in _COVER:
        return _COVER[key]
    s1, s2 = math.sin(math.radians(b1)), math.sin(math.radians(b2))
    m = 4000
    s = s1 + (s2 - s1) * (np.arange(m) + 0.5) / m
    c = np.sqrt(1 - s**2)

    def width(r):
        # longitudes with separation < r
        x = np.clip(math.cos(math.radians(r)) / c, -1, 1)
        half = np.degrees(np.arccos(x))
        return np.clip(np.minimum(l2, half) - np.maximum(l1, -half), 0, None)

    w = width(vc[1]) - (width(vc[0]) if vc[0] > 0 else 0)
    _COVER[key] = float(np.radians(w).mean() * (s2 - s1))
    return _COVER[key]


def rect(l1, l2, b1, b2):
    return math.radians(l2 - l1) * (math.sin(math.radians(b2)) - math.sin(math.radians(b1)))


def check_lonlat(eb, lons, lats, vc, n_sub, index=-2.0, n=1000.0, units=("TeV", "deg", "deg", "deg"), again=False):
    inf = info(index, n, vc=vc)
    if units[3] != "deg":
        from pyirf.simulations import SimulatedEventsInfo

        inf = SimulatedEventsInfo(n, 0.01 * u.TeV, 100 * u.TeV, 1 * u.km, index, (vc[0] * u.deg).to(units[3]), (vc[1] * u.deg).to(units[3]))
    args = u.Quantity(eb, "TeV").to(units[0]), u.Quantity(lons, "deg").to(units[1]), u.Quantity(lats, "deg").to(units[2])
    kw = {} if n_sub is None else dict(subpixels=n_sub)
    res = np.asarray(u.Quantity(pure(inf.calculate_n_showers_3d_lonlat, *args, again=again, **kw)).to_value(""))
    shape = (len(eb) - 1, len(lons) - 1, len(lats) - 1)
    need(res.shape == shape, f"shape {res.shape}, expected {shape}")
    e = np.array([share(index, a, b, 0.01, 100.0) for a, b in zip(eb[:-1], eb[1:])])
    low, high, ex = subpixel_bounds(lons, lats, vc, n_sub or 20)
    total = ring(math.radians(vc[0]), math.radians(vc[1]))
    area = np.array([[rect(a, b, c, d) for c, d in zip(lats[:-1], lats[1:])] for a, b in zip(lons[:-1], lons[1:])])
    f = n * area / total
    # subpixels have equal weight although their area varies with cos(lat)
    slack = 1e-9
    bad = (res < e[:, None, None] * (low * f)[None] * (1 - slack)) | (res > e[:, None, None] * (high * f)[None] * (1 + slack))
    if bad.any():
        k = tuple(int(i) for i in np.argwhere(bad)[0])
        w = e[k[0]] * n * ex[k[1:]] / total
        need(False, f"bin {k}: {res[k]} showers, expected {w} ({e[k[0]] * (low * f)[k[1:]]} .. {e[k[0]] * (high * f)[k[1:]]})")
    outside = (high == 0)[None] | (e == 0)[:, None, None]
    need(bool((res[np.broadcast_to(outside, shape)] == 0).all()), "showers in bins outside of the viewcone")
    return res


def run(job, rec):
    vc = tuple(job["vc"])
    if job["kind"] == "polar":
        offs = [(0.0, vc[1]), (vc[0], 0.5 * (vc[0] + vc[1]), min(180.0, 2 * vc[1])), (0.0, 0.3 * vc[1], 0.5 * vc[1], 0.9 * vc[1])]
        for eb, ob, pb, index, n in itertools.product(ES, offs, PAS, (-1, -2.7), (1000.0, 7)):
            for units in ([("TeV", "deg", "deg")] if n == 7 else [("TeV", "deg", "rad"), ("GeV", "rad", "deg"), ("erg", "arcmin", "arcmin")]):
                with rec.case("viewcone", vc, "energy", eb, "offset", ob, "position angle", pb, "index", index, units, n, steps=3):
                    inf = info(index, n, vc=vc)
                    # limits are moved away from the bin edges when converting units
                    args = u.Quantity(eb, "TeV").to(units[0]), u.Quantity(ob, "deg").to(units[1]), u.Quantity(pb, "deg").to(units[2])
                    r = pure(inf.calculate_n_showers_3d_polar, *args, again=n == 7 and len(pb) == 5)
                    want = [[[n * share(index, a, b, 0.01, 100.0) * fov_share(c, d, vc) * (f - e) / 360.0 for e, f in zip(pb[:-1], pb[1:])]
                             for c, d in zip(ob[:-1], ob[1:])] for a, b in zip(eb[:-1], eb[1:])]
                    eq(r, want, "", "showers", rtol=1e-9, atol=n * tol(vc))
                    rec.outcome(np.round(np.asarray(r), 6).tolist())
        for size in (1, 100, 1000):
            with rec.case("viewcone", vc, size, "position angle bins", steps=3):
                p = np.linspace(0, 360, size + 1)
                r = pure(info(-2.0, 100.0, vc=vc).calculate_n_showers_3d_polar, u.Quantity(ES[0], "TeV"), u.Quantity(offs[1], "deg"), p * u.deg)
                want = [[[100.0 * share(-2.0, *ES[0], 0.01, 100.0) * fov_share(c, d, vc) / size] * size for c, d in zip(offs[1][:-1], offs[1][1:])]]
                eq(r, want, "", "showers", rtol=1e-9, atol=100 * tol(vc))
        with rec.case("empty viewcone"):
            raises(ValueError, info(vc=(vc[1], vc[1])).calculate_n_showers_3d_polar, u.Quantity(ES[0], "TeV"), u.Quantity(offs[0], "deg"), u.Quantity(PAS[0], "deg"))
        for bad in ((u.Quantity(ES[0], "TeV"), u.Quantity(offs[0], "deg"), u.Quantity(PAS[0], "TeV")), (u.Quantity(ES[0], "TeV"), u.Quantity(offs[0], "m"), u.Quantity(PAS[0], "deg"))):
            with rec.case("bad units"):
                raises((TypeError, u.UnitsError), info(vc=vc).calculate_n_showers_3d_polar, *bad)
        return
    if job["kind"] == "lonlat":
        lons = LONS[job["lon"]]
        for name, lats in LONS.items():
            for n_sub in (None, 1, 5, 20, 100) if job["deep"] else (None, 5, 60):
                eb = ES[(len(name) + (n_sub or 0)) % 3]
                with rec.case("viewcone", vc, "lon", job["lon"], "lat", name, "subpixels", n_sub, "energy", eb, steps=3):
                    r = check_lonlat(eb, lons, lats, vc, n_sub, again=n_sub == 5 and len(lats) == 3)
                    rec.outcome(np.round(r, 4).tolist())
        return
    # units, totals, symmetry, other settings
    e = ES[2]
    for units in itertools.product(("TeV", "GeV"), ("deg", "rad"), ("deg", "arcmin"), ("deg", "rad")):
        for a, b in (("non", "corner"), ("single", "half"), ("uni", "off")):
            with rec.case("viewcone", vc, "units", units, a, b):
                check_lonlat(e, LONS[a], LONS[b], vc, 20, units=units)
    for n, index in ((1, -1), (7, -2.7), (2.0**40, -3), (1e6, -1.5)):
        with rec.case("viewcone", vc, "n_showers", n, "index", index):
            check_lonlat(e, LONS["non"], LONS["corner"], vc, 20, index, n, again=True)
    grid = np.linspace(-15, 15, 41)
    for n_sub, acc in ((20, 2e-2), (200, 1e-3)):
        with rec.case("viewcone", vc, "total over a fine grid", n_sub):
            r = pure(info(-2.0, 100.0, vc=vc).calculate_n_showers_3d_lonlat, u.Quantity([0.01, 100.0], "TeV"), grid * u.deg, grid[::2] * u.deg, subpixels=n_sub, again=False)
            need(r.shape == (1, 40, 20), f"shape {r.shape}")
            tot = float(u.Quantity(r).to_value("").sum())
            need(abs(tot - 100.0) <= 100 * acc * (10 if vc == (0.5, 0.6) else 1), f"total {tot} of 100 showers")
    # energy bins only scale the result, subdividing the energy axis keeps totals
    with rec.case("viewcone", vc, "energy axis"):
        inf = info(-2.0, 100.0, vc=vc)
        a = inf.calculate_n_showers_3d_lonlat(u.Quantity([0.01, 100.0], "TeV"), u.Quantity(LONS["non"], "deg"), u.Quantity(LONS["half"], "deg"))
        b = inf.calculate_n_showers_3d_lonlat(u.Quantity([0.01, 0.1, 1, 2, 100.0], "TeV"), u.Quantity(LONS["non"], "deg"), u.Quantity(LONS["half"], "deg"))
        eq(u.Quantity(b).to_value("").sum(axis=0), u.Quantity(a).to_value("")[0], None, "sum over energy")
    for bad in ((u.Quantity(e, "TeV"), u.Quantity([0, 1], "m"), u.Quantity([0, 1], "deg")), (u.Quantity(e, "s"), u.Quantity([0, 1], "deg"), u.Quantity([0, 1], "deg"))):
        with rec.case("bad units"):
            raises((TypeError, u.UnitsError), info(vc=vc).calculate_n_showers_3d_lonlat, *bad)
