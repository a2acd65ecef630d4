import itertools
import math

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.hist import count, histories
from mc.models import ring
from mc.util import eq, need, pure, raises

from .m01 import info, share
from .m02 import fov_share
from .m03 import covered, rect, subpixel_bounds

SPACE = """For each of the five effective area functions: every single event at/next to/between/outside all bin edges of all axes (and nan), all
multisets of up to 2 (thorough: 3) events over first bin/last bin/outside of every axis in canonical, reversed and rotated order, and pumped histories of up to 2000 events, over
binnings with pairwise different and with equal numbers of bins; simulations differ in index, viewcone, impact radius and units; each result is compared with counts of the model divided
by the closed-form expectation of simulated events."""
ASSUMPTIONS = ["bins without any expected simulated event are not judged (0/0)",
               "lon/lat bins cut by the edge of the viewcone are judged within the resolution of the subpixels"]

E_BINS = [[0.02, 0.5, 8.0], [0.01, 0.1, 1.0, 3.0, 100.0], [0.25, 4.0], [0.02, 0.5, 8.0], [0.25, 1.0, 4.0, 64.0]]
F_BINS = [[0.0, 1.0, 2.0, 4.0], [0.5, 2.5], [0.0, 0.5, 1.0, 1.5, 4.5], [0.0, 1.0, 4.0], [0.0, 0.5, 1.0, 4.0]]
P_BINS = [[0.0, 1.0, 4.0, 5.0, 6.0], [0.0, 6.25], [-3.0, 0.0, 3.0], [0.0, 1.0, 6.0], [0.0, 3.0]]  # rad
LON = [[-3.0, -1.0, 0.5, 2.0], [1.0, 2.0], [-4.0, -3.0, -1.5, 0.0, 3.0], [-1.0, 0.0, 3.0], [-1.0, 0.5, 1.0, 3.0]]
LAT = [[-2.0, 0.0, 1.0, 1.5, 2.5], [-0.5, 1.25], [-1.0, 2.0, 5.0], [-2.0, 0.5, 1.0], [0.0, 0.5, 2.0, 2.5]]

FUNCS = ("energy", "fov", "polar", "lonlat")


def jobs(tier):
    js = []
    for f in FUNCS:
        for i in range(len(E_BINS)):
            for part in range(4 if f in ("polar", "lonlat") else 1):
                js.append(dict(kind=f, bins=i, part=part, parts=4 if f in ("polar", "lonlat") else 1, depth=3 if tier == "thorough" else 2))
        js.append(dict(kind="units", func=f))
    return js + [dict(kind="ratio")]


NAMES = {"energy": ["true_energy"], "fov": ["true_energy", "true_source_fov_offset"],
         "polar": ["true_energy", "true_source_fov_offset", "true_source_fov_position_angle"],
         "lonlat": ["true_energy", "true_source_fov_lon", "true_source_fov_lat"]}
UNITS = {"energy": ["TeV"], "fov": ["TeV", "deg"], "polar": ["TeV", "deg", "rad"], "lonlat": ["TeV", "deg", "deg"]}


def axes_for(func, i):
    return {"energy": [E_BINS[i]], "fov": [E_BINS[i], F_BINS[i]], "polar": [E_BINS[i], F_BINS[i], P_BINS[i]], "lonlat": [E_BINS[i], LON[i], LAT[i]]}[func]


def expected_sim(func, axes, index, n, vc, n_sub=20):
    """(lowest, highest) expected number of simulated events per bin"""
    e = np.array([share(index, a, b, 0.01, 100.0) for a, b in zip(axes[0][:-1], axes[0][1:])]) * n
    if func == "energy":
        return e, e
    if func == "lonlat":
        low, high, _ = subpixel_bounds(axes[1], axes[2], vc, n_sub)
        f = np.array([[rect(a, b, c, d) for c, d in zip(axes[2][:-1], axes[2][1:])] for a, b in zip(axes[1][:-1], axes[1][1:])])
        f = f / ring(math.radians(vc[0]), math.radians(vc[1]))
        return e[:, None, None] * (low * f), e[:, None, None] * (high * f)
    f = np.array([fov_share(a, b, vc) for a, b in zip(axes[1][:-1], axes[1][1:])])
    r = e[:, None] * f
    if func == "polar":
        r = r[:, :, None] * (np.diff(axes[2]) / (2 * math.pi))
    return r, r


def functions():
    import pyirf.irf as irf

    return {"energy": irf.effective_area_per_energy, "fov": irf.effective_area_per_energy_and_fov, "polar": irf.effective_area_3d_polar, "lonlat": irf.effective_area_3d_lonlat}


def table(func, evs, units, weight=False):
    t = QTable()
    for k, name in enumerate(NAMES[func]):
        t[name] = u.Quantity([ev[k] for ev in evs], UNITS[func][k], dtype=float).to(units[k])
    t["reco_energy"] = u.Quantity(np.full(len(evs), 3.0), "TeV")
    if weight:
        t["weight"] = np.array([ev[-1] for ev in evs], dtype=float)
    return t


def compare(func, evs, axes, index, n, vc, impact, units, bin_units, weight, again, n_sub=None, inf=None):
    inf = inf or info(index, n, vc=vc, impact=impact)
    q = [u.Quantity(a, un).to(b) for a, un, b in zip(axes, UNITS[func], bin_units)]
    kw = {} if n_sub is None else dict(subpixels=n_sub)
    res = pure(functions()[func], table(func, evs, units, weight), inf, *q, again=again, **kw)
    h = count([ev[:-1] + (1.0,) for ev in evs], axes)
    low, high = expected_sim(func, axes, index, n, vc, n_sub or 20)
    need(np.shape(res) == h.shape, f"shape {np.shape(res)}, expected {h.shape}")
    need(getattr(res, "unit", None) is not None and res.unit.is_equivalent("m2"), f"unit {getattr(res, 'unit', None)}")
    got = u.Quantity(res).to_value("m2")
    area = math.pi * impact**2
    ok = (low > 0) if func != "lonlat" else (low > 0) & (high > 0)
    lo, hi = h[ok] * area / high[ok], h[ok] * area / low[ok]
    g = got[ok]
    bad = ~((g >= lo * (1 - 1e-9)) & (g <= hi * (1 + 1e-9)))
    if bad.any():
        k = tuple(int(x[bad.argmax()]) for x in np.nonzero(ok))
        need(False, f"bin {k}: {got[k]} m2, expected {h[k]} / {low[k]} * {area} m2")
    return h


def run(job, rec):
    if job["kind"] == "ratio":
        from pyirf.irf import effective_area

        for n_sel, n_sim in itertools.product((0, 1, 7, 1000), (1, 10, 10**9, 2.5)):
            for area, unit in itertools.product((1.0, 3.5e5), ("m2", "km2", "cm2")):
                with rec.case("effective area", n_sel, n_sim, area, unit):
                    eq(pure(effective_area, n_sel, n_sim, area * u.Unit(unit)), n_sel / n_sim * area, unit, "area")
                    eq(pure(effective_area, np.array([n_sel, 5]), np.array([n_sim, 20.0]), area * u.Unit(unit)), [n_sel / n_sim * area, 0.25 * area], unit, "area")
                    eq(pure(effective_area, np.array([[n_sel], [3]]), np.array([n_sim, 2, 4]), area * u.Unit(unit)),
                       [[n_sel / x * area for x in (n_sim, 2, 4)], [3 / x * area for x in (n_sim, 2, 4)]], unit, "area")
        for dt in ("i4", "i8", "u2", "f4"):
            with rec.case("integer types", dt):
                eq(effective_area(np.array([1, 3], dtype=dt), np.array([2, 40000], dtype="i8"), 2 * u.m**2), [1.0, 1.5e-4], "m2", "area", rtol=1e-6)
        for bad in (1.0, 1 * u.m, 1 * u.TeV):
            with rec.case("area", str(bad)):
                raises((TypeError, u.UnitsError), effective_area, 1, 2, bad)
        return
    if job["kind"] == "units":
        func = job["func"]
        cfgs = [("TeV", "deg", "rad"), ("GeV", "rad", "deg"), ("MeV", "arcmin", "arcmin")]
        for i, eu, bu in itertools.product((0, 1, 4), cfgs, cfgs):
            axes = axes_for(func, i)
            for kind, evs in histories(axes, 2, (1.0,), sharp_axes=False, pumps=(40,)):
                if len(evs) == 2:
                    continue
                with rec.case(func, "events in", eu, "bins in", bu, "axes", axes, kind, evs, steps=len(evs)):
                    compare(func, evs, axes, -2.0, 1000, (0.0, 5.0), 300.0, eu, bu, False, False)
        from pyirf.simulations import SimulatedEventsInfo

        axes = axes_for(func, 0)
        evs = [e for k, es in histories(axes, 0, (1.0,), sharp_axes=False, pumps=(30,)) for e in es]
        for a, b, c in itertools.product(("TeV", "GeV"), ("m", "km", "cm"), ("deg", "rad")):
            for index, n, vc in itertools.product((-1, -2.0, -2.7), (100, 2**31 + 7, 1e5), ((0.0, 5.0), (0.7, 3.3))):
                with rec.case(func, "simulation in", a, b, c, "index", index, "n", n, "viewcone", vc, steps=len(evs)):
                    inf = SimulatedEventsInfo(n, (0.01 * u.TeV).to(a), (100 * u.TeV).to(a), (300 * u.m).to(b), index, (vc[0] * u.deg).to(c), (vc[1] * u.deg).to(c))
                    h = compare(func, evs, axes, index, n, vc, 300.0, UNITS[func], UNITS[func], False, True, inf=inf)
                    rec.outcome((index, n, vc, int(h.sum())))
        for n in (300, 40000, 70000):
            with rec.case(func, n, "events in one bin", steps=n):
                compare(func, [evs[len(evs) // 2]] * n + evs, axes, -2.0, 1000, (0.0, 5.0), 300.0, UNITS[func], UNITS[func], False, False)
        if func == "lonlat":
            for n_sub in (1, 5, 50):
                for i in range(len(E_BINS)):
                    with rec.case("lonlat", "subpixels", n_sub, i):
                        axes = axes_for(func, i)
                        evs = [e for k, es in histories(axes, 0, (1.0,), sharp_axes=False, pumps=(30,)) for e in es]
                        for vc in ((0.0, 3.0), (0.7, 3.3)):
                            compare(func, evs, axes, -2.0, 1000, vc, 300.0, UNITS[func], UNITS[func], False, True, n_sub=n_sub)
        return
    func, i = job["kind"], job["bins"]
    axes = axes_for(func, i)
    conf = [(-2.0, 1000, (0.0, 5.0), 500.0), (-1, 50, (0.0, 3.0), 2000), (-2.62, 10**10, (0.3, 2.8), 0.5), (-2.2, 777, (0.0, 4.0), 100.0), (-3, 12345.0, (0.0, 3.5), 800.0)][i]
    for j, (kind, evs) in enumerate(histories(axes, job["depth"], (1.0, 100.0, 0.0))):
        if j % job["parts"] != job["part"]:
            continue
        if func in ("polar", "lonlat") and kind == "single" and job["depth"] == 2 and any(isinstance(v, float) and v != v for v in evs[0]) and j % 3:
            continue
        with rec.case(func, "axes", axes, kind, evs[:4], len(evs), "events", steps=max(len(evs), 1)):
            h = compare(func, evs, axes, *conf, UNITS[func], UNITS[func], j % 2 == 0, j % 10 == 0)
            rec.outcome((func, i, h.tolist()))
