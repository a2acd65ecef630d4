import itertools
import math

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.hist import count, histories
from mc.models import ring
from mc.util import eq, need, pure

from .m03 import rect

SPACE = """background_2d and background_3d_lonlat: every single event at/next to/between/outside all edges of all axes (and nan), all multisets of up to 2 (thorough: 3) weighted events
over first bin/last bin/outside of every axis in several orders, and pumped histories of up to 2000 events, for families of binnings with pairwise different (and equal, non-uniform)
numbers of bins, crossed with unit variations of events, bins and observation time; every result is compared bin by bin with sums of weights of the model
divided by exact solid angles, bin widths and time."""
ASSUMPTIONS = ["rates agree up to 1e-9"]

ENERGY = [[0.5, 1.0, 8.0], [0.25, 0.5, 2.0, 4.0, 16.0], [1.0, 4.0], [0.5, 1.0, 8.0, 16.0], [2.0**-30, 2.0**-20, 1.0, 2.0**20]]
FOV = [[0.0, 1.0, 2.0, 3.0, 5.0], [0.0, 0.5, 2.0], [1.0, 1.5, 2.0], [0.0, 0.5, 4.0, 4.5], [0.0, 2.0**-17, 2.0**-10, 90.0, 180.0]]
LON = [[-3.0, -1.0, 0.5, 2.0], [1.0, 2.0], [-4.0, -3.0, -1.5, 0.0, 3.0], [-2.0, -1.5, 0.0, 3.0], [-180.0, -45.0, 0.0, 2.0**-10, 180.0]]
LAT = [[-2.0, 0.0, 1.0, 1.5, 2.5], [-30.0, 1.25, 60.0], [-1.0, 2.0, 5.0], [-3.0, -1.0, 0.0, 0.5], [-90.0, -60.0, 0.0, 2.0**-10, 1.0, 90.0]]


def jobs(tier):
    return [dict(kind=k, bins=i, part=p, depth=3 if tier == "thorough" else 2) for k in ("2d", "3d") for i in range(len(ENERGY)) for p in range(3)] + [dict(kind="units", func=k) for k in ("2d", "3d")]


def axes_for(kind, i):
    return [ENERGY[i], FOV[i]] if kind == "2d" else [ENERGY[i], LON[i], LAT[i]]


def compare(kind, evs, axes, again=False, units=("TeV", "deg", "deg"), bins=("TeV", "deg", "deg"), t_obs=50 * u.hour, wdtype=float):
    from pyirf.irf import background_2d, background_3d_lonlat

    names = ["reco_energy", "reco_source_fov_offset"] if kind == "2d" else ["reco_energy", "reco_source_fov_lon", "reco_source_fov_lat"]
    t = QTable()
    t["weight"] = np.array([ev[-1] for ev in evs], dtype=wdtype)
    base = ("TeV", "deg", "deg")
    for k, name in enumerate(names):
        t[name] = u.Quantity([ev[k] for ev in evs], base[k], dtype=float).to(units[k])
    t["true_energy"] = u.Quantity(np.ones(len(evs)), "TeV")
    q = [u.Quantity(a, b).to(c) for a, b, c in zip(axes, base, bins)]
    res = pure(background_2d if kind == "2d" else background_3d_lonlat, t, *q, t_obs, again=again)
    h = count(evs, axes)
    if kind == "2d":
        omega = np.array([ring(math.radians(a), math.radians(b)) for a, b in zip(axes[1][:-1], axes[1][1:])])[None, :]
    else:
        omega = np.array([[rect(a, b, c, d) for c, d in zip(axes[2][:-1], axes[2][1:])] for a, b in zip(axes[1][:-1], axes[1][1:])])[None]
    width = np.diff(axes[0]).reshape([-1] + [1] * (h.ndim - 1))
    want = h / omega / width / t_obs.to_value("s")
    eq(res, want, "1/(s TeV sr)", "rate", rtol=1e-9)
    return h


def run(job, rec):
    if job["kind"] == "units":
        kind = job["func"]
        for i in range(len(ENERGY)):
            axes = axes_for(kind, i)
            for units in itertools.product(("TeV", "GeV"), ("deg", "rad"), ("deg", "arcmin")):
                for bins in itertools.product(("TeV", "erg"), ("deg", "arcmin"), ("deg", "rad")):
                    for label, evs in histories(axes, 0, (1.0, -3.0, 0.25), sharp_axes=False, pumps=(60,)):
                        if len(evs) == 1 and (units[0] == "GeV") == (bins[0] == "TeV"):
                            continue
                        t_obs = [1 * u.s, 50 * u.hour, 30 * u.min, 2 * u.ms, 10 * u.yr][(len(evs) + len(label)) % 5]
                        with rec.case(kind, axes, "events in", units, "bins in", bins, "t", str(t_obs), label, evs[:3], steps=max(1, len(evs))):
                            compare(kind, evs, axes, False, units, bins, t_obs)
            base = [e for k, es in histories(axes, 0, (1.0, 7.0, 2.0), sharp_axes=False, pumps=()) for e in es]
            with rec.case(kind, axes, "many events", steps=70000):
                compare(kind, (base * (70000 // len(base) + 1))[:70000], axes, True)
            for dt in ("i8", "i4", "f4", ">f8"):
                with rec.case(kind, axes, "weights as", dt):
                    compare(kind, base, axes, True, wdtype=dt)
        # a single bin per axis, wherever it is
        for e, f, lo, la in itertools.product(([0.5, 1.0], [4.0, 64.0]), ([0.0, 1.0], [0.5, 1.0], [2.0, 90.0], [170.0, 180.0]), ([1.0, 2.0], [-3.0, -1.0], [-2.0, 3.0]), ([-2.0, 1.0], [1.0, 2.0], [-60.0, -59.0])):
            axes = [e, f] if kind == "2d" else [e, lo, la]
            if kind == "2d" and (lo, la) != ([1.0, 2.0], [1.0, 2.0]) or kind == "3d" and f[0]:
                continue
            for label, evs in histories(axes, 2, (1.0, -3.0, 0.25)):
                with rec.case(kind, "single bins", axes, label, evs[:3], steps=max(1, len(evs))):
                    compare(kind, evs, axes)
        for k in range(1, 30, 6):
            with rec.case(kind, "bins", k):
                ax = [np.geomspace(1, 8, k + 1).tolist(), np.linspace(0, 4, k + 3).tolist(), np.linspace(-3, 3, 2 * k + 1).tolist()]
                evs = [(1.01 + 0.37 * j % 6.9, (0.113 * j) % 4.4, (0.071 * j) % 5.3 - 3.1, 0.5 + j % 4) for j in range(300)]
                compare(kind, [e if kind == "3d" else (e[0], e[1], e[3]) for e in evs], ax if kind == "3d" else ax[:2])
        return
    kind, i = job["kind"], job["bins"]
    axes = axes_for(kind, i)
    for j, (label, evs) in enumerate(histories(axes, job["depth"], (1.0, 100.0, 0.0, -0.3))):
        if j % 3 != job["part"]:
            continue
        with rec.case(kind, axes, label, evs[:4], len(evs), "events", steps=max(1, len(evs))):
            rec.outcome((kind, i, compare(kind, evs, axes, again=j % 11 == 0).tolist()))
