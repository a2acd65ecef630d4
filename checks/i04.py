import itertools
import math

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.hist import count, histories
from mc.models import ring
from mc.util import eq, need, pure

SPACE = """Every single event at/next to/between/outside all edges of the three axes (and nan), all multisets of up to 2 (thorough: 3) events over first bin/last
bin/outside of every axis in several orders, and pumped histories of up to 2000 events, for nine families of binnings (pairwise
different numbers of bins, equal numbers on two or all axes), crossed with unit variations; every result is compared bin by bin with the normalised counts of the model divided by exact ring solid angles."""
ASSUMPTIONS = ["solid angles of rings agree within the rounding of the solid angles of the two cones (relative 2e-15)"]

TRUE = [[0.5, 1.0, 8.0], [0.25, 0.5, 2.0, 4.0, 16.0], [1.0, 4.0], [0.5, 2.0, 8.0], [1.0, 4.0], [0.5, 1.0, 2.0, 8.0], [0.5, 1.0, 2.0, 8.0], [0.03125, 1.0, 100.0], [2.0**-30, 2.0**-20, 1.0, 2.0**20]]
SRC = [[0.0, 0.25, 0.5, 1.0], [0.0, 0.5], [0.125, 0.25, 0.5, 2.0, 30.0], [0.0, 0.5, 0.75], [0.125, 0.5, 2.0], [0.0, 0.125, 0.5, 2.0], [0.0, 1.0], [0.0, 0.0005, 0.001, 0.25, 60.0, 180.0], [0.0, 2.0**-17, 2.0**-16, 2.0**-12]]
FOV = [[0.0, 1.0, 2.0, 3.0, 5.0], [0.0, 0.5, 2.0], [1.0, 1.5, 2.0], [0.0, 1.0, 3.0], [0.0, 1.0, 1.5], [0.0, 2.0], [0.0, 0.5, 1.0, 3.0], [0.0, 0.0625, 40.0], [0.0, 2.0**-16, 2.0**-10, 90.0, 180.0]]
N = len(TRUE)


def jobs(tier):
    return [dict(kind="hist", bins=i, part=p, depth=3 if tier == "thorough" else 2) for i in range(N) for p in range(4)] + [dict(kind="units")]


def compare(evs, axes, again=False, units=("TeV", "deg", "deg"), bins=("TeV", "deg", "deg")):
    """axes: true energy, fov offset, source offset"""
    from pyirf.irf import psf_table

    t = QTable()
    t["theta"] = u.Quantity([ev[2] for ev in evs], "deg", dtype=float).to(units[2])
    t["true_source_fov_offset"] = u.Quantity([ev[1] for ev in evs], "deg", dtype=float).to(units[1])
    t["true_energy"] = u.Quantity([ev[0] for ev in evs], "TeV", dtype=float).to(units[0])
    t["weight"] = np.array([ev[3] for ev in evs], dtype=float)
    res = pure(psf_table, t, u.Quantity(axes[0], "TeV").to(bins[0]), u.Quantity(axes[2], "deg").to(bins[2]), u.Quantity(axes[1], "deg").to(bins[1]), again=again)
    h = count([ev[:3] + (1.0,) for ev in evs], axes)
    omega = np.array([ring(math.radians(a), math.radians(b)) for a, b in zip(axes[2][:-1], axes[2][1:])])
    n = h.sum(axis=2, keepdims=True)
    want = np.where(n > 0, h / np.where(n > 0, n, 1), 0.0) / omega
    # rounding of the cones for narrow rings
    rel = 1e-9 + np.array([2e-15 * math.sin(math.radians(b) / 2) ** 2 * 4 * math.pi / o for b, o in zip(axes[2][1:], omega)])
    got = u.Quantity(res).to_value("1/sr")
    need(got.shape == want.shape, f"shape {got.shape}")
    bad = ~(np.abs(got - want) <= rel * np.abs(want))
    need(not bad.any(), lambda: f"psf {got[bad][0]}, expected {want[bad][0]} at {np.argwhere(bad)[0].tolist()}")
    total = (res * u.Quantity(omega, "sr")).sum(axis=2).to_value("")
    need(bool((np.abs(total - (n[..., 0] > 0)) < rel.max()).all()), f"integral {total}")
    return h


def run(job, rec):
    if job["kind"] == "units":
        for i in range(0, N, 2):
            axes = [TRUE[i], FOV[i], SRC[i]]
            for units in itertools.product(("TeV", "GeV"), ("deg", "rad"), ("deg", "arcmin")):
                for bins in itertools.product(("TeV", "erg"), ("deg", "arcmin"), ("deg", "rad", "arcsec")):
                    for label, evs in histories(axes, 0, (1.0, 3.0), sharp_axes=False, pumps=(60,)):
                        if len(evs) == 1 and (units[0] == "GeV") == (bins[0] == "TeV"):
                            continue
                        with rec.case(axes, "events in", units, "bins in", bins, label, evs[:3], steps=max(1, len(evs))):
                            compare(evs, axes, False, units, bins)
            with rec.case(axes, "many events", steps=70000):
                base = [e for k, es in histories(axes, 0, (1.0,), sharp_axes=False, pumps=()) for e in es]
                compare((base * (70000 // len(base) + 1))[:70000], axes, True)
                with rec.case(axes, "one bin with many events", steps=70000):
                    compare([base[len(base) // 2]] * 70007 + base, axes, True)
            for k in range(1, 40, 6):
                with rec.case("bins", k):
                    ax = [np.geomspace(1, 8, k + 1).tolist(), np.linspace(0, 4, k + 3).tolist(), np.linspace(0, 3, 2 * k + 1).tolist()]
                    compare([(1.01 + 0.37 * j % 6.9, (0.113 * j) % 4.4, (0.071 * j) % 3.3, 1.0) for j in range(300)], ax)
        return
    i = job["bins"]
    axes = [TRUE[i], FOV[i], SRC[i]]
    for j, (label, evs) in enumerate(histories(axes, job["depth"], (1.0, 100.0, 0.0))):
        if j % 4 != job["part"]:
            continue
        with rec.case(axes, label, evs[:4], len(evs), "events", steps=max(1, len(evs))):
            rec.outcome((i, compare(evs, axes, again=j % 11 == 0).tolist()))
