import itertools

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.hist import count, histories
from mc.util import eq, need, pure

SPACE = """energy_dispersion and energy_migration_matrix: every single event at/next to/between/outside all edges of the three axes (and nan), all multisets of
up to 2 (thorough: 3) events over first bin/last bin/outside of every axis in several orders, and pumped histories of up to 2000 events, for seven
families of non-uniform binnings (pairwise different numbers of bins, equal numbers on two or all axes), crossed with unit variations; every result is compared bin by bin with normalised counts
of the model."""
ASSUMPTIONS = ["true energies of events are powers of two where the migration value is placed exactly at an edge", "unit variations use values off the edges"]

TRUE = [[0.5, 1.0, 8.0], [0.25, 0.5, 2.0, 4.0, 16.0], [1.0, 4.0], [0.5, 2.0, 8.0], [1.0, 4.0], [0.5, 1.0, 2.0, 8.0], [0.5, 1.0, 2.0, 8.0]]
MIGRA = [[0.25, 0.75, 1.0, 1.5], [0.5, 2.0], [0.0, 0.5, 1.0, 1.25, 3.0], [0.25, 1.0, 3.0], [0.5, 1.0, 1.5], [0.5, 0.75, 1.0, 2.0], [0.5, 2.0]]
RECO = [[0.25, 0.5, 1.5, 6.0], [0.5, 9.0], [0.125, 0.5, 1.0, 1.75, 3.0], [0.25, 1.0, 6.0], [0.5, 1.0, 9.0], [0.5, 1.0, 2.0, 8.0], [0.5, 9.0]]
FOV = [[0.0, 1.0, 2.0, 3.0, 5.0], [0.0, 0.5, 2.0], [1.0, 1.5, 2.0, 4.0], [0.0, 1.0, 3.0], [0.0, 1.0, 1.5], [0.0, 2.0], [0.0, 0.5, 1.0, 3.0]]
N = len(TRUE)


def jobs(tier):
    return [dict(kind=k, bins=i, part=p, depth=3 if tier == "thorough" else 2) for k in ("disp", "migr") for i in range(N) for p in range(3)] + [dict(kind="units")]


def table(kind, evs, units=("TeV", "TeV", "deg")):
    t = QTable()
    true = [ev[0] for ev in evs]
    reco = [ev[1] * ev[0] for ev in evs] if kind == "disp" else [ev[1] for ev in evs]
    t["true_source_fov_offset"] = u.Quantity([ev[2] for ev in evs], "deg", dtype=float).to(units[2])
    t["reco_energy"] = u.Quantity(reco, "TeV", dtype=float).to(units[1])
    t["true_energy"] = u.Quantity(true, "TeV", dtype=float).to(units[0])
    t["weight"] = np.array([ev[3] for ev in evs], dtype=float)
    return t


def compare(kind, evs, axes, again=False, units=("TeV", "TeV", "deg"), bins=("TeV", "TeV", "deg")):
    from pyirf.irf import energy_dispersion
    from pyirf.irf.energy_dispersion import energy_migration_matrix

    t = table(kind, evs, units)
    e, f = u.Quantity(axes[0], "TeV").to(bins[0]), u.Quantity(axes[2], "deg").to(bins[2])
    if kind == "disp":
        res = pure(energy_dispersion, t, e, f, np.array(axes[1]), again=again)
    else:
        res = pure(energy_migration_matrix, t, e, u.Quantity(axes[1], "TeV").to(bins[1]), f, again=again)
    evs = [(ev[0], (ev[1] * ev[0]) / ev[0] if kind == "disp" else ev[1], ev[2], 1.0) for ev in evs]
    h = count(evs, axes)
    want = np.zeros(h.shape)
    for i, k in np.ndindex(h.shape[0], h.shape[2]):
        n = h[i, :, k].sum()
        if n > 0:
            want[i, :, k] = h[i, :, k] / n
            if kind == "disp":
                want[i, :, k] /= np.diff(axes[1])
    eq(res, want, "", "matrix")
    r = np.asarray(res)
    for i, k in np.ndindex(h.shape[0], h.shape[2]):
        s = (r[i, :, k] * (np.diff(axes[1]) if kind == "disp" else 1)).sum()
        need(s == 0 if h[i, :, k].sum() == 0 else abs(s - 1) < 1e-9, f"slice {i}, {k} sums to {s}")
    return want


def run(job, rec):
    if job["kind"] == "units":
        for kind, i in itertools.product(("disp", "migr"), range(0, N, 2)):
            axes = [TRUE[i], (MIGRA if kind == "disp" else RECO)[i], FOV[i]]
            for units in itertools.product(("TeV", "GeV"), ("TeV", "MeV"), ("deg", "rad")):
                for bins in itertools.product(("TeV", "GeV"), ("TeV", "erg"), ("deg", "arcmin")):
                    if kind == "disp" and bins[1] == "erg":
                        continue
                    for label, evs in histories(axes, 0, (1.0, 3.0), sharp_axes=False, pumps=(60,)):
                        if len(evs) == 1 and (units[0] == "GeV") == (bins[0] == "TeV"):
                            continue
                        with rec.case(kind, axes, "events in", units, "bins in", bins, label, evs[:3], steps=max(1, len(evs))):
                            compare(kind, evs, axes, False, units, bins)
            for n in (70000,):
                with rec.case(kind, axes, "many events", n):
                    base = [e for k, es in histories(axes, 0, (1.0,), sharp_axes=False, pumps=()) for e in es]
                    compare(kind, (base * (n // len(base) + 1))[:n], axes, True)
                with rec.case(kind, axes, "one bin with many events", n):
                    compare(kind, [base[len(base) // 2]] * (n + 7) + base, axes, True)
            # very narrow and very wide bins on the second axis: a density gets very large / very small
            for width in (1e-7, 1e-5, 1e-3, 1e4, 1e7):
                ax = [axes[0], [0.5, 1.0, 1.0 + width, 1.0 + 3 * width, 8.0 + 5 * width], axes[2]]
                h = [(e, f) for e in axes[0][:-1] for f in axes[2][:-1]]
                evs = [(e * 1.0, v, f + 1e-3, 1.0) for e, f in h[::2] for v in (0.7, 1.0 + 0.5 * width, 1.0 + 0.6 * width, 1.0 + 2 * width)]
                with rec.case(kind, axes, "bins of width", width, steps=len(evs)):
                    compare(kind, evs, ax)
            for k in range(1, 40, 6):
                with rec.case(kind, "bins", k):
                    ax = [np.geomspace(1, 8, k + 1).tolist(), np.linspace(0.3, 3, 2 * k + 1).tolist(), np.linspace(0, 4, k + 3).tolist()]
                    evs = [(1.01 + 0.37 * j % 6.9, 0.31 + (0.71 * j) % 2.6, (0.113 * j) % 4.4, 1.0) for j in range(300)]
                    compare(kind, evs, ax)
        return
    kind, i = job["kind"], job["bins"]
    axes = [TRUE[i], (MIGRA if kind == "disp" else RECO)[i], FOV[i]]
    for j, (label, evs) in enumerate(histories(axes, job["depth"], (1.0, 100.0, 0.0))):
        if j % 3 != job["part"]:
            continue
        with rec.case(kind, axes, label, evs[:4], len(evs), "events", steps=max(1, len(evs))):
            rec.outcome(compare(kind, evs, axes, again=j % 11 == 0).tolist())
