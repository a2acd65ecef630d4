import itertools
import os
import pathlib
import tempfile

import astropy.units as u
import numpy as np
from astropy.io import fits
from astropy.table import QTable, Table

from mc.util import eq, fail, multisets, need, orders, pump, pure, scramble

SPACE = """synthetic EventDisplay files, each written to disk and read back: all event lists up to 3 (thorough: 5) events over all (obs id, pointing) combinations of 2 obs ids x 2 azimuths x 2 altitudes, in several orders,
pumped lists of 1000 events with large ids, all header values of a family (32- and 64-bit reuse and shower numbers at and beyond the 32-bit limits, energy/core/view cone ranges, spectral indices), histogram contents and dtypes,
column orders, units, additional columns and HDU orders, for both ways to count the showers, with str and Path names; reading is repeated after the caller modified the result."""
ASSUMPTIONS = ["columns not named in COLUMN_MAP are unconstrained", "events without nan (astropy masks nan when reading FITS files)", "float32 histograms are summed with float32 accuracy"]

# name in pyirf, name in the file, dtype, unit
COLUMNS = [("obs_id", "OBS_ID", "i4", None), ("event_id", "EVENT_ID", "i8", None), ("true_energy", "MC_ENERGY", "f8", "TeV"), ("reco_energy", "ENERGY", "f8", "TeV"),
           ("true_alt", "MC_ALT", "f8", "deg"), ("true_az", "MC_AZ", "f8", "deg"), ("pointing_alt", "PNT_ALT", "f8", "deg"), ("pointing_az", "PNT_AZ", "f8", "deg"),
           ("reco_alt", "ALT", "f8", "deg"), ("reco_az", "AZ", "f8", "deg"), ("gh_score", "GH_MVA", "f8", None), ("multiplicity", "MULTIP", "i4", None)]
RUNS = list(itertools.product((1, 2), (180.0, 0.0), (70.0, 60.0)))  # obs id, azimuth, altitude
BASE = dict(num_use=10, num_showers=5000, E_range=(0.003, 330.0), core_range=(0.0, 1500.0), spectral_index=-2.0, viewcone=(0.0, 10.0))


def event(i, run):
    """Row of the event table: distinct values in every column."""
    obs, az, alt = run
    return dict(obs_id=obs, event_id=1000 + 7 * i, true_energy=0.01 * (i + 1), reco_energy=0.02 * (i + 1) + 0.005, true_alt=alt + 0.25, true_az=az + 0.125 * (i % 5),
                pointing_alt=alt, pointing_az=az, reco_alt=alt - 0.5 + 0.01 * i, reco_az=az + 1 + 0.03 * (i % 30), gh_score=-0.5 + 0.001 * i, multiplicity=2 + i % 3)


def write(path, rows, header, hist, colorder=None, units=None, extra=True, hduorder=(0, 1, 2), hist_dtype="f8", rows_header=1, f4=False, idtype=None):
    ev = Table()
    cols = COLUMNS if colorder is None else [COLUMNS[i] for i in colorder]
    for new, old, dt, un in cols:
        if f4 and dt == "f8":
            dt = "f4"
        if idtype and new in ("obs_id", "event_id"):
            dt = idtype
        v = np.array([r[new] for r in rows], dtype=dt)
        if un and units and un in units:
            v = np.array([u.Quantity(r[new], un).to_value(units[un]) for r in rows], dtype=dt)
            ev[old] = v
            ev[old].unit = units[un]
        else:
            ev[old] = v
            if un:
                ev[old].unit = un
    if extra:
        ev["XCORE"] = np.arange(len(rows), dtype=float)
        ev["RUNNUMBER"] = np.arange(len(rows))
    sim = Table()
    sim["MC_ENERG_LO"] = np.arange(len(hist), dtype=float)
    sim["EVENTS"] = np.array(hist, dtype=hist_dtype)
    rh = Table()
    for k, v in header.items():
        rh[k] = [v] + [type(v)(np.multiply(v, 2)) if not isinstance(v, tuple) else tuple(3 * x + 1 for x in v)] * (rows_header - 1)
    if idtype == "i4":
        rh["num_use"] = rh["num_use"].astype("i4")
        rh["num_showers"] = rh["num_showers"].astype("i4")
    hdus = [fits.BinTableHDU(ev, name="EVENTS"), fits.BinTableHDU(sim, name="SIMULATED EVENTS"), fits.BinTableHDU(rh, name="RUNHEADER")]
    fits.HDUList([fits.PrimaryHDU()] + [hdus[i] for i in hduorder]).writeto(path, overwrite=True)


def check(path, rows, header, hist, again=False, aspath=str, rtol=1e-12, units=None, hist_rtol=0.0):
    from pyirf.io import read_eventdisplay_fits
    from pyirf.simulations import SimulatedEventsInfo

    n_runs = len({(r["obs_id"], r["pointing_az"], r["pointing_alt"]) for r in rows})
    for kw, want in (({}, sum(hist)), (dict(use_histogram=True), sum(hist)), (dict(use_histogram=False), n_runs * header["num_use"] * header["num_showers"])):
        for rep in range(2 if again else 1):
            events, info = read_eventdisplay_fits(aspath(path), **kw)
            need(isinstance(events, QTable), f"events are a {type(events).__name__}")
            need(len(events) == len(rows), lambda: f"{len(events)} events, expected {len(rows)}")
            for new, old, dt, un in COLUMNS:
                need(new in events.colnames, f"no column {new}")
                need(old not in events.colnames, f"column {old} was not renamed")
                eq(events[new], [r[new] for r in rows], un, f"column {new}", rtol=rtol)
                if un is None:
                    need(getattr(events[new], "unit", None) is None, f"column {new} has unit")
                elif un and not units:
                    need(events[new].unit == u.Unit(un), f"unit of {new} is {events[new].unit}")
            need(isinstance(info, SimulatedEventsInfo), f"info is a {type(info).__name__}")
            need(abs(int(info.n_showers) - want) <= hist_rtol * want, lambda: f"{kw}: n_showers {info.n_showers!r}, expected {want}")
            h = header
            for name, v, un in (("energy_min", h["E_range"][0], "TeV"), ("energy_max", h["E_range"][1], "TeV"), ("max_impact", h["core_range"][1], "m"),
                                ("viewcone_min", h["viewcone"][0], "deg"), ("viewcone_max", h["viewcone"][1], "deg")):
                eq(getattr(info, name), v, un, name)
            eq(info.spectral_index, h["spectral_index"], None, "spectral_index")
            scramble((events, info))


def jobs(tier):
    depth = 5 if tier == "thorough" else 3
    return [dict(what="events", depth=depth, part=p, parts=6) for p in range(6)] + [dict(what="header"), dict(what="layout"), dict(what="large")]


def run(job, rec):
    base_rows = [event(i, r) for i, r in enumerate(pump(RUNS, 11))]
    with tempfile.TemporaryDirectory() as d:
        path = pathlib.Path(d) / "events.fits"
        if job["what"] == "events":
            for k, hist in enumerate(multisets(RUNS, job["depth"])):
                if k % job["parts"] != job["part"]:
                    continue
                for order in orders(hist, full=len(hist) <= 3):
                    with rec.case("events of (obs id, az, alt)", order, steps=len(order)):
                        rows = [event(i, r) for i, r in enumerate(order)]
                        write(path, rows, BASE, [3, 4, 0, 5])
                        check(path, rows, BASE, [3, 4, 0, 5])
                        rec.outcome(len(set(order)))
        elif job["what"] == "header":
            limits = [1, 7, 2**15, 2**16, 46341, 2**31 - 1]
            for use, num in itertools.product(limits, limits):
                for idtype in (None, "i4"):
                    with rec.case("num_use", use, "num_showers", num, "as", idtype or "i8"):
                        h = dict(BASE, num_use=use, num_showers=num)
                        write(path, base_rows, h, [1, 2], idtype=idtype)
                        check(path, base_rows, h, [1, 2], again=True)
                        rec.outcome((use, num))
            for k, vals in dict(E_range=[(0.003, 330.0), (1.0, 2.0), (0.5, 100.0)], core_range=[(0.0, 1.0), (5.0, 3000.0), (1000.0, 0.5)],
                                viewcone=[(0.0, 0.0), (0.0, 10.0), (1.0, 5.0)], spectral_index=[-2.0, -2.7, -1.0, -3.5]).items():
                for v in vals:
                    for n in (1, 2, 3):
                        with rec.case("header", k, v, "rows", n):
                            h = dict(BASE, **{k: v})
                            write(path, base_rows, h, [1, 2], rows_header=n)
                            check(path, base_rows, h, [1, 2], aspath=pathlib.Path)
            contents = [[0], [1], [0, 0, 5], [1, 2, 3, 4], [2**31 - 1] * 3, [2**31 - 1, 1], [10**9] * 9, list(range(100))]
            for hist in contents:
                for dt in ("f8", "i8", "i4", "f4"):
                    if dt == "f4" and max(hist) > 2**24:
                        continue
                    with rec.case("histogram", hist[:5], dt):
                        write(path, base_rows, BASE, hist, hist_dtype=dt)
                        check(path, base_rows, BASE, hist, hist_rtol=1e-6 if dt == "f4" else 0)
        elif job["what"] == "layout":
            n = len(COLUMNS)
            for shift in range(n):
                for hdus in itertools.permutations(range(3)):
                    with rec.case("column rotation", shift, "HDU order", hdus):
                        write(path, base_rows, BASE, [5, 6], colorder=[(i + shift) % n for i in range(n)][:: 1 if shift % 2 else -1], hduorder=hdus, extra=shift % 3 > 0)
                        check(path, base_rows, BASE, [5, 6], again=True)
            for energy, angle in itertools.product(("TeV", "GeV"), ("deg", "rad")):
                for f4 in (False, True):
                    for asp in (str, pathlib.Path):
                        with rec.case("units", energy, angle, "float32", f4):
                            write(path, base_rows, BASE, [5, 6], units={"TeV": energy, "deg": angle}, f4=f4)
                            check(path, base_rows, BASE, [5, 6], rtol=1e-5 if f4 else 1e-12, units=True, aspath=asp)
        else:
            for n, nobs in ((1, 1), (1000, 50), (1000, 1000), (5000, 3)):
                rows = [event(i, (10**6 + (i * 7) % nobs, 180.0 * (i % 2), 70.0)) for i in range(n)]
                with rec.case("events", n, "obs ids", nobs, steps=n):
                    write(path, rows, BASE, [10**6] * 20)
                    check(path, rows, BASE, [10**6] * 20, again=True)
            for p1, p2 in (((70.0, 180.0), (70.0 + 1e-9, 180.0)), ((70.0, 180.0), (70.0, -180.0)), ((70.0, 0.0), (0.0, 70.0)), ((-70.0, 0.0), (70.0, 0.0))):
                rows = [event(i, (5, *(p1, p2)[i % 2][::-1])) for i in range(6)]
                with rec.case("pointings", p1, p2):
                    write(path, rows, BASE, [4])
                    check(path, rows, BASE, [4])
