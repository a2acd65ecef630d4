"""Shared parts of the checks that run the alphabet of public operations of checks/h01.py under transformations of their inputs."""
from __future__ import annotations

import astropy.units as u
import numpy as np
from astropy.io import fits
from astropy.table import Table

from .engine import Mismatch
from .util import fail, need


def alphabet():
    """All operations of H01 and some estimators of the interpolation module."""
    from checks.h01 import operations

    from pyirf.interpolation import (
        DiscretePDFNearestNeighborSearcher,
        EffectiveAreaEstimator,
        EnergyDispersionEstimator,
        MomentMorphNearestSimplexExtrapolator,
        ParametrizedNearestSimplexExtrapolator,
        PSFTableEstimator,
        RadMaxEstimator,
    )

    ops = operations()
    grid = np.array([0.0, 1.0, 2.5, 3.0])
    ops.update({
        "aeff estimator": lambda p: EffectiveAreaEstimator(grid, p.aeff, extrapolator_cls=ParametrizedNearestSimplexExtrapolator)(np.array([1.2])),
        "aeff estimator outside": lambda p: EffectiveAreaEstimator(grid, p.aeff, extrapolator_cls=ParametrizedNearestSimplexExtrapolator, min_effective_area=p.area)(np.array([3.3])),
        "psf estimator": lambda p: PSFTableEstimator(grid, p.theta, p.psf)(np.array([2.0])),
        "psf nearest": lambda p: PSFTableEstimator(grid, p.theta, p.psf, interpolator_cls=DiscretePDFNearestNeighborSearcher, extrapolator_cls=DiscretePDFNearestNeighborSearcher)(np.array([3.2])),
        "edisp outside": lambda p: EnergyDispersionEstimator(grid, p.migra, p.edisp, axis=1, extrapolator_cls=MomentMorphNearestSimplexExtrapolator)(np.array([3.2])),
        "edisp estimator": lambda p: EnergyDispersionEstimator(grid, p.migra, p.edisp, axis=1)(np.array([2.0])),
        "rad max estimator": lambda p: RadMaxEstimator(grid, p.rad.to_value("deg"), fill_value=0.3)(np.array([2.0])),
        "background options": lambda p: __import__("pyirf.sensitivity", fromlist=["x"]).estimate_background(p.bg, p.energy, p.cut, 0.3, p.ring[0], p.ring[1]),
        "optimize options": lambda p: __import__("pyirf.cut_optimization", fromlist=["x"]).optimize_cuts(
            p.ev, p.bg, p.energy, p.mults[:1], p.effs[:1], p.theffs, p.ring[0], p.ring[1], 0.3, p.thetalim[0], p.thetalim[1], progress=False),
        "percentile options": lambda p: __import__("pyirf.cuts", fromlist=["x"]).calculate_percentile_cut(
            p.ev["theta"], p.ev["reco_energy"], p.energy, p.thetalim[1], 68, p.thetalim[0], 0.85 * p.thetalim[1], None, 12),
        "percentile smoothed": lambda p: __import__("pyirf.cuts", fromlist=["x"]).calculate_percentile_cut(
            p.ev["theta"], p.ev["reco_energy"], p.energy, p.thetalim[1], 68, p.thetalim[0], p.thetalim[1], 1.0, 12),
        "from_simulation options": lambda p: __import__("pyirf.spectral", fromlist=["x"]).PowerLaw.from_simulation(p.sim, p.time, e_ref=p.energy[2])(p.energy),
        "integrate_cone options": lambda p: [s.integrate_cone(p.ring[0], p.ring[1])(p.energy) for s in (p.dif, p.gaus)],
        "background_2d time": lambda p: __import__("pyirf.irf", fromlist=["x"]).background_2d(p.bg, p.energy, p.offset, p.time),
        "background_3d time": lambda p: __import__("pyirf.irf", fromlist=["x"]).background_3d_lonlat(p.bg, p.energy, p.lon, p.lat, p.time),
        "effective_area": lambda p: __import__("pyirf.irf", fromlist=["x"]).effective_area(p.counts, 10 * p.counts + 7, p.area),
        "theta options": lambda p: __import__("pyirf.utils", fromlist=["x"]).calculate_theta(p.ev, p.lon_q[1], p.lat_q[1]),
        "per decade mixed": lambda p: __import__("pyirf.binning", fromlist=["x"]).create_bins_per_decade(p.emin, p.emax, 4),
        "migration mixed": lambda p: __import__("pyirf.irf.energy_dispersion", fromlist=["x"]).energy_migration_matrix(p.ev, p.energy, p.reco, p.offset),
        "to migration mixed": lambda p: __import__("pyirf.irf.energy_dispersion", fromlist=["x"]).energy_dispersion_to_migration(p.edisp, p.energy, p.migra, p.reco, p.energy[1:]),
        "join mixed": lambda p: __import__("pyirf.binning", fromlist=["x"]).join_bin_lo_hi(p.reco[:-1], p.reco2[1:]),
        "background mixed": lambda p: __import__("pyirf.sensitivity", fromlist=["x"]).estimate_background(p.bg, p.reco, p.cut, 0.3, p.inner, p.outer),
        "optimize_gh_cut mixed": lambda p: __import__("pyirf.cut_optimization", fromlist=["x"]).optimize_gh_cut(p.ev, p.bg, p.reco, p.effs[:2], p.cut, fov_offset_min=p.inner, fov_offset_max=p.outer, progress=False),
        "cone mixed": lambda p: [s.integrate_cone(p.inner, p.outer)(p.emin) for s in (p.dif, p.gaus)],
        "rectangle mixed": lambda p: __import__("pyirf.utils", fromlist=["x"]).rectangle_solid_angle(p.inner, p.outer, p.lat[2], p.angle[1]),
        "resample mixed": lambda p: __import__("pyirf.binning", fromlist=["x"]).resample_histogram1d(p.bkg2, p.energy, p.reco2, axis=0),
        "resample plain": lambda p: __import__("pyirf.binning", fromlist=["x"]).resample_histogram1d(p.grid, p.theta, p.theta2, axis=2),
        "gadf mixed": lambda p: __import__("pyirf.coordinates", fromlist=["x"]).gadf_fov_coords_lon_lat(p.lon_q, p.lat_q, p.angle[2], p.lat_q[1]),
        "weights mixed": lambda p: __import__("pyirf.spectral", fromlist=["x"]).calculate_event_weights(p.emax, p.tab, p.pl),
        "from_simulation mixed": lambda p: __import__("pyirf.spectral", fromlist=["x"]).PowerLaw.from_simulation(p.sim, p.time, p.emin).normalization,
        "percentile mixed": lambda p: __import__("pyirf.cuts", fromlist=["x"]).calculate_percentile_cut(p.ev["theta"], p.ev["reco_energy"], p.energy, p.fill, 68, p.inner, None, None, 12),
        "histogram plain": lambda p: __import__("pyirf.binning", fromlist=["x"]).create_histogram_table(p.plain, p.energy),
        "histogram true plain": lambda p: __import__("pyirf.binning", fromlist=["x"]).create_histogram_table(p.plain, p.energy, key="true_energy"),
        "aeff plain": lambda p: __import__("pyirf.irf", fromlist=["x"]).effective_area_per_energy(p.plain, p.sim, p.energy),
        "per decade options": lambda p: __import__("pyirf.binning", fromlist=["x"]).create_bins_per_decade(p.energy[1], p.energy[3], 4),
    })
    del ops["repr"]  # shows the units
    ops["gammapy"] = lambda p: gammapy_maps(p)
    return ops


def gammapy_maps(p):
    from pyirf import gammapy

    return [x.quantity for x in (gammapy.create_effective_area_table_2d(p.aeff, p.energy, p.offset), gammapy.create_psf_3d(p.psf, p.energy, p.theta, p.offset),
                                 gammapy.create_energy_dispersion_2d(p.edisp, p.energy, p.migra, p.offset))]


def pool():
    from checks.h01 import Pool

    p = Pool()
    p.area = 5000.0 * u.m**2
    p.ring = [0.25, 2.125] * u.deg
    p.thetalim = [0.0625, 0.34375] * u.deg
    p.emin, p.emax, p.fill = 0.07 * u.TeV, 33 * u.TeV, 0.29 * u.deg
    p.inner, p.outer = 0.125 * u.deg, 2.25 * u.deg
    p.reco = [0.04, 0.3, 1.5, 4.0, 30.0] * u.TeV
    p.reco2 = [0.04, 0.3, 1.5, 4.0, 30.0] * u.TeV
    p.theta2 = [0.0, 0.15, 0.2, 0.6] * u.deg
    p.time = 3.5 * u.hour
    p.plain = p.ev["true_energy", "reco_energy", "theta", "gh_score"].copy()
    # no event exactly on an edge, no percentile exactly at an event: conversions may round
    for t in (p.ev, p.bg, p.plain):
        t["true_energy"] *= 1.0013
        t["reco_energy"] *= 1.0029
    p.effs, p.theffs = np.array([0.513, 0.7471, 0.9013]), [0.6131, 0.8117]
    return p


# ------------------------------------------------------------------ quantities of the pool
ENERGY, ANGLE = ("GeV", "erg"), ("rad", "arcmin")
OBJECTS = {
    **{a: ENERGY for a in ("energy", "emin", "emax", "reco", "reco2")},
    **{a: ANGLE for a in ("offset", "angle", "lon", "lat", "theta", "rad", "lon_q", "lat_q", "ring", "thetalim", "inner", "outer", "fill", "theta2")},
    "aeff": ("km2", "cm2"), "area": ("km2", "cm2"), "psf": ("1/deg2", "1/arcsec2"), "time": ("s", "yr"),
    "bkg2": ("1/(TeV s sr)", "1/(GeV h deg2)"), "bkg3": ("1/(TeV s sr)", "1/(GeV h deg2)"),
    **{(t, c): ENERGY for t in ("ev", "bg") for c in ("true_energy", "reco_energy")},
    **{(t, c): ANGLE for t in ("ev", "bg") for c in ("theta", "true_source_fov_offset", "reco_source_fov_offset")},
    **{("ev", c): ANGLE for c in ("true_source_fov_position_angle", "true_source_fov_lon", "true_source_fov_lat", "true_az", "true_alt", "reco_az", "reco_alt", "pointing_az", "pointing_alt")},
    **{("bg", c): ANGLE for c in ("reco_source_fov_lon", "reco_source_fov_lat")},
    ("cut", "low"): ENERGY, ("cut", "high"): ENERGY, ("cut", "center"): ENERGY, ("cut", "cut"): ANGLE,
    ("ghcut", "low"): ENERGY, ("ghcut", "high"): ENERGY,
    "histograms": ENERGY,  # compared for exact equality, so only converted together
    **{(s, a): ENERGY for s in ("sim", "point") for a in ("energy_min", "energy_max")},
    **{(s, "max_impact"): ("km", "cm") for s in ("sim", "point")},
    **{("sim", a): ANGLE for a in ("viewcone_min", "viewcone_max")},
    **{(s, "normalization"): ("1/(GeV s cm2)", "1/(erg h m2)") for s in ("pl", "lp")},
    **{(s, "normalization"): ("1/(GeV s cm2 deg2)", "1/(erg h m2 sr)") for s in ("dif", "gaus")},
    **{(s, "e_ref"): ENERGY for s in ("pl", "lp", "dif", "gaus")},
}


def get(p, key):
    if key == "histograms":
        return p.hs["reco_energy_low"]
    if isinstance(key, str):
        return getattr(p, key)
    o = getattr(p, key[0])
    return o[key[1]] if isinstance(o, Table) else getattr(o, key[1])


def put(p, key, value):
    """value: function applied to the quantity."""
    if key == "histograms":
        for t in (p.hs, p.hb):
            for c in ("low", "center", "high"):
                t["reco_energy_" + c] = value(t["reco_energy_" + c])
    elif isinstance(key, str):
        setattr(p, key, value(getattr(p, key)))
    else:
        o = getattr(p, key[0])
        if isinstance(o, Table):
            o[key[1]] = value(o[key[1]])
        else:
            setattr(o, key[1], value(getattr(o, key[1])))


# ------------------------------------------------------------------ physical comparison
def leaf(o):
    return getattr(o, "unit", None)


def agree(a, b, what="result", rtol=1e-9):
    """Same structure and the same physical values, whatever the units."""
    if isinstance(a, fits.BinTableHDU):
        need(isinstance(b, fits.BinTableHDU), f"{what}: {type(b).__name__}")
        ca, cb = [(c.name, c.unit, c.format) for c in a.columns], [(c.name, c.unit, c.format) for c in b.columns]
        need(ca == cb, lambda: f"{what}: columns {cb}, expected {ca}")
        for c in a.data.dtype.names:
            agree(np.array(a.data[c]), np.array(b.data[c]), f"{what}.{c}", rtol)
        return
    if isinstance(a, Table):
        need(isinstance(b, Table) and a.colnames == b.colnames, lambda: f"{what}: columns {getattr(b, 'colnames', b)}, expected {a.colnames}")
        for c in a.colnames:
            agree(a[c], b[c], f"{what}.{c}", rtol)
        return
    if isinstance(a, (list, tuple)):
        need(isinstance(b, (list, tuple)) and len(a) == len(b), lambda: f"{what}: {b!r}")
        for i, (x, y) in enumerate(zip(a, b)):
            agree(x, y, f"{what}[{i}]", rtol)
        return
    if a is None or isinstance(a, (str, bool, np.bool_)):
        need(type(a) is type(b) and a == b, lambda: f"{what}: {b!r}, expected {a!r}")
        return
    ua, ub = u.Unit(leaf(a) or ""), u.Unit(leaf(b) or "")
    if not ua.is_equivalent(ub):
        fail(f"{what}: unit {ub}, expected {ua}")
    x = np.asarray(u.Quantity(a).value if leaf(a) is not None else a)
    y = np.asarray(u.Quantity(b).to_value(ua) if leaf(b) is not None else b * ub.to(ua) if ua != ub else b)
    need(x.shape == y.shape, lambda: f"{what}: shape {y.shape}, expected {x.shape}")
    if x.dtype.kind not in "fiu":
        need(np.array_equal(x, y), lambda: f"{what}: {y!r}, expected {x!r}")
        return
    x, y = x.astype(float), y.astype(float)
    with np.errstate(all="ignore"):
        scale = np.max(np.abs(x[np.isfinite(x)]), initial=0.0)
        ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= rtol * np.maximum(np.abs(x), 1e-4 * scale))
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~ok)[0])
        fail(f"{what}{list(i)}: {y[i]!r}, expected {x[i]!r} ({int((~ok).sum())} of {ok.size} differ)")


def agrees(a, b, rtol=1e-9):
    try:
        agree(a, b, rtol=rtol)
    except Mismatch:
        return False
    return True


def used(f):
    """Names of the objects of the pool that an operation takes."""
    names = set()

    class Watch:
        def __init__(self, p):
            self.__dict__["p"] = p

        def __getattr__(self, name):
            names.add(name)
            return getattr(self.__dict__["p"], name)

    f(Watch(pool()))
    return sorted(names)


def quantities(f):
    """Quantities of the objects that an operation takes."""
    names = set(used(f))
    return [k for k in OBJECTS if (k in names if isinstance(k, str) and k != "histograms" else "hs" in names if k == "histograms" else k[0] in names)]
