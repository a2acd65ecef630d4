import itertools
import operator

import astropy.units as u
import numpy as np
from astropy.table import QTable, Table

from checks.h01 import events, histogram
from mc.catalog import agree, pool
from mc.util import need

SPACE = """{n} operations with results in bins (histograms, bin indices, percentile cuts, cut optimisation, sensitivity, background estimates, expected showers, all IRFs, benchmarks, conversion to migration matrices, resampling, estimators of all IRF
components with several inter- and extrapolation methods, spectra, weights, significances and functions of single events), evaluated for 200 signal and 230 background events in up to 6 x 5 x 4 bins: for every axis all contiguous ranges of bins,
for all pairs of axes all pairs of ranges of 1, 2 and all but one bins (thorough: all ranges of all axes), all single events (rows) and all ranges of rows of a list of lengths. The result must be the corresponding part of the complete result. For the sums over events and
showers, the contents of all merged ranges must be the sum of the contents of the merged bins."""
ASSUMPTIONS = ["relative deviations up to 1e-9 are rounding", "no event lies exactly on an edge (the upper edge of the last bin belongs to the bin for some histograms)", "smoothed cuts and normalised axes (migration, source offset) are not divided"]


def inputs():
    p = pool()
    p.ev, p.bg = events(200), events(230)[::-1]
    for t in (p.ev, p.bg):
        t["true_energy"] *= 1.0013
        t["reco_energy"] *= 1.0029
    p.energy = [0.035, 0.07, 0.2, 0.6, 1.9, 6.0, 25.0] * u.TeV
    p.reco = [0.03, 0.09, 0.4, 1.1, 5.0, 26.0] * u.TeV
    p.offset = [0.0, 0.55, 0.9, 1.43, 2.0, 3.0] * u.deg
    p.angle = [0.0, 90.0, 200.0, 290.0, 360.0] * u.deg
    p.lon = [-2.0, -1.0, 0.1, 0.5, 2.0] * u.deg
    p.lat = [-2.0, -0.6, 0.02, 1.0, 2.0] * u.deg
    p.hs, p.hb = histogram(p.ev, p.energy), histogram(p.bg, p.energy)
    c = 0.5 * (p.energy[1:] + p.energy[:-1])
    p.tcut = QTable({"low": p.energy[:-1], "high": p.energy[1:], "center": c, "cut": [0.1, 0.2, 0.3, 0.25, 0.12, 0.2] * u.deg})
    p.coarse = {}
    for n in (2, 3, 4, 5):
        e = np.geomspace(0.02, 30, n + 1) * u.TeV
        p.coarse[n] = QTable({"low": e[:-1], "high": e[1:], "center": 0.5 * (e[1:] + e[:-1]), "cut": [0.1, 0.35, 0.2, 0.3, 0.12][:n] * u.deg})
    k = lambda *s: np.indices(s)  # noqa: E731
    i, j, m = k(6, 5, 4)
    p.taeff = np.stack([1e4 * (1 + (i + 2 * j + m + t) % 5 + 0.3 * t) for t in range(4)]) * u.m**2
    p.trad = np.stack([np.where((i + j + t) % 7 == 0, 0.32, 0.05 * (1 + (i + 2 * j + t) % 4) + 0.01 * m) for t in range(4)])
    x = np.arange(8)
    shape = lambda t, a, b: np.exp(-0.5 * ((x - 2.5 - 0.4 * t - 0.3 * (a % 3) - 0.2 * b) / (0.8 + 0.1 * ((a + t) % 4))) ** 2)  # noqa: E731
    p.migra = np.linspace(0.2, 1.8, 9)
    d = np.array([[[shape(t, a, b) for b in range(4)] for a in range(5)] for t in range(4)])
    d[:, 1, 2] = 0
    p.tedisp = np.moveaxis(d / np.where(d.sum(-1) == 0, 1, d.sum(-1))[..., None] / 0.2, -1, 2)
    p.theta9 = np.linspace(0, 0.8, 9) * u.deg
    omega = np.diff(2 * np.pi * (1 - np.cos(p.theta9.to_value("rad"))))
    p.tpsf = d / np.where(d.sum(-1) == 0, 1, d.sum(-1))[..., None] / omega / u.sr
    p.x = np.array([0.003, 0.4, 1.0, 3.0, 40.0, 700.0, 11.0]) * u.TeV
    p.non, p.noff = np.array([0.0, 3.0, 10.0, 40.0, 1e4, 7.0, 1.0]), np.array([5.0, 12.0, 30.0, 4.0, 2e4, 0.0, 0.0])
    p.cube = np.random.RandomState(1).permutation(6 * 5 * 4).reshape(6, 5, 4) * 1.0
    return p


E = [("energy", 0, "edges")]
OFF, ANG, LON, LAT = [("offset", 0, "edges")], [("angle", 0, "edges")], [("lon", 0, "edges")], [("lat", 0, "edges")]
ROWS = {0: [("ev", 0, "rows")]}


def operations():
    """name -> (function of the inputs, {axis of the result: its inputs}, additive)"""
    import pyirf.interpolation as pi
    from pyirf import benchmarks as bm
    from pyirf import binning as b
    from pyirf import coordinates, cuts, irf, sensitivity, spectral, statistics, utils
    from pyirf import cut_optimization as co
    from pyirf.irf.energy_dispersion import energy_dispersion_to_migration, energy_migration_matrix

    ops = {
        "histogram": (lambda p: b.create_histogram_table(p.ev, p.energy), {0: E}, True),
        "histogram true": (lambda p: b.create_histogram_table(p.bg, p.energy, key="true_energy"), {0: E}, True),
        "percentile": (lambda p: cuts.calculate_percentile_cut(p.ev["theta"], p.ev["reco_energy"], p.energy, 0.3 * u.deg, 68, 0.05 * u.deg, 0.31 * u.deg, None, 12), {0: E}, False),
        "percentile list": (lambda p: cuts.calculate_percentile_cut(p.ev["gh_score"], p.ev["reco_energy"], p.energy, 0.5, [20, 50, 70.5], min_events=30), {0: E}, False),
        "optimize_gh_cut": (lambda p: co.optimize_gh_cut(p.ev, p.bg, p.energy, p.effs, p.tcut, progress=False, fov_offset_max=3 * u.deg), {0: E}, False),
        "optimize_cuts": (lambda p: co.optimize_cuts(p.ev, p.bg, p.energy, p.mults[:1], p.effs[:2], p.theffs, progress=False, fov_offset_max=3 * u.deg), {0: E}, False),
        "sensitivity": (lambda p: sensitivity.calculate_sensitivity(p.hs, p.hb, 0.2), {0: [("hs", 0, "rows"), ("hb", 0, "rows")]}, False),
        "relative_sensitivity": (lambda p: sensitivity.relative_sensitivity(p.non, p.noff, 0.5), {0: [("non", 0, "rows"), ("noff", 0, "rows")]}, False),
        "li_ma": (lambda p: statistics.li_ma_significance(p.non, p.noff, 0.3), {0: [("non", 0, "rows"), ("noff", 0, "rows")]}, False),
        "estimate_background": (lambda p: sensitivity.estimate_background(p.bg, p.energy, p.tcut, 0.2, 0.1 * u.deg, 2 * u.deg), {0: E}, False),
        "showers energy": (lambda p: p.sim.calculate_n_showers_per_energy(p.energy), {0: E}, True),
        "showers fov": (lambda p: p.sim.calculate_n_showers_per_fov(p.offset), {0: OFF}, True),
        "showers energy fov": (lambda p: p.sim.calculate_n_showers_per_energy_and_fov(p.energy, p.offset), {0: E, 1: OFF}, True),
        "showers polar": (lambda p: p.sim.calculate_n_showers_3d_polar(p.energy, p.offset, p.angle), {0: E, 1: OFF, 2: ANG}, True),
        "showers lonlat": (lambda p: p.sim.calculate_n_showers_3d_lonlat(p.energy, p.lon, p.lat, subpixels=7), {0: E, 1: LON, 2: LAT}, False),
        "aeff": (lambda p: irf.effective_area_per_energy(p.ev, p.point, p.energy), {0: E}, False),
        "aeff fov": (lambda p: irf.effective_area_per_energy_and_fov(p.ev, p.sim, p.energy, p.offset), {0: E, 1: OFF}, False),
        "aeff polar": (lambda p: irf.effective_area_3d_polar(p.ev, p.sim, p.energy, p.offset, p.angle), {0: E, 1: OFF, 2: ANG}, False),
        "aeff lonlat": (lambda p: irf.effective_area_3d_lonlat(p.ev, p.sim, p.energy, p.lon, p.lat, subpixels=5), {0: E, 1: LON, 2: LAT}, False),
        "edisp": (lambda p: irf.energy_dispersion(p.ev, p.energy, p.offset, p.migra), {0: E, 2: OFF}, False),
        "migration": (lambda p: energy_migration_matrix(p.ev, p.energy, p.reco, p.offset), {0: E, 2: OFF}, False),
        "to migration": (lambda p: energy_dispersion_to_migration(p.tedisp[0], p.reco, p.migra, p.reco[1:-1], p.energy), {2: [("tedisp", 3, "rows")], 1: E}, False),
        "to migration true": (lambda p: energy_dispersion_to_migration(p.tedisp[0], [0.01, 0.1, 1, 10, 50, 100] * u.TeV, p.migra, p.energy, p.reco), {0: E, 1: [("reco", 0, "edges")], 2: [("tedisp", 3, "rows")]}, False),
        "psf": (lambda p: irf.psf_table(p.ev, p.energy, p.theta9, p.offset), {0: E, 1: OFF}, False),
        "background_2d": (lambda p: irf.background_2d(p.bg, p.energy, p.offset, 50 * u.hour), {0: E, 1: OFF}, False),
        "background_3d": (lambda p: irf.background_3d_lonlat(p.bg, p.energy, p.lon, p.lat, 50 * u.hour), {0: E, 1: LON, 2: LAT}, False),
        "angular_resolution": (lambda p: bm.angular_resolution(p.ev, p.energy), {0: E}, False),
        "angular_resolution list": (lambda p: bm.angular_resolution(p.ev, p.energy, energy_type="reco", quantile=[0.5, 0.8]), {0: E}, False),
        "bias": (lambda p: bm.energy_bias_resolution(p.ev, p.energy), {0: E}, False),
        "bias reco": (lambda p: bm.energy_bias_resolution(p.ev, p.energy, energy_type="reco"), {0: E}, False),
        "bias edisp": (lambda p: bm.energy_bias_resolution_from_energy_dispersion(p.tedisp[1], p.migra), {0: [("tedisp", 1, "rows")], 1: [("tedisp", 3, "rows")]}, False),
        "resample": (lambda p: b.resample_histogram1d(p.cube, np.arange(6.0), np.array([0.0, 0.5, 2.0, 4.0, 7.0]), axis=1), {0: [("cube", 0, "rows")], 2: [("cube", 2, "rows")]}, False),
        "resample edges": (lambda p: b.resample_histogram1d(p.cube, np.arange(7.0) * u.TeV, p.energy, axis=0), {0: E, 1: [("cube", 1, "rows")], 2: [("cube", 2, "rows")]}, False),
        "bin indices": (lambda p: b.calculate_bin_indices(p.ev["reco_energy"], p.energy), ROWS, False),
        "evaluate cut": (lambda p: cuts.evaluate_binned_cut(p.ev["theta"], p.ev["reco_energy"], p.tcut, operator.le), ROWS, False),
        "weights": (lambda p: spectral.calculate_event_weights(p.ev["true_energy"], p.lp, p.pl), ROWS, False),
        "theta": (lambda p: utils.calculate_theta(p.ev, 180 * u.deg, 70 * u.deg), ROWS, False),
        "fov offset": (lambda p: utils.calculate_source_fov_offset(p.ev), ROWS, False),
        "fov angle": (lambda p: utils.calculate_source_fov_position_angle(p.ev, prefix="reco"), ROWS, False),
        "fov lonlat": (lambda p: utils.calculate_source_fov_lonlat(p.ev), ROWS, False),
        "gadf lonlat": (lambda p: coordinates.gadf_fov_coords_lon_lat(p.ev["true_az"], p.ev["true_alt"], 180 * u.deg, 70 * u.deg), ROWS, False),
        "gadf polar": (lambda p: coordinates.gadf_fov_coords_theta_phi(p.ev["true_az"], p.ev["true_alt"], 180 * u.deg, 70 * u.deg), ROWS, False),
        "spectra": (lambda p: [s(p.x) for s in (p.pl, p.lp, p.dif, p.gaus, p.tab, spectral.DAMPE_P_He_SPECTRUM)], {0: [("x", 0, "rows")]}, False),
        "cones": (lambda p: utils.cone_solid_angle(p.offset), {0: [("offset", 0, "rows")]}, False),
    }
    # cuts of other bins, also as many as energy bins
    for n in (2, 3, 4, 5):
        ops[f"estimate_background, {n} cuts"] = (lambda p, n=n: sensitivity.estimate_background(p.bg, p.energy, p.coarse[n], 0.2, 0.1 * u.deg, 2 * u.deg), {0: E}, False)
        ops[f"optimize_gh_cut, {n} cuts"] = (lambda p, n=n: co.optimize_gh_cut(p.ev, p.bg, p.energy, p.effs[:2], p.coarse[n], progress=False, fov_offset_max=3 * u.deg), {0: E}, False)
        ops[f"evaluate cut, {n} cuts"] = (lambda p, n=n: cuts.evaluate_binned_cut(p.ev["theta"], p.ev["reco_energy"], p.coarse[n], operator.le), ROWS, False)
    grid = np.array([[0.0], [1.0], [2.5], [3.0]])
    plane = np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.3, 1.2]])
    G, NS, VE, NN = pi.GridDataInterpolator, pi.ParametrizedNearestSimplexExtrapolator, pi.ParametrizedVisibleEdgesExtrapolator, pi.ParametrizedNearestNeighborSearcher
    MM, Q, MS, DN = pi.MomentMorphInterpolator, pi.QuantileInterpolator, pi.MomentMorphNearestSimplexExtrapolator, pi.DiscretePDFNearestNeighborSearcher
    three = lambda name: {k: [(name, k + 1, "rows")] for k in range(3)}  # noqa: E731
    pdf = lambda name, axes: {k: [(name, k + 1, "rows")] for k in axes}  # noqa: E731
    for g, t, w in ((grid, [1.2], "inside"), (grid, [3.4], "outside"), (plane, [0.6, 0.5], "inside 2D"), (plane, [1.5, 0.3], "outside 2D")):
        t, d2 = np.array([t]), "2D" in w
        for x in ((NS, VE, NN) if w == "outside 2D" else (NS, NN)):
            label = f"{w}, {x.__name__}"
            ops[f"aeff estimator {label}"] = (lambda p, g=g, t=t, x=x: pi.EffectiveAreaEstimator(g, p.taeff, NN if x is NN else G, None, x)(t).reshape(p.taeff.shape[1:]), three("taeff"), False)
            ops[f"rad max estimator {label}"] = (lambda p, g=g, t=t, x=x: pi.RadMaxEstimator(g, p.trad, 0.32, NN if x is NN else G, None, x)(t).reshape(p.trad.shape[1:]), three("trad"), False)
            ops[f"parametrized estimator {label}"] = (lambda p, g=g, t=t, x=x: pi.ParametrizedComponentEstimator(g, p.trad, NN if x is NN else G, None, x)(t).reshape(p.trad.shape[1:]), three("trad"), False)
        for i, x in ((Q, MS), (MM, MS), (DN, DN)):
            label = f"{w}, {(x if 'outside' in w else i).__name__}"
            ops[f"edisp estimator {label}"] = (lambda p, g=g, t=t, x=x, i=i: pi.EnergyDispersionEstimator(g, p.migra, p.tedisp, i, None, x, axis=2)(t).reshape(p.tedisp.shape[1:]), pdf("tedisp", (0, 2)), False)
            ops[f"psf estimator {label}"] = (lambda p, g=g, t=t, x=x, i=i: pi.PSFTableEstimator(g, p.theta9, p.tpsf, i, None, x)(t).reshape(p.tpsf.shape[1:]), pdf("tpsf", (0, 1)), False)
    return ops


OPS = operations()
SPACE = SPACE.replace("{n}", str(len(OPS)))


def jobs(tier):
    deep = tier == "thorough"
    big = lambda n: n.startswith("optimize")  # noqa: E731
    return [dict(op=n, deep=deep, part=p, parts=k) for n in sorted(OPS, key=lambda n: not big(n)) for k in [4 if big(n) else 1] for p in range(k)]


def size(p, spec):
    attr, axis, kind = spec
    o = getattr(p, attr)
    return (len(o) if isinstance(o, Table) else o.shape[axis]) - (kind == "edges")


def restrict(p, spec, i, j):
    attr, axis, kind = spec
    o = getattr(p, attr)
    s = slice(i, j + (kind == "edges"))
    setattr(p, attr, o[s] if isinstance(o, Table) else o[(slice(None),) * axis + (s,)])


def part(res, ranges):
    """The part of a result: {axis: (first, last + 1)}"""
    if isinstance(res, (list, tuple)):
        return [part(r, ranges) for r in res]
    if isinstance(res, Table):
        return res[slice(*ranges[0])]
    return res[tuple(slice(*ranges[k]) if k in ranges else slice(None) for k in range(np.ndim(res)))]


def compare(want, res, what):
    if isinstance(want, (list, tuple)):
        need(len(want) == len(res), f"{what}: {len(res)} results")
        for k, (x, y) in enumerate(zip(want, res)):
            compare(x, y, f"{what}[{k}]")
    elif isinstance(want, Table):
        # particle types without any event in the bins may have no column
        for c in want.colnames:
            if c not in res.colnames:
                need(c.startswith("n_") and not np.any(want[c]), f"{what}: column {c} is missing")
            else:
                agree(want[c], res[c], f"{what}.{c}")
    else:
        agree(want, res, what)


def content(res):
    if isinstance(res, Table):
        return [np.asarray(res[c], float) for c in res.colnames if c.startswith("n")]
    return [np.asarray(res, float)]


def ranges_of(n, some=False):
    if n > 60:  # events
        return [(i, i + 1) for i in range(0, n, 3)] + [(i, min(i + k, n)) for k in (2, 7, 50, n - 1) for i in range(0, n - 1, max(k // 2, 9))]
    rs = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    return [r for r in rs if r[1] - r[0] in (1, 2, n - 1)] if some else rs


def run(job, rec):
    name = job["op"]
    f, axes, additive = OPS[name]
    full = f(inputs())
    sizes = {k: size(inputs(), specs[0]) for k, specs in axes.items()}
    todo = [{k: r} for k, n in sizes.items() for r in ranges_of(n) if r != (0, n)]
    for (k, n), (m, o) in itertools.combinations(sizes.items(), 2):
        todo += [{k: r, m: s} for r in ranges_of(n, not job["deep"]) for s in ranges_of(o, not job["deep"])]
    if len(sizes) > 2:
        todo += [dict(zip(sizes, c)) for c in itertools.product(*[ranges_of(n, not job["deep"])[:: 1 if job["deep"] else 3] for n in sizes.values()])]
    base = inputs()
    for sel in todo[job["part"] :: job["parts"]]:
        with rec.case(name, "bins", sel, steps=len(sel)):
            p = pool_copy(base)
            for k, r in sel.items():
                for spec in axes[k]:
                    restrict(p, spec, *r)
            res = f(p)
            compare(part(full, sel), res, name)
            rec.outcome((name, sel))
    if additive:
        for k, n in sizes.items():
            for r in ranges_of(n)[job["part"] :: job["parts"]]:
                if r[1] - r[0] < 2:
                    continue
                with rec.case(name, "merged bins", k, r):
                    p = pool_copy(base)
                    attr = axes[k][0][0]
                    setattr(p, attr, getattr(p, attr)[[r[0], r[1]]])
                    one, many = content(f(p)), content(part(full, {k: r}))
                    need(len(one) == len(many), "other columns")
                    for x, y in zip(one, many):
                        agree(y.sum(axis=k, keepdims=True), x, f"{name} merged")
                    rec.outcome((name, "merged", k, r))


def pool_copy(p):
    import copy

    return copy.copy(p)
