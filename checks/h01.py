import itertools
import multiprocessing
import operator

import astropy.units as u
import numpy as np
from astropy.io import fits
from astropy.table import QTable

from mc.util import fail, need, same, scramble, snap

SPACE = """all ordered sequences of two (thorough: three) different calls, followed by a repetition of the first, over an alphabet of {n} public operations (binning, cuts, optimisation, sensitivity, statistics, simulations,
spectra, IRFs, benchmarks, geometry, table checks, GADF and gammapy converters) that all act on one shared pool of input objects; every result is overwritten by the caller before the next call, and in half of the sequences
the caller changes the contents of all pool objects in place between the calls (and back again). Each result is compared with the one the operation gives as the very first call of a fresh process, and the pool with its model state."""
ASSUMPTIONS = ["objects constructed from arrays (spectra, simulation infos) may keep references to these arrays"]


def events(n=48):
    i = np.arange(n)
    t = QTable()
    t["true_energy"] = 10 ** (-1.4 + 2.8 * ((i * 7) % n) / n) * u.TeV
    t["reco_energy"] = t["true_energy"] * (0.7 + 0.03 * (i % 23))
    t["theta"] = (0.01 + 0.013 * (i * 5 % 37)) * u.deg
    t["gh_score"] = ((i * 11) % n) / n
    t["weight"] = 0.5 + (i % 5)
    t["multiplicity"] = 2 + i % 4
    t["particle_type"] = np.array(["gamma", "proton", "electron"])[i % 3]
    t["true_source_fov_offset"] = (0.05 + 0.09 * (i * 13 % 31)) * u.deg
    t["reco_source_fov_offset"] = (0.04 + 0.08 * (i * 17 % 29)) * u.deg
    t["true_source_fov_position_angle"] = (7.3 * i % 360) * u.deg
    for p in ("true", "reco"):
        t[f"{p}_source_fov_lon"] = (-1.9 + 0.17 * (i * 3 % 23)) * u.deg
        t[f"{p}_source_fov_lat"] = (-1.7 + 0.19 * (i * 5 % 19)) * u.deg
        t[f"{p}_az"] = (179 + 0.07 * (i % 29)) * u.deg
        t[f"{p}_alt"] = (69 + 0.06 * (i % 31)) * u.deg
    t["pointing_az"] = np.full(n, 180.0) * u.deg
    t["pointing_alt"] = np.full(n, 70.0) * u.deg
    return t


def histogram(ev, edges):
    v = ev["reco_energy"].to_value("TeV")
    e = edges.to_value("TeV")
    return QTable({"reco_energy_low": edges[:-1].copy(), "reco_energy_high": edges[1:].copy(), "reco_energy_center": 0.5 * (edges[:-1] + edges[1:]),
                   "n": np.histogram(v, e)[0] * 1.0, "n_weighted": np.histogram(v, e, weights=ev["weight"])[0]})


class Pool:
    def __init__(self):
        from pyirf.simulations import SimulatedEventsInfo
        from pyirf.spectral import LogParabola, PowerLaw, PowerLawWithExponentialGaussian, TableInterpolationSpectrum

        self.ev = events()
        self.bg = events(60)[::-1]
        self.energy = [0.05, 0.2, 1.0, 5.0, 20.0] * u.TeV
        self.ebin = np.array([0.05, 0.2, 1.0, 5.0, 20.0])
        self.offset = [0.0, 0.75, 1.5, 3.0] * u.deg
        self.angle = [0.0, 90.0, 200.0, 360.0] * u.deg
        self.lon = [-2.0, -1.0, 0.5, 2.0] * u.deg
        self.lat = [-2.0, 0.0, 0.5, 1.0, 2.0] * u.deg
        self.theta = [0.0, 0.1, 0.2, 0.3, 0.6] * u.deg
        self.migra = np.array([0.2, 0.6, 0.9, 1.0, 1.2, 2.0])
        self.counts = np.array([0.0, 3.0, 10.0, 40.0])
        self.off = np.array([5.0, 12.0, 30.0, 4.0])
        self.grid = np.linspace(1.0, 2.0, 24).reshape(2, 3, 4)
        self.cut = QTable({"low": self.energy[:-1].copy(), "high": self.energy[1:].copy(), "center": 0.5 * (self.energy[:-1] + self.energy[1:]), "cut": [0.1, 0.2, 0.3, 0.25] * u.deg})
        self.ghcut = QTable({"low": self.energy[:-1].copy(), "high": self.energy[1:].copy(), "center": 0.5 * (self.energy[:-1] + self.energy[1:]), "cut": [0.2, 0.4, 0.3, 0.6]})
        self.index = np.arange(len(self.ev)) % 4
        self.valid = np.arange(len(self.ev)) % 3 > 0
        self.index[~self.valid] = np.where(np.arange(len(self.ev)) % 2, np.iinfo(self.index.dtype).min, np.iinfo(self.index.dtype).max)[~self.valid]
        self.sim = SimulatedEventsInfo(n_showers=100000, energy_min=0.04 * u.TeV, energy_max=30 * u.TeV, max_impact=500 * u.m, spectral_index=-2.0, viewcone_min=0 * u.deg, viewcone_max=3 * u.deg)
        self.point = SimulatedEventsInfo(n_showers=100000, energy_min=0.04 * u.TeV, energy_max=30 * u.TeV, max_impact=500 * u.m, spectral_index=-2.0, viewcone_min=0 * u.deg, viewcone_max=0 * u.deg)
        p, d = 1 / (u.TeV * u.s * u.m**2), 1 / (u.TeV * u.s * u.m**2 * u.sr)
        self.pl = PowerLaw(1e-7 * p, -2.6)
        self.dif = PowerLaw(1e-5 * d, -2.7)
        self.lp = LogParabola(1e-7 * p, -2.5, -0.1)
        self.gaus = PowerLawWithExponentialGaussian(1e-5 * d, -3, 1 * u.TeV, f=0.9, mu=0.3, sigma=0.5)
        self.tab = TableInterpolationSpectrum([0.01, 1, 100] * u.TeV, [1e-4, 1e-7, 1e-11] * p)
        self.aeff = np.linspace(1.0, 2.0, 12).reshape(4, 3) * 1e4 * u.m**2
        self.edisp = np.linspace(0.1, 1.0, 60).reshape(4, 5, 3)
        self.psf = np.linspace(1.0, 2.0, 48).reshape(4, 3, 4) / u.sr
        self.bkg2 = np.linspace(1.0, 2.0, 12).reshape(4, 3) / (u.MeV * u.s * u.sr)
        self.bkg3 = np.linspace(1.0, 2.0, 48).reshape(4, 3, 4) / (u.MeV * u.s * u.sr)
        self.rad = np.linspace(0.1, 0.3, 12).reshape(4, 3) * u.deg
        self.effs = np.array([0.5, 0.75, 0.9])
        self.theffs = [0.6, 0.8]
        self.mults = np.array([2, 3])
        self.cards = dict(TELESCOP="CTA", N_X=3)
        self.colnames = ["reco_energy", "theta"]
        self.colunits = {"reco_energy": u.GeV, "theta": u.rad}
        self.hs = histogram(self.ev, self.energy)
        self.hb = histogram(self.bg, self.energy)
        self.lon_q = [179.5, 181.0, 182.0] * u.deg
        self.lat_q = [69.0, 70.0, 71.5] * u.deg

    def objects(self):
        return {k: v for k, v in vars(self).items() if k != "version"}

    def snapshot(self):
        return snap(self.objects())

    def shift(self, sign):
        """The caller changes the contents of arrays and tables in place (exactly invertible)."""
        f = 2.0**sign
        for t in (self.ev, self.bg):
            for c in ("weight",):
                t[c][...] *= f
            for c in ("true_energy", "reco_energy", "theta", "reco_source_fov_offset", "true_source_fov_offset"):
                t[c].value[...] *= f
            n = len(t) // 2
            for c in ("gh_score", "multiplicity", "particle_type"):
                t[c][...] = np.roll(np.asarray(t[c]), n if sign > 0 else -n)
        for a in (self.counts, self.off, self.grid, self.edisp, self.ebin, self.migra):
            a *= f
        for q in (self.energy, self.aeff, self.psf, self.bkg2, self.bkg3, self.rad, self.theta, self.offset, self.lon, self.lat):
            q.value[...] *= f
        for t in (self.cut, self.ghcut, self.hs, self.hb):
            for c in t.colnames:
                if c.endswith(("low", "high", "center")):
                    t[c].value[...] *= f
        self.cut["cut"].value[...] *= f
        for t in (self.hs, self.hb):
            for c in t.colnames:
                if c.startswith("n"):
                    t[c][...] = t[c] * f
        self.effs[...] = self.effs[::-1].copy()
        self.cards["N_X"] = 4 if sign > 0 else 3
        self.theffs.reverse()


def operations():
    from pyirf import benchmarks as bm
    from pyirf import binning as b
    from pyirf import coordinates, cut_optimization, cuts, gammapy, irf, sensitivity, spectral, statistics, utils
    from pyirf.io import gadf
    from pyirf.irf.energy_dispersion import energy_dispersion_to_migration, energy_migration_matrix

    ops = {
        "calculate_bin_indices": lambda p: b.calculate_bin_indices(p.ev["reco_energy"], p.energy),
        "histogram": lambda p: b.create_histogram_table(p.ev, p.energy),
        "histogram true": lambda p: b.create_histogram_table(p.bg, p.energy, key="true_energy"),
        "resample": lambda p: b.resample_histogram1d(p.grid, np.arange(5.0), np.array([0.0, 0.5, 2.0, 4.0]), axis=2),
        "resample same": lambda p: b.resample_histogram1d(p.grid, np.arange(4.0), np.arange(4.0), axis=1),
        "bin_center": lambda p: b.bin_center(p.energy),
        "split": lambda p: b.split_bin_lo_hi(p.energy),
        "join": lambda p: b.join_bin_lo_hi(p.energy[:-1], p.energy[1:]),
        "overflow": lambda p: b.add_overflow_bins(p.energy),
        "per decade": lambda p: b.create_bins_per_decade(p.energy[0], p.energy[-1], 3),
        "percentile": lambda p: cuts.calculate_percentile_cut(p.ev["theta"], p.ev["reco_energy"], p.energy, min_value=0.05 * u.deg, fill_value=0.3 * u.deg, percentile=68, min_events=3),
        "percentile list": lambda p: cuts.calculate_percentile_cut(p.ev["gh_score"], p.ev["reco_energy"], p.energy, fill_value=0.5, percentile=[20, 50], smoothing=1, min_events=2),
        "evaluate cut": lambda p: cuts.evaluate_binned_cut(p.ev["theta"], p.ev["reco_energy"], p.cut, operator.le),
        "evaluate gh cut": lambda p: cuts.evaluate_binned_cut(p.bg["gh_score"], p.bg["reco_energy"], p.ghcut, operator.ge),
        "evaluate by index": lambda p: cuts.evaluate_binned_cut_by_index(p.ev["theta"], p.index, p.valid, p.cut, operator.le),
        "compare cuts": lambda p: cuts.compare_irf_cuts([p.cut, p.cut.copy(), p.ghcut]),
        "optimize_gh_cut": lambda p: cut_optimization.optimize_gh_cut(p.ev, p.bg, p.energy, p.effs, p.cut, progress=False, fov_offset_max=3 * u.deg),
        "optimize_cuts": lambda p: cut_optimization.optimize_cuts(p.ev, p.bg, p.energy, p.mults[:1], p.effs[:1], p.theffs, progress=False, fov_offset_max=3 * u.deg),
        "li_ma": lambda p: statistics.li_ma_significance(p.counts, p.off, 0.2),
        "li_ma scalar": lambda p: statistics.li_ma_significance(float(p.counts[3]), float(p.off[0])),
        "relative_sensitivity": lambda p: sensitivity.relative_sensitivity(p.counts, p.off, 0.5),
        "sensitivity": lambda p: sensitivity.calculate_sensitivity(p.hs, p.hb, 0.2),
        "background": lambda p: sensitivity.estimate_background(p.bg, p.energy, p.cut, 0.2, 0.1 * u.deg, 2 * u.deg),
        "showers energy": lambda p: p.sim.calculate_n_showers_per_energy(p.energy),
        "showers fov": lambda p: p.sim.calculate_n_showers_per_fov(p.offset),
        "showers energy fov": lambda p: p.sim.calculate_n_showers_per_energy_and_fov(p.energy, p.offset),
        "showers polar": lambda p: p.sim.calculate_n_showers_3d_polar(p.energy, p.offset, p.angle),
        "showers lonlat": lambda p: p.sim.calculate_n_showers_3d_lonlat(p.energy, p.lon, p.lat),
        "repr": lambda p: [repr(x) for x in (p.sim, p.pl, p.lp, p.gaus)],
        "power law": lambda p: p.pl(p.energy),
        "log parabola": lambda p: p.lp(p.energy),
        "gauss": lambda p: p.gaus(p.energy),
        "table spectrum": lambda p: p.tab(p.energy),
        "crab": lambda p: [s(p.energy) for s in (spectral.CRAB_HEGRA, spectral.CRAB_MAGIC_JHEAP2015, spectral.PDG_ALL_PARTICLE, spectral.IRFDOC_PROTON_SPECTRUM, spectral.IRFDOC_ELECTRON_SPECTRUM)],
        "from_simulation": lambda p: spectral.PowerLaw.from_simulation(p.point, 50 * u.hour)(p.energy),
        "from_simulation diffuse": lambda p: spectral.PowerLaw.from_simulation(p.sim, 50 * u.hour)(p.energy),
        "integrate_cone": lambda p: p.dif.integrate_cone(0 * u.deg, 3 * u.deg)(p.energy),
        "integrate_cone gauss": lambda p: p.gaus.integrate_cone(0 * u.deg, 3 * u.deg)(p.energy),
        "weights": lambda p: spectral.calculate_event_weights(p.ev["true_energy"], p.pl, p.lp),
        "aeff": lambda p: irf.effective_area_per_energy(p.ev, p.point, p.energy),
        "aeff fov": lambda p: irf.effective_area_per_energy_and_fov(p.ev, p.sim, p.energy, p.offset),
        "aeff polar": lambda p: irf.effective_area_3d_polar(p.ev, p.sim, p.energy, p.offset, p.angle),
        "aeff lonlat": lambda p: irf.effective_area_3d_lonlat(p.ev, p.sim, p.energy, p.lon, p.lat, subpixels=5),
        "edisp": lambda p: irf.energy_dispersion(p.ev, p.energy, p.offset, p.migra),
        "migration": lambda p: energy_migration_matrix(p.ev, p.energy, p.energy, p.offset),
        "to migration": lambda p: energy_dispersion_to_migration(p.edisp, p.energy, p.migra, p.energy, p.energy),
        "psf": lambda p: irf.psf_table(p.ev, p.energy, p.theta, p.offset),
        "background_2d": lambda p: irf.background_2d(p.bg, p.energy, p.offset, 50 * u.hour),
        "background_3d": lambda p: irf.background_3d_lonlat(p.bg, p.energy, p.lon, p.lat, 50 * u.hour),
        "angular_resolution": lambda p: bm.angular_resolution(p.ev, p.energy),
        "angular_resolution list": lambda p: bm.angular_resolution(p.ev, p.energy, energy_type="reco", quantile=[0.5, 0.8]),
        "bias": lambda p: bm.energy_bias_resolution(p.ev, p.energy),
        "bias reco": lambda p: bm.energy_bias_resolution(p.ev, p.energy, energy_type="reco"),
        "bias edisp": lambda p: bm.energy_bias_resolution_from_energy_dispersion(p.edisp, p.migra),
        "theta": lambda p: utils.calculate_theta(p.ev, 180 * u.deg, 70 * u.deg),
        "fov offset": lambda p: utils.calculate_source_fov_offset(p.ev),
        "fov angle": lambda p: utils.calculate_source_fov_position_angle(p.ev, prefix="reco"),
        "fov lonlat": lambda p: utils.calculate_source_fov_lonlat(p.ev),
        "gadf lonlat": lambda p: coordinates.gadf_fov_coords_lon_lat(p.lon_q, p.lat_q, 180 * u.deg, 70 * u.deg),
        "gadf polar": lambda p: coordinates.gadf_fov_coords_theta_phi(p.lon_q, p.lat_q, 180 * u.deg, 70 * u.deg),
        "cone": lambda p: utils.cone_solid_angle(p.offset),
        "rectangle": lambda p: utils.rectangle_solid_angle(p.lon[:-1], p.lon[1:], p.lat[0], p.lat[1]),
        "check_table": lambda p: utils.check_table(p.ev, p.colnames, p.colunits),
        "check_histograms": lambda p: utils.check_histograms(p.hs, p.hb),
        "hdu aeff": lambda p: gadf.create_aeff2d_hdu(p.aeff, p.energy, p.offset, **p.cards),
        "hdu psf": lambda p: gadf.create_psf_table_hdu(p.psf, p.energy, p.theta, p.offset),
        "hdu edisp": lambda p: gadf.create_energy_dispersion_hdu(p.edisp, p.energy, p.migra, p.offset, point_like=False),
        "hdu bkg2": lambda p: gadf.create_background_2d_hdu(p.bkg2, p.energy, p.offset, **p.cards),
        "hdu bkg3": lambda p: gadf.create_background_3d_hdu(p.bkg3, p.energy, p.lon, p.lat),
        "hdu rad_max": lambda p: gadf.create_rad_max_hdu(p.rad, p.energy, p.offset, EXTRA=1),
        "gammapy": lambda p: [np.array(x.quantity.value) for x in (gammapy.create_effective_area_table_2d(p.aeff, p.energy, p.offset), gammapy.create_psf_3d(p.psf, p.energy, p.theta, p.offset),
                                                                  gammapy.create_energy_dispersion_2d(p.edisp, p.energy, p.migra, p.offset))],
    }
    return ops


NAMES = None
REFERENCE = None
SPACE = SPACE.replace("{n}", "70")


def fresh(args):
    """Result of one operation as the first call in a fresh process, on the original and on the changed pool."""
    import warnings

    name, version = args
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            pool = Pool()
            if version:
                pool.shift(1)
            return snap(operations()[name](pool))
        except Exception as e:  # noqa: BLE001
            return ("error", f"{type(e).__name__}: {str(e)[:300]}")


def references():
    global NAMES, REFERENCE
    if REFERENCE is None:
        NAMES = list(operations())
        todo = [(n, v) for n in NAMES for v in (0, 1)]
        with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as p:
            REFERENCE = dict(zip(todo, p.map(fresh, todo, chunksize=1)))
    return REFERENCE


def jobs(tier):
    references()
    deep = tier == "thorough"
    order = sorted(NAMES, key=lambda n: (not n.startswith("optimize"), not n.startswith("hdu")))
    return [dict(first=n, deep=deep, part=p, parts=3 if deep else 1) for n in order for p in range(3 if deep else 1)]


def check(ops, pool, name, version, state, where):
    want = REFERENCE[name, version]
    if isinstance(want, tuple) and want and want[0] == "error":
        fail(f"{name} fails on fresh inputs: {want[1]}")
    res = ops[name](pool)
    got = snap(res)
    if not same(want, got, rtol=1e-12):
        fail(f"{name} ({where}) differs from the result in a fresh process: {str(got)[:250]} instead of {str(want)[:250]}")
    if not same(state, pool.snapshot()):
        fail(f"{name} ({where}) modified its inputs: {changed(state, pool)}")
    scramble(res, keep=pool.objects())
    if not same(state, pool.snapshot()):
        fail(f"{name} ({where}): inputs are modified through the result: {changed(state, pool)}")


def changed(state, pool):
    new = dict(pool.snapshot()[1])
    return [k for k, v in state[1] if not same(v, new[k])]


def run(job, rec):
    references()
    ops = operations()
    first = job["first"]
    start = None
    with rec.case("construct the pool of inputs"):
        start = Pool()
    if start is None:
        return
    s0 = start.snapshot()
    start.shift(1)
    s1 = start.snapshot()
    start.shift(-1)
    need(same(s0, start.snapshot()), "harness: shift is not invertible")
    pool = Pool()
    seqs = [(n,) for n in NAMES]
    if job["deep"]:
        seqs = [(a, b) for i, a in enumerate(NAMES) for b in NAMES if i % job["parts"] == job["part"]]
    for seq in seqs:
        for shifts in (False, True):
            with rec.case("calls", (first, *seq, first), "inputs changed in between" if shifts else "", steps=len(seq) + 2, traces=len(seq) + 2):
                try:
                    check(ops, pool, first, 0, s0, "first call")
                    if shifts:
                        pool.shift(1)
                    v, s = (1, s1) if shifts else (0, s0)
                    for n in seq:
                        check(ops, pool, n, v, s, "later call")
                    check(ops, pool, first, v, s, "repeated call")
                    if shifts:
                        pool.shift(-1)
                        check(ops, pool, first, 0, s0, "call with the original inputs")
                except Exception:
                    pool = Pool()
                    raise
                rec.outcome((first, seq, shifts))
