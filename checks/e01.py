import itertools
import math

import astropy.units as u
import numpy as np
from astropy.table import QTable

from mc.models import ring
from mc.util import eq, multisets, need, orders, pump

from .m01 import info
from .m03 import rect

SPACE = """Event lists: all multisets of up to 2 (thorough: 3) events over an alphabet of {true energy in each bin / outside} x {offset, position angle} x {reco/true ratio} x {theta}, plus lists of
up to 3000 events, for simulations of different index (incl. -1), viewcone (point-like, full cone, ring), number of showers, radius, observation time and target spectra proportional to the simulated one in other units and
with other reference energies. In every state the complete chain of public functions (PowerLaw.from_simulation, calculate_event_weights, create_histogram_table, the effective areas, migration matrix,
dispersion, PSF and background functions) is run and the IRFs, folded with the analytic integral of the target spectrum, are compared with the weighted events."""
ASSUMPTIONS = ["target spectra have the index of the simulation (for others the effective area depends on the spectrum within a bin)",
               "reco energy, theta and field-of-view binnings of the folded quantity contain all events, lon/lat bins lie completely inside the viewcone"]

E_BINS = [[0.02, 0.5, 8.0], [0.01, 0.1, 1.0, 3.0, 100.0], [0.25, 4.0]]
F_BINS = [[0.0, 1.0, 2.0, 2.75], [0.5, 2.5, 5.5], [0.0, 0.5, 1.0, 2.0, 2.5]]
PA = [[0.0, 90.0, 360.0], [0.0, 30.0, 100.0, 180.0, 360.0], [0.0, 360.0]]
RECO = [1e-4, 0.05, 0.4, 2.0, 30.0, 1e4]
MIGRA = [0.0, 0.5, 0.9, 1.0, 1.3, 4.0]
RAD = [0.0, 0.05, 0.1, 0.3, 3.0]
LON = [[-2.0, -0.5, 1.0], [-1.5, -1.0, 0.0, 1.5], [-1.75, 1.75]]
LAT = [[-2.0, 0.5, 1.0, 2.0], [-1.5, 0.25, 1.5], [-1.75, 0.0, 1.0, 1.25, 1.75]]
SIMS = [  # index, showers, viewcone, radius (m), observation time
    (-2.0, 1000, (0.0, 3.0), 500.0, 50 * u.hour), (-1, 12345.0, (0.0, 4.0), 1000.0, 1 * u.s), (-2.7, 10**9, (0.0, 3.5), 120.0, 30 * u.min), (-1.5, 77, (0.25, 5.0), 2.0, 3 * u.day),
]
TARGETS = [  # factor, reference energy, flux unit
    (1.0, 1 * u.TeV, "1/(TeV s m2 sr)"), (3e-5, 100 * u.GeV, "1/(GeV s cm2 sr)"), (4e7, 2 * u.erg, "1/(erg h km2 deg2)"),
]


def jobs(tier):
    return [dict(bins=b, sim=s, depth=3 if tier == "thorough" else 2) for b in range(3) for s in range(4)] + [dict(bins=b, sim=s, point=True, depth=3) for b in range(3) for s in range(4)]


def power(index, norm, ref, lo, hi):
    """integral of norm (E / ref)^index"""
    g = index + 1
    f = math.log(hi / lo) if g == 0 else (hi**g - lo**g) / g
    return norm * ref**-index * f


def build(evs):
    t = QTable()
    t["true_energy"] = u.Quantity([e[0] for e in evs], "TeV", dtype=float)
    t["reco_energy"] = t["true_energy"] * np.array([e[3] for e in evs], dtype=float)
    t["true_source_fov_offset"] = u.Quantity([e[1] for e in evs], "deg", dtype=float)
    t["true_source_fov_position_angle"] = u.Quantity([e[2] for e in evs], "deg", dtype=float)
    t["theta"] = u.Quantity([e[4] for e in evs], "deg", dtype=float)
    # position in the field of view
    r, p = [math.radians(e[1]) for e in evs], [math.radians(e[2]) for e in evs]
    lat = [math.asin(math.sin(a) * math.cos(b)) for a, b in zip(r, p)]
    lon = [math.atan2(math.sin(a) * math.sin(b), math.cos(a)) for a, b in zip(r, p)]
    for pre in ("true", "reco"):
        t[f"{pre}_source_fov_lon"] = u.Quantity(np.degrees(lon), "deg", dtype=float)
        t[f"{pre}_source_fov_lat"] = u.Quantity(np.degrees(lat), "deg", dtype=float)
    t["reco_source_fov_offset"] = t["true_source_fov_offset"].copy()
    return t


def alphabet(e, f, vc):
    es = [0.7 * e[0] + 0.3 * e[1], 0.4 * e[-2] + 0.6 * e[-1], 0.9 * e[0] if e[0] > 0.01 else 1.01 * e[0]]
    fs = [(0.6 * f[0] + 0.4 * f[1], 50.0), (0.3 * f[-2] + 0.7 * f[-1], 200.0), (0.9 * f[-1] if f[-1] > 2.6 else 1.05 * f[-1], 310.0)]
    if f[-1] > vc[1]:  # all events are inside of the viewcone, one exactly at its edge
        fs = [(1.1 * f[0], 50.0), (0.3 * f[-2] + 0.7 * vc[1], 200.0), (vc[1], 310.0)]
    out = []
    for k, (a, b) in enumerate(itertools.product(es, fs)):
        out.append((a, *b, (0.3, 0.95, 1.7, 1.1)[k % 4], (0.02, 0.2, 0.07)[k % 3]))
    out += [(es[0], *fs[0], 2.5, 0.5), (es[1], fs[0][0], 20.0, 0.7, 0.01)]
    return out


def chain(evs, job, target, point, rec):
    from pyirf import irf
    from pyirf.binning import create_histogram_table
    from pyirf.irf.energy_dispersion import energy_migration_matrix
    from pyirf.spectral import PowerLaw, calculate_event_weights

    e, f, pa, lon, lat = (x[job["bins"]] for x in (E_BINS, F_BINS, PA, LON, LAT))
    index, n, vc, impact, t_obs = SIMS[job["sim"]]
    if point:
        vc = (0.0, 0.0)
    sim = info(index, n, vc=vc, impact=impact)
    ev = build(evs)
    E, F, R, RA, LO, LA = e * u.TeV, f * u.deg, RECO * u.TeV, RAD * u.deg, lon * u.deg, lat * u.deg
    simulated = PowerLaw.from_simulation(sim, t_obs)
    factor, ref, unit = target
    flux = simulated(ref) * factor
    flux = flux.to(unit.replace(" sr", "").replace(" deg2", "") if point else unit)
    spec = PowerLaw(flux, index, ref)
    ev["weight"] = calculate_event_weights(ev["true_energy"], spec, simulated)
    eq(ev["weight"], np.full(len(evs), factor), None, "weights")

    # the expected flux from first principles
    area = math.pi * impact**2
    sec = t_obs.to_value("s")
    omega_vc = 1.0 if point else ring(math.radians(vc[0]), math.radians(vc[1]))
    norm = factor * n / (area * sec * omega_vc * power(index, 1.0, 1.0, 0.01, 100.0))  # at 1 TeV, per TeV s m2 (sr)
    eq(spec(u.Quantity([0.3, 1.0, 70.0], "TeV")), [norm * x**index for x in (0.3, 1.0, 70.0)], "1/(TeV s m2)" if point else "1/(TeV s m2 sr)", "target flux", rtol=1e-9)
    phi = np.array([power(index, norm, 1.0, a, b) for a, b in zip(e[:-1], e[1:])]) * sec  # per m2 (sr)
    rings = np.array([ring(math.radians(a), math.radians(b)) for a, b in zip(f[:-1], f[1:])])

    # effective area x spectrum = weighted events
    hist = create_histogram_table(ev, E, key="true_energy")
    a = irf.effective_area_per_energy(ev, sim, E)
    eq(a.to_value("m2") * phi * omega_vc, hist["n_weighted"], None, "effective area x flux per energy", rtol=1e-9)
    if point:
        return np.asarray(hist["n"]).tolist()

    inside = (ev["true_source_fov_offset"] >= F[0]) & (ev["true_source_fov_offset"] <= F[-1])
    sel = ev[inside]
    per_fov = [ev[(ev["true_source_fov_offset"] >= lo) & (ev["true_source_fov_offset"] < hi)] for lo, hi in zip(F[:-1], F[1:])]
    counts = np.array([create_histogram_table(x, E, key="true_energy")["n_weighted"] for x in per_fov]).reshape(len(f) - 1, len(e) - 1).T
    # rings are partly outside of the viewcone
    part = np.array([max(0.0, ring(math.radians(max(x, vc[0])), math.radians(min(y, vc[1])))) if min(y, vc[1]) > max(x, vc[0]) else 0.0 for x, y in zip(f[:-1], f[1:])])
    a2 = irf.effective_area_per_energy_and_fov(ev, sim, E, F)
    predicted = a2.to_value("m2") * phi[:, None] * part
    eq(predicted, counts, None, "effective area x flux per energy and offset", rtol=1e-8)
    a3 = irf.effective_area_3d_polar(ev, sim, E, F, pa * u.deg).to_value("m2")
    eq((a3 * phi[:, None, None] * part[:, None] * (np.diff(pa) / 360.0)).sum(axis=2), counts, None, "3d effective area (polar) x flux", rtol=1e-8)
    one = ev[(ev["true_source_fov_lon"] >= LO[0]) & (ev["true_source_fov_lon"] < LO[-1]) & (ev["true_source_fov_lat"] >= LA[0]) & (ev["true_source_fov_lat"] < LA[-1])]
    if vc[0] == 0:
        al = irf.effective_area_3d_lonlat(ev, sim, E, LO, LA).to_value("m2")
        om = np.array([[rect(x, y, v, w) for v, w in zip(lat[:-1], lat[1:])] for x, y in zip(lon[:-1], lon[1:])])
        eq((al * phi[:, None, None] * om).sum(axis=(1, 2)), create_histogram_table(one, E, key="true_energy")["n_weighted"], None, "3d effective area (lon/lat) x flux", rtol=1e-8)

    # folding with the migration matrix predicts the reconstructed energies
    trig = sel[(sel["true_energy"] >= E[0]) & (sel["true_energy"] <= E[-1])]
    m = energy_migration_matrix(ev, E, R, F)
    h = create_histogram_table(trig, R)
    eq(np.einsum("ik,ijk->j", predicted, m), h["n_weighted"], None, "folded reco energies", rtol=1e-8)
    d = irf.energy_dispersion(ev, E, F, np.array(MIGRA))
    ratio = trig["reco_energy"] / trig["true_energy"]
    for j, (lo, hi) in enumerate(zip(MIGRA[:-1], MIGRA[1:])):
        w = trig["weight"][(ratio >= lo) & (ratio < hi)].sum()
        eq((predicted * d[:, j, :] * (hi - lo)).sum(), w, None, f"folded migration {lo}..{hi}", rtol=1e-8, atol=1e-12 * factor)
    # ... and the PSF the distances
    p = irf.psf_table(ev, E, RA, F).to_value("1/sr")
    for j, (lo, hi) in enumerate(zip(RAD[:-1], RAD[1:])):
        w = trig["weight"][(trig["theta"] >= lo * u.deg) & (trig["theta"] < hi * u.deg)].sum()
        eq((predicted * p[:, :, j]).sum() * ring(math.radians(lo), math.radians(hi)), w, None, f"folded PSF {lo}..{hi} deg", rtol=1e-7, atol=1e-12 * factor)

    # background rates x time, energy and solid angle
    b2 = irf.background_2d(ev, R, F, t_obs).to_value("1/(s TeV sr)") * sec
    eq((b2 * rings).sum(axis=1) * np.diff(RECO), create_histogram_table(sel, R)["n_weighted"], None, "background rate 2d", rtol=1e-8)
    b3 = irf.background_3d_lonlat(ev, R, LO, LA, t_obs).to_value("1/(s TeV sr)") * sec
    om = np.array([[rect(x, y, v, w) for v, w in zip(lat[:-1], lat[1:])] for x, y in zip(lon[:-1], lon[1:])])
    eq((b3 * om).sum(axis=(1, 2)) * np.diff(RECO), create_histogram_table(one, R)["n_weighted"], None, "background rate 3d", rtol=1e-8)
    need(len(trig) <= len(ev), "")
    return counts.tolist()


def run(job, rec):
    point = job.get("point", False)
    e, f = E_BINS[job["bins"]], F_BINS[job["bins"]]
    vc = SIMS[job["sim"]][2]
    al = alphabet(e, f, vc)
    lists = [list(o) for h in multisets(al, job["depth"], 0) for o in list(orders(h))[: 1 if len(h) > 1 else 2]]
    base = [(e[0] * (e[-1] / e[0]) ** ((0.5 + (7 * k) % 89) / 90), f[0] + (min(f[-1], vc[1]) - f[0]) * ((11 * k) % 83 + 0.5) / 84, (37.7 * k) % 360, 0.05 + 0.083 * (k % 31), 0.004 * (k % 97) + 0.001) for k in range(89 * 4)]
    lists += [pump(base, n) for n in (40, 300, 3000)]
    for j, evs in enumerate(lists):
        target = TARGETS[j % 3]
        with rec.case("bins", job["bins"], "simulation", SIMS[job["sim"]][:4], "point-like" if point else "", "target", target, evs[:3], len(evs), "events", steps=max(1, len(evs))):
            rec.outcome((j, chain(evs, job, target, point, rec)))
