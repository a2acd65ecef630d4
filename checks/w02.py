import itertools
import math

import astropy.units as u
import numpy as np

from mc.models import ring
from mc.util import eq, layouts, need, pure, raises

from .m01 import share
from .w01 import PARAMS, make, model

SPACE = """from_simulation: all combinations of index, energy range, viewcone (points, full cones, rings), observation time, reference energy and units;
for each, every energy interval between 6 energies is integrated in closed form over area, time, solid angle and compared with the independent expectation and
with calculate_n_showers_per_energy. Weights: all pairs of 7 spectra of equal kind and event sequences up to length 3 over an energy
alphabet. integrate_cone: all spectra, cones and units; point-like fluxes must be rejected. Functional composition (simulate -> weight -> histogram) on a
deterministic power-law event list."""
ASSUMPTIONS = ["closed-form integrals of power laws, relative tolerance 1e-8"]

INDICES = [-1 - 2.0**-52, -1 - 1e-9, -1.004, -1, -1.0, -1.5, -2, -2.62, -2.718281, -4.0]
RANGES = [(0.01, 100.0), (0.3, 0.7)]
CONES = [(0.0, 0.0), (0.5, 0.5), (0.0, 5.0), (1.0, 3.0), (0.0, 0.4), (2.0, 60.0), (0.0, 0.05), (10.0, 10.05), (0.0, 1e-4), (1.0, 1.0004)]


def jobs(tier):
    return [dict(kind="sim", index=i) for i in INDICES] + [dict(kind="weights", n=3 if tier == "thorough" else 2, point=q, part=i) for q in (True, False) for i in range(4)] + [dict(kind="cone"), dict(kind="flow")]


def integral(norm, index, e_ref, a, b):
    g = index + 1
    x = math.log(b / a)
    return norm * (a / e_ref) ** index * a * (x if g == 0 else math.expm1(g * x) / g)


def sim(index, n, rng, vc, impact, units=("TeV", "m", "deg")):
    from pyirf.simulations import SimulatedEventsInfo

    return SimulatedEventsInfo(n, u.Quantity(rng[0], "TeV").to(units[0]), u.Quantity(rng[1], "TeV").to(units[-1] if len(units) > 3 else units[0]), u.Quantity(impact, "m").to(units[1]), index,
                               u.Quantity(vc[0], "deg").to("deg" if len(units) > 3 and vc[0] != vc[1] else units[2]), u.Quantity(vc[1], "deg").to(units[2]))


def run(job, rec):
    from pyirf.spectral import PowerLaw, calculate_event_weights

    if job["kind"] == "sim":
        index = job["index"]
        for rng, vc, impact, n in itertools.product(RANGES, CONES, (500.0, 2000), (1000, 1, 10**10, 7.5)):
            for obstime, e_ref, units in itertools.product((50 * u.hour, 1 * u.s, 3 * u.ms), (1 * u.TeV, 30 * u.GeV, 20 * u.TeV, 3 * u.MeV, None), (("TeV", "m", "deg"), ("GeV", "km", "rad"), ("GeV", "cm", "rad", "erg"))):
                with rec.case("index", index, "range", rng, "viewcone", vc, "impact", impact, "n", n, "time", str(obstime), "e_ref", str(e_ref), units, steps=15):
                    inf = sim(index, n, rng, vc, impact, units)
                    before = repr(inf)
                    s = PowerLaw.from_simulation(inf, obstime) if e_ref is None else PowerLaw.from_simulation(inf, obstime, e_ref=e_ref)
                    need(repr(inf) == before, "simulation info changed")
                    need(isinstance(s, PowerLaw), "no power law")
                    t = obstime.to_value("s")
                    point = vc[0] == vc[1]
                    unit = "1/(TeV s m2)" if point else "1/(TeV s m2 sr)"
                    omega = 1.0 if point else ring(math.radians(vc[0]), math.radians(vc[1]))
                    area = math.pi * impact**2
                    # three energies fix normalisation, index and reference energy
                    es = [rng[0] * (rng[1] / rng[0]) ** f for f in (0, 0.2, 0.5, 0.7, 0.9, 1)]
                    f = s(u.Quantity(es, "TeV"))
                    got = u.Quantity(f).to_value(unit)
                    need(np.isfinite(got).all() and (got > 0).all(), f"flux {got}")
                    for a, b in itertools.combinations(range(6), 2):
                        want = n * share(index, es[a], es[b], *rng)
                        ea, eb = es[a], es[b]
                        # integral of the pure power law through the returned flux at ea
                        val = integral(got[a], index, ea, ea, eb) * area * t * omega
                        need(abs(val - want) <= 1e-8 * want, f"{val} showers between {ea} and {eb} TeV, expected {want}")
                        eq(got[b], got[a] * (eb / ea) ** index, None, "spectral shape", rtol=1e-9)
                    m = u.Quantity(inf.calculate_n_showers_per_energy(u.Quantity(es, "TeV")[1:-1]))
                    eq(m, [integral(got[i], index, es[i], es[i], es[i + 1]) * area * t * omega for i in range(1, 4)], "", "showers per energy", rtol=1e-8)
                    rec.outcome((index, round(math.log10(got[0]), 3)))
        for bad in (5.0, 5 * u.m, 1 * u.TeV):
            with rec.case("obstime", str(bad)):
                raises((TypeError, u.UnitsError), PowerLaw.from_simulation, sim(index, 10, RANGES[0], CONES[2], 500.0), bad)
        return

    E = [0.01, 0.3, 1.0, 7.0, 100.0]
    if job["kind"] == "weights":
        kinds = [(k, p) for k, ps in PARAMS.items() for p in ps[:3]]
        for point in (job["point"],):
            units = ("1/(TeV s m2)", "1/(GeV s cm2)", "1/(erg s m2)") if point else ("1/(TeV s m2 sr)", "1/(GeV s cm2 sr)", "1/(TeV s m2 deg2)")
            for (k1, p1), (k2, p2) in list(itertools.product(kinds, repeat=2))[job["part"] :: 4]:
                for u1, u2 in itertools.product(units, repeat=2):
                    a, b = make(k1, 2.0, u1, p1, 1 * u.TeV), make(k2, 5e-3, u2, p2, 300 * u.GeV)
                    scale = (2.0 * u.Unit(u1) / (5e-3 * u.Unit(u2))).to_value("")
                    for n in range(1, job["n"] + 1):
                        for es in itertools.product(E, repeat=n):
                            if n == 2 and es[0] == es[1] and u1 != u2:
                                continue
                            for eu in ("TeV", "GeV") if n == 1 else ("TeV",):
                                with rec.case("target", k1, p1, u1, "simulated", k2, p2, u2, "energies", es, eu, steps=n):
                                    w = pure(calculate_event_weights, u.Quantity(es, "TeV").to(eu), a, b, again=n == 2 and es[0] < es[1] and u1 == units[0])
                                    need(not hasattr(w, "unit") or w.unit == u.one, "weights have a unit")
                                    eq(w, [scale * model(k1, 1, p1, e, 1.0) / model(k2, 1, p2, e, 0.3) for e in es], "", "weights", rtol=1e-8)
                    with rec.case("equal spectra", k1, p1, u1):
                        eq(pure(calculate_event_weights, u.Quantity(E, "TeV"), a, a), [1.0] * 5, "", "weights", rtol=1e-12)
            s1, s2 = make("PowerLaw", 2.0, units[0], (-2.62,), 1 * u.TeV), make("PowerLaw", 3.0, units[1], (-2.0,), 1 * u.TeV)
            scale = (2.0 * u.Unit(units[0]) / (3.0 * u.Unit(units[1]))).to_value("")
            for lname, arr in layouts(np.array([1.0, 2.0, 8.0, 64.0])):
                with rec.case("layout", lname):
                    eq(pure(calculate_event_weights, u.Quantity(arr, "TeV", dtype=arr.dtype, copy=False), s1, s2), scale * np.array([1.0, 2, 8, 64]) ** -0.62, "", "weights",
                       rtol=1e-5 if lname == "float32" else 1e-8)
            for size in (0, 1, 1000, 20000):
                with rec.case("number of events", size):
                    e = np.geomspace(0.01, 100, size)[::-1]
                    eq(pure(calculate_event_weights, e * u.TeV, s1, s2), scale * e**-0.62, "", "weights")
            with rec.case("scalar energy"):
                eq(pure(calculate_event_weights, 4 * u.TeV, s1, s2), scale * 4**-0.62, "", "weight")
            with rec.case("plain functions as spectra"):
                w = pure(calculate_event_weights, u.Quantity(E, "TeV"), lambda e: e.to_value("TeV") * u.Unit("1/(m2 s TeV)"), lambda e: 2 * e.to_value("GeV") * u.Unit("1/(cm2 s TeV)"))
                eq(w, [1e-4 / 2e3] * 5, "", "weights")
        with rec.case("different kinds of flux"):
            raises(u.UnitsError, calculate_event_weights, u.Quantity(E, "TeV"), make("PowerLaw", 1.0, "1/(TeV s m2)", (-2,), 1 * u.TeV), make("PowerLaw", 1.0, "1/(TeV s m2 sr)", (-2,), 1 * u.TeV))
        for bad in (np.array([1.0]), u.Quantity([1.0], "m")):
            with rec.case("energy", str(bad)):
                raises((TypeError, u.UnitsError), calculate_event_weights, bad, make("PowerLaw", 1.0, "1/(TeV s m2)", (-2,), 1 * u.TeV), make("PowerLaw", 1.0, "1/(TeV s m2)", (-2,), 1 * u.TeV))
        return

    if job["kind"] == "cone":
        cones = [(0.0, 1.0), (0.0, 0.05), (0.5, 1.5), (3.0, 10.0), (0.0, 180.0), (0.0, 90.0), (2.0, 2.01), (179.0, 180.0), (0.0004, 1.0), (0.03, 120.0), (1e-5, 1e-3)]
        for kind in ("PowerLaw", "PowerLawWithExponentialGaussian"):
            for p, unit, (lo, hi), e_ref in itertools.product(PARAMS[kind], ("1/(TeV s m2 sr)", "1/(GeV s cm2 sr)", "1/(TeV s m2 deg2)"), cones, (1 * u.TeV, 20 * u.GeV, 3 * u.MeV)):
                for ul, uh in itertools.product(("deg", "rad", "arcmin"), repeat=2):
                    with rec.case(kind, p, unit, "cone", lo, ul, hi, uh, str(e_ref), steps=3):
                        s = make(kind, 2.0, unit, p, e_ref)
                        before = s(u.Quantity(E, "TeV")).value.tolist()
                        r = pure(s.integrate_cone, (lo * u.deg).to(ul), (hi * u.deg).to(uh), again=ul == uh == "deg")
                        scale = ring(math.radians(lo), math.radians(hi)) * (1 * u.sr * u.Unit(unit)).to_value("1/(TeV s m2)")
                        eq(r(u.Quantity(E, "TeV")), [model(kind, 2.0 * scale, p, e, e_ref.to_value("TeV")) for e in E], "1/(TeV s m2)", "flux", rtol=1e-8)
                        need(s(u.Quantity(E, "TeV")).value.tolist() == before, "spectrum itself was changed")
                        raises(ValueError, r.integrate_cone, 0 * u.deg, 1 * u.deg)
                        # consecutive rings add up
                        mid = 0.5 * (lo + hi)
                        parts = sum(s.integrate_cone(a * u.deg, b * u.deg)(2 * u.TeV) for a, b in ((lo, mid), (mid, hi)))
                        eq(parts, float(r(2 * u.TeV).to_value("1/(TeV s m2)")), "1/(TeV s m2)", "sum of two rings", rtol=1e-8)
            for unit in ("1/(TeV s m2)", "1/(GeV s cm2)"):
                with rec.case(kind, unit, "point source"):
                    raises(ValueError, make(kind, 1.0, unit, PARAMS[kind][0], 1 * u.TeV).integrate_cone, 0 * u.deg, 1 * u.deg)
            for bad in ((0 * u.m, 1 * u.deg), (0 * u.deg, 1 * u.TeV), (0, 1)):
                with rec.case(kind, "bad angle", str(bad)):
                    raises((TypeError, u.UnitsError), make(kind, 1.0, "1/(TeV s m2 sr)", PARAMS[kind][0], 1 * u.TeV).integrate_cone, *bad)
        import pyirf.spectral as sp

        for name, omega in itertools.product(("PDG_ALL_PARTICLE", "IRFDOC_PROTON_SPECTRUM", "IRFDOC_ELECTRON_SPECTRUM"), cones):
            with rec.case(name, omega):
                s = getattr(sp, name)
                r = s.integrate_cone(*(omega * u.deg))
                q = u.Quantity(E, "TeV")
                eq((r(q) / s(q)), [ring(*map(math.radians, omega))] * 5, "sr", "solid angle", rtol=1e-8)
        return

    # end to end: deterministic power-law events -> weights -> expected number of events of the target spectrum
    from pyirf.binning import create_histogram_table
    from astropy.table import QTable

    for index, target, vc, units in itertools.product((-1.0, -2.0, -2.62), (-2.0, -2.7, -1.0), CONES, (("TeV", "m", "deg"), ("GeV", "km", "rad"))):
        with rec.case("simulated", index, "target", target, "viewcone", vc, units, steps=5):
            n, rng, impact, T = 20000, (0.1, 10.0), 300.0, 7200.0
            inf = sim(index, n, rng, vc, impact, units)
            g = index + 1
            q = (np.arange(n) + 0.5) / n
            e = rng[0] * (rng[1] / rng[0]) ** q if g == 0 else (rng[0] ** g + q * (rng[1] ** g - rng[0] ** g)) ** (1 / g)
            point = vc[0] == vc[1]
            omega = 1.0 if point else ring(math.radians(vc[0]), math.radians(vc[1]))
            spec = make("PowerLaw", 3e-7, "1/(TeV s m2)" if point else "1/(TeV s m2 sr)", (target,), 2 * u.TeV)
            w = calculate_event_weights(e * u.TeV, spec, PowerLaw.from_simulation(inf, T * u.s))
            ev = QTable()
            ev["reco_energy"] = (e * u.TeV).to("GeV")
            ev["weight"] = w
            edges = [0.1, 0.3, 1.0, 2.5, 10.0]
            h = create_histogram_table(ev, u.Quantity(edges, "TeV"))
            want = [integral(3e-7, target, 2.0, a, b) * math.pi * impact**2 * T * omega for a, b in zip(edges[:-1], edges[1:])]
            eq(h["n_weighted"], want, None, "expected events", rtol=5e-3)
            eq(h["n"], u.Quantity(inf.calculate_n_showers_per_energy(u.Quantity(edges, "TeV"))).to_value(""), None, "simulated events", rtol=0, atol=2)
