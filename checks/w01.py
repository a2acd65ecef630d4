import itertools
import math

import astropy.units as u
import numpy as np

from mc.util import eq, layouts, need, pure, raises

SPACE = """All combinations of model, parameter sets (normalisation unit and value, index, reference energy, curvature, bump), energies
(scalar, 0-d, 1-d, 2-d; sequences over an energy alphabet up to length 3 in every order) and energy units; all predefined spectra with the published
parameters; all invalid normalisations and indices of a list; evaluation sequences on one object."""
ASSUMPTIONS = ["fluxes below 1e-290 are not judged"]

UNITS = {
    "1/(TeV s m2)": 1.0, "1/(GeV s cm2)": None, "1/(TeV s cm2 sr)": None, "1/(GeV m2 s sr)": None, "1/(erg s cm2 deg2)": None,
}
ENERGIES = [1e-3, 0.02, 0.5, 1.0, 3.7, 10.0, 250.0]


def model(kind, norm, p, e, e_ref):
    x = e / e_ref
    if kind == "PowerLaw":
        return norm * math.pow(x, p[0])
    if kind == "LogParabola":
        return norm * math.pow(x, p[0] + p[1] * math.log10(x))
    idx, f, mu, sig = p
    g = math.exp(-0.5 * ((math.log10(x) - mu) / sig) ** 2)
    return norm * math.pow(x, idx) * (1 + f * (math.exp(g) - 1))


PARAMS = {
    "PowerLaw": [(-2.62,), (-1.0,), (0.0,), (0,), (-2,), (-5.5,)],
    "LogParabola": [(-2.47, -0.24), (-2.0, 0.1), (0.0, 0.0), (1.0, -0.5), (-2, 0)],
    "PowerLawWithExponentialGaussian": [(-3.43, 1.95, -0.101, 0.741), (-2.0, 0.0, 0.0, 1.0), (-2, 5.0, 1.0, 0.1), (-1.0, -0.5, -2.0, 2.0)],
}


def make(kind, norm, unit, p, e_ref):
    import pyirf.spectral as sp

    n = u.Quantity(norm, unit)
    cls = getattr(sp, kind)
    if kind == "PowerLaw":
        return cls(n, p[0], e_ref)
    if kind == "LogParabola":
        return cls(n, p[0], p[1], e_ref)
    return cls(normalization=n, index=p[0], e_ref=e_ref, f=p[1], mu=p[2], sigma=p[3])


def jobs(tier):
    return [dict(kind=k, p=list(p), deep=tier == "thorough") for k, ps in PARAMS.items() for p in ps] + [dict(kind="predefined"), dict(kind="reject")]


PREDEFINED = {
    "CRAB_HEGRA": ("PowerLaw", 2.83e-11, "1/(TeV cm2 s)", (-2.62,), 1.0),
    "CRAB_MAGIC_JHEAP2015": ("LogParabola", 3.23e-11, "1/(TeV cm2 s)", (-2.47, -0.24), 1.0),
    "PDG_ALL_PARTICLE": ("PowerLaw", 1.8e4, "1/(GeV m2 s sr)", (-2.7,), 1e-3),
    "IRFDOC_PROTON_SPECTRUM": ("PowerLaw", 9.8e-6, "1/(TeV cm2 s sr)", (-2.62,), 1.0),
    "IRFDOC_ELECTRON_SPECTRUM": ("PowerLawWithExponentialGaussian", 2.385e-9, "1/(TeV cm2 s sr)", (-3.43, 1.950, -0.101, 0.741), 1.0),
}


def run(job, rec):
    import pyirf.spectral as sp

    if job["kind"] == "predefined":
        for name, (kind, norm, unit, p, e_ref) in PREDEFINED.items():
            s = getattr(sp, name)
            for k in (1, 2, 3):
                for es in itertools.product(ENERGIES[::2], repeat=k):
                    for eu in ("TeV", "GeV", "MeV", "erg"):
                        with rec.case(name, es, eu, steps=k):
                            r = pure(s, u.Quantity(es, "TeV").to(eu), again=k == 2)
                            eq(r, [model(kind, norm, p, e, e_ref) for e in es], unit, name, rtol=1e-8)
                            need(r.unit == u.Unit(unit), f"unit {r.unit}")
                            rec.outcome(np.asarray(r.value).tolist())
        with rec.case("unit constants"):
            need(sp.POINT_SOURCE_FLUX_UNIT.is_equivalent(u.Unit("1/(TeV s m2)")), "point source flux unit")
            need(sp.DIFFUSE_FLUX_UNIT.is_equivalent(u.Unit("1/(TeV s m2 sr)")), "diffuse flux unit")
            eq(1 * sp.POINT_SOURCE_FLUX_UNIT, 1.0, "1/(TeV s m2)", "point")
            eq(1 * sp.DIFFUSE_FLUX_UNIT, 1.0, "1/(TeV s m2 sr)", "diffuse")
        return
    if job["kind"] == "reject":
        ok = dict(PowerLaw=(-2.0,), LogParabola=(-2.0, -0.1), PowerLawWithExponentialGaussian=(-2.0, 1.0, 0.0, 1.0))
        for kind, p in ok.items():
            for unit in ("1/(TeV s)", "1/(s m2)", "TeV", "", "1/(TeV s m)", "m2", "TeV/(s m2)", "1/(TeV m2)", "1/(TeV s m2 sr2)", "1/(TeV s m2 m)", "TeV s m2"):
                with rec.case(kind, "normalisation in", unit):
                    raises((TypeError, u.UnitsError), make, kind, 1.0, unit, p, 1 * u.TeV)
            for bad in (1 * u.m, 1 * u.s, 1.0, 1 * u.Unit("1/TeV")):
                with rec.case(kind, "e_ref", str(bad)):
                    raises((TypeError, u.UnitsError), make, kind, 1.0, "1/(TeV s m2)", p, bad)
            for bad in (1 * u.m, u.Quantity([1.0, 2.0], "s"), 5.0, np.array([1.0])):
                with rec.case(kind, "energy", str(bad)):
                    raises((TypeError, u.UnitsError), make(kind, 1.0, "1/(TeV s m2)", p, 1 * u.TeV), bad)
            with rec.case(kind, "plain number as normalisation"):
                import pyirf.spectral as sp2

                raises((TypeError, u.UnitsError), getattr(sp2, kind), 1.0, *p)
            for e_ref in (1 * u.TeV, 5 * u.GeV):
                for idx in (1, 0.5, 1e-9, 2.62, 5):
                    if kind != "LogParabola":
                        with rec.case(kind, "index", idx):
                            raises(ValueError, make, kind, 1.0, "1/(TeV s m2)", (idx,) + p[1:], e_ref)
        return

    kind, p = job["kind"], tuple(job["p"])
    for unit in UNITS:
        for norm in (1.0, 2.83e-11, 3, 1.8e4):
            for e_ref, ru in itertools.product((1.0, 0.03, 20.0), ("TeV", "GeV", "erg")):
                q_ref = u.Quantity(e_ref, "TeV").to(ru)
                s = make(kind, norm, unit, p, q_ref)
                depth = 3 if (norm == 3 and (job["deep"] or ru == "TeV")) else 2 if ru == "TeV" else 1
                for k in range(1, depth + 1):
                    for es in itertools.product(ENERGIES if k < 3 else ENERGIES[1:6:2], repeat=k):
                        for eu in ("TeV", "GeV") if k == 1 else ("TeV",) if sum(map(ENERGIES.index, es)) % 2 else ("MeV",):
                            with rec.case(kind, p, norm, unit, "e_ref", str(q_ref), "energy", es, eu, steps=k):
                                r = pure(s, u.Quantity(es, "TeV").to(eu), again=False)
                                eq(r, [model(kind, float(norm), p, e, e_ref) for e in es], unit, "flux", rtol=1e-8)
                                need(r.unit == u.Unit(unit), f"unit {r.unit} instead of {unit}")
    e_ref = 0.5
    for unit in UNITS:
        s = make(kind, 2.0, unit, p, 500 * u.GeV)
        attrs = (float(s.normalization.value), str(s.normalization.unit), str(s.e_ref))
        for e in ENERGIES:
            for q in (e * u.TeV, u.Quantity(np.float32(e), "TeV"), u.Quantity(np.array(e), "TeV"), u.Quantity(np.array([[e]]), "TeV")):
                with rec.case(kind, p, unit, "scalar/0-d/2-d", repr(q)):
                    r = pure(s, q)
                    need(np.shape(r) == q.shape, f"shape {np.shape(r)}")
                    eq(r, np.reshape(model(kind, 2.0, p, float(q.ravel()[0].value), e_ref), q.shape), unit, "flux", rtol=1e-5 if q.dtype == "f4" else 1e-8)
            if e == int(e):
                with rec.case(kind, p, unit, "integer energy", e):
                    eq(pure(s, u.Quantity(int(e), "TeV", dtype=int)), model(kind, 2.0, p, e, e_ref), unit, "flux", rtol=1e-8)
        for lname, arr in layouts(np.array([1.0, 2.0, 8.0, 64.0])):
            with rec.case(kind, p, unit, "layout", lname):
                r = pure(s, u.Quantity(arr, "TeV", dtype=arr.dtype, copy=False))
                eq(r, [model(kind, 2.0, p, e, e_ref) for e in (1.0, 2.0, 8.0, 64.0)], unit, "flux", rtol=1e-5 if lname == "float32" else 1e-8)
        for shape in ((0,), (2, 3), (3, 1, 2), (5000,)):
            with rec.case(kind, p, unit, "shape", shape):
                e = np.geomspace(0.01, 100, int(np.prod(shape))).reshape(shape)
                r = pure(s, e * u.TeV)
                eq(r, np.array([model(kind, 2.0, p, float(x), e_ref) for x in e.ravel()]).reshape(shape), unit, "flux", rtol=1e-8)
        with rec.case(kind, p, unit, "object unchanged after all calls", steps=20):
            need(attrs == (float(s.normalization.value), str(s.normalization.unit), str(s.e_ref)), "attributes changed")
            repr(s)
    # default reference energy of 1 TeV
    if kind != "PowerLawWithExponentialGaussian":
        with rec.case(kind, p, "default reference energy"):
            s = getattr(sp, kind)(u.Quantity(2.0, "1/(TeV s m2)"), *p)
            eq(s(u.Quantity(ENERGIES, "TeV").to("GeV")), [model(kind, 2.0, p, e, 1.0) for e in ENERGIES], "1/(TeV s m2)", "flux", rtol=1e-8)
